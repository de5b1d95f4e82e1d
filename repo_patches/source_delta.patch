From 13f00a213e4a15f34e2079aed141346eb2aa0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 01/17] fix: recompute the sink side after the last push in
 PushRelabelFifo

---
 src/graphcut/push_relabel_fifo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..26041ec 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,8 @@ where
                 self.global_relabel();
             }
         }
+        // the labels of inactive vertices may be stale: recompute which vertices reach the sink
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From e3eb2bcf7fc73ccd190434b5311aaf0da33e4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 02/17] fix: report free nodes of GraphCut on the source side

---
 src/graphcut/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..b533eef 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,10 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // a free node belongs to neither tree and its flag may be stale: it is on the source side
+        for (is_sink, &parent) in self.is_sink.iter_mut().zip(&self.parent) {
+            *is_sink &= parent != INVALID_IND;
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From b1145a1e8550ddd0fa7bc15265fc5617c6c655be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 03/17] fix: use the x tail of c-d in the last tail products of
 orient3d

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From 57bd1dbfd8971e4934e0c41fdd728a12d1367810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/17] fix: add every component of the second operand in
 expansion_sum

---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..81b895d 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From 590f511106ebe68b0364acf4c451773dfc1a3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 05/17] fix: store the negated lower bound in
 IntervalNumber::new

---
 src/predicates/interval_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..bc15694 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
-- 
2.43.0


From 87bd60548b2a834401f3a0cb3057369b735314fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 06/17] fix: IntervalNumber::positive and negative were
 exchanged

---
 src/predicates/interval_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index bc15694..a710b29 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
-- 
2.43.0


From 48d890eba751dfae2fa15e3b9b22fbac8dbf4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 07/17] fix: bounds of interval products with an operand that
 straddles zero

---
 src/predicates/interval_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index a710b29..b0c028b 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From ae4824f9fce4b2f5825fa4785388447a47d31e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 08/17] fix: reverse the answer where less_than_on_{x,y,z}
 exchange their arguments

---
 src/predicates/less_than.rs | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..415a20c 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,26 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_x_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_x_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_x_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +28,19 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_y_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_y_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_y_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +48,19 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_z_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_z_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_z_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
-- 
2.43.0


From 533a633a192ef283091cc026fb2c0f9559079ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 09/17] fix: compare the same axis of both points in the
 interval filter of less_than

---
 src/predicates/less_than.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 415a20c..a4627bc 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -467,9 +467,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From 0e19e502f42aeac7f7acd4670d2d62f06128dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 10/17] fix: mark the part of a constrained segment before a
 collinear vertex

---
 src/triangle/triangle.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..ac4b925 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1157,18 +1157,17 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint2 { mark } else { twin(mark) },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From fc9dc42b199e8571b596f0cdf7b824e1216d0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 11/17] fix: restart the search from a new tetrahedron after
 filling a large cavity

---
 src/triangle/tetrahedron.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..a781b70 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1058,10 +1058,10 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
                     tets.p2t[vid] = newtet.tet;
                 }
             }
-        }
 
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
+            // pick a new tet
+            *searchtet = newtet;
+        }
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From a91ce6379f71ffbdfcd665ce607165eaad50ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 12/17] fix: skip a duplicate point in tetrahedralize instead
 of stopping there

---
 src/triangle/tetrahedron.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index a781b70..c41d107 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1216,9 +1216,8 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
-        if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-            break;
-        }
+        // a duplicate of an inserted point belongs to no tetrahedron
+        insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump);
     }
 
     let mut count = 0;
@@ -1242,6 +1241,9 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
 
     // make p2t[i] not be a ghost
     for i in 0..mesh.n_points {
+        if mesh.p2t[i] == INVALID_IND {
+            continue;
+        }
         mesh.p2t[i] = tet_map[mesh.p2t[i]];
         if mesh.is_hull_tet(mesh.p2t[i]) {
             mesh.p2t[i] = mesh.tets[mesh.p2t[i]].nei[3].tet;
-- 
2.43.0


From f3bb713c79aa86b35f835637e0fc1652157ac254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 13/17] fix: merge points that are equal after snapping in
 remove_duplicates

---
 src/polygonlization/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..8f69df3 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -27,12 +27,16 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From fe73821a2c6d771a548688d62215dcbcfab80b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 14/17] fix: mark a tetrahedron whose edge is crossed by a side
 of the constraint

constraint_intersect_empty only looked for sides that cross the interior of
a face, so a constraint that enters the tetrahedron through its edges was not
inserted there and the output had a hole in the constraint.
---
 src/polygonlization/conforming_mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..a450472 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -914,7 +914,7 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
 
     for (&v1, &v2) in c.iter().circular_tuple_windows() {
         for (&va, &vb, &vc) in mesh.tets[tid].data.iter().circular_tuple_windows() {
-            if vert_inner_segment_cross_inner_triangle(mesh, v1, v2, va, vb, vc, bump) {
+            if vert_inner_segment_cross_triangle(mesh, v1, v2, &[va, vb, vc], bump) {
                 return true;
             }
         }
-- 
2.43.0


From 69b436acaa0c6abd2b2d776a01e81332a6e4d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 15/17] fix: intersect coplanar triangles of opposite
 orientation with a cell section

The section polygon is oriented like the last of the coplanar triangles, but
the orientation of each of them was used for it, so triangles of the opposite
orientation were dropped.
---
 src/polygonlization/bsp_complex.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..a1cce41 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1883,12 +1883,17 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
     {
         for (&pa, &pb) in poly.iter().circular_tuple_windows() {
             let mut has_inside = false;
+            // the polygon may be oriented opposite to the triangle
+            let poly_ori = poly
+                .iter()
+                .map(|&pc| orient2d::orient2d_by_axis(pa, pb, pc, axis, alloc))
+                .find(|&ori| ori != Orientation::Zero);
             for &pc in tri {
                 let ori = orient2d::orient2d_by_axis(pa, pb, pc, axis, alloc);
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if Some(ori) == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From 5ea8dbdcd714d9171ab3e57d66662cfa7e82a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 16/17] fix: drop a colinear vertex from the output only if
 every outline does

merge_colinear_edges decided per outline, so a vertex could be dropped from
one face and kept in its neighbour and the output surface was not closed.
---
 src/polygonlization/bsp_complex.rs | 213 +++++++----------------------
 1 file changed, 53 insertions(+), 160 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index a1cce41..47300e9 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -21,22 +21,6 @@ use crate::{
 
 use super::{conforming_mesh::Constraints, point};
 
-struct EdgeGroup {
-    edges: Vec<(EdgeId, bool)>,
-}
-
-impl EdgeGroup {
-    #[inline(always)]
-    fn new(edges: Vec<(EdgeId, bool)>) -> Self {
-        Self { edges }
-    }
-
-    #[inline(always)]
-    fn position(&self, eid: EdgeId) -> usize {
-        self.edges.iter().rposition(|he| he.0 == eid).unwrap()
-    }
-}
-
 #[derive(Clone)]
 struct BSPVertexData {
     parent: [VertexId; 2],
@@ -865,8 +849,6 @@ impl BSPComplex {
         }
 
         let mut bump = Bump::new();
-        let mut edge_groups = Vec::new();
-        let mut edge_in_group = vec![INVALID_IND; self.edge_data.len()];
 
         let group_map = ds.output();
         let mut face_in_group = vec![INVALID_IND; self.face_data.len()];
@@ -882,7 +864,7 @@ impl BSPComplex {
             groups
         }));
 
-        Vec::from_iter(group_map.into_values().map(|indices| {
+        let face_outlines = Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
             let mut tid = INVALID_IND;
             let mut base_fid = FaceId::default();
@@ -897,7 +879,7 @@ impl BSPComplex {
                 fid
             }));
 
-            let outline_groups = self.extract_faces_outlines(&faces, &kept_faces, &bump);
+            let outlines = self.extract_faces_outlines(&faces, &kept_faces, &bump);
 
             let axis = if tid != INVALID_IND {
                 self.tri_axes[tid]
@@ -908,15 +890,31 @@ impl BSPComplex {
                 max_comp_in_tri_normal(pa, pb, pc, &bump)
             };
 
+            (outlines, axis)
+        }));
+
+        // a vertex can only be dropped when every outline goes straight through it
+        let mut is_corner = vec![false; self.vertex_data.len()];
+        for (outlines, axis) in &face_outlines {
+            bump.reset();
+            for (prev, next) in outlines
+                .iter()
+                .flat_map(|outline| outline.iter().circular_tuple_windows())
+            {
+                if !self.colinear_edges(prev, next, &edge_face_groups, *axis, &bump) {
+                    is_corner[self.end_vertex(prev)] = true;
+                }
+            }
+        }
+
+        Vec::from_iter(face_outlines.into_iter().map(|(outlines, axis)| {
             (
-                Vec::from_iter(outline_groups.into_iter().map(|outline| {
-                    self.merge_colinear_edges(
-                        outline,
-                        &mut edge_groups,
-                        &mut edge_in_group,
-                        &edge_face_groups,
-                        axis,
-                        &bump,
+                Vec::from_iter(outlines.into_iter().map(|outline| {
+                    Vec::from_iter(
+                        outline
+                            .iter()
+                            .map(|he| self.end_vertex(he))
+                            .filter(|&vid| is_corner[vid]),
                     )
                 })),
                 axis,
@@ -1001,14 +999,6 @@ impl BSPComplex {
             }
         }
 
-        let end_vertex = |he: &(EdgeId, bool)| {
-            if he.1 {
-                self.mesh.he_vertex(self.mesh.e_halfedge(he.0))
-            } else {
-                self.mesh.he_tip_vertex(self.mesh.e_halfedge(he.0))
-            }
-        };
-
         let mut visisted = std::vec::from_elem_in(false, halfedges.len(), bump);
 
         let mut outlines = Vec::new();
@@ -1020,7 +1010,7 @@ impl BSPComplex {
             let mut outline = vec![he.clone()];
             loop {
                 let he = outline.last().unwrap();
-                let vb = end_vertex(he);
+                let vb = self.end_vertex(he);
                 let next_hid_candidates = vert_out_edge_map.get(&vb).unwrap();
                 let next_hid = match next_hid_candidates {
                     HalfedgeGroup::Single(idx) => *idx,
@@ -1056,135 +1046,38 @@ impl BSPComplex {
         outlines
     }
 
-    fn merge_colinear_edges<A: Allocator + Copy>(
+    #[inline(always)]
+    fn end_vertex(&self, he: &(EdgeId, bool)) -> VertexId {
+        if he.1 {
+            self.mesh.he_vertex(self.mesh.e_halfedge(he.0))
+        } else {
+            self.mesh.he_tip_vertex(self.mesh.e_halfedge(he.0))
+        }
+    }
+
+    /// whether two consecutive edges of an outline bound the same faces and are colinear
+    fn colinear_edges<A: Allocator + Copy>(
         &self,
-        outline: Vec<(EdgeId, bool)>,
-        edge_groups: &mut Vec<EdgeGroup>,
-        edge_in_group: &mut [usize],
+        ha: &(EdgeId, bool),
+        hb: &(EdgeId, bool),
         edge_face_groups: &[Vec<usize>],
         axis: usize,
         bump: A,
-    ) -> Vec<VertexId> {
-        enum Edge {
-            Edges(Vec<(EdgeId, bool)>),
-            Group((usize, bool)),
-        }
-        let end_vertex = |he: &(EdgeId, bool)| {
-            if he.1 {
-                self.mesh.he_vertex(self.mesh.e_halfedge(he.0))
-            } else {
-                self.mesh.he_tip_vertex(self.mesh.e_halfedge(he.0))
-            }
-        };
-
-        let colinear = |ha: &(EdgeId, bool), hb: &(EdgeId, bool)| {
-            let ea = ha.0;
-            let eb = hb.0;
-            if edge_face_groups[ea] != edge_face_groups[eb] {
-                return false;
-            }
-
-            if self.edge_data[ha.0].id == self.edge_data[hb.0].id {
-                return true;
-            }
+    ) -> bool {
+        let ea = ha.0;
+        let eb = hb.0;
+        if edge_face_groups[ea] != edge_face_groups[eb] {
+            return false;
+        }
 
-            let [va, vb] = self.mesh.e_vertices(ea);
-            let vc = end_vertex(hb);
-            let [pa, pb, pc] = [va, vb, vc].map(|vid| &self.points[vid]);
-            orient2d::orient2d_by_axis(pa, pb, pc, axis, bump) == Orientation::Zero
-        };
-        let start_idx = outline
-            .iter()
-            .position(|he| edge_in_group[he.0] == INVALID_IND);
-        let halfedges = if let Some(start_idx) = start_idx {
-            let mut halfedges = Vec::<Edge>::new();
-            let mut cur_group = Vec::new();
-            for i in 0..outline.len() {
-                let idx = i + start_idx;
-                let he = &outline[idx];
-                let group_id = edge_in_group[he.0];
-                if group_id != INVALID_IND {
-                    if !cur_group.is_empty() {
-                        halfedges.push(Edge::Edges(cur_group));
-                        cur_group = Vec::new();
-                    }
-                    if let Some(prev_group) = halfedges.last() {
-                        if let Edge::Group(prev_group) = prev_group {
-                            if group_id == prev_group.0 {
-                                continue;
-                            }
-                        }
-                    }
-                    let group = &edge_groups[group_id];
-                    let pos = group.position(he.0);
-                    if group.edges[pos].1 == he.1 {
-                        halfedges.push(Edge::Group((group_id, false)));
-                    } else {
-                        halfedges.push(Edge::Group((group_id, true)));
-                    }
-                } else {
-                    if let Some(prev) = cur_group.last() {
-                        if colinear(prev, he) {
-                            cur_group.push(he.clone());
-                        } else {
-                            halfedges.push(Edge::Edges(cur_group));
-                            cur_group = vec![he.clone()];
-                        }
-                    } else {
-                        cur_group.push(he.clone());
-                    }
-                }
-            }
-            if !cur_group.is_empty() {
-                if let Edge::Edges(first_group) = &halfedges[0] {
-                    if colinear(cur_group.last().unwrap(), &first_group[0]) {
-                        cur_group.extend(first_group);
-                        halfedges[0] = Edge::Edges(cur_group);
-                    } else {
-                        halfedges.push(Edge::Edges(cur_group));
-                    }
-                }
-            }
-            Vec::from_iter(halfedges.into_iter().map(|ele| match ele {
-                Edge::Edges(edges) => {
-                    let group_id = edge_groups.len();
-                    edge_groups.push(EdgeGroup::new(edges));
-                    (group_id, false)
-                }
-                Edge::Group(group) => group,
-            }))
-        } else {
-            let mut halfedges = Vec::<(usize, bool)>::new();
-            for (eid, reversed) in outline {
-                let group_id = edge_in_group[eid];
-                if let Some(last_group) = halfedges.last() {
-                    if last_group.0 == group_id {
-                        continue;
-                    }
-                }
-                let group = &edge_groups[edge_in_group[eid]];
-                let idx = group.position(eid);
-                if group.edges[idx].1 == reversed {
-                    halfedges.push((group_id, false));
-                } else {
-                    halfedges.push((group_id, true));
-                }
-            }
-            if halfedges.first().unwrap().0 == halfedges.last().unwrap().0 {
-                halfedges.pop();
-            }
-            halfedges
-        };
+        if self.edge_data[ea].id == self.edge_data[eb].id {
+            return true;
+        }
 
-        Vec::from_iter(halfedges.into_iter().map(|(group_id, reversed)| {
-            let group = &edge_groups[group_id];
-            if reversed {
-                let (eid, reversed) = group.edges[0];
-                end_vertex(&(eid, !reversed))
-            } else {
-                end_vertex(group.edges.last().unwrap())
-            }
-        }))
+        let [va, vb] = self.mesh.e_vertices(ea);
+        let vc = self.end_vertex(hb);
+        let [pa, pb, pc] = [va, vb, vc].map(|vid| &self.points[vid]);
+        orient2d::orient2d_by_axis(pa, pb, pc, axis, bump) == Orientation::Zero
     }
 
     #[inline(always)]
-- 
2.43.0


From 3b012614b2e1e60c26bffecfd2885da8e536fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 17/17] fix: remove_duplicates returns empty lists for an empty
 point list instead of panicking

---
 src/polygonlization/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 8f69df3..021afbf 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -16,6 +16,9 @@ fn point(points: &[f64], idx: usize) -> &[f64] {
 }
 
 pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>) {
+    if points.is_empty() {
+        return (Vec::new(), Vec::new());
+    }
     if epsilon == 0.0 {
         return (
             Vec::from_iter(points.iter().map(|&x| x)),
-- 
2.43.0

