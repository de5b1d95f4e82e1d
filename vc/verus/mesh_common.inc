//@TRUST the generic parameter M: Mesh is instantiated with SurfaceMesh, the only implementation of the trait in the crate
//@TRUST a[id] on the mesh arrays reads the entry with the number inside id (the Index impls of element_id! forward to it)
// ---- identifiers ----
trait Ix: Sized { spec fn sx(self) -> usize; fn ix(self) -> (r: usize) ensures r == self.sx(); fn of(x: usize) -> (r: Self) ensures r.sx() == x; }
impl Ix for usize { #[verifier::inline] spec fn sx(self) -> usize { self } fn ix(self) -> (r: usize) { self } fn of(x: usize) -> (r: usize) { x } }
fn vx_ix<I: Ix>(i: I) -> (r: usize) ensures r == i.sx() { i.ix() }
fn vx_of<I: Ix>(x: usize) -> (r: I) ensures r.sx() == x { I::of(x) }
//@CONST src/lib.rs INVALID_IND
//@INDEX
//@GSUB /<'a, M: Mesh>/ => <'a>
//@GSUB /<'a, M>/ => <'a>
//@GSUB /<M: Mesh>/ =>
//@GSUB /&'a M\b/ => &'a SurfaceMesh
//@GSUB /&M\b/ => &SurfaceMesh
//@GSUB /<Self>/ => <'_>

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@STRUCT src/mesh/element/vertex.rs VertexId
impl Ix for VertexId { #[verifier::inline] spec fn sx(self) -> usize { self.0 } fn ix(self) -> (r: usize) { self.0 } fn of(x: usize) -> (r: VertexId) { VertexId(x) } }
impl VertexId {
//@FN macro:src/mesh/element/macros.rs:element_id:VertexId From for VertexId::from (id) -> res
//@    ensures res.0 == id,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:VertexId Default for VertexId::default () -> res
//@    ensures res.0 == INVALID_IND,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:VertexId ElementIndex for VertexId::index () -> res
//@    ensures res == self.0,
//@ENDFN
//@FN src/mesh/element/mod.rs ElementId::valid () -> res
//@    ensures res <==> self.0 != INVALID_IND,
//@ENDFN
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@STRUCT src/mesh/element/halfedge.rs HalfedgeId
impl Ix for HalfedgeId { #[verifier::inline] spec fn sx(self) -> usize { self.0 } fn ix(self) -> (r: usize) { self.0 } fn of(x: usize) -> (r: HalfedgeId) { HalfedgeId(x) } }
impl HalfedgeId {
//@FN macro:src/mesh/element/macros.rs:element_id:HalfedgeId From for HalfedgeId::from (id) -> res
//@    ensures res.0 == id,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:HalfedgeId Default for HalfedgeId::default () -> res
//@    ensures res.0 == INVALID_IND,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:HalfedgeId ElementIndex for HalfedgeId::index () -> res
//@    ensures res == self.0,
//@ENDFN
//@FN src/mesh/element/mod.rs ElementId::valid () -> res
//@    ensures res <==> self.0 != INVALID_IND,
//@ENDFN
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@STRUCT src/mesh/element/edge.rs EdgeId
impl Ix for EdgeId { #[verifier::inline] spec fn sx(self) -> usize { self.0 } fn ix(self) -> (r: usize) { self.0 } fn of(x: usize) -> (r: EdgeId) { EdgeId(x) } }
impl EdgeId {
//@FN macro:src/mesh/element/macros.rs:element_id:EdgeId From for EdgeId::from (id) -> res
//@    ensures res.0 == id,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:EdgeId Default for EdgeId::default () -> res
//@    ensures res.0 == INVALID_IND,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:EdgeId ElementIndex for EdgeId::index () -> res
//@    ensures res == self.0,
//@ENDFN
//@FN src/mesh/element/mod.rs ElementId::valid () -> res
//@    ensures res <==> self.0 != INVALID_IND,
//@ENDFN
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@STRUCT src/mesh/element/face.rs FaceId
impl Ix for FaceId { #[verifier::inline] spec fn sx(self) -> usize { self.0 } fn ix(self) -> (r: usize) { self.0 } fn of(x: usize) -> (r: FaceId) { FaceId(x) } }
impl FaceId {
//@FN macro:src/mesh/element/macros.rs:element_id:FaceId From for FaceId::from (id) -> res
//@    ensures res.0 == id,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:FaceId Default for FaceId::default () -> res
//@    ensures res.0 == INVALID_IND,
//@ENDFN
//@FN macro:src/mesh/element/macros.rs:element_id:FaceId ElementIndex for FaceId::index () -> res
//@    ensures res == self.0,
//@ENDFN
//@FN src/mesh/element/mod.rs ElementId::valid () -> res
//@    ensures res <==> self.0 != INVALID_IND,
//@ENDFN
}

// ---- rings: closed cycles of links ----
#[verifier::opaque]
spec fn is_ring(succ: Seq<HalfedgeId>, s: Seq<int>) -> bool {
    &&& s.len() > 0
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < succ.len()
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> #[trigger] s[j] == succ[#[trigger] s[i]].0
    &&& succ[s[s.len() - 1]].0 == s[0]
}
spec fn ring(succ: Seq<HalfedgeId>, h: int) -> Seq<int> { choose|s: Seq<int>| is_ring(succ, s) && s[0] == h }
// the links form one cycle over every class of halfedges with equal key
spec fn rings_ok(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int) -> bool {
    forall|h: int| 0 <= h < n ==> ring_ok(succ, key, n, #[trigger] ring(succ, h), h)
}
spec fn ring_ok(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, s: Seq<int>, h: int) -> bool {
    is_ring(succ, s) && s.len() > 0 && s[0] == h && forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n && key(g) == key(h)
}

// the link structure from h on is a closed cycle
spec fn starts(succ: Seq<HalfedgeId>, h: int) -> bool { let s = ring(succ, h); is_ring(succ, s) && s.len() > 0 && s[0] == h }

// ---- the mesh ----
//@STRUCT src/mesh/mesh_core_data.rs MeshCoreData
//@STRUCT src/mesh/surface_mesh.rs SurfaceMesh
impl SurfaceMesh {
    spec fn nh(self) -> int { self.core_data.he_next_arr@.len() as int }
    spec fn ne(self) -> int { self.e_halfedge_arr@.len() as int }
    spec fn nf(self) -> int { self.core_data.f_halfedge_arr@.len() as int }
    spec fn nv(self) -> int { self.core_data.v_halfedge_arr@.len() as int }
    spec fn nx(self, h: int) -> int { self.core_data.he_next_arr@[h].0 as int }
    spec fn org(self, h: int) -> int { self.core_data.he_vertex_arr@[h].0 as int }
    spec fn tip(self, h: int) -> int { self.org(self.nx(h)) }
    spec fn edge_of(self, h: int) -> int { self.he_edge_arr@[h].0 as int }
    spec fn face_of(self, h: int) -> int { self.he_face_arr@[h].0 as int }
    spec fn eh(self, e: int) -> int { self.e_halfedge_arr@[e].0 as int }
    spec fn fh(self, f: int) -> int { self.core_data.f_halfedge_arr@[f].0 as int }
    spec fn vh(self, v: int) -> int { self.core_data.v_halfedge_arr@[v].0 as int }
    spec fn f_key(self) -> spec_fn(int) -> int { |h: int| self.face_of(h) }
    spec fn e_key(self) -> spec_fn(int) -> int { |h: int| self.edge_of(h) }
    spec fn o_key(self) -> spec_fn(int) -> int { |h: int| self.org(h) }
    spec fn t_key(self) -> spec_fn(int) -> int { |h: int| self.tip(h) }
    spec fn next_s(self) -> Seq<HalfedgeId> { self.core_data.he_next_arr@ }
    spec fn sib_s(self) -> Seq<HalfedgeId> { self.he_sibling_arr@ }
    spec fn in_s(self) -> Seq<HalfedgeId> { self.he_vert_in_next_arr@ }
    spec fn out_s(self) -> Seq<HalfedgeId> { self.he_vert_out_next_arr@ }
    spec fn lens(self) -> bool {
        &&& self.core_data.he_vertex_arr@.len() == self.nh()
        &&& self.he_edge_arr@.len() == self.nh()
        &&& self.he_face_arr@.len() == self.nh()
        &&& self.he_sibling_arr@.len() == self.nh()
        &&& self.he_vert_in_next_arr@.len() == self.nh()
        &&& self.he_vert_out_next_arr@.len() == self.nh()
        &&& self.nh() < INVALID_IND && self.nv() < INVALID_IND && self.ne() < INVALID_IND && self.nf() < INVALID_IND
    }
    spec fn ranges(self) -> bool {
        &&& forall|h: int| 0 <= h < self.nh() ==> 0 <= #[trigger] self.nx(h) < self.nh()
        &&& forall|h: int| 0 <= h < self.nh() ==> 0 <= #[trigger] self.org(h) < self.nv()
        &&& forall|h: int| 0 <= h < self.nh() ==> 0 <= #[trigger] self.edge_of(h) < self.ne()
        &&& forall|h: int| 0 <= h < self.nh() ==> 0 <= #[trigger] self.face_of(h) < self.nf()
    }
    // a halfedge has two different ends, and the halfedges of an edge join the same two vertices
    spec fn ends(self) -> bool {
        &&& forall|h: int| 0 <= h < self.nh() ==> self.org(h) != #[trigger] self.tip(h)
        &&& forall|g: int, h: int| 0 <= g < self.nh() && 0 <= h < self.nh() && #[trigger] self.edge_of(g) == #[trigger] self.edge_of(h) ==>
            (self.org(g) == self.org(h) && self.tip(g) == self.tip(h)) || (self.org(g) == self.tip(h) && self.tip(g) == self.org(h))
    }
    spec fn reps(self) -> bool {
        &&& forall|e: int| 0 <= e < self.ne() ==> 0 <= #[trigger] self.eh(e) < self.nh() && self.edge_of(self.eh(e)) == e
        &&& forall|f: int| 0 <= f < self.nf() ==> 0 <= #[trigger] self.fh(f) < self.nh() && self.face_of(self.fh(f)) == f
        &&& forall|v: int| 0 <= v < self.nv() && #[trigger] self.vh(v) != INVALID_IND ==> self.vh(v) < self.nh() && self.org(self.vh(v)) == v
        &&& forall|h: int| 0 <= h < self.nh() ==> self.vh(#[trigger] self.org(h)) != INVALID_IND
    }
    // the lists of halfedges into v are in order (the rest of the mesh need not be)
    spec fn vih_ok(self, v: int) -> bool {
        &&& self.vh(v) < self.nh() && starts(self.next_s(), self.vh(v)) && 0 <= ring(self.next_s(), self.vh(v)).last() < self.nh()
        &&& starts(self.in_s(), ring(self.next_s(), self.vh(v)).last())
    }
    // a consistent halfedge mesh
    spec fn wf(self) -> bool {
        &&& self.lens() && self.ranges() && self.ends() && self.reps()
        &&& rings_ok(self.next_s(), self.f_key(), self.nh())
        &&& rings_ok(self.sib_s(), self.e_key(), self.nh())
        &&& rings_ok(self.in_s(), self.t_key(), self.nh())
        &&& rings_ok(self.out_s(), self.o_key(), self.nh())
        &&& !self.use_implicit_twin
    }
}

// ---- accessors ----
impl SurfaceMesh {

//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::core_data () -> res
//@    ensures *res == self.core_data,
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::use_implicit_twin () -> res
//@    ensures res == self.use_implicit_twin,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::n_vertices_capacity () -> res
//@    ensures res == self.nv(),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::n_halfedges_capacity () -> res
//@    ensures res == self.nh(),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::n_faces_capacity () -> res
//@    ensures res == self.nf(),
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::n_edges_capacity () -> res
//@    ensures res == self.ne(),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::v_halfedge (vid) -> res
//@    requires vid.0 < self.nv(),
//@    ensures res.0 == self.vh(vid.0 as int),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::he_vertex (hid) -> res
//@    requires hid.0 < self.core_data.he_vertex_arr@.len(),
//@    ensures res.0 == self.org(hid.0 as int),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::he_next (hid) -> res
//@    requires hid.0 < self.nh(),
//@    ensures res.0 == self.nx(hid.0 as int),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::f_halfedge (fid) -> res
//@    requires fid.0 < self.nf(),
//@    ensures res.0 == self.fh(fid.0 as int),
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::e_halfedge (eid) -> res
//@    requires eid.0 < self.ne(),
//@    ensures res.0 == self.eh(eid.0 as int),
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_edge (hid) -> res
//@    requires hid.0 < self.he_edge_arr@.len(),
//@    ensures res.0 == self.edge_of(hid.0 as int),
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_sibling (hid) -> res
//@    requires hid.0 < self.sib_s().len(),
//@    ensures res == self.sib_s()[hid.0 as int],
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_next_incoming_neighbor (hid) -> res
//@    requires hid.0 < self.in_s().len(),
//@    ensures res == self.in_s()[hid.0 as int],
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_next_outgoing_neighbor (hid) -> res
//@    requires hid.0 < self.out_s().len(),
//@    ensures res == self.out_s()[hid.0 as int],
//@ENDFN
//@FN src/mesh/surface_mesh.rs SurfaceMesh::he_face (hid) -> res
//@    requires hid.0 < self.he_face_arr@.len(),
//@    ensures res.0 == self.face_of(hid.0 as int),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::he_tip_vertex (hid) -> res
//@    requires self.lens(), hid.0 < self.nh(), self.nx(hid.0 as int) < self.nh(),
//@    ensures res.0 == self.tip(hid.0 as int),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::vertex_is_valid (vid) -> res
//@    requires vid.0 < self.nv(),
//@    ensures res <==> self.vh(vid.0 as int) != INVALID_IND,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::halfedge_is_valid (hid) -> res
//@    requires self.lens(), hid.0 < self.nh(),
//@    ensures res <==> self.org(hid.0 as int) != INVALID_IND,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::face_is_valid (fid) -> res
//@    requires fid.0 < self.nf(),
//@    ensures res <==> self.fh(fid.0 as int) != INVALID_IND,
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::edge_is_valid (eid) -> res
//@    requires eid.0 < self.ne(),
//@    ensures res <==> self.eh(eid.0 as int) != INVALID_IND,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::e_vertices (eid) -> res
//@    requires self.lens(), self.ranges(), self.reps(), eid.0 < self.ne(),
//@    ensures res@.len() == 2, res@[0].0 == self.org(self.eh(eid.0 as int)), res@[1].0 == self.tip(self.eh(eid.0 as int)),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::he_same_dir (hid) -> res
//@    requires self.lens(), self.ranges(), self.reps(), hid.0 < self.nh(),
//@    ensures res <==> self.org(hid.0 as int) == self.org(self.eh(self.edge_of(hid.0 as int))),
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::hes_same_dir (ha, hb) -> res
//@    requires self.lens(), ha.0 < self.nh(), hb.0 < self.nh(),
//@    ensures res <==> self.org(ha.0 as int) == self.org(hb.0 as int),
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_prev (hid) -> res
//@    requires hid.0 < self.nh(), self.wf() || starts(self.next_s(), hid.0 as int),
//@    ensures res.0 < self.nh(), self.nx(res.0 as int) == hid.0, self.wf() ==> self.face_of(res.0 as int) == self.face_of(hid.0 as int),
//@        res.0 == ring(self.next_s(), hid.0 as int).last(),
//@START: proof { reveal(is_ring); } let ghost s = ring(self.next_s(), hid.0 as int); let ghost mut k: int = 0;
//@ proof { if self.wf() { assert(ring_ok(self.next_s(), self.f_key(), self.nh(), s, hid.0 as int)); } assert(starts(self.next_s(), hid.0 as int)); }
//@LOCAL curr /curr|let mut/
//@LOOP 0: invariant hid.0 < self.nh(), starts(self.next_s(), hid.0 as int), s == ring(self.next_s(), hid.0 as int), 0 <= k < s.len(), s[k] == curr.0, self.wf() ==> ring_ok(self.next_s(), self.f_key(), self.nh(), s, hid.0 as int),
//@   decreases s.len() - k
//@LOOPSTART 0: proof { reveal(is_ring); assert(s.contains(s[k])); if self.wf() { assert(self.f_key()(s[k]) == self.f_key()(hid.0 as int)); } if k + 1 < s.len() { assert(s[k + 1] == self.next_s()[s[k]].0); assert(s[k + 1] != s[0]); } }
//@LOOPEND 0: proof { k = k + 1; }
//@ENDFN
//@FN src/mesh/surface_mesh.rs Mesh for SurfaceMesh::he_twin (hid) -> res
//@    requires self.wf(), hid.0 < self.nh(),
//@    ensures res.0 < self.nh(), self.edge_of(res.0 as int) == self.edge_of(hid.0 as int),
//@        res.0 != hid.0 ==> self.org(res.0 as int) == self.tip(hid.0 as int) && self.tip(res.0 as int) == self.org(hid.0 as int),
//@        res.0 == hid.0 ==> forall|g: int| 0 <= g < self.nh() && #[trigger] self.edge_of(g) == self.edge_of(hid.0 as int) ==> self.org(g) == self.org(hid.0 as int),
//@START: proof { reveal(is_ring); } let ghost s = ring(self.sib_s(), hid.0 as int); let ghost mut k: int = 0;
//@ proof { assert(ring_ok(self.sib_s(), self.e_key(), self.nh(), s, hid.0 as int)); }
//@LOCAL curr /curr|let mut/
//@LOOP 0: invariant self.wf(), hid.0 < self.nh(), is_ring(self.sib_s(), s), s[0] == hid.0, 0 <= k < s.len(), s[k] == curr.0,
//@   ring_ok(self.sib_s(), self.e_key(), self.nh(), s, hid.0 as int),
//@   forall|j: int| 0 <= j <= k ==> self.org(#[trigger] s[j]) == self.org(hid.0 as int),
//@   decreases s.len() - k
//@LOOPSTART 0: proof { reveal(is_ring); assert(s.contains(s[k])); assert(self.e_key()(s[k]) == self.e_key()(hid.0 as int));
//@  if k + 1 < s.len() { assert(s[k + 1] == self.sib_s()[s[k]].0); assert(s[k + 1] != s[0]); assert(s.contains(s[k + 1])); assert(self.e_key()(s[k + 1]) == self.e_key()(hid.0 as int)); }
//@  else { assert forall|g: int| 0 <= g < self.nh() && #[trigger] self.edge_of(g) == self.edge_of(hid.0 as int) implies self.org(g) == self.org(hid.0 as int) by { assert(self.e_key()(g) == self.e_key()(hid.0 as int)); assert(s.contains(g)); } } }
//@LOOPEND 0: proof { k = k + 1; }
//@ENDFN
}
