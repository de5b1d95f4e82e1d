// ---- facts about rings ----
spec fn rot(s: Seq<int>, k: int) -> Seq<int> { s.subrange(k, s.len() as int) + s.subrange(0, k) }
proof fn lemma_rot(succ: Seq<HalfedgeId>, s: Seq<int>, k: int)
    requires is_ring(succ, s), 0 <= k < s.len(),
    ensures is_ring(succ, rot(s, k)), rot(s, k)[0] == s[k], forall|g: int| #[trigger] rot(s, k).contains(g) <==> s.contains(g),
{
    reveal(is_ring);
    let t = rot(s, k);
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == s[if i + k < n { i + k } else { i + k - n }] by {}
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < n implies #[trigger] t[j] == succ[#[trigger] t[i]].0 by {
        if i + k + 1 < n { assert(s[i + k + 1] == succ[s[i + k]].0); }
        else if i + k + 1 == n { }
        else { assert(s[i + k - n + 1] == succ[s[i + k - n]].0); }
    }
    if k > 0 { assert(s[k] == succ[s[k - 1]].0); }
    assert forall|g: int| #[trigger] t.contains(g) <==> s.contains(g) by {
        if s.contains(g) { let i = s.index_of(g); assert(t[if i >= k { i - k } else { i - k + n }] == g); }
        if t.contains(g) { let i = t.index_of(g); assert(s[if i + k < n { i + k } else { i + k - n }] == g); }
    }
}
proof fn lemma_ring_unique(succ: Seq<HalfedgeId>, a: Seq<int>, b: Seq<int>)
    requires is_ring(succ, a), is_ring(succ, b), a[0] == b[0],
    ensures a == b,
{
    reveal(is_ring);
    lemma_ring_prefix(succ, a, b, if a.len() < b.len() { a.len() as int } else { b.len() as int });
    if a.len() < b.len() {
        assert(b[a.len() as int] == succ[b[a.len() - 1]].0);
        assert(b[a.len() as int] == b[0]);
    } else if b.len() < a.len() {
        assert(a[b.len() as int] == succ[a[b.len() - 1]].0);
        assert(a[b.len() as int] == a[0]);
    }
    assert(a =~= b);
}
proof fn lemma_ring_prefix(succ: Seq<HalfedgeId>, a: Seq<int>, b: Seq<int>, k: int)
    requires is_ring(succ, a), is_ring(succ, b), a[0] == b[0], 0 <= k <= a.len(), k <= b.len(),
    ensures forall|i: int| 0 <= i < k ==> a[i] == b[i],
    decreases k
{
    reveal(is_ring);
    if k > 1 { lemma_ring_prefix(succ, a, b, k - 1); assert(a[k - 1] == succ[a[k - 2]].0); assert(b[k - 1] == succ[b[k - 2]].0); }
}
// one ring of a class settles the class
proof fn lemma_ring_at(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, t: Seq<int>, h: int)
    requires is_ring(succ, t), t.contains(h), forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < n && key(g) == key(h),
    ensures ring_ok(succ, key, n, ring(succ, h), h), ring(succ, h) == rot(t, t.index_of(h)),
{
    reveal(is_ring);
    let k = t.index_of(h);
    lemma_rot(succ, t, k);
    let r = rot(t, k);
    assert(is_ring(succ, r) && r[0] == h);
    let c = ring(succ, h);
    assert(is_ring(succ, c) && c[0] == h);
    lemma_ring_unique(succ, c, r);
}
proof fn lemma_ring_self(succ: Seq<HalfedgeId>, t: Seq<int>)
    requires is_ring(succ, t),
    ensures ring(succ, t[0]) == t,
{
    reveal(is_ring);
    let c = ring(succ, t[0]);
    assert(is_ring(succ, c) && c[0] == t[0]);
    lemma_ring_unique(succ, c, t);
}
// a ring none of whose links changed
proof fn lemma_ring_keep(succ: Seq<HalfedgeId>, succ1: Seq<HalfedgeId>, t: Seq<int>)
    requires is_ring(succ, t), succ1.len() >= succ.len(), forall|g: int| #[trigger] t.contains(g) ==> succ1[g] == succ[g],
    ensures is_ring(succ1, t),
{
    reveal(is_ring);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies #[trigger] t[j] == succ1[#[trigger] t[i]].0 by { assert(t.contains(t[i])); }
    assert(t.contains(t[t.len() - 1]));
}
// a new member n, placed after x
proof fn lemma_insert(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, succ1: Seq<HalfedgeId>, key1: spec_fn(int) -> int, n: int, x: int)
    requires rings_ok(succ, key, n), 0 <= x < n, n < succ.len(), succ1.len() == succ.len(), n <= INVALID_IND,
        forall|g: int| 0 <= g < n ==> #[trigger] key1(g) == key(g), key1(n) == key(x),
        forall|g: int| 0 <= g < n && g != x ==> #[trigger] succ1[g] == succ[g], succ1[x].0 == n, succ1[n] == succ[x],
    ensures rings_ok(succ1, key1, n + 1),
{
    reveal(is_ring);
    assert forall|h: int| 0 <= h < n + 1 implies ring_ok(succ1, key1, n + 1, #[trigger] ring(succ1, h), h) by {
        if key1(h) != key(x) {
            let s = ring(succ, h);
            assert(ring_ok(succ, key, n, s, h));
            assert forall|g: int| #[trigger] s.contains(g) implies succ1[g] == succ[g] by { assert(key1(g) == key(g)); }
            lemma_ring_keep(succ, succ1, s);
            assert(s.contains(s[0]));
            assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n + 1 && key1(g) == key1(h) by { assert(0 <= g < n ==> key1(g) == key(g)); }
            lemma_ring_at(succ1, key1, n + 1, s, h);
        } else {
            let s = ring(succ, x);
            assert(ring_ok(succ, key, n, s, x));
            let s1 = seq![x, n] + s.subrange(1, s.len() as int);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (if i == 0 { s1[0] } else { s1[i + 1] }) && 0 <= s[i] < n by { assert(s.contains(s[i])); }
            assert(s1[0] == x && s1[1] == n);
            assert forall|i: int| 2 <= i < s1.len() implies #[trigger] s1[i] == s[i - 1] by {}
            assert(s1.no_duplicates()) by {
                assert forall|i: int, j: int| 0 <= i < s1.len() && 0 <= j < s1.len() && i != j implies s1[i] != s1[j] by {
                    if i == 1 { if j >= 2 { assert(s1[j] == s[j - 1]); } }
                    else if j == 1 { if i >= 2 { assert(s1[i] == s[i - 1]); } }
                    else { assert(s1[i] == s[if i == 0 { 0 } else { i - 1 }]); assert(s1[j] == s[if j == 0 { 0 } else { j - 1 }]); }
                }
            }
            assert forall|i: int| 0 <= i < s1.len() implies 0 <= #[trigger] s1[i] < succ1.len() by { if i >= 2 { assert(s1[i] == s[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < s1.len() implies #[trigger] s1[j] == succ1[#[trigger] s1[i]].0 by {
                if i == 1 { assert(s[1] == succ[s[0]].0); assert(s1[2] == s[1]); }
                else if i >= 2 { assert(s[i] == succ[s[i - 1]].0); assert(s1[i] == s[i - 1] && s1[j] == s[i]); assert(s[i - 1] != x) by { assert(s[0] == x); } }
            }
            if s.len() > 1 { assert(s1[s1.len() - 1] == s[s.len() - 1]); assert(s[s.len() - 1] != s[0]); }
            assert(succ1[s1[s1.len() - 1]].0 == s1[0]);
            assert(is_ring(succ1, s1));
            assert forall|g: int| #[trigger] s1.contains(g) <==> 0 <= g < n + 1 && key1(g) == key1(h) by {
                if s1.contains(g) { let i = s1.index_of(g); if i == 1 { assert(g == n); } else { assert(g == s[if i == 0 { 0 } else { i - 1 }]); assert(s.contains(g)); assert(key1(g) == key(g)); } }
                if 0 <= g < n + 1 && key1(g) == key1(h) {
                    if g == n { assert(s1[1] == n); } else { assert(key1(g) == key(g)); assert(s.contains(g)); let i = s.index_of(g); assert(s1[if i == 0 { 0 } else { i + 1 }] == g); }
                }
            }
            lemma_ring_at(succ1, key1, n + 1, s1, h);
        }
    }
}
// new members lo..n form a class of their own with ring t
proof fn lemma_new_ring(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, succ1: Seq<HalfedgeId>, key1: spec_fn(int) -> int, lo: int, n: int, t: Seq<int>, c: int)
    requires rings_ok(succ, key, lo), 0 <= lo < n <= succ1.len(), succ.len() <= succ1.len(),
        forall|g: int| 0 <= g < lo ==> #[trigger] succ1[g] == succ[g],
        forall|g: int| 0 <= g < lo ==> #[trigger] key1(g) == key(g) && key(g) != c,
        forall|g: int| lo <= g < n ==> #[trigger] key1(g) == c,
        is_ring(succ1, t), forall|g: int| #[trigger] t.contains(g) <==> lo <= g < n,
    ensures rings_ok(succ1, key1, n),
{
    reveal(is_ring);
    assert forall|h: int| 0 <= h < n implies ring_ok(succ1, key1, n, #[trigger] ring(succ1, h), h) by {
        if h < lo {
            let s = ring(succ, h);
            assert(ring_ok(succ, key, lo, s, h));
            lemma_ring_keep(succ, succ1, s);
            assert(s.contains(s[0]));
            assert(key1(h) == key(h));
            assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n && key1(g) == key1(h) by { assert(0 <= g < lo ==> key1(g) == key(g)); assert(lo <= g < n ==> key1(g) == c); }
            lemma_ring_at(succ1, key1, n, s, h);
        } else {
            assert(t.contains(h));
            assert(key1(h) == c);
            assert forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < n && key1(g) == key1(h) by { if 0 <= g < lo { assert(key1(g) == key(g)); } else if lo <= g < n { assert(key1(g) == c); } }
            lemma_ring_at(succ1, key1, n, t, h);
        }
    }
}
proof fn lemma_longer(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, succ1: Seq<HalfedgeId>, key1: spec_fn(int) -> int, n: int)
    requires rings_ok(succ, key, n), n <= succ.len() <= succ1.len(), forall|g: int| 0 <= g < n ==> #[trigger] succ1[g] == succ[g],
        forall|g: int| 0 <= g < n ==> #[trigger] key1(g) == key(g),
    ensures rings_ok(succ1, key1, n),
{
    reveal(is_ring);
    assert forall|h: int| 0 <= h < n implies ring_ok(succ1, key1, n, #[trigger] ring(succ1, h), h) by {
        let s = ring(succ, h);
        assert(ring_ok(succ, key, n, s, h));
        lemma_ring_keep(succ, succ1, s);
        assert(s.contains(s[0]));
        assert(key1(h) == key(h));
        assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n && key1(g) == key1(h) by { assert(0 <= g < n ==> key1(g) == key(g)); }
        lemma_ring_at(succ1, key1, n, s, h);
    }
}

// ---- growing the arrays ----
spec fn grown<T>(a: Seq<T>, b: Seq<T>, n: int, x: T) -> bool {
    b.len() == a.len() + n && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] == x)
}
spec const HNONE: HalfedgeId = HalfedgeId(INVALID_IND);
impl SurfaceMesh {
//@FN src/mesh/surface_mesh.rs SurfaceMesh::new_vertices (n) -> res
//@    requires old(self).nv() + n < INVALID_IND, old(self).core_data.n_vertices + n <= usize::MAX,
//@    ensures res.0 == old(self).nv(), grown(old(self).core_data.v_halfedge_arr@, final(self).core_data.v_halfedge_arr@, n as int, HNONE),
//@        final(self).core_data.n_vertices == old(self).core_data.n_vertices + n,
//@        *final(self) == (SurfaceMesh { core_data: MeshCoreData { v_halfedge_arr: final(self).core_data.v_halfedge_arr, n_vertices: final(self).core_data.n_vertices, ..old(self).core_data }, ..*old(self) }),
//@ENDFN
//@FN src/mesh/surface_mesh.rs SurfaceMesh::new_halfedges (n) -> res
//@    requires old(self).lens(), old(self).nh() + n < INVALID_IND, old(self).core_data.n_halfedges + n <= usize::MAX,
//@    ensures res.0 == old(self).nh(),
//@        grown(old(self).next_s(), final(self).next_s(), n as int, HNONE), grown(old(self).core_data.he_vertex_arr@, final(self).core_data.he_vertex_arr@, n as int, VertexId(INVALID_IND)),
//@        grown(old(self).he_face_arr@, final(self).he_face_arr@, n as int, FaceId(INVALID_IND)), grown(old(self).he_edge_arr@, final(self).he_edge_arr@, n as int, EdgeId(INVALID_IND)),
//@        grown(old(self).sib_s(), final(self).sib_s(), n as int, HNONE), grown(old(self).in_s(), final(self).in_s(), n as int, HNONE), grown(old(self).out_s(), final(self).out_s(), n as int, HNONE),
//@        final(self).core_data.n_halfedges == old(self).core_data.n_halfedges + n,
//@        final(self).lens(), final(self).nh() == old(self).nh() + n,
//@        final(self).core_data.v_halfedge_arr == old(self).core_data.v_halfedge_arr, final(self).core_data.f_halfedge_arr == old(self).core_data.f_halfedge_arr,
//@        final(self).e_halfedge_arr == old(self).e_halfedge_arr, final(self).use_implicit_twin == old(self).use_implicit_twin,
//@        final(self).core_data.n_vertices == old(self).core_data.n_vertices, final(self).core_data.n_faces == old(self).core_data.n_faces, final(self).n_edges == old(self).n_edges,
//@ENDFN
//@FN src/mesh/surface_mesh.rs SurfaceMesh::new_edges (n) -> res
//@SUB /(\w+(?:\.\w+)*\.len\(\))\.into\(\)/ => EdgeId::from(\1)
//@    requires old(self).ne() + n < INVALID_IND, old(self).n_edges + n <= usize::MAX,
//@    ensures res.0 == old(self).ne(), grown(old(self).e_halfedge_arr@, final(self).e_halfedge_arr@, n as int, HNONE), final(self).n_edges == old(self).n_edges + n,
//@        *final(self) == (SurfaceMesh { e_halfedge_arr: final(self).e_halfedge_arr, n_edges: final(self).n_edges, ..*old(self) }),
//@ENDFN
//@FN src/mesh/surface_mesh.rs SurfaceMesh::new_faces (n) -> res
//@    requires old(self).nf() + n < INVALID_IND, old(self).core_data.n_faces + n <= usize::MAX,
//@    ensures res.0 == old(self).nf(), grown(old(self).core_data.f_halfedge_arr@, final(self).core_data.f_halfedge_arr@, n as int, HNONE),
//@        final(self).core_data.n_faces == old(self).core_data.n_faces + n,
//@        *final(self) == (SurfaceMesh { core_data: MeshCoreData { f_halfedge_arr: final(self).core_data.f_halfedge_arr, n_faces: final(self).core_data.n_faces, ..old(self).core_data }, ..*old(self) }),
//@ENDFN
}
// ---- lists of links written one after the other ----
spec fn cyc(l: Seq<int>, i: int) -> int { if i + 1 < l.len() { l[i + 1] } else { l[0] } }
spec fn listable(l: Seq<int>, n: int) -> bool { l.len() > 0 && l.no_duplicates() && forall|i: int| 0 <= i < l.len() ==> 0 <= #[trigger] l[i] < n }
#[verifier::opaque]
spec fn relinked(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, l: Seq<int>, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < k ==> b[#[trigger] l[i]].0 == cyc(l, i)
    &&& forall|h: int| 0 <= h < a.len() && !l.contains(h) ==> #[trigger] b[h] == a[h]
}
proof fn lemma_relink_start(a: Seq<HalfedgeId>, l: Seq<int>)
    ensures relinked(a, a, l, 0),
{ reveal(relinked); }
proof fn lemma_relink_step(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, b2: Seq<HalfedgeId>, l: Seq<int>, k: int, x: HalfedgeId)
    requires relinked(a, b, l, k), listable(l, a.len() as int), 0 <= k < l.len(), x.0 == cyc(l, k), b2 == b.update(l[k], x),
    ensures relinked(a, b2, l, k + 1), b2.len() == a.len(),
{
    reveal(relinked);
    assert(0 <= l[k] < a.len());
    assert(l.contains(l[k]));
    assert forall|i: int| 0 <= i < k + 1 implies b2[#[trigger] l[i]].0 == cyc(l, i) by { assert(0 <= l[i] < a.len()); if i < k { assert(l[i] != l[k]); } }
}
proof fn lemma_relinked(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, l: Seq<int>)
    requires relinked(a, b, l, l.len() as int), listable(l, a.len() as int),
    ensures is_ring(b, l), a.len() == b.len(), forall|h: int| 0 <= h < a.len() && !l.contains(h) ==> #[trigger] b[h] == a[h],
{
    reveal(relinked); reveal(is_ring);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < l.len() implies #[trigger] l[j] == b[#[trigger] l[i]].0 by { assert(b[l[i]].0 == cyc(l, i)); }
    assert(b[l[l.len() - 1]].0 == cyc(l, l.len() - 1));
}
proof fn lemma_short(s: Seq<int>, n: int)
    requires s.no_duplicates(), n >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
    ensures s.len() <= n,
{
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert forall|x: int| #[trigger] s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, n).contains(x) by { assert(s.contains(x)); let i = s.index_of(x); assert(0 <= s[i] < n); }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n));
}
