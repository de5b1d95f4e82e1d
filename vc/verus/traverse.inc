
// ---- the traversal protocol: an element walks through a fixed list of states, some of which are skipped ----
spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s[0] is Some { seq![s[0]->0] + somes(s.skip(1)) } else { somes(s.skip(1)) }
}
trait Element: Sized {
    type Item;
    spec fn inv(self) -> bool;
    spec fn all(self) -> Seq<Option<Self::Item>>;
    spec fn pos(self) -> int;
    spec fn ctx(self) -> SurfaceMesh;
    fn item(&self) -> (r: Self::Item)
        requires self.inv(), self.pos() < self.all().len(), self.all()[self.pos()] is Some,
        ensures self.all()[self.pos()] == Some(r);
    fn valid(&self) -> (r: bool)
        requires self.inv(), self.pos() < self.all().len(),
        ensures r <==> self.all()[self.pos()] is Some;
    fn next(&mut self)
        requires old(self).inv(), old(self).pos() < old(self).all().len(),
        ensures final(self).inv(), final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1, final(self).ctx() == old(self).ctx();
    fn is_end(&self) -> (r: bool)
        requires self.inv(),
        ensures r <==> self.pos() >= self.all().len();
    proof fn in_range(self)
        requires self.inv(),
        ensures 0 <= self.pos() <= self.all().len();
}
// what is still to come
spec fn rest<E: Element>(e: E) -> Seq<E::Item> { somes(e.all().skip(e.pos())) }
// the state an iterator is in between calls: at the end or at an element to be visited
spec fn ready<E: Element>(e: E) -> bool { e.inv() && (e.pos() >= e.all().len() || e.all()[e.pos()] is Some) }
proof fn lemma_skip<T>(s: Seq<Option<T>>, k: int)
    requires 0 <= k < s.len(),
    ensures somes(s.skip(k)) == (if s[k] is Some { seq![s[k]->0] + somes(s.skip(k + 1)) } else { somes(s.skip(k + 1)) })
{ assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
proof fn lemma_somes_end<T>(s: Seq<Option<T>>, k: int)
    requires k == s.len(),
    ensures somes(s.skip(k)) == Seq::<T>::empty()
{ assert(s.skip(k).len() == 0); }

//@FN src/mesh/element/mod.rs iter_next (ele) -> res
//@    requires ready(*old(ele)),
//@    ensures ready(*final(ele)), final(ele).all() == old(ele).all(), final(ele).ctx() == old(ele).ctx(),
//@        res is None ==> rest(*old(ele)).len() == 0 && *final(ele) == *old(ele),
//@        res is Some ==> rest(*old(ele)) == seq![res->0] + rest(*final(ele)),
//@START:  proof { ele.in_range(); if ele.pos() < ele.all().len() { lemma_skip(ele.all(), ele.pos()); } else { lemma_somes_end(ele.all(), ele.pos()); } }
//@LOOP 0: invariant_except_break ele.pos() < ele.all().len(),
//@         rest(*old(ele)) == seq![item] + somes(ele.all().skip(ele.pos() + 1)),
//@     invariant ele.inv(), ele.all() == old(ele).all(), ele.ctx() == old(ele).ctx(), ready(*old(ele)), 0 <= old(ele).pos() <= ele.pos(),
//@         old(ele).pos() < old(ele).all().len(), item == old(ele).all()[old(ele).pos()]->0,
//@     ensures ready(*ele), ele.pos() > old(ele).pos(), rest(*old(ele)) == seq![item] + rest(*ele),
//@     decreases ele.all().len() - ele.pos(),
//@LOOPSTART 0: proof { if ele.pos() + 1 < ele.all().len() { lemma_skip(ele.all(), ele.pos() + 1); } }
//@LOCAL item /item\(\)/
//@ENDFN

//@STRUCT src/mesh/element/vertex.rs Vertex
impl<'a> Vertex<'a> {
//@FN src/mesh/element/vertex.rs Vertex::new (mesh, id) -> res
//@    ensures res.mesh == mesh, res.id == id,
//@ENDFN
}
//@STRUCT src/mesh/element/halfedge.rs Halfedge
impl<'a> Halfedge<'a> {
//@FN src/mesh/element/halfedge.rs Halfedge::new (mesh, id) -> res
//@    ensures res.mesh == mesh, res.id == id,
//@ENDFN
}
//@STRUCT src/mesh/element/edge.rs Edge
impl<'a> Edge<'a> {
//@FN src/mesh/element/edge.rs Edge::new (mesh, id) -> res
//@    ensures res.mesh == mesh, res.id == id,
//@ENDFN
}
//@STRUCT src/mesh/element/face.rs Face
impl<'a> Face<'a> {
//@FN src/mesh/element/face.rs Face::new (mesh, id) -> res
//@    ensures res.mesh == mesh, res.id == id,
//@ENDFN
}
//@GSUB /Self::Item \{/ => vx_Item {
//@GSUB /\*(self\.id)\b/ => \1.0
//@STRUCT src/mesh/element/vertex.rs VertexIter
impl<'a> Element for VertexIter<'a> {
    type Item = Vertex<'a>;
    spec fn inv(self) -> bool { self.mesh.lens() && self.id.0 <= self.mesh.nv() }
    spec fn all(self) -> Seq<Option<Vertex<'a>>> {
        Seq::new(self.mesh.nv() as nat, |i: int| if self.mesh.vh(i) != INVALID_IND { Some(Vertex { mesh: self.mesh, id: VertexId(i as usize) }) } else { None })
    }
    spec fn pos(self) -> int { self.id.0 as int }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) {}
//@FN src/mesh/element/vertex.rs Element for VertexIter::item () -> res
//@SUB /vx_Item/ => Vertex
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VertexIter::valid () -> res
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VertexIter::next ()
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VertexIter::is_end () -> res
//@ENDFN
}
impl<'a> VertexIter<'a> {
//@FN src/mesh/element/vertex.rs VertexIter::new (mesh) -> res
//@    requires mesh.lens(),
//@    ensures ready(res), *res.mesh == *mesh, res.all().len() == mesh.nv(), rest(res) == somes(res.all()),
//@        forall|i: int| 0 <= i < mesh.nv() ==> (#[trigger] res.all()[i]) == (if mesh.vh(i) != INVALID_IND { Some(Vertex { mesh, id: VertexId(i as usize) }) } else { None }),
//@LOCAL iter /Self/
//@LOOP 0: invariant iter.inv(), *iter.mesh == *mesh, somes(iter.all()) == rest(iter),
//@    ensures ready(iter),
//@    decreases mesh.nv() - iter.id.0
//@LOOPSTART 0: proof { lemma_skip(iter.all(), iter.pos()); }
//@SUB /(let mut iter = Self \{.*?\};)/ => \1 proof { assert(iter.all().skip(0) =~= iter.all()); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Iterator for VertexIter::next () -> res
//@SIGSUB /Self::Item/ => Vertex<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/halfedge.rs HalfedgeIter
impl<'a> Element for HalfedgeIter<'a> {
    type Item = Halfedge<'a>;
    spec fn inv(self) -> bool { self.mesh.lens() && self.id.0 <= self.mesh.nh() }
    spec fn all(self) -> Seq<Option<Halfedge<'a>>> {
        Seq::new(self.mesh.nh() as nat, |i: int| if self.mesh.org(i) != INVALID_IND { Some(Halfedge { mesh: self.mesh, id: HalfedgeId(i as usize) }) } else { None })
    }
    spec fn pos(self) -> int { self.id.0 as int }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) {}
//@FN src/mesh/element/halfedge.rs Element for HalfedgeIter::item () -> res
//@SUB /vx_Item/ => Halfedge
//@ENDFN
//@FN src/mesh/element/halfedge.rs Element for HalfedgeIter::valid () -> res
//@ENDFN
//@FN src/mesh/element/halfedge.rs Element for HalfedgeIter::next ()
//@ENDFN
//@FN src/mesh/element/halfedge.rs Element for HalfedgeIter::is_end () -> res
//@ENDFN
}
impl<'a> HalfedgeIter<'a> {
//@FN src/mesh/element/halfedge.rs HalfedgeIter::new (mesh) -> res
//@    requires mesh.lens(),
//@    ensures ready(res), *res.mesh == *mesh, res.all().len() == mesh.nh(), rest(res) == somes(res.all()),
//@        forall|i: int| 0 <= i < mesh.nh() ==> (#[trigger] res.all()[i]) == (if mesh.org(i) != INVALID_IND { Some(Halfedge { mesh, id: HalfedgeId(i as usize) }) } else { None }),
//@LOCAL iter /Self/
//@LOOP 0: invariant iter.inv(), *iter.mesh == *mesh, somes(iter.all()) == rest(iter),
//@    ensures ready(iter),
//@    decreases mesh.nh() - iter.id.0
//@LOOPSTART 0: proof { lemma_skip(iter.all(), iter.pos()); }
//@SUB /(let mut iter = Self \{.*?\};)/ => \1 proof { assert(iter.all().skip(0) =~= iter.all()); }
//@ENDFN
//@FN src/mesh/element/halfedge.rs Iterator for HalfedgeIter::next () -> res
//@SIGSUB /Self::Item/ => Halfedge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/edge.rs EdgeIter
impl<'a> Element for EdgeIter<'a> {
    type Item = Edge<'a>;
    spec fn inv(self) -> bool { self.mesh.lens() && self.id.0 <= self.mesh.ne() }
    spec fn all(self) -> Seq<Option<Edge<'a>>> {
        Seq::new(self.mesh.ne() as nat, |i: int| if self.mesh.eh(i) != INVALID_IND { Some(Edge { mesh: self.mesh, id: EdgeId(i as usize) }) } else { None })
    }
    spec fn pos(self) -> int { self.id.0 as int }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) {}
//@FN src/mesh/element/edge.rs Element for EdgeIter::item () -> res
//@SUB /vx_Item/ => Edge
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EdgeIter::valid () -> res
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EdgeIter::next ()
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EdgeIter::is_end () -> res
//@ENDFN
}
impl<'a> EdgeIter<'a> {
//@FN src/mesh/element/edge.rs EdgeIter::new (mesh) -> res
//@    requires mesh.lens(),
//@    ensures ready(res), *res.mesh == *mesh, res.all().len() == mesh.ne(), rest(res) == somes(res.all()),
//@        forall|i: int| 0 <= i < mesh.ne() ==> (#[trigger] res.all()[i]) == (if mesh.eh(i) != INVALID_IND { Some(Edge { mesh, id: EdgeId(i as usize) }) } else { None }),
//@LOCAL iter /Self/
//@LOOP 0: invariant iter.inv(), *iter.mesh == *mesh, somes(iter.all()) == rest(iter),
//@    ensures ready(iter),
//@    decreases mesh.ne() - iter.id.0
//@LOOPSTART 0: proof { lemma_skip(iter.all(), iter.pos()); }
//@SUB /(let mut iter = Self \{.*?\};)/ => \1 proof { assert(iter.all().skip(0) =~= iter.all()); }
//@ENDFN
//@FN src/mesh/element/edge.rs Iterator for EdgeIter::next () -> res
//@SIGSUB /Self::Item/ => Edge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/face.rs FaceIter
impl<'a> Element for FaceIter<'a> {
    type Item = Face<'a>;
    spec fn inv(self) -> bool { self.mesh.lens() && self.id.0 <= self.mesh.nf() }
    spec fn all(self) -> Seq<Option<Face<'a>>> {
        Seq::new(self.mesh.nf() as nat, |i: int| if self.mesh.fh(i) != INVALID_IND { Some(Face { mesh: self.mesh, id: FaceId(i as usize) }) } else { None })
    }
    spec fn pos(self) -> int { self.id.0 as int }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) {}
//@FN src/mesh/element/face.rs Element for FaceIter::item () -> res
//@SUB /vx_Item/ => Face
//@ENDFN
//@FN src/mesh/element/face.rs Element for FaceIter::valid () -> res
//@ENDFN
//@FN src/mesh/element/face.rs Element for FaceIter::next ()
//@ENDFN
//@FN src/mesh/element/face.rs Element for FaceIter::is_end () -> res
//@ENDFN
}
impl<'a> FaceIter<'a> {
//@FN src/mesh/element/face.rs FaceIter::new (mesh) -> res
//@    requires mesh.lens(),
//@    ensures ready(res), *res.mesh == *mesh, res.all().len() == mesh.nf(), rest(res) == somes(res.all()),
//@        forall|i: int| 0 <= i < mesh.nf() ==> (#[trigger] res.all()[i]) == (if mesh.fh(i) != INVALID_IND { Some(Face { mesh, id: FaceId(i as usize) }) } else { None }),
//@LOCAL iter /Self/
//@LOOP 0: invariant iter.inv(), *iter.mesh == *mesh, somes(iter.all()) == rest(iter),
//@    ensures ready(iter),
//@    decreases mesh.nf() - iter.id.0
//@LOOPSTART 0: proof { lemma_skip(iter.all(), iter.pos()); }
//@SUB /(let mut iter = Self \{.*?\};)/ => \1 proof { assert(iter.all().skip(0) =~= iter.all()); }
//@ENDFN
//@FN src/mesh/element/face.rs Iterator for FaceIter::next () -> res
//@SIGSUB /Self::Item/ => Face<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}


// ---- circulators ----
proof fn lemma_somes_all<T>(s: Seq<T>)
    ensures somes(s.map_values(|x: T| Some(x))) == s
    decreases s.len()
{
    let m = s.map_values(|x: T| Some(x));
    if s.len() > 0 {
        lemma_somes_all(s.skip(1));
        assert(m.skip(1) =~= s.skip(1).map_values(|x: T| Some(x)));
        assert(m[0] == Some(s[0]));
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(s =~= Seq::<T>::empty()); }
}
spec fn hes<'a>(m: &'a SurfaceMesh, s: Seq<int>) -> Seq<Halfedge<'a>> { s.map_values(|h: int| Halfedge { mesh: m, id: HalfedgeId(h as usize) }) }
spec fn orgs<'a>(m: &'a SurfaceMesh, s: Seq<int>) -> Seq<Vertex<'a>> { s.map_values(|h: int| Vertex { mesh: m, id: VertexId(m.org(h) as usize) }) }
spec fn some_all<T>(s: Seq<T>) -> Seq<Option<T>> { s.map_values(|x: T| Some(x)) }
spec fn ring_pos(s: Seq<int>, curr: int, just: bool) -> int { if just { 0 } else if curr == s[0] { s.len() as int } else { s.index_of(curr) } }
// the halfedges of s are exactly those with property p, each once
spec fn exactly(s: Seq<int>, n: int, p: spec_fn(int) -> bool) -> bool {
    s.no_duplicates() && forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < n && p(h)
}
proof fn lemma_ring_step(succ: Seq<HalfedgeId>, s: Seq<int>, curr: int, just: bool)
    requires is_ring(succ, s), s.contains(curr), just ==> curr == s[0], just || curr != s[0],
    ensures s.contains(succ[curr].0 as int), ring_pos(s, succ[curr].0 as int, false) == ring_pos(s, curr, just) + 1,
        0 <= ring_pos(s, curr, just) < s.len(), s[ring_pos(s, curr, just)] == curr, 0 <= curr < succ.len(),
{
    reveal(is_ring);
    let k = ring_pos(s, curr, just);
    assert(s[k] == curr);
    if k + 1 < s.len() {
        assert(s[k + 1] == succ[s[k]].0);
        assert(s.contains(s[k + 1]));
        assert(s.index_of(s[k + 1]) == k + 1);
        assert(s[k + 1] != s[0]);
    } else {
        assert(s.contains(s[0]));
    }
}

//@STRUCT src/mesh/element/edge.rs EHIter
impl<'a> EHIter<'a> {
    spec fn s(self) -> Seq<int> { ring(self.mesh.sib_s(), self.first.0 as int) }
}
impl<'a> Element for EHIter<'a> {
    type Item = Halfedge<'a>;
    spec fn inv(self) -> bool {
        &&& self.mesh.wf() && self.first.0 < self.mesh.nh() && self.s().contains(self.curr.0 as int)
        &&& ring_ok(self.mesh.sib_s(), self.mesh.e_key(), self.mesh.nh(), self.s(), self.first.0 as int)
        &&& self.just_started ==> self.curr == self.first
    }
    spec fn all(self) -> Seq<Option<Halfedge<'a>>> { some_all(hes(self.mesh, self.s())) }
    spec fn pos(self) -> int { ring_pos(self.s(), self.curr.0 as int, self.just_started) }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) { if self.just_started || self.curr != self.first { lemma_ring_step(self.mesh.sib_s(), self.s(), self.curr.0 as int, self.just_started); } }
//@FN src/mesh/element/edge.rs Element for EHIter::item () -> res
//@START: proof { lemma_ring_step(self.mesh.sib_s(), self.s(), self.curr.0 as int, self.just_started); }
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EHIter::valid () -> res
//@START: proof { self.in_range(); }
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EHIter::next ()
//@START: proof { lemma_ring_step(self.mesh.sib_s(), self.s(), self.curr.0 as int, self.just_started); }
//@ENDFN
//@FN src/mesh/element/edge.rs Element for EHIter::is_end () -> res
//@START: proof { self.in_range(); }
//@ENDFN
}
impl<'a> EHIter<'a> {
//@FN src/mesh/element/edge.rs EHIter::new (mesh, eid) -> res
//@    requires mesh.wf(), eid.0 < mesh.ne(), 
//@    ensures ready(res), *res.mesh == *mesh, rest(res) == hes(mesh, ring(mesh.sib_s(), mesh.eh(eid.0 as int))),
//@        exactly(ring(mesh.sib_s(), mesh.eh(eid.0 as int)), mesh.nh(), |h: int| mesh.edge_of(h) == eid.0),
//@END: proof { reveal(is_ring);
//@    let st = mesh.eh(eid.0 as int); let s = ring(mesh.sib_s(), st);
//@    assert(0 <= st < mesh.nh());
//@    assert(ring_ok(mesh.sib_s(), mesh.e_key(), mesh.nh(), s, st));
//@    assert(s.contains(s[0]));
//@    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < mesh.nh() && mesh.edge_of(h) == eid.0 by {
//@        assert(mesh.e_key()(h) == mesh.e_key()(st) <==> mesh.edge_of(h) == eid.0); }
//@    lemma_somes_all(hes(mesh, s));
//@    assert(res.all().skip(0) =~= res.all());
//@ }
//@ENDFN
//@FN src/mesh/element/edge.rs Iterator for EHIter::next () -> res
//@SIGSUB /Self::Item/ => Halfedge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/face.rs FHIter
impl<'a> FHIter<'a> {
    spec fn s(self) -> Seq<int> { ring(self.mesh.next_s(), self.first.0 as int) }
}
impl<'a> Element for FHIter<'a> {
    type Item = Halfedge<'a>;
    spec fn inv(self) -> bool {
        &&& self.mesh.wf() && self.first.0 < self.mesh.nh() && self.s().contains(self.current.0 as int)
        &&& ring_ok(self.mesh.next_s(), self.mesh.f_key(), self.mesh.nh(), self.s(), self.first.0 as int)
        &&& self.just_start ==> self.current == self.first
    }
    spec fn all(self) -> Seq<Option<Halfedge<'a>>> { some_all(hes(self.mesh, self.s())) }
    spec fn pos(self) -> int { ring_pos(self.s(), self.current.0 as int, self.just_start) }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) { if self.just_start || self.current != self.first { lemma_ring_step(self.mesh.next_s(), self.s(), self.current.0 as int, self.just_start); } }
//@FN src/mesh/element/face.rs Element for FHIter::item () -> res
//@START: proof { lemma_ring_step(self.mesh.next_s(), self.s(), self.current.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FHIter::valid () -> res
//@START: proof { self.in_range(); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FHIter::next ()
//@START: proof { lemma_ring_step(self.mesh.next_s(), self.s(), self.current.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FHIter::is_end () -> res
//@START: proof { self.in_range(); }
//@ENDFN
}
impl<'a> FHIter<'a> {
//@FN src/mesh/element/face.rs FHIter::new (mesh, fid) -> res
//@    requires mesh.wf(), fid.0 < mesh.nf(), 
//@    ensures ready(res), *res.mesh == *mesh, rest(res) == hes(mesh, ring(mesh.next_s(), mesh.fh(fid.0 as int))),
//@        exactly(ring(mesh.next_s(), mesh.fh(fid.0 as int)), mesh.nh(), |h: int| mesh.face_of(h) == fid.0),
//@END: proof { reveal(is_ring);
//@    let st = mesh.fh(fid.0 as int); let s = ring(mesh.next_s(), st);
//@    assert(0 <= st < mesh.nh());
//@    assert(ring_ok(mesh.next_s(), mesh.f_key(), mesh.nh(), s, st));
//@    assert(s.contains(s[0]));
//@    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < mesh.nh() && mesh.face_of(h) == fid.0 by {
//@        assert(mesh.f_key()(h) == mesh.f_key()(st) <==> mesh.face_of(h) == fid.0); }
//@    lemma_somes_all(hes(mesh, s));
//@    assert(res.all().skip(0) =~= res.all());
//@ }
//@ENDFN
//@FN src/mesh/element/face.rs Iterator for FHIter::next () -> res
//@SIGSUB /Self::Item/ => Halfedge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/face.rs FVIter
impl<'a> FVIter<'a> {
    spec fn s(self) -> Seq<int> { ring(self.mesh.next_s(), self.start.0 as int) }
}
impl<'a> Element for FVIter<'a> {
    type Item = Vertex<'a>;
    spec fn inv(self) -> bool {
        &&& self.mesh.wf() && self.start.0 < self.mesh.nh() && self.s().contains(self.he.0 as int)
        &&& ring_ok(self.mesh.next_s(), self.mesh.f_key(), self.mesh.nh(), self.s(), self.start.0 as int)
        &&& self.just_start ==> self.he == self.start
    }
    spec fn all(self) -> Seq<Option<Vertex<'a>>> { some_all(orgs(self.mesh, self.s())) }
    spec fn pos(self) -> int { ring_pos(self.s(), self.he.0 as int, self.just_start) }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) { if self.just_start || self.he != self.start { lemma_ring_step(self.mesh.next_s(), self.s(), self.he.0 as int, self.just_start); } }
//@FN src/mesh/element/face.rs Element for FVIter::item () -> res
//@START: proof { lemma_ring_step(self.mesh.next_s(), self.s(), self.he.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FVIter::valid () -> res
//@START: proof { self.in_range(); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FVIter::next ()
//@START: proof { lemma_ring_step(self.mesh.next_s(), self.s(), self.he.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/face.rs Element for FVIter::is_end () -> res
//@START: proof { self.in_range(); }
//@ENDFN
}
impl<'a> FVIter<'a> {
//@FN src/mesh/element/face.rs FVIter::new (mesh, fid) -> res
//@    requires mesh.wf(), fid.0 < mesh.nf(), 
//@    ensures ready(res), *res.mesh == *mesh, rest(res) == orgs(mesh, ring(mesh.next_s(), mesh.fh(fid.0 as int))),
//@        exactly(ring(mesh.next_s(), mesh.fh(fid.0 as int)), mesh.nh(), |h: int| mesh.face_of(h) == fid.0),
//@END: proof { reveal(is_ring);
//@    let st = mesh.fh(fid.0 as int); let s = ring(mesh.next_s(), st);
//@    assert(0 <= st < mesh.nh());
//@    assert(ring_ok(mesh.next_s(), mesh.f_key(), mesh.nh(), s, st));
//@    assert(s.contains(s[0]));
//@    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < mesh.nh() && mesh.face_of(h) == fid.0 by {
//@        assert(mesh.f_key()(h) == mesh.f_key()(st) <==> mesh.face_of(h) == fid.0); }
//@    lemma_somes_all(orgs(mesh, s));
//@    assert(res.all().skip(0) =~= res.all());
//@ }
//@ENDFN
//@FN src/mesh/element/face.rs Iterator for FVIter::next () -> res
//@SIGSUB /Self::Item/ => Vertex<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/vertex.rs VOHIter
impl<'a> VOHIter<'a> {
    spec fn s(self) -> Seq<int> { ring(self.mesh.out_s(), self.start.0 as int) }
}
impl<'a> Element for VOHIter<'a> {
    type Item = Halfedge<'a>;
    spec fn inv(self) -> bool {
        &&& self.mesh.wf() && self.start.0 < self.mesh.nh() && self.s().contains(self.curr.0 as int)
        &&& ring_ok(self.mesh.out_s(), self.mesh.o_key(), self.mesh.nh(), self.s(), self.start.0 as int)
        &&& self.just_start ==> self.curr == self.start
    }
    spec fn all(self) -> Seq<Option<Halfedge<'a>>> { some_all(hes(self.mesh, self.s())) }
    spec fn pos(self) -> int { ring_pos(self.s(), self.curr.0 as int, self.just_start) }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) { if self.just_start || self.curr != self.start { lemma_ring_step(self.mesh.out_s(), self.s(), self.curr.0 as int, self.just_start); } }
//@FN src/mesh/element/vertex.rs Element for VOHIter::item () -> res
//@START: proof { lemma_ring_step(self.mesh.out_s(), self.s(), self.curr.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VOHIter::valid () -> res
//@START: proof { self.in_range(); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VOHIter::next ()
//@START: proof { lemma_ring_step(self.mesh.out_s(), self.s(), self.curr.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VOHIter::is_end () -> res
//@START: proof { self.in_range(); }
//@ENDFN
}
impl<'a> VOHIter<'a> {
//@FN src/mesh/element/vertex.rs VOHIter::new (mesh, id) -> res
//@    requires mesh.wf(), id.0 < mesh.nv(), mesh.vh(id.0 as int) != INVALID_IND,
//@    ensures ready(res), *res.mesh == *mesh, rest(res) == hes(mesh, ring(mesh.out_s(), mesh.vh(id.0 as int))),
//@        exactly(ring(mesh.out_s(), mesh.vh(id.0 as int)), mesh.nh(), |h: int| mesh.org(h) == id.0),
//@END: proof { reveal(is_ring);
//@    let st = mesh.vh(id.0 as int); let s = ring(mesh.out_s(), st);
//@    assert(0 <= st < mesh.nh());
//@    assert(ring_ok(mesh.out_s(), mesh.o_key(), mesh.nh(), s, st));
//@    assert(s.contains(s[0]));
//@    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < mesh.nh() && mesh.org(h) == id.0 by {
//@        assert(mesh.o_key()(h) == mesh.o_key()(st) <==> mesh.org(h) == id.0); }
//@    lemma_somes_all(hes(mesh, s));
//@    assert(res.all().skip(0) =~= res.all());
//@ }
//@ENDFN
//@FN src/mesh/element/vertex.rs Iterator for VOHIter::next () -> res
//@SIGSUB /Self::Item/ => Halfedge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

//@STRUCT src/mesh/element/vertex.rs VIHIter
impl<'a> VIHIter<'a> {
    spec fn s(self) -> Seq<int> { ring(self.mesh.in_s(), self.start.0 as int) }
}
impl<'a> Element for VIHIter<'a> {
    type Item = Halfedge<'a>;
    spec fn inv(self) -> bool {
        &&& self.start.0 < self.mesh.nh() && self.s().contains(self.curr.0 as int) && starts(self.mesh.in_s(), self.start.0 as int)
        &&& self.just_start ==> self.curr == self.start
    }
    spec fn all(self) -> Seq<Option<Halfedge<'a>>> { some_all(hes(self.mesh, self.s())) }
    spec fn pos(self) -> int { ring_pos(self.s(), self.curr.0 as int, self.just_start) }
    spec fn ctx(self) -> SurfaceMesh { *self.mesh }
    proof fn in_range(self) { if self.just_start || self.curr != self.start { lemma_ring_step(self.mesh.in_s(), self.s(), self.curr.0 as int, self.just_start); } }
//@FN src/mesh/element/vertex.rs Element for VIHIter::item () -> res
//@START: proof { lemma_ring_step(self.mesh.in_s(), self.s(), self.curr.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VIHIter::valid () -> res
//@START: proof { self.in_range(); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VIHIter::next ()
//@START: proof { lemma_ring_step(self.mesh.in_s(), self.s(), self.curr.0 as int, self.just_start); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VIHIter::is_end () -> res
//@START: proof { self.in_range(); }
//@ENDFN
}
impl<'a> VIHIter<'a> {
//@FN src/mesh/element/vertex.rs VIHIter::new (mesh, id) -> res
//@    requires id.0 < mesh.nv(), mesh.vh(id.0 as int) != INVALID_IND, mesh.wf() || mesh.vih_ok(id.0 as int),
//@    ensures ready(res), *res.mesh == *mesh, rest(res) == hes(mesh, ring(mesh.in_s(), ring(mesh.next_s(), mesh.vh(id.0 as int)).last())),
//@        mesh.wf() ==> exactly(ring(mesh.in_s(), ring(mesh.next_s(), mesh.vh(id.0 as int)).last()), mesh.nh(), |h: int| mesh.tip(h) == id.0),
//@END: proof { reveal(is_ring);
//@    let st = ring(mesh.next_s(), mesh.vh(id.0 as int)).last(); let s = ring(mesh.in_s(), st);
//@    if mesh.wf() {
//@    assert(0 <= st < mesh.nh());
//@    assert(ring_ok(mesh.in_s(), mesh.t_key(), mesh.nh(), s, st));
//@    assert(s.contains(s[0]));
//@    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < mesh.nh() && mesh.tip(h) == id.0 by {
//@        assert(mesh.t_key()(h) == mesh.t_key()(st) <==> mesh.tip(h) == id.0); }
//@    }
//@    assert(starts(mesh.in_s(), st)); assert(s.contains(s[0]));
//@    lemma_somes_all(hes(mesh, s));
//@    assert(res.all().skip(0) =~= res.all());
//@ }
//@ENDFN
//@FN src/mesh/element/vertex.rs Iterator for VIHIter::next () -> res
//@SIGSUB /Self::Item/ => Halfedge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}


// ---- edges and vertices around a vertex: first one ring of halfedges, then the other ----
proof fn lemma_somes_in<T>(s: Seq<Option<T>>, x: T)
    ensures somes(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x)
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.skip(1);
        lemma_somes_in(r, x);
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x);
            if i > 0 { assert(r[i - 1] == Some(x)); }
            else { assert(somes(s)[0] == x); }
            if i > 0 { let k = choose|k: int| 0 <= k < somes(r).len() && somes(r)[k] == x; if s[0] is Some { assert(somes(s)[k + 1] == x); } else { assert(somes(s)[k] == x); } }
        }
        if somes(s).contains(x) {
            let k = choose|k: int| 0 <= k < somes(s).len() && somes(s)[k] == x;
            if s[0] is Some {
                if k == 0 { assert(s[0] == Some(x)); }
                else { assert(somes(r)[k - 1] == x); let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == Some(x); assert(s[i + 1] == Some(x)); }
            } else { assert(somes(r)[k] == x); let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == Some(x); assert(s[i + 1] == Some(x)); }
        }
    }
}
proof fn lemma_somes_nodup<T>(s: Seq<Option<T>>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] is Some ==> s[i] != #[trigger] s[j],
    ensures somes(s).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < r.len() && #[trigger] r[i] is Some implies r[i] != #[trigger] r[j] by { assert(r[i] == s[i + 1] && r[j] == s[j + 1]); }
        lemma_somes_nodup(r);
        if s[0] is Some {
            let x = s[0]->0;
            lemma_somes_in(r, x);
            if somes(r).contains(x) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == Some(x); assert(s[i + 1] == s[0]); }
            assert forall|i: int, j: int| 0 <= i < somes(s).len() && 0 <= j < somes(s).len() && i != j implies somes(s)[i] != somes(s)[j] by {
                if i == 0 { assert(somes(s)[j] == somes(r)[j - 1]); }
                else if j == 0 { assert(somes(s)[i] == somes(r)[i - 1]); }
                else { assert(somes(s)[i] == somes(r)[i - 1] && somes(s)[j] == somes(r)[j - 1]); }
            }
        }
    }
}
spec fn prev_of(m: SurfaceMesh, h: int) -> int { ring(m.next_s(), h).last() }
spec fn side(m: SurfaceMesh, inc: bool) -> Seq<HalfedgeId> { if inc { m.in_s() } else { m.out_s() } }
spec fn side_ring(m: SurfaceMesh, h: int, inc: bool) -> Seq<int> { ring(side(m, inc), h) }
spec fn center(m: SurfaceMesh, h: int, inc: bool) -> int { if inc { m.tip(h) } else { m.org(h) } }
spec fn switch(m: SurfaceMesh, h: int, inc: bool) -> int { if inc { m.nx(h) } else { prev_of(m, h) } }
spec fn states(m: SurfaceMesh, h: int, inc: bool) -> Seq<(int, bool)> {
    side_ring(m, h, inc).map_values(|g: int| (g, inc)) + side_ring(m, switch(m, h, inc), !inc).map_values(|g: int| (g, !inc))
}
spec fn len1(m: SurfaceMesh, h: int, inc: bool) -> int { side_ring(m, h, inc).len() as int }
proof fn lemma_side(m: SurfaceMesh, h: int, inc: bool)
    requires m.wf(), 0 <= h < m.nh(),
    ensures is_ring(side(m, inc), side_ring(m, h, inc)), side_ring(m, h, inc)[0] == h,
        forall|g: int| #[trigger] side_ring(m, h, inc).contains(g) <==> 0 <= g < m.nh() && center(m, g, inc) == center(m, h, inc),
        0 <= switch(m, h, inc) < m.nh(), center(m, switch(m, h, inc), !inc) == center(m, h, inc),
        switch(m, switch(m, h, inc), !inc) == h,
{
    reveal(is_ring);
    if inc {
        assert(ring_ok(m.in_s(), m.t_key(), m.nh(), ring(m.in_s(), h), h));
        assert forall|g: int| #[trigger] side_ring(m, h, inc).contains(g) <==> 0 <= g < m.nh() && center(m, g, inc) == center(m, h, inc) by { assert(m.t_key()(g) == m.t_key()(h) <==> m.tip(g) == m.tip(h)); }
        lemma_prev(m, m.nx(h));
        let r = ring(m.next_s(), m.nx(h));
        lemma_face_next(m, h);
        assert(m.f_key()(h) == m.f_key()(m.nx(h)));
        assert(r.contains(h));
        let k = r.index_of(h);
        if k + 1 < r.len() { assert(r[k + 1] == m.next_s()[r[k]].0); assert(r[k + 1] == r[0]); }
    } else {
        assert(ring_ok(m.out_s(), m.o_key(), m.nh(), ring(m.out_s(), h), h));
        assert forall|g: int| #[trigger] side_ring(m, h, inc).contains(g) <==> 0 <= g < m.nh() && center(m, g, inc) == center(m, h, inc) by { assert(m.o_key()(g) == m.o_key()(h) <==> m.org(g) == m.org(h)); }
        lemma_prev(m, h);
    }
}
proof fn lemma_prev(m: SurfaceMesh, h: int)
    requires m.wf(), 0 <= h < m.nh(),
    ensures 0 <= prev_of(m, h) < m.nh(), m.nx(prev_of(m, h)) == h, ring_ok(m.next_s(), m.f_key(), m.nh(), ring(m.next_s(), h), h),
{
    reveal(is_ring);
    assert(ring_ok(m.next_s(), m.f_key(), m.nh(), ring(m.next_s(), h), h));
}
proof fn lemma_face_next(m: SurfaceMesh, h: int)
    requires m.wf(), 0 <= h < m.nh(),
    ensures m.face_of(m.nx(h)) == m.face_of(h),
{
    reveal(is_ring);
    let s = ring(m.next_s(), h);
    assert(ring_ok(m.next_s(), m.f_key(), m.nh(), s, h));
    if s.len() > 1 { assert(s[1] == m.next_s()[s[0]].0); assert(s.contains(s[1])); assert(m.f_key()(s[1]) == m.f_key()(h)); } 
}
// the state after `next` in the cycle of states
proof fn lemma_states_step(m: SurfaceMesh, h: int, inc: bool, k: int)
    requires m.wf(), 0 <= h < m.nh(), 0 <= k < states(m, h, inc).len(),
    ensures ({
        let t = states(m, h, inc);
        let (g, i) = t[k];
        let first = if k < len1(m, h, inc) { h } else { switch(m, h, inc) };
        let n = side(m, i)[g].0 as int;
        &&& 0 <= g < m.nh() && i == (if k < len1(m, h, inc) { inc } else { !inc }) && 0 <= first < m.nh()
        &&& side_ring(m, first, i).contains(g)
        &&& n == first <==> (k + 1 == len1(m, h, inc) || k + 1 == t.len())
        &&& n != first ==> k + 1 < t.len() && t[k + 1] == (n, i)
        &&& k + 1 == len1(m, h, inc) ==> k + 1 < t.len() && t[k + 1] == (switch(m, first, i), !i) && switch(m, first, i) == switch(m, h, inc)
        &&& k + 1 == t.len() ==> switch(m, first, i) == h && i == !inc
        &&& t[0] == (h, inc)
        &&& 0 < len1(m, h, inc) < t.len()
    })
{
    reveal(is_ring);
    lemma_side(m, h, inc);
    let w = switch(m, h, inc);
    lemma_side(m, w, !inc);
    let (a, b) = (side_ring(m, h, inc), side_ring(m, w, !inc));
    if k < a.len() {
        assert(a.contains(a[k]));
        if k + 1 < a.len() { assert(a[k + 1] == side(m, inc)[a[k]].0); assert(a[k + 1] != a[0]); }
    } else {
        let j = k - a.len();
        assert(b.contains(b[j]));
        if j + 1 < b.len() { assert(b[j + 1] == side(m, !inc)[b[j]].0); assert(b[j + 1] != b[0]); }
    }
}
proof fn lemma_states_distinct(m: SurfaceMesh, h: int, inc: bool)
    requires m.wf(), 0 <= h < m.nh(),
    ensures states(m, h, inc).no_duplicates(),
        forall|i: int, j: int| 0 <= i < j < states(m, h, inc).len() ==> (#[trigger] states(m, h, inc)[i]).0 != (#[trigger] states(m, h, inc)[j]).0,
        forall|i: int| 0 <= i < states(m, h, inc).len() ==> 0 <= (#[trigger] states(m, h, inc)[i]).0 < m.nh() && center(m, states(m, h, inc)[i].0, states(m, h, inc)[i].1) == center(m, h, inc),
        forall|g: int| 0 <= g < m.nh() && m.org(g) == center(m, h, inc) ==> states(m, h, inc).contains((g, false)),
        forall|g: int| 0 <= g < m.nh() && m.tip(g) == center(m, h, inc) ==> states(m, h, inc).contains((g, true)),
{
    reveal(is_ring);
    lemma_side(m, h, inc);
    let w = switch(m, h, inc);
    lemma_side(m, w, !inc);
    let (a, b) = (side_ring(m, h, inc), side_ring(m, w, !inc));
    let t = states(m, h, inc);
    assert forall|i: int| 0 <= i < t.len() implies 0 <= (#[trigger] t[i]).0 < m.nh() && center(m, t[i].0, t[i].1) == center(m, h, inc) by {
        if i < a.len() { assert(a.contains(a[i])); } else { assert(b.contains(b[i - a.len()])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
        if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); assert(m.org(t[i].0) != m.tip(t[i].0)); }
    }
    assert forall|g: int| 0 <= g < m.nh() && m.org(g) == center(m, h, inc) implies t.contains((g, false)) by {
        if inc { assert(b.contains(g)); let k = b.index_of(g); assert(t[a.len() + k] == (g, false)); } else { assert(a.contains(g)); let k = a.index_of(g); assert(t[k] == (g, false)); }
    }
    assert forall|g: int| 0 <= g < m.nh() && m.tip(g) == center(m, h, inc) implies t.contains((g, true)) by {
        if !inc { assert(b.contains(g)); let k = b.index_of(g); assert(t[a.len() + k] == (g, true)); } else { assert(a.contains(g)); let k = a.index_of(g); assert(t[k] == (g, true)); }
    }
}
#[derive(Clone, PartialEq, Eq, Structural)]
//@STRUCT src/mesh/element/vertex.rs VNeiState
//@STRUCT src/mesh/element/vertex.rs VNeiIterImpl
//@STRUCT src/mesh/element/vertex.rs VVIter
//@STRUCT src/mesh/element/vertex.rs VEIter
spec fn canonical(m: SurfaceMesh, h: int) -> bool { h == m.eh(m.edge_of(h)) }
impl VNeiState {
    spec fn at(self, st: (int, bool)) -> bool { self.he.0 == st.0 && self.incoming == st.1 }
//@FN src/mesh/element/vertex.rs VNeiState::new (he, incoming) -> res
//@    ensures res.he == he, res.incoming == incoming,
//@ENDFN
    fn vx_clone(&self) -> (res: Self) ensures res == *self { VNeiState { he: self.he, incoming: self.incoming } }
//@FN src/mesh/element/vertex.rs VNeiState::is_halfedge_canonical (mesh) -> res
//@    requires mesh.wf(), self.he.0 < mesh.nh(),
//@    ensures res <==> canonical(*mesh, self.he.0 as int),
//@ENDFN
//@FN src/mesh/element/vertex.rs VNeiState::next (mesh, first_he)
//@    requires mesh.wf(), old(self).he.0 < mesh.nh(), old(first_he).0 < mesh.nh(),
//@        side_ring(*mesh, old(first_he).0 as int, old(self).incoming).contains(old(self).he.0 as int),
//@    ensures ({
//@        let n = side(*mesh, old(self).incoming)[old(self).he.0 as int];
//@        &&& n != *old(first_he) ==> final(self).he == n && final(self).incoming == old(self).incoming && *final(first_he) == *old(first_he)
//@        &&& n == *old(first_he) ==> final(self).he == *final(first_he) && final(self).incoming == !old(self).incoming
//@               && final(self).he.0 == switch(*mesh, n.0 as int, old(self).incoming)
//@    }),
//@START: proof {
//@    lemma_side(*mesh, first_he.0 as int, self.incoming);
//@    let s = side_ring(*mesh, first_he.0 as int, self.incoming);
//@    let k = s.index_of(self.he.0 as int);
//@    reveal(is_ring); if k + 1 < s.len() { assert(s[k + 1] == side(*mesh, self.incoming)[s[k]].0); assert(s.contains(s[k + 1])); }
//@ }
//@ENDFN
}
impl<'a> VNeiIterImpl<'a> {
    spec fn h(self) -> int { self.start.he.0 as int }
    spec fn ts(self) -> Seq<(int, bool)> { states(*self.mesh, self.h(), self.start.incoming) }
    spec fn cur(self) -> (int, bool) { (self.curr.he.0 as int, self.curr.incoming) }
    spec fn inv(self) -> bool {
        &&& self.mesh.wf() && self.start.he.0 < self.mesh.nh()
        &&& self.ts().contains(self.cur())
        &&& self.just_start ==> self.curr == self.start
        &&& self.first_he.0 == (if self.curr.incoming == self.start.incoming { self.h() } else { switch(*self.mesh, self.h(), self.start.incoming) })
    }
    spec fn pos(self) -> int { if self.just_start { 0 } else if self.curr == self.start { self.ts().len() as int } else { self.ts().index_of(self.cur()) } }
    proof fn in_range(self)
        requires self.inv(),
        ensures 0 <= self.pos() <= self.ts().len(), self.pos() == self.ts().len() <==> !self.just_start && self.curr == self.start,
            self.pos() < self.ts().len() ==> self.ts()[self.pos()] == self.cur(), self.curr.he.0 < self.mesh.nh(),
            side_ring(*self.mesh, self.first_he.0 as int, self.curr.incoming).contains(self.curr.he.0 as int), self.first_he.0 < self.mesh.nh(),
    {
        lemma_states_step(*self.mesh, self.h(), self.start.incoming, 0);
        lemma_states_step(*self.mesh, self.h(), self.start.incoming, self.ts().index_of(self.cur()));
        lemma_side(*self.mesh, self.h(), self.start.incoming);
        assert(side_ring(*self.mesh, self.h(), self.start.incoming).contains(side_ring(*self.mesh, self.h(), self.start.incoming)[0]));
        let k = self.ts().index_of(self.cur());
        assert(self.ts()[k] == self.cur());
    }
    // one application of VNeiState::next
    proof fn stepped(self, o: Self)
        requires o.inv(), o.pos() < o.ts().len(), *self.mesh == *o.mesh, self.start == o.start, !self.just_start,
            ({
                let n = side(*o.mesh, o.curr.incoming)[o.curr.he.0 as int];
                &&& n != o.first_he ==> self.curr.he == n && self.curr.incoming == o.curr.incoming && self.first_he == o.first_he
                &&& n == o.first_he ==> self.curr.he == self.first_he && self.curr.incoming == !o.curr.incoming
                       && self.curr.he.0 == switch(*o.mesh, n.0 as int, o.curr.incoming)
            }),
        ensures self.inv(), self.pos() == o.pos() + 1, self.ts() == o.ts(),
    {
        o.in_range();
        let k = o.pos();
        lemma_states_step(*o.mesh, o.h(), o.start.incoming, k);
        lemma_states_distinct(*o.mesh, o.h(), o.start.incoming);
        let t = o.ts();
        if k + 1 < t.len() {
            assert(t[k + 1] == self.cur());
            assert(t.contains(t[k + 1]));
            assert(t.index_of(t[k + 1]) == k + 1);
            assert(t[k + 1] != t[0]);
        } else {
            assert(self.cur() == t[0]);
            assert(t.contains(t[0]));
        }
    }
//@FN src/mesh/element/vertex.rs VNeiIterImpl::new (mesh, id) -> res
//@SUB /(\w+)\.clone\(\)/ => \1.vx_clone()
//@    requires mesh.wf(), id.0 < mesh.nv(), mesh.vh(id.0 as int) != INVALID_IND,
//@    ensures *res.mesh == *mesh, res.inv(), res.pos() == 0, center(*mesh, res.h(), res.start.incoming) == id.0,
//@        canonical(*mesh, res.start.he.0 as int), res.curr == res.start,
//@START: let ghost h0 = mesh.vh(id.0 as int); let ghost t = states(*mesh, h0, false); let ghost mut k: int = 0;
//@   let ghost c = mesh.eh(mesh.edge_of(h0)); let ghost j: int;
//@   proof {
//@      lemma_states_distinct(*mesh, h0, false);
//@      assert(mesh.edge_of(c) == mesh.edge_of(h0));
//@      assert(mesh.org(c) == id.0 || mesh.tip(c) == id.0);
//@      j = if mesh.org(c) == id.0 { t.index_of((c, false)) } else { t.index_of((c, true)) };
//@      assert(t[j].0 == c);
//@      lemma_states_step(*mesh, h0, false, 0);
//@      lemma_side(*mesh, h0, false);
//@   }
//@LOCAL curr /VNeiState::new/
//@LOCAL first_he /v_halfedge/
//@LOCAL start /clone/
//@LOOP 0: invariant mesh.wf(), 0 <= h0 < mesh.nh(), mesh.org(h0) == id.0, 0 <= k <= j < t.len(), t == states(*mesh, h0, false), curr.at(t[k]), canonical(*mesh, t[j].0),
//@      first_he.0 == (if k < len1(*mesh, h0, false) { h0 } else { switch(*mesh, h0, false) }),
//@      curr.he.0 < mesh.nh(),
//@   decreases j - k
//@LOOPSTART 0: proof { assert(k != j); lemma_states_step(*mesh, h0, false, k); lemma_states_step(*mesh, h0, false, k + 1); }
//@LOOPEND 0: proof { k = k + 1; }
//@END: proof {
//@    lemma_states_distinct(*mesh, h0, false);
//@    lemma_states_step(*mesh, res.h(), res.start.incoming, 0);
//@    assert(res.ts().contains(res.ts()[0]));
//@    assert(center(*mesh, t[k].0, t[k].1) == id.0);
//@  }
//@ENDFN
}


impl<'a> Element for VEIter<'a> {
    type Item = Edge<'a>;
    spec fn inv(self) -> bool { self.imp.inv() }
    spec fn all(self) -> Seq<Option<Edge<'a>>> { self.imp.ts().map_values(|st: (int, bool)| if canonical(*self.imp.mesh, st.0) { Some(Edge { mesh: self.imp.mesh, id: EdgeId(self.imp.mesh.edge_of(st.0) as usize) }) } else { None }) }
    spec fn pos(self) -> int { self.imp.pos() }
    spec fn ctx(self) -> SurfaceMesh { *self.imp.mesh }
    proof fn in_range(self) { self.imp.in_range(); }
//@FN src/mesh/element/vertex.rs Element for VEIter::item () -> res
//@START: proof { self.imp.in_range(); assert(self.all()[self.pos()] == Some(Edge { mesh: self.imp.mesh, id: EdgeId(self.imp.mesh.edge_of(self.imp.curr.he.0 as int) as usize) })); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VEIter::valid () -> res
//@START: proof { self.imp.in_range(); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VEIter::next ()
//@START: let ghost o = self.imp; proof { self.imp.in_range(); }
//@END: proof { self.imp.stepped(o); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VEIter::is_end () -> res
//@START: proof { self.imp.in_range(); }
//@ENDFN
}
impl<'a> VEIter<'a> {
//@FN src/mesh/element/vertex.rs Iterator for VEIter::next () -> res
//@SIGSUB /Self::Item/ => Edge<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}


impl<'a> Element for VVIter<'a> {
    type Item = Vertex<'a>;
    spec fn inv(self) -> bool { self.imp.inv() }
    spec fn all(self) -> Seq<Option<Vertex<'a>>> { self.imp.ts().map_values(|st: (int, bool)| if canonical(*self.imp.mesh, st.0) { Some(Vertex { mesh: self.imp.mesh, id: VertexId(other_end(*self.imp.mesh, st.0, st.1) as usize) }) } else { None }) }
    spec fn pos(self) -> int { self.imp.pos() }
    spec fn ctx(self) -> SurfaceMesh { *self.imp.mesh }
    proof fn in_range(self) { self.imp.in_range(); }
//@FN src/mesh/element/vertex.rs Element for VVIter::item () -> res
//@START: proof { self.imp.in_range(); assert(self.all()[self.pos()] == Some(Vertex { mesh: self.imp.mesh, id: VertexId(other_end(*self.imp.mesh, self.imp.curr.he.0 as int, self.imp.curr.incoming) as usize) })); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VVIter::valid () -> res
//@START: proof { self.imp.in_range(); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VVIter::next ()
//@START: let ghost o = self.imp; proof { self.imp.in_range(); }
//@END: proof { self.imp.stepped(o); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Element for VVIter::is_end () -> res
//@START: proof { self.imp.in_range(); }
//@ENDFN
}
impl<'a> VVIter<'a> {
//@FN src/mesh/element/vertex.rs Iterator for VVIter::next () -> res
//@SIGSUB /Self::Item/ => Vertex<'a>
//@    requires ready(*old(self)),
//@    ensures ready(*final(self)), final(self).all() == old(self).all(), final(self).ctx() == old(self).ctx(),
//@        res is None ==> rest(*old(self)).len() == 0,
//@        res is Some ==> rest(*old(self)) == seq![res->0] + rest(*final(self)),
//@ENDFN
}

spec fn other_end(m: SurfaceMesh, h: int, inc: bool) -> int { if inc { m.org(h) } else { m.tip(h) } }

// what the public circulators promise
spec fn e_incident(m: SurfaceMesh, e: int, v: int) -> bool { exists|h: int| 0 <= h < m.nh() && #[trigger] m.edge_of(h) == e && (m.org(h) == v || m.tip(h) == v) }
spec fn edge_ids<'a>(s: Seq<Edge<'a>>) -> Seq<int> { s.map_values(|e: Edge<'a>| e.id.0 as int) }
spec fn vert_ids<'a>(s: Seq<Vertex<'a>>) -> Seq<int> { s.map_values(|e: Vertex<'a>| e.id.0 as int) }
// the end of the edge's canonical halfedge that is not v
spec fn across(m: SurfaceMesh, e: int, v: int) -> int { if m.org(m.eh(e)) == v { m.tip(m.eh(e)) } else { m.org(m.eh(e)) } }
proof fn lemma_edges_of(it: VEIter, v: int)
    requires it.imp.inv(), it.imp.pos() == 0, center(*it.imp.mesh, it.imp.h(), it.imp.start.incoming) == v,
    ensures rest(it).no_duplicates(),
        forall|e: Edge| #[trigger] rest(it).contains(e) ==> e.mesh == it.imp.mesh && e_incident(*it.imp.mesh, e.id.0 as int, v) && e.id.0 < it.imp.mesh.ne(),
        forall|e: int| 0 <= e < it.imp.mesh.ne() && #[trigger] e_incident(*it.imp.mesh, e, v) ==> rest(it).contains(Edge { mesh: it.imp.mesh, id: EdgeId(e as usize) }),
{
    let m = *it.imp.mesh;
    let t = it.imp.ts();
    let a = it.all();
    assert(a.skip(0) =~= a);
    lemma_states_distinct(m, it.imp.h(), it.imp.start.incoming);
    assert forall|i: int, j: int| 0 <= i < j < a.len() && #[trigger] a[i] is Some implies a[i] != #[trigger] a[j] by {
        assert(t[i].0 != t[j].0);
        if a[i] == a[j] { assert(m.edge_of(t[i].0) == m.edge_of(t[j].0)); }
    }
    lemma_somes_nodup(a);
    assert forall|e: Edge| #[trigger] rest(it).contains(e) implies e.mesh == it.imp.mesh && e_incident(m, e.id.0 as int, v) && e.id.0 < m.ne() by {
        lemma_somes_in(a, e);
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == Some(e);
        assert(m.edge_of(t[i].0) == e.id.0);
    }
    assert forall|e: int| 0 <= e < m.ne() && #[trigger] e_incident(m, e, v) implies rest(it).contains(Edge { mesh: it.imp.mesh, id: EdgeId(e as usize) }) by {
        let x = Edge { mesh: it.imp.mesh, id: EdgeId(e as usize) };
        lemma_somes_in(a, x);
        let c = m.eh(e);
        assert(m.edge_of(c) == e);
        assert(m.org(c) == v || m.tip(c) == v);
        let st = (c, m.org(c) != v);
        assert(t.contains(st));
        let i = t.index_of(st);
        assert(a[i] == Some(x));
    }
}
proof fn lemma_somes_parallel<T, U>(a: Seq<Option<T>>, b: Seq<Option<U>>, f: spec_fn(T) -> U)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if a[i] is Some { Some(f(a[i]->0)) } else { None }),
    ensures somes(b) == somes(a).map_values(f)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] b.skip(1)[i] == (if a.skip(1)[i] is Some { Some(f(a.skip(1)[i]->0)) } else { None }) by { assert(b[i + 1] == b.skip(1)[i]); }
        lemma_somes_parallel(a.skip(1), b.skip(1), f);
        assert(b[0] == (if a[0] is Some { Some(f(a[0]->0)) } else { None }));
    }
    assert(somes(b) =~= somes(a).map_values(f));
}
// the vertex circulator runs in step with the edge circulator: the i-th vertex lies across the i-th edge
proof fn lemma_verts_of(iv: VVIter, ie: VEIter, v: int)
    requires ie.imp == iv.imp, iv.imp.inv(), iv.imp.pos() == 0, center(*iv.imp.mesh, iv.imp.h(), iv.imp.start.incoming) == v,
    ensures vert_ids(rest(iv)) == edge_ids(rest(ie)).map_values(|e: int| across(*iv.imp.mesh, e, v)),
{
    let m = *iv.imp.mesh;
    let t = iv.imp.ts();
    let (a, b) = (ie.all(), iv.all());
    assert(a.skip(0) =~= a);
    assert(b.skip(0) =~= b);
    let f = |x: Edge| Vertex { mesh: iv.imp.mesh, id: VertexId(across(m, x.id.0 as int, v) as usize) };
    lemma_states_distinct(m, iv.imp.h(), iv.imp.start.incoming);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == (if a[i] is Some { Some(f(a[i]->0)) } else { None }) by {
        let st = t[i];
        assert(center(m, st.0, st.1) == v);
        assert(m.org(st.0) != m.tip(st.0));
        assert(0 <= m.edge_of(st.0) < m.ne());
    }
    lemma_somes_parallel(a, b, f);
    assert forall|i: int| 0 <= i < rest(ie).len() implies 0 <= across(m, (#[trigger] rest(ie)[i]).id.0 as int, v) < m.nv() by {
        let x = rest(ie)[i];
        lemma_somes_in(a, x);
        assert(rest(ie).contains(x));
        let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == Some(x);
        assert(m.edge_of(t[k].0) == x.id.0);
        assert(0 <= m.org(m.eh(m.edge_of(t[k].0))) < m.nv());
        assert(0 <= m.eh(x.id.0 as int) < m.nh());
        assert(0 <= m.nx(m.eh(x.id.0 as int)) < m.nh());
        assert(0 <= m.org(m.nx(m.eh(x.id.0 as int))) < m.nv());
    }
    assert(vert_ids(rest(iv)) =~= edge_ids(rest(ie)).map_values(|e: int| across(m, e, v)));
}
impl<'a> Vertex<'a> {
    spec fn ok(self) -> bool { self.mesh.wf() && self.id.0 < self.mesh.nv() && self.mesh.vh(self.id.0 as int) != INVALID_IND }
    spec fn v(self) -> int { self.id.0 as int }
//@FN src/mesh/element/vertex.rs Vertex::in_halfedge () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.tip(res.id.0 as int) == self.v(),
//@ENDFN
//@FN src/mesh/element/vertex.rs Vertex::out_halfedge () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.org(res.id.0 as int) == self.v(),
//@ENDFN
//@FN src/mesh/element/vertex.rs Vertex::edges () -> res
//@    requires self.ok(),
//@    ensures ready(res), rest(res).no_duplicates(),
//@        forall|e: Edge| #[trigger] rest(res).contains(e) ==> *e.mesh == *self.mesh && e.id.0 < self.mesh.ne() && e_incident(*self.mesh, e.id.0 as int, self.v()),
//@        forall|e: int| 0 <= e < self.mesh.ne() && #[trigger] e_incident(*self.mesh, e, self.v()) ==> rest(res).contains(Edge { mesh: res.imp.mesh, id: EdgeId(e as usize) }),
//@END: proof { res.imp.in_range(); lemma_edges_of(res, self.v()); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Vertex::vertices () -> res
//@    requires self.ok(),
//@    ensures ready(res), vert_ids(rest(res)) == edge_ids(rest(VEIter { imp: res.imp })).map_values(|e: int| across(*self.mesh, e, self.v())),
//@        res.imp.inv(), res.imp.pos() == 0, center(*self.mesh, res.imp.h(), res.imp.start.incoming) == self.v(),
//@END: proof { res.imp.in_range(); lemma_verts_of(res, VEIter { imp: res.imp }, self.v()); }
//@ENDFN
//@FN src/mesh/element/vertex.rs Vertex::incoming_halfedges () -> res
//@    requires self.ok() || self.id.0 < self.mesh.nv() && self.mesh.vh(self.id.0 as int) != INVALID_IND && self.mesh.vih_ok(self.id.0 as int),
//@    ensures ready(res), rest(res) == hes(self.mesh, ring(self.mesh.in_s(), ring(self.mesh.next_s(), self.mesh.vh(self.v())).last())),
//@        self.ok() ==> exactly(ring(self.mesh.in_s(), ring(self.mesh.next_s(), self.mesh.vh(self.v())).last()), self.mesh.nh(), |h: int| self.mesh.tip(h) == self.id.0),
//@ENDFN
//@FN src/mesh/element/vertex.rs Vertex::outgoing_halfedges () -> res
//@    requires self.ok(),
//@    ensures ready(res), rest(res) == hes(self.mesh, ring(self.mesh.out_s(), self.mesh.vh(self.v()))),
//@        exactly(ring(self.mesh.out_s(), self.mesh.vh(self.v())), self.mesh.nh(), |h: int| self.mesh.org(h) == self.id.0),
//@ENDFN
}
impl<'a> Edge<'a> {
    spec fn ok(self) -> bool { self.mesh.wf() && self.id.0 < self.mesh.ne() }
//@FN src/mesh/element/edge.rs Edge::halfedge () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.edge_of(res.id.0 as int) == self.id.0,
//@ENDFN
//@FN src/mesh/element/edge.rs Edge::halfedges () -> res
//@    requires self.ok(),
//@    ensures ready(res), rest(res) == hes(self.mesh, ring(self.mesh.sib_s(), self.mesh.eh(self.id.0 as int))),
//@        exactly(ring(self.mesh.sib_s(), self.mesh.eh(self.id.0 as int)), self.mesh.nh(), |h: int| self.mesh.edge_of(h) == self.id.0),
//@ENDFN
}
impl<'a> Face<'a> {
    spec fn ok(self) -> bool { self.mesh.wf() && self.id.0 < self.mesh.nf() }
//@FN src/mesh/element/face.rs Face::halfedge () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.face_of(res.id.0 as int) == self.id.0,
//@ENDFN
//@FN src/mesh/element/face.rs Face::halfedges () -> res
//@    requires self.ok(),
//@    ensures ready(res), rest(res) == hes(self.mesh, ring(self.mesh.next_s(), self.mesh.fh(self.id.0 as int))),
//@        exactly(ring(self.mesh.next_s(), self.mesh.fh(self.id.0 as int)), self.mesh.nh(), |h: int| self.mesh.face_of(h) == self.id.0),
//@ENDFN
//@FN src/mesh/element/face.rs Face::vertices () -> res
//@    requires self.ok(),
//@    ensures ready(res), rest(res) == orgs(self.mesh, ring(self.mesh.next_s(), self.mesh.fh(self.id.0 as int))),
//@        exactly(ring(self.mesh.next_s(), self.mesh.fh(self.id.0 as int)), self.mesh.nh(), |h: int| self.mesh.face_of(h) == self.id.0),
//@ENDFN
}
impl<'a> Halfedge<'a> {
    spec fn ok(self) -> bool { self.mesh.wf() && self.id.0 < self.mesh.nh() }
    spec fn h(self) -> int { self.id.0 as int }
//@FN src/mesh/element/halfedge.rs Halfedge::from () -> res
//@    requires self.ok() || self.mesh.lens() && self.h() < self.mesh.nh() && self.mesh.nx(self.h()) < self.mesh.nh(),
//@    ensures res.mesh == self.mesh, res.id.0 == self.mesh.org(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::to () -> res
//@    requires self.ok() || self.mesh.lens() && self.h() < self.mesh.nh() && self.mesh.nx(self.h()) < self.mesh.nh(),
//@    ensures res.mesh == self.mesh, res.id.0 == self.mesh.tip(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::vertices () -> res
//@    requires self.ok(),
//@    ensures res@.len() == 2, res@[0].id.0 == self.mesh.org(self.h()), res@[1].id.0 == self.mesh.tip(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::prev () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.nx(res.h()) == self.h(), self.mesh.face_of(res.h()) == self.mesh.face_of(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::next () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 == self.mesh.nx(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::twin () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 < self.mesh.nh(), self.mesh.edge_of(res.h()) == self.mesh.edge_of(self.h()),
//@        res.h() != self.h() ==> self.mesh.org(res.h()) == self.mesh.tip(self.h()) && self.mesh.tip(res.h()) == self.mesh.org(self.h()),
//@        res.h() == self.h() ==> forall|g: int| 0 <= g < self.mesh.nh() && #[trigger] self.mesh.edge_of(g) == self.mesh.edge_of(self.h()) ==> self.mesh.org(g) == self.mesh.org(self.h()),
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::sibling () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id == self.mesh.sib_s()[self.h()],
//@ENDFN
//@FN src/mesh/element/halfedge.rs Halfedge::edge () -> res
//@    requires self.ok(),
//@    ensures res.mesh == self.mesh, res.id.0 == self.mesh.edge_of(self.h()),
//@ENDFN
}
impl SurfaceMesh {
//@FN src/mesh/mesh.rs Mesh::vertex (vid) -> res
//@SIGSUB /-> Vertex<'_>/ => -> Vertex<'_>
//@    ensures *res.mesh == *self, res.id == vid,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::vertices () -> res
//@    requires self.lens(),
//@    ensures ready(res), rest(res) == somes(res.all()), res.all().len() == self.nv(),
//@        forall|i: int| 0 <= i < self.nv() ==> (#[trigger] res.all()[i]) == (if self.vh(i) != INVALID_IND { Some(Vertex { mesh: self, id: VertexId(i as usize) }) } else { None }),
//@ENDFN

//@FN src/mesh/mesh.rs Mesh::halfedge (hid) -> res
//@SIGSUB /-> Halfedge<'_>/ => -> Halfedge<'_>
//@    ensures *res.mesh == *self, res.id == hid,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::halfedges () -> res
//@    requires self.lens(),
//@    ensures ready(res), rest(res) == somes(res.all()), res.all().len() == self.nh(),
//@        forall|i: int| 0 <= i < self.nh() ==> (#[trigger] res.all()[i]) == (if self.org(i) != INVALID_IND { Some(Halfedge { mesh: self, id: HalfedgeId(i as usize) }) } else { None }),
//@ENDFN

//@FN src/mesh/mesh.rs Mesh::edge (eid) -> res
//@SIGSUB /-> Edge<'_>/ => -> Edge<'_>
//@    ensures *res.mesh == *self, res.id == eid,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::edges () -> res
//@    requires self.lens(),
//@    ensures ready(res), rest(res) == somes(res.all()), res.all().len() == self.ne(),
//@        forall|i: int| 0 <= i < self.ne() ==> (#[trigger] res.all()[i]) == (if self.eh(i) != INVALID_IND { Some(Edge { mesh: self, id: EdgeId(i as usize) }) } else { None }),
//@ENDFN

//@FN src/mesh/mesh.rs Mesh::face (fid) -> res
//@SIGSUB /-> Face<'_>/ => -> Face<'_>
//@    ensures *res.mesh == *self, res.id == fid,
//@ENDFN
//@FN src/mesh/mesh.rs Mesh::faces () -> res
//@    requires self.lens(),
//@    ensures ready(res), rest(res) == somes(res.all()), res.all().len() == self.nf(),
//@        forall|i: int| 0 <= i < self.nf() ==> (#[trigger] res.all()[i]) == (if self.fh(i) != INVALID_IND { Some(Face { mesh: self, id: FaceId(i as usize) }) } else { None }),
//@ENDFN

}
