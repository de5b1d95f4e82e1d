use vstd::prelude::*;
verus! {
//@INCLUDE mesh_common.inc
//@ASSUME
//@INCLUDE traverse.inc
//@ENDASSUME
//@INCLUDE rings.inc
//@TRUST hashbrown::HashMap<(usize, usize), usize> behaves as a map and into_values yields the value of every key once, in any order (stand-in VxEMap, itself verified)
//@TRUST T: AsRef<[U]>, U: AsRef<[usize]> of the polygon list is instantiated with Vec<Vec<usize>>; as_ref returns the same slice each time
//@TRUST enumerate, circular_tuple_windows, max, scan and extend have their documented meaning (verified loops stand in for them); usize.into() is From<usize> of the id
//@GSUB /vec!\[(\w+(?:::\w+)*(?:\([^\]]*?\))?); ([^\]]+)\]/ => vx_vec(\1, \2)
//@GSUB /vec!\[(\w+)\]/ => vx_vec(\1, 1)
//@GSUB /(\w+)\.extend\((\w+)\.iter\(\)\.scan\(0, \|(\w+), &(\w+)\| \{\s*\*\3 \+= \4;\s*Some\(\*\3\)\s*\}\)\)/ => vx_extend_scan(&mut \1, &\2)
fn vx_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x,
    { v.push(x); }
    v
}
spec fn psum(d: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { psum(d, k - 1) + d[k - 1] } }
fn vx_extend_scan(to: &mut Vec<usize>, d: &Vec<usize>)
    requires forall|k: int| 0 <= k <= d@.len() ==> #[trigger] psum(d@, k) <= usize::MAX,
    ensures final(to)@ == old(to)@ + Seq::new(d@.len(), |i: int| psum(d@, i + 1) as usize),
{
    let ghost t0 = to@;
    let mut sum: usize = 0;
    assert(t0 + Seq::new(0 as nat, |i: int| psum(d@, i + 1) as usize) =~= t0);
    for i in 0..d.len()
        invariant forall|k: int| 0 <= k <= d@.len() ==> #[trigger] psum(d@, k) <= usize::MAX, sum == psum(d@, i as int),
            to@ == t0 + Seq::new(i as nat, |i: int| psum(d@, i + 1) as usize),
    {
        assert(psum(d@, i + 1) == psum(d@, i as int) + d@[i as int]);
        sum += d[i];
        to.push(sum);
        assert(to@ =~= t0 + Seq::new((i + 1) as nat, |i: int| psum(d@, i + 1) as usize));
    }
}
// ---- classes of halfedges with the same key, in order ----
spec fn cls<K>(key: spec_fn(int) -> K, n: int, c: K) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() } else if key(n - 1) == c { cls(key, n - 1, c).push(n - 1) } else { cls(key, n - 1, c) }
}
proof fn lemma_cls<K>(key: spec_fn(int) -> K, n: int, c: K)
    requires n >= 0,
    ensures cls(key, n, c).no_duplicates(), forall|g: int| #[trigger] cls(key, n, c).contains(g) <==> 0 <= g < n && key(g) == c, cls(key, n, c).len() <= n,
        forall|i: int| 0 <= i < cls(key, n, c).len() ==> 0 <= #[trigger] cls(key, n, c)[i] < n,
    decreases n
{
    let t = cls(key, n, c);
    if n > 0 {
        lemma_cls(key, n - 1, c);
        let s = cls(key, n - 1, c);
        assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n - 1 by { assert(s.contains(s[i])); }
        if key(n - 1) == c {
            assert(t == s.push(n - 1));
            assert forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < n && key(g) == c by {
                if t.contains(g) { let i = t.index_of(g); if i < s.len() { assert(s[i] == g); assert(s.contains(g)); } }
                if 0 <= g < n && key(g) == c { if g == n - 1 { assert(t[s.len() as int] == g); } else { assert(s.contains(g)); let i = s.index_of(g); assert(t[i] == g); } }
            }
        } else {
            assert(t == s);
        }
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < n by { if i < s.len() { assert(t[i] == s[i]); } }
    }
}
spec fn below(key: spec_fn(int) -> int, n: int, v: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { below(key, n - 1, v) + (if key(n - 1) < v { 1int } else { 0 }) }
}
proof fn lemma_below(key: spec_fn(int) -> int, n: int, v: int)
    requires n >= 0,
    ensures 0 <= below(key, n, v) <= n, below(key, n, v + 1) == below(key, n, v) + cls(key, n, v).len(),
    decreases n
{ if n > 0 { lemma_below(key, n - 1, v); } }
proof fn lemma_below_mono(key: spec_fn(int) -> int, n: int, u: int, v: int)
    requires n >= 0, u <= v,
    ensures below(key, n, u) <= below(key, n, v),
    decreases n
{ if n > 0 { lemma_below_mono(key, n - 1, u, v); } }
proof fn lemma_below_zero(key: spec_fn(int) -> int, n: int)
    requires forall|h: int| 0 <= h < n ==> 0 <= #[trigger] key(h),
    ensures below(key, n, 0) == 0,
    decreases n
{ if n > 0 { lemma_below_zero(key, n - 1); assert(key(n - 1) >= 0); } }
proof fn lemma_cls_grows<K>(key: spec_fn(int) -> K, k: int, n: int, c: K)
    requires 0 <= k <= n,
    ensures cls(key, k, c).len() <= cls(key, n, c).len(), forall|i: int| 0 <= i < cls(key, k, c).len() ==> #[trigger] cls(key, k, c)[i] == cls(key, n, c)[i],
    decreases n
{ if k < n { lemma_cls_grows(key, k, n - 1, c); } }
proof fn lemma_psum(d: Seq<usize>, key: spec_fn(int) -> int, n: int, k: int)
    requires n >= 0, 0 <= k <= d.len(), forall|v: int| 0 <= v < d.len() ==> #[trigger] d[v] == cls(key, n, v).len(), forall|h: int| 0 <= h < n ==> 0 <= #[trigger] key(h),
    ensures psum(d, k) == below(key, n, k),
    decreases k
{
    if k > 0 { lemma_psum(d, key, n, k - 1); lemma_below(key, n, k - 1); assert(d[k - 1] == cls(key, n, k - 1).len()); } else { lemma_below_zero(key, n); }
}
// segment v of the list holds the halfedges with key v, in order
spec fn segments(a: Seq<HalfedgeId>, sep: Seq<usize>, key: spec_fn(int) -> int, n: int, nv: int) -> bool {
    &&& a.len() == n && sep.len() == nv + 1
    &&& forall|v: int| 0 <= v <= nv ==> #[trigger] sep[v] == below(key, n, v)
    &&& forall|v: int, j: int| 0 <= v < nv && 0 <= j < cls(key, n, v).len() ==> a[#[trigger] below(key, n, v) + j].0 == #[trigger] cls(key, n, v)[j]
}
spec fn filling(a: Seq<HalfedgeId>, pos: Seq<usize>, key: spec_fn(int) -> int, n: int, nv: int, k: int) -> bool {
    &&& a.len() == n && pos.len() == nv + 1
    &&& forall|v: int| 0 <= v < nv ==> #[trigger] pos[v] == below(key, n, v) + cls(key, k, v).len()
    &&& forall|v: int, j: int| 0 <= v < nv && 0 <= j < cls(key, k, v).len() ==> a[#[trigger] below(key, n, v) + j].0 == #[trigger] cls(key, k, v)[j]
}
proof fn lemma_fill(a: Seq<HalfedgeId>, pos: Seq<usize>, key: spec_fn(int) -> int, n: int, nv: int, k: int)
    requires filling(a, pos, key, n, nv, k), 0 <= k < n, n <= INVALID_IND, 0 <= key(k) < nv,
    ensures pos[key(k)] < n, pos[key(k)] + 1 <= usize::MAX,
        filling(a.update(pos[key(k)] as int, HalfedgeId(k as usize)), pos.update(key(k), (pos[key(k)] + 1) as usize), key, n, nv, k + 1),
{
    let c = key(k);
    lemma_below(key, n, c);
    lemma_below(key, n, c + 1);
    lemma_cls_grows(key, k + 1, n, c);
    let p = pos[c] as int;
    assert(cls(key, k + 1, c) == cls(key, k, c).push(k));
    assert(p == below(key, n, c) + cls(key, k, c).len());
    assert(p < below(key, n, c + 1));
    let a1 = a.update(p, HalfedgeId(k as usize));
    let pos1 = pos.update(c, (p + 1) as usize);
    assert forall|v: int, j: int| 0 <= v < nv && 0 <= j < cls(key, k + 1, v).len() implies a1[#[trigger] below(key, n, v) + j].0 == #[trigger] cls(key, k + 1, v)[j] by {
        lemma_below(key, n, v);
        lemma_cls_grows(key, k + 1, n, v);
        let q = below(key, n, v) + j;
        if v == c {
            if j < cls(key, k, v).len() { assert(a[below(key, n, v) + j].0 == cls(key, k, v)[j]); }
        } else {
            assert(cls(key, k + 1, v) == cls(key, k, v));
            assert(a[below(key, n, v) + j].0 == cls(key, k, v)[j]);
            if v < c { lemma_below_mono(key, n, v + 1, c); } else { lemma_below_mono(key, n, c + 1, v); }
        }
    }
    assert forall|v: int| 0 <= v < nv implies #[trigger] pos1[v] == below(key, n, v) + cls(key, k + 1, v).len() by { assert(pos[v] == below(key, n, v) + cls(key, k, v).len()); }
}
impl SurfaceMesh {
    spec fn vk(self, incoming: bool) -> spec_fn(int) -> int { if incoming { self.t_key() } else { self.o_key() } }
//@FN src/mesh/surface_mesh.rs SurfaceMesh::vertex_cycle (incoming) -> res
//@    requires self.lens(), self.ranges(),
//@    ensures segments(res.0@, res.1@, self.vk(incoming), self.nh(), self.nv()),
//@SUB /\[(?:\x01\d+\x02)?\*(\w+)(?:\x01\d+\x02)?\]/ => [\1.id.0]
//@SUB /= \*(if incoming \{[^}]*\} else \{[^}]*\});/ => = \1.id;
//@SUB /= \*(\w+);/ => = \1.id;
//@START: let ghost m = *self; let ghost key = m.vk(incoming); let ghost n = m.nh(); let ghost nv = m.nv(); let ghost mut k: int = 0;
//@   proof { lemma_keys(m, incoming); }
//@LOCAL v_degree /n_vertices_capacity/
//@LOCAL vertex_separators /vec!\[0\]/
//@LOCAL he_positions /\.clone\(\)/
//@LOCAL vertex_halfedges /n_halfedges_capacity/
//@BEFORE 0: proof { k = 0; lemma_from_start(self); }
//@LOOP 0 (he): invariant_except_break rest(vx_it) == hes(&m, Seq::new((n - k) as nat, |i: int| k + i)),
//@     invariant 0 <= k <= n, m == *self, n == m.nh(), nv == m.nv(), key == m.vk(incoming), m.lens(), m.ranges(), ready(vx_it),
//@        forall|h: int| 0 <= h < n ==> 0 <= #[trigger] key(h) < nv, v_degree@.len() == nv, forall|v: int| 0 <= v < nv ==> #[trigger] v_degree@[v] == cls(key, k, v).len(),
//@     ensures k == n,
//@     decreases n - k
//@LOOPSTART 0: proof {
//@     let r = hes(&m, Seq::new((n - k) as nat, |i: int| k + i));
//@     assert(r == seq![he] + rest(vx_it)); assert(r[0] == he); assert(rest(vx_it) =~= r.skip(1)); assert(r.skip(1) =~= hes(&m, Seq::new((n - (k + 1)) as nat, |i: int| (k + 1) + i)));
//@     assert(0 <= m.nx(k) < n); assert(0 <= key(k) < nv); 
//@ lemma_cls(key, k, key(k)); assert(v_degree@[key(k)] == cls(key, k, key(k)).len()); }
//@LOOPEND 0: proof {  k = k + 1; }
//@AFTER 0: proof { assert forall|j: int| 0 <= j <= v_degree@.len() implies #[trigger] psum(v_degree@, j) == below(key, n, j) && 0 <= below(key, n, j) <= n by { lemma_psum(v_degree@, key, n, j); lemma_below(key, n, j); } }
//@BEFORE 1: proof { lemma_below_zero(key, n); assert(forall|v: int| 0 <= v <= nv ==> #[trigger] vertex_separators@[v] == below(key, n, v)); assert(filling(vertex_halfedges@, he_positions@, key, n, nv, 0)); k = 0; lemma_from_start(self); }
//@LOOP 1 (he): invariant_except_break rest(vx_it) == hes(&m, Seq::new((n - k) as nat, |i: int| k + i)),
//@     invariant 0 <= k <= n, m == *self, n == m.nh(), nv == m.nv(), key == m.vk(incoming), m.lens(), m.ranges(), ready(vx_it),
//@        forall|h: int| 0 <= h < n ==> 0 <= #[trigger] key(h) < nv, filling(vertex_halfedges@, he_positions@, key, n, nv, k),
//@     ensures k == n,
//@     decreases n - k
//@LOOPSTART 1: proof {
//@     let r = hes(&m, Seq::new((n - k) as nat, |i: int| k + i));
//@     assert(r == seq![he] + rest(vx_it)); assert(r[0] == he); assert(rest(vx_it) =~= r.skip(1)); assert(r.skip(1) =~= hes(&m, Seq::new((n - (k + 1)) as nat, |i: int| (k + 1) + i)));
//@     assert(0 <= m.nx(k) < n); assert(0 <= key(k) < nv); 
//@ lemma_fill(vertex_halfedges@, he_positions@, key, n, nv, k); }
//@LOOPEND 1: proof {  k = k + 1; }
//@ENDFN
}
// ---- a map from vertex pairs to halfedges (stands in for the hash map) ----
struct VxEMap { keys: Vec<(usize, usize)>, vals: Vec<usize> }
spec fn is_values(m: Map<(usize, usize), usize>, r: Seq<usize>, ks: Seq<(usize, usize)>) -> bool {
    &&& ks.len() == r.len() && ks.no_duplicates()
    &&& forall|k: (usize, usize)| #[trigger] ks.contains(k) <==> m.contains_key(k)
    &&& forall|i: int| 0 <= i < ks.len() ==> m[ks[i]] == #[trigger] r[i]
}
// an order of the keys in which the values come
spec fn value_keys(m: Map<(usize, usize), usize>, r: Seq<usize>) -> Seq<(usize, usize)> { choose|ks: Seq<(usize, usize)>| is_values(m, r, ks) }
impl VxEMap {
    spec fn ok(self) -> bool { self.keys@.len() == self.vals@.len() && self.keys@.no_duplicates() }
    spec fn view(self) -> Map<(usize, usize), usize> { Map::new(self.keys@.to_set(), |k: (usize, usize)| self.vals@[self.keys@.index_of(k)]) }
    fn new() -> (r: VxEMap)
        ensures r.ok(), forall|k: (usize, usize)| !#[trigger] r@.contains_key(k),
    { VxEMap { keys: Vec::new(), vals: Vec::new() } }
    fn get_mut(&mut self, k: &(usize, usize)) -> (r: Option<&mut usize>)
        requires old(self).ok(),
        ensures match r { Some(p) => old(self)@.contains_key(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)) && final(self).ok(), None => !old(self)@.contains_key(*k) && *final(self) == *old(self) },
    {
        let mut at = self.keys.len();
        for i in 0..self.keys.len()
            invariant_except_break at == self.keys.len(), forall|j: int| 0 <= j < i ==> self.keys@[j] != *k,
            invariant self.ok(), *self == *old(self),
            ensures at == self.keys@.len() && !self.keys@.contains(*k) || at < self.keys@.len() && self.keys@[at as int] == *k,
        {
            if self.keys[i].0 == k.0 && self.keys[i].1 == k.1 { at = i; break; }
        }
        if at < self.keys.len() {
            proof { assert(self.keys@.contains(*k)); assert(self.keys@.index_of(*k) == at); }
            let r = &mut self.vals[at];
            Some(r)
        } else { None }
    }
    fn insert(&mut self, k: (usize, usize), x: usize)
        requires old(self).ok(), !old(self)@.contains_key(k),
        ensures final(self).ok(), final(self)@ == old(self)@.insert(k, x),
    {
        let ghost ks = self.keys@;
        self.keys.push(k);
        self.vals.push(x);
        proof {
            assert(!ks.contains(k));
            let t = self.keys@;
            assert forall|q: (usize, usize)| #[trigger] t.contains(q) <==> ks.contains(q) || q == k by {
                if ks.contains(q) { assert(t[ks.index_of(q)] == q); }
                if q == k { assert(t[ks.len() as int] == q); }
                if t.contains(q) { let i = t.index_of(q); if i < ks.len() { assert(ks[i] == q); } }
            }
            assert forall|q: (usize, usize)| #[trigger] ks.contains(q) implies t.index_of(q) == ks.index_of(q) by { assert(t[ks.index_of(q)] == q); assert(t.contains(q)); assert(t[t.index_of(q)] == q); }
            assert(t[ks.len() as int] == k); assert(t.contains(k)); assert(t.index_of(k) == ks.len());
            assert(self@ =~= old(self)@.insert(k, x));
        }
    }
    fn into_values(self) -> (r: Vec<usize>)
        requires self.ok(),
        ensures is_values(self@, r@, value_keys(self@, r@)),
    {
        proof { 
            assert forall|i: int| 0 <= i < self.keys@.len() implies self@[self.keys@[i]] == #[trigger] self.vals@[i] by { assert(self.keys@.contains(self.keys@[i])); assert(self.keys@.index_of(self.keys@[i]) == i); }
            assert(is_values(self@, self.vals@, self.keys@)); }
        self.vals
    }
}
fn vx_max(a: &Vec<usize>) -> (r: usize)
    requires a@.len() > 0,
    ensures a@.contains(r), forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] <= r,
{
    let mut r = a[0];
    for i in 1..a.len()
        invariant a@.len() > 0, a@.contains(r), forall|j: int| 0 <= j < i ==> #[trigger] a@[j] <= r,
    { if a[i] > r { r = a[i]; } }
    r
}
fn vx_max_of(a: &Vec<Vec<usize>>) -> (r: usize)
    requires a@.len() > 0, forall|f: int| 0 <= f < a@.len() ==> (#[trigger] a@[f])@.len() > 0,
    ensures exists|f: int| 0 <= f < a@.len() && (#[trigger] a@[f])@.contains(r), forall|f: int, i: int| 0 <= f < a@.len() && 0 <= i < a@[f]@.len() ==> #[trigger] a@[f]@[i] <= r,
{
    let mut r = vx_max(&a[0]);
    for f in 1..a.len()
        invariant a@.len() > 0, forall|f: int| 0 <= f < a@.len() ==> (#[trigger] a@[f])@.len() > 0,
            exists|g: int| 0 <= g < a@.len() && (#[trigger] a@[g])@.contains(r), forall|g: int, i: int| 0 <= g < f && 0 <= i < a@[g]@.len() ==> #[trigger] a@[g]@[i] <= r,
    { let x = vx_max(&a[f]); if x > r { r = x; } }
    r
}
// ---- polygons, their corners numbered one after the other ----
spec fn off(ps: Seq<Vec<usize>>, f: int) -> int decreases f { if f <= 0 { 0 } else { off(ps, f - 1) + ps[f - 1]@.len() } }
spec fn fc(ps: Seq<Vec<usize>>, f: int, h: int) -> int decreases f { if f <= 0 { 0 } else if h >= off(ps, f - 1) { f - 1 } else { fc(ps, f - 1, h) } }
spec fn pf(ps: Seq<Vec<usize>>, h: int) -> int { fc(ps, ps.len() as int, h) }
spec fn po(ps: Seq<Vec<usize>>, h: int) -> usize { ps[pf(ps, h)]@[h - off(ps, pf(ps, h))] }
spec fn pn(ps: Seq<Vec<usize>>, h: int) -> int { if h + 1 < off(ps, pf(ps, h) + 1) { h + 1 } else { off(ps, pf(ps, h)) } }
spec fn pkey(a: usize, b: usize) -> (usize, usize) { if a < b { (a, b) } else { (b, a) } }
spec fn pk(ps: Seq<Vec<usize>>) -> spec_fn(int) -> (usize, usize) { |h: int| pkey(po(ps, h), po(ps, pn(ps, h))) }
spec fn nhe(ps: Seq<Vec<usize>>) -> int { off(ps, ps.len() as int) }
spec fn good(ps: Seq<Vec<usize>>) -> bool {
    &&& ps.len() > 0 && nhe(ps) < INVALID_IND
    &&& forall|f: int| 0 <= f < ps.len() ==> (#[trigger] ps[f])@.len() > 1
    &&& forall|f: int, i: int| 0 <= f < ps.len() && 0 <= i < ps[f]@.len() ==> #[trigger] ps[f]@[i] < INVALID_IND - 1
    &&& forall|f: int, i: int| 0 <= f < ps.len() && 0 <= i < ps[f]@.len() ==> #[trigger] apart(ps, f, i)
}
// a corner differs from the next one
spec fn apart(ps: Seq<Vec<usize>>, f: int, i: int) -> bool { ps[f]@[i] != ps[f]@[if i + 1 < ps[f]@.len() { i + 1 } else { 0 }] }
proof fn lemma_off(ps: Seq<Vec<usize>>, a: int, b: int)
    requires 0 <= a <= b <= ps.len(),
    ensures 0 <= off(ps, a) <= off(ps, b), a < b ==> off(ps, a) + ps[a]@.len() <= off(ps, b),
    decreases b - a, b
{ if a < b { lemma_off(ps, a, b - 1); } else if a > 0 { lemma_off(ps, a - 1, b - 1); } }
proof fn lemma_off0(ps: Seq<Vec<usize>>)
    ensures off(ps, 0) == 0,
{}
proof fn lemma_nf(ps: Seq<Vec<usize>>, f: int)
    requires 0 <= f <= ps.len(), forall|g: int| 0 <= g < ps.len() ==> (#[trigger] ps[g])@.len() > 1,
    ensures f <= off(ps, f),
    decreases f
{ if f > 0 { lemma_nf(ps, f - 1); assert(ps[f - 1]@.len() > 1); } }
proof fn lemma_fc(ps: Seq<Vec<usize>>, f: int, h: int)
    requires 0 <= f <= ps.len(), 0 <= h < off(ps, f),
    ensures 0 <= fc(ps, f, h) < f, off(ps, fc(ps, f, h)) <= h < off(ps, fc(ps, f, h) + 1),
    decreases f
{ if f > 0 { if h < off(ps, f - 1) { lemma_fc(ps, f - 1, h); } } }
proof fn lemma_pf(ps: Seq<Vec<usize>>, h: int)
    requires 0 <= h < nhe(ps),
    ensures ({ let f = pf(ps, h); 0 <= f < ps.len() && off(ps, f) <= h < off(ps, f + 1) && off(ps, f + 1) == off(ps, f) + ps[f]@.len() && off(ps, f + 1) <= nhe(ps) && 0 <= off(ps, f) }),
{ lemma_fc(ps, ps.len() as int, h); lemma_off(ps, pf(ps, h) + 1, ps.len() as int); lemma_off(ps, 0, pf(ps, h)); }
proof fn lemma_fc_at(ps: Seq<Vec<usize>>, f: int, g: int, h: int)
    requires 0 <= f < g <= ps.len(), off(ps, f) <= h < off(ps, f + 1),
    ensures fc(ps, g, h) == f,
    decreases g
{ if f < g - 1 { lemma_off(ps, f + 1, g - 1); lemma_fc_at(ps, f, g - 1, h); } }
// corner i of polygon f
proof fn lemma_at(ps: Seq<Vec<usize>>, f: int, i: int)
    requires 0 <= f < ps.len(), 0 <= i < ps[f]@.len(),
    ensures ({ let h = off(ps, f) + i; 0 <= h < nhe(ps) && 0 <= off(ps, f) && pf(ps, h) == f && po(ps, h) == ps[f]@[i] && off(ps, f + 1) == off(ps, f) + ps[f]@.len() && off(ps, f + 1) <= nhe(ps)
        && pn(ps, h) == off(ps, f) + (if i + 1 < ps[f]@.len() { i + 1 } else { 0 }) && 0 <= pn(ps, h) < nhe(ps)
        && po(ps, pn(ps, h)) == ps[f]@[if i + 1 < ps[f]@.len() { i + 1 } else { 0 }] && pf(ps, pn(ps, h)) == f }),
{
    let h = off(ps, f) + i;
    lemma_off(ps, f + 1, ps.len() as int); lemma_off(ps, 0, f);
    lemma_fc_at(ps, f, ps.len() as int, h);
    lemma_fc_at(ps, f, ps.len() as int, off(ps, f) + (if i + 1 < ps[f]@.len() { i + 1 } else { 0 }));
}
// halfedge h of the polygons
proof fn lemma_he(ps: Seq<Vec<usize>>, h: int)
    requires good(ps), 0 <= h < nhe(ps),
    ensures ({ let f = pf(ps, h); let i = h - off(ps, f); 0 <= f < ps.len() && 0 <= i < ps[f]@.len() && h == off(ps, f) + i }), po(ps, h) != po(ps, pn(ps, h)), 0 <= pn(ps, h) < nhe(ps), pf(ps, pn(ps, h)) == pf(ps, h),
        po(ps, h) < INVALID_IND - 1,
{
    lemma_pf(ps, h);
    let f = pf(ps, h);
    let i = h - off(ps, f);
    lemma_at(ps, f, i);
    assert(apart(ps, f, i));
}
#[verifier::opaque]
spec fn vok(vha: Seq<HalfedgeId>, orgs: Seq<VertexId>) -> bool {
    &&& forall|v: int| 0 <= v < vha.len() && (#[trigger] vha[v]).0 != INVALID_IND ==> vha[v].0 < orgs.len() && orgs[vha[v].0 as int].0 == v
    &&& forall|h: int| 0 <= h < orgs.len() ==> (#[trigger] orgs[h]).0 < vha.len() && vha[orgs[h].0 as int].0 != INVALID_IND
}
proof fn lemma_vok_none(vha: Seq<HalfedgeId>, orgs: Seq<VertexId>)
    requires orgs.len() == 0, forall|v: int| 0 <= v < vha.len() ==> #[trigger] vha[v] == HalfedgeId(INVALID_IND),
    ensures vok(vha, orgs),
{ reveal(vok); }
proof fn lemma_vok_step(vha: Seq<HalfedgeId>, orgs: Seq<VertexId>, vha2: Seq<HalfedgeId>, orgs2: Seq<VertexId>, x: usize)
    requires vok(vha, orgs), x < vha.len(), orgs.len() < INVALID_IND, vha2 == vha.update(x as int, HalfedgeId(orgs.len() as usize)), orgs2.len() == orgs.len() + 1, orgs2[orgs.len() as int].0 == x,
        forall|h: int| 0 <= h < orgs.len() ==> #[trigger] orgs2[h] == orgs[h],
    ensures vok(vha2, orgs2),
{
    reveal(vok);
    assert forall|v: int| 0 <= v < vha2.len() && (#[trigger] vha2[v]).0 != INVALID_IND implies vha2[v].0 < orgs2.len() && orgs2[vha2[v].0 as int].0 == v by { if v != x { assert(vha2[v] == vha[v]); assert(orgs2[vha[v].0 as int] == orgs[vha[v].0 as int]); } }
    assert forall|h: int| 0 <= h < orgs2.len() implies (#[trigger] orgs2[h]).0 < vha2.len() && vha2[orgs2[h].0 as int].0 != INVALID_IND by { if h < orgs.len() { assert(orgs2[h] == orgs[h]); assert(vha[orgs[h].0 as int].0 != INVALID_IND); } }
}
// the first n corners are built; the faces before c are closed, fk faces know their halfedge
spec fn built(m: SurfaceMesh, ps: Seq<Vec<usize>>, n: int, c: int, fk: int) -> bool {
    &&& m.lens() && m.nh() == n && m.nf() == ps.len() && 0 <= c <= n
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m.org(h) == po(ps, h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m.face_of(h) == pf(ps, h)
    &&& forall|h: int| 0 <= h < c ==> #[trigger] m.nx(h) == pn(ps, h)
    &&& forall|h: int| c <= h < n - 1 ==> #[trigger] m.nx(h) == h + 1
    &&& forall|f: int| 0 <= f < fk ==> #[trigger] m.fh(f) == off(ps, f)
    &&& vok(m.core_data.v_halfedge_arr@, m.core_data.he_vertex_arr@)
    &&& forall|f: int, i: int| 0 <= f < ps.len() && 0 <= i < ps[f]@.len() ==> #[trigger] ps[f]@[i] < m.nv()
    &&& m.core_data.n_halfedges == n && m.core_data.n_vertices == m.nv() && !m.use_implicit_twin
}
spec fn fresh(m: SurfaceMesh) -> bool { m.ne() == 0 && m.n_edges == 0 }
impl MeshCoreData {
//@FN src/mesh/mesh_core_data.rs MeshCoreData::new (n_vertices, n_faces) -> res
//@    ensures res.v_halfedge_arr@.len() == n_vertices, res.f_halfedge_arr@.len() == n_faces, res.he_next_arr@.len() == 0, res.he_vertex_arr@.len() == 0,
//@        res.n_vertices == n_vertices, res.n_halfedges == 0, res.n_faces == n_faces, forall|v: int| 0 <= v < n_vertices ==> #[trigger] res.v_halfedge_arr@[v] == HalfedgeId(INVALID_IND),
//@ENDFN
}
impl SurfaceMesh {
//@FN src/mesh/mesh.rs Mesh::n_vertices () -> res
//@    ensures res == self.core_data.n_vertices,
//@ENDFN
//@FN src/mesh/surface_mesh.rs SurfaceMesh::new (polygons) -> res
//@    requires good(polygons@),
//@    ensures res.wf(), as_given(res, polygons@),
//@SIGSUB /<T, U>\((\w+): T\)/ => (\1: &Vec<Vec<usize>>)
//@SIGSUB /where.*$/ =>
//@SUB /(\w+)\s*\.as_ref\(\)\s*\.iter\(\)\s*\.map\(\|(\w+)\| \*\2\.as_ref\(\)\.iter\(\)\.max\(\)\.unwrap\(\)\)\s*\.max\(\)\s*\.unwrap\(\)/ => vx_max_of(\1)
//@SUB /for \((\w+), &(\w+)\) in (\w+)\.as_ref\(\)\.iter\(\)\.enumerate\(\)(\s*(?:\x01\d+\x02)?)\{/ => for \1 in 0..\3.len() \4{ let \2 = \3[\1];
//@SUB /for \((\w+), (\w+)\) in (\w+)\.as_ref\(\)\.iter\(\)\.enumerate\(\)(\s*(?:\x01\d+\x02)?)\{/ => for \1 in 0..\3.len() \4{ let \2 = &\3[\1];
//@SUB /for (\w+) in (\w+)\.as_ref\(\)(\s*(?:\x01\d+\x02)?)\{/ => for vx_p in 0..\2.len() \3{ let \1 = &\2[vx_p];
//@SUB /for \(&(\w+), &(\w+)\) in (\w+)\.as_ref\(\)\.iter\(\)\.circular_tuple_windows\(\)(\s*(?:\x01\d+\x02)?)\{/ => for vx_i in 0..\3.len() \4{ let \1 = \3[vx_i]; let \2 = \3[if vx_i + 1 < \3.len() { vx_i + 1 } else { 0 }];
//@SUB /for (\w+) in (\w+)\.into_values\(\)(\s*(?:\x01\d+\x02)?)\{/ => let ghost vx_map = \2@; let vx_vals = \2.into_values(); let ghost vx_keys = value_keys(vx_map, vx_vals@); proof { lemma_closing_none(mesh.sib_s(), vx_key, vx_n, vx_keys); } for vx_k in 0..vx_vals.len() \3{ let \1 = vx_vals[vx_k];
//@SUB /HashMap::<\(usize, usize\), usize>::new\(\)/ => VxEMap::new()
//@SUB /= (\(\*\w+\)|\w+)\.into\(\);/ => = vx_of(\1);
//@SUB /= \*(\w+(?:\.\w+)*\[[^\]]*\]);/ => = \1.0;
//@SUB /\[((?:\x01\d+\x02)?)\*(\w+) ([-+]) / => [\1\2.0 \3 
//@SUB /\.as_ref\(\)/ =>
//@LOCAL mesh /use_implicit_twin/
//@LOCAL first /HalfedgeId::default\(\)/
//@LOCAL prev /let mut \w+ = \w+;/
//@LOCAL hid /new_halfedges/
//@LOCAL edge_history /HashMap/
//@LOCAL pos /let mut \w+ = \d+;/
//@START: hide(off); hide(fc); hide(cls); let ghost ps = polygons@; proof { assert forall|f: int| 0 <= f < ps.len() implies (#[trigger] ps[f])@.len() > 0 by { assert(ps[f]@.len() > 1); } lemma_nf(ps, ps.len() as int); lemma_off0(ps); }
//@BEFORE 0: proof { lemma_vok_none(mesh.core_data.v_halfedge_arr@, mesh.core_data.he_vertex_arr@); }
//@LOOP 0 (fid, polygon): invariant ps == polygons@, good(ps), built(mesh, ps, off(ps, fid as int), off(ps, fid as int), fid as int), fresh(mesh),
//@LOOP 1 (i, tail): invariant ps == polygons@, good(ps), 0 <= fid < ps.len(), polygon@ == ps[fid as int]@, built(mesh, ps, off(ps, fid as int) + i, off(ps, fid as int), fid + (if i > 0 { 1int } else { 0 })), fresh(mesh),
//@     i > 0 ==> first.0 == off(ps, fid as int) && prev.0 == off(ps, fid as int) + i - 1,
//@LOOPSTART 1: proof { lemma_at(ps, fid as int, i as int); } let ghost m0 = mesh;
//@LOOPEND 1: proof { lemma_corner(m0, mesh, ps, fid as int, i as int); }
//@AFTER 1: let ghost m1 = mesh; proof { lemma_at(ps, fid as int, 0); }
//@LOOPEND 0: proof { lemma_face_done(m1, mesh, ps, fid as int); }
//@AFTER 0: let ghost mp = mesh; let ghost vx_n = nhe(ps); let ghost vx_key = pk(ps);
//@BEFORE 2: proof { lemma_seen_none(mesh.sib_s(), mesh.he_edge_arr@, mesh.e_halfedge_arr@, edge_history@, vx_key); }
//@LOOP 2: invariant ps == polygons@, good(ps), built(mp, ps, vx_n, vx_n, ps.len() as int), vx_n == nhe(ps), vx_key == pk(ps), pos == off(ps, vx_p as int), edge_history.ok(),
//@    seen(mesh.sib_s(), mesh.he_edge_arr@, mesh.e_halfedge_arr@, edge_history@, vx_key, pos as int), mesh.sib_s().len() == vx_n, mesh.n_edges == mesh.ne(),
//@    mesh == (SurfaceMesh { he_sibling_arr: mesh.he_sibling_arr, he_edge_arr: mesh.he_edge_arr, e_halfedge_arr: mesh.e_halfedge_arr, n_edges: mesh.n_edges, ..mp }),
//@LOOP 3: invariant ps == polygons@, good(ps), vx_n == nhe(ps), vx_key == pk(ps), 0 <= vx_p < ps.len(), polygon@ == ps[vx_p as int]@, pos == off(ps, vx_p as int) + vx_i, edge_history.ok(),
//@    seen(mesh.sib_s(), mesh.he_edge_arr@, mesh.e_halfedge_arr@, edge_history@, vx_key, pos as int), mesh.sib_s().len() == vx_n, mesh.n_edges == mesh.ne(),
//@    mesh == (SurfaceMesh { he_sibling_arr: mesh.he_sibling_arr, he_edge_arr: mesh.he_edge_arr, e_halfedge_arr: mesh.e_halfedge_arr, n_edges: mesh.n_edges, ..mp }),
//@LOOPSTART 3: let ghost m0 = mesh; let ghost map0 = edge_history@; proof { lemma_at(ps, vx_p as int, vx_i as int); lemma_seen_use(m0.sib_s(), m0.he_edge_arr@, m0.e_halfedge_arr@, map0, vx_key, pos as int); }
//@LOOPEND 3: proof { if map0.contains_key(vx_key(pos - 1)) { lemma_seen_old(m0.sib_s(), m0.he_edge_arr@, m0.e_halfedge_arr@, map0, mesh.sib_s(), mesh.he_edge_arr@, edge_history@, vx_key, pos - 1); assert(mesh.e_halfedge_arr@ == m0.e_halfedge_arr@); }
//@   else { assert(mesh.e_halfedge_arr@ =~= m0.e_halfedge_arr@.push(HalfedgeId((pos - 1) as usize))); lemma_seen_new(m0.sib_s(), m0.he_edge_arr@, m0.e_halfedge_arr@, map0, mesh.sib_s(), mesh.he_edge_arr@, mesh.e_halfedge_arr@, edge_history@, vx_key, pos - 1); } }
//@AFTER 3: proof { lemma_at(ps, vx_p as int, 0); }
//@BEFORE 4: let ghost mb = mesh; let ghost mapb = edge_history@;
//@   proof { lemma_seen_end(mesh.sib_s(), mesh.he_edge_arr@, mesh.e_halfedge_arr@, mapb, vx_key, vx_n); }
//@LOCAL curr_he /let mut curr/
//@LOOP 4 (last_he): invariant forall|h: int| 0 <= h < vx_n ==> vx_map.contains_key(#[trigger] vx_key(h)), vx_n == mesh.sib_s().len(), vx_n < INVALID_IND, is_values(vx_map, vx_vals@, vx_keys), forall|k: (usize, usize)| #[trigger] vx_map.contains_key(k) ==> cls(vx_key, vx_n, k).len() > 0 && vx_map[k] == cls(vx_key, vx_n, k).last(),
//@    closing(mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int), mesh == (SurfaceMesh { he_sibling_arr: mesh.he_sibling_arr, ..mb }),
//@LOOPSTART 4: let ghost m0 = mesh; let ghost kk = vx_keys[vx_k as int]; let ghost mut vx_c: int = last_he as int;
//@    proof { assert(vx_keys.contains(kk)); assert(vx_map[kk] == last_he); lemma_last(vx_key, vx_n, kk); lemma_closing(mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int, last_he as int); }
//@LOOP 5: invariant vx_n == mesh.sib_s().len(), vx_n < INVALID_IND, closing(mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int), mesh == m0, 0 <= curr_he < vx_n, vx_key(curr_he as int) == kk, 0 <= vx_k < vx_keys.len(), kk == vx_keys[vx_k as int], vx_keys.no_duplicates(),
//@    decreases curr_he
//@LOOPSTART 5: proof { lemma_closing(mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int, curr_he as int); }
//@AFTER 5: proof { vx_c = curr_he as int; lemma_closing(mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int, curr_he as int); }
//@LOOPEND 4: proof { lemma_closing_step(m0.sib_s(), mesh.sib_s(), vx_key, vx_n, vx_keys, vx_k as int, vx_c); }
//@AFTER 4: let ghost mq = mesh; let ghost kt = mq.vk(true); let ghost ko = mq.vk(false);
//@   proof { lemma_edged(mp, mb, mq, mapb, ps, vx_keys); lemma_keys(mq, true); lemma_keys(mq, false); }
//@LOCAL v_ins[0] /vertex_cycle\(true\)/
//@LOCAL v_in_seps[1] /vertex_cycle\(true\)/
//@LOCAL v_outs[0] /vertex_cycle\(false\)/
//@LOCAL v_out_seps[1] /vertex_cycle\(false\)/
//@LOCAL start[0] /let \(\w+, \w+\) = \(\w+\[/
//@LOCAL end[1] /let \(\w+, \w+\) = \(\w+\[/
//@LOCAL len /let \w+ = \w+ - \w+;/
//@LOOP 6 (idx): invariant n_vertices == mq.nv(), edged(mq, ps), vx_n == mq.nh(), kt == mq.vk(true), ko == mq.vk(false), segments(v_ins@, v_in_seps@, kt, vx_n, mq.nv()), segments(v_outs@, v_out_seps@, ko, vx_n, mq.nv()),
//@    forall|h: int| 0 <= h < vx_n ==> 0 <= #[trigger] kt(h) < mq.nv(), forall|h: int| 0 <= h < vx_n ==> 0 <= #[trigger] ko(h) < mq.nv(), 
//@    mesh.in_s().len() == vx_n, mesh.out_s().len() == vx_n, mesh == (SurfaceMesh { he_vert_in_next_arr: mesh.he_vert_in_next_arr, he_vert_out_next_arr: mesh.he_vert_out_next_arr, ..mq }),
//@    all_linked(mesh.in_s(), kt, vx_n, mq, idx as int), all_linked(mesh.out_s(), ko, vx_n, mq, idx as int),
//@LOOPSTART 6: let ghost mi = mesh; let ghost lt = cls(kt, vx_n, idx as int); let ghost lo = cls(ko, vx_n, idx as int);
//@   proof { lemma_segment(v_ins@, v_in_seps@, kt, vx_n, mq.nv(), idx as int); lemma_segment(v_outs@, v_out_seps@, ko, vx_n, mq.nv(), idx as int); lemma_relink_start(mesh.in_s(), lt); lemma_relink_start(mesh.out_s(), lo); }
//@LOOP 7 (i): invariant 0 <= idx < mq.nv(), vx_n == mq.nh(), vx_n < INVALID_IND, start == below(kt, vx_n, idx as int), end == start + lt.len(), len == lt.len(), end <= v_ins@.len(), v_ins@.len() == vx_n, mi.in_s().len() == vx_n, mesh.in_s().len() == vx_n, 
//@    forall|j: int| 0 <= j < lt.len() ==> v_ins@[start + j].0 == #[trigger] lt[j], lt.len() > 0 ==> listable(lt, vx_n), relinked(mi.in_s(), mesh.in_s(), lt, i - start),
//@    mesh == (SurfaceMesh { he_vert_in_next_arr: mesh.he_vert_in_next_arr, ..mi }),
//@LOOPSTART 7: let ghost mj = mesh; proof { lemma_cyc_mod(i - start, len as int); assert(v_ins@[start + (i - start)].0 == lt[i - start]); assert(v_ins@[start + (i - start + 1) % (len as int)].0 == lt[(i - start + 1) % (len as int)]); assert(0 <= lt[i - start] < vx_n); }
//@LOOPEND 7: proof { lemma_relink_step(mi.in_s(), mj.in_s(), mesh.in_s(), lt, i - start, mesh.in_s()[lt[i - start]]); }
//@AFTER 7: proof { lemma_linked(mi.in_s(), mesh.in_s(), kt, vx_n, mq, idx as int); }
//@BEFORE 8: let ghost mo = mesh;
//@LOOP 8 (i): invariant 0 <= idx < mq.nv(), vx_n == mq.nh(), vx_n < INVALID_IND, start == below(ko, vx_n, idx as int), end == start + lo.len(), len == lo.len(), end <= v_outs@.len(), v_outs@.len() == vx_n, mi.out_s().len() == vx_n, mesh.out_s().len() == vx_n, 
//@    forall|j: int| 0 <= j < lo.len() ==> v_outs@[start + j].0 == #[trigger] lo[j], lo.len() > 0 ==> listable(lo, vx_n), relinked(mi.out_s(), mesh.out_s(), lo, i - start),
//@    mesh == (SurfaceMesh { he_vert_out_next_arr: mesh.he_vert_out_next_arr, ..mo }),
//@LOOPSTART 8: let ghost mj = mesh; proof { lemma_cyc_mod(i - start, len as int); assert(v_outs@[start + (i - start)].0 == lo[i - start]); assert(v_outs@[start + (i - start + 1) % (len as int)].0 == lo[(i - start + 1) % (len as int)]); assert(0 <= lo[i - start] < vx_n); }
//@LOOPEND 8: proof { lemma_relink_step(mi.out_s(), mj.out_s(), mesh.out_s(), lo, i - start, mesh.out_s()[lo[i - start]]); }
//@AFTER 8: proof { lemma_linked(mi.out_s(), mesh.out_s(), ko, vx_n, mq, idx as int); }
//@LOOPEND 6: proof { lemma_linked_step(mesh.in_s(), kt, vx_n, mq, idx as int); lemma_linked_step(mesh.out_s(), ko, vx_n, mq, idx as int); }
//@AFTER 6: proof { lemma_new_done(mesh, mq, ps); }
//@ENDFN
}
proof fn lemma_corner(m: SurfaceMesh, m2: SurfaceMesh, ps: Seq<Vec<usize>>, f: int, i: int)
    requires good(ps), 0 <= f < ps.len(), 0 <= i < ps[f]@.len(), built(m, ps, off(ps, f) + i, off(ps, f), f + (if i > 0 { 1int } else { 0 })),
        m2.lens(), m2.nh() == m.nh() + 1, m2.nf() == m.nf(), m2.nv() == m.nv(),
        m2.org(m.nh()) == ps[f]@[i], m2.face_of(m.nh()) == f, forall|h: int| 0 <= h < m.nh() ==> #[trigger] m2.org(h) == m.org(h), forall|h: int| 0 <= h < m.nh() ==> #[trigger] m2.face_of(h) == m.face_of(h),
        forall|h: int| 0 <= h < m.nh() - 1 ==> #[trigger] m2.nx(h) == m.nx(h), i > 0 ==> m2.nx(m.nh() - 1) == m.nh(), i == 0 ==> forall|h: int| 0 <= h < m.nh() ==> #[trigger] m2.nx(h) == m.nx(h),
        forall|g: int| 0 <= g < m.nf() && !(i == 0 && g == f) ==> #[trigger] m2.fh(g) == m.fh(g), i == 0 ==> m2.fh(f) == m.nh(),
        m2.core_data.v_halfedge_arr@ == m.core_data.v_halfedge_arr@.update(ps[f]@[i] as int, HalfedgeId(m.nh() as usize)),
        m2.core_data.n_halfedges == m.nh() + 1, m2.core_data.n_vertices == m.core_data.n_vertices, !m2.use_implicit_twin,
    ensures built(m2, ps, off(ps, f) + i + 1, off(ps, f), f + 1),
{
    hide(off); hide(fc);
    lemma_at(ps, f, i);
    let n = m.nh();
    let x = ps[f]@[i];
    assert(x < m.nv());
    assert forall|h: int| 0 <= h < n + 1 implies #[trigger] m2.org(h) == po(ps, h) by { if h < n { assert(m.org(h) == po(ps, h)); } }
    assert forall|h: int| 0 <= h < n + 1 implies #[trigger] m2.face_of(h) == pf(ps, h) by { if h < n { assert(m.face_of(h) == pf(ps, h)); } }
    assert forall|h: int| 0 <= h < off(ps, f) implies #[trigger] m2.nx(h) == pn(ps, h) by { assert(m.nx(h) == pn(ps, h)); }
    assert forall|h: int| off(ps, f) <= h < n implies #[trigger] m2.nx(h) == h + 1 by { if h < n - 1 { assert(m.nx(h) == h + 1); } }
    assert forall|g: int| 0 <= g < f + 1 implies #[trigger] m2.fh(g) == off(ps, g) by { if g < f || i > 0 { assert(m.fh(g) == off(ps, g)); } }
    assert forall|h: int| 0 <= h < n implies #[trigger] m2.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h] by { assert(m2.org(h) == m.org(h)); }
    lemma_vok_step(m.core_data.v_halfedge_arr@, m.core_data.he_vertex_arr@, m2.core_data.v_halfedge_arr@, m2.core_data.he_vertex_arr@, x);
}
proof fn lemma_face_done(m: SurfaceMesh, m2: SurfaceMesh, ps: Seq<Vec<usize>>, f: int)
    requires good(ps), 0 <= f < ps.len(), built(m, ps, off(ps, f) + ps[f]@.len(), off(ps, f), f + 1),
        m2 == (SurfaceMesh { core_data: MeshCoreData { he_next_arr: m2.core_data.he_next_arr, ..m.core_data }, ..m }),
        m2.next_s() == m.next_s().update(off(ps, f) + ps[f]@.len() - 1, HalfedgeId(off(ps, f) as usize)),
    ensures built(m2, ps, off(ps, f + 1), off(ps, f + 1), f + 1),
{
    hide(off); hide(fc);
    lemma_at(ps, f, 0);
    let n = m.nh();
    assert(off(ps, f + 1) == n);
    assert forall|h: int| 0 <= h < n implies #[trigger] m2.nx(h) == pn(ps, h) by {
        if h < off(ps, f) { assert(m.nx(h) == pn(ps, h)); } else { lemma_at(ps, f, h - off(ps, f)); if h < n - 1 { assert(m.nx(h) == h + 1); } }
    }
    assert forall|h: int| 0 <= h < n implies #[trigger] m2.org(h) == po(ps, h) by { assert(m.org(h) == po(ps, h)); }
    assert forall|h: int| 0 <= h < n implies #[trigger] m2.face_of(h) == pf(ps, h) by { assert(m.face_of(h) == pf(ps, h)); }
    assert forall|g: int| 0 <= g < f + 1 implies #[trigger] m2.fh(g) == off(ps, g) by { assert(m.fh(g) == off(ps, g)); }
}

// ---- halfedges on the same edge: those joining the same two vertices ----
spec fn before<K>(key: spec_fn(int) -> K, h: int) -> int { let c = cls(key, h, key(h)); if c.len() == 0 { INVALID_IND as int } else { c.last() } }
#[verifier::opaque]
spec fn seen(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int) -> bool {
    &&& 0 <= n <= sib.len() && sib.len() == ed.len() && eh.len() <= n
    &&& forall|h: int| 0 <= h < n ==> (#[trigger] sib[h]).0 == before(key, h)
    &&& forall|k: (usize, usize)| #[trigger] map.contains_key(k) <==> cls(key, n, k).len() > 0
    &&& forall|k: (usize, usize)| #[trigger] map.contains_key(k) ==> map[k] == cls(key, n, k).last()
    &&& forall|g: int, h: int| 0 <= g < n && 0 <= h < n ==> (#[trigger] ed[g] == #[trigger] ed[h] <==> key(g) == key(h))
    &&& forall|h: int| 0 <= h < n ==> (#[trigger] ed[h]).0 < eh.len()
    &&& forall|e: int| 0 <= e < eh.len() ==> (#[trigger] eh[e]).0 < n && ed[eh[e].0 as int].0 == e
}
proof fn lemma_seen_none(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize))
    requires sib.len() == ed.len(), eh.len() == 0, forall|k: (usize, usize)| !#[trigger] map.contains_key(k),
    ensures seen(sib, ed, eh, map, key, 0),
{ reveal(seen); }
proof fn lemma_seen_use(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int)
    requires seen(sib, ed, eh, map, key, n),
    ensures 0 <= n <= sib.len(), sib.len() == ed.len(), eh.len() <= n, map.contains_key(key(n)) ==> map[key(n)] < n,
{
    reveal(seen);
    lemma_cls(key, n, key(n));
}
proof fn lemma_seen_old(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, sib2: Seq<HalfedgeId>, ed2: Seq<EdgeId>, map2: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int)
    requires seen(sib, ed, eh, map, key, n), n < sib.len(), n < INVALID_IND, map.contains_key(key(n)), sib2 == sib.update(n, HalfedgeId(map[key(n)])), ed2 == ed.update(n, ed[map[key(n)] as int]), map2 == map.insert(key(n), n as usize),
    ensures seen(sib2, ed2, eh, map2, key, n + 1),
{ reveal(seen); 
    let k0 = key(n);
    let q = map[k0] as int;
    lemma_cls(key, n, k0);
    assert(cls(key, n, k0).contains(q)) by { assert(cls(key, n, k0)[cls(key, n, k0).len() - 1] == q); }
    assert(0 <= q < n && key(q) == k0);
    assert forall|h: int| 0 <= h < n + 1 implies (#[trigger] sib2[h]).0 == before(key, h) by { if h < n { assert(sib2[h] == sib[h]); } }
    assert forall|g: int, h: int| 0 <= g < n + 1 && 0 <= h < n + 1 implies (#[trigger] ed2[g] == #[trigger] ed2[h] <==> key(g) == key(h)) by {
        let g1 = if g == n { q } else { g }; let h1 = if h == n { q } else { h };
        assert(ed2[g] == ed[g1] && ed2[h] == ed[h1] && key(g) == key(g1) && key(h) == key(h1));
    }
    assert forall|h: int| 0 <= h < n + 1 implies (#[trigger] ed2[h]).0 < eh.len() by { assert(ed2[h] == ed[if h == n { q } else { h }]); }
    assert forall|e: int| 0 <= e < eh.len() implies (#[trigger] eh[e]).0 < n + 1 && ed2[eh[e].0 as int].0 == e by { assert(ed2[eh[e].0 as int] == ed[eh[e].0 as int]); }
}
proof fn lemma_seen_new(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, sib2: Seq<HalfedgeId>, ed2: Seq<EdgeId>, eh2: Seq<HalfedgeId>, map2: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int)
    requires seen(sib, ed, eh, map, key, n), n < sib.len(), n < INVALID_IND, !map.contains_key(key(n)), sib2 == sib.update(n, HalfedgeId(INVALID_IND)), ed2 == ed.update(n, EdgeId(eh.len() as usize)),
        eh2 == eh.push(HalfedgeId(n as usize)), map2 == map.insert(key(n), n as usize),
    ensures seen(sib2, ed2, eh2, map2, key, n + 1),
{ reveal(seen); 
    let k0 = key(n);
    lemma_cls(key, n, k0);
    assert(cls(key, n, k0).len() == 0);
    assert forall|h: int| 0 <= h < n implies #[trigger] key(h) != k0 by { if key(h) == k0 { assert(cls(key, n, k0).contains(h)); } }
    assert forall|h: int| 0 <= h < n + 1 implies (#[trigger] sib2[h]).0 == before(key, h) by { if h < n { assert(sib2[h] == sib[h]); } }
    assert forall|g: int, h: int| 0 <= g < n + 1 && 0 <= h < n + 1 implies (#[trigger] ed2[g] == #[trigger] ed2[h] <==> key(g) == key(h)) by {
        if g < n { assert(ed2[g] == ed[g] && ed[g].0 < eh.len()); } if h < n { assert(ed2[h] == ed[h] && ed[h].0 < eh.len()); }
    }
    assert forall|h: int| 0 <= h < n + 1 implies (#[trigger] ed2[h]).0 < eh2.len() by { if h < n { assert(ed2[h] == ed[h]); } }
    assert forall|e: int| 0 <= e < eh2.len() implies (#[trigger] eh2[e]).0 < n + 1 && ed2[eh2[e].0 as int].0 == e by { if e < eh.len() { assert(eh2[e] == eh[e]); assert(ed2[eh[e].0 as int] == ed[eh[e].0 as int]); } }
}

proof fn lemma_last<K>(key: spec_fn(int) -> K, n: int, c: K)
    requires n >= 0, cls(key, n, c).len() > 0,
    ensures 0 <= cls(key, n, c).last() < n, key(cls(key, n, c).last()) == c,
{ lemma_cls(key, n, c); assert(cls(key, n, c).contains(cls(key, n, c)[cls(key, n, c).len() - 1])); }
proof fn lemma_seen_end(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int)
    requires seen(sib, ed, eh, map, key, n),
    ensures forall|k: (usize, usize)| #[trigger] map.contains_key(k) ==> cls(key, n, k).len() > 0 && map[k] == cls(key, n, k).last(),
        forall|h: int| 0 <= h < n ==> (#[trigger] sib[h]).0 == before(key, h),
        forall|h: int| 0 <= h < n ==> map.contains_key(#[trigger] key(h)),
{
    reveal(seen);
    assert forall|h: int| 0 <= h < n implies map.contains_key(#[trigger] key(h)) by { lemma_cls(key, n, key(h)); assert(cls(key, n, key(h)).contains(h)); }
}
// the first j of the keys ks are closed: the first halfedge of each links to the last
#[verifier::opaque]
spec fn closing<K>(sib: Seq<HalfedgeId>, key: spec_fn(int) -> K, n: int, ks: Seq<K>, j: int) -> bool {
    forall|h: int| 0 <= h < n ==> (#[trigger] sib[h]).0 == (if cls(key, h, key(h)).len() == 0 && ks.index_of(key(h)) < j { cls(key, n, key(h)).last() } else { before(key, h) })
}
proof fn lemma_closing_none<K>(sib: Seq<HalfedgeId>, key: spec_fn(int) -> K, n: int, ks: Seq<K>)
    requires forall|h: int| 0 <= h < n ==> (#[trigger] sib[h]).0 == before(key, h), forall|h: int| 0 <= h < n ==> ks.contains(#[trigger] key(h)),
    ensures closing(sib, key, n, ks, 0),
{ reveal(closing); assert forall|h: int| 0 <= h < n implies ks.index_of(#[trigger] key(h)) >= 0 by { assert(ks.contains(key(h))); } }
proof fn lemma_closing<K>(sib: Seq<HalfedgeId>, key: spec_fn(int) -> K, n: int, ks: Seq<K>, j: int, h: int)
    requires closing(sib, key, n, ks, j), 0 <= h < n < INVALID_IND, 0 <= j < ks.len(), key(h) == ks[j], ks.no_duplicates(),
    ensures sib[h].0 == INVALID_IND <==> cls(key, h, key(h)).len() == 0, sib[h].0 != INVALID_IND ==> sib[h].0 < h && key(sib[h].0 as int) == ks[j],
{
    reveal(closing);
    assert(ks.contains(ks[j])); assert(ks.index_of(ks[j]) == j);
    assert(sib[h].0 == before(key, h));
    if cls(key, h, key(h)).len() > 0 { lemma_last(key, h, key(h)); }
}
proof fn lemma_first_unique<K>(key: spec_fn(int) -> K, g: int, h: int)
    requires 0 <= g, 0 <= h, key(g) == key(h), cls(key, g, key(g)).len() == 0, cls(key, h, key(h)).len() == 0,
    ensures g == h,
{ lemma_cls(key, g, key(g)); lemma_cls(key, h, key(h)); if g < h { assert(cls(key, h, key(h)).contains(g)); } else if h < g { assert(cls(key, g, key(g)).contains(h)); } }
proof fn lemma_closing_step<K>(sib: Seq<HalfedgeId>, sib2: Seq<HalfedgeId>, key: spec_fn(int) -> K, n: int, ks: Seq<K>, j: int, c: int)
    requires closing(sib, key, n, ks, j), 0 <= c < n <= sib.len(), n < INVALID_IND, 0 <= j < ks.len(), key(c) == ks[j], ks.no_duplicates(), forall|h: int| 0 <= h < n ==> ks.contains(#[trigger] key(h)),
        cls(key, c, key(c)).len() == 0, sib2 == sib.update(c, HalfedgeId(cls(key, n, key(c)).last() as usize)), 0 <= cls(key, n, key(c)).last() < n,
    ensures closing(sib2, key, n, ks, j + 1),
{
    reveal(closing);
    assert(ks.contains(ks[j])); assert(ks.index_of(ks[j]) == j);
    assert forall|h: int| 0 <= h < n implies (#[trigger] sib2[h]).0 == (if cls(key, h, key(h)).len() == 0 && ks.index_of(key(h)) < j + 1 { cls(key, n, key(h)).last() } else { before(key, h) }) by {
        assert(ks.contains(key(h)));
        if h != c {
            assert(sib2[h] == sib[h]);
            if cls(key, h, key(h)).len() == 0 && key(h) == key(c) { lemma_first_unique(key, c, h); }
        }
    }
}
proof fn lemma_cls_prefix<K>(key: spec_fn(int) -> K, n: int, c: K, m: int)
    requires 0 <= m < cls(key, n, c).len(),
    ensures cls(key, cls(key, n, c)[m], c) == cls(key, n, c).subrange(0, m),
    decreases n
{
    if n > 0 {
        let s = cls(key, n - 1, c);
        if m < s.len() { lemma_cls_prefix(key, n - 1, c, m); assert(cls(key, n, c).subrange(0, m) =~= s.subrange(0, m)); }
        else { assert(cls(key, n, c).subrange(0, m) =~= s); }
    }
}
// all closed: each class is a ring, backwards
proof fn lemma_closed_ring<K>(sib: Seq<HalfedgeId>, key: spec_fn(int) -> K, n: int, ks: Seq<K>, k: K)
    requires closing(sib, key, n, ks, ks.len() as int), n <= sib.len(), n < INVALID_IND, cls(key, n, k).len() > 0, ks.contains(k),
    ensures is_ring(sib, cls(key, n, k).reverse()), forall|g: int| #[trigger] cls(key, n, k).reverse().contains(g) <==> 0 <= g < n && key(g) == k,
{
    reveal(closing); reveal(is_ring);
    let c = cls(key, n, k);
    let t = c.reverse();
    let l = c.len() as int;
    lemma_cls(key, n, k);
    assert forall|i: int| 0 <= i < l implies #[trigger] t[i] == c[l - 1 - i] by {}
    assert forall|i: int| 0 <= i < l implies 0 <= #[trigger] c[i] < n && key(c[i]) == k && sib[c[i]].0 == (if i == 0 { c[l - 1] } else { c[i - 1] }) by {
        assert(c.contains(c[i]));
        lemma_cls_prefix(key, n, k, i);
        assert(0 <= ks.index_of(k) < ks.len());
        if i > 0 { assert(before(key, c[i]) == c.subrange(0, i).last()); }
        assert(sib[c[i]].0 == (if i == 0 { c[l - 1] } else { c[i - 1] }));
    }
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < l && 0 <= j < l && i != j implies t[i] != t[j] by { assert(c[l - 1 - i] != c[l - 1 - j]); } }
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < sib.len() by { assert(0 <= c[l - 1 - i] < n); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies #[trigger] t[j] == sib[#[trigger] t[i]].0 by { assert(sib[c[l - 1 - i]].0 == c[l - 2 - i]); }
    assert(t[l - 1] == c[0] && t[0] == c[l - 1]);
    assert forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < n && key(g) == k by {
        if t.contains(g) { let i = t.index_of(g); assert(c[l - 1 - i] == g); assert(c.contains(g)); }
        if 0 <= g < n && key(g) == k { assert(c.contains(g)); let i = c.index_of(g); assert(t[l - 1 - i] == g); }
    }
}

// all but the lists around the vertices
spec fn edged(m: SurfaceMesh, ps: Seq<Vec<usize>>) -> bool {
    &&& good(ps) && built(m, ps, nhe(ps), nhe(ps), ps.len() as int) && m.lens() && m.ranges()
    &&& forall|g: int, h: int| 0 <= g < m.nh() && 0 <= h < m.nh() ==> (#[trigger] m.edge_of(g) == #[trigger] m.edge_of(h) <==> pk(ps)(g) == pk(ps)(h))
    &&& forall|e: int| 0 <= e < m.ne() ==> 0 <= #[trigger] m.eh(e) < m.nh() && m.edge_of(m.eh(e)) == e
    &&& rings_ok(m.sib_s(), m.e_key(), m.nh())
}
proof fn lemma_edged(mp: SurfaceMesh, mb: SurfaceMesh, mq: SurfaceMesh, map: Map<(usize, usize), usize>, ps: Seq<Vec<usize>>, ks: Seq<(usize, usize)>)
    requires good(ps), built(mp, ps, nhe(ps), nhe(ps), ps.len() as int), seen(mb.sib_s(), mb.he_edge_arr@, mb.e_halfedge_arr@, map, pk(ps), nhe(ps)),
        mb == (SurfaceMesh { he_sibling_arr: mb.he_sibling_arr, he_edge_arr: mb.he_edge_arr, e_halfedge_arr: mb.e_halfedge_arr, n_edges: mb.n_edges, ..mp }), mq == (SurfaceMesh { he_sibling_arr: mq.he_sibling_arr, ..mb }),
        mb.sib_s().len() == nhe(ps), mq.sib_s().len() == nhe(ps), closing(mq.sib_s(), pk(ps), nhe(ps), ks, ks.len() as int), forall|h: int| 0 <= h < nhe(ps) ==> ks.contains(#[trigger] pk(ps)(h)),
    ensures edged(mq, ps),
{
    hide(off); hide(fc); hide(cls);
    let n = nhe(ps);
    let key = pk(ps);
    lemma_seen_use(mb.sib_s(), mb.he_edge_arr@, mb.e_halfedge_arr@, map, key, n);
    lemma_nf(ps, ps.len() as int);
    assert(mq.lens());
    assert forall|h: int| 0 <= h < n implies #[trigger] mq.org(h) == po(ps, h) by { assert(mp.org(h) == po(ps, h)); }
    assert forall|h: int| 0 <= h < n implies #[trigger] mq.face_of(h) == pf(ps, h) by { assert(mp.face_of(h) == pf(ps, h)); }
    assert forall|h: int| 0 <= h < n implies #[trigger] mq.nx(h) == pn(ps, h) by { assert(mp.nx(h) == pn(ps, h)); }
    assert forall|f: int| 0 <= f < ps.len() implies #[trigger] mq.fh(f) == off(ps, f) by { assert(mp.fh(f) == off(ps, f)); }
    assert(built(mq, ps, n, n, ps.len() as int));
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.nx(h) < mq.nh() by { lemma_he(ps, h); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.org(h) < mq.nv() by { lemma_he(ps, h); let f = pf(ps, h); assert(ps[f]@[h - off(ps, f)] < mq.nv()); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.face_of(h) < mq.nf() by { lemma_he(ps, h); }
    lemma_seen_edges(mb.sib_s(), mb.he_edge_arr@, mb.e_halfedge_arr@, map, key, n);
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.edge_of(h) < mq.ne() by { assert(mb.he_edge_arr@[h].0 < mb.e_halfedge_arr@.len()); }
    assert forall|g: int, h: int| 0 <= g < n && 0 <= h < n implies (#[trigger] mq.edge_of(g) == #[trigger] mq.edge_of(h) <==> key(g) == key(h)) by { assert(mb.he_edge_arr@[g] == mb.he_edge_arr@[h] <==> key(g) == key(h)); }
    assert forall|e: int| 0 <= e < mq.ne() implies 0 <= #[trigger] mq.eh(e) < n && mq.edge_of(mq.eh(e)) == e by { assert(mb.e_halfedge_arr@[e].0 < n); }
    assert forall|h: int| 0 <= h < n implies ring_ok(mq.sib_s(), mq.e_key(), n, #[trigger] ring(mq.sib_s(), h), h) by {
        let c = cls(key, n, key(h));
        lemma_cls(key, n, key(h));
        assert(c.contains(h));
        let t = c.reverse();
        lemma_closed_ring(mq.sib_s(), key, n, ks, key(h));
        assert forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < n && mq.e_key()(g) == mq.e_key()(h) by { if 0 <= g < n { assert(mq.edge_of(g) == mq.edge_of(h) <==> key(g) == key(h)); } }
        lemma_ring_at(mq.sib_s(), mq.e_key(), n, t, h);
    }
}
proof fn lemma_seen_edges(sib: Seq<HalfedgeId>, ed: Seq<EdgeId>, eh: Seq<HalfedgeId>, map: Map<(usize, usize), usize>, key: spec_fn(int) -> (usize, usize), n: int)
    requires seen(sib, ed, eh, map, key, n),
    ensures forall|g: int, h: int| 0 <= g < n && 0 <= h < n ==> (#[trigger] ed[g] == #[trigger] ed[h] <==> key(g) == key(h)),
        forall|h: int| 0 <= h < n ==> (#[trigger] ed[h]).0 < eh.len(),
        forall|e: int| 0 <= e < eh.len() ==> (#[trigger] eh[e]).0 < n && ed[eh[e].0 as int].0 == e,
{ reveal(seen); }
proof fn lemma_segment(a: Seq<HalfedgeId>, sep: Seq<usize>, key: spec_fn(int) -> int, n: int, nv: int, v: int)
    requires segments(a, sep, key, n, nv), 0 <= v < nv, n >= 0,
    ensures sep[v] == below(key, n, v), sep[v + 1] == sep[v] + cls(key, n, v).len(), sep[v + 1] <= n, cls(key, n, v).len() > 0 ==> listable(cls(key, n, v), n),
        forall|j: int| 0 <= j < cls(key, n, v).len() ==> a[sep[v] + j].0 == #[trigger] cls(key, n, v)[j],
{
    lemma_below(key, n, v); lemma_below(key, n, v + 1); lemma_cls(key, n, v);
    assert forall|j: int| 0 <= j < cls(key, n, v).len() implies a[sep[v] + j].0 == #[trigger] cls(key, n, v)[j] by { assert(a[below(key, n, v) + j].0 == cls(key, n, v)[j]); }
}
proof fn lemma_cyc_mod(k: int, len: int)
    requires 0 <= k < len,
    ensures (k + 1) % len == (if k + 1 < len { k + 1 } else { 0 }),
{ if k + 1 < len { vstd::arithmetic::div_mod::lemma_small_mod((k + 1) as nat, len as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(len); } }
spec fn linked(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, u: int) -> bool { cls(key, n, u).len() > 0 ==> is_ring(succ, cls(key, n, u)) }
spec fn all_linked(succ: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, m: SurfaceMesh, k: int) -> bool { forall|u: int| 0 <= u < k && m.vh(u) != INVALID_IND ==> #[trigger] linked(succ, key, n, u) }
proof fn lemma_linked(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, m: SurfaceMesh, v: int)
    requires relinked(a, b, cls(key, n, v), cls(key, n, v).len() as int), a.len() == n, b.len() == n, all_linked(a, key, n, m, v),
    ensures all_linked(b, key, n, m, v), linked(b, key, n, v),
{
    let l = cls(key, n, v);
    lemma_cls(key, n, v);
    if l.len() > 0 { lemma_relinked(a, b, l); } else { reveal(relinked); assert(a =~= b) by { assert forall|h: int| 0 <= h < a.len() implies a[h] == b[h] by { assert(!l.contains(h)); } } }
    assert forall|u: int| 0 <= u < v && m.vh(u) != INVALID_IND implies #[trigger] linked(b, key, n, u) by {
        assert(linked(a, key, n, u));
        lemma_cls(key, n, u);
        let t = cls(key, n, u);
        if t.len() > 0 { assert forall|g: int| #[trigger] t.contains(g) implies b[g] == a[g] by { assert(!l.contains(g)); } lemma_ring_keep(a, b, t); }
    }
}
proof fn lemma_linked_step(a: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, m: SurfaceMesh, v: int)
    requires all_linked(a, key, n, m, v), m.vh(v) != INVALID_IND ==> linked(a, key, n, v),
    ensures all_linked(a, key, n, m, v + 1),
{}
proof fn lemma_linked_rings(a: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, m: SurfaceMesh)
    requires all_linked(a, key, n, m, m.nv()), a.len() == n, forall|h: int| 0 <= h < n ==> 0 <= #[trigger] key(h) < m.nv() && m.vh(key(h)) != INVALID_IND,
    ensures rings_ok(a, key, n),
{
    assert forall|h: int| 0 <= h < n implies ring_ok(a, key, n, #[trigger] ring(a, h), h) by {
        let v = key(h);
        lemma_cls(key, n, v);
        assert(cls(key, n, v).contains(h));
        assert(linked(a, key, n, v));
        lemma_ring_at(a, key, n, cls(key, n, v), h);
    }
}
// what the mesh says of the polygons
spec fn corner_ok(m: SurfaceMesh, ps: Seq<Vec<usize>>, f: int, i: int) -> bool {
    let h = off(ps, f) + i;
    0 <= h < m.nh() && m.org(h) == ps[f]@[i] && m.face_of(h) == f && m.nx(h) == off(ps, f) + (if i + 1 < ps[f]@.len() { i + 1 } else { 0 })
}
spec fn as_given(m: SurfaceMesh, ps: Seq<Vec<usize>>) -> bool {
    &&& m.nf() == ps.len() && m.nh() == nhe(ps)
    &&& forall|f: int, i: int| 0 <= f < ps.len() && 0 <= i < ps[f]@.len() ==> #[trigger] corner_ok(m, ps, f, i)
    &&& forall|f: int| 0 <= f < ps.len() ==> #[trigger] m.fh(f) == off(ps, f)
    &&& forall|g: int, h: int| 0 <= g < m.nh() && 0 <= h < m.nh() ==> (#[trigger] m.edge_of(g) == #[trigger] m.edge_of(h) <==> m.org(g) == m.org(h) && m.tip(g) == m.tip(h) || m.org(g) == m.tip(h) && m.tip(g) == m.org(h))
}
proof fn lemma_new_done(m: SurfaceMesh, mq: SurfaceMesh, ps: Seq<Vec<usize>>)
    requires edged(mq, ps), m == (SurfaceMesh { he_vert_in_next_arr: m.he_vert_in_next_arr, he_vert_out_next_arr: m.he_vert_out_next_arr, ..mq }), m.in_s().len() == mq.nh(), m.out_s().len() == mq.nh(),
        all_linked(m.in_s(), mq.vk(true), mq.nh(), mq, mq.nv()), all_linked(m.out_s(), mq.vk(false), mq.nh(), mq, mq.nv()),
    ensures m.wf(), as_given(m, ps),
{
    hide(off); hide(fc); hide(cls);
    let n = nhe(ps);
    lemma_nf(ps, ps.len() as int);
    assert forall|h: int| 0 <= h < n implies #[trigger] m.org(h) == po(ps, h) by { assert(mq.org(h) == po(ps, h)); }
    assert forall|h: int| 0 <= h < n implies #[trigger] m.nx(h) == pn(ps, h) by { assert(mq.nx(h) == pn(ps, h)); }
    assert forall|h: int| 0 <= h < n implies #[trigger] m.face_of(h) == pf(ps, h) by { assert(mq.face_of(h) == pf(ps, h)); }
    assert forall|f: int| 0 <= f < ps.len() implies #[trigger] m.fh(f) == off(ps, f) by { assert(mq.fh(f) == off(ps, f)); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] m.nx(h) < n by { assert(0 <= mq.nx(h) < n); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] m.org(h) < m.nv() && m.vh(m.org(h)) != INVALID_IND by { assert(0 <= mq.org(h) < m.nv()); reveal(vok); assert(m.vh(m.core_data.he_vertex_arr@[h].0 as int) != INVALID_IND); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] m.edge_of(h) < m.ne() by { assert(0 <= mq.edge_of(h) < m.ne()); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] m.face_of(h) < m.nf() by { assert(0 <= mq.face_of(h) < m.nf()); }
    assert(m.lens() && m.ranges());
    // ends
    assert forall|h: int| 0 <= h < n implies m.org(h) == po(ps, h) && #[trigger] m.tip(h) == po(ps, pn(ps, h)) && m.org(h) != m.tip(h) by { lemma_he(ps, h); assert(m.nx(h) == pn(ps, h)); }
    assert forall|g: int, h: int| 0 <= g < n && 0 <= h < n implies (#[trigger] m.edge_of(g) == #[trigger] m.edge_of(h) <==> m.org(g) == m.org(h) && m.tip(g) == m.tip(h) || m.org(g) == m.tip(h) && m.tip(g) == m.org(h)) by {
        assert(mq.edge_of(g) == mq.edge_of(h) <==> pk(ps)(g) == pk(ps)(h));
        assert(m.tip(g) == po(ps, pn(ps, g)) && m.tip(h) == po(ps, pn(ps, h)));
    }
    assert(m.ends());
    // representatives
    assert forall|e: int| 0 <= e < m.ne() implies 0 <= #[trigger] m.eh(e) < n && m.edge_of(m.eh(e)) == e by { assert(0 <= mq.eh(e) < n && mq.edge_of(mq.eh(e)) == e); }
    assert forall|f: int| 0 <= f < m.nf() implies 0 <= #[trigger] m.fh(f) < n && m.face_of(m.fh(f)) == f by { lemma_at(ps, f, 0); assert(m.fh(f) == off(ps, f)); assert(m.face_of(off(ps, f)) == pf(ps, off(ps, f))); }
    assert forall|v: int| 0 <= v < m.nv() && #[trigger] m.vh(v) != INVALID_IND implies m.vh(v) < n && m.org(m.vh(v)) == v by { reveal(vok); }
    assert(m.reps());
    // rings
    assert forall|h: int| 0 <= h < n implies ring_ok(m.next_s(), m.f_key(), n, #[trigger] ring(m.next_s(), h), h) by { lemma_face_ring(m, ps, h); }
    assert(rings_ok(m.next_s(), m.f_key(), n));
    lemma_longer(m.sib_s(), mq.e_key(), m.sib_s(), m.e_key(), n);
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.vk(true)(h) < mq.nv() && mq.vh(mq.vk(true)(h)) != INVALID_IND by { assert(0 <= m.nx(h) < n); assert(0 <= m.org(m.nx(h)) < m.nv() && m.vh(m.org(m.nx(h))) != INVALID_IND); assert(mq.vk(true)(h) == m.org(m.nx(h))); }
    assert forall|h: int| 0 <= h < n implies 0 <= #[trigger] mq.vk(false)(h) < mq.nv() && mq.vh(mq.vk(false)(h)) != INVALID_IND by { assert(0 <= m.org(h) < m.nv() && m.vh(m.org(h)) != INVALID_IND); }
    lemma_linked_rings(m.in_s(), mq.vk(true), n, mq);
    lemma_linked_rings(m.out_s(), mq.vk(false), n, mq);
    lemma_longer(m.in_s(), mq.vk(true), m.in_s(), m.t_key(), n);
    lemma_longer(m.out_s(), mq.vk(false), m.out_s(), m.o_key(), n);
    // as given
    assert forall|f: int, i: int| 0 <= f < ps.len() && 0 <= i < ps[f]@.len() implies #[trigger] corner_ok(m, ps, f, i) by { lemma_at(ps, f, i); let h = off(ps, f) + i; assert(m.org(h) == po(ps, h)); assert(m.face_of(h) == pf(ps, h)); assert(m.nx(h) == pn(ps, h)); }
}
proof fn lemma_face_ring(m: SurfaceMesh, ps: Seq<Vec<usize>>, h: int)
    requires good(ps), m.next_s().len() == nhe(ps), 0 <= h < nhe(ps), forall|h: int| 0 <= h < nhe(ps) ==> #[trigger] m.nx(h) == pn(ps, h), forall|h: int| 0 <= h < nhe(ps) ==> #[trigger] m.face_of(h) == pf(ps, h),
    ensures ring_ok(m.next_s(), m.f_key(), nhe(ps), ring(m.next_s(), h), h),
{
    hide(off); hide(fc);
    reveal(is_ring);
    lemma_he(ps, h);
    let f = pf(ps, h);
    let o = off(ps, f);
    let l = ps[f]@.len() as int;
    lemma_at(ps, f, l - 1);
    let t = Seq::new(l as nat, |i: int| o + i);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies #[trigger] t[j] == m.next_s()[#[trigger] t[i]].0 by { lemma_at(ps, f, i); assert(m.nx(o + i) == pn(ps, o + i)); }
    assert(m.nx(o + l - 1) == pn(ps, o + l - 1));
    assert(is_ring(m.next_s(), t));
    assert forall|g: int| #[trigger] t.contains(g) <==> 0 <= g < nhe(ps) && m.f_key()(g) == m.f_key()(h) by {
        if t.contains(g) { let i = t.index_of(g); lemma_at(ps, f, i); assert(m.face_of(g) == pf(ps, g)); assert(m.face_of(h) == pf(ps, h)); }
        if 0 <= g < nhe(ps) && m.face_of(g) == m.face_of(h) { lemma_he(ps, g); assert(t[g - o] == g); }
    }
    assert(t[h - o] == h);
    lemma_ring_at(m.next_s(), m.f_key(), nhe(ps), t, h);
}
proof fn lemma_from_start(m: &SurfaceMesh)
    requires m.lens(), m.ranges(),
    ensures forall|it: HalfedgeIter<'_>| rest(it) == somes(it.all()) && it.all().len() == m.nh() && (forall|i: int| 0 <= i < m.nh() ==> (#[trigger] it.all()[i]) == (if m.org(i) != INVALID_IND { Some(Halfedge { mesh: m, id: HalfedgeId(i as usize) }) } else { None }))
        ==> #[trigger] rest(it) == hes(m, Seq::new((m.nh() - 0) as nat, |i: int| 0 + i)),
{
    assert forall|it: HalfedgeIter<'_>| rest(it) == somes(it.all()) && it.all().len() == m.nh() && (forall|i: int| 0 <= i < m.nh() ==> (#[trigger] it.all()[i]) == (if m.org(i) != INVALID_IND { Some(Halfedge { mesh: m, id: HalfedgeId(i as usize) }) } else { None }))
        implies #[trigger] rest(it) == hes(m, Seq::new((m.nh() - 0) as nat, |i: int| 0 + i)) by {
        let s = hes(m, Seq::new((m.nh() - 0) as nat, |i: int| 0 + i));
        assert forall|i: int| 0 <= i < m.nh() implies it.all()[i] == #[trigger] some_all(s)[i] by { assert(0 <= m.org(i) < m.nv()); }
        assert(it.all() =~= some_all(s));
        lemma_somes_all(s);
    }
}
proof fn lemma_keys(m: SurfaceMesh, incoming: bool)
    requires m.lens(), m.ranges(),
    ensures forall|h: int| 0 <= h < m.nh() ==> 0 <= #[trigger] m.vk(incoming)(h) < m.nv(),
{
    assert forall|h: int| 0 <= h < m.nh() implies 0 <= #[trigger] m.vk(incoming)(h) < m.nv() by { assert(0 <= m.nx(h) < m.nh()); assert(0 <= m.org(h) < m.nv() && 0 <= m.org(m.nx(h)) < m.nv()); }
}
fn main() {}
}
