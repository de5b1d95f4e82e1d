use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::collections::VecDeque;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@TRUST the capacity type T (stand-in VxNum) adds, subtracts and compares exactly (integers, or floating-point capacities whose sums do not round and are not NaN); T::from is exact
//@TRUST hashbrown::HashMap<usize, usize> behaves as a map (stand-in VxUMap, itself verified); VecDeque as specified by vstd
//@TRUST the statistics counters n_pushes, n_relabels and n_global_relabels do not overflow (no property reads them)
//@TRUST U: AsRef<[(usize, usize, T)]> is instantiated with Vec<(usize, usize, T)>; as_ref returns the same slice each time
//@TRUST chunks(2), iter_mut, slice iteration, min, map(len).sum and vec![x; n] have their documented meaning (verified loops stand in for them)
//@GSUB /\bT::from\(/ => vx_num(
//@GSUB /(\w+)<T>/ => \1
//@GSUB /\bT\b/ => VxNum
//@GSUB /&\[Vec<Self>\]/ => &Vec<Vec<Self>>
//@GSUB /self\.(\w+)\.pop_front\(\)\.unwrap\(\)/ => vx_pop(&mut self.\1)
//@GSUB /!\s*([\w\.]+)\.is_empty\(\)/ => (\1.len() > 0)
//@GSUB /(\(\s*)?((?:[\w\.]|\[[^\]]*\])+)\s*\.partial_cmp\(&((?:[\w\.]|\[[^\]]*\])+)\)\s*== Some\((?:std::cmp::)?Ordering::Less\)/ => \1vx_less(\2.partial_cmp(&\3))
//@GSUB /((?:[\w\.]|\[[^\]]*\])+)\.clone\(\)/ => vx_arc(&\1)
//@GSUB /((?:[\w\.]|\[[^\]]*\])+)\.min\(((?:[\w\.]|\[[^\]]*\])+)\)/ => vx_min(\1, \2)
//@GSUB /self\.(n_pushes|n_relabels|n_global_relabels) \+= 1;/ => self.\1 = vx_count(self.\1);
//@GSUB /for (\w+) in self\.(\w+)\.iter_mut\(\)\s*(\x01\d+\x02)\{\s*((?:\x01\d+\x02\s*)*)/ => for vx_i in 0..self.\2.len() \3 { \4 let \1 = &mut self.\2[vx_i];
//@GSUB /for (\w+) in &self\.(\w+)\[(\w+)\]\s*(\x01\d+\x02)\{/ => let vx_len = self.\2[\3].len(); for vx_i in 0..vx_len \4 { let \1 = &self.\2[\3][vx_i];
//@GSUB /self\.(\w+)\.iter\(\)\.map\(\|(\w+)\| \2\.len\(\)\)\.sum::<usize>\(\)/ => vx_total(&self.\1)
//@GSUB /vec!\[\s*(Vertex\s*\{.*?\})\s*;\s*(\w+)\s*,?\s*\]/ => vx_verts(\1, \2)
//@GSUB /vec!\[HashMap::new\(\); (\w+)\]/ => vx_maps(\1)
//@GSUB /vec!\[Vec::new\(\); (\w+)\]/ => vx_lists(\1)
//@GSUB /HashMap<usize, usize>/ => VxUMap
//@GSUB /(\w+)\.as_ref\(\)/ => \1
//@GSUB /for &\((\w+), (\w+), (\w+)\) in (\w+)\s*(\x01\d+\x02)\{/ => for vx_i in 0..\4.len() \5 { let (\1, \2, \3) = \4[vx_i];
//@GSUB /if let Some\(&(\w+)\) = ([\w\[\]]+\.get\(&\w+\))\s*\{/ => if let Some(vx_r) = \2 { let \1 = *vx_r;
//@GSUB /for (\w+) in (\w+)\.chunks\(2\)\s*(\x01\d+\x02)\{/ => let vx_len = \2.len() / 2; for vx_i in 0..vx_len \3 { let \1 = vx_chunk(&\2, vx_i);
// ---- stand-ins ----
#[verifier::external_body]
pub struct VxNum { x: i64 }
impl Copy for VxNum {}
impl Clone for VxNum { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxNum { pub uninterp spec fn v(self) -> int; }
impl PartialEqSpecImpl for VxNum {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &VxNum) -> bool { self.v() == other.v() }
}
impl PartialEq for VxNum {
    #[verifier::external_body]
    fn eq(&self, other: &VxNum) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for VxNum {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &VxNum) -> Option<Ordering> { if self.v() < other.v() { Some(Ordering::Less) } else if self.v() == other.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for VxNum {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &VxNum) -> Option<Ordering> { unimplemented!() }
}
impl AddAssignSpecImpl<VxNum> for VxNum {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: VxNum) -> bool { true }
    open spec fn add_assign_spec(&self, o: VxNum) -> &VxNum { self }
}
impl std::ops::AddAssign for VxNum {
    #[verifier::external_body]
    fn add_assign(&mut self, o: VxNum) ensures final(self).v() == old(self).v() + o.v() { unimplemented!() }
}
impl SubAssignSpecImpl<VxNum> for VxNum {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: VxNum) -> bool { true }
    open spec fn sub_assign_spec(&self, o: VxNum) -> &VxNum { self }
}
impl std::ops::SubAssign for VxNum {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: VxNum) ensures final(self).v() == old(self).v() - o.v() { unimplemented!() }
}
#[verifier::external_body]
fn vx_num(i: i32) -> (r: VxNum) ensures r.v() == i { unimplemented!() }
fn vx_less(o: Option<Ordering>) -> (r: bool) ensures r <==> o == Some(Ordering::Less) { match o { Some(Ordering::Less) => true, _ => false } }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
fn vx_count(a: usize) -> usize { unimplemented!() }
fn vx_arc(a: &Arc) -> (r: Arc) ensures r == *a { Arc { dist: a.dist, reverse: a.reverse, capacity: a.capacity } }
fn vx_total(net: &Vec<Vec<Arc>>) -> (r: usize)
    requires tlen(net@, net@.len() as int) <= usize::MAX,
    ensures r == tlen(net@, net@.len() as int),
{
    let mut s: usize = 0;
    for i in 0..net.len()
        invariant tlen(net@, net@.len() as int) <= usize::MAX, s == tlen(net@, i as int),
    {
        proof { lemma_tlen(net@, i + 1, net@.len() as int); assert(tlen(net@, i + 1) == tlen(net@, i as int) + net@[i as int]@.len()); }
        s = s + net[i].len();
    }
    s
}
fn vx_chunk(edges: &Vec<(usize, VxNum)>, i: usize) -> (r: Vec<(usize, VxNum)>)
    requires 2 * i + 1 < edges@.len(),
    ensures r@.len() == 2, r@[0] == edges@[2 * i], r@[1] == edges@[2 * i + 1],
{
    let mut v: Vec<(usize, VxNum)> = Vec::new();
    let n = edges.len();
    v.push(edges[2 * i]);
    v.push(edges[2 * i + 1]);
    v
}
fn vx_lists(n: usize) -> (r: Vec<Vec<Arc>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i]@ =~= Seq::empty(),
{
    let mut v: Vec<Vec<Arc>> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j]@ =~= Seq::empty(),
    { v.push(Vec::new()); }
    v
}
fn vx_verts(x: Vertex, n: usize) -> (r: Vec<Vertex>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    let mut v: Vec<Vertex> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x,
    { v.push(Vertex { label: x.label, excess: x.excess }); }
    v
}
struct VxUMap { keys: Vec<usize>, vals: Vec<usize> }
impl VxUMap {
    spec fn ok(self) -> bool { self.keys@.len() == self.vals@.len() && self.keys@.no_duplicates() }
    spec fn view(self) -> Map<usize, usize> { Map::new(self.keys@.to_set(), |k: usize| self.vals@[self.keys@.index_of(k)]) }
    fn new() -> (r: VxUMap) ensures r.ok(), forall|k: usize| !#[trigger] r@.contains_key(k) { VxUMap { keys: Vec::new(), vals: Vec::new() } }
    fn find(&self, k: usize) -> (r: usize)
        ensures r == self.keys@.len() && !self.keys@.contains(k) || r < self.keys@.len() && self.keys@[r as int] == k,
    {
        let mut at = self.keys.len();
        for i in 0..self.keys.len()
            invariant_except_break at == self.keys.len(), forall|j: int| 0 <= j < i ==> self.keys@[j] != k,
            ensures at == self.keys@.len() && !self.keys@.contains(k) || at < self.keys@.len() && self.keys@[at as int] == k,
        { if self.keys[i] == k { at = i; break; } }
        at
    }
    fn get(&self, k: &usize) -> (r: Option<&usize>)
        requires self.ok(),
        ensures match r { Some(p) => self@.contains_key(*k) && *p == self@[*k], None => !self@.contains_key(*k) },
    {
        let at = self.find(*k);
        if at < self.keys.len() {
            proof { assert(self.keys@.contains(*k)); assert(self.keys@.index_of(*k) == at); }
            Some(&self.vals[at])
        } else { None }
    }
    fn insert(&mut self, k: usize, x: usize)
        requires old(self).ok(),
        ensures final(self).ok(), final(self)@ == old(self)@.insert(k, x),
    {
        let at = self.find(k);
        let ghost ks = self.keys@;
        if at < self.keys.len() {
            self.vals[at] = x;
            proof {
                assert(ks.contains(k)); assert(ks.index_of(k) == at);
                assert forall|q: usize| #[trigger] ks.contains(q) && q != k implies ks.index_of(q) != at by {}
                assert(self@ =~= old(self)@.insert(k, x));
            }
        } else {
            self.keys.push(k);
            self.vals.push(x);
            proof {
                let t = self.keys@;
                assert forall|q: usize| #[trigger] t.contains(q) <==> ks.contains(q) || q == k by {
                    if ks.contains(q) { assert(t[ks.index_of(q)] == q); }
                    if q == k { assert(t[ks.len() as int] == q); }
                    if t.contains(q) { let i = t.index_of(q); if i < ks.len() { assert(ks[i] == q); } }
                }
                assert forall|q: usize| #[trigger] ks.contains(q) implies t.index_of(q) == ks.index_of(q) by { assert(t[ks.index_of(q)] == q); assert(t.contains(q)); assert(t[t.index_of(q)] == q); }
                assert(t[ks.len() as int] == k); assert(t.contains(k)); assert(t.index_of(k) == ks.len());
                assert(self@ =~= old(self)@.insert(k, x));
            }
        }
    }
}
fn vx_maps(n: usize) -> (r: Vec<VxUMap>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i].ok(), forall|i: int, k: usize| 0 <= i < n ==> !#[trigger] r@[i]@.contains_key(k),
{
    let mut v: Vec<VxUMap> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j].ok(), forall|j: int, k: usize| 0 <= j < i ==> !#[trigger] v@[j]@.contains_key(k),
    { v.push(VxUMap::new()); }
    v
}
//@STRUCT src/graphcut/push_relabel_fifo.rs Vertex
//@STRUCT src/graphcut/push_relabel_fifo.rs Arc
//@STRUCT src/graphcut/push_relabel_fifo.rs PushRelabelFifo
//@CONST src/graphcut/push_relabel_fifo.rs ALPHA
//@CONST src/graphcut/push_relabel_fifo.rs BETA
// ---- networks and cuts ----
type Net = Seq<Vec<Arc>>;
spec fn tlen(net: Net, k: int) -> int decreases k { if k <= 0 { 0 } else { tlen(net, k - 1) + net[k - 1]@.len() } }
proof fn lemma_tlen(net: Net, j: int, k: int)
    requires 0 <= j <= k,
    ensures 0 <= tlen(net, j) <= tlen(net, k), j < k ==> net[j]@.len() <= tlen(net, k),
    decreases k
{
    if j < k { lemma_tlen(net, j, k - 1); assert(tlen(net, k) == tlen(net, k - 1) + net[k - 1]@.len()); if j == k - 1 { lemma_tlen(net, 0, k - 1); } }
    else if k > 0 { lemma_tlen(net, k - 1, k - 1); }
}
proof fn lemma_tlen_same(a: Net, b: Net, k: int)
    requires forall|u: int| 0 <= u < k ==> (#[trigger] a[u])@.len() == b[u]@.len(),
    ensures tlen(a, k) == tlen(b, k),
    decreases k
{ if k > 0 { lemma_tlen_same(a, b, k - 1); assert(a[k - 1]@.len() == b[k - 1]@.len()); } }
spec fn cp(net: Net, u: int, i: int) -> int { net[u]@[i].capacity.v() }
spec fn ds(net: Net, u: int, i: int) -> int { net[u]@[i].dist as int }
spec fn rv(net: Net, u: int, i: int) -> int { net[u]@[i].reverse as int }
spec fn inr(net: Net, u: int, i: int) -> bool { 0 <= u < net.len() && 0 <= i < net[u]@.len() }
spec fn ok_arc(net: Net, u: int, i: int) -> bool {
    let w = ds(net, u, i); let r = rv(net, u, i);
    &&& cp(net, u, i) >= 0 && inr(net, w, r)
    &&& ds(net, w, r) == u
    &&& w != u ==> rv(net, w, r) == i
}
spec fn apart(net: Net, u: int, i: int, j: int) -> bool { i == j || ds(net, u, i) != ds(net, u, j) || ds(net, u, i) == u }
spec fn shape(net: Net) -> bool {
    &&& forall|u: int, i: int| inr(net, u, i) ==> #[trigger] ok_arc(net, u, i)
    &&& forall|u: int, i: int, j: int| inr(net, u, i) && inr(net, u, j) ==> #[trigger] apart(net, u, i, j)
}
type Cut = spec_fn(int) -> bool;
// capacity of the list's arcs into t
spec fn row(l: Seq<Arc>, t: Cut, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { row(l, t, k - 1) + (if t(l[k - 1].dist as int) { l[k - 1].capacity.v() } else { 0 }) } }
spec fn part(net: Net, e: Seq<int>, t: Cut, u: int) -> int { if t(u) { e[u] } else { row(net[u]@, t, net[u]@.len() as int) } }
// residual capacity into t plus the excess inside t
spec fn tot(net: Net, e: Seq<int>, t: Cut, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { tot(net, e, t, k - 1) + part(net, e, t, k - 1) } }
proof fn lemma_row_same(l: Seq<Arc>, m: Seq<Arc>, t: Cut, k: int)
    requires k <= l.len(), k <= m.len(), forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).dist == m[i].dist && (t(l[i].dist as int) ==> l[i].capacity.v() == m[i].capacity.v()),
    ensures row(l, t, k) == row(m, t, k),
    decreases k
{ if k > 0 { lemma_row_same(l, m, t, k - 1); assert(l[k - 1].dist == m[k - 1].dist); } }
// entry i grows by d
spec fn bump(l: Seq<Arc>, m: Seq<Arc>, i: int, d: int) -> bool {
    &&& l.len() == m.len() && 0 <= i < l.len()
    &&& forall|j: int| 0 <= j < l.len() && j != i ==> #[trigger] m[j] == l[j]
    &&& m[i].dist == l[i].dist && m[i].reverse == l[i].reverse && m[i].capacity.v() == l[i].capacity.v() + d
}
proof fn lemma_row_bump(l: Seq<Arc>, m: Seq<Arc>, t: Cut, i: int, d: int, k: int)
    requires bump(l, m, i, d), 0 <= k <= l.len(),
    ensures row(m, t, k) == row(l, t, k) + (if i < k && t(l[i].dist as int) { d } else { 0 }),
    decreases k
{ if k > 0 { lemma_row_bump(l, m, t, i, d, k - 1); if k - 1 != i { assert(m[k - 1] == l[k - 1]); } } }
proof fn lemma_row_push(l: Seq<Arc>, a: Arc, t: Cut)
    ensures row(l.push(a), t, (l.len() + 1) as int) == row(l, t, l.len() as int) + (if t(a.dist as int) { a.capacity.v() } else { 0 }),
{ lemma_row_same(l, l.push(a), t, l.len() as int); }
proof fn lemma_tot_two(net: Net, e: Seq<int>, net2: Net, e2: Seq<int>, t: Cut, a: int, da: int, b: int, db: int, k: int)
    requires
        forall|u: int| 0 <= u < k && u != a && u != b ==> #[trigger] part(net2, e2, t, u) == part(net, e, t, u),
        a != b, part(net2, e2, t, a) == part(net, e, t, a) + da, part(net2, e2, t, b) == part(net, e, t, b) + db,
        0 <= a, 0 <= b,
    ensures tot(net2, e2, t, k) == tot(net, e, t, k) + (if a < k { da } else { 0 }) + (if b < k { db } else { 0 }),
    decreases k
{ if k > 0 { lemma_tot_two(net, e, net2, e2, t, a, da, b, db, k - 1); if k - 1 != a && k - 1 != b { assert(part(net2, e2, t, k - 1) == part(net, e, t, k - 1)); } } }
proof fn lemma_tot_one(net: Net, e: Seq<int>, net2: Net, e2: Seq<int>, t: Cut, a: int, da: int, k: int)
    requires
        forall|u: int| 0 <= u < k && u != a ==> #[trigger] part(net2, e2, t, u) == part(net, e, t, u),
        part(net2, e2, t, a) == part(net, e, t, a) + da, 0 <= a,
    ensures tot(net2, e2, t, k) == tot(net, e, t, k) + (if a < k { da } else { 0 }),
    decreases k
{ if k > 0 { lemma_tot_one(net, e, net2, e2, t, a, da, k - 1); if k - 1 != a { assert(part(net2, e2, t, k - 1) == part(net, e, t, k - 1)); } } }
// ---- the solver's state ----
type P = PushRelabelFifo;
spec fn exs(vs: Seq<Vertex>) -> Seq<int> { Seq::new(vs.len(), |i: int| vs[i].excess.v()) }
spec fn lab(vs: Seq<Vertex>, v: int) -> int { vs[v].label as int }
spec fn exc(vs: Seq<Vertex>, v: int) -> int { vs[v].excess.v() }
spec fn total(net: Net, vs: Seq<Vertex>, t: Cut) -> int { tot(net, exs(vs), t, net.len() as int) }
spec fn dims(g: P) -> bool {
    &&& g.residual_network@.len() == g.vertices@.len() && g.not_reached == g.vertices@.len() && 2 <= g.vertices@.len() <= 0x100_0000_0000
    &&& g.source == 0 && g.sink == g.not_reached - 1
}
spec fn dry(net: Net, i: int) -> bool { ds(net, 0, i) != 0 ==> cp(net, 0, i) == 0 }
spec fn inv(g: P) -> bool {
    &&& dims(g) && shape(g.residual_network@)
    &&& forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] exc(g.vertices@, v) >= 0
    &&& forall|i: int| inr(g.residual_network@, 0, i) ==> #[trigger] dry(g.residual_network@, i)
    &&& g.relabel_threshold <= 0x1000_0000_0000 && g.relabel_threshold >= 1
}
// no residual arc leads down more than one level
spec fn ok_lab(net: Net, vs: Seq<Vertex>, u: int, i: int) -> bool { cp(net, u, i) > 0 ==> lab(vs, u) <= lab(vs, ds(net, u, i)) + 1 }
spec fn labels0(g: P) -> bool {
    &&& forall|u: int, i: int| inr(g.residual_network@, u, i) ==> #[trigger] ok_lab(g.residual_network@, g.vertices@, u, i)
    &&& forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] lab(g.vertices@, v) <= g.not_reached
    &&& lab(g.vertices@, g.sink as int) == 0
}
spec fn labels(g: P) -> bool {
    &&& labels0(g) && lab(g.vertices@, 0) == g.not_reached
    &&& forall|v: int| 0 <= v < g.vertices@.len() && v != g.sink ==> #[trigger] lab(g.vertices@, v) >= 1
}
spec fn active(vs: Seq<Vertex>, v: int) -> bool { 0 <= v < vs.len() - 1 && exc(vs, v) > 0 && lab(vs, v) < vs.len() }
// the queue holds every active vertex other than x exactly once
spec fn queued(g: P, x: int) -> bool {
    &&& g.queue@.no_duplicates()
    &&& forall|v: usize| #[trigger] g.queue@.contains(v) <==> active(g.vertices@, v as int) && v != x
}
spec fn consts(g: P, h: P) -> bool {
    &&& h.source == g.source && h.sink == g.sink && h.not_reached == g.not_reached && h.relabel_threshold == g.relabel_threshold
    &&& h.vertices@.len() == g.vertices@.len() && h.residual_network@.len() == g.residual_network@.len()
    &&& forall|u: int| 0 <= u < g.residual_network@.len() ==> (#[trigger] h.residual_network@[u])@.len() == g.residual_network@[u]@.len()
}
spec fn conserved(g: P, h: P) -> bool { forall|t: Cut| #[trigger] total(h.residual_network@, h.vertices@, t) == total(g.residual_network@, g.vertices@, t) }
spec fn rising(g: P, h: P) -> bool { forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] lab(g.vertices@, v) <= lab(h.vertices@, v) }
spec fn same_labels(g: P, h: P) -> bool { forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] lab(h.vertices@, v) == lab(g.vertices@, v) }
// ---- one push ----
spec fn adm(net: Net, vs: Seq<Vertex>, u: int, i: int, l: int) -> bool { cp(net, u, i) > 0 && lab(vs, ds(net, u, i)) == l }
spec fn stepped(g: P, h: P, u: int, i: int, d: int) -> bool {
    let w = ds(g.residual_network@, u, i); let r = rv(g.residual_network@, u, i);
    &&& consts(g, h)
    &&& bump(g.residual_network@[u]@, h.residual_network@[u]@, i, -d) && bump(g.residual_network@[w]@, h.residual_network@[w]@, r, d)
    &&& forall|x: int| 0 <= x < g.residual_network@.len() && x != u && x != w ==> #[trigger] h.residual_network@[x] == g.residual_network@[x]
    &&& forall|x: int| 0 <= x < g.vertices@.len() && x != u && x != w ==> #[trigger] h.vertices@[x] == g.vertices@[x]
    &&& lab(h.vertices@, u) == lab(g.vertices@, u) && lab(h.vertices@, w) == lab(g.vertices@, w) && exc(h.vertices@, u) == exc(g.vertices@, u) - d && exc(h.vertices@, w) == exc(g.vertices@, w) + d
    &&& h.queue@ == (if exc(g.vertices@, w) == 0 && w != g.sink { g.queue@.push(w as usize) } else { g.queue@ })
    &&& h.relabel_progress == g.relabel_progress
}
proof fn lemma_shape(net: Net, net2: Net, u: int, i: int, w: int, r: int, d: int, f: int)
    requires shape(net), net.len() == net2.len(), inr(net, u, i), w == ds(net, u, i), r == rv(net, u, i), w != u,
        bump(net[u]@, net2[u]@, i, -d), bump(net[w]@, net2[w]@, r, f),
        forall|x: int| 0 <= x < net.len() && x != u && x != w ==> #[trigger] net2[x] == net[x],
        d <= cp(net, u, i), f >= 0,
    ensures shape(net2), forall|a: int, j: int| inr(net, a, j) <==> #[trigger] inr(net2, a, j), inr(net, w, r), rv(net, w, r) == i, ds(net, w, r) == u,
        forall|a: int, j: int| inr(net, a, j) ==> #[trigger] ds(net2, a, j) == ds(net, a, j),
        forall|a: int, j: int| inr(net, a, j) ==> #[trigger] rv(net2, a, j) == rv(net, a, j),
        forall|a: int, j: int| inr(net, a, j) ==> #[trigger] cp(net2, a, j) == cp(net, a, j) + (if a == u && j == i { -d } else if a == w && j == r { f } else { 0 }),
{
    assert(ok_arc(net, u, i));
    assert forall|a: int, j: int| inr(net, a, j) <==> #[trigger] inr(net2, a, j) by { if 0 <= a < net.len() { if a != u && a != w { assert(net2[a] == net[a]); } } }
    assert forall|a: int, j: int| inr(net, a, j) implies #[trigger] ds(net2, a, j) == ds(net, a, j) by {
        if a != u && a != w { assert(net2[a] == net[a]); } else if a == u && j != i { assert(net2[u]@[j] == net[u]@[j]); } else if a == w && j != r { assert(net2[w]@[j] == net[w]@[j]); } }
    assert forall|a: int, j: int| inr(net, a, j) implies #[trigger] rv(net2, a, j) == rv(net, a, j) by {
        if a != u && a != w { assert(net2[a] == net[a]); } else if a == u && j != i { assert(net2[u]@[j] == net[u]@[j]); } else if a == w && j != r { assert(net2[w]@[j] == net[w]@[j]); } }
    assert forall|a: int, j: int| inr(net, a, j) implies #[trigger] cp(net2, a, j) == cp(net, a, j) + (if a == u && j == i { -d } else if a == w && j == r { f } else { 0 }) by {
        if a != u && a != w { assert(net2[a] == net[a]); } else if a == u && j != i { assert(net2[u]@[j] == net[u]@[j]); } else if a == w && j != r { assert(net2[w]@[j] == net[w]@[j]); } }
    assert forall|a: int, j: int| inr(net2, a, j) implies #[trigger] ok_arc(net2, a, j) by {
        assert(inr(net, a, j)); assert(ok_arc(net, a, j)); assert(cp(net2, a, j) >= 0);
        let b = ds(net, a, j); let s = rv(net, a, j);
        assert(ds(net2, a, j) == b && rv(net2, a, j) == s); assert(inr(net2, b, s)); assert(ds(net2, b, s) == ds(net, b, s)); assert(rv(net2, b, s) == rv(net, b, s)); }
    assert forall|a: int, j: int, k: int| inr(net2, a, j) && inr(net2, a, k) implies #[trigger] apart(net2, a, j, k) by {
        assert(inr(net, a, j) && inr(net, a, k)); assert(apart(net, a, j, k)); assert(ds(net2, a, j) == ds(net, a, j)); assert(ds(net2, a, k) == ds(net, a, k)); }
}
proof fn lemma_push_total(g: P, h: P, u: int, i: int, d: int, t: Cut)
    requires dims(g), shape(g.residual_network@), inr(g.residual_network@, u, i), stepped(g, h, u, i, d), ds(g.residual_network@, u, i) != u,
    ensures total(h.residual_network@, h.vertices@, t) == total(g.residual_network@, g.vertices@, t),
{
    let net = g.residual_network@; let net2 = h.residual_network@;
    let w = ds(net, u, i); let r = rv(net, u, i);
    assert(ok_arc(net, u, i));
    let e = exs(g.vertices@); let e2 = exs(h.vertices@);
    lemma_row_bump(net[u]@, net2[u]@, t, i, -d, net[u]@.len() as int);
    lemma_row_bump(net[w]@, net2[w]@, t, r, d, net[w]@.len() as int);
    assert(e[u] == exc(g.vertices@, u) && e2[u] == exc(h.vertices@, u) && e[w] == exc(g.vertices@, w) && e2[w] == exc(h.vertices@, w));
    let da = if t(u) { -d } else if t(w) { -d } else { 0 };
    let db = if t(w) { d } else if t(u) { d } else { 0 };
    assert forall|x: int| 0 <= x < net.len() && x != u && x != w implies #[trigger] part(net2, e2, t, x) == part(net, e, t, x) by { assert(net2[x] == net[x]); assert(h.vertices@[x] == g.vertices@[x]); }
    assert(net[w]@[r].dist == u);
    lemma_tot_two(net, e, net2, e2, t, u, da, w, db, net.len() as int);
}
proof fn lemma_push(g: P, h: P, u: int, i: int, d: int)
    requires inv(g), labels(g), inr(g.residual_network@, u, i), stepped(g, h, u, i, d), adm(g.residual_network@, g.vertices@, u, i, lab(g.vertices@, u) - 1), lab(g.vertices@, u) < g.not_reached, u != g.sink,
        0 < d <= cp(g.residual_network@, u, i), d <= exc(g.vertices@, u), queued(g, u),
    ensures inv(h), labels(h), same_labels(g, h), conserved(g, h), queued(h, u), consts(g, h), ds(g.residual_network@, u, i) != u,
        forall|j: int| 0 <= j < g.residual_network@[u]@.len() && j != i ==> #[trigger] h.residual_network@[u]@[j] == g.residual_network@[u]@[j],
        phi(h.vertices@, u, bb(h.residual_network@), h.vertices@.len() as int) <= phi(g.vertices@, u, bb(g.residual_network@), g.vertices@.len() as int) + pw(bb(g.residual_network@), lab(g.vertices@, u) - 1), bb(h.residual_network@) == bb(g.residual_network@),
{
    let net = g.residual_network@; let net2 = h.residual_network@;
    let w = ds(net, u, i); let r = rv(net, u, i);
    assert(ok_arc(net, u, i));
    assert(w != u);
    lemma_shape(net, net2, u, i, w, r, d, d);
    assert forall|v: int| 0 <= v < g.vertices@.len() implies #[trigger] lab(h.vertices@, v) == lab(g.vertices@, v) by { if v != u && v != w { assert(h.vertices@[v] == g.vertices@[v]); } }
    assert forall|v: int| 0 <= v < h.vertices@.len() implies #[trigger] exc(h.vertices@, v) >= 0 by { assert(exc(g.vertices@, v) >= 0); if v != u && v != w { assert(h.vertices@[v] == g.vertices@[v]); } }
    // neither end is the source
    assert(lab(g.vertices@, 0) == g.not_reached);
    assert(u != 0 && w != 0);
    assert forall|j: int| inr(net2, 0, j) implies #[trigger] dry(net2, j) by { assert(inr(net, 0, j)); assert(dry(net, j)); assert(cp(net2, 0, j) == cp(net, 0, j)); assert(ds(net2, 0, j) == ds(net, 0, j)); }
    assert forall|a: int, j: int| inr(net2, a, j) implies #[trigger] ok_lab(h.residual_network@, h.vertices@, a, j) by {
        assert(inr(net, a, j)); assert(ok_lab(g.residual_network@, g.vertices@, a, j)); assert(ok_arc(net, a, j)); assert(ds(net2, a, j) == ds(net, a, j)); assert(cp(net2, a, j) == cp(net, a, j) + (if a == u && j == i { -d } else if a == w && j == r { d } else { 0 }));
        assert(lab(h.vertices@, a) == lab(g.vertices@, a)); assert(lab(h.vertices@, ds(net, a, j)) == lab(g.vertices@, ds(net, a, j))); }
    assert forall|v: int| 0 <= v < h.vertices@.len() && v != h.sink implies #[trigger] lab(h.vertices@, v) >= 1 by { assert(lab(g.vertices@, v) >= 1); }
    assert forall|v: int| 0 <= v < h.vertices@.len() implies #[trigger] lab(h.vertices@, v) <= h.not_reached by { assert(lab(g.vertices@, v) <= g.not_reached); }
    assert(lab(h.vertices@, g.sink as int) == lab(g.vertices@, g.sink as int));
    assert(labels(h));
    assert forall|t: Cut| #[trigger] total(h.residual_network@, h.vertices@, t) == total(g.residual_network@, g.vertices@, t) by { lemma_push_total(g, h, u, i, d, t); }
    // the queue
    assert forall|v: int| v != u && v != w implies active(h.vertices@, v) == active(g.vertices@, v) by { if 0 <= v < g.vertices@.len() { assert(h.vertices@[v] == g.vertices@[v]); } }
    assert(active(h.vertices@, w) <==> w != g.sink);
    assert(active(g.vertices@, w) <==> w != g.sink && exc(g.vertices@, w) > 0);
    let q = g.queue@; let q2 = h.queue@;
    if exc(g.vertices@, w) == 0 && w != g.sink {
        assert(!q.contains(w as usize));
        assert forall|v: usize| #[trigger] q2.contains(v) <==> active(h.vertices@, v as int) && v != u by {
            if q.contains(v) { let k = q.index_of(v); assert(q2[k] == v); }
            if v == w { assert(q2[q.len() as int] == v); }
            if q2.contains(v) { let k = q2.index_of(v); if k < q.len() { assert(q[k] == v); } }
            assert(q.contains(v) <==> active(g.vertices@, v as int) && v != u);
        }
        assert forall|a: int, b: int| 0 <= a < q2.len() && 0 <= b < q2.len() && a != b implies q2[a] != q2[b] by { if a < q.len() { assert(q.contains(q[a])); } if b < q.len() { assert(q.contains(q[b])); } }
        assert(queued(h, u));
    } else {
        assert(exc(g.vertices@, w) >= 0);
        assert forall|v: usize| #[trigger] q2.contains(v) <==> active(h.vertices@, v as int) && v != u by { assert(q.contains(v) <==> active(g.vertices@, v as int) && v != u); }
        assert(queued(h, u));
    }
    lemma_tlen_same(net2, net, net.len() as int);
    lemma_tlen(net, 0, net.len() as int);
    lemma_pw(bb(g.residual_network@), lab(g.vertices@, u) - 1);
    assert forall|v: int| 0 <= v < g.vertices@.len() && v != w implies #[trigger] weight(h.vertices@, u, bb(g.residual_network@), v) == weight(g.vertices@, u, bb(g.residual_network@), v) by { if v != u { assert(h.vertices@[v] == g.vertices@[v]); } }
    assert(weight(h.vertices@, u, bb(g.residual_network@), w) <= weight(g.vertices@, u, bb(g.residual_network@), w) + pw(bb(g.residual_network@), lab(g.vertices@, u) - 1)) by { assert(lab(h.vertices@, w) == lab(g.vertices@, w)); }
    lemma_phi_one(g, h, u, bb(g.residual_network@), w, pw(bb(g.residual_network@), lab(g.vertices@, u) - 1), g.vertices@.len() as int);
}
// ---- termination measures ----
spec fn pw(b: int, k: int) -> int decreases k { if k <= 0 { 1 } else { b * pw(b, k - 1) } }
proof fn lemma_pw(b: int, k: int)
    requires b >= 1,
    ensures pw(b, k) >= 1,
    decreases k
{ if k > 0 { lemma_pw(b, k - 1); assert(b * pw(b, k - 1) >= 1) by (nonlinear_arith) requires b >= 1, pw(b, k - 1) >= 1; } }
spec fn bb(net: Net) -> int { tlen(net, net.len() as int) + 1 }
spec fn weight(vs: Seq<Vertex>, x: int, b: int, v: int) -> int { if active(vs, v) && v != x { pw(b, lab(vs, v)) } else { 0 } }
spec fn phi(vs: Seq<Vertex>, x: int, b: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { phi(vs, x, b, k - 1) + weight(vs, x, b, k - 1) } }
proof fn lemma_phi_one(g: P, h: P, x: int, b: int, w: int, p: int, k: int)
    requires forall|v: int| 0 <= v < k && v != w ==> #[trigger] weight(h.vertices@, x, b, v) == weight(g.vertices@, x, b, v), weight(h.vertices@, x, b, w) <= weight(g.vertices@, x, b, w) + p, p >= 0,
    ensures phi(h.vertices@, x, b, k) <= phi(g.vertices@, x, b, k) + p, w >= k ==> phi(h.vertices@, x, b, k) == phi(g.vertices@, x, b, k),
    decreases k
{ if k > 0 { lemma_phi_one(g, h, x, b, w, p, k - 1); if w != k - 1 { assert(weight(h.vertices@, x, b, k - 1) == weight(g.vertices@, x, b, k - 1)); } } }
proof fn lemma_phi_out(g: P, x: int, b: int, k: int)
    requires b >= 1, 0 <= x,
    ensures phi(g.vertices@, x, b, k) >= 0, phi(g.vertices@, -1, b, k) == phi(g.vertices@, x, b, k) + (if x < k && active(g.vertices@, x) { pw(b, lab(g.vertices@, x)) } else { 0 }),
    decreases k
{ if k > 0 { lemma_phi_out(g, x, b, k - 1); lemma_pw(b, lab(g.vertices@, k - 1)); } }
proof fn lemma_phi_same(g: P, h: P, x: int, b: int, k: int)
    requires forall|v: int| 0 <= v < k ==> #[trigger] weight(h.vertices@, x, b, v) == weight(g.vertices@, x, b, v),
    ensures phi(h.vertices@, x, b, k) == phi(g.vertices@, x, b, k),
    decreases k
{ if k > 0 { lemma_phi_same(g, h, x, b, k - 1); assert(weight(h.vertices@, x, b, k - 1) == weight(g.vertices@, x, b, k - 1)); } }
spec fn room(vs: Seq<Vertex>, k: int) -> int decreases k { if k <= 0 { 0 } else { room(vs, k - 1) + vs.len() - lab(vs, k - 1) } }
proof fn lemma_room(a: Seq<Vertex>, b: Seq<Vertex>, k: int)
    requires 0 <= k <= a.len(), a.len() == b.len(), forall|v: int| 0 <= v < k ==> #[trigger] lab(a, v) <= lab(b, v), forall|v: int| 0 <= v < k ==> #[trigger] lab(b, v) <= b.len(),
    ensures 0 <= room(b, k) <= room(a, k), room(b, k) == room(a, k) ==> forall|v: int| 0 <= v < k ==> #[trigger] lab(b, v) == lab(a, v),
    decreases k
{ if k > 0 { lemma_room(a, b, k - 1); assert(lab(a, k - 1) <= lab(b, k - 1)); assert(lab(b, k - 1) <= b.len()); } }
spec fn less(b: int, h: Seq<Vertex>, g: Seq<Vertex>) -> bool {
    let n = g.len() as int;
    room(h, n) < room(g, n) || (room(h, n) == room(g, n) && phi(h, -1, b, n) < phi(g, -1, b, n))
}
spec fn tight(vs: Seq<Vertex>) -> bool { forall|v: int| 0 <= v < vs.len() ==> #[trigger] lab(vs, v) == vs.len() || lab(vs, v) <= vs.len() - 2 }
proof fn lemma_relabelled(g: P, h: P)
    requires rising(g, h), g.vertices@.len() == h.vertices@.len(), dims(g), dims(h), labels(h), forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] exc(h.vertices@, v) == exc(g.vertices@, v),
    ensures room(h.vertices@, h.vertices@.len() as int) <= room(g.vertices@, g.vertices@.len() as int),
        forall|b: int| room(h.vertices@, h.vertices@.len() as int) == room(g.vertices@, g.vertices@.len() as int) ==> #[trigger] phi(h.vertices@, -1, b, h.vertices@.len() as int) == phi(g.vertices@, -1, b, h.vertices@.len() as int),
{
    lemma_room(g.vertices@, h.vertices@, g.vertices@.len() as int);
    assert forall|b: int| room(h.vertices@, h.vertices@.len() as int) == room(g.vertices@, g.vertices@.len() as int) implies #[trigger] phi(h.vertices@, -1, b, h.vertices@.len() as int) == phi(g.vertices@, -1, b, h.vertices@.len() as int) by {
        assert forall|v: int| 0 <= v < g.vertices@.len() implies #[trigger] weight(h.vertices@, -1, b, v) == weight(g.vertices@, -1, b, v) by { assert(lab(h.vertices@, v) == lab(g.vertices@, v)); assert(exc(h.vertices@, v) == exc(g.vertices@, v)); }
        lemma_phi_same(g, h, -1, b, g.vertices@.len() as int);
    }
}
fn vx_pop<A>(q: &mut VecDeque<A>) -> (r: A)
    requires old(q)@.len() > 0,
    ensures r == old(q)@[0], final(q)@ == old(q)@.subrange(1, old(q)@.len() as int),
        old(q)@.no_duplicates() ==> final(q)@.no_duplicates() && forall|x: A| #[trigger] final(q)@.contains(x) <==> old(q)@.contains(x) && x != r,
{
    let r = q.pop_front().unwrap();
    proof {
        let s = old(q)@; let t = q@;
        assert(t =~= s.subrange(1, s.len() as int));
        if s.no_duplicates() {
            assert forall|x: A| #[trigger] t.contains(x) <==> s.contains(x) && x != r by {
                if t.contains(x) { let k = t.index_of(x); assert(s[k + 1] == x); }
                if s.contains(x) && x != r { let k = s.index_of(x); assert(t[k - 1] == x); }
            }
        }
    }
    r
}
// ---- breadth-first relabelling ----
spec fn seen(o: Seq<Vertex>, vs: Seq<Vertex>, ord: Seq<int>, k: int) -> bool {
    &&& 0 <= ord[k] < vs.len() && lab(vs, ord[k]) <= k && (k >= 1 ==> lab(vs, ord[k]) >= 1) && lab(o, ord[k]) <= lab(vs, ord[k])
}
spec fn done(net: Net, vs: Seq<Vertex>, x: int, i: int) -> bool { cp(net, ds(net, x, i), rv(net, x, i)) > 0 ==> lab(vs, ds(net, x, i)) <= lab(vs, x) + 1 }
spec fn alldone(net: Net, vs: Seq<Vertex>, ord: Seq<int>, m: int) -> bool { forall|k: int, i: int| 0 <= k < m && inr(net, ord[k], i) ==> #[trigger] done(net, vs, ord[k], i) }
spec fn flat(vs: Seq<Vertex>, ord: Seq<int>, m: int) -> bool { forall|k: int| 0 <= k < ord.len() ==> lab(vs, #[trigger] ord[k]) <= m }
spec fn bfs(o: P, g: P, ord: Seq<int>, hd: int) -> bool {
    let vs = g.vertices@; let n = vs.len() as int;
    &&& dims(g) && consts(o, g) && g.residual_network@ == o.residual_network@ && g.relabel_progress == o.relabel_progress
    &&& forall|v: int| 0 <= v < n ==> #[trigger] exc(vs, v) == exc(o.vertices@, v)
    &&& 1 <= ord.len() && ord.no_duplicates() && ord[0] == g.sink && !ord.contains(0)
    &&& forall|k: int| 0 <= k < ord.len() ==> #[trigger] seen(o.vertices@, vs, ord, k)
    &&& forall|v: int| 0 <= v < n && !ord.contains(v) ==> #[trigger] lab(vs, v) == n
    &&& forall|i: int, j: int| 0 <= i <= j < ord.len() ==> lab(vs, #[trigger] ord[i]) <= lab(vs, #[trigger] ord[j])
    &&& 0 <= hd <= ord.len() && g.dist_queue@.len() == ord.len() - hd
    &&& forall|k: int| 0 <= k < g.dist_queue@.len() ==> #[trigger] g.dist_queue@[k] == (ord[hd + k] as usize, lab(vs, ord[hd + k]) as usize)
    &&& g.queue@.no_duplicates()
    &&& forall|v: usize| #[trigger] g.queue@.contains(v) <==> ord.contains(v as int) && v != g.sink && exc(vs, v as int) > 0
}
proof fn lemma_short(s: Seq<int>, n: int)
    requires s.no_duplicates(), n >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
    ensures s.len() <= n,
{
    let r = Seq::new(n as nat, |i: int| i).to_set();
    assert(Seq::new(n as nat, |i: int| i).len() == n);
    Seq::new(n as nat, |i: int| i).lemma_cardinality_of_set();
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(r)) by { assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by { let i = s.index_of(x); assert(0 <= s[i] < n); assert(Seq::new(n as nat, |i: int| i)[x] == x); } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
proof fn lemma_bfs_len(o: P, g: P, ord: Seq<int>, hd: int)
    requires bfs(o, g, ord, hd),
    ensures ord.len() <= g.vertices@.len() - 1,
        forall|x: int| 0 < x < g.vertices@.len() && !ord.contains(x) ==> ord.len() <= g.vertices@.len() - 2,
{
    assert forall|i: int| 0 <= i < ord.len() implies 0 <= #[trigger] ord[i] < g.vertices@.len() by { assert(seen(o.vertices@, g.vertices@, ord, i)); }
    let s = ord.push(0);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < ord.len() { assert(ord.contains(ord[i])); } if j < ord.len() { assert(ord.contains(ord[j])); } }
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < g.vertices@.len() by { if i < ord.len() { assert(s[i] == ord[i]); } }
    lemma_short(s, g.vertices@.len() as int);
    assert forall|x: int| 0 < x < g.vertices@.len() && !ord.contains(x) implies ord.len() <= g.vertices@.len() - 2 by {
        let q = s.push(x);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if i < ord.len() { assert(ord.contains(ord[i])); } if j < ord.len() { assert(ord.contains(ord[j])); } if i < s.len() && j < s.len() { assert(q[i] == s[i] && q[j] == s[j]); } }
        assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < g.vertices@.len() by { if i < s.len() { assert(q[i] == s[i]); } }
        lemma_short(q, g.vertices@.len() as int);
    }
}
spec fn visited(g: P, h: P, u: int, l: int) -> bool {
    &&& h.residual_network@ == g.residual_network@ && h.vertices@.len() == g.vertices@.len() && dims(h) && h.relabel_threshold == g.relabel_threshold && h.relabel_progress == g.relabel_progress
    &&& forall|v: int| 0 <= v < g.vertices@.len() && v != u ==> #[trigger] h.vertices@[v] == g.vertices@[v]
    &&& lab(h.vertices@, u) == l && exc(h.vertices@, u) == exc(g.vertices@, u)
    &&& h.dist_queue@ == g.dist_queue@.push((u as usize, l as usize))
    &&& h.queue@ == (if exc(g.vertices@, u) > 0 { g.queue@.push(u as usize) } else { g.queue@ })
}
proof fn lemma_visit(o: P, g: P, h: P, ord: Seq<int>, hd: int, i: int)
    requires bfs(o, g, ord, hd), inv(o), labels0(o), 1 <= hd, inr(g.residual_network@, ord[hd - 1], i), cp(g.residual_network@, ds(g.residual_network@, ord[hd - 1], i), rv(g.residual_network@, ord[hd - 1], i)) > 0,
        lab(g.vertices@, ds(g.residual_network@, ord[hd - 1], i)) == g.not_reached, flat(g.vertices@, ord, lab(g.vertices@, ord[hd - 1]) + 1), alldone(g.residual_network@, g.vertices@, ord, hd - 1),
        forall|j: int| 0 <= j < i ==> #[trigger] done(g.residual_network@, g.vertices@, ord[hd - 1], j),
        visited(g, h, ds(g.residual_network@, ord[hd - 1], i), lab(g.vertices@, ord[hd - 1]) + 1),
    ensures ({
        let u = ds(g.residual_network@, ord[hd - 1], i); let w = ord.push(u);
        &&& bfs(o, h, w, hd) && flat(h.vertices@, w, lab(h.vertices@, ord[hd - 1]) + 1) && alldone(h.residual_network@, h.vertices@, w, hd - 1) && lab(h.vertices@, ord[hd - 1]) == lab(g.vertices@, ord[hd - 1])
        &&& forall|j: int| 0 <= j <= i ==> #[trigger] done(h.residual_network@, h.vertices@, ord[hd - 1], j) }),
{
    let net = g.residual_network@; let a = g.vertices@; let b = h.vertices@; let n = a.len() as int;
    let v = ord[hd - 1]; let u = ds(net, v, i); let r = rv(net, v, i); let w = ord.push(u);
    assert(seen(o.vertices@, a, ord, hd - 1));
    lemma_bfs_len(o, g, ord, hd);
    assert(ok_arc(net, v, i)); assert(inr(net, u, r)); assert(ds(net, u, r) == v);
    assert(ord.contains(v));
    assert(v != 0);
    if u == 0 { assert(dry(net, r)); }
    if ord.contains(u) { let k = ord.index_of(u); assert(seen(o.vertices@, a, ord, k)); }
    assert(!ord.contains(u));
    assert(ok_lab(net, o.vertices@, u, r));
    assert forall|x: int| 0 <= x < n && x != u implies #[trigger] lab(b, x) == lab(a, x) && exc(b, x) == exc(a, x) by { assert(b[x] == a[x]); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] seen(o.vertices@, b, w, k) by { if k < ord.len() { assert(seen(o.vertices@, a, ord, k)); assert(w[k] == ord[k]); assert(ord.contains(ord[k])); } }
    assert(lab(b, u) == lab(a, v) + 1);
    assert forall|x: int| #[trigger] w.contains(x) <==> ord.contains(x) || x == u by {
        if ord.contains(x) { assert(w[ord.index_of(x)] == x); }
        if x == u { assert(w[ord.len() as int] == u); }
        if w.contains(x) { let k = w.index_of(x); if k < ord.len() { assert(ord[k] == x); } }
    }
    assert forall|k: int, l: int| 0 <= k < w.len() && 0 <= l < w.len() && k != l implies w[k] != w[l] by { if k < ord.len() { assert(ord.contains(ord[k])); } if l < ord.len() { assert(ord.contains(ord[l])); } }
    assert forall|x: int| 0 <= x < n implies #[trigger] exc(b, x) == exc(o.vertices@, x) by { assert(exc(a, x) == exc(o.vertices@, x)); if x != u { assert(b[x] == a[x]); } }
    assert forall|x: int| 0 <= x < n && !w.contains(x) implies #[trigger] lab(b, x) == n by { assert(lab(a, x) == n); assert(b[x] == a[x]); }
    assert forall|k: int| 0 <= k < ord.len() implies lab(b, #[trigger] ord[k]) == lab(a, ord[k]) && ord[k] != u by { assert(ord.contains(ord[k])); assert(seen(o.vertices@, a, ord, k)); assert(b[ord[k]] == a[ord[k]]); }
    assert forall|k: int, l: int| 0 <= k <= l < w.len() implies lab(b, #[trigger] w[k]) <= lab(b, #[trigger] w[l]) by { if l < ord.len() { assert(w[k] == ord[k] && w[l] == ord[l]); } else if k < ord.len() { assert(w[k] == ord[k]); } }
    assert forall|k: int| 0 <= k < w.len() implies lab(b, #[trigger] w[k]) <= lab(b, v) + 1 by { if k < ord.len() { assert(w[k] == ord[k]); } }
    assert forall|k: int| 0 <= k < h.dist_queue@.len() implies #[trigger] h.dist_queue@[k] == (w[hd + k] as usize, lab(b, w[hd + k]) as usize) by { if k < g.dist_queue@.len() { assert(h.dist_queue@[k] == g.dist_queue@[k]); assert(w[hd + k] == ord[hd + k]); } }
    let q = g.queue@; let p = h.queue@;
    assert(!q.contains(u as usize));
    assert forall|x: usize| #[trigger] p.contains(x) <==> w.contains(x as int) && x != h.sink && exc(b, x as int) > 0 by {
        assert(q.contains(x) <==> ord.contains(x as int) && x != g.sink && exc(a, x as int) > 0);
        if exc(a, u) > 0 {
            if q.contains(x) { assert(p[q.index_of(x)] == x); }
            if x == u { assert(p[q.len() as int] == x); }
            if p.contains(x) { let k = p.index_of(x); if k < q.len() { assert(q[k] == x); } }
        }
        assert(u != g.sink) by { assert(ord.contains(ord[0])); }
        if ord.contains(x as int) { let k = ord.index_of(x as int); assert(ord[k] == x); assert(seen(o.vertices@, a, ord, k)); assert(b[ord[k]] == a[ord[k]]); }
    }
    assert forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l implies p[k] != p[l] by { if k < q.len() { assert(q.contains(q[k])); } if l < q.len() { assert(q.contains(q[l])); } }
    assert(w[0] == ord[0]);
    assert(bfs(o, h, w, hd));
    assert forall|x: int, j: int| 0 <= x < n && inr(net, x, j) && ord.contains(x) && done(net, a, x, j) implies #[trigger] done(net, b, x, j) by { assert(ok_arc(net, x, j)); assert(b[x] == a[x]); let y = ds(net, x, j); if y != u { assert(b[y] == a[y]); } }
    assert forall|k: int, j: int| 0 <= k < hd - 1 && inr(net, w[k], j) implies #[trigger] done(net, b, w[k], j) by { assert(w[k] == ord[k]); assert(done(net, a, ord[k], j)); assert(ord.contains(ord[k])); assert(seen(o.vertices@, a, ord, k)); }
    assert forall|j: int| 0 <= j <= i implies #[trigger] done(net, b, v, j) by { if j < i { assert(done(net, a, v, j)); assert(inr(net, v, j)); } }
}
proof fn lemma_bfs_end(o: P, g: P, ord: Seq<int>)
    requires bfs(o, g, ord, ord.len() as int), alldone(g.residual_network@, g.vertices@, ord, ord.len() as int), inv(o), labels0(o),
    ensures inv(g), labels(g), rising(o, g), tight(g.vertices@), queued(g, -1), conserved(o, g), consts(o, g),
{
    let net = g.residual_network@; let a = g.vertices@; let n = a.len() as int;
    lemma_bfs_len(o, g, ord, ord.len() as int);
    assert forall|v: int| 0 <= v < n && ord.contains(v) implies #[trigger] lab(a, v) <= n - 2 && (v != g.sink ==> lab(a, v) >= 1) && lab(o.vertices@, v) <= lab(a, v) by { let k = ord.index_of(v); assert(seen(o.vertices@, a, ord, k)); }
    assert forall|v: int| 0 <= v < n implies #[trigger] exc(a, v) >= 0 by { assert(exc(a, v) == exc(o.vertices@, v)); assert(exc(o.vertices@, v) >= 0); }
    assert forall|v: int| 0 <= v < n implies #[trigger] lab(a, v) == n || lab(a, v) <= n - 2 by { if ord.contains(v) {} }
    assert forall|v: int| 0 <= v < n implies #[trigger] lab(a, v) <= n by { if ord.contains(v) {} }
    assert forall|v: int| 0 <= v < n && v != g.sink implies #[trigger] lab(a, v) >= 1 by { if ord.contains(v) {} }
    assert forall|v: int| 0 <= v < n implies #[trigger] lab(o.vertices@, v) <= lab(a, v) by { if ord.contains(v) {} assert(lab(o.vertices@, v) <= o.not_reached); assert(lab(a, v) == n || ord.contains(v)); }
    assert(ord.contains(ord[0])); assert(seen(o.vertices@, a, ord, 0));
    assert(lab(a, g.sink as int) == 0);
    assert(lab(a, 0) == n);
    assert forall|u: int, i: int| inr(net, u, i) implies #[trigger] ok_lab(net, a, u, i) by {
        assert(ok_arc(net, u, i)); let x = ds(net, u, i); let r = rv(net, u, i);
        assert(lab(a, u) <= n);
        if cp(net, u, i) > 0 && x != u {
            if ord.contains(x) { let k = ord.index_of(x); assert(ord[k] == x); assert(inr(net, ord[k], r)); assert(done(net, a, ord[k], r)); assert(ds(net, x, r) == u && rv(net, x, r) == i); }
            else { assert(lab(a, x) == n); }
        }
    }
    assert forall|v: usize| #[trigger] g.queue@.contains(v) <==> active(a, v as int) && v != -1 by { if 0 <= v < n { if ord.contains(v as int) { assert(lab(a, v as int) <= n - 2); } else { assert(lab(a, v as int) == n); } } else { if ord.contains(v as int) { let k = ord.index_of(v as int); assert(seen(o.vertices@, a, ord, k)); } } }
    assert(exs(a) =~= exs(o.vertices@)) by { assert forall|v: int| 0 <= v < n implies exs(a)[v] == exs(o.vertices@)[v] by { assert(exc(a, v) == exc(o.vertices@, v)); } }
}

// ---- building the network ----
spec fn zeros(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 0int) }
spec fn acap(arcs: Seq<(usize, usize, VxNum)>, t: Cut, k: int) -> int { if !t(arcs[k].0 as int) && t(arcs[k].1 as int) { arcs[k].2.v() } else { 0 } }
// the capacity of the cut: the arcs that lead into t
spec fn acut(arcs: Seq<(usize, usize, VxNum)>, t: Cut, k: int) -> int decreases k { if k <= 0 { 0 } else { acut(arcs, t, k - 1) + acap(arcs, t, k - 1) } }
type Edges = Seq<(usize, VxNum)>;
spec fn mate(p: int) -> int { if p % 2 == 0 { p + 1 } else { p - 1 } }
spec fn cross(e: Edges, t: Cut, p: int) -> int { if !t(e[mate(p)].0 as int) && t(e[p].0 as int) { e[p].1.v() } else { 0 } }
spec fn ecut(e: Edges, t: Cut, m: int) -> int decreases m { if m <= 0 { 0 } else { ecut(e, t, m - 1) + cross(e, t, 2 * (m - 1)) + cross(e, t, 2 * (m - 1) + 1) } }
spec fn bumpe(e: Edges, f: Edges, p: int, x: int) -> bool {
    &&& e.len() == f.len() && 0 <= p < e.len() && f[p].0 == e[p].0 && f[p].1.v() == e[p].1.v() + x
    &&& forall|q: int| 0 <= q < e.len() && q != p ==> #[trigger] f[q] == e[q]
}
proof fn lemma_ecut_bump(e: Edges, f: Edges, p: int, x: int, t: Cut, m: int)
    requires bumpe(e, f, p, x), 0 <= m, 2 * m <= e.len(), e.len() % 2 == 0,
    ensures ecut(f, t, m) == ecut(e, t, m) + (if p < 2 * m && !t(e[mate(p)].0 as int) && t(e[p].0 as int) { x } else { 0 }),
    decreases m
{
    if m > 0 {
        lemma_ecut_bump(e, f, p, x, t, m - 1);
        let a = 2 * (m - 1); let b = a + 1;
        assert(a % 2 == 0 && b % 2 == 1 && mate(a) == b && mate(b) == a);
        if a != p { assert(f[a] == e[a]); } if b != p { assert(f[b] == e[b]); }
    }
}
proof fn lemma_ecut_same(e: Edges, f: Edges, t: Cut, m: int)
    requires 2 * m <= e.len(), 2 * m <= f.len(), forall|q: int| 0 <= q < 2 * m ==> #[trigger] f[q] == e[q],
    ensures ecut(f, t, m) == ecut(e, t, m),
    decreases m
{
    if m > 0 { lemma_ecut_same(e, f, t, m - 1); let a = 2 * (m - 1); let b = a + 1; assert(a % 2 == 0 && b % 2 == 1); assert(f[a] == e[a] && f[b] == e[b]); }
}
spec fn pair_ok(e: Edges, maps: Seq<VxUMap>, j: int) -> bool {
    &&& e[2 * j].0 < maps.len() && e[2 * j + 1].0 < maps.len() && e[2 * j].1.v() >= 0 && e[2 * j + 1].1.v() >= 0
    &&& maps[e[2 * j + 1].0 as int]@.contains_key(e[2 * j].0) && maps[e[2 * j + 1].0 as int]@[e[2 * j].0] == 2 * j
}
spec fn link(e: Edges, maps: Seq<VxUMap>, f: int, t: usize) -> bool {
    maps[f]@.contains_key(t) ==> {
        let id = maps[f]@[t] as int;
        &&& t < maps.len() && id % 2 == 0 && id + 1 < e.len() && e[id].0 == t && e[id + 1].0 == f
        &&& f != t ==> !maps[t as int]@.contains_key(f as usize)
    }
}
spec fn einv(e: Edges, maps: Seq<VxUMap>, arcs: Seq<(usize, usize, VxNum)>, k: int, n: int) -> bool {
    &&& maps.len() == n && e.len() % 2 == 0 && e.len() <= 2 * k
    &&& forall|f: int| 0 <= f < n ==> #[trigger] maps[f].ok()
    &&& forall|j: int| 0 <= j < e.len() / 2 ==> #[trigger] pair_ok(e, maps, j)
    &&& forall|f: int, t: usize| 0 <= f < n ==> #[trigger] link(e, maps, f, t)
    &&& forall|t: Cut| #[trigger] ecut(e, t, e.len() as int / 2) == acut(arcs, t, k)
}
spec fn arc_ok(arcs: Seq<(usize, usize, VxNum)>, n: int, k: int) -> bool { arcs[k].0 < n && arcs[k].1 < n && arcs[k].2.v() >= 0 }
// the capacity joins an arc that is already there
proof fn lemma_eadd(e: Edges, f: Edges, maps: Seq<VxUMap>, arcs: Seq<(usize, usize, VxNum)>, k: int, n: int, p: int)
    requires einv(e, maps, arcs, k, n), 0 <= k < arcs.len(), arc_ok(arcs, n, k), bumpe(e, f, p, arcs[k].2.v()), e[p].0 == arcs[k].1, e[mate(p)].0 == arcs[k].0,
    ensures einv(f, maps, arcs, k + 1, n),
{
    assert forall|j: int| 0 <= j < f.len() / 2 implies #[trigger] pair_ok(f, maps, j) by { assert(pair_ok(e, maps, j)); if 2 * j != p { assert(f[2 * j] == e[2 * j]); } if 2 * j + 1 != p { assert(f[2 * j + 1] == e[2 * j + 1]); } }
    assert forall|a: int, t: usize| 0 <= a < n implies #[trigger] link(f, maps, a, t) by { assert(link(e, maps, a, t)); if maps[a]@.contains_key(t) { let id = maps[a]@[t] as int; if id != p { assert(f[id] == e[id]); } if id + 1 != p { assert(f[id + 1] == e[id + 1]); } } }
    assert forall|t: Cut| #[trigger] ecut(f, t, f.len() as int / 2) == acut(arcs, t, k + 1) by {
        assert(ecut(e, t, e.len() as int / 2) == acut(arcs, t, k));
        lemma_ecut_bump(e, f, p, arcs[k].2.v(), t, e.len() as int / 2);
    }
}
// a new pair of opposite arcs
proof fn lemma_enew(e: Edges, f: Edges, maps: Seq<VxUMap>, maps2: Seq<VxUMap>, arcs: Seq<(usize, usize, VxNum)>, k: int, n: int)
    requires einv(e, maps, arcs, k, n), 0 <= k < arcs.len(), arc_ok(arcs, n, k), f.len() == e.len() + 2, forall|q: int| 0 <= q < e.len() ==> #[trigger] f[q] == e[q],
        f[e.len() as int] == (arcs[k].1, arcs[k].2), f[e.len() as int + 1].0 == arcs[k].0, f[e.len() as int + 1].1.v() == 0,
        maps2.len() == n, maps2[arcs[k].0 as int].ok(), maps2[arcs[k].0 as int]@ == maps[arcs[k].0 as int]@.insert(arcs[k].1, e.len() as usize),
        e.len() <= usize::MAX,
        forall|a: int| 0 <= a < n && a != arcs[k].0 ==> #[trigger] maps2[a] == maps[a],
        !maps[arcs[k].0 as int]@.contains_key(arcs[k].1), !maps[arcs[k].1 as int]@.contains_key(arcs[k].0),
    ensures einv(f, maps2, arcs, k + 1, n),
{
    let m = e.len() as int / 2; let x = arcs[k].0; let y = arcs[k].1;
    assert forall|j: int| 0 <= j < f.len() / 2 implies #[trigger] pair_ok(f, maps2, j) by {
        if j < m { assert(pair_ok(e, maps, j)); assert(f[2 * j] == e[2 * j] && f[2 * j + 1] == e[2 * j + 1]); if e[2 * j + 1].0 != x { assert(maps2[e[2 * j + 1].0 as int] == maps[e[2 * j + 1].0 as int]); } } else { assert(j == m); } }
    assert forall|a: int, t: usize| 0 <= a < n implies #[trigger] link(f, maps2, a, t) by {
        assert(link(e, maps, a, t));
        if a != x { assert(maps2[a] == maps[a]); }
        if maps2[a]@.contains_key(t) {
            assert(t < n) by { if a == x && t == y {} }
            if t != x { assert(maps2[t as int] == maps[t as int]); }
            if !(a == x && t == y) { let id = maps[a]@[t] as int; assert(f[id] == e[id] && f[id + 1] == e[id + 1]); }
        }
    }
    assert forall|a: int| 0 <= a < n implies #[trigger] maps2[a].ok() by { if a != x { assert(maps2[a] == maps[a]); assert(maps[a].ok()); } }
    assert forall|t: Cut| #[trigger] ecut(f, t, f.len() as int / 2) == acut(arcs, t, k + 1) by {
        assert(ecut(e, t, e.len() as int / 2) == acut(arcs, t, k));
        lemma_ecut_same(e, f, t, m);
        assert(f.len() as int / 2 == m + 1);
        assert((2 * m) % 2 == 0 && (2 * m + 1) % 2 == 1);
    }
}
spec fn joins(e: Edges, j: int, u: int, w: int) -> bool { (e[2 * j].0 == u && e[2 * j + 1].0 == w) || (e[2 * j].0 == w && e[2 * j + 1].0 == u) }
proof fn lemma_unique(e: Edges, maps: Seq<VxUMap>, arcs: Seq<(usize, usize, VxNum)>, n: int, i: int, j: int, u: int, w: int)
    requires einv(e, maps, arcs, arcs.len() as int, n), 0 <= i < j < e.len() / 2, joins(e, i, u, w), joins(e, j, u, w), u != w,
    ensures false,
{
    assert(pair_ok(e, maps, i)); assert(pair_ok(e, maps, j));
    assert(link(e, maps, e[2 * i + 1].0 as int, e[2 * i].0)); assert(link(e, maps, e[2 * j + 1].0 as int, e[2 * j].0));
}
spec fn known(net: Net, e: Edges, k: int, u: int, i: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] joins(e, j, u, ds(net, u, i)) }
spec fn ninv(net: Net, e: Edges, n: int, k: int) -> bool {
    &&& net.len() == n && shape(net) && tlen(net, n) == 2 * k
    &&& forall|u: int, i: int| inr(net, u, i) ==> #[trigger] known(net, e, k, u, i)
    &&& forall|t: Cut| #[trigger] tot(net, zeros(n), t, n) == ecut(e, t, k)
}
proof fn lemma_tlen_two(a: Net, b: Net, x: int, dx: int, y: int, dy: int, k: int)
    requires forall|u: int| 0 <= u < k && u != x && u != y ==> #[trigger] b[u] == a[u], 0 <= x, 0 <= y,
        x != y ==> b[x]@.len() == a[x]@.len() + dx && b[y]@.len() == a[y]@.len() + dy, x == y ==> b[x]@.len() == a[x]@.len() + dx + dy,
    ensures tlen(b, k) == tlen(a, k) + (if x < k { dx } else { 0 }) + (if y < k { dy } else { 0 }),
    decreases k
{ if k > 0 { lemma_tlen_two(a, b, x, dx, y, dy, k - 1); if k - 1 != x && k - 1 != y { assert(b[k - 1] == a[k - 1]); } } }
proof fn lemma_chunk(net: Net, net2: Net, e: Edges, maps: Seq<VxUMap>, arcs: Seq<(usize, usize, VxNum)>, n: int, k: int, a: Arc, b: Arc)
    requires ninv(net, e, n, k), einv(e, maps, arcs, arcs.len() as int, n), 0 <= k < e.len() / 2, net2.len() == n,
        a.dist == e[2 * k].0, a.capacity == e[2 * k].1, a.reverse == net[e[2 * k].0 as int]@.len(),
        b.dist == e[2 * k + 1].0, b.capacity == e[2 * k + 1].1, b.reverse == net[e[2 * k + 1].0 as int]@.len(),
        forall|u: int| 0 <= u < n && u != a.dist && u != b.dist ==> #[trigger] net2[u] == net[u],
        a.dist != b.dist ==> net2[b.dist as int]@ == net[b.dist as int]@.push(a) && net2[a.dist as int]@ == net[a.dist as int]@.push(b),
        a.dist == b.dist ==> net2[a.dist as int]@ == net[a.dist as int]@.push(a).push(b),
    ensures ninv(net2, e, n, k + 1),
{
    let y = a.dist as int; let x = b.dist as int;
    assert(pair_ok(e, maps, k));
    assert forall|u: int, i: int| inr(net, u, i) implies inr(net2, u, i) && #[trigger] net2[u]@[i] == net[u]@[i] by { if u != x && u != y { assert(net2[u] == net[u]); } }
    assert forall|u: int, i: int| inr(net2, u, i) && !inr(net, u, i) implies #[trigger] ok_arc(net2, u, i) && (ds(net2, u, i) == y && u == x || ds(net2, u, i) == x && u == y) && (x != y ==> i == net[u]@.len()) by {
        if u != x && u != y { assert(net2[u] == net[u]); }
    }
    assert forall|u: int, i: int| inr(net, u, i) implies #[trigger] ok_arc(net2, u, i) by {
        assert(ok_arc(net, u, i)); let w = ds(net, u, i); let r = rv(net, u, i); assert(net2[u]@[i] == net[u]@[i]); assert(inr(net, w, r)); assert(net2[w]@[r] == net[w]@[r]); }
    assert forall|u: int, i: int| inr(net2, u, i) implies #[trigger] ok_arc(net2, u, i) by { if inr(net, u, i) {} }
    assert forall|u: int, i: int| inr(net2, u, i) implies #[trigger] known(net2, e, k + 1, u, i) by {
        if inr(net, u, i) { assert(known(net, e, k, u, i)); assert(net2[u]@[i] == net[u]@[i]); let j = choose|j: int| 0 <= j < k && #[trigger] joins(e, j, u, ds(net, u, i)); assert(joins(e, j, u, ds(net2, u, i))); }
        else { assert(ok_arc(net2, u, i)); assert(joins(e, k, u, ds(net2, u, i))); }
    }
    assert forall|u: int, i: int, j: int| inr(net2, u, i) && inr(net2, u, j) implies #[trigger] apart(net2, u, i, j) by {
        if inr(net, u, i) && inr(net, u, j) { assert(apart(net, u, i, j)); assert(net2[u]@[i] == net[u]@[i]); assert(net2[u]@[j] == net[u]@[j]); }
        else if ds(net2, u, i) == ds(net2, u, j) && ds(net2, u, i) != u && i != j {
            let w = ds(net2, u, i);
            let (o, p) = if inr(net, u, i) { (i, j) } else { (j, i) };
            assert(ok_arc(net2, u, p)); assert(!inr(net, u, p));
            if !inr(net, u, o) { assert(ok_arc(net2, u, o)); }
            assert(inr(net, u, o)); assert(known(net, e, k, u, o)); assert(net2[u]@[o] == net[u]@[o]);
            let q = choose|q: int| 0 <= q < k && #[trigger] joins(e, q, u, ds(net, u, o));
            assert(joins(e, k, u, w));
            lemma_unique(e, maps, arcs, n, q, k, u, w);
        }
    }
    assert(shape(net2));
    lemma_tlen_two(net, net2, x, 1, y, 1, n);
    assert forall|t: Cut| #[trigger] tot(net2, zeros(n), t, n) == ecut(e, t, k + 1) by {
        assert(tot(net, zeros(n), t, n) == ecut(e, t, k));
        let z = zeros(n);
        assert forall|u: int| 0 <= u < n && u != x && u != y implies #[trigger] part(net2, z, t, u) == part(net, z, t, u) by { assert(net2[u] == net[u]); }
        assert((2 * k) % 2 == 0 && (2 * k + 1) % 2 == 1);
        assert(mate(2 * k) == 2 * k + 1 && mate(2 * k + 1) == 2 * k);
        if x != y {
            lemma_row_push(net[x]@, a, t); lemma_row_push(net[y]@, b, t);
            let dx = if t(x) { 0 } else if t(y) { a.capacity.v() } else { 0 };
            let dy = if t(y) { 0 } else if t(x) { b.capacity.v() } else { 0 };
            lemma_tot_two(net, z, net2, z, t, x, dx, y, dy, n);
        } else {
            lemma_row_push(net[x]@, a, t); lemma_row_push(net[x]@.push(a), b, t);
            lemma_tot_one(net, z, net2, z, t, x, 0, n);
        }
    }
}
// ---- the first pushes, out of the source ----
spec fn touched(net: Net, i: int, v: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] ds(net, 0, j) == v }
spec fn ginit(g: P, i: int) -> bool {
    let net = g.residual_network@;
    &&& dims(g) && shape(net)
    &&& forall|v: int| 0 <= v < g.vertices@.len() ==> #[trigger] exc(g.vertices@, v) >= 0 && (exc(g.vertices@, v) > 0 && v != 0 ==> touched(net, i, v))
    &&& forall|j: int| 0 <= j < i ==> #[trigger] dry(net, j)
}
spec fn opened(g: P, h: P, i: int) -> bool {
    let net = g.residual_network@; let net2 = h.residual_network@; let w = ds(net, 0, i); let r = rv(net, 0, i); let c = cp(net, 0, i);
    &&& consts(g, h) && dims(h)
    &&& forall|x: int| 0 <= x < net.len() && x != 0 && x != w ==> #[trigger] net2[x] == net[x]
    &&& forall|x: int| 0 <= x < net.len() && x != w ==> #[trigger] h.vertices@[x] == g.vertices@[x]
    &&& lab(h.vertices@, w) == lab(g.vertices@, w) && exc(h.vertices@, w) == c
    &&& w != 0 ==> bump(net[0]@, net2[0]@, i, -c) && bump(net[w]@, net2[w]@, r, c)
    &&& w == 0 ==> forall|j: int| 0 <= j < net[0]@.len() ==> (#[trigger] net2[0]@[j]).dist == net[0]@[j].dist && net2[0]@[j].reverse == net[0]@[j].reverse && net2[0]@[j].capacity.v() >= 0 && (net[0]@[j].dist != 0 ==> net2[0]@[j] == net[0]@[j])
}
proof fn lemma_open(g: P, h: P, i: int)
    requires ginit(g, i), inr(g.residual_network@, 0, i), opened(g, h, i), cp(g.residual_network@, 0, i) > 0,
    ensures ginit(h, i + 1), same_labels(g, h), forall|t: Cut| !t(0) ==> #[trigger] total(h.residual_network@, h.vertices@, t) == total(g.residual_network@, g.vertices@, t),
{
    let net = g.residual_network@; let net2 = h.residual_network@; let w = ds(net, 0, i); let r = rv(net, 0, i); let c = cp(net, 0, i); let n = net.len() as int;
    let a = g.vertices@; let b = h.vertices@;
    assert(ok_arc(net, 0, i));
    assert forall|v: int| 0 <= v < a.len() implies #[trigger] lab(b, v) == lab(a, v) by { if v != w { assert(b[v] == a[v]); } }
    if w != 0 {
        lemma_shape(net, net2, 0, i, w, r, c, c);
        assert(exc(a, w) == 0) by { assert(exc(a, w) >= 0); if exc(a, w) > 0 { assert(touched(net, i, w)); let j = choose|j: int| 0 <= j < i && #[trigger] ds(net, 0, j) == w; assert(inr(net, 0, j)); assert(apart(net, 0, j, i)); } }
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] dry(net2, j) by { assert(inr(net, 0, j)); if j < i { assert(dry(net, j)); } assert(ds(net2, 0, j) == ds(net, 0, j)); assert(cp(net2, 0, j) == cp(net, 0, j) + (if j == i { -c } else { 0 })); }
    } else {
        assert forall|u: int, j: int| inr(net, u, j) <==> #[trigger] inr(net2, u, j) by { if 0 < u < n { assert(net2[u] == net[u]); } }
        assert forall|u: int, j: int| inr(net, u, j) implies #[trigger] ds(net2, u, j) == ds(net, u, j) && rv(net2, u, j) == rv(net, u, j) && cp(net2, u, j) >= 0 && (ds(net, u, j) != 0 || u != 0 ==> cp(net2, u, j) == cp(net, u, j)) by { assert(ok_arc(net, u, j)); if u != 0 { assert(net2[u] == net[u]); } else { assert(net2[0]@[j].dist == net[0]@[j].dist); } }
        assert forall|u: int, j: int| inr(net2, u, j) implies #[trigger] ok_arc(net2, u, j) by { assert(inr(net, u, j)); assert(ok_arc(net, u, j)); assert(ds(net2, u, j) == ds(net, u, j)); let x = ds(net, u, j); let y = rv(net, u, j); assert(inr(net, x, y)); assert(ds(net2, x, y) == ds(net, x, y)); assert(inr(net2, x, y)); }
        assert forall|u: int, j: int, k: int| inr(net2, u, j) && inr(net2, u, k) implies #[trigger] apart(net2, u, j, k) by { assert(inr(net, u, j) && inr(net, u, k)); assert(apart(net, u, j, k)); assert(ds(net2, u, j) == ds(net, u, j)); assert(ds(net2, u, k) == ds(net, u, k)); }
        assert(shape(net2));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] dry(net2, j) by { assert(inr(net, 0, j)); if j < i { assert(dry(net, j)); } assert(ds(net2, 0, j) == ds(net, 0, j)); }
    }
    assert forall|v: int| 0 <= v < b.len() implies #[trigger] exc(b, v) >= 0 && (exc(b, v) > 0 && v != 0 ==> touched(net2, i + 1, v)) by {
        assert(exc(a, v) >= 0);
        if v != w { assert(b[v] == a[v]); if exc(b, v) > 0 && v != 0 { assert(touched(net, i, v)); let j = choose|j: int| 0 <= j < i && #[trigger] ds(net, 0, j) == v; assert(inr(net, 0, j)); assert(ds(net2, 0, j) == v); } }
        else if w != 0 { assert(ds(net2, 0, i) == w); }
    }
    assert forall|t: Cut| !t(0) implies #[trigger] total(net2, b, t) == total(net, a, t) by {
        let e = exs(a); let e2 = exs(b);
        assert(e2[w] == exc(b, w));
        assert forall|x: int| 0 <= x < n && x != 0 && x != w implies #[trigger] part(net2, e2, t, x) == part(net, e, t, x) by { assert(net2[x] == net[x]); assert(b[x] == a[x]); }
        if w != 0 {
            lemma_row_bump(net[0]@, net2[0]@, t, i, -c, net[0]@.len() as int);
            lemma_row_bump(net[w]@, net2[w]@, t, r, c, net[w]@.len() as int);
            assert(e[w] == exc(a, w));
            assert(net[w]@[r].dist == 0);
            let da = if t(w) { -c } else { 0 }; let db = if t(w) { c } else { 0 };
            lemma_tot_two(net, e, net2, e2, t, 0, da, w, db, n);
        } else {
            lemma_row_same(net[0]@, net2[0]@, t, net[0]@.len() as int);
            lemma_tot_one(net, e, net2, e2, t, 0, 0, n);
        }
    }
}

proof fn lemma_relabel(g: P, h: P, v: int)
    requires inv(g), labels(g), 0 <= v < g.vertices@.len() - 1, lab(g.vertices@, v) < lab(h.vertices@, v) <= g.not_reached, lab(g.vertices@, v) < g.not_reached, queued(g, v),
        forall|i: int| inr(g.residual_network@, v, i) && cp(g.residual_network@, v, i) > 0 ==> lab(h.vertices@, v) <= lab(g.vertices@, #[trigger] ds(g.residual_network@, v, i)) + 1,
        h.residual_network@ == g.residual_network@, h.queue@ == g.queue@, dims(h), consts(g, h), exc(h.vertices@, v) == exc(g.vertices@, v),
        forall|x: int| 0 <= x < g.vertices@.len() && x != v ==> #[trigger] h.vertices@[x] == g.vertices@[x],
    ensures inv(h), labels(h), rising(g, h), conserved(g, h), queued(h, v),
{
    let a = g.vertices@; let b = h.vertices@; let net = g.residual_network@;
    assert forall|x: int| 0 <= x < a.len() implies #[trigger] lab(a, x) <= lab(b, x) by { if x != v { assert(b[x] == a[x]); } }
    assert forall|x: int| 0 <= x < a.len() implies #[trigger] lab(b, x) <= g.not_reached by { assert(lab(a, x) <= g.not_reached); if x != v { assert(b[x] == a[x]); } }
    assert forall|x: int| 0 <= x < a.len() implies #[trigger] exc(b, x) == exc(a, x) && exc(b, x) >= 0 by { assert(exc(a, x) >= 0); if x != v { assert(b[x] == a[x]); } }
    assert forall|u: int, i: int| inr(net, u, i) implies #[trigger] ok_lab(net, b, u, i) by {
        assert(ok_lab(net, a, u, i)); assert(ok_arc(net, u, i)); let w = ds(net, u, i); assert(lab(a, w) <= lab(b, w)); if u != v { assert(b[u] == a[u]); } }
    assert forall|x: int| 0 <= x < b.len() && x != h.sink implies #[trigger] lab(b, x) >= 1 by { assert(lab(a, x) >= 1); assert(lab(a, x) <= lab(b, x)); }
    assert(b[g.sink as int] == a[g.sink as int]);
    assert(v != 0); assert(b[0] == a[0]);
    assert(exs(b) =~= exs(a)) by { assert forall|x: int| 0 <= x < a.len() implies exs(b)[x] == exs(a)[x] by { assert(exc(b, x) == exc(a, x)); } }
    assert forall|x: usize| #[trigger] h.queue@.contains(x) <==> active(b, x as int) && x != v by { assert(g.queue@.contains(x) <==> active(a, x as int) && x != v); if x != v && 0 <= x < a.len() { assert(b[x as int] == a[x as int]); } }
}
// the labels rose at v
proof fn lemma_risen(o: P, h: P, v: int)
    requires inv(o), inv(h), labels(h), consts(o, h), rising(o, h), queued(h, v), active(o.vertices@, v), lab(o.vertices@, v) < lab(h.vertices@, v), exc(h.vertices@, v) == 0 || lab(h.vertices@, v) == h.not_reached,
    ensures queued(h, -1), forall|b: int| #[trigger] less(b, h.vertices@, o.vertices@),
{
    lemma_room(o.vertices@, h.vertices@, o.vertices@.len() as int);
    assert forall|x: usize| #[trigger] h.queue@.contains(x) <==> active(h.vertices@, x as int) && x != -1 by { assert(h.queue@.contains(x) <==> active(h.vertices@, x as int) && x != v); }
}
proof fn lemma_rising(o: P, g: P, h: P)
    requires rising(o, g), same_labels(g, h) || rising(g, h), g.vertices@.len() == o.vertices@.len(), h.vertices@.len() == o.vertices@.len(),
    ensures rising(o, h),
{ assert forall|x: int| 0 <= x < o.vertices@.len() implies #[trigger] lab(o.vertices@, x) <= lab(h.vertices@, x) by { assert(lab(o.vertices@, x) <= lab(g.vertices@, x)); if same_labels(g, h) { assert(lab(h.vertices@, x) == lab(g.vertices@, x)); } else { assert(lab(g.vertices@, x) <= lab(h.vertices@, x)); } } }
// a push emptied v
proof fn lemma_discharged(o: P, g: P, h: P, v: int)
    requires inv(o), labels(o), inv(g), inv(h), labels(h), consts(o, h), rising(o, g), same_labels(g, h), consts(g, h), queued(h, v), active(o.vertices@, v), exc(h.vertices@, v) == 0,
        g.vertices@ == o.vertices@ || lab(o.vertices@, v) < lab(g.vertices@, v), bb(g.residual_network@) == bb(o.residual_network@), conserved(o, g), conserved(g, h),
        phi(h.vertices@, v, bb(g.residual_network@), g.vertices@.len() as int) < phi(g.vertices@, v, bb(g.residual_network@), g.vertices@.len() as int) + pw(bb(g.residual_network@), lab(g.vertices@, v)),
    ensures queued(h, -1), less(bb(o.residual_network@), h.vertices@, o.vertices@), rising(o, h), conserved(o, h),
{
    assert forall|x: int| 0 <= x < o.vertices@.len() implies #[trigger] lab(o.vertices@, x) <= lab(h.vertices@, x) by { assert(lab(o.vertices@, x) <= lab(g.vertices@, x)); assert(lab(h.vertices@, x) == lab(g.vertices@, x)); }
    assert forall|t: Cut| #[trigger] total(h.residual_network@, h.vertices@, t) == total(o.residual_network@, o.vertices@, t) by { assert(total(g.residual_network@, g.vertices@, t) == total(o.residual_network@, o.vertices@, t)); }
    lemma_room(o.vertices@, h.vertices@, o.vertices@.len() as int);
    assert forall|x: usize| #[trigger] h.queue@.contains(x) <==> active(h.vertices@, x as int) && x != -1 by { assert(h.queue@.contains(x) <==> active(h.vertices@, x as int) && x != v); }
    let b = bb(g.residual_network@); let n = g.vertices@.len() as int;
    lemma_tlen(o.residual_network@, 0, o.residual_network@.len() as int);
    lemma_phi_out(o, v, b, n);
    lemma_phi_out(h, v, b, n);
    if g.vertices@ != o.vertices@ { assert(lab(h.vertices@, v) == lab(g.vertices@, v)); }
}

proof fn vx_one(o: P, g: P, h: P, u: int, i: int, l: int, p: int)
    requires inv(g), labels(g), consts(o, g), same_labels(o, g), conserved(o, g), queued(g, u), bb(g.residual_network@) == bb(o.residual_network@), inr(g.residual_network@, u, i), u != g.sink, l == lab(g.vertices@, u), l < g.not_reached, p == pw(bb(o.residual_network@), l - 1),
        adm(g.residual_network@, g.vertices@, u, i, l - 1), stepped(g, h, u, i, exc(g.vertices@, u) - exc(h.vertices@, u)), 0 < exc(g.vertices@, u) - exc(h.vertices@, u) <= cp(g.residual_network@, u, i), exc(h.vertices@, u) >= 0,
    ensures inv(h), labels(h), consts(o, h), same_labels(o, h), conserved(o, h), queued(h, u), bb(h.residual_network@) == bb(o.residual_network@), consts(g, h), same_labels(g, h),
        ds(g.residual_network@, u, i) != u,
        forall|j: int| 0 <= j < g.residual_network@[u]@.len() && j != i ==> #[trigger] h.residual_network@[u]@[j] == g.residual_network@[u]@[j],
        phi(h.vertices@, u, bb(h.residual_network@), h.vertices@.len() as int) <= phi(g.vertices@, u, bb(g.residual_network@), g.vertices@.len() as int) + p,
        forall|j: int| 0 <= j < g.residual_network@[u]@.len() && j != i ==> #[trigger] adm(h.residual_network@, h.vertices@, u, j, l - 1) == adm(g.residual_network@, g.vertices@, u, j, l - 1),
        adm(h.residual_network@, h.vertices@, u, i, l - 1) <==> exc(g.vertices@, u) - exc(h.vertices@, u) < cp(g.residual_network@, u, i),
{
    lemma_push(g, h, u, i, exc(g.vertices@, u) - exc(h.vertices@, u));
    assert forall|j: int| 0 <= j < g.residual_network@[u]@.len() && j != i implies #[trigger] adm(h.residual_network@, h.vertices@, u, j, l - 1) == adm(g.residual_network@, g.vertices@, u, j, l - 1) by {
        assert(h.residual_network@[u]@[j] == g.residual_network@[u]@[j]);
        assert(ok_arc(g.residual_network@, u, j)); assert(lab(h.vertices@, ds(g.residual_network@, u, j)) == lab(g.vertices@, ds(g.residual_network@, u, j))); }
    assert(ok_arc(g.residual_network@, u, i)); assert(lab(h.vertices@, ds(g.residual_network@, u, i)) == lab(g.vertices@, ds(g.residual_network@, u, i)));
    assert forall|v: int| 0 <= v < o.vertices@.len() implies #[trigger] lab(h.vertices@, v) == lab(o.vertices@, v) by { assert(lab(g.vertices@, v) == lab(o.vertices@, v)); assert(lab(h.vertices@, v) == lab(g.vertices@, v)); }
    assert forall|t: Cut| #[trigger] total(h.residual_network@, h.vertices@, t) == total(o.residual_network@, o.vertices@, t) by { assert(total(g.residual_network@, g.vertices@, t) == total(o.residual_network@, o.vertices@, t)); }
    assert forall|x: int| 0 <= x < o.residual_network@.len() implies (#[trigger] h.residual_network@[x])@.len() == o.residual_network@[x]@.len() by { assert(g.residual_network@[x]@.len() == o.residual_network@[x]@.len()); }
}
// nothing the properties read has changed
spec fn vx_same(g: P, h: P) -> bool {
    &&& h.residual_network@ == g.residual_network@ && h.vertices@ == g.vertices@ && h.queue@ == g.queue@ && h.source == g.source && h.sink == g.sink && h.not_reached == g.not_reached && h.relabel_threshold == g.relabel_threshold
}
proof fn lemma_same(g: P, h: P, x: int)
    requires vx_same(g, h),
    ensures inv(g) ==> inv(h), labels(g) ==> labels(h), queued(g, x) ==> queued(h, x), forall|t: Cut| #[trigger] total(h.residual_network@, h.vertices@, t) == total(g.residual_network@, g.vertices@, t), bb(h.residual_network@) == bb(g.residual_network@),
        phi(h.vertices@, x, bb(g.residual_network@), g.vertices@.len() as int) == phi(g.vertices@, x, bb(g.residual_network@), g.vertices@.len() as int),
        forall|v: int| #[trigger] lab(h.vertices@, v) == lab(g.vertices@, v), forall|v: int| #[trigger] exc(h.vertices@, v) == exc(g.vertices@, v),
{
    if inv(g) { assert forall|v: int| 0 <= v < h.vertices@.len() implies #[trigger] exc(h.vertices@, v) >= 0 by { assert(exc(g.vertices@, v) >= 0); } assert(inv(h)); }
    if labels(g) {
        assert forall|u: int, i: int| inr(h.residual_network@, u, i) implies #[trigger] ok_lab(h.residual_network@, h.vertices@, u, i) by { assert(ok_lab(g.residual_network@, g.vertices@, u, i)); }
        assert forall|v: int| 0 <= v < h.vertices@.len() implies #[trigger] lab(h.vertices@, v) <= h.not_reached by { assert(lab(g.vertices@, v) <= g.not_reached); }
        assert(lab(g.vertices@, g.sink as int) == 0);
        assert forall|v: int| 0 <= v < h.vertices@.len() && v != h.sink implies #[trigger] lab(h.vertices@, v) >= 1 by { assert(lab(g.vertices@, v) >= 1); }
        assert(labels(h));
    }
    if queued(g, x) { assert forall|v: usize| #[trigger] h.queue@.contains(v) <==> active(h.vertices@, v as int) && v != x by { assert(g.queue@.contains(v) <==> active(g.vertices@, v as int) && v != x); assert(active(h.vertices@, v as int) == active(g.vertices@, v as int)); } assert(queued(h, x)); }
    assert forall|v: int| #[trigger] weight(h.vertices@, x, bb(g.residual_network@), v) == weight(g.vertices@, x, bb(g.residual_network@), v) by { assert(active(h.vertices@, v) == active(g.vertices@, v)); }
    lemma_phi_same(g, h, x, bb(g.residual_network@), g.vertices@.len() as int);
}
impl Arc {
//@FN src/graphcut/push_relabel_fifo.rs Arc::new (dist, reverse, capacity) -> res
//@ ensures res.dist == dist, res.reverse == reverse, res.capacity == capacity,
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs Arc::reverse_capacity (container) -> res
//@ requires self.dist < container@.len(), self.reverse < container@[self.dist as int]@.len(),
//@ ensures res.v() == cp(container@, self.dist as int, self.reverse as int),
//@ENDFN
}
impl PushRelabelFifo {
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::push (vid, label) -> res
//@ requires inv(*old(self)), labels(*old(self)), vid < old(self).vertices@.len(), vid != old(self).sink, label == lab(old(self).vertices@, vid as int), label < old(self).not_reached, exc(old(self).vertices@, vid as int) > 0, queued(*old(self), vid as int),
//@ ensures inv(*final(self)), labels(*final(self)), consts(*old(self), *final(self)), same_labels(*old(self), *final(self)), rising(*old(self), *final(self)), conserved(*old(self), *final(self)), queued(*final(self), vid as int), bb(final(self).residual_network@) == bb(old(self).residual_network@),
//@     final(self).relabel_progress == old(self).relabel_progress,
//@     res ==> exc(final(self).vertices@, vid as int) == 0,
//@     !res ==> exc(final(self).vertices@, vid as int) > 0 && forall|i: int| inr(final(self).residual_network@, vid as int, i) ==> !#[trigger] adm(final(self).residual_network@, final(self).vertices@, vid as int, i, label - 1),
//@     phi(final(self).vertices@, vid as int, bb(old(self).residual_network@), old(self).vertices@.len() as int) < phi(old(self).vertices@, vid as int, bb(old(self).residual_network@), old(self).vertices@.len() as int) + pw(bb(old(self).residual_network@), label as int),
//@START:
//@ proof { assert(lab(self.vertices@, vid as int) >= 1); assert(conserved(*self, *self)); assert(self.residual_network@.len() > vid); lemma_tlen(self.residual_network@, vid as int, self.residual_network@.len() as int); lemma_pw(bb(self.residual_network@), label - 1); }
//@ let ghost vx_p = pw(bb(self.residual_network@), label - 1); let ghost vx_b = bb(self.residual_network@);
//@LOCAL target_label /= label - 1/
//@LOOP 0 (i):
//@ invariant inv(*self), labels(*self), consts(*old(self), *self), same_labels(*old(self), *self), conserved(*old(self), *self), queued(*self, vid as int), bb(self.residual_network@) == bb(old(self).residual_network@),
//@     self.relabel_progress == old(self).relabel_progress, vid < self.vertices@.len(), vid != self.sink, 1 <= label == lab(self.vertices@, vid as int), label < self.not_reached, exc(self.vertices@, vid as int) > 0, target_label == label - 1,
//@     self.residual_network@[vid as int]@.len() == old(self).residual_network@[vid as int]@.len(), old(self).residual_network@[vid as int]@.len() < bb(old(self).residual_network@),
//@     vx_b == bb(old(self).residual_network@), vx_p == pw(bb(old(self).residual_network@), label - 1), vx_p >= 1, pw(bb(old(self).residual_network@), label as int) == bb(old(self).residual_network@) * vx_p,
//@     forall|j: int| 0 <= j < i ==> !#[trigger] adm(self.residual_network@, self.vertices@, vid as int, j, label - 1),
//@     phi(self.vertices@, vid as int, bb(self.residual_network@), self.vertices@.len() as int) <= phi(old(self).vertices@, vid as int, bb(old(self).residual_network@), old(self).vertices@.len() as int) + i * vx_p,
//@LOOPSTART 0 (i):
//@ let ghost vx_g = *self; let ghost vx_k = i as int;
//@ let ghost vx_w = ds(vx_g.residual_network@, vid as int, i as int);
//@ proof { assert(inr(vx_g.residual_network@, vid as int, i as int)); assert(ok_arc(vx_g.residual_network@, vid as int, i as int)); assert(exc(vx_g.vertices@, vx_w) >= 0); }
//@RETURN 0:
//@ proof {
//@     vx_one(*old(self), vx_g, *self, vid as int, vx_k, label as int, vx_p);
//@     assert((vx_k + 1) * vx_p == vx_k * vx_p + vx_p) by (nonlinear_arith);
//@     assert((vx_k + 1) * vx_p < vx_b * vx_p) by (nonlinear_arith) requires vx_k + 1 < vx_b, vx_p >= 1;
//@ }
//@LOOPEND 0 (i):
//@ proof {
//@     if adm(vx_g.residual_network@, vx_g.vertices@, vid as int, i as int, label - 1) { vx_one(*old(self), vx_g, *self, vid as int, i as int, label as int, vx_p); }
//@     else { assert(self.residual_network@ == vx_g.residual_network@ && self.vertices@ == vx_g.vertices@ && self.queue@ == vx_g.queue@);
//@         assert(vx_same(vx_g, *self)); lemma_same(vx_g, *self, vid as int); }
//@     assert((i + 1) * vx_p == i * vx_p + vx_p) by (nonlinear_arith);
//@ }
//@AFTER 0:
//@ proof {
//@     let vx_l = self.residual_network@[vid as int]@.len() as int;
//@     assert(vx_l * vx_p < vx_b * vx_p) by (nonlinear_arith) requires vx_l < vx_b, vx_p >= 1;
//@ }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::calc_new_label (vid) -> res
//@ requires inv(*self), labels(*self), vid < self.vertices@.len(), lab(self.vertices@, vid as int) < self.not_reached, forall|i: int| inr(self.residual_network@, vid as int, i) ==> !#[trigger] adm(self.residual_network@, self.vertices@, vid as int, i, lab(self.vertices@, vid as int) - 1),
//@ ensures lab(self.vertices@, vid as int) < res <= self.not_reached,
//@     forall|i: int| inr(self.residual_network@, vid as int, i) && cp(self.residual_network@, vid as int, i) > 0 ==> res <= lab(self.vertices@, #[trigger] ds(self.residual_network@, vid as int, i)) + 1,
//@LOCAL min_label /= self\.not_reached - 1/
//@LOOP 0:
//@ invariant inv(*self), labels(*self), vid < self.vertices@.len(), lab(self.vertices@, vid as int) < self.not_reached, forall|i: int| inr(self.residual_network@, vid as int, i) ==> !#[trigger] adm(self.residual_network@, self.vertices@, vid as int, i, lab(self.vertices@, vid as int) - 1),
//@     vx_len == self.residual_network@[vid as int]@.len(), lab(self.vertices@, vid as int) <= min_label <= self.not_reached - 1,
//@     forall|i: int| 0 <= i < vx_i && cp(self.residual_network@, vid as int, i) > 0 ==> min_label <= lab(self.vertices@, #[trigger] ds(self.residual_network@, vid as int, i)),
//@LOOPSTART 0:
//@ proof { assert(inr(self.residual_network@, vid as int, vx_i as int)); assert(ok_arc(self.residual_network@, vid as int, vx_i as int)); assert(ok_lab(self.residual_network@, self.vertices@, vid as int, vx_i as int)); assert(!adm(self.residual_network@, self.vertices@, vid as int, vx_i as int, lab(self.vertices@, vid as int) - 1)); }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::relabel (vid) -> res
//@ requires inv(*old(self)), labels(*old(self)), vid < old(self).vertices@.len(), vid != old(self).sink, lab(old(self).vertices@, vid as int) < old(self).not_reached, forall|i: int| inr(old(self).residual_network@, vid as int, i) ==> !#[trigger] adm(old(self).residual_network@, old(self).vertices@, vid as int, i, lab(old(self).vertices@, vid as int) - 1),
//@     queued(*old(self), vid as int), old(self).relabel_progress < 0x8000_0000_0000_0000,
//@ ensures inv(*final(self)), labels(*final(self)), consts(*old(self), *final(self)), rising(*old(self), *final(self)), conserved(*old(self), *final(self)), queued(*final(self), vid as int),
//@     lab(old(self).vertices@, vid as int) < res == lab(final(self).vertices@, vid as int), res <= old(self).not_reached, exc(final(self).vertices@, vid as int) == exc(old(self).vertices@, vid as int),
//@     final(self).residual_network@ == old(self).residual_network@, final(self).relabel_progress == old(self).relabel_progress + 12,
//@START:
//@ let ghost vx_g = *self;
//@END:
//@ proof { lemma_relabel(vx_g, *self, vid as int); }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::discharge (v)
//@ requires inv(*old(self)), labels(*old(self)), active(old(self).vertices@, v as int), queued(*old(self), v as int), old(self).relabel_progress < 0x4000_0000_0000_0000,
//@ ensures inv(*final(self)), labels(*final(self)), consts(*old(self), *final(self)), rising(*old(self), *final(self)), conserved(*old(self), *final(self)), queued(*final(self), -1), bb(final(self).residual_network@) == bb(old(self).residual_network@),
//@     less(bb(old(self).residual_network@), final(self).vertices@, old(self).vertices@), final(self).relabel_progress <= old(self).relabel_progress + 12 * old(self).not_reached,
//@LOCAL label /= self\.vertices\[\w+\]\.label/
//@LOOP 0:
//@ invariant inv(*self), labels(*self), consts(*old(self), *self), rising(*old(self), *self), conserved(*old(self), *self), queued(*self, v as int), bb(self.residual_network@) == bb(old(self).residual_network@),
//@     inv(*old(self)), labels(*old(self)), active(old(self).vertices@, v as int), label == lab(self.vertices@, v as int), label <= self.not_reached, exc(self.vertices@, v as int) > 0, old(self).relabel_progress < 0x4000_0000_0000_0000,
//@     self.relabel_progress == old(self).relabel_progress || self.relabel_progress <= old(self).relabel_progress + 12 * label,
//@     self.vertices@ == old(self).vertices@ || lab(old(self).vertices@, v as int) < label,
//@ decreases old(self).not_reached - label,
//@LOOPSTART 0:
//@ let ghost vx_g = *self;
//@LOOPEND 0:
//@ proof { assert forall|x: int| 0 <= x < self.vertices@.len() implies #[trigger] lab(old(self).vertices@, x) <= lab(self.vertices@, x) by { assert(lab(old(self).vertices@, x) <= lab(vx_g.vertices@, x)); } }
//@RETURN 0:
//@ proof { lemma_discharged(*old(self), vx_g, *self, v as int); }
//@AFTER 0:
//@ proof { lemma_risen(*old(self), *self, v as int); }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::global_relabel ()
//@ requires inv(*old(self)), labels0(*old(self)),
//@ ensures inv(*final(self)), labels(*final(self)), consts(*old(self), *final(self)), rising(*old(self), *final(self)), conserved(*old(self), *final(self)), queued(*final(self), -1), tight(final(self).vertices@),
//@     final(self).residual_network@ == old(self).residual_network@, final(self).relabel_progress == old(self).relabel_progress,
//@     forall|v: int| 0 <= v < old(self).vertices@.len() ==> #[trigger] exc(final(self).vertices@, v) == exc(old(self).vertices@, v),
//@     room(final(self).vertices@, old(self).vertices@.len() as int) <= room(old(self).vertices@, old(self).vertices@.len() as int),
//@     forall|b: int| room(final(self).vertices@, old(self).vertices@.len() as int) == room(old(self).vertices@, old(self).vertices@.len() as int) ==> #[trigger] phi(final(self).vertices@, -1, b, old(self).vertices@.len() as int) == phi(old(self).vertices@, -1, b, old(self).vertices@.len() as int),
//@LOOP 0:
//@ invariant dims(*self), consts(*old(self), *self), self.residual_network@ == old(self).residual_network@, self.relabel_progress == old(self).relabel_progress,
//@     forall|x: int| 0 <= x < self.vertices@.len() ==> #[trigger] exc(self.vertices@, x) == exc(old(self).vertices@, x),
//@     forall|x: int| 0 <= x < vx_i ==> #[trigger] lab(self.vertices@, x) == self.not_reached,
//@LOOPSTART 0:
//@ let ghost vx_g = *self;
//@LOOPEND 0:
//@ proof {
//@     assert forall|x: int| 0 <= x < self.vertices@.len() implies #[trigger] exc(self.vertices@, x) == exc(old(self).vertices@, x) && (x != vx_i ==> lab(self.vertices@, x) == lab(vx_g.vertices@, x)) by { assert(exc(vx_g.vertices@, x) == exc(old(self).vertices@, x)); if x != vx_i { assert(self.vertices@[x] == vx_g.vertices@[x]); } }
//@     assert forall|x: int| 0 <= x <= vx_i implies #[trigger] lab(self.vertices@, x) == self.not_reached by { if x < vx_i { assert(exc(self.vertices@, x) == exc(self.vertices@, x)); assert(lab(vx_g.vertices@, x) == self.not_reached); } }
//@ }
//@AFTER 0:
//@ let ghost vx_g0 = *self;
//@BEFORE 1:
//@ let ghost mut vx_ord: Seq<int> = seq![self.sink as int];
//@ let ghost mut vx_hd: int = 0;
//@ proof {
//@     assert(lab(old(self).vertices@, self.sink as int) == 0);
//@     assert(seen(old(self).vertices@, self.vertices@, vx_ord, 0));
//@     assert forall|x: int| 0 <= x < self.vertices@.len() && !vx_ord.contains(x) implies #[trigger] lab(self.vertices@, x) == self.not_reached by { if x == self.sink { assert(vx_ord[0] == x); } else { assert(self.vertices@[x] == vx_g0.vertices@[x]); assert(lab(vx_g0.vertices@, x) == self.not_reached); } }
//@     assert forall|x: int| 0 <= x < self.vertices@.len() implies #[trigger] exc(self.vertices@, x) == exc(old(self).vertices@, x) by { assert(exc(vx_g0.vertices@, x) == exc(old(self).vertices@, x)); if x != self.sink { assert(self.vertices@[x] == vx_g0.vertices@[x]); } }
//@     assert forall|x: int| #[trigger] vx_ord.contains(x) implies x == self.sink by {}
//@     assert(bfs(*old(self), *self, vx_ord, vx_hd));
//@ }
//@LOOP 1:
//@ invariant inv(*old(self)), labels0(*old(self)), bfs(*old(self), *self, vx_ord, vx_hd), alldone(self.residual_network@, self.vertices@, vx_ord, vx_hd),
//@     vx_hd < vx_ord.len() ==> flat(self.vertices@, vx_ord, lab(self.vertices@, vx_ord[vx_hd]) + 1),
//@ decreases self.vertices@.len() - vx_hd,
//@LOOPSTART 1:
//@ proof { lemma_bfs_len(*old(self), *self, vx_ord, vx_hd); assert(seen(old(self).vertices@, self.vertices@, vx_ord, vx_hd)); }
//@LOCAL v[0] /dist_queue\.pop_front/
//@LOCAL d[1] /dist_queue\.pop_front/
//@BEFORE 2:
//@ proof { vx_hd = vx_hd + 1; assert(bfs(*old(self), *self, vx_ord, vx_hd)); }
//@LOOP 2:
//@ invariant inv(*old(self)), labels0(*old(self)), bfs(*old(self), *self, vx_ord, vx_hd), 1 <= vx_hd, v == vx_ord[vx_hd - 1], d == lab(self.vertices@, v as int),
//@     vx_len == self.residual_network@[v as int]@.len(), v < self.vertices@.len(), alldone(self.residual_network@, self.vertices@, vx_ord, vx_hd - 1), flat(self.vertices@, vx_ord, d + 1), forall|j: int| 0 <= j < vx_i ==> #[trigger] done(self.residual_network@, self.vertices@, v as int, j),
//@LOOPSTART 2:
//@ let ghost vx_g = *self;
//@ let ghost vx_u = ds(self.residual_network@, v as int, vx_i as int);
//@ proof { assert(inr(self.residual_network@, v as int, vx_i as int)); assert(ok_arc(self.residual_network@, v as int, vx_i as int)); assert(ok_arc(self.residual_network@, vx_u, rv(self.residual_network@, v as int, vx_i as int))); assert(seen(old(self).vertices@, self.vertices@, vx_ord, vx_hd - 1)); lemma_bfs_len(*old(self), *self, vx_ord, vx_hd); }
//@LOOPEND 2:
//@ proof {
//@     let vx_c = cp(vx_g.residual_network@, vx_u, rv(vx_g.residual_network@, v as int, vx_i as int)) > 0;
//@     if vx_c && lab(vx_g.vertices@, vx_u) == vx_g.not_reached {
//@         lemma_visit(*old(self), vx_g, *self, vx_ord, vx_hd, vx_i as int);
//@         vx_ord = vx_ord.push(vx_u);
//@     } else {
//@         assert(*self == vx_g);
//@         if vx_c { assert(vx_ord.contains(vx_u)); assert(vx_ord[vx_ord.index_of(vx_u)] == vx_u); }
//@         assert(done(self.residual_network@, self.vertices@, v as int, vx_i as int));
//@     }
//@ }
//@AFTER 2:
//@ proof {
//@     assert forall|vx_a: int, vx_b: int| 0 <= vx_a < vx_hd && inr(self.residual_network@, vx_ord[vx_a], vx_b) implies #[trigger] done(self.residual_network@, self.vertices@, vx_ord[vx_a], vx_b) by {
//@         if vx_a == vx_hd - 1 { assert(vx_ord[vx_a] == v); assert(done(self.residual_network@, self.vertices@, v as int, vx_b)); } }
//@     if vx_hd < vx_ord.len() { assert(lab(self.vertices@, vx_ord[vx_hd - 1]) <= lab(self.vertices@, vx_ord[vx_hd])); }
//@ }
//@AFTER 1:
//@ proof { lemma_bfs_end(*old(self), *self, vx_ord); lemma_relabelled(*old(self), *self); }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs MaxFlow for PushRelabelFifo::find_max_flow ()
//@ requires inv(*old(self)), labels0(*old(self)), old(self).relabel_progress < 2 * old(self).relabel_threshold,
//@ ensures inv(*final(self)), labels(*final(self)), consts(*old(self), *final(self)), conserved(*old(self), *final(self)), tight(final(self).vertices@), final(self).relabel_progress < 2 * final(self).relabel_threshold,
//@     forall|v: int| !#[trigger] active(final(self).vertices@, v),
//@LOOP 0:
//@ invariant inv(*self), labels(*self), consts(*old(self), *self), conserved(*old(self), *self), queued(*self, -1), self.relabel_progress < 2 * self.relabel_threshold,
//@ decreases room(self.vertices@, self.vertices@.len() as int), phi(self.vertices@, -1, bb(self.residual_network@), self.vertices@.len() as int),
//@LOOPSTART 0:
//@ let ghost vx_g = *self;
//@ proof { assert(self.queue@.contains(self.queue@[0])); }
//@LOOPEND 0:
//@ proof {
//@     lemma_tlen(self.residual_network@, 0, self.residual_network@.len() as int);
//@     lemma_phi_out(*self, 0, bb(self.residual_network@), self.vertices@.len() as int);
//@     lemma_room(self.vertices@, self.vertices@, self.vertices@.len() as int);
//@     lemma_tlen_same(self.residual_network@, vx_g.residual_network@, self.residual_network@.len() as int);
//@     assert(less(bb(vx_g.residual_network@), self.vertices@, vx_g.vertices@));
//@ }
//@AFTER 0:
//@ let ghost vx_e = *self;
//@ proof { assert forall|v: int| !#[trigger] active(self.vertices@, v) by { if active(self.vertices@, v) { assert(self.queue@.contains(v as usize)); } } }
//@END:
//@ proof { assert forall|v: int| !#[trigger] active(self.vertices@, v) by { if 0 <= v < self.vertices@.len() { assert(exc(self.vertices@, v) == exc(vx_e.vertices@, v)); assert(lab(vx_e.vertices@, v) <= lab(self.vertices@, v)); assert(!active(vx_e.vertices@, v)); } } }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs MaxFlow for PushRelabelFifo::is_sink (i) -> res
//@ requires i < self.vertices@.len(),
//@ ensures res <==> lab(self.vertices@, i as int) != self.not_reached,
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs PushRelabelFifo::init ()
//@ requires dims(*old(self)), shape(old(self).residual_network@), tlen(old(self).residual_network@, old(self).residual_network@.len() as int) <= 0x400_0000_0000, forall|v: int| 0 <= v < old(self).vertices@.len() ==> #[trigger] exc(old(self).vertices@, v) == 0,
//@ ensures inv(*final(self)), same_labels(*old(self), *final(self)), final(self).vertices@.len() == old(self).vertices@.len(), final(self).relabel_progress == old(self).relabel_progress,
//@     forall|t: Cut| !t(0) ==> #[trigger] total(final(self).residual_network@, final(self).vertices@, t) == tot(old(self).residual_network@, zeros(old(self).vertices@.len() as int), t, old(self).vertices@.len() as int),
//@START:
//@ proof { assert(exs(self.vertices@) =~= zeros(self.vertices@.len() as int)) by { assert forall|v: int| 0 <= v < self.vertices@.len() implies exs(self.vertices@)[v] == 0 by { assert(exc(self.vertices@, v) == 0); } } }
//@ let ghost vx_tl = tlen(self.residual_network@, self.residual_network@.len() as int);
//@LOOP 0 (i):
//@ invariant ginit(*self, i as int), consts(*old(self), *self), same_labels(*old(self), *self), dims(*old(self)), self.relabel_progress == old(self).relabel_progress, self.residual_network@.len() > 0,
//@     self.residual_network@[0]@.len() == old(self).residual_network@[0]@.len(), old(self).source == 0,
//@     forall|t: Cut| !t(0) ==> #[trigger] total(self.residual_network@, self.vertices@, t) == total(old(self).residual_network@, old(self).vertices@, t),
//@LOOPSTART 0 (i):
//@ let ghost vx_g = *self;
//@ proof { assert(inr(self.residual_network@, 0, i as int)); assert(ok_arc(self.residual_network@, 0, i as int)); }
//@LOOPEND 0 (i):
//@ proof {
//@     if cp(vx_g.residual_network@, 0, i as int) > 0 {
//@         assert forall|j: int| 0 <= j < vx_g.residual_network@[0]@.len() implies #[trigger] vx_g.residual_network@[0]@[j].capacity.v() >= 0 by { assert(inr(vx_g.residual_network@, 0, j)); assert(ok_arc(vx_g.residual_network@, 0, j)); }
//@         if ds(vx_g.residual_network@, 0, i as int) == 0 { assert(ok_arc(vx_g.residual_network@, 0, rv(vx_g.residual_network@, 0, i as int))); }
//@         assert(opened(vx_g, *self, i as int)); lemma_open(vx_g, *self, i as int); }
//@     else {
//@         assert(self.residual_network@ == vx_g.residual_network@ && self.vertices@ == vx_g.vertices@);
//@         assert(dry(self.residual_network@, i as int));
//@         assert forall|v: int| 0 <= v < self.vertices@.len() implies #[trigger] exc(self.vertices@, v) >= 0 && (exc(self.vertices@, v) > 0 && v != 0 ==> touched(self.residual_network@, i + 1, v)) by { if exc(self.vertices@, v) > 0 && v != 0 { assert(touched(self.residual_network@, i as int, v)); let j = choose|j: int| 0 <= j < i && #[trigger] ds(self.residual_network@, 0, j) == v; assert(ds(self.residual_network@, 0, j) == v); } }
//@     }
//@ }
//@AFTER 0:
//@ proof { lemma_tlen_same(old(self).residual_network@, self.residual_network@, self.residual_network@.len() as int); }
//@ENDFN
//@FN src/graphcut/push_relabel_fifo.rs From for PushRelabelFifo::from (data) -> res
//@ requires 2 <= data.1 <= 0x100_0000_0000, data.0@.len() <= 0x100_0000_0000, forall|k: int| 0 <= k < data.0@.len() ==> #[trigger] arc_ok(data.0@, data.1 as int, k),
//@ ensures inv(res), labels0(res), res.relabel_progress < 2 * res.relabel_threshold, res.vertices@.len() == data.1,
//@     forall|t: Cut| !t(0) ==> #[trigger] total(res.residual_network@, res.vertices@, t) == acut(data.0@, t, data.0@.len() as int),
//@SIGSUB /\(U, usize\)/ => (Vec<(usize, usize, VxNum)>, usize)
//@LOCAL arcs[0] /= data/
//@LOCAL n_nodes[1] /= data/
//@LOCAL edges /Vec<\(usize, T\)>/
//@LOCAL edge_map /HashMap/
//@LOCAL residual_network /= vec!\[Vec/
//@LOOP 0:
//@ invariant arcs@ == data.0@, n_nodes == data.1, arcs@.len() <= 0x100_0000_0000, forall|k: int| 0 <= k < arcs@.len() ==> #[trigger] arc_ok(arcs@, n_nodes as int, k),
//@     einv(edges@, edge_map@, arcs@, vx_i as int, n_nodes as int),
//@LOOPSTART 0:
//@ let ghost vx_e = edges@; let ghost vx_m = edge_map@; let ghost vx_f = arcs@[vx_i as int].0; let ghost vx_t = arcs@[vx_i as int].1;
//@ proof { assert(arc_ok(arcs@, n_nodes as int, vx_i as int)); assert(link(edges@, edge_map@, vx_f as int, vx_t)); assert(link(edges@, edge_map@, vx_t as int, vx_f)); assert(edge_map@[vx_f as int].ok()); assert(edge_map@[vx_t as int].ok());
//@     if edge_map@[vx_f as int]@.contains_key(vx_t) { assert(pair_ok(edges@, edge_map@, edge_map@[vx_f as int]@[vx_t] as int / 2)); } }
//@LOOPEND 0:
//@ proof {
//@     if vx_m[vx_f as int]@.contains_key(vx_t) { lemma_eadd(vx_e, edges@, vx_m, arcs@, vx_i as int, n_nodes as int, vx_m[vx_f as int]@[vx_t] as int); }
//@     else if vx_m[vx_t as int]@.contains_key(vx_f) { lemma_eadd(vx_e, edges@, vx_m, arcs@, vx_i as int, n_nodes as int, vx_m[vx_t as int]@[vx_f] as int + 1); }
//@     else { lemma_enew(vx_e, edges@, vx_m, edge_map@, arcs@, vx_i as int, n_nodes as int); }
//@ }
//@BEFORE 1:
//@ proof {
//@     assert forall|t: Cut| #[trigger] tot(residual_network@, zeros(n_nodes as int), t, n_nodes as int) == ecut(edges@, t, 0) by { lemma_tot_empty(residual_network@, t, n_nodes as int, n_nodes as int); }
//@     lemma_tlen_empty(residual_network@, n_nodes as int);
//@     assert forall|u: int, i: int| !#[trigger] inr(residual_network@, u, i) by {}
//@     assert(ninv(residual_network@, edges@, n_nodes as int, 0));
//@ }
//@LOOP 1:
//@ invariant einv(edges@, edge_map@, arcs@, arcs@.len() as int, n_nodes as int), arcs@.len() <= 0x100_0000_0000, vx_len == edges@.len() / 2, ninv(residual_network@, edges@, n_nodes as int, vx_i as int),
//@LOOPSTART 1:
//@ let ghost vx_n0 = residual_network@;
//@ proof { assert(pair_ok(edges@, edge_map@, vx_i as int)); }
//@LOOPEND 1:
//@ proof {
//@     let vx_y = edges@[2 * vx_i].0 as int; let vx_x = edges@[2 * vx_i + 1].0 as int;
//@     let vx_ra = residual_network@[vx_x]@; let vx_a = vx_ra[vx_n0[vx_x]@.len() as int];
//@     let vx_rb = residual_network@[vx_y]@; let vx_b = vx_rb[vx_rb.len() - 1];
//@     lemma_chunk(vx_n0, residual_network@, edges@, edge_map@, arcs@, n_nodes as int, vx_i as int, vx_a, vx_b);
//@ }
//@AFTER 1:
//@ let ghost vx_net = residual_network@;
//@END:
//@ proof {
//@     assert forall|t: Cut| !t(0) implies #[trigger] total(res.residual_network@, res.vertices@, t) == acut(data.0@, t, data.0@.len() as int) by {
//@         assert(total(res.residual_network@, res.vertices@, t) == tot(vx_net, zeros(n_nodes as int), t, n_nodes as int)); assert(ecut(edges@, t, edges@.len() as int / 2) == acut(arcs@, t, arcs@.len() as int)); }
//@ }
//@ENDFN
}
// ---- the theorem ----
proof fn lemma_tot_empty(net: Net, t: Cut, n: int, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] net[i]@ =~= Seq::empty(), k <= n,
    ensures tot(net, zeros(n), t, k) == 0,
    decreases k
{ if k > 0 { lemma_tot_empty(net, t, n, k - 1); assert(net[k - 1]@ =~= Seq::empty()); } }
proof fn lemma_tlen_empty(net: Net, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] net[i]@ =~= Seq::empty(),
    ensures tlen(net, k) == 0,
    decreases k
{ if k > 0 { lemma_tlen_empty(net, k - 1); assert(net[k - 1]@ =~= Seq::empty()); } }
proof fn lemma_row_zero(l: Seq<Arc>, t: Cut, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < k ==> t((#[trigger] l[i]).dist as int) ==> l[i].capacity.v() == 0,
    ensures row(l, t, k) == 0,
    decreases k
{ if k > 0 { lemma_row_zero(l, t, k - 1); } }
proof fn lemma_row_nonneg(l: Seq<Arc>, t: Cut, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).capacity.v() >= 0,
    ensures row(l, t, k) >= 0,
    decreases k
{ if k > 0 { lemma_row_nonneg(l, t, k - 1); } }
proof fn lemma_tot_single(net: Net, e: Seq<int>, t: Cut, s: int, k: int)
    requires 0 <= s, forall|u: int| 0 <= u < k && u != s ==> #[trigger] part(net, e, t, u) == 0,
    ensures tot(net, e, t, k) == (if s < k { part(net, e, t, s) } else { 0 }),
    decreases k
{ if k > 0 { lemma_tot_single(net, e, t, s, k - 1); if k - 1 != s { assert(part(net, e, t, k - 1) == 0); } } }
proof fn lemma_tot_least(net: Net, e: Seq<int>, t: Cut, s: int, k: int)
    requires 0 <= s, forall|u: int| 0 <= u < k ==> #[trigger] part(net, e, t, u) >= 0,
    ensures tot(net, e, t, k) >= (if s < k { part(net, e, t, s) } else { 0 }),
    decreases k
{ if k > 0 { lemma_tot_least(net, e, t, s, k - 1); assert(part(net, e, t, k - 1) >= 0); if s < k - 1 { assert(part(net, e, t, s) >= 0); } else { lemma_tot_least(net, e, t, k, k - 1); } } }
spec fn separates(t: Cut, n: int) -> bool { !t(0) && t(n - 1) }
// the sink side is a cut, of least capacity
proof fn theorem_min_cut(g: P, arcs: Seq<(usize, usize, VxNum)>)
    requires inv(g), labels(g), tight(g.vertices@), forall|v: int| !#[trigger] active(g.vertices@, v),
        forall|t: Cut| !t(0) ==> #[trigger] total(g.residual_network@, g.vertices@, t) == acut(arcs, t, arcs.len() as int),
    ensures ({ let side = |v: int| 0 <= v < g.vertices@.len() && lab(g.vertices@, v) != g.not_reached;
        &&& separates(side, g.vertices@.len() as int)
        &&& acut(arcs, side, arcs.len() as int) == exc(g.vertices@, g.sink as int)
        &&& forall|t: Cut| separates(t, g.vertices@.len() as int) ==> acut(arcs, side, arcs.len() as int) <= #[trigger] acut(arcs, t, arcs.len() as int) }),
{
    let vs = g.vertices@; let net = g.residual_network@; let n = vs.len() as int; let e = exs(vs);
    let side = |v: int| 0 <= v < n && lab(vs, v) != g.not_reached;
    assert(lab(vs, 0) == n && lab(vs, n - 1) == 0);
    assert forall|u: int| 0 <= u < n && u != n - 1 implies #[trigger] part(net, e, side, u) == 0 by {
        if side(u) { assert(!active(vs, u)); assert(exc(vs, u) >= 0); assert(lab(vs, u) <= n); }
        else {
            assert forall|i: int| 0 <= i < net[u]@.len() implies (!side((#[trigger] net[u]@[i]).dist as int) || net[u]@[i].capacity.v() == 0) by {
                assert(inr(net, u, i)); assert(ok_arc(net, u, i)); assert(ok_lab(net, vs, u, i)); let w = ds(net, u, i); assert(lab(vs, w) == n || lab(vs, w) <= n - 2); }
            lemma_row_zero(net[u]@, side, net[u]@.len() as int);
        }
    }
    lemma_tot_single(net, e, side, n - 1, n);
    assert(total(net, vs, side) == acut(arcs, side, arcs.len() as int));
    assert forall|t: Cut| separates(t, n) implies acut(arcs, side, arcs.len() as int) <= #[trigger] acut(arcs, t, arcs.len() as int) by {
        assert(total(net, vs, t) == acut(arcs, t, arcs.len() as int));
        assert forall|u: int| 0 <= u < n implies #[trigger] part(net, e, t, u) >= 0 by {
            if t(u) { assert(exc(vs, u) >= 0); }
            else { assert forall|i: int| 0 <= i < net[u]@.len() implies (#[trigger] net[u]@[i]).capacity.v() >= 0 by { assert(inr(net, u, i)); assert(ok_arc(net, u, i)); } lemma_row_nonneg(net[u]@, t, net[u]@.len() as int); }
        }
        lemma_tot_least(net, e, t, n - 1, n);
    }
}
// the use a caller makes of it
fn vx_client(arcs: Vec<(usize, usize, VxNum)>, n: usize, Ghost(given): Ghost<Seq<(usize, usize, VxNum)>>) -> (side: Vec<bool>)
    requires 2 <= n <= 0x100_0000_0000, arcs@ == given, given.len() <= 0x100_0000_0000, forall|k: int| 0 <= k < given.len() ==> #[trigger] arc_ok(given, n as int, k),
    ensures side@.len() == n, separates(|v: int| 0 <= v < n && side@[v], n as int),
        forall|t: Cut| separates(t, n as int) ==> acut(given, |v: int| 0 <= v < n && side@[v], given.len() as int) <= #[trigger] acut(given, t, given.len() as int),
{
    let mut g = PushRelabelFifo::from((arcs, n));
    let ghost g0 = g;
    g.find_max_flow();
    let mut side: Vec<bool> = Vec::new();
    for i in 0..n
        invariant side@.len() == i, g.vertices@.len() == n, forall|j: int| 0 <= j < i ==> side@[j] == (#[trigger] lab(g.vertices@, j) != g.not_reached),
    { let b = g.is_sink(i); side.push(b); }
    proof {
        assert forall|t: Cut| !t(0) implies #[trigger] total(g.residual_network@, g.vertices@, t) == acut(given, t, given.len() as int) by { assert(total(g0.residual_network@, g0.vertices@, t) == acut(given, t, given.len() as int)); }
        theorem_min_cut(g, given);
        let a = |v: int| 0 <= v < g.vertices@.len() && lab(g.vertices@, v) != g.not_reached;
        let b = |v: int| 0 <= v < n && side@[v];
        assert forall|v: int| #[trigger] a(v) == b(v) by { if 0 <= v < n { assert(side@[v] == (lab(g.vertices@, v) != g.not_reached)); } }
        assert(a =~= b);
    }
    side
}
}
fn main() {}
