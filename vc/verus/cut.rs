use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@TRUST f64 capacities (stand-in VxNum) add, subtract, negate and compare exactly (no rounding, no NaN, no infinity)
//@TRUST the iteration counter `time` stays below 2^62
//@TRUST vec![x; n], zip, map and iter_mut have their documented meaning (verified loops stand in for them)
//@OPAQUE inv base kept okarc nodes lists arcs ver bnd comp_t noorp flowed cut queues orphans middle
//@GSUB /\bf64\b/ => VxNum
//@GSUB /\b(\d+)\.0\b/ => vx_num(\1)
//@GSUB /vec!\[\s*([^;\]]*);\s*(\w+)\s*\]/ => vx_fill(\1, \2)
//@GSUB /self\.time \+= 1;/ => self.time = vx_tick(self.time);
//@GSUB /for \((\w+), &(\w+)\) in self\.(\w+)\.iter_mut\(\)\.zip\(&self\.(\w+)\)\s*(\x01\d+\x02)\{/ => let vx_len = vx_min(self.\3.len(), self.\4.len()); let mut vx_i: usize = 0; while vx_i < vx_len \5{ let \2 = self.\4[vx_i]; let \1 = &mut self.\3[vx_i]; vx_i = vx_i + 1;
//@GSUB /\*(\w+) &= ([^;]*);/ => *\1 = *\1 && (\2);
// ---- stand-ins ----
#[verifier::external_body]
pub struct VxNum { x: f64 }
impl Copy for VxNum {}
impl Clone for VxNum { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxNum { pub uninterp spec fn v(self) -> int; }
impl PartialEqSpecImpl for VxNum {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &VxNum) -> bool { self.v() == other.v() }
}
impl PartialEq for VxNum {
    #[verifier::external_body]
    fn eq(&self, other: &VxNum) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for VxNum {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &VxNum) -> Option<Ordering> { if self.v() < other.v() { Some(Ordering::Less) } else if self.v() == other.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for VxNum {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &VxNum) -> Option<Ordering> { unimplemented!() }
}
impl AddAssignSpecImpl<VxNum> for VxNum {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: VxNum) -> bool { true }
    open spec fn add_assign_spec(&self, o: VxNum) -> &VxNum { self }
}
impl std::ops::AddAssign for VxNum {
    #[verifier::external_body]
    fn add_assign(&mut self, o: VxNum) ensures final(self).v() == old(self).v() + o.v() { unimplemented!() }
}
impl SubAssignSpecImpl<VxNum> for VxNum {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: VxNum) -> bool { true }
    open spec fn sub_assign_spec(&self, o: VxNum) -> &VxNum { self }
}
impl std::ops::SubAssign for VxNum {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: VxNum) ensures final(self).v() == old(self).v() - o.v() { unimplemented!() }
}
impl SubSpecImpl<VxNum> for VxNum {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: VxNum) -> bool { true }
    open spec fn sub_spec(self, o: VxNum) -> VxNum { self }
}
impl std::ops::Sub for VxNum {
    type Output = VxNum;
    #[verifier::external_body]
    fn sub(self, o: VxNum) -> (r: VxNum) ensures r.v() == self.v() - o.v() { unimplemented!() }
}
impl AddSpecImpl<VxNum> for VxNum {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: VxNum) -> bool { true }
    open spec fn add_spec(self, o: VxNum) -> VxNum { self }
}
impl std::ops::Add for VxNum {
    type Output = VxNum;
    #[verifier::external_body]
    fn add(self, o: VxNum) -> (r: VxNum) ensures r.v() == self.v() + o.v() { unimplemented!() }
}
impl NegSpecImpl for VxNum {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> VxNum { self }
}
impl std::ops::Neg for VxNum {
    type Output = VxNum;
    #[verifier::external_body]
    fn neg(self) -> (r: VxNum) ensures r.v() == -self.v() { unimplemented!() }
}
#[verifier::external_body]
fn vx_num(i: i32) -> (r: VxNum) ensures r.v() == i { unimplemented!() }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
fn vx_tick(a: usize) -> (r: usize) ensures r == a + 1, r < 0x4000_0000_0000_0000 { unimplemented!() }
fn vx_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x,
    { v.push(x); }
    v
}
// ---- the real data structures ----
//@CONST src/lib.rs INVALID_IND
//@CONST src/graphcut/mod.rs ORPHAN
//@CONST src/graphcut/mod.rs TERMINAL
//@STRUCT src/graphcut/mod.rs Arc
//@STRUCT src/graphcut/mod.rs GraphCut
// ---- specification ----
// the part of the solver that describes the residual network and the two search trees
ghost struct C { a: Seq<Arc>, f: Seq<usize>, pr: Seq<usize>, sk: Seq<bool>, tr: Seq<VxNum>, ts: Seq<usize>, ds: Seq<usize>, t: int }
spec fn core(g: GraphCut) -> C { C { a: g.arcs@, f: g.first_arc@, pr: g.parent@, sk: g.is_sink@, tr: g.tr_cap@, ts: g.ts@, ds: g.dist@, t: g.time as int } }
spec fn room(n: int) -> bool { 0 <= n < 0x2000_0000_0000_0000 }
spec fn isa(a: Seq<Arc>, k: int) -> bool { 0 <= k < a.len() }
spec fn hd(a: Seq<Arc>, k: int) -> int { a[k].head as int }
spec fn ss(a: Seq<Arc>, k: int) -> int { a[k].sister as int }
spec fn rc(a: Seq<Arc>, k: int) -> int { a[k].r_cap.v() }
spec fn tl(a: Seq<Arc>, k: int) -> int { hd(a, ss(a, k)) }
spec fn okarc(a: Seq<Arc>, n: int, k: int) -> bool { hd(a, k) < n && isa(a, ss(a, k)) && ss(a, ss(a, k)) == k && ss(a, k) != k && rc(a, k) >= 0 }
spec fn arcs(a: Seq<Arc>, n: int) -> bool { room(a.len() as int) && forall|k: int| isa(a, k) ==> #[trigger] okarc(a, n, k) }
spec fn okfirst(a: Seq<Arc>, f: Seq<usize>, v: int) -> bool { f[v] == INVALID_IND || isa(a, f[v] as int) && tl(a, f[v] as int) == v }
spec fn oknext(a: Seq<Arc>, f: Seq<usize>, k: int) -> bool {
    &&& f[tl(a, k)] != INVALID_IND && k <= f[tl(a, k)]
    &&& a[k].next == INVALID_IND || a[k].next < k && tl(a, a[k].next as int) == tl(a, k)
}
spec fn between(a: Seq<Arc>, j: int, k: int) -> bool { tl(a, j) == tl(a, k) ==> a[k].next != INVALID_IND && j <= a[k].next }
spec fn lists(a: Seq<Arc>, f: Seq<usize>, n: int) -> bool {
    &&& f.len() == n
    &&& forall|v: int| 0 <= v < n ==> #[trigger] okfirst(a, f, v)
    &&& forall|k: int| isa(a, k) ==> #[trigger] oknext(a, f, k)
    &&& forall|j: int, k: int| 0 <= j < k < a.len() ==> #[trigger] between(a, j, k)
}
spec fn base(c: C) -> bool {
    let n = c.pr.len() as int;
    &&& room(n) && 0 <= c.t < 0x4000_0000_0000_0000
    &&& c.sk.len() == n && c.tr.len() == n && c.ts.len() == n && c.ds.len() == n
    &&& arcs(c.a, n) && lists(c.a, c.f, n)
}
spec fn arcp(c: C, v: int) -> bool { isa(c.a, c.pr[v] as int) }
spec fn par(c: C, v: int) -> int { hd(c.a, c.pr[v] as int) }
// the residual capacity that joins a node to its parent
spec fn upa(c: C, s: bool, k: int) -> int { if s { rc(c.a, k) } else { rc(c.a, ss(c.a, k)) } }
spec fn up(c: C, v: int) -> int { upa(c, c.sk[v], c.pr[v] as int) }
spec fn less(c: C, p: int, v: int) -> bool { c.ts[p] > c.ts[v] || c.ts[p] == c.ts[v] && c.ds[p] < c.ds[v] }
spec fn lim(k: usize) -> int { if k == INVALID_IND { -1 } else { k as int } }
spec fn edge(c: C, x: int, l: int, v: int) -> bool {
    let p = par(c, v);
    &&& tl(c.a, c.pr[v] as int) == v && (c.pr[p] != INVALID_IND || p == x && ss(c.a, c.pr[v] as int) <= l)
    &&& c.sk[p] == c.sk[v] && up(c, v) > 0 && less(c, p, v)
}
spec fn node(c: C, x: int, l: int, v: int) -> bool {
    &&& c.ts[v] <= c.t && c.ds[v] >= 1
    &&& c.pr[v] == TERMINAL || c.tr[v].v() == 0
    &&& c.pr[v] == TERMINAL ==> c.ds[v] == 1 && (if c.sk[v] { c.tr[v].v() < 0 } else { c.tr[v].v() > 0 })
    &&& c.pr[v] == INVALID_IND || c.pr[v] == ORPHAN || c.pr[v] == TERMINAL || arcp(c, v)
    &&& arcp(c, v) ==> edge(c, x, l, v)
}
spec fn nodes(c: C, x: int, l: int) -> bool { forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] node(c, x, l, v) }
spec fn inv(c: C) -> bool { base(c) && nodes(c, -1, -1) }
spec fn noorp(c: C) -> bool { forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] c.pr[v] != ORPHAN }
spec fn bnd(c: C, m: int) -> bool { forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] c.ds[v] <= m }
// nodes whose path to the terminal was checked during this adoption phase
spec fn verd(c: C, v: int) -> bool { c.ts[v] == c.t ==> c.pr[v] == TERMINAL || arcp(c, v) && c.ts[par(c, v)] == c.t && c.ds[v] == c.ds[par(c, v)] + 1 }
spec fn ver(c: C) -> bool { forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] verd(c, v) }
// passive tree nodes have no residual arc that leaves their tree
spec fn out(c: C, b: int) -> int { if c.sk[tl(c.a, b)] { rc(c.a, ss(c.a, b)) } else { rc(c.a, b) } }
spec fn carc(c: C, nx: Seq<usize>, b: int) -> bool {
    let v = tl(c.a, b); let w = hd(c.a, b);
    c.pr[v] != INVALID_IND && nx[v] == INVALID_IND && out(c, b) > 0 ==> c.pr[w] != INVALID_IND && c.sk[w] == c.sk[v]
}
spec fn comp_t(c: C, nx: Seq<usize>, x: int, l: int) -> bool { nx.len() == c.pr.len() && forall|b: int| isa(c.a, b) && !(tl(c.a, b) == x && b <= l) ==> #[trigger] carc(c, nx, b) }
spec fn comp_h(c: C, nx: Seq<usize>, x: int, l: int) -> bool { nx.len() == c.pr.len() && forall|b: int| isa(c.a, b) && !(hd(c.a, b) == x && c.sk[tl(c.a, b)] == c.sk[x] && ss(c.a, b) <= l) ==> #[trigger] carc(c, nx, b) }
spec fn comp(c: C, nx: Seq<usize>) -> bool { comp_t(c, nx, -1, -1) }
// an arc with residual capacity from the source tree to the sink tree
spec fn middle(c: C, m: int) -> bool {
    let v = tl(c.a, m); let w = hd(c.a, m);
    isa(c.a, m) && rc(c.a, m) > 0 && !c.sk[v] && c.pr[v] != INVALID_IND && c.sk[w] && c.pr[w] != INVALID_IND
}
// ---- the residual capacity of a cut (s: which nodes lie on the sink side) ----
spec fn cross(a: Seq<Arc>, s: Seq<bool>, j: int) -> int { if !s[tl(a, j)] && s[hd(a, j)] { rc(a, j) } else { 0 } }
spec fn asum(a: Seq<Arc>, s: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { asum(a, s, k - 1) + cross(a, s, k - 1) } }
spec fn tcap(x: int, s: bool) -> int { if s { if x > 0 { x } else { 0 } } else { if x < 0 { -x } else { 0 } } }
spec fn tsum(tr: Seq<VxNum>, s: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { tsum(tr, s, k - 1) + tcap(tr[k - 1].v(), s[k - 1]) } }
spec fn cut(a: Seq<Arc>, tr: Seq<VxNum>, s: Seq<bool>) -> int { asum(a, s, a.len() as int) + tsum(tr, s, tr.len() as int) }
spec fn bz(b: int, s: Seq<bool>, v: int) -> int { if s[v] { b } else { 0 } }
spec fn shape(a: Seq<Arc>, b: Seq<Arc>) -> bool { a.len() == b.len() && forall|k: int| isa(a, k) ==> (#[trigger] b[k]).head == a[k].head && b[k].sister == a[k].sister && b[k].next == a[k].next }
proof fn lemma_asum(a: Seq<Arc>, b: Seq<Arc>, s: Seq<bool>, p: int, d: int, n: int, k: int)
    requires arcs(a, n), shape(a, b), isa(a, p), rc(b, p) == rc(a, p) - d, rc(b, ss(a, p)) == rc(a, ss(a, p)) + d, 0 <= k <= a.len(),
        forall|j: int| isa(a, j) && j != p && j != ss(a, p) ==> #[trigger] rc(b, j) == rc(a, j),
    ensures asum(b, s, k) == asum(a, s, k) - (if p < k && !s[tl(a, p)] && s[hd(a, p)] { d } else { 0 }) + (if ss(a, p) < k && !s[hd(a, p)] && s[tl(a, p)] { d } else { 0 }),
    decreases k,
{
    if k > 0 {
        lemma_asum(a, b, s, p, d, n, k - 1);
        assert(okarc(a, n, k - 1)); assert(okarc(a, n, p)); assert(b[k - 1].head == a[k - 1].head); assert(b[ss(a, k - 1)].head == a[ss(a, k - 1)].head);
        assert(rc(b, k - 1) == if k - 1 == p { rc(a, k - 1) - d } else if k - 1 == ss(a, p) { rc(a, k - 1) + d } else { rc(a, k - 1) });
    }
}
proof fn lemma_tsum(tr: Seq<VxNum>, tr2: Seq<VxNum>, s: Seq<bool>, v: int, k: int)
    requires 0 <= v < tr.len(), tr2.len() == tr.len(), forall|j: int| 0 <= j < tr.len() && j != v ==> #[trigger] tr2[j] == tr[j], 0 <= k <= tr.len(),
    ensures tsum(tr2, s, k) == tsum(tr, s, k) + (if v < k { tcap(tr2[v].v(), s[v]) - tcap(tr[v].v(), s[v]) } else { 0 }),
    decreases k,
{ if k > 0 { lemma_tsum(tr, tr2, s, v, k - 1); } }
proof fn lemma_cut_nonneg(a: Seq<Arc>, n: int, tr: Seq<VxNum>, s: Seq<bool>, j: int, k: int)
    requires arcs(a, n), 0 <= j <= a.len(), 0 <= k <= tr.len(),
    ensures asum(a, s, j) >= 0, tsum(tr, s, k) >= 0,
    decreases j, k,
{
    if j > 0 { lemma_cut_nonneg(a, n, tr, s, j - 1, k); assert(okarc(a, n, j - 1)); }
    else if k > 0 { lemma_cut_nonneg(a, n, tr, s, j, k - 1); }
}
proof fn lemma_cut_zero(a: Seq<Arc>, tr: Seq<VxNum>, s: Seq<bool>, j: int, k: int)
    requires 0 <= j <= a.len(), 0 <= k <= tr.len(), forall|i: int| 0 <= i < j ==> #[trigger] cross(a, s, i) == 0, forall|i: int| 0 <= i < k ==> tcap(#[trigger] tr[i].v(), s[i]) == 0,
    ensures asum(a, s, j) == 0, tsum(tr, s, k) == 0,
    decreases j, k,
{
    if j > 0 { lemma_cut_zero(a, tr, s, j - 1, k); assert(cross(a, s, j - 1) == 0); }
    else if k > 0 { lemma_cut_zero(a, tr, s, j, k - 1); assert(tcap(tr[k - 1].v(), s[k - 1]) == 0); }
}
// ---- paths ----
spec fn step(c: C, p: Seq<int>, x: int) -> bool { arcp(c, p[x]) && par(c, p[x]) == p[x + 1] }
spec fn walk(c: C, p: Seq<int>, s: bool) -> bool {
    &&& p.len() >= 1
    &&& forall|x: int| 0 <= x < p.len() ==> 0 <= #[trigger] p[x] < c.pr.len() && c.pr[p[x]] != INVALID_IND && c.sk[p[x]] == s
    &&& forall|x: int| 0 <= x < p.len() - 1 ==> #[trigger] step(c, p, x)
}
proof fn lemma_walk_less(c: C, p: Seq<int>, s: bool, x: int, y: int)
    requires inv(c), walk(c, p, s), 0 <= x < y < p.len(),
    ensures less(c, p[y], p[x]),
    decreases y - x,
{
    assert(step(c, p, x)); assert(node(c, -1, -1, p[x])); assert(edge(c, -1, -1, p[x]));
    if y > x + 1 { lemma_walk_less(c, p, s, x + 1, y); }
}
proof fn lemma_short(s: Seq<int>, n: int)
    requires s.no_duplicates(), n >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
    ensures s.len() <= n,
{
    let r = Seq::new(n as nat, |i: int| i).to_set();
    assert(Seq::new(n as nat, |i: int| i).len() == n);
    Seq::new(n as nat, |i: int| i).lemma_cardinality_of_set();
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(r)) by { assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by { let i = s.index_of(x); assert(0 <= s[i] < n); assert(Seq::new(n as nat, |i: int| i)[x] == x); } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
proof fn lemma_walk_len(c: C, p: Seq<int>, s: bool)
    requires inv(c), walk(c, p, s),
    ensures p.no_duplicates(), p.len() <= c.pr.len(),
{
    assert forall|x: int, y: int| 0 <= x < p.len() && 0 <= y < p.len() && x != y implies p[x] != p[y] by { if x < y { lemma_walk_less(c, p, s, x, y); } else { lemma_walk_less(c, p, s, y, x); } }
    lemma_short(p, c.pr.len() as int);
}
proof fn lemma_walk_push(c: C, p: Seq<int>, s: bool, w: int)
    requires inv(c), walk(c, p, s), arcp(c, p.last()), w == par(c, p.last()),
    ensures walk(c, p.push(w), s), less(c, w, p.last()), 0 <= w < c.pr.len(),
{
    let q = p.push(w); let v = p.last();
    assert(p[p.len() - 1] == v); assert(node(c, -1, -1, v)); assert(edge(c, -1, -1, v)); assert(okarc(c.a, c.pr.len() as int, c.pr[v] as int));
    assert forall|x: int| 0 <= x < q.len() implies 0 <= #[trigger] q[x] < c.pr.len() && c.pr[q[x]] != INVALID_IND && c.sk[q[x]] == s by { if x < p.len() { assert(q[x] == p[x]); } }
    assert forall|x: int| 0 <= x < q.len() - 1 implies #[trigger] step(c, q, x) by { assert(q[x] == p[x]); if x < p.len() - 1 { assert(step(c, p, x)); } }
}
// the depth of a checked node is its distance
proof fn lemma_chain(c: C, v: int) -> (q: Seq<int>)
    requires inv(c), ver(c), 0 <= v < c.pr.len(), c.ts[v] == c.t,
    ensures q.len() == c.ds[v], forall|x: int| 0 <= x < q.len() ==> 0 <= #[trigger] q[x] < c.pr.len() && c.ds[q[x]] == x + 1,
    decreases c.ds[v],
{
    assert(verd(c, v)); assert(node(c, -1, -1, v));
    if c.pr[v] == TERMINAL { seq![v] } else {
        let p = par(c, v);
        assert(okarc(c.a, c.pr.len() as int, c.pr[v] as int));
        let q = lemma_chain(c, p); let r = q.push(v);
        assert forall|x: int| 0 <= x < r.len() implies 0 <= #[trigger] r[x] < c.pr.len() && c.ds[r[x]] == x + 1 by { if x < q.len() { assert(r[x] == q[x]); } }
        r
    }
}
proof fn lemma_depth(c: C, v: int)
    requires inv(c), ver(c), 0 <= v < c.pr.len(), c.ts[v] == c.t,
    ensures c.ds[v] <= c.pr.len(),
{ let q = lemma_chain(c, v); lemma_short(q, c.pr.len() as int); }
// ---- marking a checked path ----
spec fn same_net(c: C, d: C) -> bool { c.a == d.a && c.f == d.f && c.sk == d.sk && c.tr == d.tr && c.t == d.t }
spec fn hit(p: Seq<int>, m: int, v: int) -> bool { exists|x: int| 0 <= x < m && #[trigger] p[x] == v }
spec fn marked(c: C, d: C, p: Seq<int>, m: int, dd: int) -> bool {
    &&& same_net(c, d) && c.pr == d.pr && d.ts.len() == c.ts.len() && d.ds.len() == c.ds.len()
    &&& forall|x: int| 0 <= x < m ==> d.ts[#[trigger] p[x]] == c.t && d.ds[p[x]] == dd - x
    &&& forall|v: int| 0 <= v < c.pr.len() && !hit(p, m, v) ==> #[trigger] d.ts[v] == c.ts[v] && d.ds[v] == c.ds[v]
}
spec fn fresh(c: C, p: Seq<int>, k: int) -> bool { forall|x: int| 0 <= x < k ==> c.ts[#[trigger] p[x]] != c.t }
proof fn lemma_mark(c: C, d: C, e: C, p: Seq<int>, m: int, dd: int)
    requires marked(c, d, p, m, dd), 0 <= m < p.len(), 0 <= p[m] < c.pr.len(), d.pr.len() == d.ts.len(), d.pr.len() == d.ds.len(), dd - m >= 0, dd - m < usize::MAX, c.t < usize::MAX, c.t >= 0,
        same_net(d, e), e.pr == d.pr, e.ts =~= d.ts.update(p[m], c.t as usize), e.ds =~= d.ds.update(p[m], (dd - m) as usize), p.no_duplicates(),
    ensures marked(c, e, p, m + 1, dd),
{
    assert forall|x: int| 0 <= x < m + 1 implies e.ts[#[trigger] p[x]] == c.t && e.ds[p[x]] == dd - x by { if x < m { assert(p[x] != p[m]); assert(d.ts[p[x]] == c.t); } }
    assert forall|v: int| 0 <= v < c.pr.len() && !hit(p, m + 1, v) implies #[trigger] e.ts[v] == c.ts[v] && e.ds[v] == c.ds[v] by { assert(p[m] != v); assert(!hit(p, m, v)); assert(d.ts[v] == c.ts[v]); }
}
proof fn lemma_marked(c: C, d: C, p: Seq<int>, s: bool, dd: int)
    requires inv(c), ver(c), walk(c, p, s), p.no_duplicates(), fresh(c, p, p.len() - 1), c.ts[p.last()] == c.t, dd == p.len() - 1 + c.ds[p.last()], marked(c, d, p, p.len() - 1, dd),
        bnd(c, c.pr.len() + c.t),
    ensures inv(d), ver(d), bnd(d, c.pr.len() + c.t), dd <= c.pr.len(), d.ts[p[0]] == c.t, d.ds[p[0]] == dd,
        forall|v: int| 0 <= v < c.pr.len() && c.ts[v] == c.t ==> #[trigger] d.ts[v] == c.t && d.ds[v] == c.ds[v],
        forall|v: int| 0 <= v < c.pr.len() && d.ts[v] != c.t ==> #[trigger] d.ts[v] == c.ts[v],
{
    let k = p.len() - 1; let n = c.pr.len() as int;
    assert forall|v: int| 0 <= v < n && c.ts[v] == c.t implies #[trigger] d.ts[v] == c.t && d.ds[v] == c.ds[v] by { if hit(p, k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] p[x] == v; assert(c.ts[p[x]] != c.t); assert(false); } assert(!hit(p, p.len() - 1, v)); assert(d.ts[v] == c.ts[v]); assert(d.ds[v] == c.ds[v]); }
    assert(p[k] == p.last());
    assert forall|x: int| 0 <= x <= k implies d.ts[#[trigger] p[x]] == c.t && d.ds[p[x]] == dd - x by { if x == k { assert(d.ts[p[k]] == c.t); } }
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) && verd(d, v) by {
        assert(node(c, -1, -1, v)); assert(verd(c, v));
        if arcp(c, v) { assert(edge(c, -1, -1, v)); assert(okarc(c.a, n, c.pr[v] as int)); }
        if hit(p, k, v) {
            let x = choose|x: int| 0 <= x < k && #[trigger] p[x] == v;
            assert(step(c, p, x)); assert(d.ts[p[x + 1]] == c.t); assert(d.ds[p[x + 1]] == dd - (x + 1)); assert(node(c, -1, -1, p[k])); assert(c.pr[v] != TERMINAL);
            assert(up(d, v) == up(c, v)); assert(edge(d, -1, -1, v));
        } else {
            assert(!hit(p, p.len() - 1, v)); assert(d.ts[v] == c.ts[v]); assert(d.ds[v] == c.ds[v]);
            if arcp(c, v) {
                let q = par(c, v);
                assert(up(d, v) == up(c, v));
                if hit(p, k, q) {
                    let x = choose|x: int| 0 <= x < k && #[trigger] p[x] == q;
                    assert(c.ts[p[x]] != c.t); assert(d.ts[q] == c.t); assert(c.ts[v] != c.t); assert(less(d, q, v));
                } else { assert(d.ts[q] == c.ts[q] && d.ds[q] == c.ds[q]); assert(less(d, q, v)); }
                assert(edge(d, -1, -1, v));
            }
        }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] verd(d, v) by { assert(node(d, -1, -1, v)); }
    assert(p[0] == p[0]); 
    assert forall|v: int| 0 <= v < n implies #[trigger] d.ds[v] <= n + c.t by {
        if d.ts[v] == c.t { lemma_depth(d, v); } else { if hit(p, k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] p[x] == v; assert(d.ts[p[x]] == c.t); } assert(d.ts[v] == c.ts[v]); assert(c.ds[v] <= n + c.t); }
    }
    assert forall|v: int| 0 <= v < n && d.ts[v] != c.t implies #[trigger] d.ts[v] == c.ts[v] by { if hit(p, k, v) { let x = choose|x: int| 0 <= x < k && #[trigger] p[x] == v; assert(d.ts[p[x]] == c.t); } }
    lemma_depth(d, p[0]);
}
// a node next to the terminal is checked
spec fn rooted(c: C, j: int) -> C { C { ts: c.ts.update(j, c.t as usize), ds: c.ds.update(j, 1), ..c } }
proof fn lemma_rooted(c: C, j: int)
    requires inv(c), ver(c), 0 <= j < c.pr.len(), c.pr[j] == TERMINAL, bnd(c, c.pr.len() + c.t),
    ensures ({ let d = rooted(c, j); inv(d) && ver(d) && bnd(d, c.pr.len() + c.t) && d.ts[j] == c.t && d.ds[j] == 1
        && (forall|v: int| 0 <= v < c.pr.len() && c.ts[v] == c.t ==> #[trigger] d.ts[v] == c.t && d.ds[v] == c.ds[v])
        && (forall|v: int| 0 <= v < c.pr.len() && v != j ==> #[trigger] d.ts[v] == c.ts[v] && d.ds[v] == c.ds[v]) }),
{
    let d = rooted(c, j); let n = c.pr.len() as int;
    assert(node(c, -1, -1, j));
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) && verd(d, v) by {
        assert(node(c, -1, -1, v)); assert(verd(c, v));
        if arcp(c, v) {
            assert(edge(c, -1, -1, v)); assert(okarc(c.a, n, c.pr[v] as int));
            assert(up(d, v) == up(c, v)); assert(v != j); assert(edge(d, -1, -1, v));
        }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] verd(d, v) by { assert(node(d, -1, -1, v)); }
    assert forall|v: int| 0 <= v < n implies #[trigger] d.ds[v] <= n + c.t by { assert(c.ds[v] <= n + c.t); }
}
// ---- growing the trees ----
proof fn lemma_grow(c: C, d: C, nx: Seq<usize>, nx2: Seq<usize>, i: int, j: int, aid: int)
    requires inv(c), comp_t(c, nx, i, aid), isa(c.a, aid), tl(c.a, aid) == i, hd(c.a, aid) == j, out(c, aid) > 0, 0 <= i < c.pr.len(), c.pr[i] != INVALID_IND, c.pr[j] == INVALID_IND,
        c.ds[i] < usize::MAX,
        d.a == c.a, d.f == c.f, d.tr == c.tr, d.t == c.t, d.sk =~= c.sk.update(j, c.sk[i]), d.pr =~= c.pr.update(j, c.a[aid].sister), d.ts =~= c.ts.update(j, c.ts[i]), d.ds =~= c.ds.update(j, (c.ds[i] + 1) as usize),
        nx2.len() == nx.len(), nx2[j] != INVALID_IND, forall|v: int| 0 <= v < nx.len() && #[trigger] nx[v] != INVALID_IND ==> nx2[v] != INVALID_IND,
    ensures inv(d), comp_t(d, nx2, i, aid), carc(d, nx2, aid), noorp(c) ==> noorp(d), 0 <= j < c.pr.len(), j != i,
{
    let n = c.pr.len() as int;
    assert(okarc(c.a, n, aid)); assert(okarc(c.a, n, ss(c.a, aid))); assert(node(c, -1, -1, i)); assert(node(c, -1, -1, j));
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) by {
        assert(node(c, -1, -1, v));
        if v != j { if arcp(c, v) { assert(okarc(c.a, n, c.pr[v] as int)); assert(edge(c, -1, -1, v)); assert(par(c, v) != j); assert(up(d, v) == up(c, v)); assert(edge(d, -1, -1, v)); } }
        else { assert(edge(d, -1, -1, v)); }
    }
    assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == i && b <= aid) implies #[trigger] carc(d, nx2, b) by {
        assert(carc(c, nx, b)); assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b)));
    }
}
proof fn lemma_shorten(c: C, d: C, nx: Seq<usize>, i: int, j: int, aid: int)
    requires inv(c), comp_t(c, nx, i, aid), isa(c.a, aid), tl(c.a, aid) == i, hd(c.a, aid) == j, out(c, aid) > 0, 0 <= i < c.pr.len(), c.pr[i] != INVALID_IND, c.pr[j] != INVALID_IND, c.sk[j] == c.sk[i],
        c.ds[i] < usize::MAX, c.ts[j] <= c.ts[i], c.ds[j] > c.ds[i], noorp(c),
        d.a == c.a, d.f == c.f, d.tr == c.tr, d.t == c.t, d.sk == c.sk, d.pr =~= c.pr.update(j, c.a[aid].sister), d.ts =~= c.ts.update(j, c.ts[i]), d.ds =~= c.ds.update(j, (c.ds[i] + 1) as usize),
    ensures inv(d), comp_t(d, nx, i, aid), carc(d, nx, aid), noorp(d), 0 <= j < c.pr.len(), j != i,
{
    let n = c.pr.len() as int;
    assert(okarc(c.a, n, aid)); assert(okarc(c.a, n, ss(c.a, aid))); assert(node(c, -1, -1, i)); assert(node(c, -1, -1, j));
    assert(c.pr[j] != TERMINAL);
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) by {
        assert(node(c, -1, -1, v));
        if v != j { if arcp(c, v) { assert(okarc(c.a, n, c.pr[v] as int)); assert(edge(c, -1, -1, v)); assert(up(d, v) == up(c, v)); assert(edge(d, -1, -1, v)); } }
        else { assert(edge(d, -1, -1, v)); }
    }
    assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == i && b <= aid) implies #[trigger] carc(d, nx, b) by {
        assert(carc(c, nx, b)); assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b)));
    }
}
proof fn lemma_next(c: C, nx: Seq<usize>, i: int, aid: int)
    requires base(c), comp_t(c, nx, i, aid), isa(c.a, aid), tl(c.a, aid) == i, carc(c, nx, aid),
    ensures comp_t(c, nx, i, lim(c.a[aid].next)),
{
    let l = lim(c.a[aid].next);
    assert(oknext(c.a, c.f, aid));
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == i && b <= l) implies #[trigger] carc(c, nx, b) by {
        if tl(c.a, b) == i && b < aid { assert(between(c.a, b, aid)); }
    }
}
proof fn lemma_first(c: C, nx: Seq<usize>, i: int, l: int)
    requires base(c), comp_t(c, nx, i, l), 0 <= i < c.pr.len(),
    ensures comp_t(c, nx, i, lim(c.f[i])),
{
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == i && b <= lim(c.f[i])) implies #[trigger] carc(c, nx, b) by { assert(oknext(c.a, c.f, b)); }
}
proof fn lemma_aside(c: C, nx: Seq<usize>, nx2: Seq<usize>, i: int)
    requires base(c), comp(c, nx), 0 <= i < c.pr.len(), nx2.len() == nx.len(), forall|v: int| 0 <= v < nx.len() && v != i && #[trigger] nx2[v] == INVALID_IND ==> nx[v] == INVALID_IND || c.pr[v] == INVALID_IND,
    ensures comp_t(c, nx2, i, c.a.len() as int), c.pr[i] == INVALID_IND ==> comp(c, nx2),
{
    assert forall|b: int| isa(c.a, b) && (tl(c.a, b) != i || c.pr[i] == INVALID_IND) implies #[trigger] carc(c, nx2, b) by { assert(okarc(c.a, c.pr.len() as int, b)); assert(okarc(c.a, c.pr.len() as int, ss(c.a, b))); assert(carc(c, nx, b)); }
}
// ---- pushing flow along the path ----
spec fn outs(c: C, d: C) -> bool {
    &&& shape(c.a, d.a) && c.sk == d.sk && c.pr.len() == d.pr.len()
    &&& forall|v: int| 0 <= v < c.pr.len() ==> (#[trigger] d.pr[v] == INVALID_IND <==> c.pr[v] == INVALID_IND)
    &&& forall|b: int| isa(c.a, b) && #[trigger] out(d, b) > 0 ==> out(c, b) > 0 || c.pr[tl(c.a, b)] != INVALID_IND && c.pr[hd(c.a, b)] != INVALID_IND && c.sk[tl(c.a, b)] == c.sk[hd(c.a, b)]
}
spec fn moved(a: Seq<Arc>, b: Seq<Arc>, p: int, d: int) -> bool {
    &&& shape(a, b) && rc(b, p) == rc(a, p) - d && rc(b, ss(a, p)) == rc(a, ss(a, p)) + d
    &&& forall|j: int| isa(a, j) && j != p && j != ss(a, p) ==> #[trigger] rc(b, j) == rc(a, j)
}
proof fn lemma_shape(a: Seq<Arc>, b: Seq<Arc>, f: Seq<usize>, n: int, p: int, d: int)
    requires arcs(a, n), lists(a, f, n), isa(a, p), moved(a, b, p, d), 0 <= d <= rc(a, p),
    ensures arcs(b, n), lists(b, f, n), forall|k: int| isa(a, k) ==> hd(b, k) == hd(a, k) && ss(b, k) == ss(a, k) && #[trigger] tl(b, k) == tl(a, k),
{
    assert(okarc(a, n, p)); assert(okarc(a, n, ss(a, p)));
    assert forall|k: int| isa(a, k) implies hd(b, k) == hd(a, k) && ss(b, k) == ss(a, k) && #[trigger] tl(b, k) == tl(a, k) by { assert(okarc(a, n, k)); assert(b[k].head == a[k].head); assert(b[ss(a, k)].head == a[ss(a, k)].head); }
    assert forall|k: int| isa(b, k) implies #[trigger] okarc(b, n, k) by { assert(okarc(a, n, k)); assert(okarc(a, n, ss(a, k))); assert(tl(b, k) == tl(a, k)); assert(tl(b, ss(a, k)) == tl(a, ss(a, k))); assert(rc(b, k) >= 0); }
    assert forall|v: int| 0 <= v < n implies #[trigger] okfirst(b, f, v) by { assert(okfirst(a, f, v)); if isa(a, f[v] as int) { assert(tl(b, f[v] as int) == tl(a, f[v] as int)); } }
    assert forall|k: int| isa(b, k) implies #[trigger] oknext(b, f, k) by { assert(oknext(a, f, k)); assert(tl(b, k) == tl(a, k)); assert(b[k].next == a[k].next); if a[k].next != INVALID_IND { assert(tl(b, a[k].next as int) == tl(a, a[k].next as int)); } }
    assert forall|j: int, k: int| 0 <= j < k < b.len() implies #[trigger] between(b, j, k) by { assert(between(a, j, k)); assert(tl(b, k) == tl(a, k)); assert(tl(b, j) == tl(a, j)); assert(b[k].next == a[k].next); }
}
proof fn lemma_middle(c: C, d: C, m: int, b: int)
    requires inv(c), middle(c, m), 0 <= b <= rc(c.a, m), moved(c.a, d.a, m, b), same_rest(c, d), d.pr == c.pr, d.tr == c.tr,
    ensures inv(d), outs(c, d), forall|v: int| 0 <= v < c.pr.len() && #[trigger] arcp(c, v) ==> up(d, v) == up(c, v),
        forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + bz(b, s, tl(c.a, m)) - bz(b, s, hd(c.a, m)),
{
    let n = c.pr.len() as int;
    lemma_shape(c.a, d.a, c.f, n, m, b);
    assert(okarc(c.a, n, m));
    assert forall|v: int| 0 <= v < n && #[trigger] arcp(c, v) implies up(d, v) == up(c, v) by {
        assert(node(c, -1, -1, v)); assert(edge(c, -1, -1, v)); let k = c.pr[v] as int; assert(okarc(c.a, n, k));
        assert(k != m && k != ss(c.a, m)); assert(rc(d.a, k) == rc(c.a, k)); assert(tl(d.a, k) == tl(c.a, k));
        assert(ss(c.a, k) != m && ss(c.a, k) != ss(c.a, m)); assert(rc(d.a, ss(c.a, k)) == rc(c.a, ss(c.a, k)));
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) by { assert(node(c, -1, -1, v)); if arcp(c, v) { assert(edge(c, -1, -1, v)); assert(tl(d.a, c.pr[v] as int) == tl(c.a, c.pr[v] as int)); assert(edge(d, -1, -1, v)); } }
    assert forall|k: int| isa(c.a, k) && #[trigger] out(d, k) > 0 implies out(c, k) > 0 by {
        assert(okarc(c.a, n, k)); assert(tl(d.a, k) == tl(c.a, k));
        if k != m && k != ss(c.a, m) { assert(rc(d.a, k) == rc(c.a, k)); assert(ss(c.a, k) != m && ss(c.a, k) != ss(c.a, m)); assert(rc(d.a, ss(c.a, k)) == rc(c.a, ss(c.a, k))); }
    }
    assert forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + bz(b, s, tl(c.a, m)) - bz(b, s, hd(c.a, m)) by { lemma_asum(c.a, d.a, s, m, b, n, c.a.len() as int); }
}
spec fn same_rest(c: C, d: C) -> bool { c.f == d.f && c.sk == d.sk && c.ts == d.ts && c.ds == d.ds && c.t == d.t }
spec fn down(c: C, v: int) -> int { if c.sk[v] { c.pr[v] as int } else { ss(c.a, c.pr[v] as int) } }
proof fn lemma_step(c: C, d: C, v: int, b: int)
    requires inv(c), 0 <= v < c.pr.len(), arcp(c, v), 0 <= b <= up(c, v), moved(c.a, d.a, down(c, v), b), same_rest(c, d), d.tr == c.tr,
        d.pr =~= (if up(c, v) == b { c.pr.update(v, ORPHAN) } else { c.pr }),
    ensures inv(d), outs(c, d), forall|w: int| 0 <= w < c.pr.len() && w != v && #[trigger] arcp(c, w) ==> up(d, w) == up(c, w), 0 <= par(c, v) < c.pr.len(), par(c, v) != v,
        c.sk[par(c, v)] == c.sk[v], c.pr[par(c, v)] != INVALID_IND, par(c, v) == hd(d.a, c.pr[v] as int), isa(c.a, ss(c.a, c.pr[v] as int)), ss(c.a, c.pr[v] as int) != c.pr[v],
        forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + (if c.sk[v] { bz(b, s, v) - bz(b, s, par(c, v)) } else { bz(b, s, par(c, v)) - bz(b, s, v) }),
{
    let n = c.pr.len() as int; let k = c.pr[v] as int; let m = down(c, v); let q = par(c, v);
    assert(okarc(c.a, n, k)); assert(okarc(c.a, n, ss(c.a, k))); assert(node(c, -1, -1, v)); assert(edge(c, -1, -1, v));
    lemma_shape(c.a, d.a, c.f, n, m, b);
    assert(tl(d.a, k) == tl(c.a, k));
    assert forall|w: int| 0 <= w < n && w != v && #[trigger] arcp(c, w) implies up(d, w) == up(c, w) by {
        assert(node(c, -1, -1, w)); assert(edge(c, -1, -1, w)); let x = c.pr[w] as int; assert(okarc(c.a, n, x));
        assert(x != k); assert(x != ss(c.a, k)); assert(x != m && x != ss(c.a, m)); assert(rc(d.a, x) == rc(c.a, x)); assert(tl(d.a, x) == tl(c.a, x));
        assert(ss(c.a, x) != m && ss(c.a, x) != ss(c.a, m)); assert(rc(d.a, ss(c.a, x)) == rc(c.a, ss(c.a, x)));
    }
    assert forall|w: int| 0 <= w < n implies #[trigger] node(d, -1, -1, w) by {
        assert(node(c, -1, -1, w));
        if w != v || up(c, v) != b { if arcp(c, w) { assert(edge(c, -1, -1, w)); assert(okarc(c.a, n, c.pr[w] as int)); assert(tl(d.a, c.pr[w] as int) == tl(c.a, c.pr[w] as int)); assert(edge(d, -1, -1, w)); } }
    }
    assert forall|x: int| isa(c.a, x) && #[trigger] out(d, x) > 0 implies out(c, x) > 0 || c.pr[tl(c.a, x)] != INVALID_IND && c.pr[hd(c.a, x)] != INVALID_IND && c.sk[tl(c.a, x)] == c.sk[hd(c.a, x)] by {
        assert(okarc(c.a, n, x)); assert(tl(d.a, x) == tl(c.a, x));
        if x != m && x != ss(c.a, m) { assert(rc(d.a, x) == rc(c.a, x)); assert(ss(c.a, x) != m && ss(c.a, x) != ss(c.a, m)); assert(rc(d.a, ss(c.a, x)) == rc(c.a, ss(c.a, x))); }
    }
    assert forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + (if c.sk[v] { bz(b, s, v) - bz(b, s, q) } else { bz(b, s, q) - bz(b, s, v) }) by { lemma_asum(c.a, d.a, s, m, b, n, c.a.len() as int); }
}
proof fn lemma_root(c: C, d: C, v: int, b: int)
    requires inv(c), 0 <= v < c.pr.len(), c.pr[v] == TERMINAL, 0 <= b <= (if c.sk[v] { -c.tr[v].v() } else { c.tr[v].v() }), same_rest(c, d), d.a == c.a,
        d.tr.len() == c.tr.len(), forall|j: int| 0 <= j < c.tr.len() && j != v ==> #[trigger] d.tr[j] == c.tr[j], d.tr[v].v() == (if c.sk[v] { c.tr[v].v() + b } else { c.tr[v].v() - b }),
        d.pr =~= (if d.tr[v].v() == 0 { c.pr.update(v, ORPHAN) } else { c.pr }),
    ensures inv(d), outs(c, d), forall|w: int| 0 <= w < c.pr.len() && #[trigger] arcp(c, w) ==> up(d, w) == up(c, w),
        forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + (if c.sk[v] { bz(b, s, v) - b } else { -bz(b, s, v) }),
{
    let n = c.pr.len() as int;
    assert(node(c, -1, -1, v));
    assert forall|w: int| 0 <= w < n implies #[trigger] node(d, -1, -1, w) by { assert(node(c, -1, -1, w)); if arcp(c, w) { assert(edge(c, -1, -1, w)); assert(okarc(c.a, n, c.pr[w] as int)); assert(up(d, w) == up(c, w)); assert(edge(d, -1, -1, w)); } }
    assert forall|x: int| isa(c.a, x) && #[trigger] out(d, x) > 0 implies out(c, x) > 0 by { }
    assert forall|s: Seq<bool>| #[trigger] cut(d.a, d.tr, s) == cut(c.a, c.tr, s) + (if c.sk[v] { bz(b, s, v) - b } else { -bz(b, s, v) }) by { lemma_tsum(c.tr, d.tr, s, v, c.tr.len() as int); }
}
proof fn lemma_outs(c: C, d: C, e: C)
    requires outs(c, d), outs(d, e), arcs(c.a, c.pr.len() as int), arcs(d.a, c.pr.len() as int),
    ensures outs(c, e),
{
    let n = c.pr.len() as int;
    assert forall|k: int| isa(c.a, k) implies (#[trigger] e.a[k]).head == c.a[k].head && e.a[k].sister == c.a[k].sister && e.a[k].next == c.a[k].next by { assert(d.a[k].head == c.a[k].head); }
    assert forall|v: int| 0 <= v < n implies (#[trigger] e.pr[v] == INVALID_IND <==> c.pr[v] == INVALID_IND) by { assert(d.pr[v] == INVALID_IND <==> c.pr[v] == INVALID_IND); }
    assert forall|b: int| isa(c.a, b) && #[trigger] out(e, b) > 0 implies out(c, b) > 0 || c.pr[tl(c.a, b)] != INVALID_IND && c.pr[hd(c.a, b)] != INVALID_IND && c.sk[tl(c.a, b)] == c.sk[hd(c.a, b)] by {
        assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b)));
        assert(d.a[b].head == c.a[b].head); assert(d.a[ss(c.a, b)].head == c.a[ss(c.a, b)].head);
        assert(d.pr[tl(c.a, b)] == INVALID_IND <==> c.pr[tl(c.a, b)] == INVALID_IND); assert(d.pr[hd(c.a, b)] == INVALID_IND <==> c.pr[hd(c.a, b)] == INVALID_IND);
        if out(d, b) > 0 { }
    }
}
proof fn lemma_outs_comp(c: C, d: C, nx: Seq<usize>)
    requires outs(c, d), arcs(c.a, c.pr.len() as int), comp(c, nx),
    ensures comp(d, nx),
{
    let n = c.pr.len() as int;
    assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == -1 && b <= -1) implies #[trigger] carc(d, nx, b) by {
        assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b))); assert(d.a[b].head == c.a[b].head); assert(d.a[ss(c.a, b)].head == c.a[ss(c.a, b)].head);
        assert(carc(c, nx, b));
        assert(d.pr[tl(c.a, b)] == INVALID_IND <==> c.pr[tl(c.a, b)] == INVALID_IND); assert(d.pr[hd(c.a, b)] == INVALID_IND <==> c.pr[hd(c.a, b)] == INVALID_IND);
        if out(d, b) > 0 { }
    }
}
// ---- the two queues of active nodes; cur: the active node that is in neither ----
spec fn seg(nx: Seq<usize>, f: usize, l: usize, q: Seq<int>) -> bool {
    if q.len() == 0 { f == INVALID_IND && l == INVALID_IND } else {
        &&& f == q[0] && l == q.last() && nx[q.last()] == q.last()
        &&& forall|k: int| 0 <= k < q.len() ==> 0 <= #[trigger] q[k] < nx.len()
        &&& forall|k: int| 0 <= k < q.len() - 1 ==> nx[#[trigger] q[k]] == q[k + 1]
    }
}
spec fn inq(q: Seq<int>, r: Seq<int>, v: int) -> bool { q.contains(v) || r.contains(v) }
spec fn qwf(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, cur: int, q: Seq<int>, r: Seq<int>) -> bool {
    &&& nx.len() < TERMINAL && f.len() == 2 && l.len() == 2
    &&& seg(nx, f[0], l[0], q) && seg(nx, f[1], l[1], r)
    &&& q.no_duplicates() && r.no_duplicates() && forall|v: int| q.contains(v) && #[trigger] r.contains(v) ==> false
    &&& !inq(q, r, cur)
    &&& forall|v: int| 0 <= v < nx.len() ==> (#[trigger] nx[v] != INVALID_IND <==> inq(q, r, v) || v == cur)
}
spec fn queues(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, cur: int) -> bool { exists|q: Seq<int>, r: Seq<int>| #[trigger] qwf(nx, f, l, cur, q, r) }
proof fn lemma_seg_other(nx: Seq<usize>, nx2: Seq<usize>, f: usize, l: usize, q: Seq<int>)
    requires seg(nx, f, l, q), nx2.len() == nx.len(), forall|v: int| q.contains(v) && 0 <= v < nx.len() ==> #[trigger] nx2[v] == nx[v],
    ensures seg(nx2, f, l, q),
{
    if q.len() > 0 {
        assert(q.contains(q.last())); assert(0 <= q[q.len() - 1] < nx.len());
        assert forall|k: int| 0 <= k < q.len() - 1 implies nx2[#[trigger] q[k]] == q[k + 1] by { assert(q.contains(q[k])); assert(nx[q[k]] == q[k + 1]); }
    }
}
proof fn lemma_enqueue(nx: Seq<usize>, nx2: Seq<usize>, f: Seq<usize>, f2: Seq<usize>, l: Seq<usize>, l2: Seq<usize>, cur: int, i: int)
    requires queues(nx, f, l, cur), 0 <= i < nx.len(), nx[i] == INVALID_IND,
        f2 =~= (if l[1] == INVALID_IND { f.update(1, i as usize) } else { f }), l2 =~= l.update(1, i as usize),
        nx2 =~= (if l[1] == INVALID_IND { nx } else { nx.update(l[1] as int, i as usize) }).update(i, i as usize),
    ensures queues(nx2, f2, l2, cur),
{
    let (q, r) = choose|q: Seq<int>, r: Seq<int>| #[trigger] qwf(nx, f, l, cur, q, r);
    let r2 = r.push(i);
    assert(!inq(q, r, i) && i != cur);
    assert forall|v: int| r2.contains(v) <==> r.contains(v) || v == i by { if r.contains(v) { let k = r.index_of(v); assert(r2[k] == v); } if v == i { assert(r2[r.len() as int] == i); } if r2.contains(v) { let k = r2.index_of(v); if k < r.len() { assert(r[k] == v); } } }
    if r.len() > 0 { assert(r.contains(r.last())); assert(0 <= r[r.len() - 1] < nx.len()); }
    lemma_seg_other(nx, nx2, f[0], l[0], q);
    assert forall|k: int| 0 <= k < r2.len() implies 0 <= #[trigger] r2[k] < nx2.len() by { if k < r.len() { assert(r2[k] == r[k]); } }
    assert forall|k: int| 0 <= k < r2.len() - 1 implies nx2[#[trigger] r2[k]] == r2[k + 1] by { assert(r2[k] == r[k]); assert(r.contains(r[k])); if k < r.len() - 1 { assert(nx[r[k]] == r[k + 1]); assert(r[k] != r[r.len() - 1]); } }
    assert forall|v: int| 0 <= v < nx2.len() implies (#[trigger] nx2[v] != INVALID_IND <==> inq(q, r2, v) || v == cur) by { assert(nx[v] != INVALID_IND <==> inq(q, r, v) || v == cur); if r.len() > 0 && v == r.last() { assert(r.contains(v)); } }
    assert(qwf(nx2, f2, l2, cur, q, r2));
}
proof fn lemma_dequeue(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, q: Seq<int>, r: Seq<int>, nx2: Seq<usize>, f2: Seq<usize>, l2: Seq<usize>)
    requires qwf(nx, f, l, -1, q, r), q.len() > 0, nx2 =~= nx.update(q[0], INVALID_IND),
        nx[q[0]] == q[0] ==> f2 =~= f.update(0, INVALID_IND) && l2 =~= l.update(0, INVALID_IND),
        nx[q[0]] != q[0] ==> f2 =~= f.update(0, nx[q[0]]) && l2 =~= l,
    ensures qwf(nx2, f2, l2, -1, q.skip(1), r), 0 <= q[0] < nx.len(),
{
    let q2 = q.skip(1); let i = q[0];
    assert(q.contains(i));
    assert(q.last() == q[q.len() - 1]);
    if q.len() > 1 { assert(nx[q[0]] == q[1]); assert(q[1] != q[0]); assert(q2.last() == q.last()); assert(q[q.len() - 1] != q[0]); }
    assert forall|v: int| q2.contains(v) <==> q.contains(v) && v != i by { if q2.contains(v) { let k = q2.index_of(v); assert(q[k + 1] == v); } if q.contains(v) && v != i { let k = q.index_of(v); assert(q2[k - 1] == v); } }
    assert forall|k: int| 0 <= k < q2.len() - 1 implies nx2[#[trigger] q2[k]] == q2[k + 1] by { assert(q2[k] == q[k + 1]); assert(nx[q[k + 1]] == q[k + 2]); assert(q[k + 1] != q[0]); }
    assert forall|k: int| 0 <= k < q2.len() implies 0 <= #[trigger] q2[k] < nx2.len() by { assert(q2[k] == q[k + 1]); }
    lemma_seg_other(nx, nx2, f[1], l[1], r);
    assert(seg(nx2, f2[0], l2[0], q2));
    assert forall|v: int| 0 <= v < nx2.len() implies (#[trigger] nx2[v] != INVALID_IND <==> inq(q2, r, v) || v == -1) by { assert(nx[v] != INVALID_IND <==> inq(q, r, v) || v == -1); }
}
// ---- the list of orphans: o from `first` to `last`, then s from `nxt`; x: an orphan in neither ----
spec fn oseg(no: Seq<usize>, f: usize, o: Seq<int>) -> bool {
    if o.len() == 0 { f == INVALID_IND } else {
        &&& f == o[0] && no[o.last()] == INVALID_IND
        &&& forall|k: int| 0 <= k < o.len() ==> 0 <= #[trigger] o[k] < no.len()
        &&& forall|k: int| 0 <= k < o.len() - 1 ==> no[#[trigger] o[k]] == o[k + 1]
    }
}
spec fn owf(no: Seq<usize>, f: usize, l: usize, nxt: usize, pr: Seq<usize>, x: int, w: bool, o: Seq<int>, s: Seq<int>) -> bool {
    &&& no.len() == pr.len() && no.len() < TERMINAL && oseg(no, f, o) && oseg(no, nxt, s)
    &&& if o.len() == 0 { l == INVALID_IND } else { l == o.last() || w && o.len() == 1 && l == INVALID_IND }
    &&& o.no_duplicates() && s.no_duplicates() && forall|v: int| o.contains(v) && #[trigger] s.contains(v) ==> false
    &&& forall|v: int| 0 <= v < pr.len() ==> (#[trigger] pr[v] == ORPHAN && v != x <==> inq(o, s, v))
}
// w: `last` may not have been set for a list of one
spec fn orphans(no: Seq<usize>, f: usize, l: usize, nxt: usize, pr: Seq<usize>, x: int, w: bool) -> bool { exists|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, f, l, nxt, pr, x, w, o, s) }
proof fn lemma_oseg_other(no: Seq<usize>, no2: Seq<usize>, f: usize, o: Seq<int>)
    requires oseg(no, f, o), no2.len() == no.len(), forall|v: int| o.contains(v) && 0 <= v < no.len() ==> #[trigger] no2[v] == no[v],
    ensures oseg(no2, f, o),
{
    if o.len() > 0 {
        assert(o.contains(o.last())); assert(0 <= o[o.len() - 1] < no.len());
        assert forall|k: int| 0 <= k < o.len() - 1 implies no2[#[trigger] o[k]] == o[k + 1] by { assert(o.contains(o[k])); assert(no[o[k]] == o[k + 1]); }
    }
}
proof fn lemma_push_seq(r: Seq<int>, i: int, v: int)
    ensures r.push(i).contains(v) <==> r.contains(v) || v == i,
{ let r2 = r.push(i); if r.contains(v) { let k = r.index_of(v); assert(r2[k] == v); } if v == i { assert(r2[r.len() as int] == i); } if r2.contains(v) { let k = r2.index_of(v); if k < r.len() { assert(r[k] == v); } } }
proof fn lemma_rear(no: Seq<usize>, no2: Seq<usize>, f: usize, f2: usize, l: usize, nxt: usize, pr: Seq<usize>, pr2: Seq<usize>, i: int)
    requires orphans(no, f, l, nxt, pr, -1, false), 0 <= i < pr.len(), pr[i] != ORPHAN, pr2 =~= pr.update(i, ORPHAN),
        f2 == (if l == INVALID_IND { i as usize } else { f }), no2 =~= (if l == INVALID_IND { no } else { no.update(l as int, i as usize) }).update(i, INVALID_IND),
    ensures orphans(no2, f2, i as usize, nxt, pr2, -1, false),
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, f, l, nxt, pr, -1, false, o, s);
    let o2 = o.push(i);
    assert(!inq(o, s, i));
    assert forall|v: int| o2.contains(v) <==> o.contains(v) || v == i by { lemma_push_seq(o, i, v); }
    if o.len() > 0 { assert(o.contains(o.last())); assert(0 <= o[o.len() - 1] < no.len()); }
    lemma_oseg_other(no, no2, nxt, s);
    assert forall|k: int| 0 <= k < o2.len() implies 0 <= #[trigger] o2[k] < no2.len() by { if k < o.len() { assert(o2[k] == o[k]); } }
    assert forall|k: int| 0 <= k < o2.len() - 1 implies no2[#[trigger] o2[k]] == o2[k + 1] by { assert(o2[k] == o[k]); assert(o.contains(o[k])); if k < o.len() - 1 { assert(no[o[k]] == o[k + 1]); assert(o[k] != o[o.len() - 1]); } }
    assert forall|v: int| 0 <= v < pr2.len() implies (#[trigger] pr2[v] == ORPHAN && v != -1 <==> inq(o2, s, v)) by { assert(pr[v] == ORPHAN && v != -1 <==> inq(o, s, v)); }
    assert(owf(no2, f2, i as usize, nxt, pr2, -1, false, o2, s));
}
proof fn lemma_front(no: Seq<usize>, no2: Seq<usize>, f: usize, pr: Seq<usize>, pr2: Seq<usize>, i: int)
    requires orphans(no, INVALID_IND, INVALID_IND, f, pr, -1, false), 0 <= i < pr.len(), pr[i] != ORPHAN, pr2 =~= pr.update(i, ORPHAN), no2 =~= no.update(i, f),
    ensures orphans(no2, INVALID_IND, INVALID_IND, i as usize, pr2, -1, false),
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, INVALID_IND, INVALID_IND, f, pr, -1, false, o, s);
    let s2 = seq![i] + s;
    assert(o.len() == 0) by { if o.len() > 0 { assert(0 <= o[0] < no.len()); } }
    assert(!inq(o, s, i));
    assert forall|v: int| s2.contains(v) <==> s.contains(v) || v == i by { if s.contains(v) { let k = s.index_of(v); assert(s2[k + 1] == v); } if v == i { assert(s2[0] == i); } if s2.contains(v) { let k = s2.index_of(v); if k > 0 { assert(s[k - 1] == v); } } }
    if s.len() > 0 { assert(s.contains(s.last())); assert(0 <= s[s.len() - 1] < no.len()); assert(s2.last() == s.last()); assert(0 <= s[0] < no.len()); }
    assert forall|k: int| 0 <= k < s2.len() implies 0 <= #[trigger] s2[k] < no2.len() by { if k > 0 { assert(s2[k] == s[k - 1]); } }
    assert forall|k: int| 0 <= k < s2.len() - 1 implies no2[#[trigger] s2[k]] == s2[k + 1] by { if k > 0 { assert(s2[k] == s[k - 1]); assert(s.contains(s[k - 1])); assert(no[s[k - 1]] == s[k]); } else { assert(s2[1] == s[0]); } }
    assert(s2.no_duplicates()) by { assert forall|j: int, k: int| 0 <= j < s2.len() && 0 <= k < s2.len() && j != k implies s2[j] != s2[k] by { if j > 0 { assert(s2[j] == s[j - 1]); assert(s.contains(s[j - 1])); } if k > 0 { assert(s2[k] == s[k - 1]); assert(s.contains(s[k - 1])); } } }
    assert forall|v: int| 0 <= v < pr2.len() implies (#[trigger] pr2[v] == ORPHAN && v != -1 <==> inq(o, s2, v)) by { assert(pr[v] == ORPHAN && v != -1 <==> inq(o, s, v)); }
    assert(owf(no2, INVALID_IND, INVALID_IND, i as usize, pr2, -1, false, o, s2));
}
// the first of the outer list becomes a list of its own
proof fn lemma_split(no: Seq<usize>, no2: Seq<usize>, i: usize, pr: Seq<usize>)
    requires orphans(no, INVALID_IND, INVALID_IND, i, pr, -1, false), i != INVALID_IND, no2 =~= no.update(i as int, INVALID_IND),
    ensures 0 <= i < pr.len(), orphans(no2, i, INVALID_IND, no[i as int], pr, -1, true),
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, INVALID_IND, INVALID_IND, i, pr, -1, false, o, s);
    assert(o.len() == 0) by { if o.len() > 0 { assert(0 <= o[0] < no.len()); } }
    assert(0 <= s[0] < no.len());
    let o2 = seq![i as int]; let s2 = s.skip(1);
    assert(s.last() == s[s.len() - 1]);
    assert forall|v: int| s2.contains(v) <==> s.contains(v) && v != i by { if s2.contains(v) { let k = s2.index_of(v); assert(s[k + 1] == v); } if s.contains(v) && v != i { let k = s.index_of(v); assert(s2[k - 1] == v); } }
    assert forall|v: int| o2.contains(v) <==> v == i by { if v == i { assert(o2[0] == v); } }
    if s.len() > 1 { assert(no[s[0]] == s[1]); assert(s2.last() == s.last()); assert(s[s.len() - 1] != s[0]); }
    assert forall|k: int| 0 <= k < s2.len() - 1 implies no2[#[trigger] s2[k]] == s2[k + 1] by { assert(s2[k] == s[k + 1]); assert(no[s[k + 1]] == s[k + 2]); assert(s[k + 1] != s[0]); }
    assert forall|k: int| 0 <= k < s2.len() implies 0 <= #[trigger] s2[k] < no2.len() by { assert(s2[k] == s[k + 1]); }
    assert(oseg(no2, no[i as int], s2)); assert(oseg(no2, i, o2));
    assert(s.contains(i as int)) by { assert(s[0] == i); }
    assert forall|v: int| 0 <= v < pr.len() implies (#[trigger] pr[v] == ORPHAN && v != -1 <==> inq(o2, s2, v)) by { assert(pr[v] == ORPHAN && v != -1 <==> inq(o, s, v)); }
    assert(owf(no2, i, INVALID_IND, no[i as int], pr, -1, true, o2, s2));
}
proof fn lemma_pop(no: Seq<usize>, i: usize, l: usize, nxt: usize, pr: Seq<usize>)
    requires orphans(no, i, l, nxt, pr, -1, true), i != INVALID_IND,
    ensures 0 <= i < pr.len(), pr[i as int] == ORPHAN, orphans(no, no[i as int], if no[i as int] == INVALID_IND { INVALID_IND } else { l }, nxt, pr, i as int, false),
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, i, l, nxt, pr, -1, true, o, s);
    assert(0 <= o[0] < no.len());
    let o2 = o.skip(1); let f2 = no[i as int]; let l2 = if no[i as int] == INVALID_IND { INVALID_IND } else { l };
    assert(o.last() == o[o.len() - 1]); assert(o.contains(i as int));
    assert(pr[i as int] == ORPHAN && i as int != -1 <==> inq(o, s, i as int));
    assert forall|v: int| o2.contains(v) <==> o.contains(v) && v != i by { if o2.contains(v) { let k = o2.index_of(v); assert(o[k + 1] == v); } if o.contains(v) && v != i { let k = o.index_of(v); assert(o2[k - 1] == v); } }
    if o.len() > 1 { assert(no[o[0]] == o[1]); assert(0 <= o[1] < no.len()); assert(o2.last() == o.last()); }
    assert forall|k: int| 0 <= k < o2.len() - 1 implies no[#[trigger] o2[k]] == o2[k + 1] by { assert(o2[k] == o[k + 1]); assert(no[o[k + 1]] == o[k + 2]); }
    assert forall|k: int| 0 <= k < o2.len() implies 0 <= #[trigger] o2[k] < no.len() by { assert(o2[k] == o[k + 1]); }
    assert(oseg(no, f2, o2));
    assert forall|v: int| 0 <= v < pr.len() implies (#[trigger] pr[v] == ORPHAN && v != i <==> inq(o2, s, v)) by { assert(pr[v] == ORPHAN && v != -1 <==> inq(o, s, v)); }
    assert(owf(no, f2, l2, nxt, pr, i as int, false, o2, s));
}
proof fn lemma_done(no: Seq<usize>, l: usize, nxt: usize, pr: Seq<usize>)
    requires orphans(no, INVALID_IND, l, nxt, pr, -1, true),
    ensures l == INVALID_IND, orphans(no, INVALID_IND, l, nxt, pr, -1, false), nxt == INVALID_IND ==> forall|v: int| 0 <= v < pr.len() ==> #[trigger] pr[v] != ORPHAN,
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, INVALID_IND, l, nxt, pr, -1, true, o, s);
    assert(o.len() == 0) by { if o.len() > 0 { assert(0 <= o[0] < no.len()); } }
    assert(owf(no, INVALID_IND, l, nxt, pr, -1, false, o, s));
    if nxt == INVALID_IND { assert(s.len() == 0) by { if s.len() > 0 { assert(0 <= s[0] < no.len()); } } assert forall|v: int| 0 <= v < pr.len() implies #[trigger] pr[v] != ORPHAN by { assert(pr[v] == ORPHAN && v != -1 <==> inq(o, s, v)); } }
}
proof fn lemma_weak(no: Seq<usize>, f: usize, l: usize, nxt: usize, pr: Seq<usize>, x: int)
    requires orphans(no, f, l, nxt, pr, x, false),
    ensures orphans(no, f, l, nxt, pr, x, true),
{ let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, f, l, nxt, pr, x, false, o, s); assert(owf(no, f, l, nxt, pr, x, true, o, s)); }
proof fn lemma_owned(no: Seq<usize>, f: usize, l: usize, nxt: usize, pr: Seq<usize>, pr2: Seq<usize>, x: int)
    requires orphans(no, f, l, nxt, pr, x, false), 0 <= x < pr.len(), pr2.len() == pr.len(), pr2[x] != ORPHAN, forall|v: int| 0 <= v < pr.len() && v != x ==> #[trigger] pr2[v] == pr[v],
    ensures orphans(no, f, l, nxt, pr2, -1, false),
{
    let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, f, l, nxt, pr, x, false, o, s);
    assert(owf(no, f, l, nxt, pr, x, false, o, s)); assert(pr.len() == pr2.len());
    assert forall|v: int| 0 <= v < pr2.len() implies (#[trigger] pr2[v] == ORPHAN && v != -1 <==> inq(o, s, v)) by { let vx_e = pr[v]; assert((pr[v] == ORPHAN && v != x) <==> inq(o, s, v)); }
    assert(owf(no, f, l, nxt, pr2, -1, false, o, s));
}
// ---- adoption ----
spec fn cand(c: C, i: int, k: usize, d: usize) -> bool {
    let q = hd(c.a, k as int);
    isa(c.a, k as int) && tl(c.a, k as int) == i && upa(c, c.sk[i], k as int) > 0 && 0 <= q < c.pr.len() && c.ts[q] == c.t && c.ds[q] == d && c.sk[q] == c.sk[i] && d <= c.pr.len()
}
spec fn alive(c: C, v: int) -> bool { c.pr[v] != INVALID_IND && c.ts[v] != c.t }
proof fn lemma_adopt(c: C, d: C, i: int, k: usize, dd: usize)
    requires inv(c), ver(c), bnd(c, c.pr.len() + c.t), 0 <= i < c.pr.len(), c.pr[i] == ORPHAN, cand(c, i, k, dd), same_net(c, d),
        d.pr =~= c.pr.update(i, k), d.ts =~= c.ts.update(i, c.t as usize), d.ds =~= c.ds.update(i, (dd + 1) as usize),
    ensures inv(d), ver(d), bnd(d, c.pr.len() + c.t), !alive(d, i), forall|nx: Seq<usize>| #[trigger] comp(c, nx) ==> comp(d, nx),
{
    let n = c.pr.len() as int; let q = hd(c.a, k as int);
    assert(okarc(c.a, n, k as int)); assert(verd(c, i)); assert(verd(c, q)); assert(node(c, -1, -1, i)); assert(node(c, -1, -1, q));
    assert(q != i);
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) by {
        assert(node(c, -1, -1, v)); assert(verd(c, v));
        if v != i { if arcp(c, v) { assert(edge(c, -1, -1, v)); assert(okarc(c.a, n, c.pr[v] as int)); assert(up(d, v) == up(c, v)); assert(edge(d, -1, -1, v)); } } else { assert(edge(d, -1, -1, v)); }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] verd(d, v) by { assert(verd(c, v)); assert(node(c, -1, -1, v)); if v != i && arcp(c, v) { assert(okarc(c.a, n, c.pr[v] as int)); } }
    assert forall|v: int| 0 <= v < n implies #[trigger] d.ds[v] <= n + c.t by { if v == i { lemma_depth(d, i); } else { assert(c.ds[v] <= n + c.t); } }
    assert forall|nx: Seq<usize>| #[trigger] comp(c, nx) implies comp(d, nx) by { assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == -1 && b <= -1) implies #[trigger] carc(d, nx, b) by { assert(carc(c, nx, b)); assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b))); } }
}
spec fn cfree(c: C, nx: Seq<usize>, i: int, l: int) -> bool { base(c) && nodes(c, i, l) && ver(c) && comp_h(c, nx, i, l) && c.pr[i] == INVALID_IND }
proof fn lemma_freed(c: C, d: C, nx: Seq<usize>, i: int)
    requires inv(c), ver(c), 0 <= i < c.pr.len(), c.pr[i] == ORPHAN, same_net(c, d), d.ts == c.ts, d.ds == c.ds, d.pr =~= c.pr.update(i, INVALID_IND), comp(c, nx),
    ensures cfree(d, nx, i, lim(c.f[i])), !alive(d, i),
{
    let n = c.pr.len() as int; let l = lim(c.f[i]);
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, i, l, v) by {
        assert(node(c, -1, -1, v));
        if v != i && arcp(c, v) { assert(edge(c, -1, -1, v)); let k = c.pr[v] as int; assert(okarc(c.a, n, k)); assert(up(d, v) == up(c, v)); if par(c, v) == i { assert(oknext(c.a, c.f, ss(c.a, k))); } assert(edge(d, i, l, v)); }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] verd(d, v) by { assert(verd(c, v)); }
    assert forall|b: int| isa(d.a, b) && !(hd(d.a, b) == i && d.sk[tl(d.a, b)] == d.sk[i] && ss(d.a, b) <= l) implies #[trigger] carc(d, nx, b) by {
        assert(okarc(c.a, n, b)); assert(okarc(c.a, n, ss(c.a, b))); assert(oknext(c.a, c.f, ss(c.a, b))); assert(carc(c, nx, b));
    }
}
proof fn lemma_neigh(c: C, d: C, nx: Seq<usize>, nx2: Seq<usize>, i: int, k: int)
    requires cfree(c, nx, i, k), isa(c.a, k), tl(c.a, k) == i, 0 <= i < c.pr.len(), same_net(c, d), d.ts == c.ts, d.ds == c.ds, d.pr.len() == c.pr.len(),
        nx2.len() == nx.len(), forall|v: int| 0 <= v < nx.len() && #[trigger] nx[v] != INVALID_IND ==> nx2[v] != INVALID_IND,
        ({ let j = hd(c.a, k); let tree = c.sk[j] == c.sk[i] && c.pr[j] != INVALID_IND;
            &&& tree && upa(c, c.sk[i], k) != 0 ==> nx2[j] != INVALID_IND
            &&& d.pr =~= (if tree && arcp(c, j) && par(c, j) == i { c.pr.update(j, ORPHAN) } else { c.pr }) }),
    ensures cfree(d, nx2, i, lim(c.a[k].next)), forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(d, v) ==> alive(c, v),
{
    let n = c.pr.len() as int; let l = lim(c.a[k].next); let j = hd(c.a, k);
    assert(okarc(c.a, n, k)); assert(okarc(c.a, n, ss(c.a, k))); assert(oknext(c.a, c.f, k));
    assert(node(c, i, k, i)); assert(node(c, i, k, j));
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, i, l, v) by {
        assert(node(c, i, k, v));
        if arcp(c, v) {
            assert(edge(c, i, k, v)); let m = c.pr[v] as int; assert(okarc(c.a, n, m));
            if d.pr[v] == c.pr[v] { assert(up(d, v) == up(c, v)); }
            if par(c, v) == i { let b = ss(c.a, m); assert(tl(c.a, b) == i); if b == k { assert(v == j); } else if b < k { assert(between(c.a, b, k)); } }
            if d.pr[v] == c.pr[v] { assert(edge(d, i, l, v)); }
        }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] verd(d, v) by { assert(verd(c, v)); assert(verd(c, i)); if arcp(c, v) { assert(okarc(c.a, n, c.pr[v] as int)); } }
    assert forall|b: int| isa(d.a, b) && !(hd(d.a, b) == i && d.sk[tl(d.a, b)] == d.sk[i] && ss(d.a, b) <= l) implies #[trigger] carc(d, nx2, b) by {
        let x = ss(c.a, b);
        assert(okarc(c.a, n, b)); assert(okarc(c.a, n, x));
        if hd(c.a, b) == i && c.sk[tl(c.a, b)] == c.sk[i] && x <= k {
            assert(tl(c.a, x) == i);
            if x < k { assert(between(c.a, x, k)); } else { assert(tl(c.a, b) == j); }
        } else { assert(carc(c, nx, b)); }
    }
}
proof fn lemma_free_end(c: C, nx: Seq<usize>, i: int)
    requires cfree(c, nx, i, -1), 0 <= i < c.pr.len(),
    ensures inv(c), comp(c, nx),
{
    let n = c.pr.len() as int;
    assert forall|v: int| 0 <= v < n implies #[trigger] node(c, -1, -1, v) by { assert(node(c, i, -1, v)); if arcp(c, v) { assert(edge(c, i, -1, v)); assert(okarc(c.a, n, c.pr[v] as int)); assert(edge(c, -1, -1, v)); } }
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == -1 && b <= -1) implies #[trigger] carc(c, nx, b) by { assert(okarc(c.a, n, b)); }
}
// each processed orphan is checked or freed, so that adoption ends
spec fn live(c: C, k: int) -> int decreases k { if k <= 0 { 0 } else { live(c, k - 1) + (if alive(c, k - 1) { 1int } else { 0 }) } }
proof fn lemma_live(c: C, d: C, i: int, k: int)
    requires forall|v: int| 0 <= v < k && #[trigger] alive(d, v) ==> alive(c, v), 0 <= i, alive(c, i) && !alive(d, i),
    ensures 0 <= live(d, k) <= live(c, k), i < k ==> live(d, k) < live(c, k),
    decreases k,
{ if k > 0 { lemma_live(c, d, i, k - 1); } }
proof fn lemma_live_pos(c: C, k: int) ensures live(c, k) >= 0 decreases k { if k > 0 { lemma_live_pos(c, k - 1); } }
// ---- frames ----
spec fn hasq(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>) -> bool { exists|cur: int| #[trigger] queues(nx, f, l, cur) }
spec fn haso(no: Seq<usize>, f: usize, l: usize, pr: Seq<usize>, x: int) -> bool { exists|nxt: usize| #[trigger] orphans(no, f, l, nxt, pr, x, false) }
spec fn lens(g: GraphCut) -> bool { g.next@.len() == g.parent@.len() && g.next_orphan@.len() == g.parent@.len() }
spec fn rest_q(g: GraphCut, h: GraphCut) -> bool { core(g) == core(h) && g.next_orphan@ == h.next_orphan@ && g.orphan_first == h.orphan_first && g.orphan_last == h.orphan_last && g.flow == h.flow && h.next@.len() == g.next@.len() }
spec fn rest_o(g: GraphCut, h: GraphCut) -> bool { same_net(core(g), core(h)) && g.ts@ == h.ts@ && g.dist@ == h.dist@ && g.next@ == h.next@ && g.queue_first@ == h.queue_first@ && g.queue_last@ == h.queue_last@ && g.flow == h.flow && h.next_orphan@.len() == g.next_orphan@.len() }
spec fn rest_t(g: GraphCut, h: GraphCut) -> bool { same_net(core(g), core(h)) && g.parent@ == h.parent@ && g.next@ == h.next@ && g.queue_first@ == h.queue_first@ && g.queue_last@ == h.queue_last@ && g.next_orphan@ == h.next_orphan@ && g.orphan_first == h.orphan_first && g.orphan_last == h.orphan_last && g.flow == h.flow }
spec fn kept(a0: Seq<Arc>, tr0: Seq<VxNum>, f0: VxNum, a: Seq<Arc>, tr: Seq<VxNum>, f: VxNum) -> bool { forall|s: Seq<bool>| #[trigger] cut(a, tr, s) + f.v() == cut(a0, tr0, s) + f0.v() }
spec fn conserved(g: GraphCut, h: GraphCut) -> bool { kept(g.arcs@, g.tr_cap@, g.flow, h.arcs@, h.tr_cap@, h.flow) }
proof fn lemma_queue_ends(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, cur: int)
    requires queues(nx, f, l, cur),
    ensures l[1] != INVALID_IND ==> 0 <= l[1] < nx.len() && nx[l[1] as int] != INVALID_IND, f.len() == 2, l.len() == 2, nx.len() < TERMINAL,
{
    let (q, r) = choose|q: Seq<int>, r: Seq<int>| #[trigger] qwf(nx, f, l, cur, q, r);
    if r.len() > 0 { assert(0 <= r[r.len() - 1] < nx.len()); }
}
proof fn lemma_uncur(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, cur: int)
    requires queues(nx, f, l, cur), 0 <= cur < nx.len(),
    ensures queues(nx.update(cur, INVALID_IND), f, l, -1), nx[cur] != INVALID_IND,
{
    let (q, r) = choose|q: Seq<int>, r: Seq<int>| #[trigger] qwf(nx, f, l, cur, q, r);
    let nx2 = nx.update(cur, INVALID_IND);
    lemma_seg_other(nx, nx2, f[0], l[0], q); lemma_seg_other(nx, nx2, f[1], l[1], r);
    assert(!inq(q, r, -1)) by { if q.contains(-1) { let k = q.index_of(-1); assert(0 <= q[k] < nx.len()); } if r.contains(-1) { let k = r.index_of(-1); assert(0 <= r[k] < nx.len()); } }
    assert forall|v: int| 0 <= v < nx2.len() implies (#[trigger] nx2[v] != INVALID_IND <==> inq(q, r, v) || v == -1) by { assert(nx[v] != INVALID_IND <==> inq(q, r, v) || v == cur); }
    assert(qwf(nx2, f, l, -1, q, r));
}
proof fn lemma_cur(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, i: int)
    requires queues(nx, f, l, -1), 0 <= i < nx.len(), nx[i] == INVALID_IND,
    ensures queues(nx.update(i, i as usize), f, l, i),
{
    let (q, r) = choose|q: Seq<int>, r: Seq<int>| #[trigger] qwf(nx, f, l, -1, q, r);
    let nx2 = nx.update(i, i as usize);
    assert(!inq(q, r, i));
    lemma_seg_other(nx, nx2, f[0], l[0], q); lemma_seg_other(nx, nx2, f[1], l[1], r);
    assert forall|v: int| 0 <= v < nx2.len() implies (#[trigger] nx2[v] != INVALID_IND <==> inq(q, r, v) || v == i) by { assert(nx[v] != INVALID_IND <==> inq(q, r, v) || v == -1); }
    assert(qwf(nx2, f, l, i, q, r));
}
proof fn lemma_swap(nx: Seq<usize>, f: Seq<usize>, l: Seq<usize>, q: Seq<int>, r: Seq<int>)
    requires qwf(nx, f, l, -1, q, r), q.len() == 0,
    ensures qwf(nx, f.update(0, f[1]).update(1, INVALID_IND), l.update(0, l[1]).update(1, INVALID_IND), -1, r, q),
{
    let f2 = f.update(0, f[1]).update(1, INVALID_IND); let l2 = l.update(0, l[1]).update(1, INVALID_IND);
    assert forall|v: int| 0 <= v < nx.len() implies (#[trigger] nx[v] != INVALID_IND <==> inq(r, q, v) || v == -1) by { }
    assert forall|v: int| r.contains(v) && #[trigger] q.contains(v) implies false by { assert(r.contains(v)); }
    assert(seg(nx, f2[0], l2[0], r)); assert(seg(nx, f2[1], l2[1], q));
}
proof fn lemma_comp_marks(c: C, d: C, nx: Seq<usize>)
    requires comp(c, nx), same_net(c, d), c.pr == d.pr,
    ensures comp(d, nx),
{ assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == -1 && b <= -1) implies #[trigger] carc(d, nx, b) by { assert(carc(c, nx, b)); } }
proof fn lemma_unhit(p: Seq<int>, m: int)
    requires p.no_duplicates(), 0 <= m < p.len(),
    ensures !hit(p, m, p[m]),
{ if hit(p, m, p[m]) { let x = choose|x: int| 0 <= x < m && #[trigger] p[x] == p[m]; assert(p[x] != p[m]); } }
spec fn found(c: C, d: C, p: Seq<int>, j: int, k: usize, s: bool) -> bool {
    &&& walk(c, p, s) && p.last() == j && fresh(c, p, p.len() - 1)
    &&& c.ts[j] == c.t && d == c && k == p.len() - 1 + c.ds[j] || c.ts[j] != c.t && c.pr[j] == TERMINAL && d == rooted(c, j) && k == p.len() || c.pr[j] == ORPHAN && d == c && k == INVALID_IND
}
proof fn lemma_found(c: C, d: C, p: Seq<int>, j: int, k: usize, s: bool)
    requires inv(c), ver(c), bnd(c, c.pr.len() + c.t), found(c, d, p, j, k, s),
    ensures inv(d), ver(d), bnd(d, c.pr.len() + c.t), same_net(c, d), d.pr == c.pr,
        forall|v: int| 0 <= v < c.pr.len() && c.ts[v] == c.t ==> #[trigger] d.ts[v] == c.t && d.ds[v] == c.ds[v],
        forall|v: int| 0 <= v < c.pr.len() && d.ts[v] != c.t ==> #[trigger] d.ts[v] == c.ts[v],
        k != INVALID_IND ==> walk(d, p, s) && p.no_duplicates() && fresh(d, p, p.len() - 1) && d.ts[p.last()] == c.t && k == p.len() - 1 + d.ds[p.last()],
{
    lemma_walk_len(c, p, s);
    if c.ts[j] != c.t && c.pr[j] == TERMINAL && k != INVALID_IND {
        lemma_rooted(c, j);
        assert forall|x: int| 0 <= x < p.len() - 1 implies #[trigger] step(d, p, x) by { assert(step(c, p, x)); }
        assert forall|x: int| 0 <= x < p.len() - 1 implies d.ts[#[trigger] p[x]] != d.t by { assert(p[x] != p[p.len() - 1]); assert(c.ts[p[x]] != c.t); }
    }
    if c.pr[j] == ORPHAN { assert(verd(c, j)); }
}
spec fn adopted(g: GraphCut, h: GraphCut, i: int) -> bool {
    let c = core(g); let d = core(h);
    &&& inv(d) && ver(d) && bnd(d, c.pr.len() + c.t) && same_net(c, d) && g.flow == h.flow && lens(h) && d.pr.len() == c.pr.len() && comp(d, h.next@)
    &&& (forall|cur: int| #![trigger queues(g.next@, g.queue_first@, g.queue_last@, cur)] #![trigger queues(h.next@, h.queue_first@, h.queue_last@, cur)] queues(g.next@, g.queue_first@, g.queue_last@, cur) ==> queues(h.next@, h.queue_first@, h.queue_last@, cur))
    &&& (forall|nxt: usize| #![trigger orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false)] #![trigger orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false)] orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false) ==> orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false))
    &&& (forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(d, v) ==> alive(c, v)) && alive(c, i) && !alive(d, i)
    &&& (forall|v: int| 0 <= v < c.pr.len() && #[trigger] g.next@[v] != INVALID_IND ==> h.next@[v] != INVALID_IND)
}
spec fn searched(g: GraphCut, h: GraphCut) -> bool {
    let c = core(g); let d = core(h);
    &&& rest_t(g, h) && inv(d) && ver(d) && bnd(d, c.pr.len() + c.t) && lens(h)
    &&& forall|v: int| 0 <= v < c.pr.len() && d.ts[v] != c.t ==> #[trigger] d.ts[v] == c.ts[v]
}
spec fn freeing(g: GraphCut, h: GraphCut, i: int, l: int) -> bool {
    let c = core(g); let d = core(h);
    &&& cfree(d, h.next@, i, l) && bnd(d, c.pr.len() + c.t) && same_net(c, d) && g.flow == h.flow && lens(h) && d.pr.len() == c.pr.len()
    &&& (forall|cur: int| #[trigger] queues(g.next@, g.queue_first@, g.queue_last@, cur) ==> queues(h.next@, h.queue_first@, h.queue_last@, cur))
    &&& (forall|nxt: usize| #[trigger] orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false) ==> orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false))
    &&& (forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(d, v) ==> alive(c, v)) && !alive(d, i)
    &&& (forall|v: int| 0 <= v < c.pr.len() && #[trigger] g.next@[v] != INVALID_IND ==> h.next@[v] != INVALID_IND)
}
proof fn lemma_to_free(g: GraphCut, b: GraphCut, h: GraphCut, i: int)
    requires searched(g, b), comp(core(g), g.next@), 0 <= i < b.parent@.len(), b.parent@[i] == ORPHAN, same_net(core(b), core(h)), h.ts@ == b.ts@, h.dist@ == b.dist@, h.parent@ =~= b.parent@.update(i, INVALID_IND),
        h.next@ == b.next@, h.queue_first@ == b.queue_first@, h.queue_last@ == b.queue_last@, h.next_orphan@ == b.next_orphan@, h.orphan_first == b.orphan_first, h.orphan_last == b.orphan_last, h.flow == b.flow,
    ensures freeing(g, h, i, lim(h.first_arc@[i])), alive(core(g), i),
{
    let c = core(g); let d = core(b); let e = core(h);
    lemma_comp_marks(c, d, g.next@);
    lemma_freed(d, e, h.next@, i);
    assert(verd(d, i));
    assert forall|nxt: usize| #[trigger] orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false) implies orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false) by { lemma_owned(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, g.parent@, h.parent@, i); }
    assert forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(e, v) implies alive(c, v) by { }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] e.ds[v] <= c.pr.len() + c.t by { assert(d.ds[v] <= c.pr.len() + c.t); }
}
proof fn lemma_to_adopt(g: GraphCut, b: GraphCut, h: GraphCut, i: int, k: usize, dd: usize)
    requires searched(g, b), comp(core(g), g.next@), 0 <= i < b.parent@.len(), b.parent@[i] == ORPHAN, same_net(core(b), core(h)), cand(core(b), i, k, dd),
        h.parent@ =~= b.parent@.update(i, k), h.ts@ =~= b.ts@.update(i, b.time), h.dist@ =~= b.dist@.update(i, (dd + 1) as usize),
        h.next@ == b.next@, h.queue_first@ == b.queue_first@, h.queue_last@ == b.queue_last@, h.next_orphan@ == b.next_orphan@, h.orphan_first == b.orphan_first, h.orphan_last == b.orphan_last, h.flow == b.flow,
    ensures adopted(g, h, i),
{
    let c = core(g); let d = core(b); let e = core(h);
    lemma_comp_marks(c, d, g.next@);
    lemma_adopt(d, e, i, k, dd);
    assert(verd(d, i));
    assert(comp(d, h.next@));
    assert forall|nxt: usize| #[trigger] orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false) implies orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false) by { lemma_owned(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, g.parent@, h.parent@, i); }
    assert forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(e, v) implies alive(c, v) by { assert(v != i); }
}
proof fn lemma_neighbour(g: GraphCut, b: GraphCut, h: GraphCut, i: int, k: int)
    requires freeing(g, b, i, k), isa(b.arcs@, k), tl(b.arcs@, k) == i, 0 <= i < b.parent@.len(), same_net(core(b), core(h)), h.ts@ == b.ts@, h.dist@ == b.dist@, h.flow == b.flow, lens(h), h.parent@.len() == b.parent@.len(),
        (forall|cur: int| #[trigger] queues(b.next@, b.queue_first@, b.queue_last@, cur) ==> queues(h.next@, h.queue_first@, h.queue_last@, cur)), (forall|nxt: usize| #[trigger] orphans(b.next_orphan@, b.orphan_first, b.orphan_last, nxt, b.parent@, -1, false) ==> orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false)),
        forall|v: int| 0 <= v < b.parent@.len() && #[trigger] b.next@[v] != INVALID_IND ==> h.next@[v] != INVALID_IND,
        ({ let c = core(b); let j = hd(c.a, k); let tree = c.sk[j] == c.sk[i] && c.pr[j] != INVALID_IND;
            &&& tree && upa(c, c.sk[i], k) != 0 ==> h.next@[j] != INVALID_IND
            &&& h.parent@ =~= (if tree && arcp(c, j) && par(c, j) == i { c.pr.update(j, ORPHAN) } else { c.pr }) }),
    ensures freeing(g, h, i, lim(b.arcs@[k].next)),
{
    let c = core(g); let d = core(b); let e = core(h);
    lemma_neigh(d, e, b.next@, h.next@, i, k);
    assert forall|cur: int| #[trigger] queues(g.next@, g.queue_first@, g.queue_last@, cur) implies queues(h.next@, h.queue_first@, h.queue_last@, cur) by { assert(queues(b.next@, b.queue_first@, b.queue_last@, cur)); }
    assert forall|nxt: usize| #[trigger] orphans(g.next_orphan@, g.orphan_first, g.orphan_last, nxt, g.parent@, i, false) implies orphans(h.next_orphan@, h.orphan_first, h.orphan_last, nxt, h.parent@, -1, false) by { assert(orphans(b.next_orphan@, b.orphan_first, b.orphan_last, nxt, b.parent@, -1, false)); }
    assert forall|v: int| 0 <= v < c.pr.len() && #[trigger] alive(e, v) implies alive(c, v) by { assert(alive(d, v)); }
    assert forall|v: int| 0 <= v < c.pr.len() && #[trigger] g.next@[v] != INVALID_IND implies h.next@[v] != INVALID_IND by { assert(b.next@[v] != INVALID_IND); }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] e.ds[v] <= c.pr.len() + c.t by { assert(d.ds[v] <= c.pr.len() + c.t); }
    assert(d.pr[i] == INVALID_IND); assert(e.pr[i] == INVALID_IND);
}
proof fn lemma_last(no: Seq<usize>, f: usize, l: usize, nxt: usize, pr: Seq<usize>)
    requires orphans(no, f, l, nxt, pr, -1, false),
    ensures l == INVALID_IND || l < no.len(), no.len() == pr.len(),
{ let (o, s) = choose|o: Seq<int>, s: Seq<int>| #[trigger] owf(no, f, l, nxt, pr, -1, false, o, s); if o.len() > 0 { assert(0 <= o[o.len() - 1] < no.len()); } }
impl GraphCut {
//@FN src/graphcut/mod.rs GraphCut::set_active (i)
//@ requires i < old(self).next@.len(), hasq(old(self).next@, old(self).queue_first@, old(self).queue_last@),
//@ ensures rest_q(*old(self), *final(self)), final(self).next@[i as int] != INVALID_IND,
//@     forall|cur: int| #![trigger queues(old(self).next@, old(self).queue_first@, old(self).queue_last@, cur)] #![trigger queues(final(self).next@, final(self).queue_first@, final(self).queue_last@, cur)] queues(old(self).next@, old(self).queue_first@, old(self).queue_last@, cur) ==> queues(final(self).next@, final(self).queue_first@, final(self).queue_last@, cur),
//@     forall|v: int| 0 <= v < old(self).next@.len() && v != i ==> (#[trigger] final(self).next@[v] == INVALID_IND <==> old(self).next@[v] == INVALID_IND),
//@START:
//@ proof { let vx_c = choose|cur: int| #[trigger] queues(self.next@, self.queue_first@, self.queue_last@, cur); lemma_queue_ends(self.next@, self.queue_first@, self.queue_last@, vx_c); }
//@ let ghost vx_o = *self;
//@END:
//@ proof { assert forall|cur: int| #[trigger] queues(vx_o.next@, vx_o.queue_first@, vx_o.queue_last@, cur) implies queues(self.next@, self.queue_first@, self.queue_last@, cur) by { lemma_enqueue(vx_o.next@, self.next@, vx_o.queue_first@, self.queue_first@, vx_o.queue_last@, self.queue_last@, cur, i as int); } }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::next_active () -> vx_r
//@ requires queues(old(self).next@, old(self).queue_first@, old(self).queue_last@, -1), old(self).parent@.len() == old(self).next@.len(),
//@ ensures rest_q(*old(self), *final(self)), queues(final(self).next@, final(self).queue_first@, final(self).queue_last@, -1),
//@     vx_r == INVALID_IND ==> forall|v: int| 0 <= v < old(self).next@.len() ==> #[trigger] final(self).next@[v] == INVALID_IND,
//@     vx_r != INVALID_IND ==> vx_r < old(self).next@.len() && final(self).next@[vx_r as int] == INVALID_IND && old(self).parent@[vx_r as int] != INVALID_IND,
//@     forall|v: int| 0 <= v < old(self).next@.len() && v != vx_r && #[trigger] final(self).next@[v] == INVALID_IND ==> old(self).next@[v] == INVALID_IND || old(self).parent@[v] == INVALID_IND,
//@     forall|v: int| 0 <= v < old(self).next@.len() && #[trigger] final(self).next@[v] != INVALID_IND ==> old(self).next@[v] != INVALID_IND, vx_r != INVALID_IND ==> old(self).next@[vx_r as int] != INVALID_IND,
//@START:
//@ let ghost vx_s = choose|s: (Seq<int>, Seq<int>)| qwf(self.next@, self.queue_first@, self.queue_last@, -1, s.0, s.1);
//@ proof { let (q, r) = choose|q: Seq<int>, r: Seq<int>| #[trigger] qwf(self.next@, self.queue_first@, self.queue_last@, -1, q, r); assert(qwf(self.next@, self.queue_first@, self.queue_last@, -1, (q, r).0, (q, r).1)); }
//@ let ghost mut vx_q = vx_s.0;
//@ let ghost mut vx_p = vx_s.1;
//@LOOP 0:
//@ invariant rest_q(*old(self), *self), qwf(self.next@, self.queue_first@, self.queue_last@, -1, vx_q, vx_p), self.parent@.len() == self.next@.len(),
//@     forall|v: int| 0 <= v < self.next@.len() && #[trigger] self.next@[v] == INVALID_IND ==> old(self).next@[v] == INVALID_IND || old(self).parent@[v] == INVALID_IND,
//@     forall|v: int| 0 <= v < self.next@.len() && #[trigger] self.next@[v] != INVALID_IND ==> old(self).next@[v] != INVALID_IND,
//@ decreases vx_q.len() + vx_p.len(),
//@LOOPSTART 0:
//@ let ghost vx_g = *self;
//@ let ghost vx_e = vx_q.len() == 0;
//@ let ghost vx_f = if vx_e { self.queue_first@.update(0, self.queue_first@[1]).update(1, INVALID_IND) } else { self.queue_first@ };
//@ let ghost vx_l = if vx_e { self.queue_last@.update(0, self.queue_last@[1]).update(1, INVALID_IND) } else { self.queue_last@ };
//@ let ghost vx_a = if vx_e { vx_p } else { vx_q };
//@ let ghost vx_b = if vx_e { vx_q } else { vx_p };
//@ proof { if vx_e { lemma_swap(self.next@, self.queue_first@, self.queue_last@, vx_q, vx_p); } assert(qwf(self.next@, vx_f, vx_l, -1, vx_a, vx_b)); if vx_a.len() > 0 { assert(0 <= vx_a[0] < self.next@.len()); assert(vx_a.contains(vx_a[0])); } if vx_q.len() > 0 { assert(0 <= vx_q[0] < self.next@.len()); } }
//@LOOPEND 0:
//@ proof { lemma_dequeue(vx_g.next@, vx_f, vx_l, vx_a, vx_b, self.next@, self.queue_first@, self.queue_last@); vx_q = vx_a.skip(1); vx_p = vx_b; }
//@RETURN 0:
//@ proof { assert(self.queue_first@ =~= vx_f); assert(self.queue_last@ =~= vx_l); assert forall|v: int| 0 <= v < self.next@.len() implies #[trigger] self.next@[v] == INVALID_IND by { assert(self.next@[v] != INVALID_IND <==> inq(vx_a, vx_b, v) || v == -1); } }
//@RETURN 1:
//@ proof { lemma_dequeue(vx_g.next@, vx_f, vx_l, vx_a, vx_b, self.next@, self.queue_first@, self.queue_last@); }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::set_orphan_front (i)
//@ requires i < old(self).parent@.len(), i < old(self).next_orphan@.len(),
//@ ensures rest_o(*old(self), *final(self)), final(self).parent@ == old(self).parent@.update(i as int, ORPHAN), final(self).next_orphan@ == old(self).next_orphan@.update(i as int, old(self).orphan_first),
//@     final(self).orphan_first == i, final(self).orphan_last == old(self).orphan_last,
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::set_orphan_rear (i)
//@ requires i < old(self).parent@.len(), old(self).parent@[i as int] != ORPHAN, haso(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, old(self).parent@, -1),
//@ ensures rest_o(*old(self), *final(self)), final(self).parent@ == old(self).parent@.update(i as int, ORPHAN),
//@     forall|nxt: usize| #[trigger] orphans(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, nxt, old(self).parent@, -1, false) ==> orphans(final(self).next_orphan@, final(self).orphan_first, final(self).orphan_last, nxt, final(self).parent@, -1, false),
//@START:
//@ proof { let vx_n = choose|nxt: usize| #[trigger] orphans(self.next_orphan@, self.orphan_first, self.orphan_last, nxt, self.parent@, -1, false); lemma_last(self.next_orphan@, self.orphan_first, self.orphan_last, vx_n, self.parent@); }
//@ let ghost vx_o = *self;
//@END:
//@ proof { assert forall|nxt: usize| #[trigger] orphans(vx_o.next_orphan@, vx_o.orphan_first, vx_o.orphan_last, nxt, vx_o.parent@, -1, false) implies orphans(self.next_orphan@, self.orphan_first, self.orphan_last, nxt, self.parent@, -1, false) by { lemma_rear(vx_o.next_orphan@, self.next_orphan@, vx_o.orphan_first, self.orphan_first, vx_o.orphan_last, nxt, vx_o.parent@, self.parent@, i as int); } }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::process_source_orphan (i)
//@ requires inv(core(*old(self))), ver(core(*old(self))), bnd(core(*old(self)), old(self).parent@.len() + old(self).time), lens(*old(self)), comp(core(*old(self)), old(self).next@),
//@     i < old(self).parent@.len(), old(self).parent@[i as int] == ORPHAN, old(self).is_sink@[i as int] == false,
//@     hasq(old(self).next@, old(self).queue_first@, old(self).queue_last@), haso(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, old(self).parent@, i as int),
//@ ensures adopted(*old(self), *final(self), i as int),
//@START:
//@ let ghost vx_cur = choose|cur: int| #[trigger] queues(self.next@, self.queue_first@, self.queue_last@, cur);
//@ let ghost vx_nxt = choose|nxt: usize| #[trigger] orphans(self.next_orphan@, self.orphan_first, self.orphan_last, nxt, self.parent@, i as int, false);
//@ let ghost vx_n = self.parent@.len() as int;
//@ proof { assert(okfirst(self.arcs@, self.first_arc@, i as int)); }
//@LOOP 0:
//@ invariant searched(*old(self), *self), i < self.parent@.len(), self.parent@[i as int] == ORPHAN, self.is_sink@[i as int] == false, vx_n == self.parent@.len(),
//@     a0 == INVALID_IND || isa(self.arcs@, a0 as int) && tl(self.arcs@, a0 as int) == i,
//@     a0_min == INVALID_IND && d_min == INVALID_IND || cand(core(*self), i as int, a0_min, d_min),
//@ decreases lim(a0) + 1,
//@LOOPSTART 0:
//@ let ghost vx_g0 = *self;
//@ let ghost vx_k = a0;
//@ proof { assert(okarc(self.arcs@, vx_n, a0 as int)); assert(okarc(self.arcs@, vx_n, ss(self.arcs@, a0 as int))); assert(oknext(self.arcs@, self.first_arc@, a0 as int)); }
//@BEFORE 1:
//@ let ghost vx_c1 = core(*self);
//@ let ghost mut vx_p = seq![j as int];
//@ proof { assert(walk(vx_c1, vx_p, false)); assert(fresh(vx_c1, vx_p, 0)); }
//@LOOP 1:
//@ invariant_except_break core(*self) == vx_c1, walk(vx_c1, vx_p, false), vx_p.last() == j, d == vx_p.len() - 1, fresh(vx_c1, vx_p, vx_p.len() - 1),
//@ invariant vx_p.len() >= 1, vx_p[0] == hd(vx_g0.arcs@, vx_k as int), inv(vx_c1), ver(vx_c1), bnd(vx_c1, vx_n + vx_c1.t), vx_n == vx_c1.pr.len(), self.time == vx_c1.t, rest_t(*old(self), *self), lens(*self),
//@ ensures found(vx_c1, core(*self), vx_p, j as int, d, false),
//@ decreases vx_c1.t - vx_c1.ts[j as int], vx_c1.ds[j as int],
//@LOOPSTART 1:
//@ proof { lemma_walk_len(vx_c1, vx_p, false); assert(vx_p[vx_p.len() - 1] == j); assert(node(vx_c1, -1, -1, j as int)); assert(vx_c1.ds[j as int] <= vx_n + vx_c1.t); if arcp(vx_c1, j as int) { assert(edge(vx_c1, -1, -1, j as int)); assert(okarc(vx_c1.a, vx_n, vx_c1.pr[j as int] as int)); } }
//@ let ghost vx_j = j as int;
//@LOOPEND 1:
//@ proof { lemma_walk_push(vx_c1, vx_p, false, j as int); assert(node(vx_c1, -1, -1, j as int)); assert(node(vx_c1, -1, -1, vx_j)); let vx_w = vx_p.push(j as int); assert forall|x: int| 0 <= x < vx_w.len() - 1 implies vx_c1.ts[#[trigger] vx_w[x]] != vx_c1.t by { assert(vx_w[x] == vx_p[x]); } vx_p = vx_w; }
//@AFTER 1:
//@ let ghost vx_c2 = core(*self);
//@ proof { lemma_found(vx_c1, vx_c2, vx_p, j as int, d, false); }
//@BEFORE 2:
//@ let ghost vx_d = d as int;
//@ let ghost mut vx_m = 0int;
//@ proof { assert(vx_p[0] == j); assert(marked(vx_c2, core(*self), vx_p, 0, vx_d)); lemma_walk_len(vx_c2, vx_p, false); }
//@LOOP 2:
//@ invariant_except_break 0 <= vx_m < vx_p.len(), j == vx_p[vx_m], d == vx_d - vx_m, marked(vx_c2, core(*self), vx_p, vx_m, vx_d),
//@ invariant inv(vx_c2), ver(vx_c2), walk(vx_c2, vx_p, false), vx_p.no_duplicates(), fresh(vx_c2, vx_p, vx_p.len() - 1), vx_c2.ts[vx_p.last()] == vx_c2.t, vx_d == vx_p.len() - 1 + vx_c2.ds[vx_p.last()], vx_d < INVALID_IND,
//@     vx_n == vx_c2.pr.len(), self.time == vx_c2.t, rest_t(*old(self), *self), lens(*self),
//@ ensures marked(vx_c2, core(*self), vx_p, vx_p.len() - 1, vx_d),
//@ decreases vx_p.len() - vx_m,
//@LOOPSTART 2:
//@ let ghost vx_e = core(*self);
//@ proof { lemma_unhit(vx_p, vx_m); assert(vx_e.ts[vx_p[vx_m]] == vx_c2.ts[vx_p[vx_m]]); assert(node(vx_c2, -1, -1, vx_p.last())); if vx_m < vx_p.len() - 1 { assert(step(vx_c2, vx_p, vx_m)); assert(vx_c2.ts[vx_p[vx_m]] != vx_c2.t); assert(vx_c2.ds[vx_p.last()] >= 1); } }
//@LOOPEND 2:
//@ proof { lemma_mark(vx_c2, vx_e, core(*self), vx_p, vx_m, vx_d); vx_m = vx_m + 1; }
//@AFTER 2:
//@ proof { lemma_marked(vx_c2, core(*self), vx_p, false, vx_d); }
//@LOOPEND 0:
//@ proof { if a0_min != INVALID_IND && a0_min != vx_k { let vx_w = hd(self.arcs@, a0_min as int); assert(vx_g0.ts@[vx_w] == self.time); assert(vx_c2.ts[vx_w] == self.time); assert(self.ts@[vx_w] == self.time); assert(cand(core(*self), i as int, a0_min, d_min)); }
//@     assert forall|v: int| 0 <= v < vx_n && self.ts@[v] != self.time implies #[trigger] self.ts@[v] == old(self).ts@[v] by { assert(vx_c2.ts[v] == vx_g0.ts@[v]); }
//@     assert(searched(*old(self), *self)); }
//@AFTER 0:
//@ let ghost vx_h = *self;
//@BEFORE 3:
//@ proof { lemma_to_free(*old(self), vx_h, *self, i as int); assert(okfirst(self.arcs@, self.first_arc@, i as int)); }
//@LOOP 3:
//@ invariant freeing(*old(self), *self, i as int, lim(a0)), i < self.parent@.len(), vx_n == self.parent@.len(), self.is_sink@[i as int] == false, a0_min == INVALID_IND,
//@     a0 == INVALID_IND || isa(self.arcs@, a0 as int) && tl(self.arcs@, a0 as int) == i,
//@     queues(old(self).next@, old(self).queue_first@, old(self).queue_last@, vx_cur), orphans(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, vx_nxt, old(self).parent@, i as int, false),
//@ decreases lim(a0) + 1,
//@LOOPSTART 3:
//@ let ghost vx_b = *self;
//@ let ghost vx_k = a0 as int;
//@ proof { assert(okarc(self.arcs@, vx_n, vx_k)); assert(okarc(self.arcs@, vx_n, ss(self.arcs@, vx_k))); assert(oknext(self.arcs@, self.first_arc@, vx_k)); assert(node(core(*self), i as int, vx_k, hd(self.arcs@, vx_k))); assert(queues(self.next@, self.queue_first@, self.queue_last@, vx_cur)); assert(orphans(self.next_orphan@, self.orphan_first, self.orphan_last, vx_nxt, self.parent@, -1, false)); assert(hasq(self.next@, self.queue_first@, self.queue_last@)); assert(haso(self.next_orphan@, self.orphan_first, self.orphan_last, self.parent@, -1)); }
//@LOOPEND 3:
//@ proof { lemma_neighbour(*old(self), vx_b, *self, i as int, vx_k); }
//@END:
//@ proof { if a0_min != INVALID_IND { lemma_to_adopt(*old(self), vx_h, *self, i as int, a0_min, d_min); } else { lemma_free_end(core(*self), self.next@, i as int); assert(alive(core(*old(self)), i as int)); } }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::process_sink_orphan (i)
//@ requires inv(core(*old(self))), ver(core(*old(self))), bnd(core(*old(self)), old(self).parent@.len() + old(self).time), lens(*old(self)), comp(core(*old(self)), old(self).next@),
//@     i < old(self).parent@.len(), old(self).parent@[i as int] == ORPHAN, old(self).is_sink@[i as int] == true,
//@     hasq(old(self).next@, old(self).queue_first@, old(self).queue_last@), haso(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, old(self).parent@, i as int),
//@ ensures adopted(*old(self), *final(self), i as int),
//@START:
//@ let ghost vx_cur = choose|cur: int| #[trigger] queues(self.next@, self.queue_first@, self.queue_last@, cur);
//@ let ghost vx_nxt = choose|nxt: usize| #[trigger] orphans(self.next_orphan@, self.orphan_first, self.orphan_last, nxt, self.parent@, i as int, false);
//@ let ghost vx_n = self.parent@.len() as int;
//@ proof { assert(okfirst(self.arcs@, self.first_arc@, i as int)); }
//@LOOP 0:
//@ invariant searched(*old(self), *self), i < self.parent@.len(), self.parent@[i as int] == ORPHAN, self.is_sink@[i as int] == true, vx_n == self.parent@.len(),
//@     a0 == INVALID_IND || isa(self.arcs@, a0 as int) && tl(self.arcs@, a0 as int) == i,
//@     a0_min == INVALID_IND && d_min == INVALID_IND || cand(core(*self), i as int, a0_min, d_min),
//@ decreases lim(a0) + 1,
//@LOOPSTART 0:
//@ let ghost vx_g0 = *self;
//@ let ghost vx_k = a0;
//@ proof { assert(okarc(self.arcs@, vx_n, a0 as int)); assert(okarc(self.arcs@, vx_n, ss(self.arcs@, a0 as int))); assert(oknext(self.arcs@, self.first_arc@, a0 as int)); }
//@BEFORE 1:
//@ let ghost vx_c1 = core(*self);
//@ let ghost mut vx_p = seq![j as int];
//@ proof { assert(walk(vx_c1, vx_p, true)); assert(fresh(vx_c1, vx_p, 0)); }
//@LOOP 1:
//@ invariant_except_break core(*self) == vx_c1, walk(vx_c1, vx_p, true), vx_p.last() == j, d == vx_p.len() - 1, fresh(vx_c1, vx_p, vx_p.len() - 1),
//@ invariant vx_p.len() >= 1, vx_p[0] == hd(vx_g0.arcs@, vx_k as int), inv(vx_c1), ver(vx_c1), bnd(vx_c1, vx_n + vx_c1.t), vx_n == vx_c1.pr.len(), self.time == vx_c1.t, rest_t(*old(self), *self), lens(*self),
//@ ensures found(vx_c1, core(*self), vx_p, j as int, d, true),
//@ decreases vx_c1.t - vx_c1.ts[j as int], vx_c1.ds[j as int],
//@LOOPSTART 1:
//@ proof { lemma_walk_len(vx_c1, vx_p, true); assert(vx_p[vx_p.len() - 1] == j); assert(node(vx_c1, -1, -1, j as int)); assert(vx_c1.ds[j as int] <= vx_n + vx_c1.t); if arcp(vx_c1, j as int) { assert(edge(vx_c1, -1, -1, j as int)); assert(okarc(vx_c1.a, vx_n, vx_c1.pr[j as int] as int)); } }
//@ let ghost vx_j = j as int;
//@LOOPEND 1:
//@ proof { lemma_walk_push(vx_c1, vx_p, true, j as int); assert(node(vx_c1, -1, -1, j as int)); assert(node(vx_c1, -1, -1, vx_j)); let vx_w = vx_p.push(j as int); assert forall|x: int| 0 <= x < vx_w.len() - 1 implies vx_c1.ts[#[trigger] vx_w[x]] != vx_c1.t by { assert(vx_w[x] == vx_p[x]); } vx_p = vx_w; }
//@AFTER 1:
//@ let ghost vx_c2 = core(*self);
//@ proof { lemma_found(vx_c1, vx_c2, vx_p, j as int, d, true); }
//@BEFORE 2:
//@ let ghost vx_d = d as int;
//@ let ghost mut vx_m = 0int;
//@ proof { assert(vx_p[0] == j); assert(marked(vx_c2, core(*self), vx_p, 0, vx_d)); lemma_walk_len(vx_c2, vx_p, true); }
//@LOOP 2:
//@ invariant_except_break 0 <= vx_m < vx_p.len(), j == vx_p[vx_m], d == vx_d - vx_m, marked(vx_c2, core(*self), vx_p, vx_m, vx_d),
//@ invariant inv(vx_c2), ver(vx_c2), walk(vx_c2, vx_p, true), vx_p.no_duplicates(), fresh(vx_c2, vx_p, vx_p.len() - 1), vx_c2.ts[vx_p.last()] == vx_c2.t, vx_d == vx_p.len() - 1 + vx_c2.ds[vx_p.last()], vx_d < INVALID_IND,
//@     vx_n == vx_c2.pr.len(), self.time == vx_c2.t, rest_t(*old(self), *self), lens(*self),
//@ ensures marked(vx_c2, core(*self), vx_p, vx_p.len() - 1, vx_d),
//@ decreases vx_p.len() - vx_m,
//@LOOPSTART 2:
//@ let ghost vx_e = core(*self);
//@ proof { lemma_unhit(vx_p, vx_m); assert(vx_e.ts[vx_p[vx_m]] == vx_c2.ts[vx_p[vx_m]]); assert(node(vx_c2, -1, -1, vx_p.last())); if vx_m < vx_p.len() - 1 { assert(step(vx_c2, vx_p, vx_m)); assert(vx_c2.ts[vx_p[vx_m]] != vx_c2.t); assert(vx_c2.ds[vx_p.last()] >= 1); } }
//@LOOPEND 2:
//@ proof { lemma_mark(vx_c2, vx_e, core(*self), vx_p, vx_m, vx_d); vx_m = vx_m + 1; }
//@AFTER 2:
//@ proof { lemma_marked(vx_c2, core(*self), vx_p, true, vx_d); }
//@LOOPEND 0:
//@ proof { if a0_min != INVALID_IND && a0_min != vx_k { let vx_w = hd(self.arcs@, a0_min as int); assert(vx_g0.ts@[vx_w] == self.time); assert(vx_c2.ts[vx_w] == self.time); assert(self.ts@[vx_w] == self.time); assert(cand(core(*self), i as int, a0_min, d_min)); }
//@     assert forall|v: int| 0 <= v < vx_n && self.ts@[v] != self.time implies #[trigger] self.ts@[v] == old(self).ts@[v] by { assert(vx_c2.ts[v] == vx_g0.ts@[v]); }
//@     assert(searched(*old(self), *self)); }
//@AFTER 0:
//@ let ghost vx_h = *self;
//@BEFORE 3:
//@ proof { lemma_to_free(*old(self), vx_h, *self, i as int); assert(okfirst(self.arcs@, self.first_arc@, i as int)); }
//@LOOP 3:
//@ invariant freeing(*old(self), *self, i as int, lim(a0)), i < self.parent@.len(), vx_n == self.parent@.len(), self.is_sink@[i as int] == true, a0_min == INVALID_IND,
//@     a0 == INVALID_IND || isa(self.arcs@, a0 as int) && tl(self.arcs@, a0 as int) == i,
//@     queues(old(self).next@, old(self).queue_first@, old(self).queue_last@, vx_cur), orphans(old(self).next_orphan@, old(self).orphan_first, old(self).orphan_last, vx_nxt, old(self).parent@, i as int, false),
//@ decreases lim(a0) + 1,
//@LOOPSTART 3:
//@ let ghost vx_b = *self;
//@ let ghost vx_k = a0 as int;
//@ proof { assert(okarc(self.arcs@, vx_n, vx_k)); assert(okarc(self.arcs@, vx_n, ss(self.arcs@, vx_k))); assert(oknext(self.arcs@, self.first_arc@, vx_k)); assert(node(core(*self), i as int, vx_k, hd(self.arcs@, vx_k))); assert(queues(self.next@, self.queue_first@, self.queue_last@, vx_cur)); assert(orphans(self.next_orphan@, self.orphan_first, self.orphan_last, vx_nxt, self.parent@, -1, false)); assert(hasq(self.next@, self.queue_first@, self.queue_last@)); assert(haso(self.next_orphan@, self.orphan_first, self.orphan_last, self.parent@, -1)); }
//@LOOPEND 3:
//@ proof { lemma_neighbour(*old(self), vx_b, *self, i as int, vx_k); }
//@END:
//@ proof { if a0_min != INVALID_IND { lemma_to_adopt(*old(self), vx_h, *self, i as int, a0_min, d_min); } else { lemma_free_end(core(*self), self.next@, i as int); assert(alive(core(*old(self)), i as int)); } }
//@ENDFN
}
// ---- augmenting ----
spec fn capok(c: C, p: Seq<int>, x: int, b: int) -> bool { b <= up(c, p[x]) }
spec fn caps(c: C, p: Seq<int>, m: int, b: int) -> bool { forall|x: int| m <= x < p.len() - 1 ==> #[trigger] capok(c, p, x, b) }
// what is left to do of a path: nodes m.. are as they were in c
spec fn intact(c: C, d: C, p: Seq<int>, m: int, b: int) -> bool {
    &&& caps(d, p, m, b)
    &&& forall|x: int| m <= x < p.len() ==> d.pr[#[trigger] p[x]] == c.pr[p[x]] && d.tr[p[x]] == c.tr[p[x]]
}
spec fn flowed(c: C, d: C) -> bool { inv(d) && outs(c, d) && same_rest(c, d) && d.pr.len() == c.pr.len() && d.tr.len() == c.tr.len() && forall|v: int| 0 <= v < c.pr.len() && #[trigger] d.pr[v] != ORPHAN ==> d.pr[v] == c.pr[v] }
proof fn lemma_flowed(c: C, d: C, e: C)
    requires flowed(c, d), flowed(d, e), inv(c),
    ensures flowed(c, e),
{ lemma_outs(c, d, e); assert forall|v: int| 0 <= v < c.pr.len() && #[trigger] e.pr[v] != ORPHAN implies e.pr[v] == c.pr[v] by { assert(d.pr[v] == e.pr[v]); } }
// changing node v and its parent arc leaves the other nodes of the path alone
proof fn lemma_intact(c: C, d: C, e: C, p: Seq<int>, m: int, v: int, s: bool, b: int)
    requires walk(c, p, s), intact(c, d, p, m, b), 0 <= m, shape(c.a, d.a), e.pr.len() == d.pr.len(), d.pr.len() == c.pr.len(), d.sk == c.sk, e.sk == c.sk, forall|x: int| m <= x < p.len() ==> #[trigger] p[x] != v,
        forall|w: int| 0 <= w < c.pr.len() && w != v && #[trigger] arcp(d, w) ==> up(e, w) == up(d, w),
        forall|w: int| 0 <= w < c.pr.len() && w != v ==> #[trigger] e.pr[w] == d.pr[w] && e.tr[w] == d.tr[w],
    ensures intact(c, e, p, m, b),
{
    assert forall|x: int| m <= x < p.len() - 1 implies #[trigger] capok(e, p, x, b) by { assert(capok(d, p, x, b)); assert(step(c, p, x)); assert(p[x] != v); assert(0 <= p[x] < c.pr.len()); assert(d.pr[p[x]] == c.pr[p[x]]); assert(arcp(d, p[x])); assert(up(e, p[x]) == up(d, p[x])); }
    assert forall|x: int| m <= x < p.len() implies e.pr[#[trigger] p[x]] == c.pr[p[x]] && e.tr[p[x]] == c.tr[p[x]] by { assert(p[x] != v); assert(0 <= p[x] < c.pr.len()); assert(d.pr[p[x]] == c.pr[p[x]]); assert(e.pr[p[x]] == d.pr[p[x]]); }
}
// nothing starts in x's list before the others: the state after augment, seen from before
spec fn augmented(g: GraphCut, h: GraphCut) -> bool {
    let c = core(g); let d = core(h);
    &&& flowed(c, d) && lens(h) && g.next@ == h.next@ && g.queue_first@ == h.queue_first@ && g.queue_last@ == h.queue_last@ && h.orphan_last == INVALID_IND
    &&& orphans(h.next_orphan@, INVALID_IND, INVALID_IND, h.orphan_first, h.parent@, -1, false)
}
proof fn lemma_none(no: Seq<usize>, pr: Seq<usize>)
    requires no.len() == pr.len(), no.len() < TERMINAL, forall|v: int| 0 <= v < pr.len() ==> #[trigger] pr[v] != ORPHAN,
    ensures orphans(no, INVALID_IND, INVALID_IND, INVALID_IND, pr, -1, false),
{
    let o = Seq::<int>::empty();
    assert forall|v: int| 0 <= v < pr.len() implies (#[trigger] pr[v] == ORPHAN && v != -1 <==> inq(o, o, v)) by { assert(pr[v] != ORPHAN); }
    assert(owf(no, INVALID_IND, INVALID_IND, INVALID_IND, pr, -1, false, o, o));
}
// one node of a path: b flows through its parent arc (or from / to its terminal)
spec fn pushed(g: GraphCut, h: GraphCut, v: int, z: bool) -> bool {
    &&& g.next@ == h.next@ && g.queue_first@ == h.queue_first@ && g.queue_last@ == h.queue_last@ && h.orphan_last == g.orphan_last && h.flow == g.flow
    &&& if z { h.next_orphan@ =~= g.next_orphan@.update(v, g.orphan_first) && h.orphan_first == v } else { h.next_orphan@ == g.next_orphan@ && h.orphan_first == g.orphan_first }
}
proof fn lemma_pushed(o: GraphCut, g: GraphCut, h: GraphCut, p: Seq<int>, m: int, r: Seq<int>, k: int, s: bool, b: int)
    requires inv(core(o)), augmented(o, g), walk(core(o), p, s), p.no_duplicates(), walk(core(o), r, !s), 0 <= m < p.len(), 0 <= k, intact(core(o), core(g), p, m, b), intact(core(o), core(g), r, k, b), 0 < b,
        core(o).pr[p.last()] == TERMINAL,
        ({ let c = core(g); let d = core(h); let v = p[m];
            if m < p.len() - 1 { moved(c.a, d.a, down(c, v), b) && same_rest(c, d) && d.tr == c.tr && d.pr =~= (if up(c, v) == b { c.pr.update(v, ORPHAN) } else { c.pr }) && pushed(g, h, v, up(c, v) == b) }
            else { same_rest(c, d) && d.a == c.a && d.tr.len() == c.tr.len() && (forall|j: int| 0 <= j < c.tr.len() && j != v ==> #[trigger] d.tr[j] == c.tr[j]) && b <= (if s { -c.tr[v].v() } else { c.tr[v].v() })
                && d.tr[v].v() == (if s { c.tr[v].v() + b } else { c.tr[v].v() - b }) && d.pr =~= (if d.tr[v].v() == 0 { c.pr.update(v, ORPHAN) } else { c.pr }) && pushed(g, h, v, d.tr[v].v() == 0) } }),
    ensures augmented(o, h), intact(core(o), core(h), p, m + 1, b), intact(core(o), core(h), r, k, b),
        ({ let c = core(g); let d = core(h); let v = p[m];
            if m < p.len() - 1 { forall|t: Seq<bool>| #[trigger] cut(d.a, d.tr, t) == cut(c.a, c.tr, t) + (if s { bz(b, t, v) - bz(b, t, p[m + 1]) } else { bz(b, t, p[m + 1]) - bz(b, t, v) }) }
            else { forall|t: Seq<bool>| #[trigger] cut(d.a, d.tr, t) == cut(c.a, c.tr, t) + (if s { bz(b, t, v) - b } else { -bz(b, t, v) }) } }),
{
    let c0 = core(o); let c = core(g); let d = core(h); let v = p[m];
    assert(0 <= v < c.pr.len()); assert(c.sk[v] == s); assert(c.pr[v] == c0.pr[v] && c.tr[v] == c0.tr[v]);
    assert(node(c, -1, -1, v));
    if m < p.len() - 1 {
        assert(step(c0, p, m)); assert(capok(c, p, m, b)); 
        assert(okarc(c0.a, c0.pr.len() as int, c0.pr[v] as int)); assert(c.a[c0.pr[v] as int].head == c0.a[c0.pr[v] as int].head);
        lemma_step(c, d, v, b);
        assert(par(c, v) == p[m + 1]);
    } else { assert(p.last() == v); lemma_root(c, d, v, b); }
    assert(flowed(c, d));
    lemma_flowed(c0, c, d);
    assert forall|x: int| m + 1 <= x < p.len() implies #[trigger] p[x] != v by { }
    assert forall|x: int| k <= x < r.len() implies #[trigger] r[x] != v by { assert(c0.sk[r[x]] == !s); }
    assert(intact(c0, c, p, m + 1, b)) by { assert forall|x: int| m + 1 <= x < p.len() - 1 implies #[trigger] capok(c, p, x, b) by { assert(capok(c, p, x, b)); } }
    lemma_intact(c0, c, d, p, m + 1, v, s, b);
    lemma_intact(c0, c, d, r, k, v, !s, b);
    assert(c0.pr[v] != INVALID_IND);
    if d.pr[v] == ORPHAN && c.pr[v] != ORPHAN { lemma_front(g.next_orphan@, h.next_orphan@, g.orphan_first, g.parent@, h.parent@, v); }
}
// ---- a solver that has not run yet ----
spec fn ready(g: GraphCut) -> bool {
    let c = core(g);
    &&& base(c) && lens(g) && g.orphan_first == INVALID_IND && g.orphan_last == INVALID_IND && queues(g.next@, g.queue_first@, g.queue_last@, -1)
    &&& forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] node(c, -1, -1, v) && !arcp(c, v) && c.pr[v] != ORPHAN && c.ds[v] <= 1 && (c.pr[v] != INVALID_IND ==> g.next@[v] != INVALID_IND)
}
spec fn steady(o: GraphCut, g: GraphCut) -> bool {
    let c = core(g);
    &&& inv(c) && noorp(c) && lens(g) && g.orphan_first == INVALID_IND && g.orphan_last == INVALID_IND && c.pr.len() == o.parent@.len() && conserved(o, g)
}
proof fn lemma_ready(g: GraphCut)
    requires ready(g),
    ensures steady(g, g), comp(core(g), g.next@), bnd(core(g), g.parent@.len() + g.time),
{
    let c = core(g);
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] c.ds[v] <= c.pr.len() + c.t by { assert(node(c, -1, -1, v)); }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] c.pr[v] != ORPHAN by { assert(node(c, -1, -1, v)); }
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == -1 && b <= -1) implies #[trigger] carc(c, g.next@, b) by { assert(okarc(c.a, c.pr.len() as int, b)); assert(okarc(c.a, c.pr.len() as int, ss(c.a, b))); assert(node(c, -1, -1, tl(c.a, b))); }
}
spec fn later(c: C) -> C { C { t: c.t + 1, ..c } }
proof fn lemma_tick(c: C)
    requires inv(c), bnd(c, c.pr.len() + c.t + 1),
    ensures c.t + 1 < 0x4000_0000_0000_0000 ==> inv(later(c)), ver(later(c)), bnd(later(c), c.pr.len() + later(c).t), noorp(c) ==> noorp(later(c)),
        forall|m: int| middle(c, m) ==> #[trigger] middle(later(c), m), forall|nx: Seq<usize>| comp(c, nx) ==> #[trigger] comp(later(c), nx),
{
    let d = later(c);
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] node(d, -1, -1, v) by { assert(node(c, -1, -1, v)); if arcp(c, v) { assert(edge(c, -1, -1, v)); assert(up(d, v) == up(c, v)); assert(edge(d, -1, -1, v)); } }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] verd(d, v) by { assert(node(c, -1, -1, v)); }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] d.ds[v] <= c.pr.len() + d.t by { assert(c.ds[v] <= c.pr.len() + c.t + 1); }
    if noorp(c) { assert forall|v: int| 0 <= v < d.pr.len() implies #[trigger] d.pr[v] != ORPHAN by { assert(c.pr[v] != ORPHAN); } }
    assert forall|nx: Seq<usize>| comp(c, nx) implies #[trigger] comp(d, nx) by { assert forall|b: int| isa(d.a, b) && !(tl(d.a, b) == -1 && b <= -1) implies #[trigger] carc(d, nx, b) by { assert(carc(c, nx, b)); } }
}
proof fn lemma_set_cur(c: C, nx: Seq<usize>, i: int)
    requires base(c), comp_t(c, nx, i, c.a.len() as int), 0 <= i < nx.len(),
    ensures comp(c, nx.update(i, i as usize)),
{
    let nx2 = nx.update(i, i as usize);
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == -1 && b <= -1) implies #[trigger] carc(c, nx2, b) by { if tl(c.a, b) != i { assert(carc(c, nx, b)); assert(okarc(c.a, c.pr.len() as int, b)); assert(okarc(c.a, c.pr.len() as int, ss(c.a, b))); } }
}
proof fn lemma_wider(c: C, nx: Seq<usize>, i: int, l: int)
    requires comp_t(c, nx, i, l), l < c.a.len(),
    ensures comp_t(c, nx, i, c.a.len() as int), l == -1 ==> comp(c, nx),
{
    assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == i && b <= c.a.len()) implies #[trigger] carc(c, nx, b) by { }
    if l == -1 { assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == -1 && b <= -1) implies #[trigger] carc(c, nx, b) by { } }
}
proof fn lemma_aside0(c: C, nx: Seq<usize>, nx2: Seq<usize>)
    requires base(c), comp(c, nx), nx2.len() == nx.len(), forall|v: int| 0 <= v < nx.len() && #[trigger] nx2[v] == INVALID_IND ==> nx[v] == INVALID_IND || c.pr[v] == INVALID_IND,
    ensures comp(c, nx2),
{ assert forall|b: int| isa(c.a, b) && !(tl(c.a, b) == -1 && b <= -1) implies #[trigger] carc(c, nx2, b) by { assert(okarc(c.a, c.pr.len() as int, b)); assert(okarc(c.a, c.pr.len() as int, ss(c.a, b))); assert(carc(c, nx, b)); } }
// when nothing is active, the cut between the trees is saturated
proof fn lemma_saturated(c: C, nx: Seq<usize>, s: Seq<bool>)
    requires inv(c), noorp(c), comp(c, nx), forall|v: int| 0 <= v < nx.len() ==> #[trigger] nx[v] == INVALID_IND, s.len() == c.pr.len(), forall|v: int| 0 <= v < s.len() ==> #[trigger] s[v] == (c.sk[v] && c.pr[v] != INVALID_IND),
    ensures cut(c.a, c.tr, s) == 0,
{
    let n = c.pr.len() as int;
    assert forall|i: int| 0 <= i < c.a.len() implies #[trigger] cross(c.a, s, i) == 0 by {
        assert(okarc(c.a, n, i)); let b = ss(c.a, i); assert(okarc(c.a, n, b));
        assert(carc(c, nx, b)); let h = hd(c.a, i); let t = tl(c.a, i); assert(tl(c.a, b) == h); assert(nx[h] == INVALID_IND); assert(s[h] == (c.sk[h] && c.pr[h] != INVALID_IND)); assert(s[t] == (c.sk[t] && c.pr[t] != INVALID_IND));
    }
    assert forall|i: int| 0 <= i < n implies tcap(#[trigger] c.tr[i].v(), s[i]) == 0 by { assert(node(c, -1, -1, i)); assert(s[i] == (c.sk[i] && c.pr[i] != INVALID_IND)); }
    lemma_cut_zero(c.a, c.tr, s, c.a.len() as int, n);
}
spec fn growing(o: GraphCut, g: GraphCut, i: int) -> bool {
    let c = core(g);
    &&& steady(o, g) && bnd(c, c.pr.len() + c.t + 1) && 0 <= i < c.pr.len() && c.ds[i] <= c.pr.len() + c.t && c.pr[i] != INVALID_IND && g.next@[i] == INVALID_IND && queues(g.next@, g.queue_first@, g.queue_last@, -1)
}
// one arc of the node that is scanned
spec fn scanned(g: GraphCut, h: GraphCut, i: int, k: int) -> bool { let c = core(g); let d = core(h); let j = hd(c.a, k);
            &&& d.a == c.a && d.f == c.f && d.tr == c.tr && d.t == c.t && h.flow == g.flow && lens(h) && h.orphan_first == g.orphan_first && h.orphan_last == g.orphan_last
            &&& if out(c, k) != 0 && c.pr[j] == INVALID_IND {
                    d.sk =~= c.sk.update(j, c.sk[i]) && d.pr =~= c.pr.update(j, c.a[k].sister) && d.ts =~= c.ts.update(j, c.ts[i]) && d.ds =~= c.ds.update(j, (c.ds[i] + 1) as usize)
                    && h.next@[j] != INVALID_IND && (forall|v: int| 0 <= v < g.next@.len() && v != j ==> (#[trigger] h.next@[v] == INVALID_IND <==> g.next@[v] == INVALID_IND)) && (queues(g.next@, g.queue_first@, g.queue_last@, -1) ==> queues(h.next@, h.queue_first@, h.queue_last@, -1))
                } else {
                    h.next@ == g.next@ && queues(h.next@, h.queue_first@, h.queue_last@, -1) && d.sk == c.sk
                    && if out(c, k) != 0 && c.sk[j] == c.sk[i] && c.ts[j] <= c.ts[i] && c.ds[j] > c.ds[i] { d.pr =~= c.pr.update(j, c.a[k].sister) && d.ts =~= c.ts.update(j, c.ts[i]) && d.ds =~= c.ds.update(j, (c.ds[i] + 1) as usize) } else { d.pr == c.pr && d.ts == c.ts && d.ds == c.ds }
                } }
// how many nodes have (b) or have not (!b) the value INVALID_IND
spec fn nn(s: Seq<usize>, b: bool, k: int) -> int decreases k { if k <= 0 { 0 } else { nn(s, b, k - 1) + (if (s[k - 1] == INVALID_IND) == b { 1int } else { 0 }) } }
proof fn lemma_nn(s: Seq<usize>, t: Seq<usize>, b: bool, j: int, k: int)
    requires forall|v: int| 0 <= v < k && (#[trigger] t[v] == INVALID_IND) == b ==> (s[v] == INVALID_IND) == b,
    ensures 0 <= nn(t, b, k) <= nn(s, b, k), 0 <= j < k && (s[j] == INVALID_IND) == b && (t[j] == INVALID_IND) != b ==> nn(t, b, k) < nn(s, b, k),
    decreases k,
{ if k > 0 { lemma_nn(s, t, b, j, k - 1); } }
proof fn lemma_scan(o: GraphCut, g: GraphCut, h: GraphCut, i: int, k: int)
    requires growing(o, g, i), comp_t(core(g), g.next@, i, k), isa(g.arcs@, k), tl(g.arcs@, k) == i, !middle(core(g), k) || g.is_sink@[i], !middle(core(g), ss(g.arcs@, k)) || !g.is_sink@[i],
        scanned(g, h, i, k),
    ensures growing(o, h, i), comp_t(core(h), h.next@, i, lim(g.arcs@[k].next)), h.is_sink@[i] == g.is_sink@[i], h.flow == g.flow,
        nn(h.parent@, true, g.parent@.len() as int) < nn(g.parent@, true, g.parent@.len() as int) || nn(h.parent@, true, g.parent@.len() as int) == nn(g.parent@, true, g.parent@.len() as int) && h.next@ == g.next@,
{
    let c = core(g); let d = core(h); let j = hd(c.a, k); let n = c.pr.len() as int;
    assert(okarc(c.a, n, k)); assert(okarc(c.a, n, ss(c.a, k))); assert(c.ds[i] <= n + c.t);
    if out(c, k) != 0 && c.pr[j] == INVALID_IND {
        lemma_grow(c, d, g.next@, h.next@, i, j, k);
    } else if out(c, k) != 0 && c.sk[j] == c.sk[i] && c.ts[j] <= c.ts[i] && c.ds[j] > c.ds[i] {
        lemma_shorten(c, d, g.next@, i, j, k);
    } else { assert(d == c); assert(carc(c, g.next@, k)); }
    assert forall|v: int| 0 <= v < n implies #[trigger] d.ds[v] <= n + c.t + 1 by { assert(c.ds[v] <= n + c.t + 1); }
    lemma_next(d, h.next@, i, k);
    lemma_nn(c.pr, d.pr, true, j, n); if !(out(c, k) != 0 && c.pr[j] == INVALID_IND) { lemma_nn(d.pr, c.pr, true, -1, n); }
}
// ---- what the caller hands in ----
spec fn tgiven(a: Seq<VxNum>, b: Seq<VxNum>, s: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { tgiven(a, b, s, k - 1) + (if s[k - 1] { a[k - 1].v() } else { b[k - 1].v() }) } }
spec fn fsum(a: Seq<VxNum>, b: Seq<VxNum>, k: int) -> int decreases k { if k <= 0 { 0 } else { fsum(a, b, k - 1) + (if a[k - 1].v() < b[k - 1].v() { a[k - 1].v() } else { b[k - 1].v() }) } }
proof fn lemma_given(a: Seq<VxNum>, b: Seq<VxNum>, tr: Seq<VxNum>, s: Seq<bool>, k: int)
    requires 0 <= k <= tr.len(), forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).v() == a[i].v() - b[i].v(),
    ensures tsum(tr, s, k) + fsum(a, b, k) == tgiven(a, b, s, k),
    decreases k,
{ if k > 0 { lemma_given(a, b, tr, s, k - 1); assert(tr[k - 1].v() == a[k - 1].v() - b[k - 1].v()); } }
proof fn lemma_new(g: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>)
    requires g.arcs@.len() == 0, g.flow.v() == fsum(a, b, g.tr_cap@.len() as int), forall|i: int| 0 <= i < g.tr_cap@.len() ==> (#[trigger] g.tr_cap@[i]).v() == a[i].v() - b[i].v(),
    ensures forall|s: Seq<bool>| #[trigger] cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == tgiven(a, b, s, g.tr_cap@.len() as int),
{ assert forall|s: Seq<bool>| #[trigger] cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == tgiven(a, b, s, g.tr_cap@.len() as int) by { lemma_given(a, b, g.tr_cap@, s, g.tr_cap@.len() as int); } }
// the solver with the first i nodes put into their trees
spec fn setup(g: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>, i: int) -> bool {
    let n = a.len() as int;
    &&& b.len() == n && room(n) && lens(g) && g.arcs@.len() == 0 && g.time == 0 && g.parent@.len() == n && g.is_sink@.len() == n && g.tr_cap@.len() == n && g.ts@.len() == n && g.dist@.len() == n && g.first_arc@.len() == n
    &&& g.orphan_first == INVALID_IND && g.orphan_last == INVALID_IND && queues(g.next@, g.queue_first@, g.queue_last@, -1) && g.flow.v() == fsum(a, b, n)
    &&& (forall|k: int| 0 <= k < n ==> (#[trigger] g.tr_cap@[k]).v() == a[k].v() - b[k].v())
    &&& (forall|k: int| 0 <= k < n ==> #[trigger] g.ts@[k] == 0) && (forall|k: int| 0 <= k < n ==> #[trigger] g.dist@[k] == 1) && (forall|k: int| 0 <= k < n ==> #[trigger] g.first_arc@[k] == INVALID_IND)
    &&& (forall|k: int| i <= k < n ==> #[trigger] g.parent@[k] == TERMINAL)
    &&& (forall|k: int| 0 <= k < i ==> #[trigger] placed(g, k))
}
spec fn placed(g: GraphCut, k: int) -> bool {
    &&& g.is_sink@[k] == (g.tr_cap@[k].v() < 0)
    &&& if g.tr_cap@[k].v() == 0 { g.parent@[k] == INVALID_IND } else { g.parent@[k] == TERMINAL && g.next@[k] != INVALID_IND }
}
proof fn lemma_setup_first(g: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>)
    requires b.len() == a.len(), room(a.len() as int), lens(g), g.arcs@.len() == 0, g.time == 0, g.parent@.len() == a.len(), g.is_sink@.len() == a.len(), g.tr_cap@.len() == a.len(), g.ts@.len() == a.len(), g.dist@.len() == a.len(), g.first_arc@.len() == a.len(),
        g.orphan_first == INVALID_IND, g.orphan_last == INVALID_IND, g.queue_first@ =~= seq![INVALID_IND, INVALID_IND], g.queue_last@ =~= seq![INVALID_IND, INVALID_IND], g.flow.v() == fsum(a, b, a.len() as int),
        forall|k: int| 0 <= k < a.len() ==> (#[trigger] g.tr_cap@[k]).v() == a[k].v() - b[k].v(),
        forall|k: int| 0 <= k < a.len() ==> #[trigger] g.ts@[k] == 0, forall|k: int| 0 <= k < a.len() ==> #[trigger] g.dist@[k] == 1, forall|k: int| 0 <= k < a.len() ==> #[trigger] g.first_arc@[k] == INVALID_IND,
        forall|k: int| 0 <= k < a.len() ==> #[trigger] g.parent@[k] == TERMINAL, forall|k: int| 0 <= k < a.len() ==> #[trigger] g.next@[k] == INVALID_IND,
    ensures setup(g, a, b, 0),
{ assert(qwf(g.next@, g.queue_first@, g.queue_last@, -1, Seq::empty(), Seq::empty())); }
proof fn lemma_setup_queue(g: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>, i: int)
    requires setup(g, a, b, i),
    ensures hasq(g.next@, g.queue_first@, g.queue_last@), queues(g.next@, g.queue_first@, g.queue_last@, -1),
{}
proof fn lemma_setup_step(g: GraphCut, h: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>, i: int)
    requires setup(g, a, b, i), 0 <= i < a.len(), h.arcs@ == g.arcs@, h.time == g.time, h.tr_cap@ == g.tr_cap@, h.ts@ == g.ts@, h.dist@ == g.dist@, h.first_arc@ == g.first_arc@, h.orphan_first == g.orphan_first, h.orphan_last == g.orphan_last, h.flow == g.flow,
        h.next_orphan@ == g.next_orphan@, h.next@.len() == g.next@.len(), queues(h.next@, h.queue_first@, h.queue_last@, -1), h.is_sink@ =~= g.is_sink@.update(i, g.tr_cap@[i].v() < 0), h.parent@ =~= (if g.tr_cap@[i].v() == 0 { g.parent@.update(i, INVALID_IND) } else { g.parent@ }),
        forall|v: int| 0 <= v < a.len() && v != i ==> (#[trigger] h.next@[v] == INVALID_IND <==> g.next@[v] == INVALID_IND), g.tr_cap@[i].v() != 0 ==> h.next@[i] != INVALID_IND,
    ensures setup(h, a, b, i + 1),
{ assert forall|k: int| 0 <= k < i + 1 implies #[trigger] placed(h, k) by { if k < i { assert(placed(g, k)); assert(h.next@[k] == INVALID_IND <==> g.next@[k] == INVALID_IND); } else { assert(g.parent@[i] == TERMINAL); } } }
proof fn lemma_setup_last(g: GraphCut, a: Seq<VxNum>, b: Seq<VxNum>)
    requires setup(g, a, b, a.len() as int),
    ensures ready(g), g.parent@.len() == a.len(), g.tr_cap@.len() == a.len(), g.arcs@.len() == 0, forall|s: Seq<bool>| #[trigger] cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == tgiven(a, b, s, a.len() as int),
{
    lemma_new(g, a, b); let c = core(g); let n = a.len() as int;
    assert forall|v: int| 0 <= v < n implies #[trigger] okfirst(c.a, c.f, v) by { assert(g.first_arc@[v] == INVALID_IND); }
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] node(c, -1, -1, v) && !arcp(c, v) && c.pr[v] != ORPHAN && c.ds[v] <= 1 && (c.pr[v] != INVALID_IND ==> g.next@[v] != INVALID_IND) by { assert(placed(g, v)); assert(g.dist@[v] == 1); assert(g.ts@[v] == 0); }
}
spec fn egiven(s: Seq<bool>, i: int, j: int, x: int, y: int) -> int { (if !s[i] && s[j] { x } else { 0 }) + (if !s[j] && s[i] { y } else { 0 }) }
proof fn lemma_asum_prefix(a: Seq<Arc>, b: Seq<Arc>, n: int, s: Seq<bool>, k: int)
    requires arcs(a, n), b.len() >= a.len(), forall|x: int| isa(a, x) ==> #[trigger] b[x] == a[x], 0 <= k <= a.len(),
    ensures asum(b, s, k) == asum(a, s, k),
    decreases k,
{ if k > 0 { lemma_asum_prefix(a, b, n, s, k - 1); assert(okarc(a, n, k - 1)); assert(b[k - 1] == a[k - 1]); assert(b[ss(a, k - 1)] == a[ss(a, k - 1)]); } }
proof fn lemma_add(g: GraphCut, h: GraphCut, i: int, j: int, x: VxNum, y: VxNum)
    requires ready(g), 0 <= i < g.parent@.len(), 0 <= j < g.parent@.len(), x.v() >= 0, y.v() >= 0, room((g.arcs@.len() + 2) as int),
        ({ let m = g.arcs@.len() as int; let f1 = g.first_arc@.update(i, m as usize);
            &&& h.first_arc@ =~= f1.update(j, (m + 1) as usize) && h.arcs@.len() == m + 2 && (forall|k: int| 0 <= k < m ==> #[trigger] h.arcs@[k] == g.arcs@[k])
            &&& h.arcs@[m] == Arc { head: j as usize, next: g.first_arc@[i], sister: (m + 1) as usize, r_cap: x }
            &&& h.arcs@[m + 1] == Arc { head: i as usize, next: f1[j], sister: m as usize, r_cap: y } }),
        h.parent@ == g.parent@, h.is_sink@ == g.is_sink@, h.tr_cap@ == g.tr_cap@, h.ts@ == g.ts@, h.dist@ == g.dist@, h.time == g.time, h.flow == g.flow, h.next@ == g.next@, h.next_orphan@ == g.next_orphan@,
        h.orphan_first == g.orphan_first, h.orphan_last == g.orphan_last, h.queue_first@ == g.queue_first@, h.queue_last@ == g.queue_last@,
    ensures ready(h), forall|s: Seq<bool>| #[trigger] cut(h.arcs@, h.tr_cap@, s) == cut(g.arcs@, g.tr_cap@, s) + egiven(s, i, j, x.v(), y.v()),
{
    let a = g.arcs@; let b = h.arcs@; let n = g.parent@.len() as int; let m = a.len() as int; let f = g.first_arc@; let e = h.first_arc@; let c = core(g); let d = core(h);
    assert forall|k: int| isa(a, k) implies hd(b, k) == hd(a, k) && ss(b, k) == ss(a, k) && #[trigger] tl(b, k) == tl(a, k) && 0 <= tl(a, k) < n by { assert(okarc(a, n, k)); assert(okarc(a, n, ss(a, k))); assert(b[k] == a[k]); assert(b[ss(a, k)] == a[ss(a, k)]); }
    assert(tl(b, m) == i && tl(b, m + 1) == j);
    assert forall|k: int| isa(b, k) implies #[trigger] okarc(b, n, k) by { if k < m { assert(okarc(a, n, k)); assert(b[k] == a[k]); assert(b[ss(a, k)] == a[ss(a, k)]); } }
    assert forall|v: int| 0 <= v < n implies #[trigger] okfirst(b, e, v) by { assert(okfirst(a, f, v)); if isa(a, f[v] as int) { assert(tl(b, f[v] as int) == tl(a, f[v] as int)); } }
    assert(okfirst(a, f, i)); assert(okfirst(a, f, j));
    if isa(a, f[i] as int) { assert(tl(b, f[i] as int) == tl(a, f[i] as int)); }
    if isa(a, f[j] as int) { assert(tl(b, f[j] as int) == tl(a, f[j] as int)); }
    assert forall|k: int| isa(b, k) implies #[trigger] oknext(b, e, k) by { if k < m { assert(oknext(a, f, k)); assert(tl(b, k) == tl(a, k)); assert(b[k] == a[k]); if a[k].next != INVALID_IND { assert(tl(b, a[k].next as int) == tl(a, a[k].next as int)); } } }
    assert forall|p: int, k: int| 0 <= p < k < b.len() implies #[trigger] between(b, p, k) by {
        if k < m { assert(between(a, p, k)); assert(tl(b, k) == tl(a, k)); assert(tl(b, p) == tl(a, p)); assert(b[k] == a[k]); }
        else if p < m { assert(oknext(a, f, p)); assert(tl(b, p) == tl(a, p)); }
    }
    assert forall|v: int| 0 <= v < n implies #[trigger] node(d, -1, -1, v) && !arcp(d, v) && d.pr[v] != ORPHAN && d.ds[v] <= 1 && (d.pr[v] != INVALID_IND ==> h.next@[v] != INVALID_IND) by { assert(node(c, -1, -1, v)); }
    assert forall|s: Seq<bool>| #[trigger] cut(h.arcs@, h.tr_cap@, s) == cut(g.arcs@, g.tr_cap@, s) + egiven(s, i, j, x.v(), y.v()) by {
        lemma_asum_prefix(a, b, n, s, m);
        assert(asum(b, s, m + 2) == asum(b, s, m + 1) + cross(b, s, m + 1)); assert(asum(b, s, m + 1) == asum(b, s, m) + cross(b, s, m));
    }
}
impl Arc {
//@FN src/graphcut/mod.rs Arc::new (head, next, sister, r_cap) -> res
//@ ensures res == (Arc { head, next, sister, r_cap }),
//@ENDFN
}
impl GraphCut {
//@FN src/graphcut/mod.rs GraphCut::new (source_cap, sink_cap) -> vx_r
//@SUB /Vec::from_iter\(\s*(\w+)\.iter\(\)\.zip\((\w+)\)\.map\(\|\(&(\w+), &(\w+)\)\| \{(.*?);\s*([^;{}]*)\}\s*\)\s*\)/ => { let mut vx_v: Vec<VxNum> = Vec::new(); let vx_len = vx_min(\1.len(), \2.len()); for vx_i in 0..vx_len invariant vx_len == source_cap@.len(), sink_cap@.len() == vx_len, vx_v@.len() == vx_i, flow.v() == fsum(source_cap@, sink_cap@, vx_i as int), forall|k: int| 0 <= k < vx_i ==> (#[trigger] vx_v@[k]).v() == source_cap@[k].v() - sink_cap@[k].v(), { let \3 = \1[vx_i]; let \4 = \2[vx_i]; \5; let vx_x = \6; vx_v.push(vx_x); } vx_v }
//@ requires source_cap@.len() == sink_cap@.len(), room(source_cap@.len() as int),
//@ ensures ready(vx_r), vx_r.parent@.len() == source_cap@.len(), vx_r.tr_cap@.len() == source_cap@.len(), vx_r.arcs@.len() == 0,
//@     forall|s: Seq<bool>| #[trigger] cut(vx_r.arcs@, vx_r.tr_cap@, s) + vx_r.flow.v() == tgiven(source_cap@, sink_cap@, s, source_cap@.len() as int),
//@START:
//@LOCAL graph /= Self \{/
//@LOCAL n_nodes /= \w+\.len\(\)/
//@LOCAL flow /mut \w+ = 0\.0/
//@BEFORE 0:
//@ proof { lemma_setup_first(graph, source_cap@, sink_cap@); }
//@LOOP 0 (i):
//@ invariant n_nodes == source_cap@.len(), graph.is_sink@.len() == n_nodes, graph.tr_cap@.len() == n_nodes, graph.parent@.len() == n_nodes, graph.next@.len() == n_nodes, setup(graph, source_cap@, sink_cap@, i as int),
//@LOOPSTART 0 (i):
//@ let ghost vx_g = graph;
//@ proof { lemma_setup_queue(graph, source_cap@, sink_cap@, i as int); }
//@LOOPEND 0 (i):
//@ proof { lemma_setup_step(vx_g, graph, source_cap@, sink_cap@, i as int); }
//@AFTER 0:
//@ proof { lemma_setup_last(graph, source_cap@, sink_cap@); }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::add_edge (i, j, cap, rev_cap)
//@ requires ready(*old(self)), i < old(self).parent@.len(), j < old(self).parent@.len(), cap.v() >= 0, rev_cap.v() >= 0, room((old(self).arcs@.len() + 2) as int),
//@ ensures ready(*final(self)), final(self).flow == old(self).flow, final(self).parent@.len() == old(self).parent@.len(), final(self).arcs@.len() == old(self).arcs@.len() + 2,
//@     forall|s: Seq<bool>| #[trigger] cut(final(self).arcs@, final(self).tr_cap@, s) == cut(old(self).arcs@, old(self).tr_cap@, s) + egiven(s, i as int, j as int, cap.v(), rev_cap.v()),
//@START:
//@ let ghost vx_g = *self;
//@END:
//@ proof { lemma_add(vx_g, *self, i as int, j as int, cap, rev_cap); }
//@ENDFN
//@FN src/graphcut/mod.rs GraphCut::augment (middle_arc_id)
//@ requires inv(core(*old(self))), noorp(core(*old(self))), lens(*old(self)), middle(core(*old(self)), middle_arc_id as int), old(self).orphan_first == INVALID_IND, old(self).orphan_last == INVALID_IND,
//@ ensures augmented(*old(self), *final(self)), conserved(*old(self), *final(self)), final(self).flow.v() > old(self).flow.v(),
//@START:
//@ let ghost vx_g = *self;
//@ let ghost vx_c = core(*self);
//@ let ghost vx_n = self.parent@.len() as int;
//@ proof { assert(okarc(vx_c.a, vx_n, middle_arc_id as int)); assert(okarc(vx_c.a, vx_n, ss(vx_c.a, middle_arc_id as int))); }
//@ let ghost vx_h = hd(vx_c.a, middle_arc_id as int);
//@LOCAL bottle_neck /= self\.arcs\[\w+\]\.r_cap/
//@BEFORE 0:
//@ let ghost mut vx_p = seq![i as int];
//@ proof { assert(walk(vx_c, vx_p, false)); assert(vx_p[0] == tl(vx_c.a, middle_arc_id as int)); }
//@LOOP 0:
//@ invariant *self == *old(self), vx_c == core(*self), inv(vx_c), noorp(vx_c), vx_n == vx_c.pr.len(), walk(vx_c, vx_p, false), vx_p[0] == tl(vx_c.a, middle_arc_id as int), vx_p.last() == i, 0 < bottle_neck.v() <= rc(vx_c.a, middle_arc_id as int), caps(vx_c, vx_p, 0, bottle_neck.v()), lens(*self),
//@ ensures vx_c.pr[i as int] == TERMINAL,
//@ decreases vx_c.t - vx_c.ts[i as int], vx_c.ds[i as int],
//@LOOPSTART 0:
//@ let ghost vx_i = i as int;
//@ let ghost vx_b0 = bottle_neck;
//@ proof { lemma_walk_len(vx_c, vx_p, false); assert(vx_p[vx_p.len() - 1] == i); assert(node(vx_c, -1, -1, vx_i)); assert(vx_c.pr[vx_i] != ORPHAN); if arcp(vx_c, vx_i) { assert(edge(vx_c, -1, -1, vx_i)); assert(okarc(vx_c.a, vx_n, vx_c.pr[vx_i] as int)); } }
//@LOOPEND 0:
//@ proof { lemma_walk_push(vx_c, vx_p, false, i as int); assert(node(vx_c, -1, -1, i as int)); let vx_w = vx_p.push(i as int); assert forall|x: int| 0 <= x < vx_w.len() - 1 implies #[trigger] capok(vx_c, vx_w, x, bottle_neck.v()) by { if x < vx_p.len() - 1 { assert(capok(vx_c, vx_p, x, vx_b0.v())); } } vx_p = vx_w; }
//@AFTER 0:
//@ let ghost vx_u = i as int;
//@ proof { lemma_walk_len(vx_c, vx_p, false); assert(vx_p[vx_p.len() - 1] == i); assert(node(vx_c, -1, -1, vx_u)); }
//@ let ghost vx_b1 = bottle_neck;
//@BEFORE 1:
//@ let ghost mut vx_r = seq![i as int];
//@ proof { assert(walk(vx_c, vx_r, true)); assert(vx_r[0] == vx_h); assert forall|x: int| 0 <= x < vx_p.len() - 1 implies #[trigger] capok(vx_c, vx_p, x, bottle_neck.v()) by { assert(capok(vx_c, vx_p, x, vx_b1.v())); } }
//@LOOP 1:
//@ invariant *self == *old(self), vx_c == core(*self), inv(vx_c), noorp(vx_c), vx_n == vx_c.pr.len(), walk(vx_c, vx_p, false), vx_p.last() == vx_u, vx_c.pr[vx_u] == TERMINAL, bottle_neck.v() <= vx_c.tr[vx_u].v(), walk(vx_c, vx_r, true), vx_r[0] == vx_h, vx_r.last() == i, 0 < bottle_neck.v() <= rc(vx_c.a, middle_arc_id as int), caps(vx_c, vx_p, 0, bottle_neck.v()), caps(vx_c, vx_r, 0, bottle_neck.v()), lens(*self),
//@ ensures vx_c.pr[i as int] == TERMINAL,
//@ decreases vx_c.t - vx_c.ts[i as int], vx_c.ds[i as int],
//@LOOPSTART 1:
//@ let ghost vx_i = i as int;
//@ let ghost vx_b0 = bottle_neck;
//@ proof { lemma_walk_len(vx_c, vx_r, true); assert(vx_r[vx_r.len() - 1] == i); assert(node(vx_c, -1, -1, vx_i)); assert(vx_c.pr[vx_i] != ORPHAN); if arcp(vx_c, vx_i) { assert(edge(vx_c, -1, -1, vx_i)); assert(okarc(vx_c.a, vx_n, vx_c.pr[vx_i] as int)); } }
//@LOOPEND 1:
//@ proof { lemma_walk_push(vx_c, vx_r, true, i as int); assert(node(vx_c, -1, -1, i as int)); let vx_w = vx_r.push(i as int); assert forall|x: int| 0 <= x < vx_w.len() - 1 implies #[trigger] capok(vx_c, vx_w, x, bottle_neck.v()) by { if x < vx_r.len() - 1 { assert(capok(vx_c, vx_r, x, vx_b0.v())); } } vx_r = vx_w;
//@     assert forall|x: int| 0 <= x < vx_p.len() - 1 implies #[trigger] capok(vx_c, vx_p, x, bottle_neck.v()) by { assert(capok(vx_c, vx_p, x, vx_b0.v())); } }
//@AFTER 1:
//@ let ghost vx_w = i as int;
//@ proof { lemma_walk_len(vx_c, vx_r, true); assert(vx_r[vx_r.len() - 1] == i); assert(node(vx_c, -1, -1, vx_w)); }
//@ let ghost vx_b2 = bottle_neck;
//@BEFORE 2:
//@ let ghost vx_b = bottle_neck.v();
//@ let ghost mut vx_m = 0int;
//@ proof { lemma_middle(vx_c, core(*self), middle_arc_id as int, vx_b); lemma_none(self.next_orphan@, self.parent@); let vx_d = core(*self);
//@     assert(flowed(vx_c, vx_d));
//@     assert forall|x: int| 0 <= x < vx_p.len() - 1 implies #[trigger] capok(vx_d, vx_p, x, vx_b) by { assert(capok(vx_c, vx_p, x, vx_b2.v())); assert(step(vx_c, vx_p, x)); assert(arcp(vx_c, vx_p[x])); }
//@     assert forall|x: int| 0 <= x < vx_r.len() - 1 implies #[trigger] capok(vx_d, vx_r, x, vx_b) by { assert(capok(vx_c, vx_r, x, vx_b2.v())); assert(step(vx_c, vx_r, x)); assert(arcp(vx_c, vx_r[x])); }
//@     assert(intact(vx_c, vx_d, vx_p, 0, vx_b)); assert(intact(vx_c, vx_d, vx_r, 0, vx_b)); }
//@LOOP 2:
//@ invariant vx_c == core(vx_g), vx_g == *old(self), inv(vx_c), vx_n == vx_c.pr.len(), walk(vx_c, vx_p, false), walk(vx_c, vx_r, true), vx_p.no_duplicates(), vx_r.no_duplicates(), 0 <= vx_m < vx_p.len(), i == vx_p[vx_m], vx_p.last() == vx_u, vx_c.pr[vx_u] == TERMINAL, vx_b == bottle_neck.v(), 0 < vx_b,
//@     augmented(vx_g, *self), self.flow == vx_g.flow, intact(vx_c, core(*self), vx_p, vx_m, vx_b), intact(vx_c, core(*self), vx_r, 0, vx_b),
//@     forall|s: Seq<bool>| #[trigger] cut(self.arcs@, self.tr_cap@, s) == cut(vx_c.a, vx_c.tr, s) + bz(vx_b, s, i as int) - bz(vx_b, s, vx_h),
//@ ensures vx_m == vx_p.len() - 1,
//@ decreases vx_p.len() - vx_m,
//@LOOPSTART 2:
//@ let ghost vx_s = *self;
//@ let ghost vx_d = core(*self);
//@ proof { assert(vx_d.pr[vx_p[vx_m]] == vx_c.pr[vx_p[vx_m]]); assert(node(vx_d, -1, -1, i as int)); if vx_m < vx_p.len() - 1 { assert(step(vx_c, vx_p, vx_m)); assert(capok(vx_d, vx_p, vx_m, vx_b)); assert(edge(vx_d, -1, -1, i as int)); assert(okarc(vx_d.a, vx_n, vx_d.pr[i as int] as int)); assert(okarc(vx_c.a, vx_n, vx_d.pr[i as int] as int)); assert(vx_d.a[vx_d.pr[i as int] as int].head == vx_c.a[vx_d.pr[i as int] as int].head); } }
//@LOOPEND 2:
//@ proof { lemma_pushed(vx_g, vx_s, *self, vx_p, vx_m, vx_r, 0, false, vx_b); vx_m = vx_m + 1; }
//@AFTER 2:
//@ let ghost vx_s = *self;
//@ proof { assert(vx_p[vx_p.len() - 1] == vx_u); assert(core(vx_s).tr[vx_p[vx_m]] == vx_c.tr[vx_p[vx_m]]); }
//@BEFORE 3:
//@ proof { lemma_pushed(vx_g, vx_s, *self, vx_p, vx_m, vx_r, 0, false, vx_b); }
//@ let ghost mut vx_k = 0int;
//@LOOP 3:
//@ invariant vx_c == core(vx_g), vx_g == *old(self), inv(vx_c), vx_n == vx_c.pr.len(), walk(vx_c, vx_p, false), walk(vx_c, vx_r, true), vx_r.no_duplicates(), 0 <= vx_k < vx_r.len(), i == vx_r[vx_k], vx_r.last() == vx_w, vx_c.pr[vx_w] == TERMINAL, vx_b == bottle_neck.v(), 0 < vx_b,
//@     augmented(vx_g, *self), self.flow == vx_g.flow, intact(vx_c, core(*self), vx_r, vx_k, vx_b), intact(vx_c, core(*self), vx_p, vx_p.len() as int, vx_b),
//@     forall|s: Seq<bool>| #[trigger] cut(self.arcs@, self.tr_cap@, s) == cut(vx_c.a, vx_c.tr, s) - bz(vx_b, s, i as int),
//@ ensures vx_k == vx_r.len() - 1,
//@ decreases vx_r.len() - vx_k,
//@LOOPSTART 3:
//@ let ghost vx_s = *self;
//@ let ghost vx_d = core(*self);
//@ proof { assert(vx_d.pr[vx_r[vx_k]] == vx_c.pr[vx_r[vx_k]]); assert(node(vx_d, -1, -1, i as int)); if vx_k < vx_r.len() - 1 { assert(step(vx_c, vx_r, vx_k)); assert(capok(vx_d, vx_r, vx_k, vx_b)); assert(edge(vx_d, -1, -1, i as int)); assert(okarc(vx_d.a, vx_n, vx_d.pr[i as int] as int)); assert(okarc(vx_c.a, vx_n, vx_d.pr[i as int] as int)); assert(vx_d.a[vx_d.pr[i as int] as int].head == vx_c.a[vx_d.pr[i as int] as int].head); } }
//@LOOPEND 3:
//@ proof { lemma_pushed(vx_g, vx_s, *self, vx_r, vx_k, vx_p, vx_p.len() as int, true, vx_b); vx_k = vx_k + 1; }
//@AFTER 3:
//@ let ghost vx_s = *self;
//@ proof { assert(vx_r[vx_r.len() - 1] == vx_w); assert(core(vx_s).tr[vx_r[vx_k]] == vx_c.tr[vx_r[vx_k]]); }
//@END:
//@ let ghost vx_e = GraphCut { flow: vx_s.flow, ..*self };
//@ proof { lemma_pushed(vx_g, vx_s, vx_e, vx_r, vx_k, vx_p, vx_p.len() as int, true, vx_b); }
//@ENDFN
}
// ---- after an augmentation: nothing is checked yet ----
// with each unit of flow one unit of the cut around the source is gone
proof fn lemma_cut_step(o: GraphCut, g: GraphCut, h: GraphCut, s: Seq<bool>)
    requires conserved(o, g), conserved(o, h), base(core(h)),
    ensures cut(h.arcs@, h.tr_cap@, s) == cut(g.arcs@, g.tr_cap@, s) + g.flow.v() - h.flow.v(), cut(h.arcs@, h.tr_cap@, s) >= 0,
{ assert(cut(h.arcs@, h.tr_cap@, s) + h.flow.v() == cut(o.arcs@, o.tr_cap@, s) + o.flow.v()); lemma_cut_nonneg(h.arcs@, h.parent@.len() as int, h.tr_cap@, s, h.arcs@.len() as int, h.tr_cap@.len() as int); }
proof fn lemma_noorp(c: C)
    requires forall|v: int| 0 <= v < c.pr.len() ==> #[trigger] c.pr[v] != ORPHAN,
    ensures noorp(c),
{}
proof fn lemma_okarcs(c: C)
    requires base(c),
    ensures arcs(c.a, c.pr.len() as int),
{}
spec fn arc_at(a: Seq<Arc>, n: int, k: int) -> bool { hd(a, k) < n && isa(a, ss(a, k)) && ss(a, ss(a, k)) == k && ss(a, k) != k && rc(a, k) >= 0 && rc(a, ss(a, k)) >= 0 && hd(a, ss(a, k)) < n }
proof fn lemma_lists(c: C)
    requires inv(c),
    ensures base(c), sized(c),
{}
proof fn lemma_kept(o: GraphCut, g: GraphCut, h: GraphCut)
    requires conserved(o, g), conserved(g, h),
    ensures conserved(o, h),
{ assert forall|s: Seq<bool>| #[trigger] cut(h.arcs@, h.tr_cap@, s) + h.flow.v() == cut(o.arcs@, o.tr_cap@, s) + o.flow.v() by { assert(cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == cut(o.arcs@, o.tr_cap@, s) + o.flow.v()); } }
spec fn sized(c: C) -> bool { c.f.len() == c.pr.len() && c.sk.len() == c.pr.len() && c.tr.len() == c.pr.len() && c.ts.len() == c.pr.len() && c.ds.len() == c.pr.len() && room(c.pr.len() as int) && 0 <= c.t < 0x4000_0000_0000_0000 }
proof fn lemma_okfirst(c: C, i: int)
    requires base(c), 0 <= i < c.pr.len(),
    ensures okfirst(c.a, c.f, i),
{}
// what the scan of an arc reads
proof fn lemma_at(o: GraphCut, g: GraphCut, i: int, k: int)
    requires growing(o, g, i), isa(g.arcs@, k), tl(g.arcs@, k) == i,
    ensures base(core(g)), sized(core(g)), arc_at(g.arcs@, g.parent@.len() as int, k), g.parent@[i] != INVALID_IND, room(g.arcs@.len() as int), okarc(g.arcs@, g.parent@.len() as int, k), okarc(g.arcs@, g.parent@.len() as int, ss(g.arcs@, k)), forall|m: int| #[trigger] middle(core(g), m) == ({ let v = tl(g.arcs@, m); let w = hd(g.arcs@, m); isa(g.arcs@, m) && rc(g.arcs@, m) > 0 && !g.is_sink@[v] && g.parent@[v] != INVALID_IND && g.is_sink@[w] && g.parent@[w] != INVALID_IND }), g.dist@[i] <= g.parent@.len() + g.time, g.arcs@[k].next == INVALID_IND || g.arcs@[k].next < k && tl(g.arcs@, g.arcs@[k].next as int) == i,
{
    assert(okarc(g.arcs@, g.parent@.len() as int, k)); assert(okarc(g.arcs@, g.parent@.len() as int, ss(g.arcs@, k))); assert(oknext(g.arcs@, g.first_arc@, k)); assert(core(g).ds[i] <= core(g).pr.len() + core(g).t);
}
proof fn lemma_grows(o: GraphCut, g: GraphCut, i: int)
    requires steady(o, g), bnd(core(g), g.parent@.len() + g.time), 0 <= i < g.parent@.len(), g.parent@[i] != INVALID_IND, g.next@[i] == INVALID_IND, queues(g.next@, g.queue_first@, g.queue_last@, -1),
    ensures growing(o, g, i),
{ let c = core(g); assert(c.ds[i] <= c.pr.len() + c.t); assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] c.ds[v] <= c.pr.len() + c.t + 1 by { assert(c.ds[v] <= c.pr.len() + c.t); } }
proof fn lemma_augmented(y: C, c: C, d: C, nx: Seq<usize>)
    requires c == later(y), inv(y), inv(c), ver(c), flowed(c, d), comp(c, nx), bnd(c, c.pr.len() + c.t),
    ensures inv(d), ver(d), comp(d, nx), bnd(d, d.pr.len() + d.t),
{
    assert forall|v: int| 0 <= v < c.pr.len() implies #[trigger] c.ts[v] < c.t by { assert(node(y, -1, -1, v)); }
    lemma_outs_comp(c, d, nx);
    assert forall|v: int| 0 <= v < d.pr.len() implies #[trigger] verd(d, v) by { assert(c.ts[v] < c.t); }
    assert forall|v: int| 0 <= v < d.pr.len() implies #[trigger] d.ds[v] <= d.pr.len() + d.t by { assert(c.ds[v] <= c.pr.len() + c.t); }
}
spec fn adopting(o: GraphCut, g: GraphCut, cur: int) -> bool {
    let c = core(g);
    &&& inv(c) && ver(c) && bnd(c, c.pr.len() + c.t) && comp(c, g.next@) && lens(g) && c.pr.len() == o.parent@.len() && conserved(o, g) && 0 <= cur < c.pr.len() && queues(g.next@, g.queue_first@, g.queue_last@, cur)
}
impl GraphCut {
//@FN src/graphcut/mod.rs GraphCut::max_flow () -> vx_r
//@ requires ready(*old(self)),
//@ ensures final(self).parent@.len() == old(self).parent@.len(), final(self).is_sink@.len() == old(self).parent@.len(), arcs(final(self).arcs@, final(self).parent@.len() as int), conserved(*old(self), *final(self)), cut(final(self).arcs@, final(self).tr_cap@, final(self).is_sink@) == 0, vx_r == final(self).flow,
//@KEEPOPAQUE
//@START:
//@ let ghost vx_n = self.parent@.len() as int;
//@ let ghost vx_s0 = Seq::new(self.parent@.len(), |v: int| false);
//@ let ghost mut vx_n2 = self.next@;
//@ proof { lemma_ready(*self); }
//@LOOP 0:
//@ invariant_except_break comp(core(*self), self.next@), queues(self.next@, self.queue_first@, self.queue_last@, if current_node == INVALID_IND { -1 } else { current_node as int }),
//@ invariant steady(*old(self), *self), vx_n == self.parent@.len(), vx_n == old(self).parent@.len(), bnd(core(*self), vx_n + self.time), current_node == INVALID_IND || current_node < vx_n,
//@ ensures comp(core(*self), vx_n2), vx_n2.len() == vx_n, forall|v: int| 0 <= v < vx_n ==> #[trigger] self.next@[v] == INVALID_IND, forall|v: int| 0 <= v < vx_n && #[trigger] self.next@[v] == INVALID_IND ==> vx_n2[v] == INVALID_IND || self.parent@[v] == INVALID_IND,
//@ decreases cut(self.arcs@, self.tr_cap@, vx_s0), nn(self.parent@, true, vx_n), nn(self.next@, false, vx_n),
//@LOOPSTART 0:
//@ let ghost vx_x = *self;
//@ let ghost mut vx_y = *self;
//@ proof { lemma_lists(core(*self)); vx_n2 = if current_node == INVALID_IND { self.next@ } else { self.next@.update(current_node as int, INVALID_IND) }; if current_node != INVALID_IND { lemma_uncur(self.next@, self.queue_first@, self.queue_last@, current_node as int); lemma_nn(self.next@, vx_n2, false, current_node as int, vx_n); lemma_aside(core(*self), self.next@, vx_n2, current_node as int); } }
//@BEFORE 1:
//@ let ghost vx_h = *self;
//@ proof { lemma_lists(core(*self)); lemma_nn(vx_n2, self.next@, false, i as int, vx_n); assert(nn(self.next@, false, vx_n) < nn(vx_x.next@, false, vx_n)); if comp(core(*self), vx_n2) { lemma_aside(core(*self), vx_n2, self.next@, i as int); } lemma_grows(*old(self), *self, i as int); lemma_first(core(*self), self.next@, i as int, self.arcs@.len() as int); lemma_okfirst(core(*self), i as int); }
//@LOOP 1:
//@ invariant_except_break comp_t(core(*self), self.next@, i as int, lim(aid)), aid == INVALID_IND || isa(self.arcs@, aid as int) && tl(self.arcs@, aid as int) == i,
//@ invariant self.flow == vx_h.flow, nn(self.parent@, true, vx_n) < nn(vx_h.parent@, true, vx_n) || nn(self.parent@, true, vx_n) == nn(vx_h.parent@, true, vx_n) && self.next@ == vx_h.next@, growing(*old(self), *self, i as int), self.is_sink@[i as int] == false, vx_n == self.parent@.len(), i < vx_n,
//@ ensures aid == INVALID_IND ==> comp_t(core(*self), self.next@, i as int, -1), aid != INVALID_IND ==> comp_t(core(*self), self.next@, i as int, self.arcs@.len() as int), aid != INVALID_IND ==> middle(core(*self), aid as int),
//@ decreases lim(aid) + 1,
//@LOOPSTART 1:
//@ let ghost vx_b = *self;
//@ let ghost vx_k = aid as int;
//@ proof { lemma_at(*old(self), *self, i as int, vx_k); lemma_wider(core(*self), self.next@, i as int, vx_k); assert(queues(self.next@, self.queue_first@, self.queue_last@, -1)); assert(hasq(self.next@, self.queue_first@, self.queue_last@)); }
//@LOOPEND 1:
//@ proof { assert(scanned(vx_b, *self, i as int, vx_k)); lemma_scan(*old(self), vx_b, *self, i as int, vx_k); }
//@AFTER 1:
//@ proof { lemma_lists(core(*self)); lemma_nn(self.parent@, self.parent@, true, -1, vx_n); lemma_nn(self.next@, self.next@, false, -1, vx_n); if aid == INVALID_IND { lemma_cut_step(*old(self), vx_x, *self, vx_s0); lemma_wider(core(*self), self.next@, i as int, -1); } lemma_tick(core(*self)); lemma_cur(self.next@, self.queue_first@, self.queue_last@, i as int); lemma_set_cur(core(*self), self.next@, i as int); vx_y = *self; }
//@BEFORE 2:
//@ let ghost vx_h = *self;
//@ proof { lemma_lists(core(*self)); lemma_nn(vx_n2, self.next@, false, i as int, vx_n); assert(nn(self.next@, false, vx_n) < nn(vx_x.next@, false, vx_n)); if comp(core(*self), vx_n2) { lemma_aside(core(*self), vx_n2, self.next@, i as int); } lemma_grows(*old(self), *self, i as int); lemma_first(core(*self), self.next@, i as int, self.arcs@.len() as int); lemma_okfirst(core(*self), i as int); }
//@LOOP 2:
//@ invariant_except_break comp_t(core(*self), self.next@, i as int, lim(aid)), aid == INVALID_IND || isa(self.arcs@, aid as int) && tl(self.arcs@, aid as int) == i,
//@ invariant self.flow == vx_h.flow, nn(self.parent@, true, vx_n) < nn(vx_h.parent@, true, vx_n) || nn(self.parent@, true, vx_n) == nn(vx_h.parent@, true, vx_n) && self.next@ == vx_h.next@, growing(*old(self), *self, i as int), self.is_sink@[i as int] == true, vx_n == self.parent@.len(), i < vx_n,
//@ ensures aid == INVALID_IND ==> comp_t(core(*self), self.next@, i as int, -1), aid != INVALID_IND ==> comp_t(core(*self), self.next@, i as int, self.arcs@.len() as int), aid != INVALID_IND ==> middle(core(*self), aid as int),
//@ decreases lim(aid) + 1,
//@LOOPSTART 2:
//@ let ghost vx_b = *self;
//@ let ghost vx_k = aid as int;
//@ proof { lemma_at(*old(self), *self, i as int, vx_k); lemma_wider(core(*self), self.next@, i as int, vx_k); assert(queues(self.next@, self.queue_first@, self.queue_last@, -1)); assert(hasq(self.next@, self.queue_first@, self.queue_last@)); }
//@LOOPEND 2:
//@ proof { assert(scanned(vx_b, *self, i as int, vx_k)); lemma_scan(*old(self), vx_b, *self, i as int, vx_k); }
//@AFTER 2:
//@ proof { lemma_lists(core(*self)); lemma_nn(self.parent@, self.parent@, true, -1, vx_n); lemma_nn(self.next@, self.next@, false, -1, vx_n); if aid == INVALID_IND { lemma_cut_step(*old(self), vx_x, *self, vx_s0); lemma_wider(core(*self), self.next@, i as int, -1); } lemma_tick(core(*self)); lemma_cur(self.next@, self.queue_first@, self.queue_last@, i as int); lemma_set_cur(core(*self), self.next@, i as int); vx_y = *self; }
//@BEFORE 3:
//@ proof { let vx_c = later(core(vx_y)); let vx_x = vx_y.next@.update(current_node as int, current_node);
//@     assert(flowed(vx_c, core(*self))); assert(self.next@ == vx_x); assert(comp(vx_c, vx_x));
//@     lemma_kept(*old(self), vx_y, *self); lemma_augmented(core(vx_y), vx_c, core(*self), vx_x); }
//@LOOP 3:
//@ invariant self.flow.v() > vx_x.flow.v(), adopting(*old(self), *self, current_node as int), vx_n == self.parent@.len(), orphans(self.next_orphan@, INVALID_IND, INVALID_IND, i, self.parent@, -1, false), i == self.orphan_first, self.orphan_last == INVALID_IND,
//@ ensures i == INVALID_IND,
//@ decreases live(core(*self), vx_n),
//@LOOPSTART 3:
//@ let ghost vx_l0 = live(core(*self), vx_n);
//@ let ghost vx_i0 = i;
//@ proof { lemma_lists(core(*self)); lemma_split(self.next_orphan@, self.next_orphan@.update(i as int, INVALID_IND), i, self.parent@); lemma_live_pos(core(*self), vx_n); }
//@LOOP 4:
//@ invariant self.flow.v() > vx_x.flow.v(), adopting(*old(self), *self, current_node as int), vx_n == self.parent@.len(), orphans(self.next_orphan@, i, self.orphan_last, next_node, self.parent@, -1, true), i == self.orphan_first, vx_i0 != INVALID_IND, i == vx_i0 && live(core(*self), vx_n) == vx_l0 || live(core(*self), vx_n) < vx_l0,
//@ ensures i == INVALID_IND,
//@ decreases live(core(*self), vx_n),
//@LOOPSTART 4:
//@ let ghost vx_b = *self;
//@ let ghost vx_i = i as int;
//@ proof { lemma_lists(core(*self)); lemma_pop(self.next_orphan@, i, self.orphan_last, next_node, self.parent@); assert(queues(self.next@, self.queue_first@, self.queue_last@, current_node as int)); assert(hasq(self.next@, self.queue_first@, self.queue_last@)); let vx_m = if self.next_orphan@[vx_i] == INVALID_IND { INVALID_IND } else { self.orphan_last }; assert(orphans(self.next_orphan@, self.next_orphan@[vx_i], vx_m, next_node, self.parent@, vx_i, false)); assert(haso(self.next_orphan@, self.next_orphan@[vx_i], vx_m, self.parent@, vx_i)); }
//@LOOPEND 4:
//@ proof { lemma_live(core(vx_b), core(*self), vx_i, vx_n); lemma_weak(self.next_orphan@, self.orphan_first, self.orphan_last, next_node, self.parent@, -1); }
//@AFTER 4:
//@ proof { lemma_done(self.next_orphan@, self.orphan_last, next_node, self.parent@); lemma_live_pos(core(*self), vx_n); }
//@AFTER 3:
//@ proof { lemma_weak(self.next_orphan@, INVALID_IND, INVALID_IND, INVALID_IND, self.parent@, -1); lemma_done(self.next_orphan@, INVALID_IND, INVALID_IND, self.parent@); lemma_noorp(core(*self)); lemma_lists(core(*self)); lemma_cut_step(*old(self), vx_x, *self, vx_s0); }
//@BEFORE 5:
//@ let ghost vx_z = *self;
//@ proof { lemma_lists(core(*self)); lemma_okarcs(core(*self)); lemma_aside0(core(*self), vx_n2, self.next@); }
//@LOOP 5:
//@ invariant vx_i <= vx_len, vx_len == vx_n, self.is_sink@.len() == vx_n, vx_z.is_sink@.len() == vx_n, vx_z.parent@.len() == vx_n, self.parent@ == vx_z.parent@, self.arcs@ == vx_z.arcs@, self.tr_cap@ == vx_z.tr_cap@, self.flow == vx_z.flow,
//@     forall|v: int| vx_i <= v < vx_n ==> #[trigger] self.is_sink@[v] == vx_z.is_sink@[v], forall|v: int| 0 <= v < vx_i ==> #[trigger] self.is_sink@[v] == (vx_z.is_sink@[v] && vx_z.parent@[v] != INVALID_IND),
//@ decreases vx_len - vx_i,
//@END:
//@ proof { lemma_saturated(core(vx_z), vx_z.next@, self.is_sink@); }
//@ENDFN
}
// ---- the whole of it: any graph, any sequence of edges ----
spec fn edges_ok(e: Seq<(usize, usize, VxNum, VxNum)>, n: int) -> bool { forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).0 < n && e[k].1 < n && e[k].2.v() >= 0 && e[k].3.v() >= 0 }
spec fn esum(e: Seq<(usize, usize, VxNum, VxNum)>, s: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { esum(e, s, k - 1) + egiven(s, e[k - 1].0 as int, e[k - 1].1 as int, e[k - 1].2.v(), e[k - 1].3.v()) } }
// the capacity of the cut s in the graph as it was given
spec fn capacity(a: Seq<VxNum>, b: Seq<VxNum>, e: Seq<(usize, usize, VxNum, VxNum)>, s: Seq<bool>) -> int { tgiven(a, b, s, a.len() as int) + esum(e, s, e.len() as int) }
fn vx_client(src: &[VxNum], snk: &[VxNum], edges: &Vec<(usize, usize, VxNum, VxNum)>) -> (res: (VxNum, Vec<bool>))
    requires src@.len() == snk@.len(), src@.len() < 0x1000_0000_0000, edges@.len() < 0x1000_0000_0000, edges_ok(edges@, src@.len() as int),
    ensures res.1@.len() == src@.len(), res.0.v() == capacity(src@, snk@, edges@, res.1@), forall|s: Seq<bool>| res.0.v() <= #[trigger] capacity(src@, snk@, edges@, s),
{
    let mut g = GraphCut::new(src, snk);
    let mut k = 0;
    while k < edges.len()
        invariant ready(g), k <= edges@.len(), g.parent@.len() == src@.len(), g.arcs@.len() == 2 * k, src@.len() < 0x1000_0000_0000, edges@.len() < 0x1000_0000_0000, edges_ok(edges@, src@.len() as int),
            forall|s: Seq<bool>| #[trigger] cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == tgiven(src@, snk@, s, src@.len() as int) + esum(edges@, s, k as int),
        decreases edges@.len() - k,
    {
        let ghost h = g;
        let e = edges[k];
        proof { assert(edges@[k as int].0 < src@.len()); }
        g.add_edge(e.0, e.1, e.2, e.3);
        proof { assert forall|s: Seq<bool>| #[trigger] cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == tgiven(src@, snk@, s, src@.len() as int) + esum(edges@, s, k + 1) by { assert(cut(h.arcs@, h.tr_cap@, s) + h.flow.v() == tgiven(src@, snk@, s, src@.len() as int) + esum(edges@, s, k as int)); } }
        k += 1;
    }
    let ghost h = g;
    let f = g.max_flow();
    proof {
        assert forall|s: Seq<bool>| f.v() <= #[trigger] capacity(src@, snk@, edges@, s) by { assert(cut(h.arcs@, h.tr_cap@, s) + h.flow.v() == capacity(src@, snk@, edges@, s)); assert(cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == cut(h.arcs@, h.tr_cap@, s) + h.flow.v()); lemma_cut_nonneg(g.arcs@, g.parent@.len() as int, g.tr_cap@, s, g.arcs@.len() as int, g.tr_cap@.len() as int); }
        let s = g.is_sink@;
        assert(cut(h.arcs@, h.tr_cap@, s) + h.flow.v() == capacity(src@, snk@, edges@, s)); assert(cut(g.arcs@, g.tr_cap@, s) + g.flow.v() == cut(h.arcs@, h.tr_cap@, s) + h.flow.v());
    }
    (f, g.is_sink)
}
} // verus!
fn main() {}
