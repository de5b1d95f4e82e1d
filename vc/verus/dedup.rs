use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@TRUST f64 (stand-in VxF, its value a real number): no NaN and no infinity; division and multiplication by a power of two are exact (barring overflow and underflow); round is to the nearest integer, ties away from zero; powi(2, e) is exact; the exponent field of to_bits is the binary logarithm of a normal number
//@TRUST sort_unstable_by sorts by a comparison that is a total preorder; comparison of slices is lexicographic; map, flatten, collect and vec! have their documented meaning (verified loops stand in for them)
//@GSUB /\bf64\b/ => VxF
//@GSUB /\b2(?:\.0)?_?f64\b/ => vx_two()
//@GSUB /\b0\.0\b/ => vx_zero()
//@GSUB /\.wrapping_shr\(52\)/ => .vx_shr(52)
//@GSUB /vec!\[\s*0usize;\s*(\w+)\s*\]/ => vx_fill(0usize, \1)
//@GSUB /Vec::from_iter\(0\.\.([\w.()]+?)\)(?=[;,])/ => vx_range_vec(0, \1)
//@GSUB /Vec::from_iter\((\w+)\.iter\(\)\.map\(\|&(\w+)\| \2\)\)/ => vx_copy(\1)
//@GSUB /(\w+\(&?\w+, \w+\))\s*\.partial_cmp\((\w+\(&?\w+, \w+\))\)/ => vx_lex(\1, \2)
//@GSUB /(point\(&?\w+, \w+\)) == (point\(&?\w+, \w+\))/ => vx_same(\1, \2)
//@GSUB /(point\(&?\w+, \w+\)) != (point\(&?\w+, \w+\))/ => !vx_same(\1, \2)
//@GSUB /&(\w+)\[(\w+)\.\.\(?(\w+ \+ \w+)\)?\]/ => vx_slice(\1, \2, \3)
// ---- stand-ins ----
#[verifier::external_body]
pub struct VxF { x: f64 }
impl Copy for VxF {}
impl Clone for VxF { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn p2(e: int) -> real decreases (if e < 0 { -e } else { e }) { if e == 0 { 1real } else if e > 0 { 2real * p2(e - 1) } else { p2(e + 1) / 2real } }
pub open spec fn pow2(x: real) -> bool { exists|e: int| #[trigger] p2(e) == x }
pub open spec fn rnd(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((0.5real - x).floor()) } }
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
impl VxF {
    pub uninterp spec fn v(self) -> real;
    #[verifier::external_body]
    fn round(self) -> (r: VxF) ensures r.v() == rnd(self.v()) as real { unimplemented!() }
    #[verifier::external_body]
    fn abs(self) -> (r: VxF) ensures r.v() == absr(self.v()) { unimplemented!() }
    // powers of two only
    #[verifier::external_body]
    fn powi(self, e: i32) -> (r: VxF) requires self.v() == 2real, -1022 <= e <= 1023 ensures r.v() == p2(e as int) { unimplemented!() }
    #[verifier::external_body]
    fn to_bits(self) -> (r: VxB) requires self.v() >= p2(-1022) ensures 1 <= (r.b >> 52u64) < 2047, p2((r.b >> 52u64) - 1023) <= self.v() < p2((r.b >> 52u64) - 1022) { unimplemented!() }
}
struct VxB { b: u64 }
impl VxB { fn vx_shr(self, n: u64) -> (r: u64) requires n < 64 ensures r == self.b >> n { self.b >> n } }
impl PartialEqSpecImpl for VxF {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &VxF) -> bool { self.v() == other.v() }
}
impl PartialEq for VxF {
    #[verifier::external_body]
    fn eq(&self, other: &VxF) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for VxF {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &VxF) -> Option<Ordering> { if self.v() < other.v() { Some(Ordering::Less) } else if self.v() == other.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for VxF {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &VxF) -> Option<Ordering> { unimplemented!() }
}
impl DivSpecImpl<VxF> for VxF {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: VxF) -> bool { pow2(o.v()) }
    open spec fn div_spec(self, o: VxF) -> VxF { self }
}
impl std::ops::Div for VxF {
    type Output = VxF;
    #[verifier::external_body]
    fn div(self, o: VxF) -> (r: VxF) ensures r.v() == self.v() / o.v() { unimplemented!() }
}
impl MulSpecImpl<VxF> for VxF {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: VxF) -> bool { pow2(o.v()) || pow2(self.v()) }
    open spec fn mul_spec(self, o: VxF) -> VxF { self }
}
impl std::ops::Mul for VxF {
    type Output = VxF;
    #[verifier::external_body]
    fn mul(self, o: VxF) -> (r: VxF) ensures r.v() == self.v() * o.v() { unimplemented!() }
}
#[verifier::external_body]
fn vx_two() -> (r: VxF) ensures r.v() == 2real { unimplemented!() }
#[verifier::external_body]
fn vx_zero() -> (r: VxF) ensures r.v() == 0real { unimplemented!() }
fn vx_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    for i in 0..n
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x,
    { v.push(x); }
    v
}
fn vx_range_vec(lo: usize, hi: usize) -> (r: Vec<usize>)
    requires lo == 0,
    ensures r@.len() == hi, forall|i: int| 0 <= i < hi ==> #[trigger] r@[i] == i, forall|i: usize| i < hi ==> #[trigger] r@.contains(i),
{
    let mut v: Vec<usize> = Vec::new();
    for i in 0..hi
        invariant v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == j,
    { v.push(i); }
    proof { assert forall|i: usize| i < hi implies #[trigger] v@.contains(i) by { assert(v@[i as int] == i); } }
    v
}
fn vx_copy(a: &[VxF]) -> (r: Vec<VxF>)
    ensures r@ =~= a@,
{
    let mut v: Vec<VxF> = Vec::new();
    for i in 0..a.len()
        invariant v@.len() == i, i <= a@.len(), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == a@[j],
    { v.push(a[i]); }
    v
}
#[verifier::external_body]
fn vx_slice<T>(a: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= a@.len(),
    ensures r@ == a@.subrange(lo as int, hi as int),
{ &a[lo..hi] }
// ---- the order on points ----
type K = (real, real, real);
spec fn key(p: Seq<VxF>, i: int) -> K { (p[3 * i].v(), p[3 * i + 1].v(), p[3 * i + 2].v()) }
spec fn tri(s: Seq<VxF>) -> K { (s[0].v(), s[1].v(), s[2].v()) }
spec fn before(a: K, b: K) -> bool { a.0 < b.0 || a.0 == b.0 && (a.1 < b.1 || a.1 == b.1 && a.2 < b.2) }
spec fn order(a: K, b: K) -> Ordering { if before(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
spec fn by_key(p: Seq<VxF>) -> spec_fn(usize, usize) -> Ordering { |a: usize, b: usize| order(key(p, a as int), key(p, b as int)) }
fn vx_lex(a: &[VxF], b: &[VxF]) -> (r: Option<Ordering>)
    requires a@.len() == 3, b@.len() == 3,
    ensures r == Some(order(tri(a@), tri(b@))),
{
    let mut i = 0;
    while i < 3
        invariant i <= 3, a@.len() == 3, b@.len() == 3, forall|k: int| 0 <= k < i ==> (#[trigger] a@[k]).v() == b@[k].v(),
        decreases 3 - i,
    {
        if a[i] < b[i] { proof { assert(i == 0 || a@[0].v() == b@[0].v()); assert(i < 2 || a@[1].v() == b@[1].v()); } return Some(Ordering::Less); }
        if b[i] < a[i] { proof { assert(i == 0 || a@[0].v() == b@[0].v()); assert(i < 2 || a@[1].v() == b@[1].v()); } return Some(Ordering::Greater); }
        i += 1;
    }
    proof { assert(a@[0].v() == b@[0].v() && a@[1].v() == b@[1].v() && a@[2].v() == b@[2].v()); }
    Some(Ordering::Equal)
}
fn vx_same(a: &[VxF], b: &[VxF]) -> (r: bool)
    requires a@.len() == 3, b@.len() == 3,
    ensures r == (tri(a@) == tri(b@)),
{ a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
spec fn preorder(f: spec_fn(usize, usize) -> Ordering) -> bool {
    &&& forall|a: usize, b: usize| #[trigger] f(a, b) == Ordering::Less <==> f(b, a) == Ordering::Greater
    &&& forall|a: usize, b: usize| #[trigger] f(a, b) == Ordering::Equal ==> f(b, a) == Ordering::Equal
    &&& forall|a: usize, b: usize, c: usize| #[trigger] f(a, b) != Ordering::Greater && #[trigger] f(b, c) != Ordering::Greater ==> f(a, c) != Ordering::Greater
}
// slice::sort_unstable_by
#[verifier::external_body]
fn vx_sort<F: Fn(usize, usize) -> Ordering>(v: &mut Vec<usize>, f: F, g: Ghost<spec_fn(usize, usize) -> Ordering>)
    requires preorder(g@), forall|a: usize, b: usize| old(v)@.contains(a) && old(v)@.contains(b) ==> #[trigger] f.requires((a, b)),
        forall|a: usize, b: usize, o: Ordering| old(v)@.contains(a) && old(v)@.contains(b) && #[trigger] f.ensures((a, b), o) ==> o == g@(a, b),
    ensures final(v)@.len() == old(v)@.len(), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
        forall|a: usize| #[trigger] final(v)@.contains(a) <==> old(v)@.contains(a),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] g@(final(v)@[i], final(v)@[j]) != Ordering::Greater,
{ v.sort_unstable_by(|&a, &b| f(a, b)) }
// ---- powers of two ----
proof fn lemma_p2(e: int)
    ensures p2(e) > 0real, p2(e + 1) == 2real * p2(e),
    decreases (if e < 0 { -e } else { e }),
{
    if e > 0 { lemma_p2(e - 1); } else if e < 0 { lemma_p2(e + 1); }
}
proof fn lemma_p2_mono(a: int, b: int)
    requires a <= b,
    ensures p2(a) <= p2(b),
    decreases b - a,
{
    if a < b { lemma_p2_mono(a, b - 1); lemma_p2(b - 1); }
}
spec fn expo(x: real, e: int) -> bool { p2(e) <= x < p2(e + 1) }
proof fn lemma_expo(x: real, a: int, b: int)
    requires expo(x, a), expo(x, b),
    ensures a == b,
{
    if a < b { lemma_p2_mono(a + 1, b); }
    if b < a { lemma_p2_mono(b + 1, a); }
}
proof fn lemma_has_expo(x: real, k: int)
    requires -1021 <= k, p2(-1021) <= x < p2(k),
    ensures exists|e: int| #[trigger] expo(x, e),
    decreases k + 1021,
{
    if k > -1021 && x < p2(k - 1) { lemma_has_expo(x, k - 1); } else { assert(expo(x, k - 1)); }
}
// ---- snapping ----
spec fn snap(x: real, b: real) -> real { (rnd(x / b) as real) * b }
proof fn lemma_rnd(x: real)
    ensures absr(rnd(x) as real - x) <= 0.5real,
{}
proof fn lemma_snap(x: real, b: real)
    requires b > 0real,
    ensures absr(snap(x, b) - x) <= b / 2real, snap(snap(x, b), b) == snap(x, b),
{
    let y = x / b; let k = rnd(y) as real;
    lemma_rnd(y);
    assert(y * b == x) by(nonlinear_arith) requires y == x / b, b > 0real;
    assert(-0.5real <= k - y <= 0.5real);
    let d = k - y;
    assert(k * b - x == d * b) by(nonlinear_arith) requires y * b == x, d == k - y;
    assert(-0.5real * b <= d * b <= 0.5real * b) by(nonlinear_arith) requires -0.5real <= d <= 0.5real, b > 0real;
    assert((k * b) / b == k) by(nonlinear_arith) requires b > 0real;
    assert(rnd(k) == rnd(y));
}
//@FN src/predicates/mod.rs get_exponent (x) -> res
//@ requires absr(x.v()) >= p2(-1022),
//@ ensures expo(absr(x.v()), res as int), -1022 <= res <= 1023,
//@START:
//@ proof { lemma_p2(-1022); }
//@ENDFN
//@FN src/polygonlization/mod.rs point (points, idx) -> res
//@ requires 3 * idx + 3 <= points@.len(), points@.len() < 0x1000_0000_0000_0000,
//@ ensures res@.len() == 3, tri(res@) == key(points@, idx as int), forall|c: int| 0 <= c < 3 ==> #[trigger] res@[c] == points@[3 * idx + c],
//@ENDFN
spec fn used(m: Seq<usize>, j: int) -> bool { exists|i: int| 0 <= i < m.len() && #[trigger] m[i] == j }
// the points p, cleaned with a lattice of width b: out and the map m
spec fn cleaned(p: Seq<VxF>, b: real, out: Seq<VxF>, m: Seq<usize>) -> bool {
    &&& m.len() == p.len() / 3 && out.len() % 3 == 0
    &&& forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] < out.len() / 3
    &&& forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < 3 ==> out[3 * (#[trigger] m[i]) + c].v() == snap((#[trigger] p[3 * i + c]).v(), b)
    &&& forall|i: int, j: int| 0 <= i < j < out.len() / 3 ==> #[trigger] key(out, i) != #[trigger] key(out, j)
    &&& forall|j: int| 0 <= j < out.len() / 3 ==> #[trigger] used(m, j)
}
// after the first k points in sorted order: o the representatives, m the map
spec fn state(a: Seq<VxF>, s: Seq<usize>, m: Seq<usize>, o: Seq<usize>, k: int) -> bool {
    &&& 1 <= o.len() <= k <= s.len() && m.len() == s.len()
    &&& forall|j: int| 0 <= j < k ==> #[trigger] m[s[j] as int] < o.len() && key(a, o[m[s[j] as int] as int] as int) == key(a, s[j] as int)
    &&& forall|x: int, y: int| 0 <= x < y < o.len() ==> before(key(a, #[trigger] o[x] as int), key(a, #[trigger] o[y] as int))
    &&& o[o.len() - 1] < m.len() && key(a, o[o.len() - 1] as int) == key(a, s[k - 1] as int)
    &&& forall|x: int| 0 <= x < o.len() ==> #[trigger] o[x] < m.len() && m[o[x] as int] == x && exists|j: int| 0 <= j < k && #[trigger] s[j] == o[x]
}
proof fn lemma_state(a: Seq<VxF>, s: Seq<usize>, m: Seq<usize>, o: Seq<usize>, n: Seq<usize>, q: Seq<usize>, k: int)
    requires state(a, s, m, o, k), 1 <= k < s.len() < 0x1000_0000_0000_0000, s.no_duplicates(), forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < s.len(),
        order(key(a, s[k - 1] as int), key(a, s[k] as int)) != Ordering::Greater,
        key(a, s[k - 1] as int) == key(a, s[k] as int) ==> q == o && n == m.update(s[k] as int, (o.len() - 1) as usize),
        key(a, s[k - 1] as int) != key(a, s[k] as int) ==> q == o.push(s[k]) && n == m.update(s[k] as int, o.len() as usize),
    ensures state(a, s, n, q, k + 1),
{
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] n[s[j] as int] < q.len() && key(a, q[n[s[j] as int] as int] as int) == key(a, s[j] as int) by {
        if j < k { assert(s[j] != s[k]); let x = m[s[j] as int]; assert(x < o.len()); assert(n[s[j] as int] == x); assert(q[x as int] == o[x as int]); }
        else { assert(s[k] < s.len()); assert(n[s[k] as int] == q.len() - 1); }
    }
    assert forall|x: int| 0 <= x < q.len() implies #[trigger] q[x] < n.len() && n[q[x] as int] == x && exists|j: int| 0 <= j < k + 1 && #[trigger] s[j] == q[x] by {
        if x < o.len() {
            assert(q[x] == o[x]);
            let j = choose|j: int| 0 <= j < k && #[trigger] s[j] == o[x];
            assert(s[j] != s[k]);
            assert(s[j] == q[x]);
        } else { assert(s[k] == q[x]); }
    }
    assert forall|x: int, y: int| 0 <= x < y < q.len() implies before(key(a, #[trigger] q[x] as int), key(a, #[trigger] q[y] as int)) by {
        assert(q[x] == o[x]);
        if y < o.len() { assert(q[y] == o[y]); } else { if x < o.len() - 1 { assert(before(key(a, o[x] as int), key(a, o[o.len() - 1] as int))); } }
    }
}
proof fn lemma_clean(p: Seq<VxF>, b: real, a: Seq<VxF>, s: Seq<usize>, m: Seq<usize>, o: Seq<usize>, r: Seq<VxF>)
    requires state(a, s, m, o, s.len() as int), s.len() < 0x1000_0000_0000_0000, a.len() == p.len(), p.len() == 3 * s.len(), r.len() == 3 * o.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).v() == snap(p[i].v(), b),
        forall|i: usize| i < s.len() ==> #[trigger] s.contains(i),
        forall|k: int, c: int| #![trigger r[3 * k + c]] 0 <= k < o.len() && 0 <= c < 3 ==> r[3 * k + c] == a[3 * o[k] + c],
    ensures cleaned(p, b, r, m),
{
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] key(r, k) == key(a, o[k] as int) by { assert(r[3 * k + 0] == a[3 * o[k] + 0]); assert(r[3 * k + 1] == a[3 * o[k] + 1]); assert(r[3 * k + 2] == a[3 * o[k] + 2]); }
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] < o.len() && key(a, o[m[i] as int] as int) == key(a, i) by {
        assert(s.contains(i as usize)); let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; assert(m[s[j] as int] < o.len());
    }
    assert forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < 3 implies r[3 * (#[trigger] m[i]) + c].v() == snap((#[trigger] p[3 * i + c]).v(), b) by {
        let k = m[i] as int; assert(key(r, k) == key(a, o[k] as int)); assert(r[3 * k + c] == a[3 * o[k] + c]); assert(a[3 * i + c].v() == snap(p[3 * i + c].v(), b));
        if c == 0 { assert(key(a, i).0 == a[3 * i].v()); } else if c == 1 { assert(key(a, i).1 == a[3 * i + 1].v()); } else { assert(key(a, i).2 == a[3 * i + 2].v()); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() / 3 implies #[trigger] key(r, i) != #[trigger] key(r, j) by { assert(key(r, i) == key(a, o[i] as int)); assert(before(key(a, o[i] as int), key(a, o[j] as int))); }
    assert forall|j: int| 0 <= j < r.len() / 3 implies #[trigger] used(m, j) by { assert(o[j] < m.len()); assert(m[o[j] as int] == j); }
}
//@FN src/polygonlization/mod.rs remove_duplicates (points, epsilon) -> res
//@ requires points@.len() < 0x1000_0000_0000_0000, points@.len() % 3 == 0, p2(-1021) <= epsilon.v() < p2(1024),
//@ ensures res.0@.len() <= points@.len(), exists|e: int| #[trigger] expo(epsilon.v(), e) && cleaned(points@, p2(e - 1), res.0@, res.1@),
//@SUB /Vec::from_iter\(\s*points\.iter\(\)\.map\(\|(\w+)\| ([^;{}]*)\)\s*\)/ => { let ghost vx_b = base.v(); proof { assert(pow2(vx_b)); } let mut vx_v: Vec<VxF> = Vec::new(); let vx_len = points.len(); for vx_i in 0..vx_len invariant vx_len == points@.len(), base.v() == vx_b, pow2(vx_b), vx_v@.len() == vx_i, forall|k: int| 0 <= k < vx_i ==> (#[trigger] vx_v@[k]).v() == snap(points@[k].v(), vx_b), { let \1 = points[vx_i]; let vx_x = \2; vx_v.push(vx_x); } vx_v }
//@SUB /(\w+)\.sort(?:_unstable)?_by\(\|&(\w+), &(\w+)\| \{(.*?)\}\s*\);/ => vx_sort(&mut \1, |\2: usize, \3: usize| -> (vx_o: Ordering) requires 3 * \2 + 3 <= approx_points@.len(), 3 * \3 + 3 <= approx_points@.len(), approx_points@.len() < 0x1000_0000_0000_0000, ensures vx_o == order(key(approx_points@, \2 as int), key(approx_points@, \3 as int)) { \4 }, Ghost(by_key(approx_points@)));
//@SUB /Vec::from_iter\(\s*(\w+)\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| \{(.*?)\[((?:[^\[\]]|\[\d\])*)\]\s*\}\s*\)\s*\.flatten\(\),?\s*\)/ => { let mut vx_v: Vec<VxF> = Vec::new(); let vx_len = \1.len(); for vx_i in 0..vx_len invariant vx_len == \1@.len(), 3 * n_points == approx_points@.len(), vx_len <= n_points, 3 * n_points < 0x1000_0000_0000_0000, vx_v@.len() == 3 * vx_i, forall|k: int| 0 <= k < vx_len ==> #[trigger] \1@[k] < n_points, forall|k: int, c: int| #![trigger vx_v@[3 * k + c]] 0 <= k < vx_i && 0 <= c < 3 ==> vx_v@[3 * k + c] == approx_points@[3 * \1@[k] + c], { proof { assert(\1@[vx_i as int] < n_points); } let \2 = \1[vx_i]; \3; let vx_a: [VxF; 3] = [\4]; vx_v.push(vx_a[0]); vx_v.push(vx_a[1]); vx_v.push(vx_a[2]); } vx_v }
//@LOCAL approx_points /points\.iter\(\)\.map/
//@LOCAL n_points /points\.len\(\) \/ 3/
//@LOCAL indices /Vec::from_iter\(0\.\.n_points\)/
//@LOCAL pmap /vec!\[0/
//@LOCAL out_pt_indices /vec!\[indices/
//@LOCAL e /get_exponent/
//@LOCAL base /powi/
//@START:
//@ proof { lemma_p2(-1022); lemma_p2(-1021); lemma_has_expo(epsilon.v(), 1024); }
//@BEFORE 0:
//@ let ghost vx_e = e as int;
//@ let ghost vx_a = approx_points@;
//@ let ghost vx_s = indices@;
//@ let ghost vx_b = base.v();
//@ proof { assert forall|i: usize| i < n_points implies #[trigger] vx_s.contains(i) by { } assert forall|i: int, j: int| 0 <= i < j < n_points implies #[trigger] order(key(vx_a, vx_s[i] as int), key(vx_a, vx_s[j] as int)) != Ordering::Greater by { assert(by_key(vx_a)(vx_s[i], vx_s[j]) != Ordering::Greater); } assert forall|k: int| 0 <= k < n_points implies #[trigger] vx_s[k] < n_points by { assert(vx_s.contains(vx_s[k])); } }
//@LOOP 0 (k):
//@ invariant vx_a == approx_points@, vx_s == indices@, vx_s.len() == n_points, 3 * n_points == vx_a.len(), vx_a.len() < 0x1000_0000_0000_0000, n_points >= 1, pmap@.len() == n_points, vx_s.no_duplicates(),
//@     forall|j: int| 0 <= j < n_points ==> #[trigger] vx_s[j] < n_points,
//@     forall|i: int, j: int| 0 <= i < j < n_points ==> #[trigger] order(key(vx_a, vx_s[i] as int), key(vx_a, vx_s[j] as int)) != Ordering::Greater,
//@     state(vx_a, vx_s, pmap@, out_pt_indices@, k as int),
//@AFTER 0:
//@ let ghost vx_m = pmap@;
//@ let ghost vx_o = out_pt_indices@;
//@END:
//@ proof { lemma_clean(points@, vx_b, vx_a, vx_s, vx_m, vx_o, res.0@); assert(expo(epsilon.v(), vx_e + 1)); }
//@LOOPSTART 0:
//@ let ghost vx_m0 = pmap@;
//@ let ghost vx_o0 = out_pt_indices@;
//@ proof { assert(vx_s[k as int] != vx_s[k - 1]); assert(order(key(vx_a, vx_s[k - 1] as int), key(vx_a, vx_s[k as int] as int)) != Ordering::Greater); }
//@LOOPEND 0:
//@ proof { lemma_state(vx_a, vx_s, vx_m0, vx_o0, pmap@, out_pt_indices@, k as int); }
//@ENDFN
// ---- what the caller relies on ----
spec fn apart(p: Seq<VxF>, i: int, j: int, c: int) -> real { absr(p[3 * i + c].v() - p[3 * j + c].v()) }
proof fn theorem_cleaned(p: Seq<VxF>, eps: real, e: int, out: Seq<VxF>, m: Seq<usize>)
    requires expo(eps, e), cleaned(p, p2(e - 1), out, m), p.len() % 3 == 0,
    ensures
        m.len() == p.len() / 3 && out.len() % 3 == 0,
        forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] < out.len() / 3,
        // pairwise different, each stands for an input point
        forall|i: int, j: int| 0 <= i < j < out.len() / 3 ==> #[trigger] key(out, i) != #[trigger] key(out, j),
        forall|j: int| 0 <= j < out.len() / 3 ==> #[trigger] used(m, j),
        // moved by at most half the tolerance
        forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < 3 ==> 2real * absr(out[3 * (#[trigger] m[i]) + c].v() - (#[trigger] p[3 * i + c]).v()) <= eps,
        // equal points together, points further apart than the tolerance not
        forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && key(p, i) == key(p, j) ==> #[trigger] m[i] == #[trigger] m[j],
        forall|i: int, j: int, c: int| 0 <= i < m.len() && 0 <= j < m.len() && 0 <= c < 3 && #[trigger] apart(p, i, j, c) > eps ==> m[i] != m[j],
{
    let b = p2(e - 1);
    lemma_p2(e - 1);
    assert forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < 3 implies 2real * absr(out[3 * (#[trigger] m[i]) + c].v() - (#[trigger] p[3 * i + c]).v()) <= b by { lemma_snap(p[3 * i + c].v(), b); }
    assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && key(p, i) == key(p, j) implies #[trigger] m[i] == #[trigger] m[j] by {
        assert forall|c: int| 0 <= c < 3 implies out[3 * m[i] + c].v() == #[trigger] out[3 * m[j] + c].v() by { assert(p[3 * i + c].v() == p[3 * j + c].v()) by { if c == 0 { assert(key(p, i).0 == key(p, j).0); } else if c == 1 { assert(key(p, i).1 == key(p, j).1); } else { assert(key(p, i).2 == key(p, j).2); } } }
        assert(out[3 * m[i] + 0].v() == out[3 * m[j] + 0].v() && out[3 * m[i] + 1].v() == out[3 * m[j] + 1].v() && out[3 * m[i] + 2].v() == out[3 * m[j] + 2].v());
        assert(key(out, m[i] as int) == key(out, m[j] as int));
        if m[i] < m[j] { assert(false); }
        if m[j] < m[i] { assert(false); }
    }
    assert forall|i: int, j: int, c: int| 0 <= i < m.len() && 0 <= j < m.len() && 0 <= c < 3 && #[trigger] apart(p, i, j, c) > eps implies m[i] != m[j] by {
        if m[i] == m[j] {
            assert(2real * absr(out[3 * m[i] + c].v() - p[3 * i + c].v()) <= b);
            assert(2real * absr(out[3 * m[j] + c].v() - p[3 * j + c].v()) <= b);
        }
    }
}
// the result is used as the input once more
fn vx_client(points: &[VxF], epsilon: VxF) -> (res: (Vec<VxF>, Vec<usize>))
    requires points@.len() < 0x1000_0000_0000_0000, points@.len() % 3 == 0, p2(-1021) <= epsilon.v() < p2(1024),
    ensures // the second pass merges nothing and moves nothing
        forall|i: int, j: int| 0 <= i < j < res.1@.len() ==> #[trigger] res.1@[i] != #[trigger] res.1@[j],
        forall|j: int| 0 <= j < res.0@.len() / 3 ==> #[trigger] used(res.1@, j),
{
    let (a, m) = remove_duplicates(points, epsilon);
    let ghost e = choose|e: int| #[trigger] expo(epsilon.v(), e) && cleaned(points@, p2(e - 1), a@, m@);
    
    let (b, k) = remove_duplicates(a.as_slice(), epsilon);
    proof {
        let f = choose|f: int| #[trigger] expo(epsilon.v(), f) && cleaned(a@, p2(f - 1), b@, k@);
        lemma_expo(epsilon.v(), e, f);
        lemma_p2(e - 1);
        let w = p2(e - 1);
        assert forall|i: int, c: int| 0 <= i < k@.len() && 0 <= c < 3 implies b@[3 * (#[trigger] k@[i]) + c].v() == (#[trigger] a@[3 * i + c]).v() by {
            assert(used(m@, i)); let g = choose|g: int| 0 <= g < m@.len() && #[trigger] m@[g] == i;
            assert(a@[3 * m@[g] + c].v() == snap(points@[3 * g + c].v(), w));
            lemma_snap(points@[3 * g + c].v(), w);
        }
        assert forall|i: int, j: int| 0 <= i < j < k@.len() implies #[trigger] k@[i] != #[trigger] k@[j] by {
            assert(key(a@, i) != key(a@, j));
            if k@[i] == k@[j] {
                assert(b@[3 * k@[i] + 0].v() == a@[3 * i + 0].v() && b@[3 * k@[i] + 1].v() == a@[3 * i + 1].v() && b@[3 * k@[i] + 2].v() == a@[3 * i + 2].v());
                assert(b@[3 * k@[j] + 0].v() == a@[3 * j + 0].v() && b@[3 * k@[j] + 1].v() == a@[3 * j + 1].v() && b@[3 * k@[j] + 2].v() == a@[3 * j + 2].v());
            }
        }
    }
    (b, k)
}
} // verus!
fn main() {}
