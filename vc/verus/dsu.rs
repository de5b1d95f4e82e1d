use vstd::prelude::*;
verus! {
// ---- trusted stand-ins ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
#[verifier::external_body]
fn vx_entry_push(m: &mut HashMap<usize, Vec<usize>>, k: usize, x: usize)
    ensures forall|j: usize| #[trigger] final(m)@.contains_key(j) <==> (j == k || old(m)@.contains_key(j)),
        forall|j: usize| j != k && old(m)@.contains_key(j) ==> #[trigger] final(m)@[j]@ == old(m)@[j]@,
        final(m)@[k]@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Seq::<usize>::empty() }).push(x),
{ unimplemented!() }
#[verifier::external_body]
fn vx_range_vec(lo: usize, hi: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if lo <= hi { hi - lo } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> r@[i] == lo + i,
{ Vec::from_iter(lo..hi) }

// ---- specification ----
spec fn is_root(p: Seq<usize>, i: int) -> bool { p[i] as int == i }
spec fn roots(p: Seq<usize>) -> Set<int> { Set::range(0, p.len() as int).filter(|i: int| is_root(p, i)) }
spec fn wf_pr(p: Seq<usize>, r: Seq<usize>, m: int) -> bool {
    &&& p.len() == r.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] r[i] <= m
    &&& forall|i: int| 0 <= i < p.len() && #[trigger] p[i] != i ==> r[i] < r[p[i] as int]
}
spec fn find(p: Seq<usize>, r: Seq<usize>, m: int, i: int) -> int
    decreases m - r[i],
    when wf_pr(p, r, m) && 0 <= i < p.len()
{
    if p[i] == i { i } else { find(p, r, m, p[i] as int) }
}

//@STRUCT src/disjoint_set/mod.rs DisjointSet
impl DisjointSet {
    #[verifier::inline]
    spec fn par(self) -> Seq<usize> { self.parent@ }
    #[verifier::inline]
    spec fn rnk(self) -> Seq<usize> { self.rank@ }
    spec fn size(self) -> nat { self.par().len() }
    #[verifier::inline]
    spec fn m(self) -> int { self.par().len() - self.n_groups }
    spec fn wf(self) -> bool {
        &&& wf_pr(self.par(), self.rnk(), self.m())
        &&& self.n_groups == roots(self.par()).len()
    }
    #[verifier::inline]
    spec fn rep(self, i: int) -> int { find(self.par(), self.rnk(), self.m(), i) }
    spec fn same(self, a: int, b: int) -> bool { self.rep(a) == self.rep(b) }
}

broadcast proof fn lemma_find_root(p: Seq<usize>, r: Seq<usize>, m: int, i: int)
    requires wf_pr(p, r, m), 0 <= i < p.len(),
    ensures 0 <= #[trigger] find(p, r, m, i) < p.len(), is_root(p, find(p, r, m, i)),
        find(p, r, m, find(p, r, m, i)) == find(p, r, m, i),
        r[i] <= r[find(p, r, m, i)],
        p[i] != i ==> r[i] < r[find(p, r, m, i)],
    decreases m - r[i],
{
    if p[i] != i { lemma_find_root(p, r, m, p[i] as int); }
}

broadcast proof fn lemma_compress_wf(p: Seq<usize>, r: Seq<usize>, m: int, x: int, v: usize)
    requires wf_pr(p, r, m), 0 <= x < p.len(), v == find(p, r, m, x),
    ensures #![trigger p.update(x, v), wf_pr(p, r, m)]
        wf_pr(p.update(x, v), r, m), roots(p.update(x, v)) == roots(p),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] is_root(p.update(x, v), i) <==> is_root(p, i)),
{
    let q = p.update(x, v);
    lemma_find_root(p, r, m, x);
    assert forall|k: int| 0 <= k < q.len() && #[trigger] q[k] != k implies r[k] < r[q[k] as int] by {
        if k != x { assert(p[k] == q[k]); }
    }
    assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < q.len() by {
        if k != x { assert(p[k] == q[k]); }
    }
    assert(roots(q) =~= roots(p)) by {
      assert forall|k: int| roots(q).contains(k) == roots(p).contains(k) by {}
    }
}
// replacing a parent pointer by the representative changes no representative
broadcast proof fn lemma_compress(p: Seq<usize>, r: Seq<usize>, m: int, x: int, v: usize, i: int)
    requires wf_pr(p, r, m), 0 <= x < p.len(), 0 <= i < p.len(), v == find(p, r, m, x),
    ensures #[trigger] find(p.update(x, v), r, m, i) == find(p, r, m, i),
    decreases m - r[i],
{
    let q = p.update(x, v);
    lemma_find_root(p, r, m, x);
    lemma_compress_wf(p, r, m, x, v);
    if i == x {
        let f = find(p, r, m, x);
        if f != x { assert(q[x] == f); assert(q[f] == p[f]); } assert(find(q, r, m, f) == f);
    } else {
        assert(q[i] == p[i]);
        if p[i] != i { lemma_compress(p, r, m, x, v, p[i] as int); }
    }
}
broadcast group group_dsu { lemma_find_root, lemma_compress_wf, lemma_compress }

proof fn lemma_find_new(p: Seq<usize>, r: Seq<usize>, i: int)
    requires p.len() == r.len(), 0 <= i < p.len(), forall|k: int| 0 <= k < p.len() ==> p[k] == k && r[k] == 0,
    ensures wf_pr(p, r, 0), find(p, r, 0, i) == i, roots(p) == Set::range(0, p.len() as int)
{ assert(wf_pr(p, r, 0)); assert(roots(p) =~= Set::range(0, p.len() as int)); }

// hanging root a below root b (a != b)
proof fn lemma_link(p: Seq<usize>, r: Seq<usize>, m: int, q: Seq<usize>, s: Seq<usize>, a: int, b: int, i: int)
    requires wf_pr(p, r, m), 0 <= a < p.len(), 0 <= b < p.len(), a != b, is_root(p, a), is_root(p, b), 0 <= i < p.len(),
        q == p.update(a, b as usize), wf_pr(q, s, m + 1),
    ensures find(q, s, m + 1, i) == (if find(p, r, m, i) == a { b } else { find(p, r, m, i) })
    decreases m - r[i],
{
    if p[i] != i {
        assert(q[i] == p[i]);
        lemma_link(p, r, m, q, s, a, b, p[i] as int);
    } else if i == a {
        assert(q[a] == b);
        assert(q[b] == p[b]);
        assert(find(q, s, m + 1, b) == b);
    } else { assert(q[i] == p[i]); }
}
proof fn lemma_link_roots(p: Seq<usize>, q: Seq<usize>, a: int, b: int)
    requires 0 <= a < p.len(), 0 <= b < p.len(), a != b, is_root(p, a), is_root(p, b), q == p.update(a, b as usize)
    ensures roots(p).len() >= 2, roots(q).len() == roots(p).len() - 1,
{
    assert(roots(q) =~= roots(p).remove(a));
    assert(roots(p).contains(a));
    assert(roots(p).remove(a).contains(b));
    assert(roots(p).remove(a).len() == roots(p).len() - 1);
    assert(roots(q).len() > 0) by { if roots(q).len() == 0 { assert(roots(q) =~= Set::empty()); } }
}
proof fn lemma_range_len(n: int)
    requires n >= 0
    ensures Set::range(0, n).len() == n
    decreases n
{
    if n > 0 {
        lemma_range_len(n - 1);
        assert(Set::range(0, n) =~= Set::range(0, n - 1).insert(n - 1));
    } else { assert(Set::range(0, n) =~= Set::<int>::empty()); }
}
proof fn lemma_roots_len(p: Seq<usize>)
    ensures roots(p).len() <= p.len()
{ lemma_range_len(p.len() as int); vstd::set_lib::lemma_len_subset(roots(p), Set::range(0, p.len() as int)); }


// ---- the functions of src/disjoint_set/mod.rs ----
//@TRUST hashbrown::HashMap::entry(k).or_insert(vec![]).push(x) appends x to the list of k and leaves the other lists alone; Vec::from_iter(0..n) is 0, 1, .., n-1
//@GSUB /Vec::from_iter\(0\.\.(\w+)\)/ => vx_range_vec(0, \1)
//@GSUB /(\w+)\s*\.entry\((\w+)\)\s*\.or_insert\(vec!\[\]\)\s*\.push\((\w+)\)/ => vx_entry_push(&mut \1, \2, \3)
//@GSUB /(\w+)\s*\.entry\((\w+)\)\s*\.or_insert_with\(Vec::new\)\s*\.push\((\w+)\)/ => vx_entry_push(&mut \1, \2, \3)
impl DisjointSet {
//@FN src/disjoint_set/mod.rs DisjointSet::new (n) -> res
//@        ensures res.wf(), res.size() == n, res.n_groups == n,
//@            forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> (#[trigger] res.same(a, b) <==> a == b),
//@END:        proof { lemma_range_len(n as int); assert(res.m() == 0); assert(wf_pr(res.par(), res.rnk(), res.m()));
//@            assert forall|i: int| 0 <= i < n implies #[trigger] res.rep(i) == i by { lemma_find_new(res.par(), res.rnk(), i); }
//@            assert(roots(res.par()) =~= Set::range(0, n as int)); }
//@ENDFN

//@FN src/disjoint_set/mod.rs DisjointSet::link (x, y)
//@        requires old(self).wf(), x < old(self).size(), y < old(self).size(), is_root(old(self).par(), x as int), is_root(old(self).par(), y as int),
//@        ensures final(self).wf(), final(self).size() == old(self).size(),
//@            final(self).n_groups == old(self).n_groups - (if x == y { 0int } else { 1int }),
//@            forall|a: int, b: int| 0 <= a < old(self).size() && 0 <= b < old(self).size() ==>
//@                (#[trigger] final(self).same(a, b) <==> old(self).same(a, b) || (old(self).rep(a) == x && old(self).rep(b) == y) || (old(self).rep(a) == y && old(self).rep(b) == x)),
//@START:        broadcast use group_dsu;
//@         proof { if x != y {
//@             assert(self.parent.len() == self.parent@.len());
//@             assert(self.rank@[y as int] <= self.m());
//@             assert(self.rank@[x as int] <= self.m());
//@             lemma_link_roots(self.par(), self.par().update(x as int, y), x as int, y as int);
//@             lemma_link_roots(self.par(), self.par().update(y as int, x), y as int, x as int);
//@             lemma_roots_len(self.par());
//@             lemma_roots_len(self.par().update(x as int, y)); lemma_roots_len(self.par().update(y as int, x));
//@         } }
//@END:      proof { if x != y {
//@             let (p, r, m) = (old(self).par(), old(self).rnk(), old(self).m());
//@             let (q, s) = (self.par(), self.rnk());
//@             let (a, b) = if q == p.update(x as int, y) { (x as int, y as int) } else { (y as int, x as int) };
//@             assert(self.m() == m + 1);
//@             assert(wf_pr(q, s, m + 1)) by {
//@                 assert forall|k: int| 0 <= k < q.len() && #[trigger] q[k] != k implies s[k] < s[q[k] as int] by {
//@                     if k != a { assert(p[k] == q[k]); }
//@                 }
//@                 assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < q.len() by { if k != a { assert(p[k] == q[k]); } }
//@                 assert forall|k: int| 0 <= k < q.len() implies #[trigger] s[k] <= m + 1 by { assert(r[k] <= m); assert(r[b] <= m); }
//@             }
//@             assert forall|i: int| 0 <= i < q.len() implies #[trigger] self.rep(i) == (if old(self).rep(i) == a { b } else { old(self).rep(i) }) by {
//@                 lemma_link(p, r, m, q, s, a, b, i);
//@             }
//@         } }
//@ENDFN

//@FN src/disjoint_set/mod.rs DisjointSet::merge (x, y)
//@        requires old(self).wf(), x < old(self).size(), y < old(self).size(),
//@        ensures final(self).wf(), final(self).size() == old(self).size(),
//@            final(self).n_groups == old(self).n_groups - (if old(self).same(x as int, y as int) { 0int } else { 1int }),
//@            forall|a: int, b: int| 0 <= a < old(self).size() && 0 <= b < old(self).size() ==>
//@                (#[trigger] final(self).same(a, b) <==> joined(|i: int, j: int| old(self).same(i, j), x as int, y as int, a, b)),
//@START:        broadcast use group_dsu;
//@ENDFN

//@FN src/disjoint_set/mod.rs DisjointSet::find_set (x) -> res
//@        requires old(self).wf(), x < old(self).size(),
//@        ensures final(self).wf(), final(self).rnk() == old(self).rnk(), final(self).n_groups == old(self).n_groups,
//@            final(self).size() == old(self).size(),
//@            res == old(self).rep(x as int), is_root(final(self).par(), res as int),
//@            forall|i: int| 0 <= i < old(self).size() ==> (#[trigger] is_root(final(self).par(), i) <==> is_root(old(self).par(), i)),
//@            forall|i: int| 0 <= i < old(self).size() ==> #[trigger] final(self).rep(i) == old(self).rep(i),
//@        decreases old(self).m() - old(self).rnk()[x as int],
//@START:        broadcast use group_dsu;
//@ENDFN

//@FN src/disjoint_set/mod.rs DisjointSet::output () -> res
//@        requires old(self).wf(),
//@        ensures final(self).wf(), final(self).size() == old(self).size(), final(self).n_groups == old(self).n_groups,
//@            forall|i: int| 0 <= i < old(self).size() ==> #[trigger] final(self).rep(i) == old(self).rep(i),
//@            forall|k: usize| #[trigger] res@.contains_key(k) ==> k < old(self).size() && res@[k]@.len() > 0,
//@            forall|k: usize, j: int| res@.contains_key(k) && 0 <= j < res@[k]@.len() ==> #[trigger] res@[k]@[j] < old(self).size() && old(self).rep(res@[k]@[j] as int) == k,
//@            forall|k: usize, j: int, l: int| res@.contains_key(k) && 0 <= j < l < res@[k]@.len() ==> #[trigger] res@[k]@[j] < #[trigger] res@[k]@[l],
//@            forall|i: int| 0 <= i < old(self).size() ==> res@.contains_key(#[trigger] old(self).rep(i) as usize) && res@[old(self).rep(i) as usize]@.contains(i as usize),
//@START:        broadcast use group_dsu;
//@LOCAL result /HashMap/
//@LOCAL p /self\.find_set/
//@LOOP 0 (i):            invariant self.wf(), self.size() == old(self).size(), self.n_groups == old(self).n_groups, self.parent.len() == self.size(),
//@             forall|j: int| 0 <= j < old(self).size() ==> #[trigger] self.rep(j) == old(self).rep(j),
//@             forall|k: usize| #[trigger] result@.contains_key(k) ==> k < old(self).size() && result@[k]@.len() > 0,
//@             forall|k: usize, j: int| result@.contains_key(k) && 0 <= j < result@[k]@.len() ==> #[trigger] result@[k]@[j] < i && old(self).rep(result@[k]@[j] as int) == k,
//@             forall|k: usize, j: int, l: int| result@.contains_key(k) && 0 <= j < l < result@[k]@.len() ==> #[trigger] result@[k]@[j] < #[trigger] result@[k]@[l],
//@             forall|j: int| 0 <= j < i ==> result@.contains_key(#[trigger] old(self).rep(j) as usize) && result@[old(self).rep(j) as usize]@.contains(j as usize),
//@LOOPSTART 0 (i):            let ghost before = result@; let ghost self0 = *self;
//@LOOPEND 0 (i):           proof {
//@                 lemma_find_root(self.par(), self.rnk(), self.m(), i as int);
//@                 let p = self0.rep(i as int) as usize;
//@                 assert(p == self.rep(i as int));
//@                 assert(p < self.size());
//@                 let s0 = if before.contains_key(p) { before[p]@ } else { Seq::<usize>::empty() };
//@                 let s1 = result@[p]@;
//@                 assert(s1 == s0.push(i)); assert(s1[s1.len() - 1] == i);
//@                 assert forall|k: usize| #[trigger] result@.contains_key(k) implies k < old(self).size() && result@[k]@.len() > 0 by { if k != p { assert(before.contains_key(k)); assert(result@[k]@ == before[k]@); } }
//@                 assert forall|v: usize| s0.contains(v) implies s1.contains(v) by { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == v; assert(s1[j] == v); }
//@             }
//@ENDFN
}

// ---- the property over these contracts ----
// joined(R, x, y) is the smallest equivalence that contains the equivalence R and the pair (x, y)
spec fn joined(rel: spec_fn(int, int) -> bool, x: int, y: int, a: int, b: int) -> bool {
    rel(a, b) || (rel(a, x) && rel(b, y)) || (rel(a, y) && rel(b, x))
}
spec fn equivalence(rel: spec_fn(int, int) -> bool, n: int) -> bool {
    &&& forall|a: int| 0 <= a < n ==> #[trigger] rel(a, a)
    &&& forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] rel(a, b) ==> rel(b, a)
    &&& forall|a: int, b: int, c: int| 0 <= a < n && 0 <= b < n && 0 <= c < n && #[trigger] rel(a, b) && #[trigger] rel(b, c) ==> rel(a, c)
}
proof fn lemma_joined_is_smallest(rel: spec_fn(int, int) -> bool, big: spec_fn(int, int) -> bool, x: int, y: int, n: int)
    requires equivalence(rel, n), 0 <= x < n, 0 <= y < n,
    ensures equivalence(|a: int, b: int| joined(rel, x, y, a, b), n),
        joined(rel, x, y, x, y),
        forall|a: int, b: int| #[trigger] rel(a, b) ==> joined(rel, x, y, a, b),
        (equivalence(big, n) && big(x, y) && (forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] rel(a, b) ==> big(a, b))) ==>
            (forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] joined(rel, x, y, a, b) ==> big(a, b)),
{
    let j = |a: int, b: int| joined(rel, x, y, a, b);
    assert(rel(x, x)); assert(rel(y, y));
    assert forall|a: int| 0 <= a < n implies #[trigger] j(a, a) by { assert(rel(a, a)); }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] j(a, b) implies j(b, a) by { }
    assert forall|a: int, b: int, c: int| 0 <= a < n && 0 <= b < n && 0 <= c < n && #[trigger] j(a, b) && #[trigger] j(b, c) implies j(a, c) by {
        assert(rel(a, b) ==> rel(b, a)); assert(rel(b, c) ==> rel(c, b));
        assert(rel(a, x) ==> rel(x, a)); assert(rel(a, y) ==> rel(y, a));
        assert(rel(b, x) ==> rel(x, b)); assert(rel(b, y) ==> rel(y, b));
        assert(rel(c, x) ==> rel(x, c)); assert(rel(c, y) ==> rel(y, c));
    }
    if equivalence(big, n) && big(x, y) && (forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] rel(a, b) ==> big(a, b)) {
        assert(big(y, x));
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] joined(rel, x, y, a, b) implies big(a, b) by {
            if !rel(a, b) {
                if rel(a, x) && rel(b, y) { assert(big(a, x)); assert(big(b, y)); assert(big(y, b)); assert(big(a, y)); }
                else { assert(big(a, y)); assert(big(b, x)); assert(big(x, b)); assert(big(a, x)); }
            }
        }
    }
}
proof fn lemma_same_is_equivalence(d: DisjointSet)
    requires d.wf()
    ensures equivalence(|a: int, b: int| d.same(a, b), d.size() as int)
{ }
fn main(){}
}
