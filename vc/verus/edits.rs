use vstd::prelude::*;
verus! {
//@INCLUDE mesh_common.inc
//@ASSUME
//@INCLUDE traverse.inc
//@ENDASSUME

// ---- library idioms, rewritten to loops and stand-ins (each stand-in is verified below) ----
//@TRUST hashbrown::HashMap<HalfedgeId, usize> behaves as a map (stand-in VxMap, itself verified)
//@TRUST an allocator parameter does not change what a Vec or HashMap holds
//@TRUST Vec::extend over a slice iterator, chain, map, zip, enumerate, range and circular_tuple_windows visits the elements in their documented order (verified loops stand in for them)
//@TRUST closures that capture variables mean the same as functions that take them as parameters
//@GSUB /<A: Allocator \+ Copy>/ =>
//@GSUB /,\s*bump: A,?/ =>
//@GSUB /Vec::new_in\(\w+\)/ => Vec::new()
//@GSUB /(\w+)\.extend\(\s*(self\.face\(\w+\)\.halfedges\(\))\s*\.map\(\|(\w+)\| \*\3\),?\s*\)/ => vx_extend_fh(&mut \1, \2)
//@GSUB /(\w+)\[(\w+)\.\.\]/ => \1[\2..\1.len()]
//@GSUB /(\w+)\[\.\.(\w+)\]/ => \1[0..\2]
//@GSUB /(\w+)\.extend\(\s*(\w+)\[(\w+)\.\.([^\]]+)\]\s*\.iter\(\)\s*(?:\.map\(\|&(\w+)\| \5\)|\.copied\(\)|\.cloned\(\)),?\s*\)/ => vx_extend_slice(&mut \1, &\2, \3, \4)
//@GSUB /(\w+)\.extend\(\s*(\w+)\[(\w+)\.\.([^\]]+)\]\s*\.iter\(\)\s*\.chain\(&(\w+)\[(\w+)\.\.([^\]]+)\]\)\s*(?:\.map\(\|&(\w+)\| \8\)|\.copied\(\)|\.cloned\(\)),?\s*\)/ => vx_extend_slice(&mut \1, &\2, \3, \4); vx_extend_slice(&mut \1, &\5, \6, \7)
//@GSUB /\*(\w+)\.last\(\)\.unwrap\(\)/ => \1[\1.len() - 1]
//@GSUB /for \((\w+), &(\w+)\) in (\w+)\.iter\(\)\.enumerate\(\)\s*((?:\x01\d+\x02)?)\s*\{/ => for \1 in 0..\3.len() \4 { let \2 = \3[\1];
//@GSUB /for \(&(\w+), &(\w+)\) in (\w+)\.iter\(\)\.circular_tuple_windows\(\)\s*((?:\x01\d+\x02)?)\s*\{/ => for vx_k in 0..\3.len() \4 { let \1 = \3[vx_k]; let \2 = \3[if vx_k + 1 < \3.len() { vx_k + 1 } else { 0 }];
//@GSUB /for \(&(\w+), &(\w+)\) in (\w+)\.iter\(\)\.zip\(&(\w+)\)\s*((?:\x01\d+\x02)?)\s*\{/ => for vx_k in 0..vx_min(\3.len(), \4.len()) \5 { let \1 = \3[vx_k]; let \2 = \4[vx_k];
//@GSUB /for (\w+) in (\w+)\s*((?:\x01\d+\x02)?)\s*\{/ => for vx_k in 0..\2.len() \3 { let \1 = \2[vx_k];
//@GSUB /for &(\w+) in &(\w+)\s*((?:\x01\d+\x02)?)\s*\{/ => for vx_k in 0..\2.len() \3 { let \1 = \2[vx_k];
//@GSUB /for \((\w+), (\w+)\) in (\w+)\.into_iter\(\)\.zip\((\w+)\)\s*((?:\x01\d+\x02)?)\s*\{/ => for vx_k in 0..vx_min(\3.len(), \4.len()) \5 { let \1 = \3[vx_k]; let \2 = \4[vx_k];
//@GSUB /HashMap::<HalfedgeId, usize, _, _>::with_capacity_in\([^;]*\)/ => VxMap::new()
//@GSUB /(\w+)\.extend\((\w+)\.iter\(\)\.enumerate\(\)\.map\(\|\((\w+), &(\w+)\)\| \(\4, \3\)\)\)/ => vx_extend_enum(&mut \1, &\2)
//@GSUB /(\w+)\.extend\(\s*(self\s*\.edge\(\w+\)\s*\.halfedges\(\))\s*\.map\(\|(\w+)\| \*\3\),?\s*\)/ => vx_extend_eh(&mut \1, \2)
//@GSUB /(\w+)\.extend\(\s*(self\s*\.vertex\(\w+\)\s*\.incoming_halfedges\(\))\s*\.map\(\|(\w+)\| \w+\(\*\3, &mut (\w+)\)\),?\s*\)/ => vx_extend_in(&mut \1, \2, &mut \4, &he_pos_map, &new_halfedges, Ghost(gn), Ghost(ges))
//@GSUB /(\w+)\.extend\(\s*(\w+)\s*\.(?:into_)?iter\(\)\s*\.map\(\|&?(\w+)\| (\w+)\[(?:\x01\d+\x02)?\3(?:\x01\d+\x02)?\]\)\s*\.chain\(\s*(\w+)\s*\.(?:into_)?iter\(\)\s*\.map\(\|&?(\w+)\| (\w+)\[(?:\x01\d+\x02)?\6(?:\x01\d+\x02)?\]\)\s*,?\s*\)\s*,?\s*\)/ => vx_extend_pick(&mut \1, &\2, &\4); vx_extend_pick(&mut \1, &\5, &\7)
//@GSUB /if let Some\(&(\w+)\) = (\w+\.get\(&\w+\))\s*\{/ => if let Some(vx_r) = \2 { let \1 = *vx_r;
//@GSUB /ele_ranges::<HalfedgeId, _>\(/ => ele_ranges(
//@GSUB /,\s*bump,?\s*\)/ => )
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
fn vx_extend_fh<'a>(to: &mut Vec<HalfedgeId>, mut it: FHIter<'a>)
    requires ready(it),
    ensures final(to)@ == old(to)@ + rest(it).map_values(|h: Halfedge| h.id),
{
    let ghost all = to@ + rest(it).map_values(|h: Halfedge| h.id);
    loop
        invariant_except_break to@ + rest(it).map_values(|h: Halfedge| h.id) == all,
        invariant ready(it),
        ensures to@ == all,
        decreases rest(it).len(),
    {
        let ghost r0 = rest(it).map_values(|h: Halfedge| h.id);
        let ghost v0 = to@;
        let n = it.next();
        match n {
            None => { assert(to@ + r0 =~= to@); break; }
            Some(h) => {
                to.push(h.id);
                proof {
                    let r1 = rest(it).map_values(|h: Halfedge| h.id);
                    assert(r0 =~= seq![h.id] + r1);
                    assert(to@ + r1 =~= v0 + r0);
                }
            }
        }
    }
}
fn vx_extend_slice(to: &mut Vec<HalfedgeId>, from: &Vec<HalfedgeId>, lo: usize, hi: usize)
    requires lo <= hi <= from@.len(),
    ensures final(to)@ == old(to)@ + from@.subrange(lo as int, hi as int),
{
    let ghost t0 = to@;
    assert(t0 + from@.subrange(lo as int, lo as int) =~= t0);
    for i in lo..hi
        invariant to@ == t0 + from@.subrange(lo as int, i as int), lo <= hi <= from@.len(),
    {
        to.push(from[i]);
        assert(to@ =~= t0 + from@.subrange(lo as int, i + 1));
    }
}
fn vx_extend_range(to: &mut Vec<HalfedgeId>, lo: usize, hi: usize)
    requires lo <= hi,
    ensures final(to)@ == old(to)@ + Seq::new((hi - lo) as nat, |i: int| HalfedgeId((lo + i) as usize)),
{
    let ghost t0 = to@;
    assert(t0 + Seq::new(0 as nat, |i: int| HalfedgeId((lo + i) as usize)) =~= t0);
    for i in lo..hi
        invariant to@ == t0 + Seq::new((i - lo) as nat, |i: int| HalfedgeId((lo + i) as usize)), lo <= hi,
    {
        to.push(HalfedgeId::from(i));
        assert(to@ =~= t0 + Seq::new((i + 1 - lo) as nat, |i: int| HalfedgeId((lo + i) as usize)));
    }
}

//@INCLUDE rings.inc
//@FN src/mesh/surface_mesh.rs insert_halfedge (next_arr, start, new_he)
//@SIGSUB /&mut \[HalfedgeId\]/ => &mut Vec<HalfedgeId>
//@    requires start.0 < old(next_arr)@.len(), new_he.0 < old(next_arr)@.len(),
//@    ensures final(next_arr)@ == old(next_arr)@.update(start.0 as int, new_he).update(new_he.0 as int, old(next_arr)@[start.0 as int]),
//@ENDFN

//@FN src/mesh/element/mod.rs ele_ranges (start, len, bump) -> res
//@SIGSUB /<E: ElementId, A: Allocator \+ Copy>/ =>
//@SIGSUB /Vec<E, A>/ => Vec<HalfedgeId>
//@SUB /(\w+)\.extend\(\((\w+)\.\.\(?(\w+ \+ \w+)\)?\)\s*\.map\(\|(\w+)\| \4\.into\(\)\)\)/ => vx_extend_range(&mut \1, \2, \3)
//@    requires start + len <= usize::MAX,
//@    ensures res@ == Seq::new(len as nat, |i: int| HalfedgeId((start + i) as usize)),
//@END: assert(res@ =~= Seq::new(len as nat, |i: int| HalfedgeId((start + i) as usize)));
//@ENDFN

// ---- cutting a face in two ----
// the boundary of a face, as a list of halfedges starting at its representative
spec fn boundary(m: SurfaceMesh, f: int) -> Seq<int> { ring(m.next_s(), m.fh(f)) }
// a vertex is on the boundary of a face exactly once
spec fn once(m: SurfaceMesh, f: int, v: int) -> bool {
    exists|i: int| #[trigger] at(m, f, v, i)
}
spec fn at(m: SurfaceMesh, f: int, v: int, i: int) -> bool {
    let s = boundary(m, f);
    0 <= i < s.len() && m.org(s[i]) == v && forall|j: int| 0 <= j < s.len() && m.org(#[trigger] s[j]) == v ==> j == i
}
spec fn part1(s: Seq<int>, p1: int, p2: int) -> Seq<int> { s.subrange(p1, p2) }
spec fn part2(s: Seq<int>, p1: int, p2: int) -> Seq<int> { s.subrange(p2, s.len() as int) + s.subrange(0, p1) }
// everything split_face promises, apart from consistency
spec fn face_cut(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int) -> bool {
    let s = boundary(m, f);
    let n = m.nh();
    &&& 0 <= p1 < p2 < s.len()
    &&& m1.nh() == n + 2 && m1.ne() == m.ne() + 1 && m1.nf() == m.nf() + 1 && m1.core_data.v_halfedge_arr == m.core_data.v_halfedge_arr
    // the two new halfedges are one edge between the two vertices
    &&& m1.edge_of(n) == m.ne() && m1.edge_of(n + 1) == m.ne()
    &&& m1.org(n) == m.org(s[p2]) && m1.org(n + 1) == m.org(s[p1])
    // origins and edges of the old halfedges are untouched, and so are all other faces
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.org(h) == m.org(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.edge_of(h) == m.edge_of(h)
    &&& forall|h: int| 0 <= h < n && m.face_of(h) != f ==> #[trigger] m1.face_of(h) == m.face_of(h) && m1.nx(h) == m.nx(h)
    &&& forall|g: int| 0 <= g < m.nf() && g != f ==> #[trigger] m1.fh(g) == m.fh(g)
    &&& forall|e: int| 0 <= e < m.ne() ==> #[trigger] m1.eh(e) == m.eh(e)
    // the boundaries of the two halves
    &&& ring(m1.next_s(), n) == seq![n] + part1(s, p1, p2)
    &&& ring(m1.next_s(), n + 1) == seq![n + 1] + part2(s, p1, p2)
    &&& m1.fh(f) == n && m1.fh(m.nf()) == n + 1
}
// the arrays after the cut, element by element
spec fn cut_arrays(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int) -> bool {
    let s = boundary(m, f);
    let n = m.nh();
    let l1 = s[p2 - 1];
    let l2 = if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] };
    &&& m1.lens() && m1.nh() == n + 2 && m1.ne() == m.ne() + 1 && m1.nf() == m.nf() + 1 && m1.core_data.v_halfedge_arr == m.core_data.v_halfedge_arr
    &&& m1.use_implicit_twin == m.use_implicit_twin
    &&& forall|h: int| 0 <= h < n && h != l1 && h != l2 ==> #[trigger] m1.next_s()[h] == m.next_s()[h]
    &&& m1.next_s()[l1].0 == n && m1.next_s()[l2].0 == n + 1 && m1.next_s()[n].0 == s[p1] && m1.next_s()[n + 1].0 == s[p2]
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h]
    &&& m1.org(n) == m.org(s[p2]) && m1.org(n + 1) == m.org(s[p1])
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.he_edge_arr@[h] == m.he_edge_arr@[h]
    &&& m1.edge_of(n) == m.ne() && m1.edge_of(n + 1) == m.ne()
    &&& forall|h: int| 0 <= h < n && !part2(s, p1, p2).contains(h) ==> #[trigger] m1.he_face_arr@[h] == m.he_face_arr@[h]
    &&& forall|h: int| part2(s, p1, p2).contains(h) ==> #[trigger] m1.he_face_arr@[h].0 == m.nf()
    &&& m1.face_of(n) == f && m1.face_of(n + 1) == m.nf()
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.sib_s()[h] == m.sib_s()[h]
    &&& m1.sib_s()[n].0 == n + 1 && m1.sib_s()[n + 1].0 == n
    &&& forall|h: int| 0 <= h < n && h != l1 && h != l2 ==> #[trigger] m1.in_s()[h] == m.in_s()[h]
    &&& m1.in_s()[l2].0 == n && m1.in_s()[n] == m.in_s()[l2] && m1.in_s()[l1].0 == n + 1 && m1.in_s()[n + 1] == m.in_s()[l1]
    &&& forall|h: int| 0 <= h < n && h != s[p1] && h != s[p2] ==> #[trigger] m1.out_s()[h] == m.out_s()[h]
    &&& m1.out_s()[s[p2]].0 == n && m1.out_s()[n] == m.out_s()[s[p2]] && m1.out_s()[s[p1]].0 == n + 1 && m1.out_s()[n + 1] == m.out_s()[s[p1]]
    &&& forall|g: int| 0 <= g < m.nf() && g != f ==> #[trigger] m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]
    &&& m1.fh(f) == n && m1.fh(m.nf()) == n + 1
    &&& forall|e: int| 0 <= e < m.ne() ==> #[trigger] m1.e_halfedge_arr@[e] == m.e_halfedge_arr@[e]
    &&& m1.eh(m.ne()) == n
}
proof fn lemma_arc(succ: Seq<HalfedgeId>, succ1: Seq<HalfedgeId>, t: Seq<int>, n: int)
    requires 0 <= n < succ1.len(), t.len() > 0, t.no_duplicates(), !t.contains(n), forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] t[i] < succ1.len(),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> #[trigger] t[j] == succ1[#[trigger] t[i]].0,
        succ1[t[t.len() - 1]].0 == n, succ1[n].0 == t[0],
    ensures is_ring(succ1, seq![n] + t),
{
    reveal(is_ring);
    let u = seq![n] + t;
    assert forall|i: int| 1 <= i < u.len() implies #[trigger] u[i] == t[i - 1] by {}
    assert(u.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by {
            if i == 0 { assert(t.contains(t[j - 1])); } else if j == 0 { assert(t.contains(t[i - 1])); } else { assert(u[i] == t[i - 1] && u[j] == t[j - 1]); }
        }
    }
    assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < succ1.len() by { if i > 0 { assert(u[i] == t[i - 1]); } }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < u.len() implies #[trigger] u[j] == succ1[#[trigger] u[i]].0 by {
        if i > 0 { assert(u[i] == t[i - 1] && u[j] == t[j - 1]); assert(t[j - 1] == succ1[t[i - 1]].0); }
    }
    assert(u[u.len() - 1] == t[t.len() - 1]);
}
spec fn last1(m: SurfaceMesh, f: int, p2: int) -> int { boundary(m, f)[p2 - 1] }
spec fn last2(m: SurfaceMesh, f: int, p1: int) -> int { let s = boundary(m, f); if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] } }
proof fn lemma_boundary(m: SurfaceMesh, f: int)
    requires m.wf(), 0 <= f < m.nf(),
    ensures is_ring(m.next_s(), boundary(m, f)), boundary(m, f)[0] == m.fh(f), m.nh() <= m.next_s().len(),
        forall|h: int| #[trigger] boundary(m, f).contains(h) <==> 0 <= h < m.nh() && m.face_of(h) == f,
        forall|i: int| 0 <= i < boundary(m, f).len() ==> 0 <= #[trigger] boundary(m, f)[i] < m.nh() && m.face_of(boundary(m, f)[i]) == f,
{
    let s = boundary(m, f);
    assert(0 <= m.fh(f) < m.nh() && m.face_of(m.fh(f)) == f);
    assert(ring_ok(m.next_s(), m.f_key(), m.nh(), s, m.fh(f)));
    assert forall|h: int| #[trigger] s.contains(h) <==> 0 <= h < m.nh() && m.face_of(h) == f by { assert(m.f_key()(h) == m.f_key()(m.fh(f)) <==> m.face_of(h) == f); }
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < m.nh() && m.face_of(s[i]) == f by { assert(s.contains(s[i])); }
}
// what split_face itself needs to know about the boundary
proof fn lemma_split_facts(m: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(),
    ensures ({ let s = boundary(m, f); let b = part2(s, p1, p2);
        &&& s.len() <= m.nh() && s[0] == m.fh(f)
        &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < m.nh()
        &&& last1(m, f, p2) != last2(m, f, p1) && s[p1] != s[p2] && 0 <= last1(m, f, p2) < m.nh() && 0 <= last2(m, f, p1) < m.nh()
        &&& b.len() == s.len() - (p2 - p1)
        &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] b[i] < m.nh()
    }),
{
    reveal(is_ring);
    lemma_boundary(m, f);
    let s = boundary(m, f);
    lemma_parts(s, p1, p2);
    lemma_short(s, m.nh());
}
spec fn parts_ok(s: Seq<int>, p1: int, p2: int) -> bool {
    let a = part1(s, p1, p2);
    let b = part2(s, p1, p2);
    &&& a.len() == p2 - p1 && b.len() == s.len() - (p2 - p1)
    &&& a.no_duplicates() && b.no_duplicates()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == s[p1 + i]
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == s[if p2 + i < s.len() { p2 + i } else { p2 + i - s.len() }]
    &&& forall|h: int| #[trigger] a.contains(h) ==> s.contains(h) && !b.contains(h)
    &&& forall|h: int| #[trigger] b.contains(h) ==> s.contains(h)
    &&& forall|h: int| #[trigger] s.contains(h) ==> a.contains(h) || b.contains(h)
}
proof fn lemma_parts(s: Seq<int>, p1: int, p2: int)
    requires s.no_duplicates(), 0 <= p1 < p2 < s.len(),
    ensures parts_ok(s, p1, p2),
{
    reveal(is_ring);
    let a = part1(s, p1, p2);
    let b = part2(s, p1, p2);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == s[p1 + i] by {}
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == s[if p2 + i < s.len() { p2 + i } else { p2 + i - s.len() }] by {}
    assert(a.len() == p2 - p1 && b.len() == s.len() - (p2 - p1));
    assert forall|h: int| #[trigger] a.contains(h) implies s.contains(h) && !b.contains(h) by {
        let i = a.index_of(h); assert(h == s[p1 + i]);
        if b.contains(h) { let j = b.index_of(h); assert(h == b[j]); }
    }
    assert forall|h: int| #[trigger] b.contains(h) implies s.contains(h) by { let i = b.index_of(h); assert(h == b[i]); }
    assert forall|h: int| #[trigger] s.contains(h) implies a.contains(h) || b.contains(h) by {
        let i = s.index_of(h);
        if i < p1 { assert(b[i + s.len() - p2] == h); } else if i < p2 { assert(a[i - p1] == h); } else { assert(b[i - p2] == h); }
    }
}
// the two new boundaries are rings of the new links
proof fn lemma_cut_arcs(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures is_ring(m1.next_s(), seq![m.nh()] + part1(boundary(m, f), p1, p2)), is_ring(m1.next_s(), seq![m.nh() + 1] + part2(boundary(m, f), p1, p2)),
{
    reveal(is_ring);
    let s = boundary(m, f);
    let n = m.nh();
    let l1 = s[p2 - 1];
    let l2 = if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] };
    let a = part1(s, p1, p2);
    let b = part2(s, p1, p2);
    lemma_boundary(m, f);
    lemma_parts(s, p1, p2);
    assert(a[a.len() - 1] == l1 && b[b.len() - 1] == l2);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < a.len() implies #[trigger] a[j] == m1.next_s()[#[trigger] a[i]].0 by {
        assert(s[p1 + j] == m.next_s()[s[p1 + i]].0);
        assert(s[p1 + i] != l1 && s[p1 + i] != l2);
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < b.len() implies #[trigger] b[j] == m1.next_s()[#[trigger] b[i]].0 by {
        assert(b[j] == m.next_s()[b[i]].0) by {
            if p2 + j < s.len() { assert(s[p2 + j] == m.next_s()[s[p2 + i]].0); }
            else if p2 + j == s.len() { assert(b[i] == s[s.len() - 1]); assert(b[j] == s[0]); }
            else { assert(s[p2 + j - s.len()] == m.next_s()[s[p2 + i - s.len()]].0); }
        }
        assert(b[i] != l1 && b[i] != l2);
    }
    lemma_arc(m.next_s(), m1.next_s(), a, n);
    lemma_arc(m.next_s(), m1.next_s(), b, n + 1);
}
proof fn lemma_cut_faces(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures forall|h: int| 0 <= h < m.nh() + 2 ==> #[trigger] m1.face_of(h) == (
        if h == m.nh() || part1(boundary(m, f), p1, p2).contains(h) { f } else if h == m.nh() + 1 || part2(boundary(m, f), p1, p2).contains(h) { m.nf() } else { m.face_of(h) }),
{
    reveal(is_ring);
    let s = boundary(m, f);
    lemma_boundary(m, f);
    lemma_parts(s, p1, p2);
    assert forall|h: int| 0 <= h < m.nh() + 2 implies #[trigger] m1.face_of(h) == (
        if h == m.nh() || part1(boundary(m, f), p1, p2).contains(h) { f } else if h == m.nh() + 1 || part2(boundary(m, f), p1, p2).contains(h) { m.nf() } else { m.face_of(h) }) by {
        if h < m.nh() && !part2(s, p1, p2).contains(h) { assert(m1.he_face_arr@[h] == m.he_face_arr@[h]); assert(part1(s, p1, p2).contains(h) ==> s.contains(h)); }
    }
}
proof fn lemma_cons_contains(n: int, a: Seq<int>)
    ensures forall|g: int| #[trigger] (seq![n] + a).contains(g) <==> g == n || a.contains(g),
{
    let t = seq![n] + a;
    assert forall|g: int| #[trigger] t.contains(g) <==> g == n || a.contains(g) by {
        if t.contains(g) { let i = t.index_of(g); if i > 0 { assert(g == a[i - 1]); } }
        if a.contains(g) { assert(t[a.index_of(g) + 1] == g); }
        if g == n { assert(t[0] == n); }
    }
}
proof fn lemma_cut_next(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures rings_ok(m1.next_s(), m1.f_key(), m1.nh()),
        ring(m1.next_s(), m.nh()) == seq![m.nh()] + part1(boundary(m, f), p1, p2), ring(m1.next_s(), m.nh() + 1) == seq![m.nh() + 1] + part2(boundary(m, f), p1, p2),
{
    reveal(is_ring);
    let s = boundary(m, f);
    let n = m.nh();
    let l1 = s[p2 - 1];
    let l2 = if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] };
    let a = part1(s, p1, p2);
    let b = part2(s, p1, p2);
    lemma_boundary(m, f);
    lemma_parts(s, p1, p2);
    lemma_cut_arcs(m, m1, f, p1, p2);
    lemma_cut_faces(m, m1, f, p1, p2);
    let t1 = seq![n] + a;
    let t2 = seq![n + 1] + b;
    lemma_cons_contains(n, a);
    lemma_cons_contains(n + 1, b);
    assert(t1[0] == n && t2[0] == n + 1);
    lemma_ring_self(m1.next_s(), t1);
    lemma_ring_self(m1.next_s(), t2);
    assert(s.contains(l1) && s.contains(l2));
    assert forall|h: int| 0 <= h < n + 2 implies ring_ok(m1.next_s(), m1.f_key(), n + 2, #[trigger] ring(m1.next_s(), h), h) by {
        let key = m1.f_key();
        assert forall|g: int| #[trigger] key(g) == m1.face_of(g) by {}
        if t1.contains(h) {
            assert(m1.face_of(h) == f);
            assert forall|g: int| #[trigger] t1.contains(g) <==> 0 <= g < n + 2 && key(g) == key(h) by { if 0 <= g < n { assert(s.contains(g) <==> m.face_of(g) == f); } }
            lemma_ring_at(m1.next_s(), key, n + 2, t1, h);
        } else if t2.contains(h) {
            assert(m1.face_of(h) == m.nf());
            assert forall|g: int| #[trigger] t2.contains(g) <==> 0 <= g < n + 2 && key(g) == key(h) by { if 0 <= g < n { assert(0 <= m.face_of(g) < m.nf()); } }
            lemma_ring_at(m1.next_s(), key, n + 2, t2, h);
        } else {
            let r = ring(m.next_s(), h);
            let k0 = m.f_key();
            assert forall|g: int| #[trigger] k0(g) == m.face_of(g) by {}
            assert(ring_ok(m.next_s(), k0, n, r, h));
            assert(!s.contains(h));
            assert(0 <= m.face_of(h) < m.nf());
            assert forall|g: int| #[trigger] r.contains(g) implies m1.next_s()[g] == m.next_s()[g] by { assert(k0(g) == k0(h)); assert(!s.contains(g)); }
            lemma_ring_keep(m.next_s(), m1.next_s(), r);
            assert(r.contains(r[0]));
            assert forall|g: int| #[trigger] r.contains(g) <==> 0 <= g < n + 2 && key(g) == key(h) by {
                assert(r.contains(g) <==> 0 <= g < n && k0(g) == k0(h));
                if 0 <= g < n { assert(s.contains(g) <==> m.face_of(g) == f); }
            }
            lemma_ring_at(m1.next_s(), key, n + 2, r, h);
        }
    }
}
spec fn cut_tips(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int) -> bool {
    let s = boundary(m, f);
    let n = m.nh();
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.org(h) == m.org(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.tip(h) == m.tip(h) && 0 <= m1.nx(h) < n + 2
    &&& m1.org(n) == m.org(s[p2]) && m1.org(n + 1) == m.org(s[p1])
    &&& m1.tip(n) == m.org(s[p1]) && m1.tip(n + 1) == m.org(s[p2])
    &&& m.tip(last2(m, f, p1)) == m.org(s[p1]) && m.tip(last1(m, f, p2)) == m.org(s[p2])
    &&& 0 <= s[p1] < n && 0 <= s[p2] < n && s[p1] != s[p2] && 0 <= last1(m, f, p2) < n && 0 <= last2(m, f, p1) < n && last1(m, f, p2) != last2(m, f, p1)
}
proof fn lemma_cut_tips(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures cut_tips(m, m1, f, p1, p2),
{
    reveal(is_ring);
    let s = boundary(m, f);
    let n = m.nh();
    let l1 = s[p2 - 1];
    let l2 = if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] };
    lemma_boundary(m, f);
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.org(h) == m.org(h) by { assert(m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h]); }
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.tip(h) == m.tip(h) && 0 <= m1.nx(h) < n + 2 by {
        assert(0 <= m.nx(h) < n);
        if h == l1 { assert(s[p2] == m.next_s()[s[p2 - 1]].0); }
        else if h == l2 { if p1 > 0 { assert(s[p1] == m.next_s()[s[p1 - 1]].0); } }
        else { assert(m1.next_s()[h] == m.next_s()[h]); assert(m1.org(m.nx(h)) == m.org(m.nx(h))); }
    }
    assert(m1.org(s[p1]) == m.org(s[p1])); assert(m1.org(s[p2]) == m.org(s[p2]));
    if p1 > 0 { assert(s[p1] == m.next_s()[s[p1 - 1]].0); }
    assert(s[p2] == m.next_s()[s[p2 - 1]].0);
}
proof fn lemma_cut_sib(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures rings_ok(m1.sib_s(), m1.e_key(), m1.nh()),
{
    reveal(is_ring);
    let n = m.nh();
    let t = seq![n, n + 1];
    assert(t[0] == n && t[1] == n + 1);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies #[trigger] t[j] == m1.sib_s()[#[trigger] t[i]].0 by {}
    assert(is_ring(m1.sib_s(), t));
    assert forall|g: int| #[trigger] t.contains(g) <==> n <= g < n + 2 by { if t.contains(g) { let i = t.index_of(g); assert(t[i] == g); } if g == n { assert(t[0] == g); } if g == n + 1 { assert(t[1] == g); } }
    assert forall|g: int| 0 <= g < n implies #[trigger] m1.e_key()(g) == m.e_key()(g) && m.e_key()(g) != m.ne() by { assert(m1.he_edge_arr@[g] == m.he_edge_arr@[g]); assert(0 <= m.edge_of(g) < m.ne()); }
    lemma_new_ring(m.sib_s(), m.e_key(), m1.sib_s(), m1.e_key(), n, n + 2, t, m.ne());
}
// two new members n, n + 1 placed after x and y
proof fn lemma_insert_two(succ: Seq<HalfedgeId>, key0: spec_fn(int) -> int, succ1: Seq<HalfedgeId>, key: spec_fn(int) -> int, n: int, x: int, y: int)
    requires rings_ok(succ, key0, n), succ.len() == n, succ1.len() == n + 2, n + 2 <= INVALID_IND, 0 <= x < n, 0 <= y < n, x != y,
        forall|g: int| 0 <= g < n ==> #[trigger] key(g) == key0(g), key(n) == key(x), key(n + 1) == key(y),
        forall|g: int| 0 <= g < n && g != x && g != y ==> #[trigger] succ1[g] == succ[g],
        succ1[x].0 == n, succ1[n] == succ[x], succ1[y].0 == n + 1, succ1[n + 1] == succ[y],
    ensures rings_ok(succ1, key, n + 2),
{
    reveal(is_ring);
    let z = HalfedgeId(0);
    let i0 = succ + seq![z, z];
    lemma_longer(succ, key0, i0, key, n);
    let i1 = i0.update(x, HalfedgeId(n as usize)).update(n, succ[x]);
    lemma_insert(i0, key, i1, key, n, x);
    assert forall|g: int| 0 <= g < n + 1 && g != y implies #[trigger] succ1[g] == i1[g] by { if g < n && g != x { assert(succ1[g] == succ[g]); } }
    lemma_insert(i1, key, succ1, key, n + 1, y);
}
proof fn lemma_cut_in(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures rings_ok(m1.in_s(), m1.t_key(), m1.nh()),
{
    lemma_cut_tips(m, m1, f, p1, p2);
    let x = last2(m, f, p1);
    let y = last1(m, f, p2);
    let key = m1.t_key();
    assert forall|g: int| 0 <= g < m.nh() implies #[trigger] key(g) == m.t_key()(g) by { assert(m1.tip(g) == m.tip(g)); }
    assert(key(m.nh()) == key(x) && key(m.nh() + 1) == key(y)) by { assert(m1.tip(x) == m.tip(x)); assert(m1.tip(y) == m.tip(y)); }
    lemma_insert_two(m.in_s(), m.t_key(), m1.in_s(), key, m.nh(), x, y);
}
proof fn lemma_cut_out(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures rings_ok(m1.out_s(), m1.o_key(), m1.nh()),
{
    lemma_cut_tips(m, m1, f, p1, p2);
    let x = boundary(m, f)[p2];
    let y = boundary(m, f)[p1];
    let key = m1.o_key();
    assert forall|g: int| 0 <= g < m.nh() implies #[trigger] key(g) == m.o_key()(g) by { assert(m1.org(g) == m.org(g)); }
    assert(key(m.nh()) == key(x) && key(m.nh() + 1) == key(y)) by { assert(m1.org(x) == m.org(x)); assert(m1.org(y) == m.org(y)); }
    lemma_insert_two(m.out_s(), m.o_key(), m1.out_s(), key, m.nh(), x, y);
}
proof fn lemma_cut_rest(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures m1.ranges(), m1.ends(), m1.reps(),
        forall|h: int| 0 <= h < m.nh() ==> #[trigger] m1.edge_of(h) == m.edge_of(h) && m.edge_of(h) < m.ne(),
{
    reveal(is_ring);
    let s = boundary(m, f);
    let n = m.nh();
    lemma_boundary(m, f);
    lemma_parts(s, p1, p2);
    lemma_cut_tips(m, m1, f, p1, p2);
    lemma_cut_faces(m, m1, f, p1, p2);
    assert(m1.ranges()) by {
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.org(h) < m1.nv() by { if h < n { assert(m1.org(h) == m.org(h)); } else { assert(0 <= m.org(s[p1]) < m.nv() && 0 <= m.org(s[p2]) < m.nv()); } }
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.nx(h) < m1.nh() by { if h < n { assert(m1.tip(h) == m.tip(h)); } }
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.edge_of(h) < m1.ne() by { if h < n { assert(m1.he_edge_arr@[h] == m.he_edge_arr@[h]); assert(0 <= m.edge_of(h) < m.ne()); } }
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.face_of(h) < m1.nf() by { if h < n { assert(0 <= m.face_of(h) < m.nf()); } }
    }
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.edge_of(h) == m.edge_of(h) && m.edge_of(h) < m.ne() by { assert(m1.he_edge_arr@[h] == m.he_edge_arr@[h]); assert(0 <= m.edge_of(h) < m.ne()); }
    assert(m1.ends()) by {
        assert forall|h: int| 0 <= h < m1.nh() implies m1.org(h) != #[trigger] m1.tip(h) by { if h < n { assert(m1.tip(h) == m.tip(h)); assert(m1.org(h) == m.org(h)); } }
        assert forall|g: int, h: int| 0 <= g < m1.nh() && 0 <= h < m1.nh() && #[trigger] m1.edge_of(g) == #[trigger] m1.edge_of(h) implies
            (m1.org(g) == m1.org(h) && m1.tip(g) == m1.tip(h)) || (m1.org(g) == m1.tip(h) && m1.tip(g) == m1.org(h)) by {
            if g < n { assert(m1.tip(g) == m.tip(g)); assert(m1.org(g) == m.org(g)); }
            if h < n { assert(m1.tip(h) == m.tip(h)); assert(m1.org(h) == m.org(h)); }
            if g < n && h < n { assert(m.edge_of(g) == m.edge_of(h)); }
        }
    }
    assert(m1.reps()) by {
        assert forall|e: int| 0 <= e < m1.ne() implies 0 <= #[trigger] m1.eh(e) < m1.nh() && m1.edge_of(m1.eh(e)) == e by { if e < m.ne() { assert(m1.e_halfedge_arr@[e] == m.e_halfedge_arr@[e]); assert(0 <= m.eh(e) < n && m.edge_of(m.eh(e)) == e); } }
        assert forall|g: int| 0 <= g < m1.nf() implies 0 <= #[trigger] m1.fh(g) < m1.nh() && m1.face_of(m1.fh(g)) == g by {
            if g < m.nf() && g != f { assert(m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]); assert(0 <= m.fh(g) < n && m.face_of(m.fh(g)) == g); assert(!s.contains(m.fh(g))); }
        }
        assert forall|v: int| 0 <= v < m1.nv() && #[trigger] m1.vh(v) != INVALID_IND implies m1.vh(v) < m1.nh() && m1.org(m1.vh(v)) == v by { assert(m.vh(v) != INVALID_IND); assert(m1.org(m.vh(v)) == m.org(m.vh(v))); }
        assert forall|h: int| 0 <= h < m1.nh() implies m1.vh(#[trigger] m1.org(h)) != INVALID_IND by {
            if h < n { assert(m1.org(h) == m.org(h)); assert(m.vh(m.org(h)) != INVALID_IND); } else { assert(m.vh(m.org(s[p1])) != INVALID_IND); assert(m.vh(m.org(s[p2])) != INVALID_IND); }
        }
    }
}
proof fn lemma_cut(m: SurfaceMesh, m1: SurfaceMesh, f: int, p1: int, p2: int)
    requires m.wf(), 0 <= f < m.nf(), 0 <= p1 < p2 < boundary(m, f).len(), cut_arrays(m, m1, f, p1, p2),
        m.org(boundary(m, f)[p1]) != m.org(boundary(m, f)[p2]),
    ensures m1.wf(), face_cut(m, m1, f, p1, p2),
{
    reveal(is_ring);
    let s = boundary(m, f);
    let n = m.nh();
    let l1 = s[p2 - 1];
    let l2 = if p1 > 0 { s[p1 - 1] } else { s[s.len() - 1] };
    lemma_boundary(m, f);
    lemma_parts(s, p1, p2);
    lemma_cut_next(m, m1, f, p1, p2);
    lemma_cut_sib(m, m1, f, p1, p2);
    lemma_cut_in(m, m1, f, p1, p2);
    lemma_cut_out(m, m1, f, p1, p2);
    lemma_cut_rest(m, m1, f, p1, p2);
    lemma_cut_tips(m, m1, f, p1, p2);
    assert forall|g: int| 0 <= g < m.nf() && g != f implies #[trigger] m1.fh(g) == m.fh(g) by { assert(m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]); }
    assert forall|e: int| 0 <= e < m.ne() implies #[trigger] m1.eh(e) == m.eh(e) by { assert(m1.e_halfedge_arr@[e] == m.e_halfedge_arr@[e]); }
    assert forall|h: int| 0 <= h < n && m.face_of(h) != f implies #[trigger] m1.face_of(h) == m.face_of(h) && m1.nx(h) == m.nx(h) by { assert(!s.contains(h)); assert(s.contains(l1) && s.contains(l2)); assert(m1.next_s()[h] == m.next_s()[h]); }
}

impl SurfaceMesh {
//@FN src/mesh/surface_mesh.rs SurfaceMesh::split_face (fid, va, vb, bump) -> res
//@    requires old(self).wf(), fid.0 < old(self).nf(), va != vb, once(*old(self), fid.0 as int, va.0 as int), once(*old(self), fid.0 as int, vb.0 as int),
//@        old(self).nh() + 2 < INVALID_IND, old(self).ne() + 1 < INVALID_IND, old(self).nf() + 1 < INVALID_IND,
//@        old(self).core_data.n_halfedges + 2 <= usize::MAX, old(self).core_data.n_faces + 1 <= usize::MAX, old(self).n_edges + 1 <= usize::MAX,
//@    ensures final(self).wf(), res.0 == old(self).nh() + 1,
//@        exists|p1: int, p2: int| #[trigger] face_cut(*old(self), *final(self), fid.0 as int, p1, p2)
//@            && (at(*old(self), fid.0 as int, va.0 as int, p1) && at(*old(self), fid.0 as int, vb.0 as int, p2)
//@                || at(*old(self), fid.0 as int, vb.0 as int, p1) && at(*old(self), fid.0 as int, va.0 as int, p2)),
//@START: hide(SurfaceMesh::ranges); hide(SurfaceMesh::ends); hide(SurfaceMesh::reps); hide(rings_ok);
//@    let ghost m = *old(self); let ghost s = boundary(m, fid.0 as int); let ghost (gva, gvb) = (va, vb);
//@    let ghost ia = choose|i: int| #[trigger] at(m, fid.0 as int, va.0 as int, i);
//@    let ghost ib = choose|i: int| #[trigger] at(m, fid.0 as int, vb.0 as int, i);
//@    let ghost q1 = if ia < ib { ia } else { ib };
//@    let ghost q2 = if ia < ib { ib } else { ia };
//@    proof { lemma_split_facts(m, fid.0 as int, q1, q2); }
//@LOCAL pos1[0] /= \(INVALID_IND, INVALID_IND\)/
//@LOCAL pos2[1] /= \(INVALID_IND, INVALID_IND\)/
//@LOCAL new_f /new_faces\(/
//@LOOP 0 (i, hid): invariant_except_break pos1 == (if i <= q1 { INVALID_IND as int } else { q1 }), pos2 == INVALID_IND, i <= q2,
//@     invariant *self == m, m.wf(), vx_over@.len() == s.len(), s == boundary(m, fid.0 as int),
//@        forall|j: int| 0 <= j < s.len() ==> (#[trigger] vx_over@[j]).0 == s[j] && 0 <= s[j] < m.nh(), s.len() < INVALID_IND, q1 < q2,
//@        at(m, fid.0 as int, va.0 as int, ia), at(m, fid.0 as int, vb.0 as int, ib), q1 == (if ia < ib { ia } else { ib }), q2 == (if ia < ib { ib } else { ia }),
//@     ensures pos1 == q1, pos2 == q2,
//@LOOPSTART 0: proof { assert(vx_over@[i as int].0 == s[i as int]); assert(m.org(s[i as int]) == va.0 <==> i == ia); assert(m.org(s[i as int]) == vb.0 <==> i == ib); }
//@BEFORE 1: let ghost m2 = *self;
//@LOOP 1 (hid): invariant *self == (SurfaceMesh { he_face_arr: self.he_face_arr, ..m2 }), self.he_face_arr@.len() == m2.he_face_arr@.len(), m2.he_face_arr@.len() >= m.nh(),
//@        vx_over@.len() == part2(s, q1, q2).len(), forall|j: int| 0 <= j < vx_over@.len() ==> (#[trigger] vx_over@[j]).0 == part2(s, q1, q2)[j] && vx_over@[j].0 < m.nh(),
//@        forall|j: int| 0 <= j < vx_k ==> (#[trigger] self.he_face_arr@[part2(s, q1, q2)[j]]) == new_f,
//@        forall|h: int| 0 <= h < m2.nh() && !part2(s, q1, q2).contains(h) ==> (#[trigger] self.he_face_arr@[h]) == m2.he_face_arr@[h],
//@END: proof { lemma_cut(m, *self, fid.0 as int, q1, q2); }
//@ENDFN
}

// ---- one more face along existing halfedges ----
// new halfedge n + i runs along old halfedge hs[i]
spec fn along(n: int, key: spec_fn(int) -> int, hs: Seq<HalfedgeId>) -> spec_fn(int) -> int {
    |g: int| if g < n { key(g) } else { key(hs[g - n].0 as int) }
}
spec fn chain(m: SurfaceMesh, hs: Seq<HalfedgeId>) -> bool {
    &&& hs.len() > 0
    &&& forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).0 < m.nh()
    &&& forall|i: int, j: int| 0 <= i < hs.len() && j == (if i + 1 < hs.len() { i + 1 } else { 0 }) ==> m.tip((#[trigger] hs[i]).0 as int) == m.org((#[trigger] hs[j]).0 as int)
}
spec fn face_added(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>) -> bool {
    let n = m.nh();
    &&& m1.nh() == n + hs.len() && m1.nf() == m.nf() + 1 && m1.e_halfedge_arr == m.e_halfedge_arr && m1.core_data.v_halfedge_arr == m.core_data.v_halfedge_arr
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.org(h) == m.org(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.nx(h) == m.nx(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.edge_of(h) == m.edge_of(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.face_of(h) == m.face_of(h)
    &&& forall|f: int| 0 <= f < m.nf() ==> #[trigger] m1.fh(f) == m.fh(f)
    &&& m1.fh(m.nf()) == n && ring(m1.next_s(), n) == Seq::new(hs.len(), |i: int| n + i)
    &&& forall|i: int| n <= i < n + hs.len() ==> #[trigger] m1.org(i) == m.org(hs[i - n].0 as int)
    &&& forall|i: int| n <= i < n + hs.len() ==> #[trigger] m1.edge_of(i) == m.edge_of(hs[i - n].0 as int)
    &&& forall|i: int| n <= i < n + hs.len() ==> #[trigger] m1.face_of(i) == m.nf()
}
// the arrays while new halfedges are tied in: k of them are done
spec fn tied(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>, k: int) -> bool {
    let n = m.nh();
    &&& m1.lens() && m1.nh() == n + hs.len()
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h]
    &&& forall|h: int| n <= h < n + k ==> #[trigger] m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[hs[h - n].0 as int]
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.he_edge_arr@[h] == m.he_edge_arr@[h]
    &&& forall|h: int| n <= h < n + k ==> #[trigger] m1.he_edge_arr@[h] == m.he_edge_arr@[hs[h - n].0 as int]
    &&& rings_ok(m1.sib_s(), along(n, m.e_key(), hs), n + k)
    &&& rings_ok(m1.in_s(), along(n, m.t_key(), hs), n + k)
    &&& rings_ok(m1.out_s(), along(n, m.o_key(), hs), n + k)
}
spec fn inserted(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, x: int, n: int) -> bool { b == a.update(x, HalfedgeId(n as usize)).update(n, a[x]) }
proof fn lemma_tie(m: SurfaceMesh, a: SurfaceMesh, b: SurfaceMesh, hs: Seq<HalfedgeId>, k: int)
    requires m.wf(), chain(m, hs), tied(m, a, hs, k), 0 <= k < hs.len(), b.lens(), b.nh() == a.nh(),
        inserted(a.sib_s(), b.sib_s(), hs[k].0 as int, m.nh() + k), inserted(a.in_s(), b.in_s(), hs[k].0 as int, m.nh() + k), inserted(a.out_s(), b.out_s(), hs[k].0 as int, m.nh() + k),
        b.core_data.he_vertex_arr@ == a.core_data.he_vertex_arr@.update(m.nh() + k, a.core_data.he_vertex_arr@[hs[k].0 as int]),
        b.he_edge_arr@ == a.he_edge_arr@.update(m.nh() + k, a.he_edge_arr@[hs[k].0 as int]),
    ensures tied(m, b, hs, k + 1),
{
    let n = m.nh();
    let x = hs[k].0 as int;
    let ke = along(n, m.e_key(), hs);
    let kt = along(n, m.t_key(), hs);
    let ko = along(n, m.o_key(), hs);
    lemma_insert(a.sib_s(), ke, b.sib_s(), ke, n + k, x);
    lemma_insert(a.in_s(), kt, b.in_s(), kt, n + k, x);
    lemma_insert(a.out_s(), ko, b.out_s(), ko, n + k, x);
}
proof fn lemma_tie_start(m: SurfaceMesh, a: SurfaceMesh, hs: Seq<HalfedgeId>)
    requires m.wf(), a.lens(), a.nh() == m.nh() + hs.len(), grown(m.core_data.he_vertex_arr@, a.core_data.he_vertex_arr@, hs.len() as int, VertexId(INVALID_IND)),
        grown(m.he_edge_arr@, a.he_edge_arr@, hs.len() as int, EdgeId(INVALID_IND)), grown(m.sib_s(), a.sib_s(), hs.len() as int, HNONE), grown(m.in_s(), a.in_s(), hs.len() as int, HNONE),
        grown(m.out_s(), a.out_s(), hs.len() as int, HNONE),
    ensures tied(m, a, hs, 0),
{
    let n = m.nh();
    lemma_longer(m.sib_s(), m.e_key(), a.sib_s(), along(n, m.e_key(), hs), n);
    lemma_longer(m.in_s(), m.t_key(), a.in_s(), along(n, m.t_key(), hs), n);
    lemma_longer(m.out_s(), m.o_key(), a.out_s(), along(n, m.o_key(), hs), n);
}
spec fn added_arrays(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>) -> bool {
    let n = m.nh();
    &&& tied(m, m1, hs, hs.len() as int) && m1.nf() == m.nf() + 1 && m1.e_halfedge_arr == m.e_halfedge_arr && m1.core_data.v_halfedge_arr == m.core_data.v_halfedge_arr
    &&& m1.use_implicit_twin == m.use_implicit_twin
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.next_s()[h] == m.next_s()[h]
    &&& forall|h: int| n <= h < n + hs.len() ==> (#[trigger] m1.next_s()[h]).0 == (if h + 1 < n + hs.len() { h + 1 } else { n })
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.he_face_arr@[h] == m.he_face_arr@[h]
    &&& forall|h: int| n <= h < n + hs.len() ==> (#[trigger] m1.he_face_arr@[h]).0 == m.nf()
    &&& forall|g: int| 0 <= g < m.nf() ==> #[trigger] m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]
    &&& m1.fh(m.nf()) == n
}
proof fn lemma_added_tips(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>)
    requires m.wf(), chain(m, hs), added_arrays(m, m1, hs),
    ensures forall|h: int| 0 <= h < m.nh() + hs.len() ==> #[trigger] m1.org(h) == along(m.nh(), m.o_key(), hs)(h),
        forall|h: int| 0 <= h < m.nh() + hs.len() ==> #[trigger] m1.edge_of(h) == along(m.nh(), m.e_key(), hs)(h),
        forall|h: int| 0 <= h < m.nh() + hs.len() ==> #[trigger] m1.tip(h) == along(m.nh(), m.t_key(), hs)(h),
        forall|h: int| 0 <= h < m.nh() + hs.len() ==> 0 <= #[trigger] m1.nx(h) < m1.nh(),
        forall|h: int| 0 <= h < m.nh() + hs.len() ==> #[trigger] m1.face_of(h) == (if h < m.nh() { m.face_of(h) } else { m.nf() }),
{
    let n = m.nh();
    assert forall|h: int| 0 <= h < n + hs.len() implies 0 <= #[trigger] m1.nx(h) < m1.nh() by { if h < n { assert(m1.next_s()[h] == m.next_s()[h]); assert(0 <= m.nx(h) < n); } else { assert(m1.next_s()[h].0 == (if h + 1 < n + hs.len() { h + 1 } else { n })); } }
    assert forall|h: int| 0 <= h < n + hs.len() implies #[trigger] m1.org(h) == along(n, m.o_key(), hs)(h) by { assert(m1.core_data.he_vertex_arr@[h] == m1.core_data.he_vertex_arr@[h]); }
    assert forall|h: int| 0 <= h < n + hs.len() implies #[trigger] m1.edge_of(h) == along(n, m.e_key(), hs)(h) by { assert(m1.he_edge_arr@[h] == m1.he_edge_arr@[h]); }
    assert forall|h: int| 0 <= h < n + hs.len() implies #[trigger] m1.face_of(h) == (if h < n { m.face_of(h) } else { m.nf() }) by { assert(m1.he_face_arr@[h] == m1.he_face_arr@[h]); }
    assert forall|h: int| 0 <= h < n + hs.len() implies #[trigger] m1.tip(h) == along(n, m.t_key(), hs)(h) by {
        if h < n { assert(m1.next_s()[h] == m.next_s()[h]); assert(0 <= m.nx(h) < n); assert(m1.org(m.nx(h)) == m.org(m.nx(h))); }
        else {
            let i = h - n;
            let j = if i + 1 < hs.len() { i + 1 } else { 0 };
            assert(m1.next_s()[h].0 == n + j);
            assert(m.tip(hs[i].0 as int) == m.org(hs[j].0 as int));
            assert(m1.org(n + j) == m.org(hs[j].0 as int));
        }
    }
}
proof fn lemma_added(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>)
    requires m.wf(), chain(m, hs), added_arrays(m, m1, hs),
    ensures m1.wf(), face_added(m, m1, hs),
{
    reveal(is_ring);
    let n = m.nh();
    let c = hs.len() as int;
    lemma_added_tips(m, m1, hs);
    let t = Seq::new(hs.len(), |i: int| n + i);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies #[trigger] t[j] == m1.next_s()[#[trigger] t[i]].0 by {}
    assert(t[t.len() - 1] == n + c - 1 && t[0] == n);
    assert(is_ring(m1.next_s(), t));
    assert forall|g: int| #[trigger] t.contains(g) <==> n <= g < n + c by { if n <= g < n + c { assert(t[g - n] == g); } }
    assert forall|g: int| 0 <= g < n implies #[trigger] m1.f_key()(g) == m.f_key()(g) && m.f_key()(g) != m.nf() by { assert(m1.face_of(g) == m.face_of(g)); assert(0 <= m.face_of(g) < m.nf()); }
    assert forall|g: int| n <= g < n + c implies #[trigger] m1.f_key()(g) == m.nf() by { assert(m1.face_of(g) == m.nf()); }
    lemma_new_ring(m.next_s(), m.f_key(), m1.next_s(), m1.f_key(), n, n + c, t, m.nf());
    lemma_ring_self(m1.next_s(), t);
    assert forall|g: int| 0 <= g < n + c implies #[trigger] m1.e_key()(g) == along(n, m.e_key(), hs)(g) by { assert(m1.edge_of(g) == along(n, m.e_key(), hs)(g)); }
    lemma_longer(m1.sib_s(), along(n, m.e_key(), hs), m1.sib_s(), m1.e_key(), n + c);
    assert forall|g: int| 0 <= g < n + c implies #[trigger] m1.t_key()(g) == along(n, m.t_key(), hs)(g) by { assert(m1.tip(g) == along(n, m.t_key(), hs)(g)); }
    lemma_longer(m1.in_s(), along(n, m.t_key(), hs), m1.in_s(), m1.t_key(), n + c);
    assert forall|g: int| 0 <= g < n + c implies #[trigger] m1.o_key()(g) == along(n, m.o_key(), hs)(g) by { assert(m1.org(g) == along(n, m.o_key(), hs)(g)); }
    lemma_longer(m1.out_s(), along(n, m.o_key(), hs), m1.out_s(), m1.o_key(), n + c);
    lemma_added_rest(m, m1, hs);
}
spec fn old_of(n: int, hs: Seq<HalfedgeId>, h: int) -> int { if h < n { h } else { hs[h - n].0 as int } }
proof fn lemma_added_rest(m: SurfaceMesh, m1: SurfaceMesh, hs: Seq<HalfedgeId>)
    requires m.wf(), chain(m, hs), added_arrays(m, m1, hs),
    ensures m1.ranges(), m1.ends(), m1.reps(),
        forall|f: int| 0 <= f < m.nf() ==> #[trigger] m1.fh(f) == m.fh(f),
        forall|h: int| 0 <= h < m.nh() ==> #[trigger] m1.nx(h) == m.nx(h),
{
    let n = m.nh();
    lemma_added_tips(m, m1, hs);
    assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] old_of(n, hs, h) < n && m1.org(h) == m.org(old_of(n, hs, h)) && m1.tip(h) == m.tip(old_of(n, hs, h)) && m1.edge_of(h) == m.edge_of(old_of(n, hs, h)) by {
        assert(m1.org(h) == along(n, m.o_key(), hs)(h)); assert(m1.tip(h) == along(n, m.t_key(), hs)(h)); assert(m1.edge_of(h) == along(n, m.e_key(), hs)(h));
    }
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.nx(h) == m.nx(h) by { assert(m1.next_s()[h] == m.next_s()[h]); }
    assert(m1.ranges()) by {
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.org(h) < m1.nv() by { let g = old_of(n, hs, h); assert(0 <= m.org(g) < m.nv()); }
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.nx(h) < m1.nh() by {}
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.edge_of(h) < m1.ne() by { let g = old_of(n, hs, h); assert(0 <= m.edge_of(g) < m.ne()); }
        assert forall|h: int| 0 <= h < m1.nh() implies 0 <= #[trigger] m1.face_of(h) < m1.nf() by { if h < n { assert(0 <= m.face_of(h) < m.nf()); } }
    }
    assert(m1.ends()) by {
        assert forall|h: int| 0 <= h < m1.nh() implies m1.org(h) != #[trigger] m1.tip(h) by { let g = old_of(n, hs, h); assert(m.org(g) != m.tip(g)); }
        assert forall|g: int, h: int| 0 <= g < m1.nh() && 0 <= h < m1.nh() && #[trigger] m1.edge_of(g) == #[trigger] m1.edge_of(h) implies
            (m1.org(g) == m1.org(h) && m1.tip(g) == m1.tip(h)) || (m1.org(g) == m1.tip(h) && m1.tip(g) == m1.org(h)) by {
            let a = old_of(n, hs, g); let b = old_of(n, hs, h);
            assert(m.edge_of(a) == m.edge_of(b));
        }
    }
    assert(m1.reps()) by {
        assert forall|e: int| 0 <= e < m1.ne() implies 0 <= #[trigger] m1.eh(e) < m1.nh() && m1.edge_of(m1.eh(e)) == e by { assert(0 <= m.eh(e) < n && m.edge_of(m.eh(e)) == e); assert(old_of(n, hs, m.eh(e)) == m.eh(e)); }
        assert forall|g: int| 0 <= g < m1.nf() implies 0 <= #[trigger] m1.fh(g) < m1.nh() && m1.face_of(m1.fh(g)) == g by {
            if g < m.nf() { assert(m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]); assert(0 <= m.fh(g) < n && m.face_of(m.fh(g)) == g); } else { assert(m1.face_of(n) == m.nf()); }
        }
        assert forall|v: int| 0 <= v < m1.nv() && #[trigger] m1.vh(v) != INVALID_IND implies m1.vh(v) < m1.nh() && m1.org(m1.vh(v)) == v by { assert(m.vh(v) != INVALID_IND); assert(old_of(n, hs, m.vh(v)) == m.vh(v)); }
        assert forall|h: int| 0 <= h < m1.nh() implies m1.vh(#[trigger] m1.org(h)) != INVALID_IND by { let g = old_of(n, hs, h); assert(m.vh(m.org(g)) != INVALID_IND); }
    }
    assert forall|g: int| 0 <= g < m.nf() implies #[trigger] m1.fh(g) == m.fh(g) by { assert(m1.core_data.f_halfedge_arr@[g] == m.core_data.f_halfedge_arr@[g]); }
}
impl SurfaceMesh {
//@FN src/mesh/surface_mesh.rs SurfaceMesh::add_face_by_halfedges (halfedges, bump) -> res
//@    requires old(self).wf(), chain(*old(self), halfedges@),
//@        old(self).nh() + halfedges@.len() < INVALID_IND, old(self).nf() + 1 < INVALID_IND, old(self).core_data.n_halfedges + halfedges@.len() <= usize::MAX, old(self).core_data.n_faces + 1 <= usize::MAX,
//@    ensures final(self).wf(), res.0 == old(self).nf(), face_added(*old(self), *final(self), halfedges@),
//@START: hide(SurfaceMesh::ranges); hide(SurfaceMesh::ends); hide(SurfaceMesh::reps); hide(rings_ok);
//@    let ghost m = *old(self); let ghost n = m.nh(); let ghost hs = halfedges@; let ghost c = halfedges@.len() as int;
//@LOCAL new_halfedges /ele_ranges/
//@LOCAL new_f /new_faces\(/
//@BEFORE 0: let ghost m2 = *self; proof { lemma_tie_start(m, m2, hs); }
//@LOOP 0 (old_hid, new_hid): invariant m.wf(), chain(m, hs), hs == halfedges@, c == hs.len(), n == m.nh(), n + c < INVALID_IND, tied(m, *self, hs, vx_k as int),
//@        new_halfedges@.len() == c, forall|i: int| 0 <= i < c ==> (#[trigger] new_halfedges@[i]).0 == n + i,
//@        *self == (SurfaceMesh { core_data: MeshCoreData { he_vertex_arr: self.core_data.he_vertex_arr, ..m2.core_data }, he_sibling_arr: self.he_sibling_arr, he_vert_in_next_arr: self.he_vert_in_next_arr, he_vert_out_next_arr: self.he_vert_out_next_arr, he_edge_arr: self.he_edge_arr, ..m2 }),
//@LOOPSTART 0: let ghost a = *self; proof { assert(hs[vx_k as int].0 < n); assert(new_halfedges@[vx_k as int].0 == n + vx_k); }
//@LOOPEND 0: proof { lemma_tie(m, a, *self, hs, vx_k as int); }
//@BEFORE 1: let ghost m3 = *self;
//@LOOP 1 (curr, next): invariant *self == (SurfaceMesh { core_data: MeshCoreData { he_next_arr: self.core_data.he_next_arr, ..m3.core_data }, ..m3 }), self.next_s().len() == n + c, m3.next_s().len() == n + c, vx_over@.len() == c, n >= 0,
//@        forall|i: int| 0 <= i < c ==> (#[trigger] vx_over@[i]).0 == n + i, 
//@        forall|h: int| 0 <= h < n ==> #[trigger] self.next_s()[h] == m3.next_s()[h],
//@        forall|h: int| n <= h < n + vx_k ==> (#[trigger] self.next_s()[h]).0 == (if h + 1 < n + c { h + 1 } else { n }),
//@BEFORE 2: let ghost m4 = *self;
//@LOOP 2 (hid): invariant *self == (SurfaceMesh { he_face_arr: self.he_face_arr, ..m4 }), self.he_face_arr@.len() == n + c, m4.he_face_arr@.len() == n + c, vx_over@.len() == c, n >= 0,
//@        forall|i: int| 0 <= i < c ==> (#[trigger] vx_over@[i]).0 == n + i, 
//@        forall|h: int| 0 <= h < n ==> #[trigger] self.he_face_arr@[h] == m4.he_face_arr@[h],
//@        forall|h: int| n <= h < n + vx_k ==> (#[trigger] self.he_face_arr@[h]) == new_f,
//@END: proof { lemma_added(m, *self, hs); }
//@ENDFN
}

// ---- splitting an edge ----
spec fn idv(v: Seq<HalfedgeId>) -> Seq<int> { v.map_values(|x: HalfedgeId| x.0 as int) }
spec fn posv(v: Seq<usize>) -> Seq<int> { v.map_values(|x: usize| x as int) }
// stand-in for hashbrown's map from halfedges to positions
struct VxMap { keys: Vec<HalfedgeId>, vals: Vec<usize> }
impl VxMap {
    spec fn ok(self) -> bool { self.keys@.len() == self.vals@.len() && self.keys@.no_duplicates() }
    spec fn find(self, k: HalfedgeId) -> Option<usize> { if self.keys@.contains(k) { Some(self.vals@[self.keys@.index_of(k)]) } else { None } }
    fn new() -> (r: VxMap) ensures r.ok(), r.keys@.len() == 0 { VxMap { keys: Vec::new(), vals: Vec::new() } }
    fn get(&self, k: &HalfedgeId) -> (r: Option<&usize>)
        requires self.ok(),
        ensures match r { Some(p) => self.find(*k) == Some(*p), None => self.find(*k) is None },
    {
        for i in 0..self.keys.len()
            invariant self.ok(), forall|j: int| 0 <= j < i ==> self.keys@[j] != *k,
        {
            if self.keys[i] == *k {
                assert(self.keys@.contains(*k));
                assert(self.keys@.index_of(*k) == i);
                return Some(&self.vals[i]);
            }
        }
        None
    }
}
// the map sends every halfedge of es to its place in es
spec fn map_is(m: VxMap, es: Seq<int>) -> bool {
    m.ok() && forall|k: HalfedgeId| #[trigger] m.find(k) == (if es.contains(k.0 as int) { Some(es.index_of(k.0 as int) as usize) } else { None })
}
fn vx_extend_enum(map: &mut VxMap, e: &Vec<HalfedgeId>)
    requires old(map).ok(), old(map).keys@.len() == 0, idv(e@).no_duplicates(),
    ensures map_is(*final(map), idv(e@)),
{
    for i in 0..e.len()
        invariant map.ok(), map.keys@ == e@.subrange(0, i as int), idv(e@).no_duplicates(), forall|j: int| 0 <= j < i ==> #[trigger] map.vals@[j] == j,
    {
        proof {
            assert(forall|j: int| 0 <= j < e@.len() ==> idv(e@)[j] == (#[trigger] e@[j]).0);
            assert(!map.keys@.contains(e@[i as int])) by {
                if map.keys@.contains(e@[i as int]) { let j = map.keys@.index_of(e@[i as int]); assert(e@[j] == e@[i as int]); assert(idv(e@)[j] == idv(e@)[i as int]); }
            }
        }
        map.keys.push(e[i]);
        map.vals.push(i);
        assert(map.keys@ =~= e@.subrange(0, i + 1));
    }
    proof {
        let es = idv(e@);
        assert(map.keys@ =~= e@);
        assert(forall|j: int| 0 <= j < e@.len() ==> es[j] == (#[trigger] e@[j]).0);
        assert forall|k: HalfedgeId| #[trigger] map.find(k) == (if es.contains(k.0 as int) { Some(es.index_of(k.0 as int) as usize) } else { None }) by {
            if map.keys@.contains(k) { let j = map.keys@.index_of(k); assert(es[j] == k.0); assert(es.contains(k.0 as int)); assert(es.index_of(k.0 as int) == j); }
            if es.contains(k.0 as int) { let j = es.index_of(k.0 as int); assert(e@[j].0 == k.0); assert(e@[j] == k); assert(map.keys@.contains(k)); }
        }
    }
}
spec fn phi(n: int, es: Seq<int>, h: int) -> int { if es.contains(h) { n + es.index_of(h) } else { h } }
spec fn phis(n: int, es: Seq<int>, s: Seq<int>) -> Seq<int> { s.map_values(|h: int| phi(n, es, h)) }
spec fn picks(es: Seq<int>, s: Seq<int>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { (if es.contains(s[0]) { seq![es.index_of(s[0])] } else { Seq::empty() }) + picks(es, s.skip(1)) }
}
//@FN src/mesh/surface_mesh.rs SurfaceMesh::split_edge|0|to_new_halfedge (hid, positions) -> res
//@CAPTURE he_pos_map: &VxMap /HashMap::</
//@CAPTURE new_halfedges: &Vec<HalfedgeId> /ele_ranges/
//@SIGSUB /Vec<usize, _>/ => Vec<usize>
//@    requires he_pos_map.ok(), forall|k: HalfedgeId| #[trigger] he_pos_map.find(k) is Some ==> he_pos_map.find(k)->0 < new_halfedges@.len(),
//@    ensures match he_pos_map.find(hid) {
//@            Some(p) => res == new_halfedges@[p as int] && final(positions)@ == old(positions)@.push(p),
//@            None => res == hid && final(positions)@ == old(positions)@ },
//@ENDFN
spec fn ids_of(it: VIHIter<'_>) -> Seq<int> { hids(rest(it)) }
fn vx_extend_in<'a>(to: &mut Vec<HalfedgeId>, mut it: VIHIter<'a>, positions: &mut Vec<usize>, map: &VxMap, news: &Vec<HalfedgeId>, Ghost(n): Ghost<int>, Ghost(es): Ghost<Seq<int>>)
    requires ready(it), map_is(*map, es), es.len() == news@.len(), es.no_duplicates(), forall|i: int| 0 <= i < news@.len() ==> (#[trigger] news@[i]).0 == n + i,
    ensures idv(final(to)@) == idv(old(to)@) + phis(n, es, ids_of(it)), posv(final(positions)@) == posv(old(positions)@) + picks(es, ids_of(it)),
{
    let ghost all = idv(to@) + phis(n, es, ids_of(it));
    let ghost allp = posv(positions@) + picks(es, ids_of(it));
    let vx_n = news.len();
    loop
        invariant_except_break idv(to@) + phis(n, es, ids_of(it)) == all, posv(positions@) + picks(es, ids_of(it)) == allp,
        invariant vx_n == es.len(), ready(it), map_is(*map, es), es.len() == news@.len(), es.no_duplicates(), forall|i: int| 0 <= i < news@.len() ==> (#[trigger] news@[i]).0 == n + i,
        ensures idv(to@) == all, posv(positions@) == allp,
        decreases rest(it).len(),
    {
        let ghost r0 = ids_of(it);
        let ghost t0 = idv(to@);
        let ghost p0 = positions@;
        let x = it.next();
        match x {
            None => { assert(r0.len() == 0); assert(idv(to@) + phis(n, es, r0) =~= idv(to@)); assert(posv(positions@) + picks(es, r0) =~= posv(positions@)); break; }
            Some(h) => {
                proof {
                    assert forall|k: HalfedgeId| #[trigger] map.find(k) is Some implies map.find(k)->0 < news@.len() by { let j = es.index_of(k.0 as int); assert(es.contains(k.0 as int)); assert(0 <= j < es.len()); }
                }
                let y = to_new_halfedge(h.id, positions, map, news);
                to.push(y);
                proof {
                    let r1 = ids_of(it);
                    let g = h.id.0 as int;
                    assert(r0 =~= seq![g] + r1);
                    assert(r0.skip(1) =~= r1);
                    assert(map.find(h.id) == (if es.contains(g) { Some(es.index_of(g) as usize) } else { None }));
                    if es.contains(g) { assert(0 <= es.index_of(g) < es.len()); assert(news@[es.index_of(g)].0 == n + es.index_of(g)); }
                    assert(y.0 == phi(n, es, g));
                    assert(idv(to@) =~= t0.push(phi(n, es, g)));
                    assert(phis(n, es, r0) =~= seq![phi(n, es, g)] + phis(n, es, r1));
                    assert(idv(to@) + phis(n, es, r1) =~= t0 + phis(n, es, r0));
                    assert(posv(positions@) =~= posv(p0) + (if es.contains(g) { seq![es.index_of(g)] } else { Seq::empty() }));
                    assert(posv(positions@) + picks(es, r1) =~= posv(p0) + picks(es, r0));
                }
            }
        }
    }
}
spec fn hids(s: Seq<Halfedge<'_>>) -> Seq<int> { s.map_values(|h: Halfedge| h.id.0 as int) }
proof fn lemma_hids(m: &SurfaceMesh, s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= usize::MAX,
    ensures hids(hes(m, s)) == s,
{ assert(hids(hes(m, s)) =~= s); }
fn vx_extend_eh<'a>(to: &mut Vec<HalfedgeId>, mut it: EHIter<'a>)
    requires ready(it),
    ensures idv(final(to)@) == idv(old(to)@) + hids(rest(it)),
{
    let ghost all = idv(to@) + hids(rest(it));
    loop
        invariant_except_break idv(to@) + hids(rest(it)) == all,
        invariant ready(it),
        ensures idv(to@) == all,
        decreases rest(it).len(),
    {
        let ghost r0 = hids(rest(it));
        let ghost v0 = idv(to@);
        let n = it.next();
        match n {
            None => { assert(idv(to@) + r0 =~= idv(to@)); break; }
            Some(h) => {
                to.push(h.id);
                proof {
                    let r1 = hids(rest(it));
                    assert(r0 =~= seq![h.id.0 as int] + r1);
                    assert(idv(to@) + r1 =~= v0 + r0);
                }
            }
        }
    }
}
spec fn at_all(es: Seq<int>, ps: Seq<int>) -> Seq<int> { ps.map_values(|i: int| es[i]) }
fn vx_extend_pick(to: &mut Vec<HalfedgeId>, p: &Vec<usize>, e: &Vec<HalfedgeId>)
    requires forall|i: int| 0 <= i < posv(p@).len() ==> (#[trigger] posv(p@)[i]) < idv(e@).len(),
    ensures idv(final(to)@) == idv(old(to)@) + at_all(idv(e@), posv(p@)),
{
    let ghost t0 = idv(to@);
    assert(t0 + at_all(idv(e@), posv(p@).subrange(0, 0)) =~= t0);
    for i in 0..p.len()
        invariant idv(to@) == t0 + at_all(idv(e@), posv(p@).subrange(0, i as int)), forall|i: int| 0 <= i < posv(p@).len() ==> (#[trigger] posv(p@)[i]) < idv(e@).len(),
    {
        assert(posv(p@)[i as int] == p@[i as int]);
        let ghost t1 = idv(to@);
        to.push(e[p[i]]);
        assert(idv(e@)[p@[i as int] as int] == e@[p@[i as int] as int].0);
        assert(idv(to@) =~= t1.push(idv(e@)[posv(p@)[i as int]]));
        assert(at_all(idv(e@), posv(p@).subrange(0, i + 1)) =~= at_all(idv(e@), posv(p@).subrange(0, i as int)).push(idv(e@)[posv(p@)[i as int]]));
        assert(idv(to@) =~= t0 + at_all(idv(e@), posv(p@).subrange(0, i + 1)));
    }
    assert(posv(p@).subrange(0, p@.len() as int) =~= posv(p@));
}
// picks: the places in es of the members of s
proof fn lemma_picks(es: Seq<int>, s: Seq<int>)
    requires es.no_duplicates(), s.no_duplicates(),
    ensures picks(es, s).no_duplicates(), forall|p: int| #[trigger] picks(es, s).contains(p) <==> 0 <= p < es.len() && s.contains(es[p]),
    decreases s.len()
{
    let t = picks(es, s);
    if s.len() > 0 {
        let r = s.skip(1);
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(r[i] == s[i + 1] && r[j] == s[j + 1]); }
        lemma_picks(es, r);
        let u = picks(es, r);
        assert forall|g: int| #[trigger] s.contains(g) <==> g == s[0] || r.contains(g) by {
            if s.contains(g) { let i = s.index_of(g); if i > 0 { assert(r[i - 1] == g); } }
            if r.contains(g) { let i = r.index_of(g); assert(s[i + 1] == g); }
        }
        assert(!r.contains(s[0])) by { if r.contains(s[0]) { let i = r.index_of(s[0]); assert(s[i + 1] == s[0]); } }
        if es.contains(s[0]) {
            let k = es.index_of(s[0]);
            assert(t =~= seq![k] + u);
            lemma_cons_contains(k, u);
            assert(!u.contains(k));
            assert(t.no_duplicates()) by {
                assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
                    if i == 0 { assert(t[j] == u[j - 1]); assert(u.contains(u[j - 1])); } else if j == 0 { assert(t[i] == u[i - 1]); assert(u.contains(u[i - 1])); } else { assert(t[i] == u[i - 1] && t[j] == u[j - 1]); }
                }
            }
            assert forall|p: int| #[trigger] t.contains(p) <==> 0 <= p < es.len() && s.contains(es[p]) by {
                assert(t.contains(p) <==> p == k || u.contains(p));
                if 0 <= p < es.len() && es[p] == s[0] { assert(p == k); }
            }
        } else {
            assert(t =~= u);
            assert forall|p: int| #[trigger] t.contains(p) <==> 0 <= p < es.len() && s.contains(es[p]) by { if 0 <= p < es.len() { assert(es.contains(es[p])); } }
        }
    }
}

spec fn es_of(m: SurfaceMesh, e: int) -> Seq<int> { ring(m.sib_s(), m.eh(e)) }
spec fn end_a(m: SurfaceMesh, e: int) -> int { m.org(m.eh(e)) }
spec fn end_b(m: SurfaceMesh, e: int) -> int { m.tip(m.eh(e)) }
// the list of halfedges into v, in the order they are visited
spec fn inlist(m: SurfaceMesh, v: int) -> Seq<int> { ring(m.in_s(), ring(m.next_s(), m.vh(v)).last()) }
spec fn picks_of(m: SurfaceMesh, e: int, v: int) -> Seq<int> { picks(es_of(m, e), inlist(m, v)) }
spec fn new_in(m: SurfaceMesh, e: int, v: int) -> Seq<int> { phis(m.nh(), es_of(m, e), inlist(m, v)) }
// the halfedges of the half at a: the old ones that now end at the new vertex, the new ones that end at a
spec fn half(m: SurfaceMesh, e: int, pold: Seq<int>, pnew: Seq<int>) -> Seq<int> { at_all(es_of(m, e), pold) + at_all(fresh(m, e), pnew) }
spec fn half_a(m: SurfaceMesh, e: int) -> Seq<int> { half(m, e, picks_of(m, e, end_b(m, e)), picks_of(m, e, end_a(m, e))) }
spec fn half_b(m: SurfaceMesh, e: int) -> Seq<int> { half(m, e, picks_of(m, e, end_a(m, e)), picks_of(m, e, end_b(m, e))) }
spec fn fresh(m: SurfaceMesh, e: int) -> Seq<int> { Seq::new(es_of(m, e).len(), |i: int| m.nh() + i) }

spec fn es_facts(m: SurfaceMesh, e: int) -> bool {
    let es = es_of(m, e);
    &&& es.len() > 0 && es.no_duplicates() && es[0] == m.eh(e) && es.len() <= m.nh()
    &&& forall|h: int| #[trigger] es.contains(h) <==> 0 <= h < m.nh() && m.edge_of(h) == e
    &&& forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < m.nh()
    &&& forall|i: int| 0 <= i < es.len() ==> (m.org(#[trigger] es[i]) == end_a(m, e) && m.tip(es[i]) == end_b(m, e)) || (m.org(es[i]) == end_b(m, e) && m.tip(es[i]) == end_a(m, e))
    &&& end_a(m, e) != end_b(m, e) && 0 <= end_a(m, e) < m.nv() && 0 <= end_b(m, e) < m.nv() && m.vh(end_a(m, e)) != INVALID_IND && m.vh(end_b(m, e)) != INVALID_IND
}
proof fn lemma_es(m: SurfaceMesh, e: int)
    requires m.wf(), 0 <= e < m.ne(),
    ensures es_facts(m, e),
{
    reveal(is_ring);
    let es = es_of(m, e);
    assert(0 <= m.eh(e) < m.nh() && m.edge_of(m.eh(e)) == e);
    assert(ring_ok(m.sib_s(), m.e_key(), m.nh(), es, m.eh(e)));
    assert forall|h: int| #[trigger] es.contains(h) <==> 0 <= h < m.nh() && m.edge_of(h) == e by { assert(m.e_key()(h) == m.e_key()(m.eh(e)) <==> m.edge_of(h) == e); }
    assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < m.nh() && m.edge_of(es[i]) == e by { assert(es.contains(es[i])); }
    lemma_short(es, m.nh());
    let a = m.eh(e);
    assert forall|i: int| 0 <= i < es.len() implies (m.org(#[trigger] es[i]) == end_a(m, e) && m.tip(es[i]) == end_b(m, e)) || (m.org(es[i]) == end_b(m, e) && m.tip(es[i]) == end_a(m, e)) by {
        assert(m.edge_of(es[i]) == m.edge_of(a));
    }
    assert(m.org(a) != m.tip(a));
    assert(0 <= m.nx(a) < m.nh());
    assert(0 <= m.org(a) < m.nv() && 0 <= m.org(m.nx(a)) < m.nv());
    assert(m.vh(m.org(a)) != INVALID_IND && m.vh(m.org(m.nx(a))) != INVALID_IND);
}
// the lists of halfedges into v
proof fn lemma_inlist(m: SurfaceMesh, v: int)
    requires m.wf(), 0 <= v < m.nv(), m.vh(v) != INVALID_IND,
    ensures is_ring(m.in_s(), inlist(m, v)), exactly(inlist(m, v), m.nh(), |h: int| m.tip(h) == v), m.vih_ok(v),
{
    reveal(is_ring);
    let h = m.vh(v);
    assert(h < m.nh() && m.org(h) == v);
    let r = ring(m.next_s(), h);
    assert(ring_ok(m.next_s(), m.f_key(), m.nh(), r, h));
    let st = r.last();
    assert(0 <= st < m.nh());
    assert(m.nx(st) == h);
    let s = ring(m.in_s(), st);
    assert(ring_ok(m.in_s(), m.t_key(), m.nh(), s, st));
    assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < m.nh() && m.tip(g) == v by { assert(m.t_key()(g) == m.t_key()(st) <==> m.tip(g) == v); }
}
// a mesh whose links below n are those of m visits v in the same order
proof fn lemma_inlist_same(m: SurfaceMesh, m2: SurfaceMesh, v: int)
    requires m.wf(), 0 <= v < m.nv(), m.vh(v) != INVALID_IND, m2.vh(v) == m.vh(v), m2.nh() >= m.nh(), m2.next_s().len() == m2.nh(), m2.in_s().len() == m2.nh(),
        forall|h: int| 0 <= h < m.nh() ==> #[trigger] m2.next_s()[h] == m.next_s()[h], forall|h: int| 0 <= h < m.nh() ==> #[trigger] m2.in_s()[h] == m.in_s()[h],
    ensures m2.vih_ok(v), inlist(m2, v) == inlist(m, v),
{
    reveal(is_ring);
    lemma_inlist(m, v);
    let h = m.vh(v);
    let r = ring(m.next_s(), h);
    assert forall|g: int| #[trigger] r.contains(g) implies m2.next_s()[g] == m.next_s()[g] by { let i = r.index_of(g); assert(0 <= r[i] < m.nh()); }
    lemma_ring_keep(m.next_s(), m2.next_s(), r);
    lemma_ring_self(m2.next_s(), r);
    let s = inlist(m, v);
    assert forall|g: int| #[trigger] s.contains(g) implies m2.in_s()[g] == m.in_s()[g] by { let i = s.index_of(g); assert(0 <= s[i] < m.nh()); }
    lemma_ring_keep(m.in_s(), m2.in_s(), s);
    lemma_ring_self(m2.in_s(), s);
}
// the relinked lists of incoming halfedges
proof fn lemma_new_in(m: SurfaceMesh, e: int, v: int)
    requires m.wf(), 0 <= e < m.ne(), v == end_a(m, e) || v == end_b(m, e),
    ensures listable(new_in(m, e, v), m.nh() + es_of(m, e).len()),
        forall|g: int| #[trigger] new_in(m, e, v).contains(g) <==> (0 <= g < m.nh() && !es_of(m, e).contains(g) && m.tip(g) == v) || (m.nh() <= g < m.nh() + es_of(m, e).len() && m.tip(es_of(m, e)[g - m.nh()]) == v),
{
    reveal(is_ring);
    lemma_es(m, e);
    lemma_inlist(m, v);
    let es = es_of(m, e);
    let n = m.nh();
    let s = inlist(m, v);
    let t = new_in(m, e, v);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n && t[i] == phi(n, es, s[i]) && m.tip(s[i]) == v by { assert(s.contains(s[i])); }
    assert forall|h: int| es.contains(h) implies 0 <= #[trigger] es.index_of(h) < es.len() && es[es.index_of(h)] == h by {}
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < n + es.len() by { assert(t[i] == phi(n, es, s[i])); }
    assert(t.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); assert(t[i] == phi(n, es, s[i]) && t[j] == phi(n, es, s[j])); }
    }
    assert forall|g: int| #[trigger] t.contains(g) <==> (0 <= g < n && !es.contains(g) && m.tip(g) == v) || (n <= g < n + es.len() && m.tip(es[g - n]) == v) by {
        if t.contains(g) { let i = t.index_of(g); assert(t[i] == phi(n, es, s[i])); }
        if 0 <= g < n && !es.contains(g) && m.tip(g) == v { assert(s.contains(g)); let i = s.index_of(g); assert(t[i] == g); }
        if n <= g < n + es.len() && m.tip(es[g - n]) == v {
            let h = es[g - n];
            assert(s.contains(h)); let i = s.index_of(h);
            assert(es.contains(h)); assert(es.index_of(h) == g - n);
            assert(t[i] == phi(n, es, s[i]));
        }
    }
}
proof fn lemma_picks_of(m: SurfaceMesh, e: int, v: int)
    requires m.wf(), 0 <= e < m.ne(), v == end_a(m, e) || v == end_b(m, e),
    ensures picks_of(m, e, v).no_duplicates(), forall|p: int| #[trigger] picks_of(m, e, v).contains(p) <==> 0 <= p < es_of(m, e).len() && m.tip(es_of(m, e)[p]) == v,
        forall|i: int| 0 <= i < picks_of(m, e, v).len() ==> 0 <= #[trigger] picks_of(m, e, v)[i] < es_of(m, e).len(),
{
    lemma_es(m, e);
    lemma_inlist(m, v);
    let es = es_of(m, e);
    lemma_picks(es, inlist(m, v));
    assert forall|p: int| #[trigger] picks_of(m, e, v).contains(p) <==> 0 <= p < es.len() && m.tip(es[p]) == v by { if 0 <= p < es.len() { assert(inlist(m, v).contains(es[p]) <==> m.tip(es[p]) == v); } }
    assert forall|i: int| 0 <= i < picks_of(m, e, v).len() implies 0 <= #[trigger] picks_of(m, e, v)[i] < es.len() by { assert(picks_of(m, e, v).contains(picks_of(m, e, v)[i])); }
}
proof fn lemma_half(m: SurfaceMesh, e: int, vold: int, vnew: int)
    requires m.wf(), 0 <= e < m.ne(), (vold == end_a(m, e) && vnew == end_b(m, e)) || (vold == end_b(m, e) && vnew == end_a(m, e)),
    ensures listable(half(m, e, picks_of(m, e, vold), picks_of(m, e, vnew)), m.nh() + es_of(m, e).len()),
        forall|g: int| #[trigger] half(m, e, picks_of(m, e, vold), picks_of(m, e, vnew)).contains(g) <==>
            (es_of(m, e).contains(g) && m.tip(g) == vold) || (m.nh() <= g < m.nh() + es_of(m, e).len() && m.tip(es_of(m, e)[g - m.nh()]) == vnew),
{
    lemma_es(m, e);
    lemma_picks_of(m, e, vold);
    lemma_picks_of(m, e, vnew);
    let es = es_of(m, e);
    let n = m.nh();
    let po = picks_of(m, e, vold);
    let pn = picks_of(m, e, vnew);
    let l = half(m, e, po, pn);
    let k = po.len();
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == (if i < k { es[po[i]] } else { n + pn[i - k] }) by { if i >= k { assert(0 <= pn[i - k] < es.len()); } }
    assert forall|i: int| 0 <= i < l.len() implies 0 <= #[trigger] l[i] < n + es.len() by { if i < k { assert(0 <= po[i] < es.len()); } else { assert(0 <= pn[i - k] < es.len()); } }
    assert(l.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
            if i < k { assert(0 <= po[i] < es.len()); } else { assert(0 <= pn[i - k] < es.len()); }
            if j < k { assert(0 <= po[j] < es.len()); } else { assert(0 <= pn[j - k] < es.len()); }
        }
    }
    assert forall|g: int| #[trigger] l.contains(g) <==> (es.contains(g) && m.tip(g) == vold) || (n <= g < n + es.len() && m.tip(es[g - n]) == vnew) by {
        if l.contains(g) { let i = l.index_of(g); if i < k { assert(po.contains(po[i])); assert(es.contains(es[po[i]])); } else { assert(pn.contains(pn[i - k])); } }
        if es.contains(g) && m.tip(g) == vold { let p = es.index_of(g); assert(po.contains(p)); let i = po.index_of(p); assert(l[i] == g); }
        if n <= g < n + es.len() && m.tip(es[g - n]) == vnew { assert(pn.contains(g - n)); let i = pn.index_of(g - n); assert(l[i + k] == g); }
    }
    assert(l.len() > 0) by {
        assert(es[0] == es[0]);
        if m.tip(es[0]) == vold { assert(es.contains(es[0])); assert(l.contains(es[0])); } else { assert(m.tip(es[n - n]) == vnew); assert(l.contains(n)); }
    }
}

// two lists relinked one after the other
proof fn lemma_relinked_two(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, c: Seq<HalfedgeId>, s: Seq<int>, t: Seq<int>)
    requires relinked(a, b, s, s.len() as int), relinked(b, c, t, t.len() as int), listable(s, a.len() as int), listable(t, a.len() as int),
        forall|h: int| #[trigger] s.contains(h) ==> !t.contains(h),
    ensures is_ring(c, s), is_ring(c, t), c.len() == a.len(), forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) ==> #[trigger] c[h] == a[h],
{
    lemma_relinked(a, b, s);
    lemma_relinked(b, c, t);
    assert forall|g: int| #[trigger] s.contains(g) implies c[g] == b[g] by { let i = s.index_of(g); assert(0 <= s[i] < a.len()); }
    lemma_ring_keep(b, c, s);
    assert forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) implies #[trigger] c[h] == a[h] by { assert(b[h] == a[h]); }
}
// the next links while new halfedge n + i is put behind es[i]: j of them are done
spec fn threaded(m: SurfaceMesh, arr: Seq<HalfedgeId>, hs: Seq<HalfedgeId>, j: int) -> bool {
    let n = m.nh();
    &&& arr.len() == n + hs.len()
    &&& rings_ok(arr, along(n, m.f_key(), hs), n + j)
    &&& forall|h: int| 0 <= h < n && !idv(hs).contains(h) ==> #[trigger] arr[h] == m.next_s()[h]
    &&& forall|i: int| 0 <= i < j ==> arr[(#[trigger] hs[i]).0 as int].0 == n + i && arr[n + i] == m.next_s()[hs[i].0 as int]
    &&& forall|i: int| j <= i < hs.len() ==> arr[(#[trigger] hs[i]).0 as int] == m.next_s()[hs[i].0 as int]
}
proof fn lemma_thread_start(m: SurfaceMesh, arr: Seq<HalfedgeId>, hs: Seq<HalfedgeId>)
    requires m.wf(), grown(m.next_s(), arr, hs.len() as int, HNONE), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).0 < m.nh(),
    ensures threaded(m, arr, hs, 0),
{
    lemma_longer(m.next_s(), m.f_key(), arr, along(m.nh(), m.f_key(), hs), m.nh());
}
proof fn lemma_thread(m: SurfaceMesh, a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, hs: Seq<HalfedgeId>, j: int)
    requires threaded(m, a, hs, j), 0 <= j < hs.len(), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).0 < m.nh(), hs.no_duplicates(), m.nh() + hs.len() < INVALID_IND,
        inserted(a, b, hs[j].0 as int, m.nh() + j),
    ensures threaded(m, b, hs, j + 1),
{
    let n = m.nh();
    let x = hs[j].0 as int;
    let kf = along(n, m.f_key(), hs);
    assert(hs[j].0 < n);
    lemma_insert(a, kf, b, kf, n + j, x);
    assert forall|h: int| 0 <= h < n && !idv(hs).contains(h) implies #[trigger] b[h] == m.next_s()[h] by { assert(idv(hs)[j] == x); assert(h != x); assert(a[h] == m.next_s()[h]); }
    assert forall|i: int| 0 <= i < j + 1 implies b[(#[trigger] hs[i]).0 as int].0 == n + i && b[n + i] == m.next_s()[hs[i].0 as int] by {
        assert(hs[i].0 < n);
        if i < j { assert(hs[i] != hs[j]); assert(hs[i].0 != x); }
    }
    assert forall|i: int| j + 1 <= i < hs.len() implies b[(#[trigger] hs[i]).0 as int] == m.next_s()[hs[i].0 as int] by { assert(hs[i].0 < n); assert(hs[i] != hs[j]); assert(hs[i].0 != x); }
}
// the arrays after the split
spec fn split_arrays(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>) -> bool {
    let n = m.nh();
    let es = es_of(m, e);
    let va = end_a(m, e);
    let vb = end_b(m, e);
    let w = m.nv();
    &&& idv(hs) == es
    &&& m1.lens() && m1.nh() == n + es.len() && m1.ne() == m.ne() + 1 && m1.nv() == w + 1 && m1.core_data.f_halfedge_arr == m.core_data.f_halfedge_arr
    &&& m1.use_implicit_twin == m.use_implicit_twin
    &&& forall|v: int| 0 <= v < w ==> #[trigger] m1.core_data.v_halfedge_arr@[v] == m.core_data.v_halfedge_arr@[v]
    &&& m1.vh(w) == n
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h]
    &&& forall|h: int| n <= h < n + es.len() ==> (#[trigger] m1.core_data.he_vertex_arr@[h]).0 == w
    &&& is_ring(m1.in_s(), new_in(m, e, va)) && is_ring(m1.in_s(), new_in(m, e, vb)) && is_ring(m1.in_s(), es)
    &&& forall|h: int| 0 <= h < n && !es.contains(h) && !new_in(m, e, va).contains(h) && !new_in(m, e, vb).contains(h) ==> #[trigger] m1.in_s()[h] == m.in_s()[h]
    &&& is_ring(m1.out_s(), fresh(m, e))
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.out_s()[h] == m.out_s()[h]
    &&& is_ring(m1.sib_s(), half_a(m, e)) && is_ring(m1.sib_s(), half_b(m, e))
    &&& forall|h: int| 0 <= h < n && !es.contains(h) ==> #[trigger] m1.sib_s()[h] == m.sib_s()[h]
    &&& threaded(m, m1.next_s(), hs, es.len() as int)
    &&& forall|h: int| half_a(m, e).contains(h) ==> (#[trigger] m1.he_edge_arr@[h]).0 == e
    &&& forall|h: int| half_b(m, e).contains(h) ==> (#[trigger] m1.he_edge_arr@[h]).0 == m.ne()
    &&& forall|h: int| 0 <= h < n && !es.contains(h) ==> #[trigger] m1.he_edge_arr@[h] == m.he_edge_arr@[h]
    &&& forall|g: int| 0 <= g < m.ne() && g != e ==> #[trigger] m1.e_halfedge_arr@[g] == m.e_halfedge_arr@[g]
    &&& m1.eh(e) == half_a(m, e)[0] && m1.eh(m.ne()) == half_b(m, e)[0]
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.he_face_arr@[h] == m.he_face_arr@[h]
    &&& forall|i: int| 0 <= i < es.len() ==> m1.he_face_arr@[n + i] == m.he_face_arr@[#[trigger] es[i]]
}
// the halfedge that follows h along the split edge
spec fn second(m: SurfaceMesh, e: int, h: int) -> int { m.nh() + es_of(m, e).index_of(h) }
// everything split_edge promises, apart from consistency
spec fn edge_cut(m: SurfaceMesh, m1: SurfaceMesh, e: int) -> bool {
    let n = m.nh();
    let es = es_of(m, e);
    let w = m.nv();
    &&& m1.nh() == n + es.len() && m1.ne() == m.ne() + 1 && m1.nv() == w + 1 && m1.core_data.f_halfedge_arr == m.core_data.f_halfedge_arr
    // origins and faces of the old halfedges are untouched, new halfedges start at the new vertex
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.org(h) == m.org(h)
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.face_of(h) == m.face_of(h)
    &&& forall|h: int| n <= h < m1.nh() ==> #[trigger] m1.org(h) == w
    // halfedges of other edges keep edge, successor and so their end
    &&& forall|h: int| 0 <= h < n && m.edge_of(h) != e ==> #[trigger] m1.edge_of(h) == m.edge_of(h)
    &&& forall|h: int| 0 <= h < n && m.edge_of(h) != e ==> #[trigger] m1.nx(h) == m.nx(h)
    // every halfedge of the edge now ends at the new vertex; its second half runs on to where it used to go
    &&& forall|h: int| 0 <= h < n && m.edge_of(h) == e ==> n <= #[trigger] m1.nx(h) < m1.nh() && m1.nx(m1.nx(h)) == m.nx(h) && m1.face_of(m1.nx(h)) == m.face_of(h)
    // the half at the first end keeps the edge, the other half is the new edge
    &&& forall|h: int| 0 <= h < m1.nh() && (h >= n || m.edge_of(h) == e) ==> #[trigger] m1.edge_of(h) == (if m1.org(h) == end_a(m, e) || m1.tip(h) == end_a(m, e) { e } else { m.ne() })
    &&& forall|g: int| 0 <= g < m.ne() && g != e ==> #[trigger] m1.eh(g) == m.eh(g)
    &&& forall|v: int| 0 <= v < w ==> #[trigger] m1.vh(v) == m.vh(v)
}
spec fn se_tips(m: SurfaceMesh, m1: SurfaceMesh, e: int) -> bool {
    let n = m.nh();
    let es = es_of(m, e);
    let w = m.nv();
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.org(h) == m.org(h) && m.org(h) < w
    &&& forall|h: int| n <= h < n + es.len() ==> #[trigger] m1.org(h) == w
    &&& forall|h: int| 0 <= h < n ==> #[trigger] m1.face_of(h) == m.face_of(h)
    &&& forall|h: int| 0 <= h < n + es.len() ==> 0 <= #[trigger] m1.nx(h) < n + es.len()
    &&& forall|h: int| 0 <= h < n && es.contains(h) ==> #[trigger] m1.tip(h) == w && n <= m1.nx(h) && m1.nx(m1.nx(h)) == m.nx(h) && m1.face_of(m1.nx(h)) == m.face_of(h)
    &&& forall|h: int| 0 <= h < n && !es.contains(h) ==> #[trigger] m1.tip(h) == m.tip(h) && m1.nx(h) == m.nx(h)
    &&& forall|h: int| n <= h < n + es.len() ==> #[trigger] m1.tip(h) == m.tip(es[h - n])
    &&& forall|h: int| n <= h < n + es.len() ==> #[trigger] m1.face_of(h) == m.face_of(es[h - n])
}
proof fn lemma_se_tips(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures se_tips(m, m1, e),
{
    lemma_es(m, e);
    let n = m.nh();
    let es = es_of(m, e);
    let w = m.nv();
    let c = es.len() as int;
    assert(forall|i: int| 0 <= i < c ==> (#[trigger] hs[i]).0 == es[i]) by { assert forall|i: int| 0 <= i < c implies (#[trigger] hs[i]).0 == es[i] by { assert(idv(hs)[i] == hs[i].0); } }
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.org(h) == m.org(h) && m.org(h) < w by { assert(m1.core_data.he_vertex_arr@[h] == m.core_data.he_vertex_arr@[h]); assert(0 <= m.org(h) < w); }
    assert forall|h: int| n <= h < n + c implies #[trigger] m1.org(h) == w by { assert(m1.core_data.he_vertex_arr@[h].0 == w); }
    assert forall|h: int| 0 <= h < n implies #[trigger] m1.face_of(h) == m.face_of(h) by { assert(m1.he_face_arr@[h] == m.he_face_arr@[h]); }
    assert forall|h: int| n <= h < n + c implies #[trigger] m1.face_of(h) == m.face_of(es[h - n]) by { let i = h - n; assert(m1.he_face_arr@[n + i] == m.he_face_arr@[es[i]]); }
    assert forall|h: int| n <= h < n + c implies #[trigger] m1.nx(h) == m.nx(es[h - n]) && 0 <= m1.nx(h) < n by { let i = h - n; assert(hs[i].0 == es[i]); assert(m1.next_s()[n + i] == m.next_s()[es[i]]); assert(0 <= es[i] < n); assert(0 <= m.nx(es[i]) < n); }
    assert forall|h: int| 0 <= h < n && es.contains(h) implies #[trigger] m1.nx(h) == n + es.index_of(h) by { let i = es.index_of(h); assert(hs[i].0 == es[i]); }
    assert forall|h: int| 0 <= h < n && !es.contains(h) implies #[trigger] m1.nx(h) == m.nx(h) && 0 <= m1.nx(h) < n by { assert(m1.next_s()[h] == m.next_s()[h]); assert(0 <= m.nx(h) < n); }
    assert forall|h: int| 0 <= h < n + c implies 0 <= #[trigger] m1.nx(h) < n + c by { if h < n { if es.contains(h) { assert(0 <= es.index_of(h) < c); } } }
    assert forall|h: int| 0 <= h < n && es.contains(h) implies #[trigger] m1.tip(h) == w && n <= m1.nx(h) && m1.nx(m1.nx(h)) == m.nx(h) && m1.face_of(m1.nx(h)) == m.face_of(h) by {
        let i = es.index_of(h);
        assert(m1.nx(h) == n + i);
        assert(m1.org(n + i) == w);
        assert(m1.nx(n + i) == m.nx(es[n + i - n]));
        assert(m1.face_of(n + i) == m.face_of(es[n + i - n]));
    }
    assert forall|h: int| 0 <= h < n && !es.contains(h) implies #[trigger] m1.tip(h) == m.tip(h) && m1.nx(h) == m.nx(h) by { assert(m1.nx(h) == m.nx(h)); assert(m1.org(m.nx(h)) == m.org(m.nx(h))); }
    assert forall|h: int| n <= h < n + c implies #[trigger] m1.tip(h) == m.tip(es[h - n]) by { assert(m1.nx(h) == m.nx(es[h - n])); assert(m1.org(m1.nx(h)) == m.org(m1.nx(h))); }
}
proof fn lemma_se_next(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures rings_ok(m1.next_s(), m1.f_key(), m1.nh()),
{
    lemma_es(m, e);
    lemma_se_tips(m, m1, e, hs);
    let n = m.nh();
    let es = es_of(m, e);
    let kf = along(n, m.f_key(), hs);
    assert forall|g: int| 0 <= g < m1.nh() implies #[trigger] m1.f_key()(g) == kf(g) by { assert(m1.face_of(g) == (if g < n { m.face_of(g) } else { m.face_of(es[g - n]) })); if g >= n { assert(idv(hs)[g - n] == hs[g - n].0); } }
    lemma_longer(m1.next_s(), kf, m1.next_s(), m1.f_key(), m1.nh());
}
proof fn lemma_se_in(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures rings_ok(m1.in_s(), m1.t_key(), m1.nh()),
{
    reveal(is_ring);
    lemma_es(m, e);
    lemma_se_tips(m, m1, e, hs);
    let n = m.nh();
    let es = es_of(m, e);
    let (va, vb, w) = (end_a(m, e), end_b(m, e), m.nv());
    let (la, lb) = (new_in(m, e, va), new_in(m, e, vb));
    lemma_new_in(m, e, va);
    lemma_new_in(m, e, vb);
    let (k0, k1) = (m.t_key(), m1.t_key());
    let n1 = m1.nh();
    assert forall|g: int| 0 <= g < n1 implies #[trigger] k1(g) == m1.tip(g) by {}
    assert forall|h: int| 0 <= h < n1 implies ring_ok(m1.in_s(), k1, n1, #[trigger] ring(m1.in_s(), h), h) by {
        assert(k1(h) == m1.tip(h));
        if h < n && es.contains(h) {
            assert forall|g: int| #[trigger] es.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by { if 0 <= g < n1 { assert(k1(g) == m1.tip(g)); if g < n { assert(0 <= m.nx(g) < n); assert(m.org(m.nx(g)) < w); } else { assert(0 <= es[g - n] < n); } } }
            lemma_ring_at(m1.in_s(), k1, n1, es, h);
        } else if m1.tip(h) == va {
            assert forall|g: int| #[trigger] la.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by { if 0 <= g < n1 { assert(k1(g) == m1.tip(g)); } }
            assert(la.contains(h));
            lemma_ring_at(m1.in_s(), k1, n1, la, h);
        } else if m1.tip(h) == vb {
            assert forall|g: int| #[trigger] lb.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by { if 0 <= g < n1 { assert(k1(g) == m1.tip(g)); } }
            assert(lb.contains(h));
            lemma_ring_at(m1.in_s(), k1, n1, lb, h);
        } else {
            assert(h < n) by { if h >= n { assert(0 <= es[h - n] < n); } }
            assert(m1.tip(h) == m.tip(h));
            let s = ring(m.in_s(), h);
            assert(ring_ok(m.in_s(), k0, n, s, h));
            assert(k0(h) == m.tip(h));
            assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by {
                if 0 <= g < n { assert(k0(g) == m.tip(g)); assert(k1(g) == m1.tip(g)); if es.contains(g) { let i = es.index_of(g); assert(0 <= es[i] < n); assert(0 <= m.nx(h) < n); assert(m.org(m.nx(h)) < w); } }
                else if g < n1 && g >= n { assert(0 <= es[g - n] < n); assert(k1(g) == m1.tip(g)); }
            }
            assert forall|g: int| #[trigger] s.contains(g) implies m1.in_s()[g] == m.in_s()[g] by {
                assert(0 <= g < n && k0(g) == k0(h)); assert(k0(g) == m.tip(g));
                if es.contains(g) { let i = es.index_of(g); assert(0 <= es[i] < n); }
            }
            lemma_ring_keep(m.in_s(), m1.in_s(), s);
            assert(s.contains(s[0]));
            lemma_ring_at(m1.in_s(), k1, n1, s, h);
        }
    }
}
proof fn lemma_se_out(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures rings_ok(m1.out_s(), m1.o_key(), m1.nh()),
{
    reveal(is_ring);
    lemma_es(m, e);
    lemma_se_tips(m, m1, e, hs);
    let n = m.nh();
    let c = es_of(m, e).len() as int;
    let t = fresh(m, e);
    assert forall|g: int| #[trigger] t.contains(g) <==> n <= g < n + c by { if n <= g < n + c { assert(t[g - n] == g); } }
    assert forall|g: int| 0 <= g < n implies #[trigger] m1.o_key()(g) == m.o_key()(g) && m.o_key()(g) != m.nv() by { assert(m1.org(g) == m.org(g)); }
    assert forall|g: int| n <= g < n + c implies #[trigger] m1.o_key()(g) == m.nv() by { assert(m1.org(g) == m.nv()); }
    lemma_new_ring(m.out_s(), m.o_key(), m1.out_s(), m1.o_key(), n, n + c, t, m.nv());
}
spec fn se_edges(m: SurfaceMesh, m1: SurfaceMesh, e: int) -> bool {
    let n = m.nh();
    let es = es_of(m, e);
    &&& forall|h: int| 0 <= h < n && !es.contains(h) ==> #[trigger] m1.edge_of(h) == m.edge_of(h) && m.edge_of(h) != e && m.edge_of(h) < m.ne()
    &&& forall|h: int| 0 <= h < m1.nh() && (h >= n || es.contains(h)) ==> half_a(m, e).contains(h) && !half_b(m, e).contains(h) && #[trigger] m1.edge_of(h) == e && (m1.org(h) == end_a(m, e) && m1.tip(h) == m.nv() || m1.org(h) == m.nv() && m1.tip(h) == end_a(m, e))
        || half_b(m, e).contains(h) && !half_a(m, e).contains(h) && m1.edge_of(h) == m.ne() && (m1.org(h) == end_b(m, e) && m1.tip(h) == m.nv() || m1.org(h) == m.nv() && m1.tip(h) == end_b(m, e))
    &&& forall|h: int| #[trigger] half_a(m, e).contains(h) || #[trigger] half_b(m, e).contains(h) ==> 0 <= h < m1.nh() && (h >= n || es.contains(h))
}
proof fn lemma_se_edges(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures se_edges(m, m1, e), half_a(m, e).len() > 0, half_b(m, e).len() > 0,
{
    lemma_es(m, e);
    lemma_se_tips(m, m1, e, hs);
    let n = m.nh();
    let es = es_of(m, e);
    let (va, vb, w) = (end_a(m, e), end_b(m, e), m.nv());
    let (la, lb) = (half_a(m, e), half_b(m, e));
    lemma_half(m, e, vb, va);
    lemma_half(m, e, va, vb);
    assert forall|h: int| 0 <= h < n && !es.contains(h) implies #[trigger] m1.edge_of(h) == m.edge_of(h) && m.edge_of(h) != e && m.edge_of(h) < m.ne() by { assert(m1.he_edge_arr@[h] == m.he_edge_arr@[h]); assert(0 <= m.edge_of(h) < m.ne()); }
    assert forall|h: int| 0 <= h < m1.nh() && (h >= n || es.contains(h)) implies la.contains(h) && !lb.contains(h) && #[trigger] m1.edge_of(h) == e && (m1.org(h) == va && m1.tip(h) == w || m1.org(h) == w && m1.tip(h) == va)
        || lb.contains(h) && !la.contains(h) && m1.edge_of(h) == m.ne() && (m1.org(h) == vb && m1.tip(h) == w || m1.org(h) == w && m1.tip(h) == vb) by {
        if h >= n {
            let i = h - n;
            assert(0 <= es[i] < n);
            assert(m1.org(h) == w);
            assert(m1.tip(h) == m.tip(es[i]));
            assert(!es.contains(h));
        } else {
            let i = es.index_of(h);
            assert(es[i] == h);
            assert(m1.org(h) == m.org(h));
            assert(m1.tip(h) == w);
        }
        if la.contains(h) { assert(m1.he_edge_arr@[h].0 == e); }
        if lb.contains(h) { assert(m1.he_edge_arr@[h].0 == m.ne()); }
    }
}
proof fn lemma_se_sib(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures rings_ok(m1.sib_s(), m1.e_key(), m1.nh()),
{
    reveal(is_ring);
    lemma_es(m, e);
    lemma_se_edges(m, m1, e, hs);
    let n = m.nh();
    let es = es_of(m, e);
    let (la, lb) = (half_a(m, e), half_b(m, e));
    let (k0, k1) = (m.e_key(), m1.e_key());
    let n1 = m1.nh();
    assert forall|g: int| 0 <= g < n1 implies #[trigger] k1(g) == m1.edge_of(g) by {}
    assert forall|h: int| 0 <= h < n1 implies ring_ok(m1.sib_s(), k1, n1, #[trigger] ring(m1.sib_s(), h), h) by {
        assert(k1(h) == m1.edge_of(h));
        if la.contains(h) {
            assert forall|g: int| #[trigger] la.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by { if 0 <= g < n1 { assert(k1(g) == m1.edge_of(g)); } }
            lemma_ring_at(m1.sib_s(), k1, n1, la, h);
        } else if lb.contains(h) {
            assert forall|g: int| #[trigger] lb.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by { if 0 <= g < n1 { assert(k1(g) == m1.edge_of(g)); } }
            lemma_ring_at(m1.sib_s(), k1, n1, lb, h);
        } else {
            assert(h < n && !es.contains(h));
            let s = ring(m.sib_s(), h);
            assert(ring_ok(m.sib_s(), k0, n, s, h));
            assert(k0(h) == m.edge_of(h));
            assert forall|g: int| #[trigger] s.contains(g) <==> 0 <= g < n1 && k1(g) == k1(h) by {
                if 0 <= g < n { assert(k0(g) == m.edge_of(g)); assert(k1(g) == m1.edge_of(g)); }
                else if g < n1 && g >= n { assert(k1(g) == m1.edge_of(g)); }
            }
            assert forall|g: int| #[trigger] s.contains(g) implies m1.sib_s()[g] == m.sib_s()[g] by { assert(0 <= g < n && k0(g) == k0(h)); assert(k0(g) == m.edge_of(g)); }
            lemma_ring_keep(m.sib_s(), m1.sib_s(), s);
            assert(s.contains(s[0]));
            lemma_ring_at(m1.sib_s(), k1, n1, s, h);
        }
    }
}
proof fn lemma_se_rest(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures m1.ranges(), m1.ends(), m1.reps(), edge_cut(m, m1, e),
{
    lemma_es(m, e);
    lemma_se_tips(m, m1, e, hs);
    lemma_se_edges(m, m1, e, hs);
    let n = m.nh();
    let es = es_of(m, e);
    let (va, vb, w) = (end_a(m, e), end_b(m, e), m.nv());
    let (la, lb) = (half_a(m, e), half_b(m, e));
    let n1 = m1.nh();
    assert(la.contains(la[0]) && lb.contains(lb[0]));
    assert(m1.ranges()) by {
        assert forall|h: int| 0 <= h < n1 implies 0 <= #[trigger] m1.org(h) < m1.nv() by { if h < n { assert(0 <= m.org(h)); } }
        assert forall|h: int| 0 <= h < n1 implies 0 <= #[trigger] m1.face_of(h) < m1.nf() by { if h < n { assert(0 <= m.face_of(h) < m.nf()); } else { assert(0 <= es[h - n] < n); assert(0 <= m.face_of(es[h - n]) < m.nf()); } }
        assert forall|h: int| 0 <= h < n1 implies 0 <= #[trigger] m1.edge_of(h) < m1.ne() by { if h < n && !es.contains(h) { assert(0 <= m.edge_of(h)); } }
    }
    assert forall|h: int| 0 <= h < n && !es.contains(h) implies #[trigger] m1.tip(h) == m.tip(h) && m.tip(h) < w by { assert(0 <= m.nx(h) < n); assert(m.org(m.nx(h)) < w); }
    assert(m1.ends()) by {
        assert forall|h: int| 0 <= h < n1 implies m1.org(h) != #[trigger] m1.tip(h) by { if h < n && !es.contains(h) { assert(m.org(h) != m.tip(h)); assert(m1.org(h) == m.org(h)); } else { assert(m1.edge_of(h) == e || m1.edge_of(h) == m.ne()); } }
        assert forall|g: int, h: int| 0 <= g < n1 && 0 <= h < n1 && #[trigger] m1.edge_of(g) == #[trigger] m1.edge_of(h) implies
            (m1.org(g) == m1.org(h) && m1.tip(g) == m1.tip(h)) || (m1.org(g) == m1.tip(h) && m1.tip(g) == m1.org(h)) by {
            if g < n && !es.contains(g) {
                assert(m1.edge_of(g) == m.edge_of(g));
                assert(h < n && !es.contains(h));
                assert(m1.edge_of(h) == m.edge_of(h));
                assert(m.edge_of(g) == m.edge_of(h));
                assert(m1.org(g) == m.org(g) && m1.org(h) == m.org(h) && m1.tip(g) == m.tip(g) && m1.tip(h) == m.tip(h));
            }
        }
    }
    assert(m1.reps()) by {
        assert forall|g: int| 0 <= g < m1.ne() implies 0 <= #[trigger] m1.eh(g) < n1 && m1.edge_of(m1.eh(g)) == g by {
            if g == e { assert(m1.edge_of(la[0]) == e); }
            else if g == m.ne() { assert(m1.edge_of(lb[0]) == m.ne()); }
            else { assert(m1.e_halfedge_arr@[g] == m.e_halfedge_arr@[g]); assert(0 <= m.eh(g) < n && m.edge_of(m.eh(g)) == g); assert(!es.contains(m.eh(g))); assert(m1.edge_of(m.eh(g)) == m.edge_of(m.eh(g))); }
        }
        assert forall|g: int| 0 <= g < m1.nf() implies 0 <= #[trigger] m1.fh(g) < n1 && m1.face_of(m1.fh(g)) == g by { assert(0 <= m.fh(g) < n && m.face_of(m.fh(g)) == g); }
        assert forall|v: int| 0 <= v < m1.nv() && #[trigger] m1.vh(v) != INVALID_IND implies m1.vh(v) < n1 && m1.org(m1.vh(v)) == v by {
            if v < w { assert(m1.core_data.v_halfedge_arr@[v] == m.core_data.v_halfedge_arr@[v]); assert(m.vh(v) != INVALID_IND); assert(m.vh(v) < n && m.org(m.vh(v)) == v); } else { assert(m1.org(n) == w); }
        }
        assert forall|h: int| 0 <= h < n1 implies m1.vh(#[trigger] m1.org(h)) != INVALID_IND by {
            if h < n { assert(m.vh(m.org(h)) != INVALID_IND); assert(m1.core_data.v_halfedge_arr@[m.org(h)] == m.core_data.v_halfedge_arr@[m.org(h)]); } else { assert(m1.vh(w) == n); }
        }
    }
    assert forall|h: int| 0 <= h < n && m.edge_of(h) != e implies #[trigger] m1.nx(h) == m.nx(h) by { assert(!es.contains(h)); assert(m1.tip(h) == m.tip(h)); }
    assert forall|h: int| 0 <= h < n && m.edge_of(h) == e implies n <= #[trigger] m1.nx(h) < n1 && m1.nx(m1.nx(h)) == m.nx(h) && m1.face_of(m1.nx(h)) == m.face_of(h) by { assert(es.contains(h)); assert(m1.tip(h) == w); }
    assert forall|h: int| 0 <= h < n && m.edge_of(h) != e implies #[trigger] m1.edge_of(h) == m.edge_of(h) by { assert(!es.contains(h)); }
    assert forall|h: int| 0 <= h < n1 && (h >= n || m.edge_of(h) == e) implies #[trigger] m1.edge_of(h) == (if m1.org(h) == va || m1.tip(h) == va { e } else { m.ne() }) by { if h < n { assert(es.contains(h)); } }
    assert forall|g: int| 0 <= g < m.ne() && g != e implies #[trigger] m1.eh(g) == m.eh(g) by { assert(m1.e_halfedge_arr@[g] == m.e_halfedge_arr@[g]); }
    assert forall|v: int| 0 <= v < w implies #[trigger] m1.vh(v) == m.vh(v) by { assert(m1.core_data.v_halfedge_arr@[v] == m.core_data.v_halfedge_arr@[v]); }
}
proof fn lemma_split(m: SurfaceMesh, m1: SurfaceMesh, e: int, hs: Seq<HalfedgeId>)
    requires m.wf(), 0 <= e < m.ne(), split_arrays(m, m1, e, hs),
    ensures m1.wf(), edge_cut(m, m1, e),
{
    lemma_se_next(m, m1, e, hs);
    lemma_se_in(m, m1, e, hs);
    lemma_se_out(m, m1, e, hs);
    lemma_se_sib(m, m1, e, hs);
    lemma_se_rest(m, m1, e, hs);
}
proof fn lemma_relinked_three(a: Seq<HalfedgeId>, b: Seq<HalfedgeId>, c: Seq<HalfedgeId>, d: Seq<HalfedgeId>, s: Seq<int>, t: Seq<int>, u: Seq<int>)
    requires relinked(a, b, s, s.len() as int), relinked(b, c, t, t.len() as int), relinked(c, d, u, u.len() as int), listable(s, a.len() as int), listable(t, a.len() as int), listable(u, a.len() as int),
        forall|h: int| #[trigger] s.contains(h) ==> !t.contains(h), forall|h: int| #[trigger] u.contains(h) ==> !t.contains(h) && !s.contains(h),
    ensures is_ring(d, s), is_ring(d, t), is_ring(d, u), d.len() == a.len(), forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) && !u.contains(h) ==> #[trigger] d[h] == a[h],
{
    lemma_relinked_two(a, b, c, s, t);
    lemma_relinked(c, d, u);
    assert forall|g: int| #[trigger] s.contains(g) implies d[g] == c[g] by { let i = s.index_of(g); assert(0 <= s[i] < a.len()); assert(!u.contains(g)); }
    lemma_ring_keep(c, d, s);
    assert forall|g: int| #[trigger] t.contains(g) implies d[g] == c[g] by { let i = t.index_of(g); assert(0 <= t[i] < a.len()); assert(!u.contains(g)); }
    lemma_ring_keep(c, d, t);
    assert forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) && !u.contains(h) implies #[trigger] d[h] == a[h] by { assert(c[h] == a[h]); }
}
// what split_edge itself needs to know about its lists
spec fn se_lists(m: SurfaceMesh, e: int) -> bool {
    let n = m.nh();
    let es = es_of(m, e);
    let n1 = n + es.len();
    let (la, lb) = (new_in(m, e, end_a(m, e)), new_in(m, e, end_b(m, e)));
    &&& es_facts(m, e) && 0 <= m.nx(es[0]) < n
    &&& listable(la, n1) && listable(lb, n1) && listable(es, n1) && listable(fresh(m, e), n1) && listable(half_a(m, e), n1) && listable(half_b(m, e), n1)
    &&& forall|h: int| #[trigger] la.contains(h) ==> !lb.contains(h)
    &&& forall|h: int| #[trigger] es.contains(h) ==> !lb.contains(h) && !la.contains(h) && h < n
    &&& forall|h: int| #[trigger] half_a(m, e).contains(h) ==> !half_b(m, e).contains(h)
    &&& forall|h: int| #[trigger] half_a(m, e).contains(h) ==> h >= n || es.contains(h)
    &&& forall|h: int| #[trigger] half_b(m, e).contains(h) ==> h >= n || es.contains(h)
    &&& forall|h: int| #[trigger] fresh(m, e).contains(h) ==> h >= n
    &&& forall|i: int| 0 <= i < picks_of(m, e, end_a(m, e)).len() ==> 0 <= #[trigger] picks_of(m, e, end_a(m, e))[i] < es.len()
    &&& forall|i: int| 0 <= i < picks_of(m, e, end_b(m, e)).len() ==> 0 <= #[trigger] picks_of(m, e, end_b(m, e))[i] < es.len()
    &&& fresh(m, e).len() == es.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] fresh(m, e)[i] == n + i
}
proof fn lemma_se_lists(m: SurfaceMesh, e: int)
    requires m.wf(), 0 <= e < m.ne(),
    ensures se_lists(m, e),
{
    lemma_es(m, e);
    let (va, vb) = (end_a(m, e), end_b(m, e));
    let es = es_of(m, e);
    assert(0 <= es[0] < m.nh());
    assert(0 <= m.nx(es[0]) < m.nh());
    lemma_new_in(m, e, va);
    lemma_new_in(m, e, vb);
    lemma_half(m, e, vb, va);
    lemma_half(m, e, va, vb);
    lemma_picks_of(m, e, va);
    lemma_picks_of(m, e, vb);
    assert forall|h: int| #[trigger] half_a(m, e).contains(h) implies !half_b(m, e).contains(h) by { }
    assert forall|h: int| #[trigger] fresh(m, e).contains(h) implies h >= m.nh() by { let i = fresh(m, e).index_of(h); assert(fresh(m, e)[i] == m.nh() + i); }
}
// the edge array while the members of l get edge x
spec fn labelled(a: Seq<EdgeId>, b: Seq<EdgeId>, l: Seq<int>, k: int, x: EdgeId) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < k ==> b[#[trigger] l[i]] == x
    &&& forall|h: int| 0 <= h < a.len() && !l.contains(h) ==> #[trigger] b[h] == a[h]
}
proof fn lemma_label(a: Seq<EdgeId>, b: Seq<EdgeId>, b2: Seq<EdgeId>, l: Seq<int>, k: int, x: EdgeId)
    requires labelled(a, b, l, k, x), listable(l, a.len() as int), 0 <= k < l.len(), b2 == b.update(l[k], x),
    ensures labelled(a, b2, l, k + 1, x),
{
    assert(0 <= l[k] < a.len());
    assert(l.contains(l[k]));
    assert forall|i: int| 0 <= i < k + 1 implies b2[#[trigger] l[i]] == x by { assert(0 <= l[i] < a.len()); if i < k { assert(l[i] != l[k]); } }
}
proof fn lemma_labelled(a: Seq<EdgeId>, b: Seq<EdgeId>, c: Seq<EdgeId>, s: Seq<int>, t: Seq<int>, x: EdgeId, y: EdgeId)
    requires labelled(a, b, s, s.len() as int, x), labelled(b, c, t, t.len() as int, y), listable(s, a.len() as int), listable(t, a.len() as int),
        forall|h: int| #[trigger] s.contains(h) ==> !t.contains(h),
    ensures forall|h: int| s.contains(h) ==> #[trigger] c[h] == x, forall|h: int| t.contains(h) ==> #[trigger] c[h] == y,
        forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) ==> #[trigger] c[h] == a[h], c.len() == a.len(),
{
    assert forall|h: int| s.contains(h) implies #[trigger] c[h] == x by { let i = s.index_of(h); assert(0 <= s[i] < a.len()); assert(b[s[i]] == x); assert(!t.contains(h)); }
    assert forall|h: int| t.contains(h) implies #[trigger] c[h] == y by { let i = t.index_of(h); assert(c[t[i]] == y); }
    assert forall|h: int| 0 <= h < a.len() && !s.contains(h) && !t.contains(h) implies #[trigger] c[h] == a[h] by { assert(b[h] == a[h]); }
}
spec fn faced(m: SurfaceMesh, arr: Seq<FaceId>, es: Seq<int>, k: int) -> bool {
    let n = m.nh();
    &&& arr.len() == n + es.len()
    &&& forall|h: int| 0 <= h < n ==> #[trigger] arr[h] == m.he_face_arr@[h]
    &&& forall|i: int| 0 <= i < k ==> arr[n + i] == m.he_face_arr@[#[trigger] es[i]]
}
impl SurfaceMesh {
//@FN src/mesh/surface_mesh.rs SurfaceMesh::split_edge (eid, bump) -> res
//@DROPCLOSURES
//@    requires old(self).wf(), eid.0 < old(self).ne(),
//@        old(self).nh() + es_of(*old(self), eid.0 as int).len() < INVALID_IND, old(self).ne() + 1 < INVALID_IND, old(self).nv() + 1 < INVALID_IND,
//@        old(self).core_data.n_halfedges + es_of(*old(self), eid.0 as int).len() <= usize::MAX, old(self).core_data.n_vertices + 1 <= usize::MAX, old(self).n_edges + 1 <= usize::MAX,
//@    ensures final(self).wf(), res.0 == old(self).nv(), edge_cut(*old(self), *final(self), eid.0 as int),
//@START: hide(SurfaceMesh::ranges); hide(SurfaceMesh::ends); hide(SurfaceMesh::reps); hide(rings_ok);
//@    let ghost m = *old(self); let ghost e = eid.0 as int; let ghost gn = m.nh(); let ghost ges = es_of(m, e); let ghost n1 = gn + ges.len();
//@    let ghost la = new_in(m, e, end_a(m, e)); let ghost lb = new_in(m, e, end_b(m, e)); let ghost ha_l = half_a(m, e); let ghost hb_l = half_b(m, e); let ghost gf = fresh(m, e);
//@    proof { lemma_se_lists(m, e); lemma_hids(&m, ges); lemma_inlist(m, end_a(m, e)); lemma_inlist(m, end_b(m, e)); }
//@LOCAL new_halfedges /ele_ranges/
//@LOCAL he_pos_map /HashMap::</
//@LOCAL new_v /new_vertices\(/
//@LOCAL new_e /new_edges\(/
//@BEFORE 0: let ghost m2 = *self; proof { assert(idv(vx_over@) =~= gf); }
//@LOOP 0 (hid): invariant *self == (SurfaceMesh { core_data: MeshCoreData { he_vertex_arr: self.core_data.he_vertex_arr, ..m2.core_data }, ..m2 }), self.core_data.he_vertex_arr@.len() == n1, gn >= 0,
//@        idv(vx_over@) == gf, vx_over@.len() == n1 - gn, forall|i: int| 0 <= i < n1 - gn ==> (#[trigger] vx_over@[i]).0 == gn + i,
//@        forall|h: int| 0 <= h < gn ==> #[trigger] self.core_data.he_vertex_arr@[h] == m2.core_data.he_vertex_arr@[h], forall|h: int| gn <= h < gn + vx_k ==> #[trigger] self.core_data.he_vertex_arr@[h] == new_v,
//@AFTER 0: let ghost m3 = *self; proof {
//@    lemma_inlist_same(m, m3, end_a(m, e)); lemma_inlist_same(m, m3, end_b(m, e)); lemma_inb(m, end_a(m, e)); lemma_inb(m, end_b(m, e));
//@    lemma_hids(&m3, inlist(m, end_a(m, e))); lemma_hids(&m3, inlist(m, end_b(m, e))); }
//@BEFORE 1: let ghost snap1 = *self; proof { lemma_relink_start(self.in_s(), la); assert(idv(vx_over@) =~= la); }
//@LOOP 1 (ha, hb): invariant *self == (SurfaceMesh { he_vert_in_next_arr: self.he_vert_in_next_arr, ..snap1 }), self.in_s().len() == n1, snap1.in_s().len() == n1, idv(vx_over@) == la, listable(la, n1),
//@        relinked(snap1.in_s(), self.in_s(), la, vx_k as int),
//@LOOPSTART 1: let ghost b1 = self.in_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(la[vx_k as int] < n1); }
//@LOOPEND 1: proof { lemma_relink_step(snap1.in_s(), b1, self.in_s(), la, vx_k as int, hb); }
//@BEFORE 2: let ghost snap2 = *self; proof { lemma_relink_start(self.in_s(), lb); assert(idv(vx_over@) =~= lb); }
//@LOOP 2 (ha, hb): invariant *self == (SurfaceMesh { he_vert_in_next_arr: self.he_vert_in_next_arr, ..snap2 }), self.in_s().len() == n1, snap2.in_s().len() == n1, idv(vx_over@) == lb, listable(lb, n1),
//@        relinked(snap2.in_s(), self.in_s(), lb, vx_k as int),
//@LOOPSTART 2: let ghost b2 = self.in_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(lb[vx_k as int] < n1); }
//@LOOPEND 2: proof { lemma_relink_step(snap2.in_s(), b2, self.in_s(), lb, vx_k as int, hb); }
//@BEFORE 3: let ghost ghs = vx_over@; let ghost snap3 = *self; proof { lemma_relink_start(self.in_s(), ges); assert(idv(vx_over@) =~= ges); }
//@LOOP 3 (ha, hb): invariant *self == (SurfaceMesh { he_vert_in_next_arr: self.he_vert_in_next_arr, ..snap3 }), self.in_s().len() == n1, snap3.in_s().len() == n1, idv(vx_over@) == ges, listable(ges, n1),
//@        relinked(snap3.in_s(), self.in_s(), ges, vx_k as int),
//@LOOPSTART 3: let ghost b3 = self.in_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(ges[vx_k as int] < n1); }
//@LOOPEND 3: proof { lemma_relink_step(snap3.in_s(), b3, self.in_s(), ges, vx_k as int, hb); }
//@AFTER 3: proof { lemma_relinked_three(snap1.in_s(), snap2.in_s(), snap3.in_s(), self.in_s(), la, lb, ges); }
//@BEFORE 4: let ghost snap4 = *self; proof { lemma_relink_start(self.out_s(), gf); assert(idv(vx_over@) =~= gf); }
//@LOOP 4 (ha, hb): invariant *self == (SurfaceMesh { he_vert_out_next_arr: self.he_vert_out_next_arr, ..snap4 }), self.out_s().len() == n1, snap4.out_s().len() == n1, idv(vx_over@) == gf, listable(gf, n1),
//@        relinked(snap4.out_s(), self.out_s(), gf, vx_k as int),
//@LOOPSTART 4: let ghost b4 = self.out_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(gf[vx_k as int] < n1); }
//@LOOPEND 4: proof { lemma_relink_step(snap4.out_s(), b4, self.out_s(), gf, vx_k as int, hb); }
//@AFTER 4: proof { lemma_relinked(snap4.out_s(), self.out_s(), gf); }
//@BEFORE 5: let ghost snap5 = *self; proof { lemma_relink_start(self.sib_s(), ha_l); assert(idv(vx_over@) =~= ha_l); }
//@LOOP 5 (ha, hb): invariant *self == (SurfaceMesh { he_sibling_arr: self.he_sibling_arr, ..snap5 }), self.sib_s().len() == n1, snap5.sib_s().len() == n1, idv(vx_over@) == ha_l, listable(ha_l, n1),
//@        relinked(snap5.sib_s(), self.sib_s(), ha_l, vx_k as int),
//@LOOPSTART 5: let ghost b5 = self.sib_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(ha_l[vx_k as int] < n1); }
//@LOOPEND 5: proof { lemma_relink_step(snap5.sib_s(), b5, self.sib_s(), ha_l, vx_k as int, hb); }
//@BEFORE 6: let ghost snap6 = *self; proof { lemma_relink_start(self.sib_s(), hb_l); assert(idv(vx_over@) =~= hb_l); }
//@LOOP 6 (ha, hb): invariant *self == (SurfaceMesh { he_sibling_arr: self.he_sibling_arr, ..snap6 }), self.sib_s().len() == n1, snap6.sib_s().len() == n1, idv(vx_over@) == hb_l, listable(hb_l, n1),
//@        relinked(snap6.sib_s(), self.sib_s(), hb_l, vx_k as int),
//@LOOPSTART 6: let ghost b6 = self.sib_s(); proof { let j = if vx_k + 1 < vx_over@.len() { vx_k + 1 } else { 0 }; assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(idv(vx_over@)[j] == vx_over@[j].0); assert(hb_l[vx_k as int] < n1); }
//@LOOPEND 6: proof { lemma_relink_step(snap6.sib_s(), b6, self.sib_s(), hb_l, vx_k as int, hb); }
//@AFTER 6: proof { lemma_relinked_two(snap5.sib_s(), snap6.sib_s(), self.sib_s(), ha_l, hb_l); }
//@BEFORE 7: let ghost snap7 = *self; proof { lemma_ghs(ghs, ges); lemma_thread_start(m, self.next_s(), ghs); }
//@LOOP 7 (prev, next): invariant *self == (SurfaceMesh { core_data: MeshCoreData { he_next_arr: self.core_data.he_next_arr, ..snap7.core_data }, ..snap7 }), self.next_s().len() == n1, n1 < INVALID_IND, gn == m.nh(), n1 == gn + ghs.len(),
//@        vx_over@ == ghs, ghs.no_duplicates(), forall|i: int| 0 <= i < ghs.len() ==> (#[trigger] ghs[i]).0 < m.nh(), threaded(m, self.next_s(), ghs, vx_k as int),
//@        new_halfedges@.len() == ghs.len(), forall|i: int| 0 <= i < ghs.len() ==> (#[trigger] new_halfedges@[i]).0 == gn + i,
//@LOOPSTART 7: let ghost b7 = self.next_s(); proof { assert(ghs[vx_k as int].0 < gn); assert(new_halfedges@[vx_k as int].0 == gn + vx_k); }
//@LOOPEND 7: proof { lemma_thread(m, b7, self.next_s(), ghs, vx_k as int); }
//@BEFORE 8: let ghost snap8 = *self;
//@LOOP 8 (he): invariant *self == (SurfaceMesh { he_edge_arr: self.he_edge_arr, ..snap8 }), self.he_edge_arr@.len() == n1, snap8.he_edge_arr@.len() == n1, idv(vx_over@) == ha_l, listable(ha_l, n1),
//@        labelled(snap8.he_edge_arr@, self.he_edge_arr@, ha_l, vx_k as int, eid),
//@LOOPSTART 8: let ghost b8 = self.he_edge_arr@; proof { assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(ha_l[vx_k as int] < n1); }
//@LOOPEND 8: proof { lemma_label(snap8.he_edge_arr@, b8, self.he_edge_arr@, ha_l, vx_k as int, eid); }
//@BEFORE 9: let ghost snap9 = *self;
//@LOOP 9 (he): invariant *self == (SurfaceMesh { he_edge_arr: self.he_edge_arr, ..snap9 }), self.he_edge_arr@.len() == n1, snap9.he_edge_arr@.len() == n1, idv(vx_over@) == hb_l, listable(hb_l, n1),
//@        labelled(snap9.he_edge_arr@, self.he_edge_arr@, hb_l, vx_k as int, new_e),
//@LOOPSTART 9: let ghost b9 = self.he_edge_arr@; proof { assert(idv(vx_over@)[vx_k as int] == vx_over@[vx_k as int].0); assert(hb_l[vx_k as int] < n1); }
//@LOOPEND 9: proof { lemma_label(snap9.he_edge_arr@, b9, self.he_edge_arr@, hb_l, vx_k as int, new_e); }
//@AFTER 9: proof { lemma_labelled(snap8.he_edge_arr@, snap9.he_edge_arr@, self.he_edge_arr@, ha_l, hb_l, eid, new_e); }
//@BEFORE 10: let ghost snap10 = *self;
//@LOOP 10 (old_he, new_he): invariant *self == (SurfaceMesh { he_face_arr: self.he_face_arr, ..snap10 }), gn == m.nh(), n1 == gn + ghs.len(), ges.len() == ghs.len(), vx_over@ == ghs, idv(ghs) == ges,
//@        forall|i: int| 0 <= i < ges.len() ==> 0 <= #[trigger] ges[i] < gn, faced(m, self.he_face_arr@, ges, vx_k as int),
//@        new_halfedges@.len() == ghs.len(), forall|i: int| 0 <= i < ghs.len() ==> (#[trigger] new_halfedges@[i]).0 == gn + i,
//@LOOPSTART 10: proof { assert(idv(ghs)[vx_k as int] == ghs[vx_k as int].0); assert(ges[vx_k as int] < gn); assert(new_halfedges@[vx_k as int].0 == gn + vx_k); }
//@END: proof { assert(split_arrays(m, *self, e, ghs)); lemma_split(m, *self, e, ghs); }
//@ENDFN
}
proof fn lemma_inb(m: SurfaceMesh, v: int)
    requires m.wf(), 0 <= v < m.nv(), m.vh(v) != INVALID_IND,
    ensures forall|i: int| 0 <= i < inlist(m, v).len() ==> 0 <= #[trigger] inlist(m, v)[i] <= usize::MAX,
{
    lemma_inlist(m, v);
    assert forall|i: int| 0 <= i < inlist(m, v).len() implies 0 <= #[trigger] inlist(m, v)[i] <= usize::MAX by { assert(inlist(m, v).contains(inlist(m, v)[i])); }
}
proof fn lemma_ghs(hs: Seq<HalfedgeId>, es: Seq<int>)
    requires idv(hs) == es, es.no_duplicates(),
    ensures hs.no_duplicates(), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).0 == es[i], hs.len() == es.len(),
{
    assert forall|i: int| 0 <= i < hs.len() implies (#[trigger] hs[i]).0 == es[i] by { assert(idv(hs)[i] == hs[i].0); }
    assert forall|i: int, j: int| 0 <= i < hs.len() && 0 <= j < hs.len() && i != j implies hs[i] != hs[j] by { assert(es[i] != es[j]); }
}
fn main() {}
}
