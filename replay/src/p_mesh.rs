//! SurfaceMesh against an independent model: faces as cycles of (tail vertex, edge label).
use crate::ctx::{Ctx, Rng};
use gpf::mesh::{EdgeId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
struct Model {
    nv: usize,
    ne: usize,
    used: Vec<bool>,
    faces: Vec<Vec<(usize, usize)>>, // (tail vertex, abstract edge)
}

impl Model {
    fn new(polys: &[Vec<usize>]) -> Self {
        let nv = polys.iter().flatten().max().unwrap() + 1;
        let mut used = vec![false; nv];
        let mut ids: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut faces = vec![];
        for p in polys {
            let mut f = vec![];
            for i in 0..p.len() {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                used[a] = true;
                let k = ids.len();
                let e = *ids.entry((a.min(b), a.max(b))).or_insert(k);
                f.push((a, e));
            }
            faces.push(f);
        }
        Model { nv, ne: ids.len(), used, faces }
    }
}

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
// claims about the iterators and circulators (P13); everything else is about the links themselves (P12)
macro_rules! needi {
    ($it:expr, $c:expr, $($t:tt)*) => { if $it && !$c { return Err(format!("{ITER}{}", format!($($t)*))); } };
}
const ITER: &str = "traversal: ";

fn cyc<F: Fn(HalfedgeId) -> HalfedgeId>(s: HalfedgeId, f: F, cap: usize) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    let mut c = s;
    loop {
        need!(c.0 < cap, "halfedge index {} out of range", c.0);
        v.push(c.0);
        need!(v.len() <= cap, "links from halfedge {} do not return to it", s.0);
        c = f(c);
        if c == s {
            return Ok(v);
        }
    }
}

/// Full comparison of the mesh with the model; returns face -> halfedges in model order and edge map.
fn compare(m: &SurfaceMesh, md: &Model, it_: bool) -> Result<(Vec<Vec<HalfedgeId>>, Vec<EdgeId>), String> {
    let nh: usize = md.faces.iter().map(|f| f.len()).sum();
    let l: Vec<usize> = m.vertices().take(md.nv + 1).map(|v| (*v).0).collect();
    needi!(it_, l == (0..md.nv).filter(|&v| md.used[v]).collect::<Vec<_>>(), "vertices() gives {l:?}");
    let l: Vec<usize> = m.halfedges().take(nh + 1).map(|v| (*v).0).collect();
    needi!(it_, l == (0..nh).collect::<Vec<_>>(), "halfedges() gives {l:?}");
    let l: Vec<usize> = m.edges().take(md.ne + 1).map(|v| (*v).0).collect();
    needi!(it_, l == (0..md.ne).collect::<Vec<_>>(), "edges() gives {l:?}");
    let l: Vec<usize> = m.faces().take(md.faces.len() + 1).map(|v| (*v).0).collect();
    needi!(it_, l == (0..md.faces.len()).collect::<Vec<_>>(), "faces() gives {l:?}");
    need!(m.n_vertices() == md.nv && m.n_vertices_capacity() == md.nv, "n_vertices {} expected {}", m.n_vertices(), md.nv);
    need!(m.n_faces() == md.faces.len() && m.n_faces_capacity() == md.faces.len(), "n_faces {} expected {}", m.n_faces(), md.faces.len());
    need!(m.n_halfedges() == nh && m.n_halfedges_capacity() == nh, "n_halfedges {} expected {}", m.n_halfedges(), nh);
    need!(m.n_edges() == md.ne && m.n_edges_capacity() == md.ne, "n_edges {} expected {}", m.n_edges(), md.ne);
    let mut seen = vec![false; nh];
    let mut tail = vec![usize::MAX; nh];
    let mut tip = vec![usize::MAX; nh];
    let mut fhs = vec![];
    let mut emap = vec![usize::MAX; md.ne];
    let mut eback = vec![usize::MAX; md.ne];
    for (fi, f) in md.faces.iter().enumerate() {
        let c = cyc(m.f_halfedge(FaceId(fi)), |h| m.he_next(h), nh)?;
        need!(c.len() == f.len(), "face {fi} has {} halfedges, expected {}", c.len(), f.len());
        let n = c.len();
        let vs: Vec<usize> = c.iter().map(|&h| m.he_vertex(HalfedgeId(h)).0).collect();
        // rotation
        let r = (0..n).find(|&r| (0..n).all(|i| f[(i + r) % n].0 == vs[i]));
        let r = match r {
            Some(r) => r,
            None => return Err(format!("face {fi} runs through {vs:?}, expected a rotation of {:?}", f.iter().map(|x| x.0).collect::<Vec<_>>())),
        };
        let mut order = vec![HalfedgeId(0); n];
        for i in 0..n {
            let h = HalfedgeId(c[i]);
            let k = (i + r) % n;
            order[k] = h;
            need!(!seen[h.0], "halfedge {} lies in two faces", h.0);
            seen[h.0] = true;
            tail[h.0] = f[k].0;
            tip[h.0] = f[(k + 1) % n].0;
            need!(m.he_face(h).0 == fi, "he_face({}) = {} but it lies in face {fi}", h.0, m.he_face(h).0);
            need!(m.he_tip_vertex(h).0 == tip[h.0], "he_tip_vertex({}) wrong", h.0);
            need!(m.he_prev(h).0 == c[(i + n - 1) % n], "he_prev({}) wrong", h.0);
            let e = m.he_edge(h).0;
            need!(e < md.ne, "he_edge({}) out of range", h.0);
            let a = f[k].1;
            if emap[a] == usize::MAX && eback[e] == usize::MAX {
                emap[a] = e;
                eback[e] = a;
            }
            need!(emap[a] == e && eback[e] == a, "halfedge {} ({} -> {}) has edge {e}, its edge is shared with a different set of halfedges", h.0, tail[h.0], tip[h.0]);
        }
        let hs: Vec<usize> = m.face(FaceId(fi)).halfedges().take(nh + 1).map(|h| (*h).0).collect();
        needi!(it_, hs == c, "face({fi}).halfedges() gives {hs:?}, the face has {c:?}");
        let fv: Vec<usize> = m.face(FaceId(fi)).vertices().take(nh + 1).map(|v| (*v).0).collect();
        needi!(it_, fv == vs, "face({fi}).vertices() gives {fv:?}, the face has {vs:?}");
        fhs.push(order);
    }
    need!(seen.iter().all(|&x| x), "a halfedge lies in no face");
    // edges
    for e in 0..md.ne {
        let eh = m.e_halfedge(EdgeId(e));
        need!(eh.valid_in(nh), "e_halfedge({e}) invalid");
        let c: BTreeSet<usize> = cyc(eh, |h| m.he_sibling(h), nh)?.into_iter().collect();
        let want: BTreeSet<usize> = (0..nh).filter(|&h| m.he_edge(HalfedgeId(h)).0 == e).collect();
        need!(c == want, "siblings of edge {e}: {c:?}, halfedges with that edge: {want:?}");
        let it: Vec<usize> = m.edge(EdgeId(e)).halfedges().take(nh + 1).map(|h| (*h).0).collect();
        needi!(it_, it.len() == want.len() && it.iter().cloned().collect::<BTreeSet<_>>() == want, "edge({e}).halfedges() gives {it:?}, expected {want:?}");
        let [va, vb] = m.e_vertices(EdgeId(e));
        need!(va.0 == tail[eh.0] && vb.0 == tip[eh.0], "e_vertices({e}) wrong");
        for &h in &want {
            let ok = (tail[h], tip[h]) == (va.0, vb.0) || (tail[h], tip[h]) == (vb.0, va.0);
            need!(ok, "halfedge {h} of edge {e} joins {} {} instead of {} {}", tail[h], tip[h], va.0, vb.0);
            need!(m.he_same_dir(HalfedgeId(h)) == (tail[h] == va.0), "he_same_dir({h}) wrong");
            let tw = m.he_twin(HalfedgeId(h)).0;
            let opp: Vec<usize> = want.iter().cloned().filter(|&g| tail[g] != tail[h]).collect();
            if opp.is_empty() {
                need!(tw == h, "he_twin({h}) = {tw} but nothing runs the other way");
            } else {
                need!(opp.contains(&tw), "he_twin({h}) = {tw} is not an opposite halfedge of its edge {opp:?}");
            }
        }
    }
    // vertices
    let mut out: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); md.nv];
    let mut inc = out.clone();
    for h in 0..nh {
        out[tail[h]].insert(h);
        inc[tip[h]].insert(h);
    }
    for v in 0..md.nv {
        let vid = VertexId(v);
        need!(m.vertex_is_valid(vid) == md.used[v], "vertex {v} valid = {}, used = {}", m.vertex_is_valid(vid), md.used[v]);
        if !md.used[v] {
            continue;
        }
        let vh = m.v_halfedge(vid);
        need!(vh.0 < nh && tail[vh.0] == v, "v_halfedge({v}) = {} does not start there", vh.0);
        let oc: BTreeSet<usize> = cyc(vh, |h| m.he_next_outgoing_neighbor(h), nh)?.into_iter().collect();
        need!(oc == out[v], "outgoing cycle of vertex {v}: {oc:?}, outgoing halfedges {:?}", out[v]);
        let ic: BTreeSet<usize> = cyc(m.he_prev(vh), |h| m.he_next_incoming_neighbor(h), nh)?.into_iter().collect();
        need!(ic == inc[v], "incoming cycle of vertex {v}: {ic:?}, incoming halfedges {:?}", inc[v]);
        let io: Vec<usize> = m.vertex(vid).outgoing_halfedges().take(nh + 1).map(|h| (*h).0).collect();
        needi!(it_, io.len() == out[v].len() && io.iter().cloned().collect::<BTreeSet<_>>() == out[v], "outgoing_halfedges of {v}: {io:?} expected {:?}", out[v]);
        let ii: Vec<usize> = m.vertex(vid).incoming_halfedges().take(nh + 1).map(|h| (*h).0).collect();
        needi!(it_, ii.len() == inc[v].len() && ii.iter().cloned().collect::<BTreeSet<_>>() == inc[v], "incoming_halfedges of {v}: {ii:?} expected {:?}", inc[v]);
        let we: BTreeSet<usize> = out[v].iter().chain(&inc[v]).map(|&h| m.he_edge(HalfedgeId(h)).0).collect();
        let ge: Vec<usize> = m.vertex(vid).edges().take(2 * nh + 1).map(|e| (*e).0).collect();
        needi!(it_, ge.len() == we.len() && ge.iter().cloned().collect::<BTreeSet<_>>() == we, "edges() of vertex {v}: {ge:?} expected {we:?}");
        // one neighbour per incident edge
        let mut wv: Vec<usize> = we
            .iter()
            .map(|&e| {
                let h = m.e_halfedge(EdgeId(e)).0;
                if tail[h] == v { tip[h] } else { tail[h] }
            })
            .collect();
        wv.sort();
        let mut gv: Vec<usize> = m.vertex(vid).vertices().take(2 * nh + 1).map(|e| (*e).0).collect();
        gv.sort();
        needi!(it_, gv == wv, "vertices() of vertex {v}: {gv:?} expected {wv:?}");
        needi!(it_, tail[(*m.vertex(vid).out_halfedge()).0] == v && tip[(*m.vertex(vid).in_halfedge()).0] == v, "out_halfedge/in_halfedge of {v}");
    }
    Ok((fhs, emap.into_iter().map(EdgeId).collect()))
}

trait ValidIn {
    fn valid_in(&self, n: usize) -> bool;
}
impl ValidIn for HalfedgeId {
    fn valid_in(&self, n: usize) -> bool {
        self.0 < n
    }
}

fn gen_polys(r: &Rng) -> Vec<Vec<usize>> {
    match r.below(6) {
        0 => vec![vec![0, 1, 2], vec![0, 2, 3], vec![0, 3, 1], vec![1, 3, 2]],
        1 => vec![vec![0, 3, 2, 1], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]],
        2 => {
            // k faces around one edge with random directions
            let k = 1 + r.below(5);
            (0..k).map(|i| if r.bool() { vec![0, 1, 2 + i] } else { vec![1, 0, 2 + i] }).collect()
        }
        3 => {
            // grid
            let (w, h) = (1 + r.below(3), 1 + r.below(3));
            let mut f = vec![];
            for i in 0..w {
                for j in 0..h {
                    let (a, b, c, d) = (i * (h + 1) + j, (i + 1) * (h + 1) + j, (i + 1) * (h + 1) + j + 1, i * (h + 1) + j + 1);
                    if r.bool() {
                        f.push(vec![a, b, c, d]);
                    } else {
                        f.push(vec![a, b, c]);
                        f.push(vec![a, c, d]);
                    }
                    if r.below(5) == 0 {
                        f.last_mut().unwrap().reverse();
                    }
                }
            }
            f
        }
        _ => {
            let nv = 3 + r.below(8);
            let nf = 1 + r.below(8);
            (0..nf)
                .map(|_| {
                    let k = 3 + r.below((nv - 2).min(4));
                    let mut p: Vec<usize> = (0..nv).collect();
                    r.shuffle(&mut p);
                    p.truncate(k);
                    p
                })
                .collect()
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    SplitEdge(usize),
    SplitFace(usize, usize, usize),
    AddFace(usize, bool),
}

pub fn run(c: &mut Ctx, it_: bool) {
    while c.time_left() {
        c.case(
            |r| {
                let polys = gen_polys(r);
                let n = r.below(9);
                let ops: Vec<Op> = (0..n)
                    .map(|_| match r.below(5) {
                        0 | 1 => Op::SplitEdge(r.below(1 << 20)),
                        2 | 3 => Op::SplitFace(r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)),
                        _ => Op::AddFace(r.below(1 << 20), r.bool()),
                    })
                    .collect();
                (polys, ops)
            },
            |(p, o)| format!("SurfaceMesh::new({p:?}); edits {o:?} (numbers modulo what exists)"),
            |(polys, ops), cov| match check(polys, ops, cov, it_) {
                // a mesh that is not consistent is a matter of P12, not of the traversals
                Err(e) if it_ && !e.contains(ITER) => Ok(()),
                r => r,
            },
        );
    }
}

fn check(polys: &Vec<Vec<usize>>, ops: &Vec<Op>, cov: &mut BTreeMap<String, u64>, it_: bool) -> Result<(), String> {
    let mut m = SurfaceMesh::new(polys);
    let mut md = Model::new(polys);
    let bump = bumpalo::Bump::new();
    let (mut fhs, mut emap) = compare(&m, &md, it_).map_err(|e| format!("after new: {e}"))?;
    for (k, op) in ops.iter().enumerate() {
        match *op {
            Op::SplitEdge(x) => {
                let a = x % md.ne;
                let e = emap[a];
                let v = m.split_edge(e, &bump);
                let nv = md.nv;
                need!(v.0 == nv, "split_edge returned vertex {} expected {}", v.0, nv);
                // the part at the smaller abstract end keeps `a`, the other part is a new edge
                let mut key = None;
                let ne = md.ne;
                for f in md.faces.iter_mut() {
                    let n = f.len();
                    let mut g = vec![];
                    for i in 0..n {
                        let (t, el) = f[i];
                        if el == a {
                            let k0 = *key.get_or_insert(t);
                            if t == k0 {
                                g.push((t, a));
                                g.push((nv, ne));
                            } else {
                                g.push((t, ne));
                                g.push((nv, a));
                            }
                        } else {
                            g.push((t, el));
                        }
                    }
                    *f = g;
                }
                md.nv += 1;
                md.used.push(true);
                md.ne += 1;
                *cov.entry("split_edge".into()).or_insert(0) += 1;
            }
            Op::SplitFace(x, y, z) => {
                let f = x % md.faces.len();
                let cyc = md.faces[f].clone();
                let n = cyc.len();
                let i = y % n;
                let j = z % n;
                // vertices that occur once in the face and are not neighbours
                let d = (i + n - j) % n;
                let (vi, vj) = (cyc[i].0, cyc[j].0);
                let once = |v: usize| cyc.iter().filter(|q| q.0 == v).count() == 1;
                if d < 2 || d > n - 2 || !once(vi) || !once(vj) {
                    continue;
                }
                let h = m.split_face(FaceId(f), VertexId(vi), VertexId(vj), &bump);
                let part = |s: usize, t: usize| -> Vec<(usize, usize)> {
                    let mut g = vec![];
                    let mut q = s;
                    while q != t {
                        g.push(cyc[q]);
                        q = (q + 1) % n;
                    }
                    g.push((cyc[t].0, md.ne));
                    g
                };
                let (p1, p2) = (part(i, j), part(j, i));
                // the returned halfedge lies in the new face and joins the two vertices
                let nf = md.faces.len();
                need!(h.0 < m.n_halfedges_capacity() && m.he_face(h).0 == nf, "split_face returned a halfedge outside the new face");
                // new face is the part whose closing halfedge is h: it leaves from the last vertex
                let from = m.he_vertex(h).0;
                need!(from == vi || from == vj, "split_face returned a halfedge from vertex {from}");
                let (keep, new) = if from == vj { (p2, p1) } else { (p1, p2) };
                md.faces[f] = keep;
                md.faces.push(new);
                md.ne += 1;
                *cov.entry("split_face".into()).or_insert(0) += 1;
            }
            Op::AddFace(x, _) => {
                let f = x % md.faces.len();
                // a new face over the same halfedges as an existing face, or over a triangle of halfedges
                let mut hs = fhs[f].clone();
                let mut model = md.faces[f].clone();
                if let Some((h2, m2)) = other_cycle(&md, &fhs, x / md.faces.len()) {
                    hs = h2;
                    model = m2;
                }
                let nf = m.add_face_by_halfedges(&hs, &bump);
                need!(nf.0 == md.faces.len(), "add_face_by_halfedges returned face {}", nf.0);
                md.faces.push(model);
                *cov.entry("add_face".into()).or_insert(0) += 1;
            }
        }
        let (a, b) = compare(&m, &md, it_).map_err(|e| format!("after edit {k} {op:?}: {e}"))?;
        fhs = a;
        emap = b;
    }
    Ok(())
}

/// A closed walk of halfedges that is not a face: follow random outgoing halfedges to a repeat.
fn other_cycle(md: &Model, fhs: &Vec<Vec<HalfedgeId>>, seed: usize) -> Option<(Vec<HalfedgeId>, Vec<(usize, usize)>)> {
    let r = Rng::new(seed as u64);
    let mut out: BTreeMap<usize, Vec<(HalfedgeId, usize, usize)>> = BTreeMap::new();
    for (f, g) in md.faces.iter().enumerate() {
        for i in 0..g.len() {
            out.entry(g[i].0).or_default().push((fhs[f][i], g[i].1, g[(i + 1) % g.len()].0));
        }
    }
    let keys: Vec<usize> = out.keys().cloned().collect();
    let mut v = keys[r.below(keys.len())];
    let mut path: Vec<(HalfedgeId, usize, usize)> = vec![]; // (he, tail, edge)
    for _ in 0..20 {
        if let Some(p) = path.iter().position(|x| x.1 == v) {
            let cyc = &path[p..];
            if cyc.len() >= 3 {
                return Some((cyc.iter().map(|x| x.0).collect(), cyc.iter().map(|x| (x.1, x.2)).collect()));
            }
            return None;
        }
        let o = &out[&v];
        let (h, e, t) = o[r.below(o.len())];
        path.push((h, v, e));
        v = t;
    }
    None
}
