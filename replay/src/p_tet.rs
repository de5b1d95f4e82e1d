//! tetrahedralize against exact integer geometry.
use crate::ctx::{Ctx, Rng};
use gpf::triangle::{tetrahedralize, TetMesh, TriFace};
use std::collections::{BTreeMap, BTreeSet};

type P = [i64; 3];
fn sub(a: P, b: P) -> [i128; 3] {
    [(a[0] - b[0]) as i128, (a[1] - b[1]) as i128, (a[2] - b[2]) as i128]
}
fn det3(u: [i128; 3], v: [i128; 3], w: [i128; 3]) -> i128 {
    u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])
}
/// > 0 when d is on the side of the right-handed normal of abc
fn orient(a: P, b: P, c: P, d: P) -> i128 {
    det3(sub(b, a), sub(c, a), sub(d, a))
}
/// > 0 when e is strictly inside the sphere of the tet with orient(a,b,c,d) > 0
fn insphere(a: P, b: P, c: P, d: P, e: P) -> i128 {
    let s = |p: P| {
        let v = sub(p, e);
        (v, v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    };
    let (a, b, c, d) = (s(a), s(b), s(c), s(d));
    // det of rows (v, |v|^2), expanded along the last column
    -(-a.1 * det3(b.0, c.0, d.0) + b.1 * det3(a.0, c.0, d.0) - c.1 * det3(a.0, b.0, d.0) + d.1 * det3(a.0, b.0, c.0))
}

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn gen_pts(r: &Rng) -> Vec<P> {
    let n = match r.below(12) {
        0 => 4,
        1 => 5,
        2 => 6 + r.below(4),
        3..=9 => 8 + r.below(25),
        10 => 60 + r.below(80),
        _ => 64 + r.below(300),
    };
    let m = [1i64, 2, 4, 20, 1000, 1 << 20][r.below(6)];
    let style = r.below(8);
    let mut s: BTreeSet<P> = BTreeSet::new();
    for i in 0..3 * n {
        if s.len() >= n {
            break;
        }
        let p = match style {
            0 | 1 => [r.range(-m, m), r.range(-m, m), r.range(-m, m)],
            2 => [r.range(0, 3), r.range(0, 3), r.range(0, 3)],
            3 => {
                // cospherical integer points: permutations and signs of (2,3,6) and (7,0,0)
                let b = if i % 5 == 0 { [7, 0, 0] } else { [2, 3, 6] };
                let mut q = b;
                r.shuffle(&mut q);
                for x in q.iter_mut() {
                    if r.bool() {
                        *x = -*x
                    }
                }
                q
            }
            4 => [r.range(-m, m), r.range(-m, m), if i % 3 == 0 { 1 } else { 0 }],
            5 => {
                let k = r.range(-5, 5);
                match i % 3 {
                    0 => [k, 0, 0],
                    1 => [0, k, 5],
                    _ => [r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)],
                }
            }
            6 => [10 * r.range(-m, m), r.range(-2, 2), r.range(-m, m)],
            _ => {
                // on planes
                let q = [r.range(-4, 4), r.range(-4, 4)];
                match i % 3 {
                    0 => [q[0], q[1], 4],
                    1 => [q[0], 4, q[1]],
                    _ => [-4, q[0], q[1]],
                }
            }
        };
        s.insert(p);
    }
    let mut v: Vec<P> = s.into_iter().collect();
    r.shuffle(&mut v);
    v
}

/// Do the first four sorted points always give a tet of relative volume above the code's own 1e-6?
fn coplanar(p: &[P]) -> bool {
    let n = p.len();
    let j = match (1..n).find(|&j| p[j] != p[0]) {
        Some(j) => j,
        None => return true,
    };
    let cr = |q: P| {
        let (u, v) = (sub(p[j], p[0]), sub(q, p[0]));
        [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    };
    let k = match (1..n).find(|&k| cr(p[k]) != [0; 3]) {
        Some(k) => k,
        None => return true,
    };
    (0..n).all(|i| orient(p[0], p[j], p[k], p[i]) == 0)
}

fn hull2_area(mut q: Vec<(i128, i128)>) -> i128 {
    q.sort();
    q.dedup();
    let o = |a: (i128, i128), b: (i128, i128), c: (i128, i128)| (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
    let half = |it: &mut dyn Iterator<Item = (i128, i128)>| {
        let mut h: Vec<(i128, i128)> = vec![];
        for p in it {
            while h.len() >= 2 && o(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h
    };
    let mut l = half(&mut q.iter().cloned());
    l.pop();
    l.extend(half(&mut q.iter().rev().cloned()));
    l.pop();
    (0..l.len()).map(|i| l[i].0 * l[(i + 1) % l.len()].1 - l[i].1 * l[(i + 1) % l.len()].0).sum()
}

pub fn check_mesh(p: &[P], m: &mut TetMesh, cov: &mut BTreeMap<String, u64>) -> Result<(), String> {
    let n = p.len();
    let nt = m.tets.len();
    need!(nt > 0, "no tetrahedra for points that span space");
    let mut used = vec![false; n];
    let mut inc: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut ghosts = vec![];
    for t in 0..nt {
        let d = m.tets[t].data;
        need!((0..4).all(|i| (0..i).all(|j| d[i] != d[j])) && d.iter().all(|&v| v <= n), "tet {t} has vertices {d:?}");
        let g = d.iter().filter(|&&v| v == n).count();
        need!(g == m.is_hull_tet(t) as usize, "tet {t} {d:?}: the ghost vertex is not in last place");
        if g == 0 {
            need!(orient(p[d[0]], p[d[1]], p[d[2]], p[d[3]]) > 0, "tet {t} {d:?} is inverted or flat");
            for v in d {
                used[v] = true;
                inc[v].insert(t);
            }
        } else {
            ghosts.push(t);
        }
        // neighbour i is behind the face opposite to vertex i
        for i in 0..4 {
            let nt_ = m.tets[t].nei[i].tet;
            let nv = m.tets[t].nei[i].ver;
            need!(nt_ < nt && nv < 12, "tet {t} {d:?}: neighbour {i} is ({nt_}, {nv}) of {nt} tets");
            let f: BTreeSet<usize> = (0..4).filter(|&j| j != i).map(|j| d[j]).collect();
            let e = m.tets[nt_].data;
            let h: BTreeSet<usize> = (0..4).filter(|&j| j != nv & 3).map(|j| e[j]).collect();
            need!(f == h, "tet {t} {d:?}: neighbour {i} {e:?} at face {} does not share that face", nv & 3);
            need!(m.tets[nt_].nei[nv & 3].tet == t, "neighbour link of tet {t} face {i} is not symmetric");
            // directed edge conventions: from every version of this face, fsym goes to the same edge reversed
            for v in [i, i + 4, i + 8] {
                let a = TriFace::new(t, v);
                let mut b = TriFace::default();
                m.fsym(&a, &mut b);
                need!(b.tet == nt_ && m.org(&a) == m.dest(&b) && m.dest(&a) == m.org(&b) && m.apex(&a) == m.apex(&b), "fsym from tet {t} version {v} reaches a different edge");
                let mut c = a.clone();
                m.fnext_self(&mut c);
                need!(m.org(&a) == m.org(&c) && m.dest(&a) == m.dest(&c) && m.oppo(&a) == m.apex(&c), "fnext from tet {t} version {v} leaves the edge");
            }
            if g == 0 && !m.is_hull_tet(nt_) {
                let q = e[nv & 3];
                let s = insphere(p[d[0]], p[d[1]], p[d[2]], p[d[3]], p[q]);
                need!(s <= 0, "vertex {q} lies inside the circumsphere of tet {t} {d:?}");
                if s == 0 {
                    *cov.entry("cospherical neighbours".into()).or_insert(0) += 1;
                }
            }
        }
    }
    for i in 0..n {
        need!(used[i], "point {i} {:?} is in no tetrahedron", p[i]);
    }
    // hull
    let mut up = 0i128;
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for &t in &ghosts {
        let d = m.tets[t].data;
        let (a, b, c) = (p[d[0]], p[d[1]], p[d[2]]);
        for q in p {
            need!(orient(a, b, c, *q) <= 0, "hull face {:?} has point {q:?} on its outer side", &d[..3]);
        }
        for (x, y) in [(d[0], d[1]), (d[1], d[2]), (d[2], d[0])] {
            need!(edges.insert((x, y)), "hull edge {:?} lies on two hull faces", (x, y));
        }
        let z = (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128;
        up += z.max(0);
    }
    need!(edges.iter().all(|e| edges.contains(&(e.1, e.0))), "the hull surface is not closed");
    let want = hull2_area(p.iter().map(|q| (q[0] as i128, q[1] as i128)).collect());
    need!(up == want, "hull covers projected area {up}, expected {want}");
    for i in 0..n {
        let t = m.p2t[i];
        need!(t < nt && inc[i].contains(&t), "p2t[{i}] = {t} does not contain the point");
    }
    for i in (0..n).step_by(1 + n / 40) {
        let l: Vec<usize> = m.incident(i, std::alloc::Global);
        need!(l.len() == inc[i].len() && l.iter().cloned().collect::<BTreeSet<_>>() == inc[i], "incident({i}) gives {l:?}, expected {:?}", inc[i]);
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    for k in 0..4 {
        // a large cavity: a sphere with points near its centre
        c.case(
            |r| {
                let mut s = BTreeSet::new();
                while s.len() < 1800 {
                    let v = [r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5];
                    let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                    if l > 0.05 && l < 0.5 {
                        s.insert([0, 1, 2].map(|i| (v[i] / l * 1e6).round() as i64));
                    }
                }
                for i in 0..3 {
                    s.insert([i * 7 - 3, k * 5, 2 - i]);
                }
                let mut v: Vec<P> = s.into_iter().collect();
                r.shuffle(&mut v);
                v
            },
            |p| format!("tetrahedralize({} points: 1800 on a sphere of radius 1e6, three near its centre)", p.len()),
            |p, cov| {
                let f: Vec<f64> = p.iter().flatten().map(|&x| x as f64).collect();
                for _ in 0..3 {
                    let mut m = tetrahedralize(&f);
                    check_mesh(p, &mut m, cov)?;
                }
                *cov.entry("large cavities".into()).or_insert(0) += 1;
                Ok(())
            },
        );
        if c.frac_used() > 0.6 {
            break;
        }
    }
    while c.time_left() {
        c.case(
            |r| {
                let p = gen_pts(r);
                let d = if r.below(8) == 0 { 1 + r.below(3) } else { 0 };
                (p, [0, 0, -40, 30][r.below(4)], d)
            },
            |(p, k, d)| format!("tetrahedralize({p:?} scaled by 2^{k}; {d} points repeated) (the code shuffles its input: the case repeats it 4 times)"),
            |(p, k, dup), cov| {
                let sc = 2f64.powi(*k);
                let mut f: Vec<f64> = p.iter().flatten().map(|&x| x as f64 * sc).collect();
                for i in 0..*dup {
                    let q = (i * 7) % p.len();
                    let v = [f[3 * q], f[3 * q + 1], f[3 * q + 2]];
                    f.extend(v);
                }
                if coplanar(p) || p.len() < 4 {
                    return Ok(());
                }
                for _ in 0..4 {
                    let mut m = tetrahedralize(&f);
                    if *dup > 0 {
                        if m.tets.is_empty() {
                            continue;
                        }
                        // a repeated point stands for one vertex: renumber
                        let n2 = f.len() / 3;
                        let rep: Vec<usize> = (0..n2).map(|i| if i < p.len() { i } else { ((i - p.len()) * 7) % p.len() }).collect();
                        let mut taken: Vec<Option<usize>> = vec![None; p.len()];
                        for t in &m.tets {
                            for &v in &t.data {
                                if v < n2 {
                                    let r = rep[v];
                                    need!(taken[r].is_none() || taken[r] == Some(v), "coincident points {v} and {:?} are both vertices", taken[r]);
                                    taken[r] = Some(v);
                                }
                            }
                        }
                        need!(taken.iter().all(|t| t.is_some()), "point missing from the tetrahedralization of a set with repeated points");
                        *cov.entry("repeated points".into()).or_insert(0) += 1;
                        continue;
                    }
                    if m.tets.is_empty() && near_flat(p) {
                        *cov.entry("nearly flat, no answer".into()).or_insert(0) += 1;
                        continue;
                    }
                    check_mesh(p, &mut m, cov)?;
                    *cov.entry("tetrahedralizations".into()).or_insert(0) += 1;
                }
                Ok(())
            },
        );
    }
}

/// The code gives no tetrahedra when the four points it starts from span less than 1e-6 of the
/// bounding box (documented assumption of the property): is such a start possible here?
fn near_flat(p: &[P]) -> bool {
    let mut lo = p[0];
    let mut hi = p[0];
    for q in p {
        for i in 0..3 {
            lo[i] = lo[i].min(q[i]);
            hi[i] = hi[i].max(q[i]);
        }
    }
    let s = sub(hi, lo);
    let b = ((s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) as f64).sqrt();
    let n = p.len();
    // smallest nonzero edge / triangle / volume ratio over all choices is above the threshold?
    if n > 40 {
        return true;
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                let (u, v) = (sub(p[j], p[i]), sub(p[k], p[i]));
                let c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
                let l = ((c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) as f64).sqrt();
                if l > 0.0 && l / (b * b) < 1e-5 {
                    return true;
                }
                if l > 0.0 && !(0..n).any(|q| (det3(u, v, sub(p[q], p[i])) as f64).abs() / (b * b * b) > 1e-5) {
                    return true;
                }
            }
        }
    }
    false
}
