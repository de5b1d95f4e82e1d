//! remove_duplicates and the mesh-fixing pipeline, end to end.
use crate::ctx::{Ctx, Rng};
use gpf::polygonlization::{make_mesh_for_triangles, make_polyhedral_mesh, remove_duplicates};
use std::collections::{BTreeMap, BTreeSet};

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn run_dedup(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| {
                let eps = match r.below(4) {
                    0 => 1e-6,
                    1 => 2f64.powi(r.range(-20, 5) as i32),
                    2 => 10f64.powi(r.range(-8, 1) as i32),
                    _ => 0.3 * (1.0 + r.unit()),
                };
                let n = r.below(13);
                let m = [1i64, 3, 100, 1 << 30][r.below(4)];
                let mut v: Vec<f64> = vec![];
                for i in 0..n {
                    if i > 0 && r.below(3) > 0 {
                        let j = r.below(i);
                        let k = r.below(3);
                        for q in 0..3 {
                            let d = if q == k { eps * (r.unit() - 0.5) * [0.0, 1e-3, 0.6, 2.0][r.below(4)] } else { 0.0 };
                            let b = v[3 * j + q];
                            v.push(b + d);
                        }
                    } else {
                        for _ in 0..3 {
                            v.push(match r.below(3) {
                                0 => r.range(-m, m) as f64,
                                1 => r.range(-m, m) as f64 * eps * 0.5,
                                _ => (r.unit() - 0.5) * eps * 8.0,
                            });
                        }
                    }
                }
                (v, eps)
            },
            |(v, e)| format!("remove_duplicates({v:?}, {e:e})"),
            |(v, eps), cov| {
                let (out, map) = remove_duplicates(v, *eps);
                let n = v.len() / 3;
                need!(out.len() % 3 == 0 && map.len() == n, "{} coordinates out, map of length {} for {n} points", out.len(), map.len());
                let m = out.len() / 3;
                let key = |i: usize| [0, 1, 2].map(|k| (out[3 * i + k] + 0.0).to_bits());
                let set: BTreeSet<[u64; 3]> = (0..m).map(key).collect();
                need!(set.len() == m, "two output points are equal: {out:?}");
                let mut hit = vec![false; m];
                for i in 0..n {
                    need!(map[i] < m, "map[{i}] = {} of {m} points", map[i]);
                    hit[map[i]] = true;
                    for k in 0..3 {
                        let d = (v[3 * i + k] - out[3 * map[i] + k]).abs();
                        need!(d <= 0.5 * *eps, "point {i} moved by {d} (eps {eps})");
                    }
                    for j in 0..i {
                        if (0..3).all(|k| v[3 * i + k] == v[3 * j + k]) {
                            need!(map[i] == map[j], "equal points {j} and {i} are kept apart");
                        }
                        if (0..3).any(|k| (v[3 * i + k] - v[3 * j + k]).abs() > *eps) {
                            need!(map[i] != map[j], "points {j} and {i} further than eps apart are merged");
                        }
                    }
                }
                need!(hit.iter().all(|&h| h), "an output point has no source");
                // a second pass changes nothing
                let (out2, _) = remove_duplicates(&out, *eps);
                need!(out2.len() == out.len(), "a second pass merges more points");
                *cov.entry("point sets".into()).or_insert(0) += 1;
                if m < n {
                    *cov.entry("with merged points".into()).or_insert(0) += 1;
                }
                Ok(())
            },
        );
    }
}

type V3 = [f64; 3];

/// A convex solid given by its points and outward triangles
#[derive(Clone, Debug)]
struct Solid {
    pts: Vec<V3>,
    tris: Vec<[usize; 3]>,
}
fn bx(lo: [i64; 3], hi: [i64; 3]) -> Solid {
    let pts = (0..8)
        .map(|i| [0, 1, 2].map(|k| if i >> k & 1 == 1 { hi[k] as f64 } else { lo[k] as f64 }))
        .collect();
    let q = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
    Solid { pts, tris: q.iter().flat_map(|f| [[f[0], f[1], f[2]], [f[0], f[2], f[3]]]).collect() }
}
fn det(a: V3, b: V3, c: V3) -> f64 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
fn vsub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn tet(p: [[i64; 3]; 4]) -> Option<Solid> {
    let mut q: Vec<V3> = p.iter().map(|v| v.map(|x| x as f64)).collect();
    let d = det(vsub(q[1], q[0]), vsub(q[2], q[0]), vsub(q[3], q[0]));
    if d == 0.0 {
        return None;
    }
    if d < 0.0 {
        q.swap(0, 1);
    }
    Some(Solid { pts: q, tris: vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]] })
}
type P4 = [i128; 4];
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// n.x <= d with coprime integers
fn plane(n: [i128; 3], d: i128) -> P4 {
    let g = [n[0], n[1], n[2], d].iter().fold(0, |a, &b| gcd(a, b));
    [n[0] / g, n[1] / g, n[2] / g, d / g]
}
fn det3(a: [i128; 3], b: [i128; 3], c: [i128; 3]) -> i128 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
/// common point of three planes, homogeneous with positive weight
fn meet(a: P4, b: P4, c: P4) -> P4 {
    let col = |k: usize| [a, b, c].map(|p| p[k]);
    let (x, y, z, d) = (col(0), col(1), col(2), col(3));
    let w = det3(x, y, z);
    let s = w.signum();
    [det3(d, y, z) * s, det3(x, d, z) * s, det3(x, y, d) * s, w * s]
}
impl Solid {
    fn planes(&self) -> Vec<P4> {
        let q: Vec<[i128; 3]> = self.pts.iter().map(|p| p.map(|x| x as i128)).collect();
        self.tris
            .iter()
            .map(|t| {
                let (a, b, c) = (q[t[0]], q[t[1]], q[t[2]]);
                let u = [0, 1, 2].map(|k| b[k] - a[k]);
                let v = [0, 1, 2].map(|k| c[k] - a[k]);
                let n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
                plane(n, n[0] * a[0] + n[1] * a[1] + n[2] * a[2])
            })
            .collect()
    }
}
/// volume of the intersection of convex solids: every plane's polygon clipped against all others,
/// with exact combinatorics (homogeneous integer vertices)
fn inter_volume(s: &[&Solid]) -> f64 {
    let mut all: Vec<P4> = s.iter().flat_map(|q| q.planes()).collect();
    all.sort();
    all.dedup();
    let mut vol = 0.0;
    for (i, &n) in all.iter().enumerate() {
        let k = (0..3).max_by_key(|&a| n[a].abs()).unwrap();
        let (a, b) = ((k + 1) % 3, (k + 2) % 3);
        let side = |c: usize, sg: i128| {
            let mut p = [0; 4];
            p[c] = sg;
            p[3] = 1000;
            p
        };
        let mut bounds = [side(b, -1), side(a, 1), side(b, 1), side(a, -1)];
        if n[k] < 0 {
            bounds.reverse();
        }
        // (vertex, plane of the edge that leaves it)
        let mut poly: Vec<(P4, P4)> = (0..4).map(|t| (meet(n, bounds[(t + 3) % 4], bounds[t]), bounds[t])).collect();
        for (j, &m) in all.iter().enumerate() {
            if i == j {
                continue;
            }
            let f = |p: &P4| (m[0] * p[0] + m[1] * p[1] + m[2] * p[2] - m[3] * p[3]).signum();
            let mut out = vec![];
            for t in 0..poly.len() {
                let (p, e) = poly[t];
                let q = poly[(t + 1) % poly.len()].0;
                let (fp, fq) = (f(&p), f(&q));
                if fp <= 0 {
                    out.push((p, if fp == 0 && fq > 0 { m } else { e }));
                }
                if fp * fq < 0 {
                    out.push((meet(n, e, m), if fp < 0 { m } else { e }));
                }
            }
            poly = out;
            if poly.len() < 3 {
                poly.clear();
                break;
            }
        }
        let v: Vec<V3> = poly.iter().map(|(p, _)| [0, 1, 2].map(|c| p[c] as f64 / p[3] as f64)).collect();
        for t in 1..v.len().max(1) - 1 {
            vol += det(v[0], v[t], v[t + 1]) / 6.0;
        }
    }
    vol.max(0.0)
}
fn union_volume(s: &[Solid]) -> f64 {
    let n = s.len();
    let mut v = 0.0;
    for mask in 1u32..1 << n {
        let sel: Vec<&Solid> = (0..n).filter(|&i| mask >> i & 1 == 1).map(|i| &s[i]).collect();
        let x = inter_volume(&sel);
        v += if mask.count_ones() % 2 == 1 { x } else { -x };
    }
    v
}

fn check_closed(p: &[f64], t: &[usize]) -> Result<f64, String> {
    need!(t.len() % 3 == 0, "triangle list length {}", t.len());
    let mut e: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    let q = |i: usize| [p[3 * i], p[3 * i + 1], p[3 * i + 2]];
    let mut vol = 0.0;
    for x in t.chunks(3) {
        need!(x.iter().all(|&v| 3 * v + 2 < p.len()), "triangle {x:?} out of range");
        need!(x[0] != x[1] && x[1] != x[2] && x[2] != x[0], "degenerate triangle {x:?}");
        for k in 0..3 {
            let (a, b) = (x[k], x[(k + 1) % 3]);
            *e.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
        }
        vol += det(q(x[0]), q(x[1]), q(x[2])) / 6.0;
    }
    for (k, v) in &e {
        need!(*v == 0, "edge {k:?} of the output surface is not matched (excess {v}): the surface is not closed");
    }
    Ok(vol)
}

fn gen_solids(r: &Rng) -> Vec<Solid> {
    let n = 1 + r.below(3);
    let m = 3;
    let style = r.below(3);
    let mut v = vec![];
    while v.len() < n {
        if style == 0 || (style == 2 && r.bool()) {
            let lo = [0, 1, 2].map(|_| r.range(-m, m - 1));
            let hi = lo.map(|x| x + r.range(1, 3));
            v.push(bx(lo, hi));
        } else {
            let p = [0, 1, 2, 3].map(|_| [0, 1, 2].map(|_| r.range(-4, 4)));
            if let Some(t) = tet(p) {
                v.push(t);
            }
        }
    }
    v
}

pub fn run_poly(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| (gen_solids(r), r.below(3)),
            |(s, _)| format!("make_mesh_for_triangles of {} closed convex shells {:?}", s.len(), s),
            |(s, _), cov| {
                let mut pts = vec![];
                let mut tris = vec![];
                let mut shell = vec![];
                for (i, q) in s.iter().enumerate() {
                    let b = pts.len() / 3;
                    pts.extend(q.pts.iter().flatten());
                    for t in &q.tris {
                        tris.extend(t.map(|v| v + b));
                        shell.push(i);
                    }
                }
                let (p, t) = make_mesh_for_triangles(&pts, &tris, &shell);
                let vol = check_closed(&p, &t)?;
                let want = union_volume(s);
                need!((vol - want).abs() < 1e-6 * (1.0 + want), "the output encloses volume {vol}, the union of the shells has {want}");
                *cov.entry(format!("{} shells", s.len())).or_insert(0) += 1;
                Ok(())
            },
        );
    }
}

#[allow(dead_code)]
fn _unused() {
    let _ = make_polyhedral_mesh;
}
