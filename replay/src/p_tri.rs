//! triangulate / triangulate_polygon / triangulate_polygon_soup against exact integer geometry.
use crate::ctx::{Ctx, Rng};
use gpf::triangle::{triangulate, triangulate_polygon, triangulate_polygon_soup};
use std::collections::{BTreeMap, BTreeSet};

type P = (i64, i64);

fn orient(a: P, b: P, c: P) -> i128 {
    let f = |x: i64| x as i128;
    (f(b.0) - f(a.0)) * (f(c.1) - f(a.1)) - (f(b.1) - f(a.1)) * (f(c.0) - f(a.0))
}
fn incirc(a: P, b: P, c: P, d: P) -> i128 {
    let r = |p: P| {
        let (x, y) = ((p.0 - d.0) as i128, (p.1 - d.1) as i128);
        (x, y, x * x + y * y)
    };
    let (a, b, c) = (r(a), r(b), r(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0)
}
fn between(a: P, b: P, p: P) -> bool {
    // p strictly inside segment ab
    orient(a, b, p) == 0 && p != a && p != b && {
        let d = |u: P, v: P| (u.0 - v.0) as i128 * (p.0 - v.0) as i128 + (u.1 - v.1) as i128 * (p.1 - v.1) as i128;
        d(a, b) > 0 && d(b, a) > 0
    }
}
fn cross_seg(a: P, b: P, c: P, d: P) -> bool {
    // any common point except shared end points
    if a == c || a == d || b == c || b == d {
        return between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b) || ((a, b) == (c, d)) || ((a, b) == (d, c));
    }
    let s = |x: i128| x.signum();
    if between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b) {
        return true;
    }
    s(orient(a, b, c)) * s(orient(a, b, d)) < 0 && s(orient(c, d, a)) * s(orient(c, d, b)) < 0
}
/// +1 inside, 0 on boundary, -1 outside for a set of oriented loops (even-odd)
fn locate(loops: &[Vec<P>], p: P) -> i32 {
    let mut inside = false;
    for l in loops {
        for i in 0..l.len() {
            let (a, b) = (l[i], l[(i + 1) % l.len()]);
            if p == a || between(a, b, p) {
                return 0;
            }
            if (a.1 > p.1) != (b.1 > p.1) {
                let o = orient(a, b, p);
                if (o > 0) == (b.1 > a.1) {
                    inside = !inside;
                }
            }
        }
    }
    if inside { 1 } else { -1 }
}
fn area2(l: &[P]) -> i128 {
    (0..l.len())
        .map(|i| {
            let (a, b) = (l[i], l[(i + 1) % l.len()]);
            a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
        })
        .sum()
}

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Check a triangle list: ccw, exact cover (its boundary is the given directed boundary, possibly
/// subdivided), every point of the closed domain used, every other edge locally Delaunay.
fn check_tris(pts: &[P], tris: &[usize], area: i128, boundary: &[(usize, usize)], constraints: &[(usize, usize)], in_domain: &dyn Fn(P) -> bool) -> Result<(), String> {
    need!(tris.len() % 3 == 0, "index list length {} not a multiple of 3", tris.len());
    let mut dir: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut sum = 0i128;
    let mut used = vec![false; pts.len()];
    for t in tris.chunks(3) {
        for &v in t {
            need!(v < pts.len(), "triangle {t:?} uses a vertex that does not exist");
            used[v] = true;
        }
        let o = orient(pts[t[0]], pts[t[1]], pts[t[2]]);
        need!(o > 0, "triangle {t:?} is not counter-clockwise");
        sum += o;
        for i in 0..3 {
            let k = (t[i], t[(i + 1) % 3]);
            need!(dir.insert(k, t[(i + 2) % 3]).is_none(), "directed edge {k:?} lies in two triangles");
        }
    }
    need!(sum == area, "triangles cover twice-area {sum}, the domain has {area}");
    for (i, &p) in pts.iter().enumerate() {
        need!(used[i] == in_domain(p), "point {i} {p:?} used: {}, lies in the domain: {}", used[i], in_domain(p));
    }
    // boundary after cancellation
    let mut bnd: BTreeSet<(usize, usize)> = dir.keys().filter(|k| !dir.contains_key(&(k.1, k.0))).cloned().collect();
    for &(a, b) in boundary {
        let mut on: Vec<usize> = (0..pts.len()).filter(|&i| between(pts[a], pts[b], pts[i])).collect();
        on.sort_by_key(|&i| (pts[i].0 - pts[a].0).abs() + (pts[i].1 - pts[a].1).abs());
        let mut c = a;
        for n in on.into_iter().chain([b]) {
            need!(bnd.remove(&(c, n)), "domain boundary edge {:?} is not a boundary edge of the triangulation", (c, n));
            c = n;
        }
    }
    need!(bnd.is_empty(), "boundary edges {bnd:?} of the triangulation are not on the domain boundary");
    let mut cons: BTreeSet<(usize, usize)> = BTreeSet::new();
    for &(a, b) in constraints {
        let mut on: Vec<usize> = (0..pts.len()).filter(|&i| between(pts[a], pts[b], pts[i])).collect();
        on.sort_by_key(|&i| (pts[i].0 - pts[a].0).abs() + (pts[i].1 - pts[a].1).abs());
        let mut c = a;
        for n in on.into_iter().chain([b]) {
            need!(dir.contains_key(&(c, n)) || dir.contains_key(&(n, c)), "segment part {:?} is not an edge of the triangulation", (c, n));
            cons.insert((c, n));
            cons.insert((n, c));
            c = n;
        }
    }
    for (&(a, b), &c) in &dir {
        if let Some(&d) = dir.get(&(b, a)) {
            if !cons.contains(&(a, b)) {
                need!(incirc(pts[a], pts[b], pts[c], pts[d]) <= 0, "edge {:?} is not locally Delaunay ({d} is inside the circle of {:?})", (a, b), (a, b, c));
            }
        }
    }
    Ok(())
}

fn gen_points(r: &Rng) -> Vec<P> {
    let m = [2i64, 4, 8, 30, 1000, 1 << 24][r.below(6)];
    let n = 3 + r.below(if m < 6 { 12 } else { 30 });
    let mut s: BTreeSet<P> = BTreeSet::new();
    let style = r.below(6);
    for i in 0..4 * n {
        if s.len() >= n {
            break;
        }
        let p = match style {
            0 => (r.range(0, m), r.range(0, m)),
            1 => (r.range(-m, m), r.range(-2, 2)),
            2 => {
                // many cocircular
                const C: [P; 12] = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)];
                let c = C[r.below(12)];
                let k = 1 + r.below(2) as i64;
                (c.0 * k, c.1 * k)
            }
            3 => {
                // near a line
                let t = r.range(-m, m);
                (t, 3 * t + r.range(0, 1))
            }
            4 => (r.range(-m, m), if i % 3 == 0 { 0 } else { r.range(-m, m) }),
            _ => (r.range(-m, m), r.range(-m, m)),
        };
        s.insert(p);
    }
    let mut v: Vec<P> = s.into_iter().collect();
    r.shuffle(&mut v);
    v
}

fn simple(l: &[P]) -> bool {
    let n = l.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        for j in i + 1..n {
            if l[i] == l[j] || cross_seg(l[i], l[(i + 1) % n], l[j], l[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

/// Simple polygon by uncrossing a random tour; may fail
fn gen_polygon(r: &Rng, n: usize, m: i64) -> Option<Vec<P>> {
    let mut s: BTreeSet<P> = BTreeSet::new();
    for _ in 0..3 * n {
        if s.len() < n {
            s.insert((r.range(-m, m), r.range(-m, m)));
        }
    }
    let mut l: Vec<P> = s.into_iter().collect();
    r.shuffle(&mut l);
    let n = l.len();
    for _ in 0..60 {
        let mut ch = false;
        for i in 0..n {
            for j in i + 2..n {
                let (a, b, c, d) = (l[i], l[i + 1], l[j], l[(j + 1) % n]);
                if (i != 0 || j != n - 1) && cross_seg(a, b, c, d) {
                    l[i + 1..=j].reverse();
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    if !simple(&l) {
        return None;
    }
    if area2(&l) < 0 {
        l.reverse();
    }
    Some(l)
}

#[derive(Clone, Debug)]
struct Dom {
    pts: Vec<P>,
    loops: Vec<Vec<usize>>,
    free: usize,
}

fn gen_dom(r: &Rng) -> Option<Dom> {
    let m = [6i64, 12, 40, 1000, 1 << 22][r.below(5)];
    let nn = 3 + r.below(12);
    let outer = gen_polygon(r, nn, m)?;
    let mut loops = vec![outer];
    for _ in 0..r.below(4) {
        // a small clockwise hole inside
        let c = (r.range(-m, m), r.range(-m, m));
        let w = 1 + r.range(0, (m / 4).max(1));
        let k = 3 + r.below(4);
        if let Some(h) = gen_polygon(r, k, w) {
            let mut h: Vec<P> = h.into_iter().map(|p| (p.0 + c.0, p.1 + c.1)).collect();
            h.reverse();
            let ok = h.iter().all(|&p| locate(&loops, p) == 1)
                && loops.iter().all(|l| {
                    (0..l.len()).all(|i| (0..h.len()).all(|j| !cross_seg(l[i], l[(i + 1) % l.len()], h[j], h[(j + 1) % h.len()])))
                })
                && loops[1..].iter().all(|l| l.iter().all(|&p| locate(&[h.clone()], p) == -1));
            if ok {
                loops.push(h);
            }
        }
    }
    let mut pts: Vec<P> = loops.iter().flatten().cloned().collect();
    let mut set: BTreeSet<P> = pts.iter().cloned().collect();
    if set.len() != pts.len() {
        return None;
    }
    let nb = pts.len();
    for _ in 0..r.below(6) {
        let p = (r.range(-m - 1, m + 1), r.range(-m - 1, m + 1));
        if set.insert(p) {
            pts.push(p);
        }
    }
    let mut idx = 0;
    let il: Vec<Vec<usize>> = loops
        .iter()
        .map(|l| {
            let v = (idx..idx + l.len()).collect();
            idx += l.len();
            v
        })
        .collect();
    // shuffle vertex numbering
    let mut perm: Vec<usize> = (0..pts.len()).collect();
    r.shuffle(&mut perm);
    let mut q = vec![(0, 0); pts.len()];
    for i in 0..pts.len() {
        q[perm[i]] = pts[i];
    }
    Some(Dom { free: pts.len() - nb, pts: q, loops: il.into_iter().map(|l| l.into_iter().map(|i| perm[i]).collect()).collect() })
}

fn flat(p: &[P], k: i32) -> Vec<f64> {
    let s = 2f64.powi(k);
    p.iter().flat_map(|p| [p.0 as f64 * s, p.1 as f64 * s]).collect()
}

fn hull_area_edges(pts: &[P]) -> (i128, Vec<(usize, usize)>) {
    let mut id: Vec<usize> = (0..pts.len()).collect();
    id.sort_by_key(|&i| pts[i]);
    let half = |it: Vec<usize>| {
        let mut h: Vec<usize> = vec![];
        for i in it {
            while h.len() >= 2 && orient(pts[h[h.len() - 2]], pts[h[h.len() - 1]], pts[i]) <= 0 {
                h.pop();
            }
            h.push(i);
        }
        h
    };
    let lo = half(id.clone());
    let hi = half(id.into_iter().rev().collect());
    let mut l = lo;
    l.pop();
    l.extend(hi);
    l.pop();
    let a: Vec<P> = l.iter().map(|&i| pts[i]).collect();
    (area2(&a), (0..l.len()).map(|i| (l[i], l[(i + 1) % l.len()])).collect())
}

pub fn run(c: &mut Ctx) {
    while c.time_left() {
        // 1. point set, no segments
        c.case(
            |r| (gen_points(r), [0, 0, -30, 20][r.below(4)]),
            |(p, k)| format!("triangulate(points {p:?} scaled by 2^{k}, no segments)"),
            |(p, k), cov| {
                let bump = bumpalo::Bump::new();
                let t = triangulate(&flat(p, *k), &[], &bump);
                let (a, e) = hull_area_edges(p);
                *cov.entry(if a == 0 { "collinear sets" } else { "point sets" }.into()).or_insert(0) += 1;
                if a == 0 {
                    need!(t.is_empty(), "collinear points but triangles {t:?}");
                    return Ok(());
                }
                check_tris(p, &t, a, &e, &[], &|_| true)
            },
        );
        // 2. a monotone chain from the first to the last point: the part above it is kept
        c.case(
            |r| {
                let p = gen_points(r);
                let mut id: Vec<usize> = (0..p.len()).collect();
                id.sort_by_key(|&i| p[i]);
                let mut ch = vec![id[0]];
                let den = 1 + r.below(4);
                for i in 1..id.len() - 1 {
                    if r.below(den) == 0 {
                        ch.push(id[i]);
                    }
                }
                ch.push(id[id.len() - 1]);
                // insertion order is arbitrary
                let mut segs: Vec<(usize, usize)> = ch.windows(2).map(|w| (w[0], w[1])).collect();
                r.shuffle(&mut segs);
                (p, ch, segs)
            },
            |(p, _, s)| format!("triangulate(points {p:?}, segments {s:?})"),
            |(p, ch, segs), cov| {
                let (a, hull) = hull_area_edges(p);
                if a == 0 {
                    return Ok(());
                }
                // upper hull, from the last point back to the first
                let (f, l) = (ch[0], ch[ch.len() - 1]);
                let nx: BTreeMap<usize, usize> = hull.iter().cloned().collect();
                let mut up = vec![];
                let mut v = l;
                while v != f {
                    up.push((v, nx[&v]));
                    v = nx[&v];
                }
                // the chain may run along the upper hull: then the region above it has parts of no area
                let mut poly: Vec<P> = ch.iter().map(|&i| p[i]).collect();
                poly.extend(up.iter().skip(1).map(|e| p[e.0]));
                let area = area2(&poly);
                let mut fl = vec![];
                for s in segs {
                    fl.push(s.0);
                    fl.push(s.1);
                }
                // regions without any segment on their border keep: only when upper region has several
                // parts, each still borders the chain
                let bump = bumpalo::Bump::new();
                let t = triangulate(&flat(p, 0), &fl, &bump);
                // boundary: cancel chain parts that coincide with reversed upper hull parts
                let sub = |a: usize, b: usize| -> Vec<(usize, usize)> {
                    let mut on: Vec<usize> = (0..p.len()).filter(|&i| between(p[a], p[b], p[i])).collect();
                    on.sort_by_key(|&i| (p[i].0 - p[a].0).abs() + (p[i].1 - p[a].1).abs());
                    let mut c = a;
                    on.into_iter().chain([b]).map(|n| { let e = (c, n); c = n; e }).collect()
                };
                let mut bset: BTreeSet<(usize, usize)> = BTreeSet::new();
                for (a, b) in ch.windows(2).map(|w| (w[0], w[1])).chain(up.iter().cloned()) {
                    for e in sub(a, b) {
                        if !bset.remove(&(e.1, e.0)) {
                            bset.insert(e);
                        }
                    }
                }
                let bnd: Vec<(usize, usize)> = bset.into_iter().collect();
                let on_or_above = |q: P| -> bool {
                    // q is above or on the chain and is an end of the region's boundary or strictly inside
                    let i = p.iter().position(|&x| x == q).unwrap();
                    if bnd.iter().any(|e| e.0 == i || e.1 == i) {
                        return true;
                    }
                    for w in ch.windows(2) {
                        let (a, b) = (p[w[0]], p[w[1]]);
                        if a <= q && q <= b {
                            return orient(a, b, q) > 0;
                        }
                    }
                    false
                };
                *cov.entry("cut sets".into()).or_insert(0) += 1;
                let cons: Vec<(usize, usize)> = segs.clone();
                let cons_in: Vec<(usize, usize)> = cons.into_iter().filter(|&(a, b)| sub(a, b).iter().all(|e| bnd.contains(e))).collect();
                check_tris(p, &t, area, &bnd, &cons_in, &on_or_above)
            },
        );
        // 3. polygon with holes
        c.case(
            |r| {
                let mut d = None;
                for _ in 0..50 {
                    d = gen_dom(r);
                    if d.is_some() {
                        break;
                    }
                }
                let d = d.unwrap_or(Dom { pts: vec![(0, 0), (4, 0), (0, 3)], loops: vec![vec![0, 1, 2]], free: 0 });
                let mut segs: Vec<(usize, usize)> = d.loops.iter().flat_map(|l| (0..l.len()).map(move |i| (l[i], l[(i + 1) % l.len()]))).collect();
                r.shuffle(&mut segs);
                if r.below(4) == 0 {
                    segs.push((0, 0)); // a degenerate segment is to be ignored
                }
                (d, segs, r.below(12), r.below(3))
            },
            |(d, s, m, _)| format!("points {:?}, segments {s:?} (variant {m})", d.pts),
            |(d, segs, variant, shift), cov| {
                let bump = bumpalo::Bump::new();
                let loops: Vec<Vec<P>> = d.loops.iter().map(|l| l.iter().map(|&i| d.pts[i]).collect()).collect();
                let area: i128 = loops.iter().map(|l| area2(l)).sum();
                let fl: Vec<usize> = segs.iter().flat_map(|s| [s.0, s.1]).collect();
                let bnd: Vec<(usize, usize)> = segs.iter().filter(|s| s.0 != s.1).cloned().collect();
                if *variant < 6 {
                    *cov.entry("polygons".into()).or_insert(0) += 1;
                    let t = triangulate(&flat(&d.pts, 0), &fl, &bump);
                    return check_tris(&d.pts, &t, area, &bnd, &bnd, &|q| locate(&loops, q) >= 0);
                }
                // 3D: place the plane with exact integer axes; free points are not referenced
                let big = d.pts.iter().any(|p| p.0.abs() > 4000 || p.1.abs() > 4000);
                let (o, x, y): ([i64; 3], [i64; 3], [i64; 3]) = match (variant, big) {
                    (6, _) => ([3, 4, 5], [1, 0, 0], [0, 1, 0]),
                    (7, _) => ([0, -1, 2], [0, 1, 0], [0, 0, 1]),
                    (8, _) => ([7, 0, 0], [0, 0, 1], [1, 0, 0]),
                    (9, false) => ([1, 2, 3], [1, 1, 0], [-1, 1, 0]),
                    (10, false) => ([1, 2, 3], [2, 1, 2], [-2, 2, 1]),
                    _ => ([0, 0, 0], [0, -1, 0], [1, 0, 0]),
                };
                let used: BTreeSet<usize> = fl.iter().cloned().collect();
                let ids: Vec<usize> = used.iter().cloned().collect();
                let p3: Vec<f64> = d
                    .pts
                    .iter()
                    .flat_map(|p| (0..3).map(|k| (o[k] + p.0 * x[k] + p.1 * y[k]) as f64).collect::<Vec<_>>())
                    .collect();
                let f3 = |v: [i64; 3]| [v[0] as f64, v[1] as f64, v[2] as f64];
                let t: Vec<usize> = if shift % 2 == 0 {
                    triangulate_polygon(&p3, &fl, &f3(o), &f3(x), &f3(y), &bump).into_iter().collect()
                } else {
                    let mut ax = vec![];
                    // first a unit triangle of the same cloud, then the polygon
                    let l0: Vec<usize> = vec![];
                    for _ in 0..1 {
                        ax.extend(f3(o));
                        ax.extend(f3(x));
                        ax.extend(f3(y));
                    }
                    let _ = l0;
                    ax.extend(ax.clone());
                    let (t, par) = triangulate_polygon_soup(&p3, &[fl.clone(), fl.clone()], &ax);
                    need!(t.len() == 3 * par.len(), "{} triangle indices but {} parents", t.len(), par.len());
                    let h = t.len() / 2;
                    need!(t.len() % 2 == 0 && t[..h].chunks(3).map(|x| x.to_vec()).collect::<BTreeSet<_>>().len() == h / 3, "soup of the same polygon twice: {t:?}");
                    need!(par.iter().enumerate().all(|(i, &p)| p == (i >= par.len() / 2) as usize), "parents {par:?}");
                    let t2 = &t[h..];
                    let back = |v: &usize| ids.binary_search(v).unwrap_or(usize::MAX);
                    let sub: Vec<P> = ids.iter().map(|&i| d.pts[i]).collect();
                    let mb: Vec<(usize, usize)> = bnd.iter().map(|e| (back(&e.0), back(&e.1))).collect();
                    check_tris(&sub, &t2.iter().map(back).collect::<Vec<_>>(), area, &mb, &mb, &|q| locate(&loops, q) >= 0)?;
                    t[..h].to_vec()
                };
                *cov.entry("planar polygons in space".into()).or_insert(0) += 1;
                let back = |v: &usize| ids.binary_search(v).unwrap_or(usize::MAX);
                let sub: Vec<P> = ids.iter().map(|&i| d.pts[i]).collect();
                let mb: Vec<(usize, usize)> = bnd.iter().map(|e| (back(&e.0), back(&e.1))).collect();
                let loops2 = loops.clone();
                check_tris(&sub, &t.iter().map(back).collect::<Vec<_>>(), area, &mb, &mb, &|q| locate(&loops2, q) >= 0)
            },
        );
    }
}
