//! The point / segment / triangle predicates against exact geometry.
use crate::big::{det, Dy};
use crate::ctx::{Ctx, Rng};
use crate::gens::show_pts;
use gpf::predicates as g;
use gpf::predicates::{ExplicitPoint3D, Point3D};
use std::alloc::Global;

type V = [Dy; 3];
fn v(p: &[f64]) -> V {
    [Dy::f(p[0]), Dy::f(p[1]), Dy::f(p[2])]
}
fn sub(a: &V, b: &V) -> V {
    [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]]
}
fn dot(a: &V, b: &V) -> Dy {
    &(&a[0] * &b[0]) + &(&(&a[1] * &b[1]) + &(&a[2] * &b[2]))
}
fn cross(a: &V, b: &V) -> V {
    [
        &(&a[1] * &b[2]) - &(&a[2] * &b[1]),
        &(&a[2] * &b[0]) - &(&a[0] * &b[2]),
        &(&a[0] * &b[1]) - &(&a[1] * &b[0]),
    ]
}
fn zero(a: &V) -> bool {
    a.iter().all(|x| x.sign() == 0)
}
fn vol(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let (a, b, c, d) = (v(a), v(b), v(c), v(d));
    det(&[sub(&a, &d).to_vec(), sub(&b, &d).to_vec(), sub(&c, &d).to_vec()]).sign()
}
pub fn collinear(a: &[f64], b: &[f64], c: &[f64]) -> bool {
    zero(&cross(&sub(&v(b), &v(a)), &sub(&v(c), &v(a))))
}
fn in_open_segment(p: &[f64], a: &[f64], b: &[f64]) -> bool {
    collinear(p, a, b) && dot(&sub(&v(p), &v(a)), &sub(&v(p), &v(b))).sign() < 0
}
fn eqp(a: &[f64], b: &[f64]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
}
fn normal(a: &[f64], b: &[f64], c: &[f64]) -> V {
    cross(&sub(&v(b), &v(a)), &sub(&v(c), &v(a)))
}
/// side of p with respect to the directed line a->b inside the plane with normal n
fn side(n: &V, a: &[f64], b: &[f64], p: &[f64]) -> i32 {
    dot(n, &cross(&sub(&v(b), &v(a)), &sub(&v(p), &v(a)))).sign()
}
/// strictly inside, p known to be coplanar with the proper triangle
fn in_open_triangle(p: &[f64], t: [&[f64]; 3]) -> bool {
    let n = normal(t[0], t[1], t[2]);
    (0..3).all(|i| side(&n, t[i], t[(i + 1) % 3], p) > 0)
}
fn open_segments_cross(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> bool {
    // a single common point, interior to both
    if vol(a, b, c, d) != 0 {
        return false;
    }
    let n = cross(&sub(&v(b), &v(a)), &sub(&v(d), &v(c)));
    if zero(&n) {
        return false;
    }
    side(&n, a, b, c) * side(&n, a, b, d) < 0 && side(&n, c, d, a) * side(&n, c, d, b) < 0
}
fn open_segment_crosses_open_triangle(a: &[f64], b: &[f64], t: [&[f64]; 3]) -> bool {
    let (x, y) = (vol(a, t[0], t[1], t[2]), vol(b, t[0], t[1], t[2]));
    if x * y >= 0 {
        return false;
    }
    let s: Vec<i32> = (0..3).map(|i| vol(a, b, t[i], t[(i + 1) % 3])).collect();
    s[0] != 0 && s[0] == s[1] && s[1] == s[2]
}

fn ipt(r: &Rng, m: i64) -> [i64; 3] {
    [r.range(-m, m), r.range(-m, m), r.range(-m, m)]
}
fn comb(o: [i64; 3], a: i64, d: [i64; 3], b: i64, e: [i64; 3]) -> [i64; 3] {
    [o[0] + a * d[0] + b * e[0], o[1] + a * d[1] + b * e[1], o[2] + a * d[2] + b * e[2]]
}
/// five points: u1 u2 / p , triangle; mostly in special position
fn five(r: &Rng) -> Vec<f64> {
    let m = [1, 2, 4, 30, 1000][r.below(5)];
    let mut pts: Vec<[i64; 3]> = match r.below(6) {
        0 => (0..5).map(|_| ipt(r, m)).collect(),
        1 | 2 => {
            // coplanar
            let (o, mut d, mut e) = (ipt(r, m), ipt(r, m), ipt(r, m));
            if r.bool() {
                let c = r.below(3);
                d[c] = 0;
                e[c] = 0;
            }
            (0..5).map(|_| comb(o, r.range(-4, 4), d, r.range(-4, 4), e)).collect()
        }
        3 => {
            // collinear
            let (o, mut d) = (ipt(r, m), ipt(r, m));
            if r.bool() {
                d[r.below(3)] = 0;
            }
            (0..5).map(|_| comb(o, r.range(-4, 4), d, 0, d)).collect()
        }
        4 => {
            // a segment through a point of the triangle
            let t = [ipt(r, m), ipt(r, m), ipt(r, m)];
            // barycentric point with denominators 4, scale everything by 4
            let (a, b) = (r.range(0, 4), r.range(0, 4));
            let (a, b) = if a + b > 4 { (4 - a, 4 - b) } else { (a, b) };
            let c = 4 - a - b;
            let mut x = [0; 3];
            for k in 0..3 {
                x[k] = a * t[0][k] + b * t[1][k] + c * t[2][k];
            }
            let dir = ipt(r, m);
            let t4 = t.map(|q| [q[0] * 4, q[1] * 4, q[2] * 4]);
            vec![comb(x, r.range(0, 3), dir, 0, dir), comb(x, -r.range(0, 3), dir, 0, dir), t4[0], t4[1], t4[2]]
        }
        _ => {
            let base = [ipt(r, m), ipt(r, m), ipt(r, m)];
            (0..5).map(|_| base[r.below(3)]).collect()
        }
    };
    r.shuffle(&mut pts);
    let s = [1.0, 1.0, 0.25, 1.0 / 1024.0, 0.1][r.below(5)];
    let off = if r.below(4) == 0 { 1e3 } else { 0.0 };
    pts.iter().flat_map(|q| q.map(|x| x as f64 * s + off)).collect()
}
fn is(name: &str, got: bool, want: bool) -> Result<(), String> {
    if got != want {
        return Err(format!("{name} returned {got}, exact answer {want}"));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| five(r),
            |p| format!("points {}", show_pts(p, 3)),
            |p, cov| {
                let q: Vec<&[f64]> = p.chunks(3).collect();
                let mut hit = |k: &str, w: bool| *cov.entry(format!("{k} {w}")).or_insert(0) += 1;
                let col = collinear(q[0], q[1], q[2]);
                is("mis_alignment", g::mis_alignment(q[0], q[1], q[2], Global), !col)?;
                is("same_point", g::same_point(q[0], q[1]), eqp(q[0], q[1]))?;
                let w = in_open_segment(q[0], q[1], q[2]);
                hit("point_in_inner_segment", w);
                is("point_in_inner_segment", g::point_in_inner_segment(q[0], q[1], q[2], Global), w)?;
                let w = w || eqp(q[0], q[1]) || eqp(q[0], q[2]);
                is("point_in_segment", g::point_in_segment(q[0], q[1], q[2], Global), w)?;
                if col {
                    let e = |x: &[f64]| Point3D::Explicit(ExplicitPoint3D::from(x));
                    is("point_in_segment_general", g::point_in_segment_general(&e(q[0]), &e(q[1]), &e(q[2]), Global), w)?;
                }
                // two proper segments
                let w = open_segments_cross(q[0], q[1], q[2], q[3]);
                hit("inner_segments_cross", w);
                if !eqp(q[0], q[1]) && !eqp(q[2], q[3]) {
                    is("inner_segments_cross", g::inner_segments_cross(q[0], q[1], q[2], q[3], Global), w)?;
                }
                // p, q coplanar with the proper segment v1 v2: the same side of its line?
                if !eqp(q[2], q[3]) && vol(q[0], q[1], q[2], q[3]) == 0 {
                    let a = cross(&sub(&v(q[3]), &v(q[2])), &sub(&v(q[0]), &v(q[2])));
                    let b = cross(&sub(&v(q[3]), &v(q[2])), &sub(&v(q[1]), &v(q[2])));
                    let w = if zero(&a) || zero(&b) { zero(&a) && zero(&b) } else { dot(&a, &b).sign() > 0 };
                    hit("same_half_plane", w);
                    is("same_half_plane", g::same_half_plane(q[0], q[1], q[2], q[3], Global), w)?;
                }
                if collinear(q[2], q[3], q[4]) {
                    hit("degenerate triangle", true);
                    return Ok(());
                }
                let t = [q[2], q[3], q[4]];
                // the chosen axis sees the triangle properly
                let ax = g::max_comp_in_tri_normal(q[2], q[3], q[4], Global);
                let n = normal(q[2], q[3], q[4]);
                if ax > 2 {
                    return Err(format!("max_comp_in_tri_normal returned {ax}"));
                }
                if n[ax].sign() == 0 {
                    return Err(format!("max_comp_in_tri_normal returned {ax}, along which a proper triangle projects to a segment"));
                }
                // far from ties it is the largest component
                let m = (0..3).map(|k| n[k].abs()).max_by(|a, b| a.cmp(b)).unwrap();
                let e2 = (0..3).map(|k| dot(&sub(&v(t[k]), &v(t[(k + 1) % 3])), &sub(&v(t[k]), &v(t[(k + 1) % 3])))).max_by(|a, b| a.cmp(b)).unwrap();
                if (&(&n[ax].abs() + &e2.mul_pow2(-44)) - &m).sign() < 0 {
                    return Err(format!("max_comp_in_tri_normal returned {ax}, but the normal is clearly larger along another axis"));
                }
                let x = q[0];
                if vol(x, q[2], q[3], q[4]) == 0 {
                    let w = in_open_triangle(x, t);
                    hit("point_in_inner_triangle", w);
                    is("point_in_inner_triangle", g::point_in_inner_triangle(x, t[0], t[1], t[2], Global), w)?;
                    let mut b = w;
                    for i in 0..3 {
                        b = b || eqp(x, t[i]) || in_open_segment(x, t[i], t[(i + 1) % 3]);
                    }
                    hit("point_in_triangle", b);
                    is("point_in_triangle", g::point_in_triangle(x, t[0], t[1], t[2], Global), b)?;
                }
                if !eqp(q[0], q[1]) {
                    let w = open_segment_crosses_open_triangle(q[0], q[1], t);
                    hit("inner_segment_cross_inner_triangle", w);
                    is(
                        "inner_segment_cross_inner_triangle",
                        g::inner_segment_cross_inner_triangle(q[0], q[1], t[0], t[1], t[2], Global),
                        w,
                    )?;
                    let mut b = w;
                    for i in 0..3 {
                        b = b || in_open_segment(t[i], q[0], q[1]) || open_segments_cross(q[0], q[1], t[i], t[(i + 1) % 3]);
                    }
                    hit("inner_segment_cross_triangle", b);
                    is("inner_segment_cross_triangle", g::inner_segment_cross_triangle(q[0], q[1], t[0], t[1], t[2], Global), b)?;
                }
                Ok(())
            },
        );
    }
}
