//! Implicit points and the predicates over mixed explicit / implicit points, against exact
//! homogeneous coordinates.
use crate::big::{det, Dy};
use crate::ctx::{Ctx, Rng};
use gpf::predicates as g;
use gpf::predicates::{ExpansionNum, ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, IntervalNumber, Orientation, Point3D};
use std::alloc::Global;

#[derive(Clone, Debug)]
pub enum Raw {
    E([f64; 3]),
    L([[f64; 3]; 5]),
    T([[f64; 3]; 9]),
}
fn ep(p: [f64; 3]) -> ExplicitPoint3D {
    ExplicitPoint3D { data: p }
}
pub fn lpi(a: &[[f64; 3]; 5]) -> ImplicitPointLPI {
    ImplicitPointLPI::new(ep(a[0]), ep(a[1]), ep(a[2]), ep(a[3]), ep(a[4]))
}
pub fn tpi(a: &[[f64; 3]; 9]) -> ImplicitPointTPI {
    ImplicitPointTPI::new(ep(a[0]), ep(a[1]), ep(a[2]), ep(a[3]), ep(a[4]), ep(a[5]), ep(a[6]), ep(a[7]), ep(a[8]))
}
impl Raw {
    pub fn make(&self) -> Point3D {
        match self {
            Raw::E(p) => Point3D::Explicit(ep(*p)),
            Raw::L(a) => Point3D::LPI(lpi(a)),
            Raw::T(a) => Point3D::TPI(tpi(a)),
        }
    }
    pub fn k(&self) -> char {
        match self {
            Raw::E(_) => 'E',
            Raw::L(_) => 'L',
            Raw::T(_) => 'T',
        }
    }
    /// exact homogeneous coordinates with a non-negative weight; weight 0 = no such point
    pub fn hom(&self) -> [Dy; 4] {
        let v = |p: &[f64; 3]| -> [Dy; 3] { [Dy::f(p[0]), Dy::f(p[1]), Dy::f(p[2])] };
        let r = match self {
            Raw::E(p) => {
                let [a, b, c] = v(p);
                [a, b, c, Dy::int(1)]
            }
            Raw::L(a) => {
                let (p, q) = (v(&a[0]), v(&a[1]));
                let n = normal(&v(&a[2]), &v(&a[3]), &v(&a[4]));
                let dir = sub(&q, &p);
                let w = dot(&n, &dir);
                let k = dot(&n, &sub(&v(&a[2]), &p));
                let x: Vec<Dy> = (0..3).map(|i| &p[i] * &w + &dir[i] * &k).collect();
                [x[0].clone(), x[1].clone(), x[2].clone(), w]
            }
            Raw::T(a) => {
                let mut ns = vec![];
                let mut cs = vec![];
                for i in 0..3 {
                    let n = normal(&v(&a[3 * i]), &v(&a[3 * i + 1]), &v(&a[3 * i + 2]));
                    cs.push(dot(&n, &v(&a[3 * i])));
                    ns.push(n);
                }
                let w = det(&ns.iter().map(|n| n.to_vec()).collect::<Vec<_>>());
                let mut out = vec![];
                for c in 0..3 {
                    let m: Vec<Vec<Dy>> = (0..3).map(|i| (0..3).map(|j| if j == c { cs[i].clone() } else { ns[i][j].clone() }).collect()).collect();
                    out.push(det(&m));
                }
                [out[0].clone(), out[1].clone(), out[2].clone(), w]
            }
        };
        if r[3].sign() < 0 {
            [r[0].neg(), r[1].neg(), r[2].neg(), r[3].neg()]
        } else {
            r
        }
    }
}
type V = [Dy; 3];
fn sub(a: &V, b: &V) -> V {
    [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]]
}
fn dot(a: &V, b: &V) -> Dy {
    &(&a[0] * &b[0]) + &(&(&a[1] * &b[1]) + &(&a[2] * &b[2]))
}
fn cross(a: &V, b: &V) -> V {
    [
        &(&a[1] * &b[2]) - &(&a[2] * &b[1]),
        &(&a[2] * &b[0]) - &(&a[0] * &b[2]),
        &(&a[0] * &b[1]) - &(&a[1] * &b[0]),
    ]
}
fn normal(a: &V, b: &V, c: &V) -> V {
    cross(&sub(b, a), &sub(c, a))
}

// ---------------------------------------------------------------------------------------------
/// the coordinates: integer multiples of 2^-k with few enough bits that no expansion underflows
struct Grid {
    mag: i64,
    unit: f64,
    jitter: bool,
}
fn grid(r: &Rng) -> Grid {
    let mag = [3, 6, 40, 1000, 1 << 12, 1 << 20][r.below(6)];
    let unit = [1.0, 1.0, 0.5, 2f64.powi(-10), 2f64.powi(7), 2f64.powi(-23), 2f64.powi(12)][r.below(7)];
    Grid { mag, unit, jitter: r.below(2) == 0 }
}
fn iv(r: &Rng, m: i64) -> [i64; 3] {
    [r.range(-m, m), r.range(-m, m), r.range(-m, m)]
}
fn add(a: [i64; 3], k: i64, b: [i64; 3]) -> [i64; 3] {
    [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]]
}
fn nz(r: &Rng, m: i64) -> i64 {
    let k = r.range(1, m);
    if r.bool() {
        k
    } else {
        -k
    }
}
/// an LPI / TPI / explicit point meant to be at `t` (exactly so without jitter); fine units of 2^-6
/// of the grid are available for jitter
fn at(r: &Rng, gr: &Grid, t: [i64; 3], kind: usize) -> Raw {
    let s = if gr.mag > 100 { 1 + r.below(gr.mag as usize / 4) as i64 } else { 3 };
    let fin = |q: [i64; 3]| -> [f64; 3] {
        let mut o = [0.0; 3];
        for c in 0..3 {
            let mut x = q[c] * 64;
            if gr.jitter && r.below(4) == 0 {
                x += r.range(-1, 1);
            }
            o[c] = x as f64 / 64.0 * gr.unit;
        }
        o
    };
    // a direction shared by the planes (and the line): the point does not exist, or hardly
    let shared = if r.below(4) == 0 { Some(iv(r, s)) } else { None };
    let last = std::cell::Cell::new([[0i64; 3]; 2]);
    let plane = |r: &Rng| -> [[i64; 3]; 3] {
        let (e1, e2) = if let Some(u) = shared {
            (add([0; 3], nz(r, 2), u), iv(r, s))
        } else if r.below(3) == 0 {
            // axis aligned plane
            let c = r.below(3);
            let mut e1 = iv(r, s);
            let mut e2 = iv(r, s);
            e1[c] = 0;
            e2[c] = 0;
            (e1, e2)
        } else {
            (if r.bool() { iv(r, s) } else { [nz(r, s), r.range(-s, s), nz(r, s)] }, iv(r, s))
        };
        last.set([e1, e2]);
        let mut out = [[0; 3]; 3];
        if r.below(12) == 0 {
            for o in out.iter_mut() {
                *o = add(add(t, r.range(-2, 2), e1), r.range(-2, 2), e2);
            }
        } else {
            let (x, y) = (r.range(-2, 2), r.range(-2, 2));
            let o = if r.below(3) == 0 { t } else { add(add(t, x, e1), y, e2) };
            out = [add(o, nz(r, 2), e1), add(o, nz(r, 2), e2), add(add(o, nz(r, 2), e1), nz(r, 1), e2)];
        }
        out
    };
    match kind {
        0 => Raw::E(fin(t)),
        1 => {
            let mut v = iv(r, s);
            if r.below(4) == 0 {
                let c = r.below(3);
                let x = v[c];
                v = [0; 3];
                v[c] = x;
            }
            let pl = plane(r);
            if shared.is_some() {
                let [e1, e2] = last.get();
                v = add(add([0; 3], r.range(-1, 1), e1), r.range(-1, 1), e2);
            }
            let off = if shared.is_some() { iv(r, s) } else { [0; 3] };
            let p = add(add(t, nz(r, 2), v), 1, off);
            let q = add(add(t, nz(r, 3), v), 1, off);
            Raw::L([fin(p), fin(q), fin(pl[0]), fin(pl[1]), fin(pl[2])])
        }
        _ => {
            let (a, b, c) = (plane(r), plane(r), plane(r));
            Raw::T([fin(a[0]), fin(a[1]), fin(a[2]), fin(b[0]), fin(b[1]), fin(b[2]), fin(c[0]), fin(c[1]), fin(c[2])])
        }
    }
}
/// n targets: general, equal, collinear, coplanar, sharing a coordinate
fn targets(r: &Rng, gr: &Grid, n: usize) -> Vec<[i64; 3]> {
    let m = gr.mag;
    let o = iv(r, m);
    let (d1, d2) = (iv(r, m.min(5000)), iv(r, m.min(5000)));
    let style = r.below(6);
    (0..n)
        .map(|_| match style {
            0 => iv(r, m),
            1 => o,
            2 => add(o, r.range(-3, 3), d1),
            3 => add(add(o, r.range(-3, 3), d1), r.range(-3, 3), d2),
            4 => {
                let mut q = iv(r, m);
                q[0] = o[0];
                q
            }
            _ => add(o, 1, iv(r, 1)),
        })
        .collect()
}
pub fn raws(r: &Rng, kinds: &[usize]) -> Vec<Raw> {
    let gr = grid(r);
    let ts = targets(r, &gr, kinds.len());
    kinds.iter().zip(ts).map(|(&k, t)| at(r, &gr, t, k)).collect()
}
fn kinds(r: &Rng, n: usize) -> Vec<usize> {
    (0..n).map(|_| r.below(3)).collect()
}
fn osg(o: Orientation) -> i32 {
    match o {
        Orientation::Positive => 1,
        Orientation::Negative => -1,
        Orientation::Zero => 0,
        Orientation::Undefined => 9,
    }
}
fn expect(w: &str, ks: &str, got: Orientation, want: Option<i32>) -> Result<(), String> {
    let want = want.unwrap_or(9);
    if osg(got) != want {
        return Err(format!("{w}({ks}) returned {got:?}; exact answer {}", if want == 9 { "undefined".to_string() } else { format!("sign {want}") }));
    }
    Ok(())
}
fn ks(v: &[Raw]) -> String {
    v.iter().map(|x| x.k()).collect()
}

pub fn run_less(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| {
                let mut k = kinds(r, 2);
                if k == [0, 0] && r.below(4) != 0 {
                    k[r.below(2)] = 1 + r.below(2);
                }
                raws(r, &k)
            },
            |v| format!("{v:?}"),
            |v, cov| {
                let (a, b) = (v[0].make(), v[1].make());
                let (ha, hb) = (v[0].hom(), v[1].hom());
                let defined = ha[3].sign() != 0 && hb[3].sign() != 0;
                for ax in 0..3 {
                    let want = if defined { Some((&ha[ax] * &hb[3] - &hb[ax] * &ha[3]).sign()) } else { None };
                    let f = [g::less_than_on_x, g::less_than_on_y, g::less_than_on_z][ax];
                    *cov.entry(format!("{} {:?}", ks(v), want)).or_insert(0) += 1;
                    let nm = ["less_than_on_x", "less_than_on_y", "less_than_on_z"][ax];
                    expect(nm, &ks(v), f(&a, &b, Global), want)?;
                    expect(nm, &format!("{} swapped", ks(v)), f(&b, &a, Global), want.map(|s| -s))?;
                }
                Ok(())
            },
        );
    }
}

pub fn h2(p: &[[Dy; 4]], i: usize, j: usize) -> Option<i32> {
    if p.iter().any(|q| q[3].sign() == 0) {
        return None;
    }
    // |x y w| rows; weights positive: sign of orient2d(a, b, c)
    let m: Vec<Vec<Dy>> = p.iter().map(|q| vec![q[i].clone(), q[j].clone(), q[3].clone()]).collect();
    Some(det(&m).sign())
}
pub fn h3(p: &[[Dy; 4]]) -> Option<i32> {
    if p.iter().any(|q| q[3].sign() == 0) {
        return None;
    }
    let m: Vec<Vec<Dy>> = p.iter().map(|q| q.to_vec()).collect();
    // det rows (x y z w) for a,b,c,d = det(a-d, b-d, c-d) * weights; the predicate negates it
    Some(-det(&m).sign())
}

pub fn run_orient(c: &mut Ctx) {
    let mut n = 0usize;
    while c.time_left() {
        n += 1;
        c.case(
            |r| {
                let k = if n % 2 == 0 { kinds(r, 3) } else { vec![(n / 2) % 3, (n / 6) % 3, (n / 18) % 3] };
                raws(r, &k)
            },
            |v| format!("orient2d of {v:?}"),
            |v, cov| {
                let p: Vec<Point3D> = v.iter().map(|x| x.make()).collect();
                let h: Vec<[Dy; 4]> = v.iter().map(|x| x.hom()).collect();
                *cov.entry(format!("2d {} kinds", v.iter().filter(|x| x.k() != 'E').count())).or_insert(0) += 1;
                let order = [(1, 2), (2, 0), (0, 1)];
                for ax in 0..3 {
                    let want = h2(&h, order[ax].0, order[ax].1);
                    if want == Some(0) {
                        *cov.entry("2d zero".into()).or_insert(0) += 1;
                    }
                    let f = [g::orient2d_yz, g::orient2d_zx, g::orient2d_xy][ax];
                    expect(["orient2d_yz", "orient2d_zx", "orient2d_xy"][ax], &ks(v), f(&p[0], &p[1], &p[2], Global), want)?;
                    expect("orient2d_by_axis", &ks(v), g::orient2d::orient2d_by_axis(&p[0], &p[1], &p[2], ax, Global), want)?;
                }
                Ok(())
            },
        );
        c.case(
            |r| {
                let k = if n % 2 == 0 { kinds(r, 4) } else { vec![(n / 2) % 3, (n / 6) % 3, (n / 18) % 3, (n / 54) % 3] };
                raws(r, &k)
            },
            |v| format!("orient3d of {v:?}"),
            |v, cov| {
                let p: Vec<Point3D> = v.iter().map(|x| x.make()).collect();
                let h: Vec<[Dy; 4]> = v.iter().map(|x| x.hom()).collect();
                let want = h3(&h);
                *cov.entry(format!("3d {} implicit, {:?}", v.iter().filter(|x| x.k() != 'E').count(), want)).or_insert(0) += 1;
                expect("orient3d", &ks(v), g::orient3d::orient3d(&p[0], &p[1], &p[2], &p[3], Global), want)
            },
        );
    }
}

fn check_point<P: ImplicitPoint3D>(p: &P, tpi: bool, h: &[Dy; 4], probes: &[f64], cov: &mut std::collections::BTreeMap<String, u64>) -> Result<(), String> {
    let defined = h[3].sign() != 0;
    for round in 0..2 {
        // the second round reads the caches
        let w = format!("call {}", round + 1);
        if let Some((f, max)) = p.static_filter() {
            *cov.entry("static".into()).or_insert(0) += 1;
            if !defined {
                return Err(format!("{w}: static_filter accepts a point that does not exist"));
            }
            if !(f.d > 0.0) || !(*max > 0.0) {
                return Err(format!("{w}: static_filter weight {} / bound {max} not positive", f.d));
            }
            // the error bound the comparisons rely on: a constant times a power of the offered bound
            let (kx, ex, kd, ed) = if tpi { (7, 3.980270973924514e-13, 6, 8.704148513061234e-14) } else { (4, 1.932297637868842e-14, 3, 4.884981308350689e-15) };
            let pw = |k: usize, e: f64| (0..k).fold(Dy::f(e), |a, _| &a * &Dy::f(*max));
            if (&(&Dy::f(f.d) - &h[3]).abs() - &pw(kd, ed)).sign() > 0 {
                return Err(format!("{w}: static_filter weight {} is off by more than the filter's bound (exact {})", f.d, h[3].approx()));
            }
            for (c, v) in [f.x, f.y, f.z].into_iter().enumerate() {
                if (&(&Dy::f(v) - &h[c]).abs() - &pw(kx, ex)).sign() > 0 {
                    return Err(format!("{w}: static_filter coordinate {c} = {v} is off by more than the filter's bound (exact {})", h[c].approx()));
                }
            }
        } else {
            *cov.entry("no static".into()).or_insert(0) += 1;
        }
        if let Some(f) = p.dynamic_filter() {
            *cov.entry("dynamic".into()).or_insert(0) += 1;
            if !defined {
                return Err(format!("{w}: dynamic_filter accepts a point that does not exist"));
            }
            if !f.d.positive() {
                return Err(format!("{w}: dynamic_filter weight is not positive"));
            }
            for (c, v) in [&f.x, &f.y, &f.z].into_iter().enumerate() {
                let near = (h[c].approx() / h[3].approx()).clamp(-1e9, 1e9);
                for &t in probes.iter().chain(&[near, near.next_up().next_up(), near.next_down().next_down()]) {
                    // sign of coordinate - t
                    let s = (&h[c] - &(&h[3] * &Dy::f(t))).sign();
                    let e = v - &f.d * IntervalNumber::from(t);
                    if e.positive() && s <= 0 || e.negative() && s >= 0 || e.not_zero() && s == 0 {
                        return Err(format!("{w}: dynamic_filter coordinate {c} is decided on the wrong side of {t}"));
                    }
                }
            }
        }
        match p.exact(Global) {
            None => {
                if defined {
                    return Err(format!("{w}: exact() says the point does not exist, but it does"));
                }
                *cov.entry("undefined".into()).or_insert(0) += 1;
            }
            Some(e) => {
                if !defined {
                    return Err(format!("{w}: exact() returns a point that does not exist"));
                }
                let val = |x: &ExpansionNum| Dy::sum(&x.vec);
                if val(&e.d).sign() <= 0 || e.d.last().copied().unwrap_or(0.0) <= 0.0 {
                    return Err(format!("{w}: exact() weight is not positive"));
                }
                for (c, x) in [&e.x, &e.y, &e.z].into_iter().enumerate() {
                    if !(val(x) * &h[3]).eq(&(&h[c] * &val(&e.d))) {
                        return Err(format!("{w}: exact() coordinate {c} is {} not {}", val(x).approx() / val(&e.d).approx(), h[c].approx() / h[3].approx()));
                    }
                }
                let mut out = [f64::NAN; 3];
                p.to_explicit(&mut out);
                for c in 0..3 {
                    let diff = (&(&Dy::f(out[c]) * &h[3]) - &h[c]).abs();
                    if (&diff - &h[c].abs().mul_pow2(-48)).sign() > 0 {
                        return Err(format!("{w}: to_explicit coordinate {c} = {} but the point is at {}", out[c], h[c].approx() / h[3].approx()));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run_points(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| {
                let k = 1 + r.below(2);
                let v = raws(r, &[k])[0].clone();
                let pr: Vec<f64> = (0..4).map(|_| r.range(-50, 50) as f64 / [1.0, 8.0, 1024.0][r.below(3)]).collect();
                (v, pr)
            },
            |v| format!("{v:?}"),
            |(v, pr), cov| {
                let h = v.hom();
                match v {
                    Raw::L(a) => check_point(&lpi(a), false, &h, pr, cov),
                    Raw::T(a) => check_point(&tpi(a), true, &h, pr, cov),
                    _ => Ok(()),
                }
            },
        );
    }
}
