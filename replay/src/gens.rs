//! Coordinate and point generators shared by the suites.
use crate::ctx::Rng;

/// bits of f64 coordinates of one of several shapes
pub fn coord(r: &Rng, style: usize) -> f64 {
    match style {
        0 => r.range(-3, 3) as f64,
        1 => r.range(-1000, 1000) as f64,
        2 => r.unit() * 2.0 - 1.0,
        3 => r.range(-40, 40) as f64 / 8.0,
        4 => {
            let m = r.unit() + 1.0;
            let e = r.range(-40, 40) as i32;
            let s = if r.bool() { 1.0 } else { -1.0 };
            s * m * 2f64.powi(e)
        }
        5 => 0.5 + r.range(-4, 4) as f64 * f64::EPSILON, // near one half, ulps apart
        6 => r.range(-20, 20) as f64 * 0.1,
        _ => (r.range(-9, 9) as f64) / 3.0,
    }
}
pub const STYLES: usize = 8;

pub fn ulps(r: &Rng, x: f64, k: i64) -> f64 {
    let n = r.range(-k, k);
    let mut y = x;
    for _ in 0..n.abs() {
        y = if n > 0 { y.next_up() } else { y.next_down() };
    }
    if y.is_subnormal() {
        0.0
    } else {
        y
    }
}

/// n points of dimension d: general, on a common hyperplane / circle / sphere / line, duplicated,
/// and then perhaps moved by ulps, scaled by a power of two and shifted.
pub fn points(r: &Rng, n: usize, d: usize) -> Vec<f64> {
    let style = r.below(STYLES);
    let mut p: Vec<f64> = (0..n * d).map(|_| coord(r, style)).collect();
    match r.below(7) {
        0 => {}
        1 => {
            // everything on an integer hyperplane a.x = c, written parametrically
            let o: Vec<f64> = (0..d).map(|_| r.range(-5, 5) as f64).collect();
            let dirs: Vec<Vec<f64>> = (0..d - 1).map(|_| (0..d).map(|_| r.range(-5, 5) as f64).collect()).collect();
            let den = [1.0, 1.0, 4.0, 10.0, 3.0][r.below(5)];
            for i in 0..n {
                let ks: Vec<f64> = (0..d - 1).map(|_| r.range(-6, 6) as f64).collect();
                for c in 0..d {
                    p[i * d + c] = (o[c] + (0..d - 1).map(|j| ks[j] * dirs[j][c]).sum::<f64>()) / den;
                }
            }
        }
        2 => {
            // on an integer circle / sphere: all signed permutations of pythagorean tuples
            let base: &[f64] = if d == 2 {
                [&[3.0, 4.0][..], &[5.0, 0.0], &[33.0, 56.0], &[16.0, 63.0]][r.below(4)]
            } else {
                [&[1.0, 2.0, 2.0][..], &[3.0, 0.0, 0.0], &[2.0, 3.0, 6.0], &[4.0, 4.0, 7.0]][r.below(4)]
            };
            let o: Vec<f64> = (0..d).map(|_| coord(r, [0, 1, 3, 2, 6][r.below(5)])).collect();
            for i in 0..n {
                let mut q: Vec<f64> = base.to_vec();
                r.shuffle(&mut q);
                for c in 0..d {
                    p[i * d + c] = o[c] + if r.bool() { q[c] } else { -q[c] };
                }
            }
        }
        3 => {
            // on a line
            let o: Vec<f64> = (0..d).map(|_| coord(r, style)).collect();
            let v: Vec<f64> = (0..d).map(|_| r.range(-4, 4) as f64).collect();
            for i in 0..n {
                let k = r.range(-5, 5) as f64;
                for c in 0..d {
                    p[i * d + c] = o[c] + k * v[c];
                }
            }
        }
        4 => {
            // repeats
            for i in 1..n {
                if r.below(3) == 0 {
                    let j = r.below(i);
                    for c in 0..d {
                        p[i * d + c] = p[j * d + c];
                    }
                }
            }
        }
        5 => {
            // one shared coordinate
            let c = r.below(d);
            for i in 0..n {
                p[i * d + c] = p[c];
            }
        }
        _ => {
            // around one point, close together
            let s = 2f64.powi(r.range(-50, -1) as i32);
            let o: Vec<f64> = (0..d).map(|_| coord(r, 2)).collect();
            for i in 0..n {
                for c in 0..d {
                    p[i * d + c] = o[c] + s * (r.range(-4, 4) as f64);
                }
            }
        }
    }
    match r.below(4) {
        0 => {
            for x in p.iter_mut() {
                if r.below(3) == 0 {
                    *x = ulps(r, *x, 2);
                }
            }
        }
        1 => {
            let i = r.below(p.len());
            p[i] = ulps(r, p[i], 3);
        }
        _ => {}
    }
    if r.below(5) == 0 {
        let s = 2f64.powi(r.range(-25, 25) as i32);
        for x in p.iter_mut() {
            *x *= s;
        }
    }
    if r.below(12) == 0 {
        // a mixed-scale outlier
        let i = r.below(p.len());
        p[i] *= 2f64.powi(r.range(-30, 30) as i32);
    }
    for x in p.iter_mut() {
        if *x != 0.0 && x.abs() < 1e-60 {
            *x = 0.0;
        }
    }
    p
}

pub fn show_pts(p: &[f64], d: usize) -> String {
    let v: Vec<String> = p.chunks(d).map(|c| format!("{:?}", c)).collect();
    format!("[{}]", v.join(", "))
}
