//! Signs of the explicit predicates against exact determinants.
use crate::big::{det, Dy};
use crate::ctx::Ctx;
use crate::gens::{points, show_pts};
use gpf::predicates as g;
use std::alloc::Global;

fn rows(p: &[f64], d: usize, lift: bool, h: Option<&[f64]>) -> Vec<Vec<Dy>> {
    let n = p.len() / d;
    let last = n - 1;
    let mut m = vec![];
    for i in 0..last {
        let mut row: Vec<Dy> = (0..d).map(|c| Dy::f(p[i * d + c]) - Dy::f(p[last * d + c])).collect();
        if lift {
            let mut s = Dy::zero();
            for c in 0..d {
                s = s + &row[c] * &row[c];
            }
            row.push(s);
        }
        if let Some(h) = h {
            row.push(Dy::f(h[i]) - Dy::f(h[last]));
        }
        m.push(row);
    }
    m
}
/// exact value of the determinant each predicate is documented (by its formula) to sign
pub fn o2(p: &[f64]) -> i32 {
    det(&rows(p, 2, false, None)).sign()
}
pub fn o3(p: &[f64]) -> i32 {
    det(&rows(p, 3, false, None)).sign()
}
pub fn ic(p: &[f64]) -> i32 {
    det(&rows(p, 2, true, None)).sign()
}
pub fn is(p: &[f64]) -> i32 {
    det(&rows(p, 3, true, None)).sign()
}
pub fn o4(p: &[f64], h: &[f64]) -> i32 {
    det(&rows(p, 3, false, Some(h))).sign()
}
fn sg(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else if x == 0.0 {
        0
    } else {
        9
    }
}
fn cmp(name: &str, got: f64, want: i32) -> Result<(), String> {
    if sg(got) != want {
        return Err(format!("{name} returned {got:?} but the exact determinant has sign {want}"));
    }
    Ok(())
}

pub fn run_orient(c: &mut Ctx) {
    while c.time_left() {
        for which in 0..2 {
            let d = which + 2;
            c.case(
                |r| points(r, d + 1, d),
                |p| format!("orient{d}d on {}", show_pts(p, d)),
                |p, cov| {
                    let w = if d == 2 { o2(p) } else { o3(p) };
                    *cov.entry(format!("orient{d}d sign {w}")).or_insert(0) += 1;
                    if d == 2 {
                        cmp("orient2d", g::orient2d(&p[0..2], &p[2..4], &p[4..6], Global), w)?;
                        for ax in 0..3 {
                            // the three projections of 3d points
                            let emb = |q: &[f64]| -> [f64; 3] {
                                match ax {
                                    0 => [7.0, q[0], q[1]],
                                    1 => [q[1], -3.0, q[0]],
                                    _ => [q[0], q[1], 0.25],
                                }
                            };
                            let (a, b, cc) = (emb(&p[0..2]), emb(&p[2..4]), emb(&p[4..6]));
                            let o = g::double_to_sign(g::orient2d(&p[0..2], &p[2..4], &p[4..6], Global));
                            let got = gpf_axis(&a, &b, &cc, ax);
                            if got != o {
                                return Err(format!("orient2d_by_axis {ax} gives {got:?}, orient2d on the projection {o:?}"));
                            }
                        }
                        Ok(())
                    } else {
                        cmp("orient3d", g::orient3d(&p[0..3], &p[3..6], &p[6..9], &p[9..12], Global), w)
                    }
                },
            );
        }
    }
}
fn gpf_axis(a: &[f64], b: &[f64], c: &[f64], ax: usize) -> g::Orientation {
    g::orient2d_by_axis(a, b, c, ax, Global)
}

pub fn run_lift(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| points(r, 4, 2),
            |p| format!("incircle on {}", show_pts(p, 2)),
            |p, cov| {
                let w = ic(p);
                *cov.entry(format!("incircle sign {w}")).or_insert(0) += 1;
                cmp("incircle", g::incircle(&p[0..2], &p[2..4], &p[4..6], &p[6..8], Global), w)
            },
        );
        c.case(
            |r| points(r, 5, 3),
            |p| format!("insphere on {}", show_pts(p, 3)),
            |p, cov| {
                let w = is(p);
                *cov.entry(format!("insphere sign {w}")).or_insert(0) += 1;
                cmp("insphere", g::insphere(&p[0..3], &p[3..6], &p[6..9], &p[9..12], &p[12..15], Global), w)
            },
        );
        c.case(
            |r| {
                let p = points(r, 5, 3);
                let k = r.below(4);
                let hs = points(r, 5, 2);
                let co: Vec<f64> = (0..4).map(|_| r.range(-4, 4) as f64).collect();
                let h: Vec<f64> = (0..5)
                    .map(|i| {
                        let q = &p[i * 3..i * 3 + 3];
                        match k {
                            0 => q[0] * q[0] + q[1] * q[1] + q[2] * q[2],
                            1 => hs[i * 2],
                            2 => co[0] * q[0] + co[1] * q[1] + co[2] * q[2] + co[3], // on a hyperplane up to rounding
                            _ => hs[0],
                        }
                    })
                    .collect();
                (p, h)
            },
            |(p, h)| format!("orient4d on {} heights {:?}", show_pts(p, 3), h),
            |(p, h), cov| {
                let w = o4(p, h);
                *cov.entry(format!("orient4d sign {w}")).or_insert(0) += 1;
                cmp(
                    "orient4d",
                    g::orient4d(&p[0..3], &p[3..6], &p[6..9], &p[9..12], &p[12..15], Global, h[0], h[1], h[2], h[3], h[4]),
                    w,
                )
            },
        );
    }
}
