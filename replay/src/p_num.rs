//! Expansion arithmetic and interval arithmetic against exact dyadics.
use crate::big::Dy;
use crate::ctx::{Ctx, Rng};
use gpf::predicates as g;
use gpf::predicates::{ExpansionNum, IntervalNumber};
use std::alloc::Global;

fn flt(r: &Rng) -> f64 {
    let m: f64 = match r.below(5) {
        0 => r.range(-9, 9) as f64,
        1 => (1.0 + r.unit()) * if r.bool() { 1.0 } else { -1.0 },
        2 => {
            // few bits far apart
            (1.0 + 2f64.powi(-(r.range(1, 52) as i32))) * if r.bool() { 1.0 } else { -1.0 }
        }
        3 => (2.0 - f64::EPSILON * r.range(1, 4) as f64) * if r.bool() { 1.0 } else { -1.0 },
        _ => f64::from_bits(((r.u() & 0x000f_ffff_ffff_ffff) | 0x3ff0_0000_0000_0000) & !((1u64 << r.below(53)) - 1)),
    };
    m * 2f64.powi(match r.below(3) {
        0 => 0,
        1 => r.range(-6, 6) as i32,
        _ => r.range(-60, 60) as i32,
    })
}

/// a valid expansion: exact result of summing/multiplying a few numbers, built by the oracle by
/// repeatedly taking the nearest double of the exact remainder (non-adjacent, strongly nonoverlapping)
fn expansion(r: &Rng, maxn: usize) -> Vec<f64> {
    let mut v = Dy::zero();
    for _ in 0..1 + r.below(maxn) {
        let t = Dy::f(flt(r));
        v = if r.below(3) == 0 { &v * &t } else { &v + &t };
    }
    to_expansion(&v, 40)
}
fn nearest(v: &Dy) -> f64 {
    // round to nearest via approx then fix up
    let mut x = v.approx();
    loop {
        let d = (v - &Dy::f(x)).abs();
        let up = x.next_up();
        let dn = x.next_down();
        let du = (v - &Dy::f(up)).abs();
        let dd = (v - &Dy::f(dn)).abs();
        if (&d - &du).sign() > 0 {
            x = up
        } else if (&d - &dd).sign() > 0 {
            x = dn
        } else {
            return x;
        }
    }
}
fn to_expansion(v: &Dy, max: usize) -> Vec<f64> {
    let mut rest = v.clone();
    let mut out = vec![];
    while rest.sign() != 0 && out.len() < max {
        let x = nearest(&rest);
        out.push(x);
        rest = &rest - &Dy::f(x);
    }
    out.reverse();
    if out.is_empty() {
        out.push(0.0);
    }
    out
}
fn same(what: &str, got: &[f64], want: &Dy) -> Result<(), String> {
    if got.iter().any(|x| !x.is_finite()) {
        return Err(format!("{what}: non-finite component in {got:?}"));
    }
    if !Dy::sum(got).eq(want) {
        return Err(format!("{what}: {got:?} sums to {} but the exact value is {}", Dy::sum(got).approx(), want.approx()));
    }
    Ok(())
}
fn lead(what: &str, got: &[f64], want: &Dy) -> Result<(), String> {
    same(what, got, want)?;
    match got.last() {
        None => Err(format!("{what}: empty expansion")),
        Some(&l) => {
            let s = if l > 0.0 { 1 } else if l < 0.0 { -1 } else { 0 };
            if s != want.sign() {
                Err(format!("{what}: last component {l} of {got:?} does not have the sign {} of the value", want.sign()))
            } else {
                Ok(())
            }
        }
    }
}

pub fn run_exp(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| [flt(r), flt(r), flt(r), flt(r)],
            |v| format!("primitives on {v:?}"),
            |&[a, b, cc, d], _| {
                let (da, db, dc, dd) = (Dy::f(a), Dy::f(b), Dy::f(cc), Dy::f(d));
                let chk = |w: &str, x: f64, y: f64, want: Dy, rn: f64| -> Result<(), String> {
                    same(w, &[x, y], &want)?;
                    if x != rn {
                        return Err(format!("{w}: leading part {x} is not the rounded result {rn}"));
                    }
                    Ok(())
                };
                let (x, y) = g::two_sum(a, b);
                chk("two_sum", x, y, &da + &db, a + b)?;
                let (x, y) = g::two_diff(a, b);
                chk("two_diff", x, y, &da - &db, a - b)?;
                same("two_diff_tail", &[a - b, g::two_diff_tail(a, b, a - b)], &(&da - &db))?;
                let (big, sm) = if a.abs() >= b.abs() { (a, b) } else { (b, a) };
                let (x, y) = g::fast_two_sum(big, sm);
                chk("fast_two_sum", x, y, &da + &db, a + b)?;
                let (x, y) = g::fast_two_diff(big, sm);
                chk("fast_two_diff", x, y, &Dy::f(big) - &Dy::f(sm), big - sm)?;
                let (x, y) = g::two_product(a, b);
                chk("two_product", x, y, &da * &db, a * b)?;
                let (x, y) = g::square(a);
                chk("square", x, y, &da * &da, a * a)?;
                // two-component operands
                let (a1, a0) = g::two_sum(a, b);
                let (b1, b0) = g::two_sum(cc, d);
                let (x3, x2, x1, x0) = g::two_two_sum(a1, a0, b1, b0);
                same("two_two_sum", &[x0, x1, x2, x3], &(&(&da + &db) + &(&dc + &dd)))?;
                let (x3, x2, x1, x0) = g::two_two_diff(a1, a0, b1, b0);
                same("two_two_diff", &[x0, x1, x2, x3], &(&(&da + &db) - &(&dc + &dd)))?;
                let (x3, x2, x1, x0) = g::two_one_product(a1, a0, cc);
                same("two_one_product", &[x0, x1, x2, x3], &(&(&da + &db) * &dc))?;
                Ok(())
            },
        );
        c.case(
            |r| (expansion(r, 8), expansion(r, 8), flt(r)),
            |v| format!("expansions {v:?}"),
            |(e, f, b), cov| {
                let (de, df, db) = (Dy::sum(e), Dy::sum(f), Dy::f(*b));
                *cov.entry(format!("lengths {}x{}", e.len().min(4), f.len().min(4))).or_insert(0) += 1;
                lead("fast_expansion_sum_zeroelim", &g::fast_expansion_sum_zeroelim(e, f, Global), &(&de + &df))?;
                lead("fast_expansion_diff_zeroelim", &g::fast_expansion_diff_zeroelim(e, f, Global), &(&de - &df))?;
                lead("scale_expansion_zeroelim", &g::scale_expansion_zeroelim(e, *b, Global), &(&de * &db))?;
                lead("mul_expansion_zeroelim", &g::mul_expansion_zeroelim(e, f, Global), &(&de * &df))?;
                same("grow_expansion", &g::grow_expansion(e, *b, Global), &(&de + &db))?;
                let gz = g::grow_expansion_zeroelim(e, *b, Global);
                same("grow_expansion_zeroelim", &gz, &(&de + &db))?;
                same("expansion_sum", &g::expansion_sum(e, f, Global), &(&de + &df))?;
                let mut inv = e.clone();
                g::expansion_invert(&mut inv);
                same("expansion_invert", &inv, &de.neg())?;
                let est = g::estimate(e);
                let err = (&Dy::f(est) - &de).abs();
                // within 2^-50 of the value
                if (&err - &de.abs().mul_pow2(-50)).sign() > 0 {
                    return Err(format!("estimate {est} is not within 2^-50 of the value {}", de.approx()));
                }
                Ok(())
            },
        );
        // expression trees over ExpansionNum
        c.case(
            |r| (0..12).map(|_| (flt(r), r.below(3), r.below(4))).collect::<Vec<_>>(),
            |v| format!("expression {v:?}"),
            |v, _| {
                let mut acc: ExpansionNum = vec![v[0].0].into();
                let mut ex = Dy::f(v[0].0);
                let mut acc2: ExpansionNum = vec![v[1].0].into();
                let mut ex2 = Dy::f(v[1].0);
                for (i, &(x, op, form)) in v.iter().enumerate().skip(2) {
                    let rhs: ExpansionNum = vec![x].into();
                    let dx = Dy::f(x);
                    if i % 4 == 3 && acc.len() < 40 {
                        let t = match op {
                            0 => (&acc + &acc2, &ex + &ex2),
                            1 => (&acc - &acc2, &ex - &ex2),
                            _ => (&acc * &acc2, &ex * &ex2),
                        };
                        acc2 = acc;
                        ex2 = ex;
                        (acc, ex) = t;
                    } else {
                        let nex = match op {
                            0 => &ex + &dx,
                            1 => &ex - &dx,
                            _ => &ex * &dx,
                        };
                        acc = match (op, form) {
                            (0, 0) => acc + rhs,
                            (0, 1) => acc + &rhs,
                            (0, 2) => &acc + rhs,
                            (0, _) => &acc + &rhs,
                            (1, 0) => acc - rhs,
                            (1, 1) => acc - &rhs,
                            (1, 2) => &acc - rhs,
                            (1, _) => &acc - &rhs,
                            (_, 0) => acc * rhs,
                            (_, 1) => acc * &rhs,
                            (_, 2) => &acc * rhs,
                            (_, _) => &acc * &rhs,
                        };
                        ex = nex;
                    }
                    lead("ExpansionNum expression", &acc, &ex)?;
                    if acc.not_zero() != (ex.sign() != 0) || acc.negative() != (ex.sign() < 0) {
                        return Err("not_zero/negative disagree with the exact value".into());
                    }
                }
                acc.neg();
                lead("ExpansionNum neg", &acc, &ex.neg())
            },
        );
    }
}

fn isg(i: &IntervalNumber, v: &Dy, w: &str) -> Result<(), String> {
    let s = v.sign();
    if i.positive() && s <= 0 {
        return Err(format!("{w}: positive() but the enclosed value {} has sign {s}", v.approx()));
    }
    if i.negative() && s >= 0 {
        return Err(format!("{w}: negative() but the enclosed value {} has sign {s}", v.approx()));
    }
    if i.not_zero() && s == 0 {
        return Err(format!("{w}: not_zero() but the enclosed value is zero"));
    }
    if i.not_zero() != (i.positive() || i.negative()) {
        return Err(format!("{w}: not_zero() {} positive() {} negative() {}", i.not_zero(), i.positive(), i.negative()));
    }
    Ok(())
}

pub fn run_ival(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| {
                (0..r.below(10) + 2)
                    .map(|_| {
                        let a = flt(r);
                        let b = if r.bool() { a } else { flt(r) };
                        (a.min(b), a.max(b), r.below(3), r.below(4), r.below(6), r.below(3))
                    })
                    .collect::<Vec<_>>()
            },
            |v| format!("interval expression (low, high, pick, form, op, stack) {v:?}"),
            |v, cov| {
                // a stack machine; every interval carries hidden members of it, at least both ends
                let mut st: Vec<(IntervalNumber, Vec<Dy>)> = vec![];
                for &(lo, hi, _pick, form, op, _k) in v {
                    let leaf = if lo == hi && op % 2 == 0 {
                        (IntervalNumber::from(lo), vec![Dy::f(lo)])
                    } else {
                        let mid = (&Dy::f(lo) + &Dy::f(hi)).mul_pow2(-1);
                        (IntervalNumber::new(lo, hi), vec![Dy::f(lo), Dy::f(hi), mid])
                    };
                    for m in &leaf.1 {
                        isg(&leaf.0, m, "leaf")?;
                    }
                    // a leaf decides the sign it must: both ends on one side of zero
                    if lo > 0.0 && !leaf.0.positive() || hi < 0.0 && !leaf.0.negative() {
                        return Err(format!("interval [{lo}, {hi}] does not report its sign"));
                    }
                    if st.is_empty() || op == 5 && st.len() < 3 {
                        st.push(leaf);
                        continue;
                    }
                    let (a, am) = st.pop().unwrap();
                    let (b, bm) = leaf;
                    let (x, f): (IntervalNumber, fn(&Dy, &Dy) -> Dy) = match (op % 3, form) {
                        (0, 0) => (a.clone() + b.clone(), |p, q| p + q),
                        (0, 1) => (a.clone() + &b, |p, q| p + q),
                        (0, 2) => (&a + b.clone(), |p, q| p + q),
                        (0, _) => (&a + &b, |p, q| p + q),
                        (1, 0) => (a.clone() - b.clone(), |p, q| p - q),
                        (1, 1) => (a.clone() - &b, |p, q| p - q),
                        (1, 2) => (&a - b.clone(), |p, q| p - q),
                        (1, _) => (&a - &b, |p, q| p - q),
                        (_, 0) => (a.clone() * b.clone(), |p, q| p * q),
                        (_, 1) => (a.clone() * &b, |p, q| p * q),
                        (_, 2) => (&a * b.clone(), |p, q| p * q),
                        (_, _) => (&a * &b, |p, q| p * q),
                    };
                    *cov.entry(format!("op {}", op % 3)).or_insert(0) += 1;
                    let mut xm: Vec<Dy> = vec![];
                    for p in &am {
                        for q in &bm {
                            xm.push(f(p, q));
                        }
                    }
                    for m in &xm {
                        isg(&x, m, &format!("op {} result", op % 3))?;
                    }
                    // the enclosure itself, observed through comparisons: x - t is never negative
                    // for t at or below a member, never positive for t at or above one
                    for m in &xm {
                        let t = m.approx();
                        if !t.is_finite() || t.abs() < 1e-200 {
                            continue;
                        }
                        for t in [t.next_down().next_down(), t, t.next_up().next_up()] {
                            let d = &x - IntervalNumber::from(t);
                            isg(&d, &(m - &Dy::f(t)), &format!("op {} result minus {t}", op % 3))?;
                        }
                    }
                    // usefulness: the enclosure is not absurdly wide - if every member is far from zero
                    // and of one sign the sign is decided
                    if am.len() == 1 && bm.len() == 1 && op % 3 != 2 {
                        let m = &xm[0];
                        let scale = &am[0].abs() + &bm[0].abs();
                        if (&m.abs().mul_pow2(40) - &scale).sign() > 0 && !x.not_zero() {
                            return Err("sum of two numbers far from zero leaves the sign undecided".into());
                        }
                    }
                    let mut y = x.clone();
                    y.neg();
                    for m in &xm {
                        isg(&y, &m.neg(), "neg")?;
                    }
                    if xm.len() > 12 {
                        // keep the extremes
                        xm.sort_by(|a, b| a.cmp(b));
                        let n = xm.len();
                        xm = vec![xm[0].clone(), xm[n / 3].clone(), xm[n / 2].clone(), xm[n - 1].clone()];
                    }
                    st.push((x, xm));
                    if st.len() > 1 && op == 4 {
                        let (b, bm) = st.pop().unwrap();
                        let (a, am) = st.pop().unwrap();
                        let z = &a * &b;
                        let mut zm = vec![];
                        for p in &am {
                            for q in &bm {
                                zm.push(p * q);
                            }
                        }
                        for m in &zm {
                            isg(&z, m, "product of two computed intervals")?;
                        }
                        zm.sort_by(|a, b| a.cmp(b));
                        let n = zm.len();
                        zm = vec![zm[0].clone(), zm[n / 2].clone(), zm[n - 1].clone()];
                        st.push((z, zm));
                    }
                }
                Ok(())
            },
        );
    }
}
