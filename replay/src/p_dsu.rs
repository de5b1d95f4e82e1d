use crate::ctx::Ctx;
use gpf::disjoint_set::DisjointSet;

pub fn run(c: &mut Ctx) {
    // exhaustive small histories first, then random
    for n in 0..5usize {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
        let mut hists: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for len in 0..4 {
            for h in hists.clone() {
                if h.len() == len {
                    for &p in &pairs {
                        let mut g = h.clone();
                        g.push(p);
                        hists.push(g);
                    }
                }
            }
            if hists.len() > 20000 {
                break;
            }
        }
        for h in hists {
            one(c, n, Some(h));
        }
    }
    while c.time_left() {
        one(c, 0, None);
    }
}

fn one(c: &mut Ctx, n: usize, h: Option<Vec<(usize, usize)>>) {
    c.case(
        |r| match h {
            Some(h) => (n, h),
            None => {
                let n = 1 + r.below(60);
                let k = r.below(2 * n);
                let style = r.below(4);
                if style == 3 {
                    // joining blocks of equal size through their outer elements builds deep trees
                    let (e, first, rev) = (1 + r.below(7), r.bool(), r.bool());
                    let mut h = vec![];
                    for l in 0..e {
                        let w = 1 << l;
                        for i in (0..1 << e).step_by(2 * w) {
                            let (a, b) = if first { (i, i + w) } else { (i + w - 1, i + 2 * w - 1) };
                            h.push(if rev { (b, a) } else { (a, b) });
                        }
                    }
                    return ((1 << e) + r.below(3), h);
                }
                let h = (0..k)
                    .map(|i| match style {
                        0 => (r.below(n), r.below(n)),
                        1 => (i % n, (i + 1) % n),
                        _ => (r.below(n), r.below(1 + n / 3)),
                    })
                    .collect();
                (n, h)
            }
        },
        |(n, h)| format!("DisjointSet::new({n}); merges {h:?}"),
        |(n, h), cov| {
            let n = *n;
            let mut ds = DisjointSet::new(n);
            // oracle: explicit class labels
            let mut cls: Vec<usize> = (0..n).collect();
            let check = |ds: &mut DisjointSet, cls: &Vec<usize>, when: &str| -> Result<(), String> {
                let mut labels = cls.clone();
                labels.sort();
                labels.dedup();
                if ds.n_groups != labels.len() {
                    return Err(format!("{when}: n_groups = {} but there are {} groups", ds.n_groups, labels.len()));
                }
                let out = ds.output();
                if ds.n_groups != labels.len() {
                    return Err(format!("{when}: output() changed n_groups to {}", ds.n_groups));
                }
                let mut got = vec![usize::MAX; cls.len()];
                for (&k, v) in &out {
                    if v.is_empty() {
                        return Err(format!("{when}: empty group {k}"));
                    }
                    if !v.contains(&k) {
                        return Err(format!("{when}: group key {k} is not a member of its group {v:?}"));
                    }
                    for &x in v {
                        if x >= cls.len() || got[x] != usize::MAX {
                            return Err(format!("{when}: element {x} listed twice or out of range"));
                        }
                        got[x] = k;
                    }
                }
                for a in 0..cls.len() {
                    if got[a] == usize::MAX {
                        return Err(format!("{when}: element {a} missing from output"));
                    }
                    for b in 0..a {
                        if (cls[a] == cls[b]) != (got[a] == got[b]) {
                            return Err(format!("{when}: elements {b} and {a} grouped {} but merged {}", got[a] == got[b], cls[a] == cls[b]));
                        }
                    }
                }
                Ok(())
            };
            check(&mut ds, &cls, "initially")?;
            for (i, &(a, b)) in h.iter().enumerate() {
                ds.merge(a, b);
                let (ca, cb) = (cls[a], cls[b]);
                for x in cls.iter_mut() {
                    if *x == ca {
                        *x = cb;
                    }
                }
                // listing compresses paths, so many histories are only looked at in the end
                if n < 8 || (h.len() % 2 == 0 && i % 7 == 0 && !n.is_power_of_two() && n % 3 != 0) {
                    check(&mut ds, &cls, &format!("after merge {i}"))?;
                }
            }
            *cov.entry("histories".into()).or_insert(0) += 1;
            check(&mut ds, &cls, "finally")
        },
    );
}
