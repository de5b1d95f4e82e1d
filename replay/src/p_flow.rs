use crate::ctx::{Ctx, Rng};
use gpf::graphcut::{ArcBuilder, GraphCut, MaxFlow, PushRelabelFifo};

/// plain Edmonds-Karp on an adjacency matrix
pub fn max_flow(n: usize, arcs: &[(usize, usize, i64)], s: usize, t: usize) -> i64 {
    let mut cap = vec![vec![0i64; n]; n];
    for &(a, b, c) in arcs {
        if a != b {
            cap[a][b] += c;
        }
    }
    let mut flow = 0;
    loop {
        let mut par = vec![usize::MAX; n];
        par[s] = s;
        let mut q = vec![s];
        let mut k = 0;
        while k < q.len() {
            let u = q[k];
            k += 1;
            for v in 0..n {
                if par[v] == usize::MAX && cap[u][v] > 0 {
                    par[v] = u;
                    q.push(v);
                }
            }
        }
        if par[t] == usize::MAX {
            return flow;
        }
        let mut d = i64::MAX;
        let mut v = t;
        while v != s {
            d = d.min(cap[par[v]][v]);
            v = par[v];
        }
        v = t;
        while v != s {
            cap[par[v]][v] -= d;
            cap[v][par[v]] += d;
            v = par[v];
        }
        flow += d;
    }
}

fn gen_arcs(r: &Rng) -> (usize, Vec<(usize, usize, i64)>) {
    let n = 2 + r.below(if r.below(4) == 0 { 12 } else { 5 });
    let m = r.below(3 * n + 2);
    let maxc = [1, 3, 10, 1000][r.below(4)];
    let style = r.below(4);
    let mut arcs = vec![];
    for _ in 0..m {
        let (mut a, b) = (r.below(n), r.below(n));
        if a == b {
            continue;
        }
        if style == 3 && r.bool() {
            a = b.saturating_sub(1);
            if a == b {
                continue;
            }
        }
        let cap = r.range(0, maxc);
        arcs.push((a, b, cap));
        if style == 1 || (style == 2 && r.bool()) {
            arcs.push((b, a, if r.bool() { cap } else { r.range(0, maxc) }));
        }
    }
    (n, arcs)
}

fn check_cut(n: usize, arcs: &[(usize, usize, i64)], s: usize, t: usize, sink: &[bool], f: i64) -> Result<(), String> {
    if sink[s] {
        return Err("the source is reported on the sink side".into());
    }
    if !sink[t] {
        return Err("the sink is not reported on the sink side".into());
    }
    let cut: i64 = arcs.iter().filter(|a| !sink[a.0] && sink[a.1]).map(|a| a.2).sum();
    if cut != f {
        return Err(format!("the reported cut {sink:?} has capacity {cut}, the maximum flow is {f} (n={n})"));
    }
    Ok(())
}

pub fn run_pr(c: &mut Ctx) {
    let mut k = 0u64;
    while c.time_left() {
        k += 1;
        let kind = k % 4;
        c.case(
            |r| {
                if kind == 3 {
                    // through ArcBuilder, the way the library itself builds its networks
                    let m = 1 + r.below(7);
                    let maxc = [1, 3, 10][r.below(3)];
                    let src: Vec<i64> = (0..m).map(|_| r.range(0, maxc)).collect();
                    let snk: Vec<i64> = (0..m).map(|_| r.range(0, maxc)).collect();
                    let es: Vec<(usize, usize, i64, bool)> = (0..r.below(3 * m))
                        .map(|_| (r.below(m), r.below(m), r.range(0, maxc), r.bool()))
                        .filter(|e| e.0 != e.1)
                        .collect();
                    let mut b = ArcBuilder::new(&src, &snk);
                    let mut want = vec![];
                    for i in 0..m {
                        want.push((0, i + 1, src[i]));
                    }
                    for i in 0..m {
                        want.push((i + 1, m + 1, snk[i]));
                    }
                    for &(a, d, cap, rev) in &es {
                        b.add_arc(a, d, cap, rev);
                        want.push((a + 1, d + 1, cap));
                        if rev {
                            want.push((d + 1, a + 1, cap));
                        }
                    }
                    (m + 2, want, Some(b.arcs))
                } else {
                    let (n, a) = gen_arcs(r);
                    (n, a, None)
                }
            },
            |(n, a, _)| format!("PushRelabelFifo over {n} nodes (source 0, sink {}), arcs (from,to,capacity) {a:?}", n - 1),
            |(n, arcs, built), cov| {
                let n = *n;
                if let Some(b) = built {
                    let (mut x, mut y) = (b.clone(), arcs.clone());
                    x.sort();
                    y.sort();
                    if x != y {
                        return Err(format!("ArcBuilder built {b:?}"));
                    }
                }
                let f = max_flow(n, arcs, 0, n - 1);
                let sides: Vec<bool> = if kind == 0 {
                    let fa: Vec<(usize, usize, f64)> = arcs.iter().map(|&(a, b, c)| (a, b, c as f64 * 0.125)).collect();
                    let mut g = PushRelabelFifo::from((fa, n));
                    g.find_max_flow();
                    (0..n).map(|i| g.is_sink(i)).collect()
                } else {
                    let fa: Vec<(usize, usize, i64)> = arcs.clone();
                    let mut g = PushRelabelFifo::from((fa, n));
                    g.find_max_flow();
                    (0..n).map(|i| g.is_sink(i)).collect()
                };
                *cov.entry(if f > 0 { "positive flow" } else { "zero flow" }.into()).or_insert(0) += 1;
                check_cut(n, arcs, 0, n - 1, &sides, f)
            },
        );
    }
}

pub fn run_bk(c: &mut Ctx) {
    while c.time_left() {
        c.case(
            |r| {
                let m = 1 + r.below(if r.below(4) == 0 { 14 } else { 6 });
                let maxc = [1, 3, 10, 1000][r.below(4)];
                let sparse = r.below(3);
                let t = |r: &Rng| if sparse > 0 && r.below(1 + sparse * 2) > 0 { 0 } else { r.range(0, maxc) };
                let src: Vec<i64> = (0..m).map(|_| t(r)).collect();
                let snk: Vec<i64> = (0..m).map(|_| t(r)).collect();
                let es: Vec<(usize, usize, i64, i64)> = (0..r.below(3 * m))
                    .map(|_| (r.below(m), r.below(m), r.range(0, maxc), r.range(0, maxc)))
                    .filter(|e| e.0 != e.1)
                    .collect();
                (src, snk, es)
            },
            |(s, t, e)| format!("GraphCut::new({s:?}, {t:?}); add_edge(i, j, cap, rev_cap) {e:?}"),
            |(s, t, es), cov| {
                let m = s.len();
                let fl = |v: &Vec<i64>| v.iter().map(|&x| x as f64 * 0.5).collect::<Vec<f64>>();
                let mut g = GraphCut::new(&fl(s), &fl(t));
                let mut arcs = vec![];
                for i in 0..m {
                    arcs.push((m, i, s[i]));
                    arcs.push((i, m + 1, t[i]));
                }
                for &(a, b, x, y) in es {
                    g.add_edge(a, b, x as f64 * 0.5, y as f64 * 0.5);
                    arcs.push((a, b, x));
                    arcs.push((b, a, y));
                }
                let f = max_flow(m + 2, &arcs, m, m + 1);
                let got = g.max_flow();
                if got != f as f64 * 0.5 || g.flow != got {
                    return Err(format!("max_flow() returned {got}, flow field {}, the maximum flow is {}", g.flow, f as f64 * 0.5));
                }
                *cov.entry(if f > 0 { "positive flow" } else { "zero flow" }.into()).or_insert(0) += 1;
                let mut sides = g.is_sink.clone();
                sides.push(false);
                sides.push(true);
                check_cut(m + 2, &arcs, m, m + 1, &sides, f)
            },
        );
    }
}
