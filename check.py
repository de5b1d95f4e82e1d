#!/usr/bin/env python3
"""Decide one property:  python3 check.py P01

1. every deductive unit of the property regenerates its obligations from /repo's current
   sources and has the verifier discharge them;
2. the same contracts, in executable form with exact oracles, are run on the compiled code
   (bounded; a counterexample search, never counted as proof).

exit 0: nothing contradicts the property.  exit 1: a VIOLATION line.  exit 2: no answer.
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vc"))
import rsyn
from rsyn import BUILD, REPO
import registry

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def replay_bin():
    return f"{BUILD}/replay/debug/replay"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_replay(suite, seed, secs, case=None, trace=None):
    """-> ('ok', info) | ('fail', info) | ('none', reason)"""
    cmd = [replay_bin(), suite, "--seed", str(seed), "--secs", str(secs)]
    if case is not None:
        cmd += ["--case", str(case)]
    env = dict(os.environ, RUST_BACKTRACE="0")
    env.pop("REPLAY_KEEP", None)
    if trace:
        env["REPLAY_TRACE"] = trace
    else:
        env.pop("REPLAY_TRACE", None)
    try:
        with tempfile.TemporaryDirectory(prefix="rp_") as cwd:
            p = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=cwd, timeout=secs * 2 + 120, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "none", f"replay {suite} seed {seed}: timed out"
    for l in p.stdout.splitlines():
        if l.startswith("FAIL "):
            try:
                return "fail", json.loads(l[5:])
            except ValueError:
                return "fail", {"kind": "wrong", "what": l[5:], "input": "", "case": None, "seed": seed}
        if l.startswith("OK "):
            return "ok", json.loads(l[3:])
    if trace is None:
        # died without a report (abort, stack overflow, out of memory): find the case
        with tempfile.TemporaryDirectory(prefix="rt_") as d:
            t = os.path.join(d, "case")
            kind, info = run_replay(suite, seed, secs * 3 + 10, trace=t)
            if kind == "fail":
                return kind, info
            if os.path.exists(t) and kind == "none":
                idx, desc = open(t).read().split("\n", 1)
                return "fail", {"kind": "crash", "case": int(idx), "seed": seed, "input": desc,
                                "what": f"the process died (status {p.returncode}): {p.stderr.strip()[-300:]}"}
        return "none", f"replay {suite} seed {seed}: died with status {p.returncode}: {p.stderr[-300:]}"
    return "none", f"status {p.returncode}: {p.stderr[-300:]}"


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known", "findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    P = registry.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    say(f"{prop} {TIER} seed {SEED}")
    ok, log = rsyn.cargo_build("replay")
    if not ok:
        say("the replay harness does not build against /repo:\n" + log[-3000:])
        return 2
    try:
        rsyn.astdump_bin()
    except rsyn.ToolError as e:
        say(str(e))
        return 2

    # ---- deductive part and bounded search, side by side
    secs = P.get("secs", 20) if TIER == "quick" else P.get("secs_thorough", 240)
    nproc = P.get("procs", 3)
    jobs = []
    for s in P["suites"]:
        for k in range(nproc):
            jobs.append((s, SEED * 1000 + k))
    units, results = P.get("units", []), []
    with cf.ThreadPoolExecutor(8) as ex:
        us = [ex.submit(registry.run_unit, u, TIER) for u in units]
        rs = [ex.submit(run_replay, s, sd, secs) for s, sd in jobs]
        unit_res = [u.result() for u in us]
        results = [r.result() for r in rs]
    runs = list(zip(jobs, results))
    failed = [(u["unit"], n, d) for u in unit_res for n, d in u["failed"]]
    undecided = [(u["unit"], n, d) for u in unit_res for n, d in u["undecided"]]
    fails = [(j, r[1]) for j, r in runs if r[0] == "fail"]
    if (failed or undecided) and not fails:
        # an obligation is open: look longer for an input
        say(f"{len(failed)} failed, {len(undecided)} undecided obligations: searching for an input")
        more = P.get("secs_search", 60)
        jobs2 = [(s, SEED * 1000 + 500 + k) for k in range(max(1, 8 // len(P["suites"]))) for s in P["suites"]]
        with cf.ThreadPoolExecutor(8) as ex:
            r2 = list(ex.map(lambda j: run_replay(j[0], j[1], more), jobs2))
        runs += list(zip(jobs2, r2))
        fails = [(j, r[1]) for j, r in runs if r[0] == "fail"]
    dead = [r[1] for _, r in runs if r[0] == "none"]

    # ---- known findings
    listed = known_findings(prop)
    for k in listed:
        say(f"KNOWN-FINDING: property={prop} {k['what']}")
    new_fails = []
    for j, f in fails:
        if any(k.get("input") and k["input"] == f.get("input") for k in listed):
            continue
        new_fails.append((j, f))
    violation = None
    if new_fails:
        (suite, sd), f = min(new_fails, key=lambda x: len(x[1].get("input") or ""))
        violation = dict(property=prop, suite=suite, seed=sd, case=f.get("case"), kind=f.get("kind"), what=f.get("what"), input=f.get("input"),
                         command=f"{replay_bin()} {suite} --seed {sd} --case {f.get('case')}",
                         failed_obligations=[f"{u}: {n}: {d}" for u, n, d in failed])
    elif failed:
        violation = dict(property=prop, failed_obligations=[dict(unit=u, obligation=n, detail=d) for u, n, d in failed],
                         verifier_output={u["unit"]: u.get("log", "") for u in unit_res if u["failed"]},
                         note="the verifier gives no input and the bounded search found none")

    # ---- evidence
    ob = sum(u["obligations"] for u in unit_res)
    di = sum(u["discharged"] for u in unit_res)
    oks = [(j, r[1]) for j, r in runs if r[0] == "ok"]
    samples = [s for _, r in oks for s in r.get("samples", [])][:4]
    if not samples:
        samples = [f.get("input", "") for _, f in fails][:1]
    cover = {}
    for _, r in oks:
        for k, v in r.get("cover", {}).items():
            cover[k] = cover.get(k, 0) + v
    bounded = dict(suites=P["suites"], evaluations=sum(r["cases"] for _, r in oks) + sum((f.get("case") or 0) + 1 for _, f in fails),
                   distinct_nontrivial=sum(r.get("distinct", 0) for _, r in oks),
                   seeds=[j[1] for j, _ in runs], cover=cover,
                   label="bounded counterexample search on the compiled code; not counted as proved")
    cov = dict(
        evaluations=bounded["evaluations"], distinct_nontrivial=bounded["distinct_nontrivial"],
        rule=P.get("rule", "inputs drawn by the suite's generators (grid-aligned, degenerate, near-degenerate and wide-range ones); counted once per distinct input text within a seed"),
        samples=samples, bounded=bounded,
    )
    assumptions = list(P.get("assumptions", []))
    if units:
        cov.update(
            obligations=ob, discharged=di,
            checker_cmd=f"python3 /verif/check.py {prop}",
            trusted_base=sorted({a for u in unit_res for a in u["assumptions"]} | {u["backend"] for u in unit_res}),
            functions_under_contract=sorted({f for u in unit_res for f in u["functions"]}),
            units=[{k: u.get(k) for k in ("unit", "backend", "obligations", "discharged", "failed", "undecided", "rewrites", "smt_ms", "wall", "probes", "probes_ok", "detail")} for u in unit_res],
            solver_ms=sum(u.get("smt_ms", 0) for u in unit_res),
        )
        assumptions += [x for x in cov["trusted_base"] if x not in {u["backend"] for u in unit_res}]
        if undecided:
            cov["not_reestablished"] = [f"{u}: {n}: {d}" for u, n, d in undecided]
    if P["level"] == "other":
        cov["explanation"] = P["explanation"]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=P["level"], coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    with open(os.path.join(VERIF, P.get("evidence", f"evidence/{prop}.json")), "w") as f:
        json.dump(ev, f, indent=1)

    for u in unit_res:
        say(f"  unit {u['unit']}: {u['discharged']}/{u['obligations']} obligations discharged ({u['backend']}), "
            f"{len(u['failed'])} failed, {len(u['undecided'])} undecided, vacuity probes {u['probes_ok']}/{u['probes']}, {u['wall']:.1f} s")
        for n, d in u["failed"]:
            say(f"    failed {n}: {d[:300]}")
        for n, d in u["undecided"]:
            say(f"    undecided {n}: {d[:300]}")
    say(f"  bounded: {bounded['evaluations']} evaluations, {bounded['distinct_nontrivial']} distinct; {len(fails)} failing")
    if violation:
        path = os.path.join(VERIF, "evidence", f"replay-{prop}.json")
        json.dump(violation, open(path, "w"), indent=1)
        if "input" in violation:
            say(f"  {violation['suite']} case {violation['case']}: {violation['what'][:600]}\n  input: {violation['input'][:1500]}")
            say(f"VIOLATION property={prop} replay={path}")
        else:
            say(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return 1
    if dead:
        say("no answer: " + "; ".join(dead))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
