"""What decides each property: deductive units and bounded suites."""
import time, traceback
import rsyn
from verus_unit import Unit

S_UNITS = ["orient2d", "orient3d", "incircle", "insphere", "orient4d", "lpi", "tpi", "to_explicit", "helpers", "orient2d_mixed", "orient3d_mixed", "less_mixed",
           "orient2d_public", "orient3d_public", "less_public", "interval", "eft", "expansion", "handles"]


def s_unit(name):
    def run(tier):
        import json, os, subprocess, sys
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_units.py"), name],
                           capture_output=True, text=True, timeout=500 if tier == "quick" else 1800)
        if p.returncode:
            raise rsyn.ToolError(f"{name}: the algebraic engine died: {p.stderr[-400:]}")
        r = json.loads(p.stdout)
        for k in ("failed", "undecided"):
            r[k] = [tuple(x) for x in r[k]]
        return r
    return run


EXTRA = {n: s_unit(n) for n in S_UNITS}


def run_unit(name, tier="quick"):
    t0 = time.time()
    base = dict(unit=name, backend="", obligations=0, discharged=0, failed=[], undecided=[], functions=[], rewrites=[],
                smt_ms=0, wall=0.0, assumptions=[], probes=0, probes_ok=0, log="")
    try:
        if name in EXTRA:
            r = EXTRA[name](tier)
        else:
            r = Unit(name).check(rlimit=20 if tier == "quick" else 60)
    except rsyn.ToolError as e:
        r = dict(undecided=[(name, str(e))])
    except Exception as e:  # the machinery's own trouble is never a verdict
        r = dict(undecided=[(name, "internal error: " + traceback.format_exc()[-600:])])
    out = {**base, **r}
    if not out["wall"]:
        out["wall"] = time.time() - t0
    return out


PROPS = {
    "P01": dict(level="proof", units=["dsu"], suites=["dsu"], secs=8, procs=2),
    "P02": dict(level="proof", units=["flow"], suites=["flow_pr"], secs=15, procs=4),
    "P03": dict(level="proof", units=["cut"], suites=["flow_bk"], secs=15, procs=4),
    "P04": dict(level="proof", units=["eft", "expansion"], suites=["expansion"], secs=15, procs=4),
    "P05": dict(level="proof", units=["orient2d", "orient3d"], suites=["orient"], secs=15, procs=4),
    "P06": dict(level="proof", units=["incircle", "insphere", "orient4d"], suites=["lift"], secs=20, procs=4),
    "P07": dict(level="proof", units=["interval"], suites=["interval"], secs=20, procs=4),
    "P08": dict(level="proof", units=["lpi", "tpi", "to_explicit"], suites=["implicit"], secs=20, procs=4),
    "P09": dict(level="proof", units=["orient2d_mixed", "orient2d_public", "orient3d_mixed", "orient3d_public"], suites=["orient_impl"], secs=20, procs=4),
    "P10": dict(level="proof", units=["less_mixed", "less_public"], suites=["less"], secs=20, procs=4),
    "P11": dict(level="proof", units=["helpers"], suites=["helpers"], secs=20, procs=4),
    "P12": dict(level="proof", units=["edits", "build"], suites=["mesh"], secs=15, procs=4),
    "P13": dict(level="proof", units=["traverse"], suites=["mesh_iter"], secs=15, procs=4),
    "P14": dict(level="exploration", suites=["tri"], secs=25, procs=6),
    "P15": dict(level="exploration", suites=["tet"], secs=30, procs=7),
    "P16": dict(level="proof", units=["dedup"], suites=["dedup"], secs=15, procs=4),
    "P17": dict(level="exploration", suites=["poly"], secs=40, procs=7),
    "P18": dict(level="proof", units=["handles"], suites=["handles"], secs=15, procs=4),
}
