"""Deductive units decided by the algebraic engine (interp.py, sym.py, cert.py).

python3 s_units.py NAME  prints a JSON result; registry.py runs each unit in its own process."""
import json, sys, time, traceback
from num_units import *
from cert import Cert

BACKEND = "symbolic VC generation from the AST + exact rational polynomial arithmetic (vc/interp.py, vc/sym.py, vc/cert.py)"
FLOAT = "f64 operations round to nearest without overflow or underflow (|fl(q)-q| <= u|q|, u|fl(q)|; fl odd, monotone, exact for powers of two)"
BLOCKS = "contracts of the expansion building blocks (value identities, non-overlapping results, estimate within u(1+2^-40)) as used here are those of P04"


class Result:
    def __init__(self, name):
        self.name = name
        self.ob, self.ok = 0, 0
        self.failed, self.undecided, self.log = [], [], []
        self.functions, self.assumptions, self.detail = set(), {FLOAT}, {}
        self.probes = self.probes_ok = 0

    def add(self, name, r):
        """r None: discharged; else (kind, text)"""
        self.ob += 1
        if r is None:
            self.ok += 1
        elif r[0] == "failed":
            self.failed.append((name, r[1]))
        else:
            self.undecided.append((name, r[1]))

    def probe(self, ok):
        self.probes += 1
        self.probes_ok += bool(ok)

    def use(self, N):
        self.functions |= {f for f in N.it.inlined}
        self.detail.setdefault("callee_contracts_used", [])
        self.detail["callee_contracts_used"] = sorted(set(self.detail["callee_contracts_used"]) | set(map(str, N.it.used)))

    def out(self):
        return dict(unit=self.name, backend=getattr(self, "backend", BACKEND), obligations=self.ob, discharged=self.ok, failed=self.failed[:20], undecided=self.undecided[:20],
                    functions=sorted(self.functions), rewrites=[], smt_ms=0, assumptions=sorted(self.assumptions),
                    probes=self.probes, probes_ok=self.probes_ok, log="\n".join(f"{n}: {d}" for n, d in (self.failed + self.undecided))[:4000], detail=self.detail)


def describe(sp, facts):
    return " & ".join(f"{sp.show(P, 3)} {rel} 0" for rel, P, _ in facts[-3:])


def merge_same(xs):
    seen, out = {}, []
    for n, d in xs:
        if d not in seen:
            seen[d] = 0
            out.append((n, d))
    return out


def predicate(R, N, name, args, true, sign=1, slack1=Fr(0), slack2=Fr(0)):
    """every path of fn `name` returns a float with the sign of sign*true"""
    cert = Cert(N, slack1, slack2)
    fns = [f for f in N.ix.free.get(name, []) if f.rel == PRED]
    if len(fns) != 1:
        raise Undecided(f"anchor lost: function {name}")
    true = true.scale(sign)
    n = 0
    for k, r, facts in N.it.paths(lambda: N.it.call_fn(fns[0], args())):
        n += 1
        nm = f"{name}: path {n} [{describe(N.sp, facts)}]"
        if k != "ret":
            R.add(nm, ("undecided" if r == "assertion" else "failed", f"may panic: {r}" if k == "panic" else f"precondition: {r}"))
            continue
        try:
            v = N.it.asF(r)
            w = cert.check(v, true, facts)
            if n <= 3 or v.last:
                R.probe(cert.check(v, -true, facts) is not None)
        except Undecided as e:
            w = ("undecided", str(e))
        R.add(nm, w)
    R.detail[name] = f"{n} paths"
    R.assumptions |= {f"{name}: {a}" for a in cert.assumed}
    R.use(N)


def sub(ps, q):
    return [[x.V - y.V for x, y in zip(p.a, q.a)] for p in ps]


def lifted(rows):
    out = []
    for r in rows:
        s = ZERO
        for x in r:
            s = s + x * x
        out.append(r + [s])
    return out


SHAPE = {"orient2d": (2, 3), "orient3d": (3, 4), "incircle": (2, 4), "insphere": (3, 5), "orient4d": (3, 5)}


def u_predicate(name):
    def run(R):
        R.assumptions.add(BLOCKS)
        N = Num()
        d, n = SHAPE[name]
        ps = [N.vec("abcde"[i], d) for i in range(n)]
        rows = sub(ps[:-1], ps[-1])
        al = Opaque("alloc")
        s1 = s2 = Fr(0)
        if name[0] == "i":
            rows = lifted(rows)
        if name == "orient4d":
            hs = [F(N.sp.input("h" + "abcde"[i])) for i in range(5)]
            rows = [r + [h.V - hs[-1].V] for r, h in zip(rows, hs)]
            args = lambda: ps + [al] + hs
        else:
            args = lambda: ps + [al]
        if name == "insphere":
            # 5u + 72u^2 and 71u^2: the mechanical bound is 5u + 80u^2 and 75u^2
            s1, s2 = 2 * U, Fr(6, 100)
        predicate(R, N, name, args, det(rows), 1, s1, s2)
    return run


UNITS = {n: u_predicate(n) for n in SHAPE}


def lazy(mod, fn, *a):
    def run(R):
        import importlib
        f = getattr(importlib.import_module(mod), fn)
        return f(*a)(R) if a else f(R)
    return run


UNITS["lpi"] = lazy("impl_units", "u_implicit", "ImplicitPointLPI")
UNITS["helpers"] = lazy("help_units", "u_helpers")
UNITS["to_explicit"] = lazy("impl_units", "u_to_explicit")
UNITS["handles"] = lazy("hand_units", "u_handles")
UNITS["eft"] = lazy("eft_units", "u_eft")
UNITS["expansion"] = lazy("exp_units", "u_expansion")
UNITS["interval"] = lazy("ival_units", "u_interval")
UNITS["tpi"] = lazy("impl_units", "u_implicit", "ImplicitPointTPI")
for _n in ("orient2d_mixed", "orient3d_mixed", "less_mixed", "orient2d_public", "orient3d_public", "less_public"):
    UNITS[_n] = lazy("impl_units", "u_" + _n)


def main(name):
    R = Result(name)
    t0 = time.time()
    try:
        UNITS[name](R)
    except Undecided as e:
        R.undecided.append((name, str(e)))
    except RecursionError:
        R.undecided.append((name, "recursion limit"))
    except Exception:
        R.undecided.append((name, "internal error: " + traceback.format_exc()[-800:]))
    R.failed, R.undecided = merge_same(R.failed), merge_same(R.undecided)
    o = R.out()
    o["wall"] = time.time() - t0
    return o


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    o = main(sys.argv[1])
    if len(sys.argv) > 2:
        print(o["unit"], f"{o['discharged']}/{o['obligations']} failed {len(o['failed'])} undecided {len(o['undecided'])} probes {o['probes_ok']}/{o['probes']} {o['wall']:.1f}s")
        for k in ("failed", "undecided"):
            for n, d in o[k][:6]:
                print("  ", k, n[:200], "::", d[:300])
        print("  assumptions:", o["assumptions"])
        print("  functions:", len(o["functions"]), o["functions"][:12])
        print("  contracts:", o["detail"])
    else:
        print(json.dumps(o))
