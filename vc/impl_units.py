"""Implicit points, and the orientation and comparison tests on them (P08, P09, P10)."""
import itertools
from num_units import *
from interp import Ap, Mx, ApCond
import filt

GP = "src/predicates/generic_point.rs"
O2, O3, LT, MODRS = "src/predicates/orient2d.rs", "src/predicates/orient3d.rs", "src/predicates/less_than.rs", "src/predicates/mod.rs"
EXN, IVN = "src/predicates/expansion_number.rs", "src/predicates/interval_number.rs"
FILES = [GP, O2, O3, LT, MODRS, PRED, EXN]

# contract of static_filter, relative to the reported maximum: component -> (degree, magnitude, error)
SLACK = 64 * U            # tolerated shortage of a published filter constant (second-order terms)


def c_abs_max(it, a, t):
    xs = it.items(a[0])
    if not all(isinstance(it.val(x), Ap) for x in xs):
        raise Undecided("abs_max of something else than filtered values")
    return SOME(Mx(ONE, 1, 0, {it.val(x).n for x in xs}))


def iv_class(it, v):
    """what the interval reports: any report is right (contract of the interval type, P07)"""
    if v.cls is None:
        v.cls = (1, -1, 0)[it.choose(3)]
        if v.cls:
            it.assume(Cond(">" if v.cls > 0 else "<", v.V))
    return v.cls


def c_iv(name):
    def f(it, a, t):
        r = a[0]
        v = it.val(r)
        if isinstance(v, St):
            raise Undecided("interval expected")
        if name == "neg":
            r = it.deepest(r)
            k = iv_class(it, v)
            r.set(IV(-v.V, -k))
            return ()
        k = iv_class(it, v)
        return {"not_zero": k != 0, "positive": k > 0, "negative": k < 0}[name]
    return f


def c_exponent(it, a, t):
    return Opaque("int", "exponent")


IMPL = {
    "abs_max": c_abs_max, "get_exponent": c_exponent,
    ("IntervalNumber", "not_zero"): c_iv("not_zero"), ("IntervalNumber", "positive"): c_iv("positive"),
    ("IntervalNumber", "negative"): c_iv("negative"), ("IntervalNumber", "neg"): c_iv("neg"),
}


class Ctx(Num):
    def __init__(self, extra=None):
        c = dict(IMPL)
        c.update(extra or {})
        super().__init__(FILES, c)
        self.n = 0

    def inp(self, name, base=None):
        """an explicit coordinate: base + a difference, so that polynomials in differences stay small"""
        V = self.sp.input(name)
        if base is not None:
            V = V + base
        return Ap(V, filt.leaf(name))

    def point(self, name, base=None):
        cs = [self.inp(name + "xyz"[i], None if base is None else base[i]) for i in range(3)]
        return St("ExplicitPoint3D", {"data": Cell(Arr(cs))}), [c.V for c in cs]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


class ImplicitSpec:
    """defining points of an implicit point and what its homogeneous coordinates must satisfy"""

    def __init__(self, N, kind):
        self.N, self.kind = N, kind
        f = {}
        P = {}

        def pt(name, base=None):
            s, v = N.point(name, base)
            f[name] = Cell(s)
            P[name] = v
            return v
        if kind == "ImplicitPointLPI":
            p = pt("p")
            pt("q", p)
            r = pt("r", p)
            pt("s", r)
            pt("t", r)
        else:
            for w in "vwu":
                a = pt(w + "1")
                b = pt(w + "2", a)
                pt(w + "3", b)
        self.f, self.P = f, P
        if kind == "ImplicitPointLPI":
            self.n = [cross(vsub(P["s"], P["r"]), vsub(P["t"], P["r"]))]
            self.o = [P["r"]]
            self.dir = vsub(P["p"], P["q"])
            self.D = dot(self.n[0], self.dir)
        else:
            self.n = [cross(vsub(P[w + "2"], P[w + "1"]), vsub(P[w + "3"], P[w + "1"])) for w in "vwu"]
            self.o = [P[w + "1"] for w in "vwu"]
            self.D = dot(self.n[0], cross(self.n[1], self.n[2]))

    def obj(self, ss, df, ex):
        f = dict(self.f)
        f["ss_filter"] = Cell(St("RefCell", {"v": Cell(ss)}))
        f["d_filter"] = Cell(St("RefCell", {"v": Cell(df)}))
        f["exact"] = Cell(St("RefCell", {"v": Cell(ex)}))
        return St(self.kind, f)

    def lies(self, X, D):
        """None, or why X / D is not the intersection point (identities of polynomials)"""
        for n, o in zip(self.n, self.o):
            if not dot(n, vsub(X, [D * c for c in o])).iszero():
                return "the point does not lie on a defining plane"
        if self.kind == "ImplicitPointLPI":
            if not all(c.iszero() for c in cross(vsub(X, [D * c for c in self.P["p"]]), self.dir)):
                return "the point does not lie on the line"
        return None

    def proportional(self, V):
        """k (a positive-atom monomial with sign) with V = k * D, or None"""
        sp = self.N.sp
        return ratio(sp, V, self.D)


def ratio(sp, A, B):
    """the monomial m with rational coefficient such that A = m B, or None"""
    if A.iszero() or B.iszero():
        return None
    am, bm = min(A.t), min(B.t)
    # candidate: A's monomials divided by B's for some pairing of extremes under a common order
    def key(m):
        return (len(m), m)
    for pick in (min, max):
        a, b = pick(A.t, key=key), pick(B.t, key=key)
        rest = list(a)
        try:
            for x in b:
                rest.remove(x)
        except ValueError:
            continue
        k = Poly({tuple(rest): A.t[a] / B.t[b]})
        if k * B == A:
            return k
    # divide by every common monomial factor of A that is not one of B
    com = None
    for m in A.t:
        c = {}
        for x in m:
            c[x] = c.get(x, 0) + 1
        com = c if com is None else {x: min(k, c.get(x, 0)) for x, k in com.items() if c.get(x, 0)}
    for sub in itertools.product(*[range(k + 1) for k in com.values()]):
        f = [x for x, k in zip(com, sub) for _ in range(k)]
        A2 = {}
        for m, c in A.t.items():
            r = list(m)
            for x in f:
                r.remove(x)
            A2[tuple(r)] = c
        A2 = Poly(A2)
        if len(A2.t) == len(B.t):
            m0 = next(iter(B.t))
            if m0 in A2.t:
                k = A2.t[m0] / B.t[m0]
                if B.scale(k) == A2:
                    return Poly({tuple(sorted(f)): k})
    return None


def posmono(it, k, pos=()):
    """sign of a monomial whose atoms are positive, or None"""
    if k is None or len(k.t) != 1:
        return None
    (m, c), = k.t.items()
    for x in m:
        a = it.sp.atoms[x]
        if not (a.kind == "pow2" or x in pos):
            return None
    return 1 if c > 0 else -1


# ---- P08 ------------------------------------------------------------------------------------
# contract of static_filter: |x|,|y|,|z| and d: (degree, magnitude, error relative to max^degree)
STATIC = {}


def filter_fact(R, nm, it, a, facts, who):
    """the sign (+1/-1) of the exact value behind the filtered value a, as far as the path decides it"""
    for rel, V, c in facts:
        if rel == "ap" and c.a.n is a.n and not c.neg and c.mx is not None:
            r, txt = filt.covers(c.mx, c.a)
            if r is None:
                return None, ("failed", f"{who}: {txt}")
            if r > 1 + SLACK:
                return None, ("failed" if r > 1.01 else "undecided", f"{who}: {txt}")
            if r > 1:
                R.assumptions.add("filter constants taken from the published analysis, which neglects terms of second order: the mechanical bound exceeds the constant by at most a factor 1 + %d u" % (SLACK / U))
            return c.s, None
    return None, ("failed", f"{who}: accepted without a comparison with an error bound")


def fields(it, v):
    v = it.val(v)
    return {k: it.val(c) for k, c in v.f.items()}


def option(it, v):
    v = it.val(v)
    if not isinstance(v, En) or v.name != "Option":
        raise Undecided("Option expected")
    return it.val(v.p[0]) if v.v == "Some" else None


def u_implicit(kind):
    def run(R):
        al = Opaque("alloc")
        lim = STATICLIM[kind]

        def method(N, name):
            f = N.ix.meth.get((kind, name))
            if f is None:
                raise Undecided(f"anchor lost: {kind}::{name}")
            return f

        def each(N, name, mk, judge):
            n = 0
            for k, r, facts in N.it.paths(lambda: (lambda o: (o, N.it.call_fn(method(N, name), [o] + ([al] if name == "exact" else []), None, kind)))(mk())):
                n += 1
                nm = f"{kind}::{name}: path {n}"
                if k != "ret":
                    R.add(nm, ("failed" if k == "pre" else "undecided" if r == "assertion" else "failed", str(r)))
                    continue
                try:
                    judge(nm, N.it, r[0], r[1], facts)
                except Undecided as e:
                    R.add(nm, ("undecided", str(e)))
            R.detail[f"{kind}::{name}"] = f"{n} paths"
            R.use(N)

        # static filter, nothing cached
        N = Ctx()
        S = ImplicitSpec(N, kind)
        measured = {}

        def j_static(nm, it, o, r, facts):
            cell = option(it, it.val(o.f["ss_filter"]).f["v"])
            if cell is None:
                return R.add(nm + " cache", ("failed", "nothing is cached"))
            v = option(it, r)
            if v is None:
                z = it.val(cell[1])
                ok = isinstance(z, F) and not isinstance(z, Mx) and z.V.iszero()
                return R.add(nm + " cache", None if ok else ("failed", "no filter is returned, but a usable one is cached"))
            m = it.val(v[1])
            if not isinstance(m, Mx) or (m.c, m.k, m.r) != (1, 1, 0):
                return R.add(nm, ("failed", "the reported maximum is not the computed maximum"))
            cm = it.val(cell[1])
            same = isinstance(cm, Mx) and cm.args == m.args and all(fields(it, cell[0])[c].n is fields(it, v[0])[c].n for c in "xyzd")
            R.add(nm + " cache", None if same else ("failed", "the cached filter differs from the returned one"))
            f = fields(it, v[0])
            # sign of d
            base, sg = f["d"].n, 1
            while base.op == "s":
                sg *= -1 if base.b < 0 else 1
                base = base.a
            a0 = Ap(f["d"].V.scale(sg), base)
            s, why = filter_fact(R, nm, it, a0, facts, "sign of d")
            if why is None and s * sg != 1:
                why = ("failed", "d is not made positive")
            R.add(nm + " d > 0", why)
            identities(nm, it, f, facts, S)
            B = filt.Bounds(m.args)
            for c in "xyzd":
                try:
                    d, mg, e = B.get(f[c].n)
                except filt.Unbounded as x:
                    R.add(f"{nm} bound of {c}", ("failed", str(x)))
                    continue
                measured[c] = (d, mg, e)
                want = lim["d" if c == "d" else "x"]
                ok = d == want[0] and mg <= want[1] and e <= want[2]
                R.add(f"{nm} bound of {c}", None if ok else ("failed" if d != want[0] or e > want[2] * Fr(101, 100) or mg > want[1] * Fr(101, 100) else "undecided",
                      f"degree {d}, magnitude {float(mg):.6g}, error {float(e):.6g}; contract {want[0]}, {float(want[1]):.6g}, {float(want[2]):.6g}"))
            R.probe(S.lies([f["y"].V, f["x"].V, f["z"].V], f["d"].V) is not None)

        def identities(nm, it, f, facts, S):
            X, D = [f[c].V for c in "xyz"], f["d"].V
            X = [it.sp.norm(x) for x in X]
            D = it.sp.norm(D)
            # a positive common factor (power of two) is allowed
            k = ratio(it.sp, D, S.D)
            s = posmono(it, k)
            R.add(nm + " denominator", None if s else ("failed", "the denominator is not a multiple of the determinant of line and plane(s)"))
            w = S.lies(X, D)
            R.add(nm + " coordinates", None if w is None else ("failed", w))
            return s

        each(N, "static_filter", lambda: S.obj(NONE(), NONE(), NONE()), j_static)
        R.detail[f"{kind} static"] = {c: f"degree {d}, magnitude {float(m):.4g}, error {float(e):.6g}" for c, (d, m, e) in measured.items()}

        # static filter, cached
        N2 = Ctx()
        S2 = ImplicitSpec(N2, kind)
        good = St("Implicit3DCache", {c: Cell(Ap(N2.sp.input("c" + c), filt.imp("self", c, 1, ONE, U))) for c in "xyzd"})
        zero = St("Implicit3DCache", {c: Cell(F(ZERO)) for c in "xyzd"})

        def j_cached(which):
            def j(nm, it, o, r, facts):
                v = option(it, r)
                if which == "zero":
                    return R.add(nm + " cached none", None if v is None else ("failed", "a filter that failed is offered"))
                if v is None:
                    return R.add(nm + " cached", None)
                same = fields(it, v[0]) and all(getattr(fields(it, v[0])[c], "n", None) is good.f[c].v.n for c in "xyzd") and isinstance(it.val(v[1]), Mx)
                R.add(nm + " cached", None if same else ("failed", "the cached filter is not returned as it is"))
            return j
        each(N2, "static_filter", lambda: S2.obj(SOME((good, Mx(ONE, 1, 0, {filt.leaf("self")}))), NONE(), NONE()), j_cached("good"))
        each(N2, "static_filter", lambda: S2.obj(SOME((zero, F(ZERO))), NONE(), NONE()), j_cached("zero"))

        # intervals
        N3 = Ctx()
        S3 = ImplicitSpec(N3, kind)

        def j_dyn(nm, it, o, r, facts):
            cell = option(it, it.val(o.f["d_filter"]).f["v"])
            if cell is None:
                return R.add(nm + " cache", ("failed", "nothing is cached"))
            v = option(it, r)
            for what, w in (("returned", v), ("cached", cell)):
                if w is None:
                    continue
                f = fields(it, w)
                if not all(isinstance(x, IV) for x in f.values()):
                    raise Undecided("intervals expected")
                k = iv_class(it, f["d"])
                if what == "returned":
                    R.add(nm + " d > 0", None if k > 0 else ("failed", "an interval denominator without a positive sign is offered"))
                else:
                    R.add(nm + " cached d", None if k >= 0 else ("failed", "a negative interval denominator is cached"))
                identities(nm + " " + what, it, f, facts, S3)

        each(N3, "dynamic_filter", lambda: S3.obj(NONE(), NONE(), NONE()), j_dyn)

        def cached_iv(k):
            f = {c: Cell(IV(N3.sp.input("i" + c), None)) for c in "xyz"}
            f["d"] = Cell(IV(N3.sp.input("id"), k))
            return St("Implicit3DCache", f)
        for k in (1, 0):
            def j(nm, it, o, r, facts, k=k):
                v = option(it, r)
                if k == 0:
                    return R.add(nm + " undecided denominator", None if v is None else ("failed", "an interval denominator of unknown sign is offered"))
                ok = v is not None and all(fields(it, v)[c].V == N3.sp.input("i" + c) for c in "xyzd")
                R.add(nm + " cached", None if ok else ("failed", "the cached intervals are not returned as they are"))
            each(N3, "dynamic_filter", lambda k=k: S3.obj(NONE(), SOME(cached_iv(k)), NONE()), j)

        # expansions
        N4 = Ctx()
        S4 = ImplicitSpec(N4, kind)

        def j_exact(nm, it, o, r, facts):
            cell = option(it, it.val(o.f["exact"]).f["v"])
            v = option(it, r)
            if cell is None:
                return R.add(nm + " cache", ("failed", "nothing is cached"))
            for what, w in (("returned", v), ("cached", cell)):
                if w is None:
                    continue
                f = {k: it.to_exp(x) for k, x in fields(it, w).items()}
                s = identities(nm + " " + what, it, f, facts, S4)
                if s is None:
                    continue
                sg = it.sign_of(it.sp.norm(f["d"].V))
                if not sg <= {0, 1}:
                    # the sign of d may be known through the sign of the determinant
                    ds = it.sign_of(it.sp.norm(S4.D))
                    sg = {x * s for x in ds}
                R.add(f"{nm} {what} d", None if (sg <= {1} if what == "returned" else sg <= {0, 1}) else ("failed", "the denominator is not made positive"))
            zero = it.sign_of(it.sp.norm(S4.D))
            if v is None:
                R.add(nm + " undefined", None if zero == {0} else ("failed", "reported as missing although the denominator does not vanish"))
            else:
                R.add(nm + " defined", None if 0 not in zero else ("failed", "offered although the denominator may vanish"))

        def mk():
            # the sign of the determinant is a case split of the specification
            i = N4.it.choose(3)
            N4.it.assume(Cond(">=<"[0] if i == 0 else "<" if i == 1 else "==", S4.D))
            return S4.obj(NONE(), NONE(), NONE())
        each(N4, "exact", mk, j_exact)

        def cached_exp():
            return St("Implicit3DCache", {c: Cell(Exp(N4.sp.input("x" + c))) for c in "xyzd"})
        dd = N4.sp.input("xd")
        for rel in (">", "=="):
            def mk2(rel=rel):
                N4.it.assume(Cond(rel, dd))
                return S4.obj(NONE(), NONE(), SOME(cached_exp()))

            def j2(nm, it, o, r, facts, rel=rel):
                v = option(it, r)
                if rel == "==":
                    return R.add(nm + " cached missing", None if v is None else ("failed", "a missing point is offered"))
                ok = v is not None and all(it.to_exp(fields(it, v)[c]).V == N4.sp.input("x" + c) for c in "xyzd")
                R.add(nm + " cached", None if ok else ("failed", "the cached coordinates are not returned as they are"))
            each(N4, "exact", mk2, j2)
        R.assumptions.add("interval operations enclose the exact result and report only true signs (P07); expansion operators are exact (P04)")
    return run


def u_to_explicit(R):
    """the coordinates handed out: rounded quotients of the (approximated) exact coordinates"""
    for kind in ("ImplicitPointLPI", "ImplicitPointTPI"):
        N = Ctx(iface())
        fn = N.ix.meth.get((kind, "to_explicit")) or N.ix.traitdef.get("to_explicit")
        if fn is None:
            raise Undecided("anchor lost: to_explicit")
        out, n = None, 0

        def call():
            nonlocal out, p
            p = Imp(N, "p", kind)
            p.exists = True              # precondition: the point exists
            N.it.assume(Cond(">", p.c["D"]))
            out = Arr([F(ZERO) for _ in range(3)])
            return N.it.call_fn(fn, [p.obj(), out], None, kind)
        p = None
        for k, r, facts in N.it.paths(call):
            n += 1
            if k != "ret":
                R.add(f"{kind}::to_explicit: path {n}", ("failed", str(r)))
                continue
            for i, c in enumerate("XYZ"):
                v = N.it.val(out.a[i])
                nm = f"{kind}::to_explicit: path {n} coordinate {i}"
                if not (isinstance(v, F) and v.tag and v.tag[0] == "quo"):
                    R.add(nm, ("failed", "not the quotient of two values"))
                    continue
                q = []
                for e in v.tag[1:]:
                    (m, cf), = e.t.items() if len(e.t) == 1 else (((), 0),)
                    a = N.sp.atoms[m[0]] if len(m) == 1 else None
                    q.append(a.q.scale(cf) if a is not None and a.kind == "est" else e)
                good = (q[0] * p.c["D"] - q[1] * p.c[c]).iszero() and not q[1].iszero()
                R.add(nm, None if good else ("failed", "the quotient is not the coordinate of the point"))
                R.probe(not (q[0] * p.c["D"] - q[1] * p.c["YZX"[i]]).iszero())
        R.detail[kind + "::to_explicit"] = f"{n} paths"
        R.use(N)
    R.assumptions.add("estimate is within u(1+2^-40) of the exact value (P04)")


STATICLIM = {
    "ImplicitPointLPI": {"d": (3, Fr(4) * (1 + 64 * U), Fr(4.8850e-15)), "x": (4, Fr(8) * (1 + 64 * U), Fr(1.19905e-14))},
    "ImplicitPointTPI": {"d": (6, Fr(32) * (1 + 256 * U), Fr(8.70416e-14)), "x": (7, Fr(96) * (1 + 256 * U), Fr(2.36256e-13))},
}


# ---- P09, P10 -------------------------------------------------------------------------------
class Imp:
    """an implicit point seen through the contract of its interface"""

    def __init__(self, N, name, kind):
        self.N, self.name, self.kind = N, name, kind
        self.c = {k: N.sp.input(name + k) for k in "XYZD"}
        self.pos = next(iter(self.c["D"].t))[0]
        self.exists = None

    def obj(self):
        return St(self.kind, {"obj": Cell(Opaque("point", self))})


def handle(it, a):
    return it.val(it.val(a).f["obj"]).data


def p_exists(it, p):
    if p.exists is None:
        p.exists = it.choose(2) == 0
        if p.exists:
            it.assume(Cond(">", p.c["D"]))
    return p.exists


def cache(f):
    return St("Implicit3DCache", {k: Cell(f(k)) for k in "xyzd"})


def c_static(it, a, t):
    p = handle(it, a[0])
    if not p_exists(it, p) or it.choose(2) == 1:
        return NONE()
    L = STATICLIM[p.kind]
    leafs = cache(lambda k: Ap(p.c[k.upper()], filt.imp(p.name, k, *L["d" if k == "d" else "x"])))
    return SOME((leafs, Mx(ONE, 1, 0, {p.name})))


def c_dynamic(it, a, t):
    p = handle(it, a[0])
    if not p_exists(it, p) or it.choose(2) == 1:
        return NONE()
    return SOME(cache(lambda k: IV(p.c[k.upper()], 1 if k == "d" else None)))


def c_exact(it, a, t):
    p = handle(it, a[0])
    if not p_exists(it, p):
        return NONE()
    sc = it.sp.named.get("2^" + p.name)
    if sc is None:
        sc = it.sp.named["2^" + p.name] = it.sp.new("2^" + p.name, "pow2", nn=True)
    return SOME(cache(lambda k: Exp(p.c[k.upper()] * it.sp.P(sc))))


def c_signdet(it, a, n):
    """orient2d / orient3d on explicit coordinates: a float with the sign of the determinant (P05)"""
    rows = [[it.asF(x).V for x in it.items(p if not isinstance(it.val(p), St) else it.val(p).f["data"])[:n]] for p in a[:n + 1]]
    rows = [[x - y for x, y in zip(r, rows[-1])] for r in rows[:-1]]
    return F(det(rows), None, True)


def iface():
    c = {("src/predicates/predicates.rs", "orient2d"): lambda it, a, t: c_signdet(it, a, 2),
         ("src/predicates/predicates.rs", "orient3d"): lambda it, a, t: c_signdet(it, a, 3)}
    for k in ("ImplicitPointLPI", "ImplicitPointTPI"):
        c[(k, "static_filter")] = c_static
        c[(k, "dynamic_filter")] = c_dynamic
        c[(k, "exact")] = c_exact
    return c


REL = {">": {1}, "<": {-1}, "==": {0}, ">=": {0, 1}, "<=": {0, -1}, "!=": {1, -1}}
VAL = {"Positive": 1, "Negative": -1, "Zero": 0}


class Judge:
    """the sign returned on a path follows from the facts of the path"""

    def __init__(self, R, N):
        self.R, self.N = R, N
        self.memo = {}

    def rel(self, V, truth, pos):
        """sign of the positive monomial k with V = k truth, or None"""
        k = (V.key(), truth.key())
        if k not in self.memo:
            self.memo[k] = posmono(self.N.it, ratio(self.N.sp, V, truth), pos)
        return self.memo[k]

    def path(self, nm, kind, r, facts, truth, imps):
        R, it = self.R, self.N.it
        if kind != "ret":
            return R.add(nm, ("failed", str(r)))
        r = it.val(r)
        if isinstance(r, Sgn):
            # the callee's contract gives the sign of r.V
            if all(p.exists for p in imps):
                s = self.rel(it.sp.norm(r.V), truth, {p.pos for p in imps})
                return R.add(nm, None if s == 1 else ("failed", "the callee's determinant is not a positive multiple of the required one" if s is None else "the sign is reversed"))
            raise Undecided("symbolic sign of a missing point")
        if not isinstance(r, En) or r.name != "Orientation":
            raise Undecided("orientation expected")
        missing = [p.name for p in imps if p.exists is False]
        if missing or r.v == "Undefined":
            ok = bool(missing) and r.v == "Undefined"
            return R.add(nm, None if ok else ("failed", f"returns {r.v}, missing points: {missing}"))
        want = VAL[r.v]
        pos = {p.pos for p in imps}
        why, poss = [], {1, 0, -1}
        for rel, V, c in facts:
            if rel == "ap":
                if c.neg or c.mx is None:
                    continue
                k = self.rel(c.a.V, truth, pos)
                if k is None:
                    why.append("the filtered value is not the determinant")
                    continue
                q, txt = filt.covers(c.mx, c.a)
                if q is None or q > 1 + SLACK:
                    if q is None or q > 1.01:
                        return R.add(nm, ("failed", "filter: " + txt))
                    return R.add(nm, ("undecided", "filter: " + txt))
                if q > 1:
                    R.assumptions.add("filter constants taken from the published analysis, which neglects terms of second order: the mechanical bound exceeds a constant by at most a factor 1 + %d u" % (SLACK / U))
                self.ratios[nm.split(":")[0]] = max(self.ratios.get(nm.split(":")[0], 0), float(q))
                if c.s * k == want:
                    return R.add(nm, None)
                why.append("the filtered sign is reversed")
                continue
            if rel not in REL:
                continue
            k = self.rel(V, truth, pos)
            if k is None:
                continue
            poss &= {x * k for x in REL[rel]}
            if poss == {want}:
                return R.add(nm, None)
            why.append("the sign is reversed" if want not in poss else "the sign is not determined")
        R.add(nm, ("failed", f"returns {r.v} without a fact that gives this sign: " + "; ".join(sorted(set(why)) or ["none"])))

    ratios = {}


def impl_cols(axis):
    return {2: "XY", 1: "ZX", 0: "YZ"}[axis]


class PointSet:
    """fresh points for one path"""

    def __init__(self, N, kinds):
        self.N, self.kinds = N, kinds

    def make(self):
        objs, self.imps, self.rows = [], [], []
        for i, k in enumerate(self.kinds):
            nm = "abcd"[i]
            if k == "E":
                s, v = self.N.point(nm)
                objs.append(s)
                self.rows.append(dict(zip("XYZ", v), D=C(1)))
            else:
                p = Imp(self.N, nm, "ImplicitPointLPI" if k == "L" else "ImplicitPointTPI")
                objs.append(p.obj())
                self.imps.append(p)
                self.rows.append(p.c)
        return objs

    def wrapped(self):
        return [En("Point3D", {"E": "Explicit", "L": "LPI", "T": "TPI"}[k], [o]) for k, o in zip(self.kinds, self.make())]

    def truth(self, cols):
        return det([[r[c] for c in cols + "D"] for r in self.rows])


def one(N, name, rel):
    fs = [f for f in N.ix.free.get(name, []) if f.rel == rel]
    if len(fs) != 1:
        raise Undecided(f"anchor lost: {name} in {rel}")
    return fs[0]


def run_paths(R, N, J, label, call, ps, truth):
    n = 0
    for k, r, facts in N.it.paths(call):
        n += 1
        nm = f"{label}: path {n}"
        try:
            J.path(nm, k, r, facts, truth(), ps.imps)
        except Undecided as e:
            R.add(nm, ("undecided", str(e)))
    return n


def generic(R, J, N, label, fn, kinds, cols, truth, targs):
    ps = PointSet(N, kinds)

    def call():
        o = ps.make()
        for p in ps.imps:            # the specification's case split
            p_exists(N.it, p)
        return N.it.call_fn(fn, o + [Opaque("alloc")], targs)
    n = run_paths(R, N, J, label, call, ps, lambda: truth(ps, cols))
    R.detail[label] = f"{n} paths"


O2N = {"lee": "LEE", "tee": "TEE", "lle": "LLE", "lte": "LTE", "tte": "TTE", "lll": "LLL", "llt": "LLT", "ltt": "LTT", "ttt": "TTT"}
O3N = ["leee", "teee", "llee", "ltee", "ttee", "llle", "llte", "ltte", "ttte", "llll", "lllt", "lltt", "lttt", "tttt"]


def t_orient2d(ps, cols):
    return ps.truth(cols)


def t_orient3d(ps, cols):
    return -ps.truth("XYZ")


def t_less(ps, c):
    a, b = ps.rows
    return a[c] * b["D"] - b[c] * a["D"]


def dispatch(R, N, J, label, fn, kinds, truth, cols, extra=()):
    ps = PointSet(N, kinds)

    def call():
        return N.it.call_fn(fn, ps.wrapped() + list(extra) + [Opaque("alloc")])
    return run_paths(R, N, J, label, call, ps, lambda: truth(ps, cols))


def u_generic(rel, prefix, names, axes, cols, truth):
    """every kind-specialised function against the determinant, for every axis it can be instantiated with"""
    def run(R):
        N = Ctx(iface())
        J = Judge(R, N)
        seen = 0
        for nm, kinds in names.items():
            if prefix + nm not in N.ix.free:
                R.detail[prefix + nm] = "absent: its callers are checked with what they call instead"
                continue
            seen += 1
            for ax in axes:
                lab = f"{prefix}{nm}" + (f"<{ax}>" if ax is not None else "")
                generic(R, J, N, lab, one(N, prefix + nm, rel), kinds, cols(ax), truth, [] if ax is None else [ax])
        if not seen:
            raise Undecided(f"anchor lost: {prefix}*")
        # vacuity: with the wrong determinant obligations fail
        Q = type(R)(R.name)
        nm, kinds = next((n, k) for n, k in names.items() if prefix + n in N.ix.free)
        ax = axes[0]
        try:
            generic(Q, Judge(Q, N), N, "probe", one(N, prefix + nm, rel), kinds, cols(ax), lambda ps, c: -truth(ps, c), [] if ax is None else [ax])
            R.probe(len(Q.failed) > 0)
        except Undecided:
            R.probe(False)
        R.use(N)
        R.detail["filter_ratio"] = {k: round(v, 6) for k, v in J.ratios.items()}
    return run


def u_dispatch(rel, names, arity, prefix, variants, truth, ctruth):
    """the public functions for every combination of point kinds; callees by their contracts"""
    def run(R):
        N = Ctx(iface())
        for nm, kinds in variants.items():
            if prefix + nm in N.ix.free:
                N.it.contracts[(rel, prefix + nm)] = callee(prefix + nm, kinds, ctruth)
        J = Judge(R, N)
        for name, cols, extra in names:
            n = 0
            for kinds in itertools.product("ELT", repeat=arity):
                n += dispatch(R, N, J, f"{name}{list(extra) if extra else ''}({''.join(kinds)})", one(N, name, rel), kinds, truth, cols, extra)
            R.detail[name + (str(list(extra)) if extra else "")] = f"{3 ** arity} kind combinations, {n} paths"
        Q = type(R)(R.name)
        name, cols, extra = names[0]
        dispatch(Q, N, Judge(Q, N), "probe", one(N, name, rel), "L" * arity, lambda ps, c: -truth(ps, c), cols, extra)
        R.probe(len(Q.failed) > 0)
        R.use(N)
    return run


def by_kinds(names):
    return {n: n.upper() for n in names}


LESS = ["le", "te", "ll", "lt", "tt"]
u_orient2d_mixed = u_generic(O2, "orient2d_", O2N, (0, 1, 2), impl_cols, t_orient2d)
u_orient3d_mixed = u_generic(O3, "orient3d_", by_kinds(O3N), (None,), lambda a: "XYZ", t_orient3d)
u_less_mixed = u_generic(LT, "less_than_", by_kinds(LESS), (0, 1, 2), lambda a: "XYZ"[a], t_less)
u_orient2d_public = u_dispatch(O2, [("orient2d_xy", "XY", ()), ("orient2d_zx", "ZX", ()), ("orient2d_yz", "YZ", ())]
                               + [("orient2d_by_axis", impl_cols(k), (k,)) for k in (0, 1, 2)],
                               3, "orient2d_", O2N, t_orient2d, lambda q, t: q.truth(impl_cols(t[0])))
u_orient3d_public = u_dispatch(O3, [("orient3d", "XYZ", ())], 4, "orient3d_", by_kinds(O3N), t_orient3d, lambda q, t: -q.truth("XYZ"))
u_less_public = u_dispatch(LT, [("less_than_on_" + "xyz"[k], "XYZ"[k], ()) for k in range(3)], 2, "less_than_", by_kinds(LESS), t_less,
                           lambda q, t: t_less(q, "XYZ"[t[0]]))


def callee(name, kinds, truth):
    """contract of orient2d_lee<axis> and the like: the sign of the determinant of the arguments"""
    def f(it, a, t):
        rows, imps = [], []
        for k, x in zip(kinds, a):
            v = it.val(x)
            want = {"E": "ExplicitPoint3D", "L": "ImplicitPointLPI", "T": "ImplicitPointTPI"}[k]
            if not isinstance(v, St) or v.name != want:
                raise Pre(f"{name}: argument of another kind")
            if k == "E":
                rows.append(dict(zip("XYZ", [it.asF(c).V for c in it.items(v.f["data"])]), D=C(1)))
            else:
                p = handle(it, v)
                rows.append(p.c)
                imps.append(p)
        for p in imps:
            p_exists(it, p)
        if not all(p.exists for p in imps):
            return En("Orientation", "Undefined")

        class Q:
            pass
        q = Q()
        q.rows = rows
        q.truth = lambda cols: det([[r[c] for c in cols + "D"] for r in rows])
        return it.force(Sgn(truth(q, t)))
    return f
