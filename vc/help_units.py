"""The position helpers (P11): every path implies the geometric answer, decided by z3 over the reals from
the signs on the path.  The geometry is in the axioms of the query, each an identity of polynomials that the
unit proves itself (lemma_*)."""
import itertools, subprocess, time
from num_units import *
from interp import Ap, Mx, ApCond
import filt
from impl_units import REL, FILES, Ctx, MODRS, iface, c_signdet, cross, dot, vsub, one, SLACK

Z3 = "z3-new"
OPS = {">": ">", "<": "<", ">=": ">=", "<=": "<=", "==": "="}


def num(c):
    c = Fr(c)
    s = str(abs(c.numerator)) + ".0"
    if c.denominator != 1:
        s = f"(/ {s} {c.denominator}.0)"
    return f"(- {s})" if c < 0 else s


def rel(op, a, b="0.0"):
    return f"(not (= {a} {b}))" if op == "!=" else f"({OPS[op]} {a} {b})"


def conj(xs):
    xs = list(xs)
    return "true" if not xs else xs[0] if len(xs) == 1 else "(and " + " ".join(xs) + ")"


def disj(xs):
    xs = list(xs)
    return "false" if not xs else xs[0] if len(xs) == 1 else "(or " + " ".join(xs) + ")"


def NOT(x):
    return f"(not {x})"


def iff(a, b):
    return f"(= {a} {b})"


class World:
    """points with symbolic coordinates, and terms for the determinants the code can ask for"""

    def __init__(self, N, names):
        self.N, self.names = N, names
        self.c = {n: [N.sp.input(n + k) for k in "xyz"] for n in names}
        self.decl, self.ax = [], []
        for n in names:
            for k in "xyz":
                self.real(n + k)
        self.terms = {}
        for t in itertools.combinations(names, 3):
            for i, pl in ((2, (0, 1)), (0, (1, 2)), (1, (2, 0))):
                rows = [[self.c[q][pl[0]], self.c[q][pl[1]]] for q in t]
                d = det([[x - y for x, y in zip(r, rows[2])] for r in rows[:2]])
                self.add(d, f"d{i}_" + "_".join(t))
        for t in itertools.combinations(names, 4):
            rows = [vsub(self.c[q], self.c[t[3]]) for q in t[:3]]
            self.add(det(rows), "v_" + "_".join(t))

    def real(self, n):
        self.decl.append(f"(declare-const {n} Real)")

    def bool(self, n):
        self.decl.append(f"(declare-const {n} Bool)")

    def key(self, V):
        V = V.scale(1 / abs(V.t[min(V.t)]))
        return (V.key(), 1) if V.t[min(V.t)] > 0 else ((-V).key(), -1)

    def add(self, V, name):
        self.real(name)
        k, s = self.key(V)
        k0 = abs(V.t[min(V.t)])
        assert k0 == 1
        self.terms[k] = (name, s)

    def term(self, V):
        """SMT term for a polynomial in the coordinates, up to a positive factor"""
        if V.t and V.degree() > 1:
            k, s = self.key(V)
            if k not in self.terms:
                raise Undecided("the code asks for a quantity outside the vocabulary of the specification")
            n, s2 = self.terms[k]
            return n if s == s2 else f"(- {n})"
        xs = []
        for m, c in V.t.items():
            xs.append(num(c) if not m else f"(* {num(c)} {self.atom(m[0])})")
        return "0.0" if not xs else xs[0] if len(xs) == 1 else "(+ " + " ".join(xs) + ")"

    def atom(self, x):
        a = self.N.sp.atoms[x]
        if a.kind == "input":
            return a.name
        if a.kind == "max":
            d = f"(declare-const {a.name} Real)"
            if d not in self.decl:
                self.decl.append(d)
                ts = [self.term(p) for p in a.args]
                self.ax.append(conj(f"(>= {a.name} {t})" for t in ts))
                self.ax.append(disj(f"(= {a.name} {t})" for t in ts))
            return a.name
        raise Undecided("quantity of kind " + a.kind)

    def d(self, i, *t):
        """term of the 2D determinant of the projection without axis i, of the points in this order"""
        pl = {2: (0, 1), 0: (1, 2), 1: (2, 0)}[i]
        rows = [[self.c[q][pl[0]], self.c[q][pl[1]]] for q in t]
        return self.term(det([[x - y for x, y in zip(r, rows[2])] for r in rows[:2]]))

    def v(self, *t):
        return self.term(det([vsub(self.c[q], self.c[t[3]]) for q in t[:3]]))

    def cond(self, c):
        if isinstance(c, bool):
            return "true" if c else "false"
        if isinstance(c, BoolF):
            return (conj if c.op == "and" else disj)(self.cond(x) for x in c.xs)
        if isinstance(c, Cond):
            return rel(c.rel, self.term(self.N.sp.norm(c.V)))
        raise Undecided("condition of type " + type(c).__name__)

    def point(self, v):
        """name of the point an argument denotes"""
        it = self.N.it
        xs = [it.asF(x).V.key() for x in it.items(v)]
        for n, c in self.c.items():
            if [x.key() for x in c] == xs:
                return n
        raise Undecided("an argument is not one of the points")

    def plane(self, guard=None):
        """the points lie in a plane with normal n: every projected determinant is a component of n times the
        determinant in the plane (lemma_plane)"""
        g = (lambda s: s) if guard is None else (lambda s: f"(=> {guard} {s})")
        for k in "012":
            self.real("n" + k)
        self.ax.append(disj(NOT(f"(= n{k} 0.0)") for k in "012"))
        for t in itertools.combinations(self.names, 3):
            D = "D_" + "_".join(t)
            self.real(D)
            for i in range(3):
                self.ax.append(g(f"(= {self.d(i, *t)} (* n{i} {D}))"))
        for t in itertools.combinations(self.names, 4):
            a = ["D_" + "_".join(x for j, x in enumerate(t) if j != i) for i in range(4)]
            self.ax.append(f"(= (+ {a[0]} {a[2]}) (+ {a[1]} {a[3]}))")

    def D(self, *t):
        s = sorted(t, key=self.names.index)
        p = [s.index(x) for x in t]
        odd = sum(1 for i in range(3) for j in range(i) if p[j] > p[i]) % 2
        return ("(- D_%s)" if odd else "D_%s") % "_".join(s)


class Z:
    def __init__(self, budget=150):
        self.n = 0
        self.end = time.time() + budget

    def run(self, pre, queries):
        """each query (a list of assertions) must be unsatisfiable; returns unsat/sat/unknown per query"""
        r = []
        for i in range(0, len(queries), 40):
            q = queries[i:i + 40]
            if time.time() > self.end or r.count("sat") > 5 or r.count("unknown") > 5:
                r += ["unknown"] * len(q)
            else:
                r += self.batch(pre, q)
        return r

    def batch(self, decls_axioms, queries, timeout=4):
        txt = ["(set-logic QF_NRA)", f"(set-option :timeout {timeout * 1000})"] + decls_axioms
        for q in queries:
            txt.append("(push)")
            txt += [f"(assert {x})" for x in q]
            txt += ["(check-sat)", "(pop)"]
        p = subprocess.run([Z3, "-in"], input="\n".join(txt), capture_output=True, text=True)
        r = [l.strip() for l in p.stdout.split("\n") if l.strip() in ("sat", "unsat", "unknown")]
        if len(r) != len(queries) or "error" in p.stdout:
            raise Undecided("z3: " + (p.stdout + p.stderr)[-300:])
        self.n += len(queries)
        return r


SHP = "same_half_plane"
HELPERS = {}


def helper(name, args, uses=()):
    def deco(f):
        HELPERS[name] = (args.split(), uses, f)
        return f
    return deco


def app(W, name, args):
    """the meaning of a callee's answer (its contract)"""
    if name == "mis_alignment":
        return disj(NOT(f"(= {W.d(i, *args)} 0.0)") for i in range(3))
    if name == "same_half_plane":
        p, q, a, b = args
        x, y = W.D(p, a, b), W.D(q, a, b)
        return conj([iff(f"(> {x} 0.0)", f"(> {y} 0.0)"), iff(f"(< {x} 0.0)", f"(< {y} 0.0)")])
    return "B_" + name + "_" + "_".join(args)


SYM = {"point_in_inner_segment": lambda a: [a[0]] + sorted(a[1:]),
       "point_in_segment": lambda a: [a[0]] + sorted(a[1:]),
       "inner_segments_cross": lambda a: [x for s in sorted([sorted(a[:2]), sorted(a[2:])]) for x in s],
       "inner_segment_cross_inner_triangle": lambda a: sorted(a[:2]) + sorted(a[2:]),
       "point_in_inner_triangle": lambda a: [a[0]] + sorted(a[1:])}


def APP(W, name, args):
    """a callee's answer as a named truth value; the specified relations are symmetric (SYM)"""
    b = "B_" + name + "_" + "_".join(SYM[name](list(args)))
    d = f"(declare-const {b} Bool)"
    if d not in W.decl:
        W.decl.append(d)
    return b


@helper("same_point", "p q")
def _(W):
    return conj(f"(= p{k} q{k})" for k in "xyz")


@helper("mis_alignment", "p q r")
def _(W):
    return disj(NOT(f"(= {W.d(i, 'p', 'q', 'r')} 0.0)") for i in range(3))


@helper("point_in_inner_segment", "p v1 v2", ["mis_alignment"])
def _(W):
    W.real("t")
    al = conj(f"(= {W.d(i, 'p', 'v1', 'v2')} 0.0)" for i in range(3))
    dis = disj(NOT(f"(= v1{k} v2{k})") for k in "xyz")
    W.ax.append(f"(=> (and {al} {dis}) " + conj(f"(= p{k} (+ v1{k} (* t (- v2{k} v1{k}))))" for k in "xyz") + ")")
    return conj([al, dis, "(< 0.0 t)", "(< t 1.0)"])


@helper("point_in_segment", "p v1 v2", ["point_in_inner_segment"])
def _(W):
    same = lambda a: conj(f"(= p{k} {a}{k})" for k in "xyz")
    return disj([same("v1"), same("v2"), APP(W, "point_in_inner_segment", ["p", "v1", "v2"])])


@helper("same_half_plane", "p q v1 v2")
def _(W):
    W.plane()
    return app(W, "same_half_plane", ["p", "q", "v1", "v2"])


def inner_triangle(W):
    t = W.D("v1", "v2", "v3")
    s = [W.D("p", "v2", "v3"), W.D("p", "v3", "v1"), W.D("p", "v1", "v2")]
    return disj([conj(f"(> {x} 0.0)" for x in s + [t]), conj(f"(< {x} 0.0)" for x in s + [t])])


@helper("point_in_inner_triangle", "p v1 v2 v3")
def _(W):
    W.plane()
    W.ax.append(NOT(f"(= {W.D('v1', 'v2', 'v3')} 0.0)"))
    return inner_triangle(W)


@helper("point_in_triangle", "p v1 v2 v3", ["point_in_segment", "point_in_inner_triangle"])
def _(W):
    return disj([APP(W, "point_in_segment", ["p", a, b]) for a, b in (("v1", "v2"), ("v2", "v3"), ("v3", "v1"))]
                + [APP(W, "point_in_inner_triangle", ["p", "v1", "v2", "v3"])])


@helper("inner_segments_cross", "u1 u2 v1 v2", ["same_half_plane", "mis_alignment"])
def _(W):
    vol = W.v("u1", "u2", "v1", "v2")
    W.plane(f"(= {vol} 0.0)")
    a, b = W.D("u1", "v1", "v2"), W.D("u2", "v1", "v2")
    c, d = W.D("v1", "u1", "u2"), W.D("v2", "u1", "u2")
    return conj([f"(= {vol} 0.0)", f"(< (* {a} {b}) 0.0)", f"(< (* {c} {d}) 0.0)"])


@helper("inner_segment_cross_inner_triangle", "u1 u2 v1 v2 v3")
def _(W):
    n = ["u1", "u2", "v1", "v2", "v3"]
    V = [W.v(*[x for j, x in enumerate(n) if j != i]) for i in range(5)]
    a, b = W.v("u1", "v1", "v2", "v3"), W.v("u2", "v1", "v2", "v3")
    w = [W.v("u1", "u2", "v1", "v2"), W.v("u1", "u2", "v2", "v3"), W.v("u1", "u2", "v3", "v1")]
    f = conj([f"(< (* {a} {b}) 0.0)", disj([conj(f"(> {x} 0.0)" for x in w), conj(f"(< {x} 0.0)" for x in w)])])
    ax = lambda k: [
        # five points of space: sum_i (-1)^i V_i (p_i, 1) = 0, V_i the volume without point i (lemma_five)
        "(= (+ " + " ".join(x if i % 2 == 0 else f"(- {x})" for i, x in enumerate(V)) + ") 0.0)",
        "(= (+ " + " ".join(f"(* {x} {p}{k})" if i % 2 == 0 else f"(- (* {x} {p}{k}))" for i, (x, p) in enumerate(zip(V, n))) + ") 0.0)",
        # four points with one coordinate in common have no volume (lemma_flat)
    ] + [f"(=> {conj(f'(= {q[0]}{k} {x}{k})' for x in q[1:])} (= {V[i]} 0.0))" for i in range(5) for q in [[x for j, x in enumerate(n) if j != i]]]
    W.lemmas = []
    for k in "xyz":
        for op in ("<=", ">="):
            sep = conj(f"({op} {v}{k} {u}{k})" for v in n[2:] for u in n[:2])
            W.lemmas.append((f"lemma_separation_{k}{op}", ax(k) + [f, sep]))
            W.ax.append(f"(=> {f} (not {sep}))")
    return f


@helper("inner_segment_cross_triangle", "u1 u2 v1 v2 v3", ["point_in_inner_segment", "inner_segments_cross", "inner_segment_cross_inner_triangle"])
def _(W):
    return disj([APP(W, "point_in_inner_segment", [v, "u1", "u2"]) for v in ("v1", "v2", "v3")]
                + [APP(W, "inner_segments_cross", [a, b, "u1", "u2"]) for a, b in (("v1", "v2"), ("v2", "v3"), ("v3", "v1"))]
                + [APP(W, "inner_segment_cross_inner_triangle", ["u1", "u2", "v1", "v2", "v3"])])


def check(R, name, Zz):
    args, uses, spec = HELPERS[name]
    N = Ctx(iface())
    it = N.it
    it.keep_ne = True
    fs = [f for f in N.ix.free.get(name, []) if f.rel == MODRS]
    if len(fs) != 1:
        raise Undecided(f"anchor lost: {name}")
    W = World(N, args)
    formula = spec(W)
    apps = {}
    it.resets = apps.clear

    def contract(cn):
        def f(itp, a, t):
            ar = [W.point(x) for x in a[:len(HELPERS[cn][0])]]
            if cn in SYM:
                b = APP(W, cn, ar)
            else:
                b = app(W, cn, ar)
            if cn == "same_half_plane":
                s = it.sign_of(N.sp.norm(det([vsub(W.c[q], W.c[ar[3]]) for q in ar[:3]])))
                if s != {0}:
                    raise Pre(f"{cn} called for points that need not be coplanar")
            if b not in apps:
                apps[b] = it.choose(2) == 0
            return apps[b]
        return f
    for u in uses:
        if u in N.ix.free:
            it.contracts[(MODRS, u)] = contract(u)
    pts = {n: Arr([F(x) for x in W.c[n]]) for n in args}
    queries, names, extra = [], [], []
    for k, r, facts in it.paths(lambda: it.call_fn(fs[0], [pts[n] for n in args] + ([Opaque("alloc")] if name != "same_point" else []))):
        n = len(names) + 1
        nm = f"{name}: path {n}"
        names.append(nm)
        if k != "ret":
            R.add(nm, ("failed", str(r)))
            queries.append(None)
            continue
        try:
            fx = []
            for rl, V, c in facts:
                if rl == "or":
                    fx.append(W.cond(c))
                else:
                    fx.append(rel(rl, W.term(V)))
            fx += [b if v else NOT(b) for b, v in apps.items()]
            res = W.cond(it.val(r))
        except Undecided as e:
            R.add(nm, ("undecided", str(e)))
            queries.append(None)
            continue
        queries.append(fx + [NOT(iff(res, formula))])
    qs = [q for q in queries if q is not None]
    pre = W.decl + [f"(assert {x})" for x in W.ax]
    got = iter(Zz.run(pre, qs))
    for nm, q in zip(names, queries):
        if q is not None:
            g = next(got)
            R.add(nm, None if g == "unsat" else ("failed", "the answer does not follow: z3 has an assignment of signs") if g == "sat" else ("undecided", "z3: " + g))
    lem = getattr(W, "lemmas", [])
    for (nm, _), g in zip(lem, Zz.run(W.decl, [q for _, q in lem])):
        R.add(f"{name}: {nm}", None if g == "unsat" else ("undecided" if g == "unknown" else "failed", "z3: " + g))
    # vacuity: the axioms are satisfiable together with the specified relation and with its negation
    for g in Zz.run(pre, [[formula], [NOT(formula)]]):
        R.probe(g == "sat")
    R.detail[name] = f"{len(names)} paths, callee contracts: {', '.join(uses) or 'orientation predicates (P05)'}"
    R.use(N)


def u_lemmas(R):
    """identities of polynomials behind the axioms"""
    N = Ctx()
    sp = N.sp
    I = sp.input
    vec = lambda n: [I(n + k) for k in "xyz"]
    sc = lambda a, v: [a * x for x in v]
    add = lambda a, b: [x + y for x, y in zip(a, b)]

    def ob(nm, P):
        ps = P if isinstance(P, list) else [P]
        R.add("lemma_" + nm, None if all(p.iszero() for p in ps) else ("failed", "not an identity"))
        return ps
    o, e, f = vec("o"), vec("e"), vec("f")
    par = {n: (I(n + "a"), I(n + "b")) for n in "pqrs"}
    pt = {n: add(o, add(sc(a, e), sc(b, f))) for n, (a, b) in par.items()}

    def D(x, y, z):
        (a, b), (c, d), (g, h) = par[x], par[y], par[z]
        return (c - a) * (h - b) - (d - b) * (g - a)

    nrm = cross(e, f)
    # every cross product of differences is D times the normal; its components are the projected determinants
    ob("plane", [x - y for x, y in zip(cross(vsub(pt["q"], pt["p"]), vsub(pt["r"], pt["p"])), sc(D("p", "q", "r"), nrm))])
    a, b, c = vec("a"), vec("b"), vec("c")
    cr = cross(vsub(b, a), vsub(c, a))
    for i, (k, l) in ((2, (0, 1)), (0, (1, 2)), (1, (2, 0))):
        ob(f"projection_{i}", cr[i] - det([[a[k] - c[k], a[l] - c[l]], [b[k] - c[k], b[l] - c[l]]]))
    ob("four_in_plane", D("p", "q", "r") - D("p", "q", "s") + D("p", "r", "s") - D("q", "r", "s"))
    P5 = [vec(x) for x in ("p0", "p1", "p2", "p3", "p4")]

    def vol(*q):
        return det([vsub(x, q[3]) for x in q[:3]])
    V = [vol(*[P5[j] for j in range(5) if j != i]) for i in range(5)]
    sg = [1, -1, 1, -1, 1]
    for k in range(4):
        t = sum((v.scale(s) * (P5[i][k] if k < 3 else C(1)) for i, (v, s) in enumerate(zip(V, sg))), ZERO)
        ob(f"five_{k}", t)
    h = I("h")
    for k in range(3):
        q = [list(x) for x in P5[:4]]
        for x in q:
            x[k] = h
        ob(f"flat_{k}", vol(*q))
    # two segments of a plane that share the point X inside both: opposite sides, and the converse
    s, t = I("s"), I("t")
    one_ = C(1)
    X, d1, d2 = (I("Xa"), I("Xb")), (I("ga"), I("gb")), (I("ha"), I("hb"))
    at = lambda m, d: (X[0] + m * d[0], X[1] + m * d[1])
    par.update(u=at(-s, d1), v=at(one_ - s, d1), w=at(-t, d2), z=at(one_ - t, d2))
    cr2 = d1[0] * d2[1] - d1[1] * d2[0]
    ob("cross_u", D("u", "w", "z") - (-s * cr2).scale(1 if (D("u", "w", "z") + s * cr2).iszero() else -1))
    k = 1 if (D("u", "w", "z") + s * cr2).iszero() else -1
    ob("cross_v", D("v", "w", "z") - ((one_ - s) * cr2).scale(k))
    k2 = 1 if (D("w", "u", "v") - t * cr2).iszero() else -1
    ob("cross_w", D("w", "u", "v") - (t * cr2).scale(k2))
    ob("cross_z", D("z", "u", "v") - ((t - one_) * cr2).scale(k2))
    # converse: with opposite signs, s = D(p,r,s)/(D(p,r,s)-D(q,r,s)) gives the common point
    for i in range(2):
        lhs = D("p", "r", "s") * par["q"][i] - D("q", "r", "s") * par["p"][i]
        m = D("r", "p", "q") * par["s"][i] - D("s", "p", "q") * par["r"][i]
        # both are (D(p,r,s)-D(q,r,s)) resp. (D(r,p,q)-D(s,p,q)) times the common point
        ob(f"common_{i}", lhs * (D("r", "p", "q") - D("s", "p", "q")) - m * (D("p", "r", "s") - D("q", "r", "s")))
    # a segment through the point X of a triangle: signs of the five volumes
    l1, l2 = I("l1"), I("l2")
    l3 = one_ - l1 - l2
    v = [vec("A"), vec("B"), vec("E")]
    Xp = add(add(sc(l1, v[0]), sc(l2, v[1])), sc(l3, v[2]))
    d = vec("g")
    u1, u2 = add(Xp, sc(-s, d)), add(Xp, sc(one_ - s, d))
    base = dot(d, cross(vsub(v[1], v[0]), vsub(v[2], v[0])))
    va, vb = vol(u1, *v), vol(u2, *v)
    ka = 1 if (va + s * base).iszero() else -1
    ob("tri_u1", va + (s * base).scale(ka))
    ob("tri_u2", vb - ((one_ - s) * base).scale(ka))
    ws = [vol(u1, u2, v[0], v[1]), vol(u1, u2, v[1], v[2]), vol(u1, u2, v[2], v[0])]
    kw = 1 if (ws[0] - l3 * base).iszero() else -1
    for nm, w, l in zip(("w12", "w23", "w31"), ws, (l3, l1, l2)):
        ob("tri_" + nm, w - (l * base).scale(kw))
    # point of a plane in a triangle of it: barycentric coordinates
    for i in range(2):
        ob(f"bary_{i}", D("q", "r", "s") * par["p"][i] - D("p", "r", "s") * par["q"][i] - D("q", "p", "s") * par["r"][i] - D("q", "r", "p") * par["s"][i])
    R.probe(not (D("p", "q", "r") - D("p", "q", "s")).iszero())


def fn_of(N, name):
    fs = [f for f in N.ix.free.get(name, []) if f.rel == MODRS]
    if len(fs) != 1:
        raise Undecided(f"anchor lost: {name}")
    return fs[0]


def u_by_axis(R):
    """mod.rs: orient2d_by_axis: sign of the determinant of the projection without the axis"""
    for ax in (0, 1, 2):
        N = Ctx(iface())
        W = World(N, ["a", "b", "c"])
        pts = [Arr([F(x) for x in W.c[n]]) for n in "abc"]
        k, l = {2: (0, 1), 0: (1, 2), 1: (2, 0)}[ax]
        rows = [[W.c[n][k], W.c[n][l]] for n in "abc"]
        T = det([[x - y for x, y in zip(r, rows[2])] for r in rows[:2]])
        for n, (kd, r, facts) in enumerate(N.it.paths(lambda: N.it.call_fn(fn_of(N, "orient2d_by_axis"), pts + [ax, Opaque("alloc")]))):
            nm = f"orient2d_by_axis({ax}): path {n + 1}"
            if kd != "ret":
                R.add(nm, ("failed", str(r)))
                continue
            v = N.it.val(r)
            want = {"Positive": 1, "Negative": -1, "Zero": 0}.get(v.v if isinstance(v, En) else None)
            sg = {1, 0, -1}
            for rl, V, c in facts:
                for s in (1, -1):
                    if (V - T.scale(s)).iszero():
                        sg &= {x * s for x in REL[rl]}
            R.add(nm, None if sg == {want} else ("failed", "the answer is not the sign of the determinant"))
        R.use(N)


def u_max_comp(R):
    """the axis returned is one along which the normal of a proper triangle does not vanish"""
    N = Ctx(iface())
    it = N.it
    it.keep_ne = True
    pts, vs = [], []
    for i, n in enumerate(("v1", "v2", "v3")):
        s, v = N.point(n, None)
        pts.append(s.f["data"].v)
        vs.append(v)
    nrm = cross(vsub(vs[1], vs[0]), vsub(vs[2], vs[1]))
    n, ratio = 0, 0
    for kd, r, facts in it.paths(lambda: it.call_fn(fn_of(N, "max_comp_in_tri_normal"), pts + [Opaque("alloc")])):
        n += 1
        nm = f"max_comp_in_tri_normal: path {n}"
        if kd != "ret":
            R.add(nm, ("failed", str(r)))
            continue
        k = it.val(r)
        if k not in (0, 1, 2):
            R.add(nm, ("failed", f"returns {k}"))
            continue
        same = lambda P, i: (P - nrm[i]).iszero() or (P + nrm[i]).iszero()
        if all(any(rl == "==" and same(V, i) for rl, V, c in facts if rl not in ("ap", "or")) for i in range(3)):
            continue                    # the triangle is degenerate
        why = ("failed", "no fact shows that the normal does not vanish along the returned axis")
        for rl, V, c in facts:
            if rl == "ap" and not c.neg and c.mx is not None and same(c.a.V, k):
                q, txt = filt.covers(c.mx, c.a)
                if q is None or q > 1 + SLACK:
                    why = ("failed" if q is None or q > 1.01 else "undecided", "filter: " + txt)
                else:
                    ratio = max(ratio, float(q))
                    why = None
                break
            if rl in ("!=", ">", "<") and same(V, k):
                why = None
                break
        R.add(nm, why)
    R.detail["max_comp_in_tri_normal"] = f"{n} paths, filter bound / constant {ratio:.6f}"
    R.use(N)


def u_segment_general(R, Zz):
    """p is in the closed segment v1 v2, given that it is on its line (or that the segment is a point)"""
    names = ["p", "v1", "v2"]
    it = None
    C0 = {}

    def less(k):
        def f(itp, a, t):
            i, j = (itp.val(x).data for x in a[:2])
            return itp.force(Sgn(C0[i][k] - C0[j][k]))
        return f
    c = dict(iface())
    for k, x in enumerate("xyz"):
        c[("src/predicates/less_than.rs", "less_than_on_" + x)] = less(k)
    N = Ctx(c)
    it = N.it
    it.keep_ne = True
    W = World(N, names)
    C0.update(W.c)
    W.real("t")
    dis = disj(NOT(f"(= v1{k} v2{k})") for k in "xyz")
    W.ax.append(f"(=> {dis} " + conj(f"(= p{k} (+ v1{k} (* t (- v2{k} v1{k}))))" for k in "xyz") + ")")
    formula = f"(ite {dis} (and (<= 0.0 t) (<= t 1.0)) {conj(f'(= p{k} v1{k})' for k in 'xyz')})"
    qs, nms = [], []
    for kd, r, facts in it.paths(lambda: it.call_fn(fn_of(N, "point_in_segment_general"), [Opaque("pt", n) for n in names] + [Opaque("alloc")])):
        nm = f"point_in_segment_general: path {len(nms) + 1}"
        if kd != "ret":
            R.add(nm, ("failed", str(r)))
            continue
        nms.append(nm)
        qs.append([W.cond(c) if rl == "or" else rel(rl, W.term(V)) for rl, V, c in facts] + [NOT(iff(W.cond(it.val(r)), formula))])
    pre = W.decl + [f"(assert {x})" for x in W.ax]
    for nm, g in zip(nms, Zz.run(pre, qs)):
        R.add(nm, None if g == "unsat" else ("failed", "the answer does not follow: z3 has an assignment") if g == "sat" else ("undecided", "z3: " + g))
    for g in Zz.run(pre, [[formula], [NOT(formula)]]):
        R.probe(g == "sat")
    R.detail["point_in_segment_general"] = f"{len(nms)} paths; points exist (a missing point is outside the contract)"
    R.use(N)


def u_helpers(R):
    Zz = Z()
    for f in (u_by_axis, u_max_comp, lambda R: u_segment_general(R, Zz)):
        try:
            f(R)
        except Undecided as e:
            R.undecided.append((getattr(f, "__name__", "helper"), str(e)))
    for name in HELPERS:
        try:
            check(R, name, Zz)
        except Undecided as e:
            R.add(name, ("undecided", str(e)))
    u_lemmas(R)
    R.assumptions.add("z3 decides the real arithmetic of each path")
    R.detail["z3 queries"] = Zz.n
