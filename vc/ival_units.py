"""Interval arithmetic (P07): every path of the operations is executed symbolically from the
source, floats as SMT reals with rounding constrained (not modelled): fl(e) has the sign of e or is
zero, next_up(fl(e)) >= e, next_up(v) > v.  Each path yields obligations in non-linear real
arithmetic that z3 discharges."""
from s_units import *
from interp import *
from help_units import Z

IREL = "src/predicates/interval_number.rs"
TY = "IntervalNumber"


class X:
    """a float: t SMT real term; sb SMT boolean (its sign bit); ups: terms known <= next_up(t)"""
    __slots__ = ("t", "sb", "ups", "alt", "c", "e")

    def __init__(self, t, sb, ups=(), alt=None, c=None, e=None):
        self.t, self.sb, self.ups, self.alt, self.c, self.e = t, sb, tuple(ups), alt, c, e


class Bits:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class Simd(Arr):
    __slots__ = ()


class Mask:
    def __init__(self, bs):
        self.bs = bs


class SB:
    """symbolic boolean (SMT term)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def smt_not(t):
    return t[5:-1] if t.startswith("(not ") and balanced(t[5:-1]) else f"(not {t})"


def balanced(s):
    d = 0
    for i, ch in enumerate(s):
        d += ch == "("
        d -= ch == ")"
        if d == 0 and ch == " ":
            return False
    return d == 0


class IvInterp(Interp):
    def __init__(self, index, space):
        super().__init__(index, space)
        self.n = 0

    def resets(self):
        self.decl, self.ax, self.n = [], [], 0

    def fresh(self, p, sort="Real"):
        self.n += 1
        v = f"{p}{self.n}"
        self.decl.append(f"(declare-const {v} {sort})")
        return v

    def signed(self, t, sb=None):
        """attach a sign bit compatible with the value"""
        if sb is None:
            sb = self.fresh("sb", "Bool")
        self.ax.append(f"(=> {sb} (<= {t} 0.0))")
        self.ax.append(f"(=> (not {sb}) (>= {t} 0.0))")
        return sb

    def input(self, name):
        self.decl += [f"(declare-const {name} Real)", f"(declare-const {name}_sb Bool)"]
        self.signed(name, name + "_sb")
        return X(name, name + "_sb")

    # ---- floats ---------------------------------------------------------------------------
    def toX(self, v):
        v = self.val(v)
        if isinstance(v, Lazy):
            v = self.val(v.v)
        if isinstance(v, X):
            return v
        if isinstance(v, F):
            c = v.V.const()
            if c is not None:
                s = f"{abs(c.numerator)}.0" if c.denominator == 1 else f"(/ {abs(c.numerator)}.0 {c.denominator}.0)"
                return X(f"(- {s})" if c < 0 else s, "true" if c < 0 else "false", c=c)
        raise Undecided(f"f64 expected, found {type(v).__name__}")

    def neg(self, x):
        return X(f"(- {x.t})", smt_not(x.sb), c=None if x.c is None else -x.c)

    def fl(self, e, sb=None):
        f = self.fresh("f")
        self.ax += [f"(=> (>= {e} 0.0) (>= {f} 0.0))", f"(=> (<= {e} 0.0) (<= {f} 0.0))"]
        return X(f, self.signed(f, None) if sb is None else (self.signed(f, sb)), e=e)

    def fop(self, op, a, b):
        e = f"({op} {a.t} {b.t})"
        if op == "*":
            sb = self.fresh("sb", "Bool")
            self.ax.append(f"(= {sb} (xor {a.sb} {b.sb}))")
            return self.fl(e, sb)
        return self.fl(e)

    def up(self, x):
        if x.alt:
            c, p, q = x.alt
            P, Q = self.up(p), self.up(q)
            r = X(f"(ite {c} {P.t} {Q.t})", f"(ite {c} {P.sb} {Q.sb})", alt=(c, P, Q))
            for y in (P, Q):          # next_up is monotone
                self.ax.append(f"(>= {r.t} {y.t})")
            return r
        n = self.fresh("n")
        self.ax.append(f"(> {n} {x.t})")
        if x.e is not None:
            self.ax.append(f"(>= {n} {x.e})")
        sb = self.fresh("sb", "Bool")
        self.ax.append(f"(= {sb} (< {x.t} 0.0))")
        self.signed(n, sb)
        return X(n, sb, e=x.e)

    def down(self, x):
        return self.neg(self.up(self.neg(x)))

    def fmax(self, a, b):
        c = f"(>= {a.t} {b.t})"
        return X(f"(ite {c} {a.t} {b.t})", self.signed(f"(ite {c} {a.t} {b.t})"), alt=(c, a, b))

    # ---- hooks ----------------------------------------------------------------------------
    def kind(self, v):
        return None

    def copy(self, v):
        return type(v)(list(v.a)) if isinstance(v, Arr) else v

    def move(self, e, v):
        if isinstance(v, Cell):
            v = v.v
            if isinstance(v, Arr):
                return type(v)(list(v.a))
        return v

    def simd(self, v):
        v = self.val(v)
        if isinstance(v, Lazy):
            v = self.val(v.v)
        if isinstance(v, St) and "data" in v.f:
            raise Undecided("interval used as a vector")
        if isinstance(v, (Arr, View)) and len(v.a) == 2:
            xs = [self.val(x) for x in v.a]
            return Simd([x if isinstance(x, (int, Bits)) else self.toX(x) for x in xs])
        raise Undecided(f"vector expected, found {type(v).__name__}")

    def arith(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Simd) or isinstance(b, Simd):
            a, b = self.simd(a), self.simd(b)
            return Simd([self.arith(op, x, y) for x, y in zip(a.a, b.a)])
        if isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(b, Bits):
                a, b = b, a
            if op == "^" and b == 0 and isinstance(b, int):
                return a
            if op == "^" and isinstance(b, int) and b == 1 << 63:
                return Bits(self.neg(a.x))
            raise Undecided(f"bit operation {op}")
        if isinstance(a, X) or isinstance(b, X):
            a, b = self.toX(a), self.toX(b)
            if op in "+-*":
                return self.fop(op, a, b)
            raise Undecided("operator " + op)
        if isinstance(a, SB) or isinstance(b, SB):
            f = lambda v: v.t if isinstance(v, SB) else str(v).lower()
            if op in "&|^":
                return SB(f"({ {'&': 'and', '|': 'or', '^': 'xor'}[op]} {f(a)} {f(b)})")
        if isinstance(a, St) and isinstance(b, St):
            raise Undecided("operator on intervals inside the module")
        return super().arith(op, a, b)

    def e_Unary(self, n, env, fr):
        if n["op"] in "-!":
            v = self.val(self.ev(n["e"], env, fr))
            if n["op"] == "-" and isinstance(v, X):
                return self.neg(v)
            if n["op"] == "-" and isinstance(v, Simd):
                return Simd([self.neg(self.toX(x)) for x in v.a])
            if n["op"] == "!" and isinstance(v, SB):
                return SB(smt_not(v.t))
        return super().e_Unary(n, env, fr)

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, X) or isinstance(b, X):
            a, b = self.toX(a), self.toX(b)
            if op == "!=":
                return SB(f"(not (= {a.t} {b.t}))")
            return SB(f"({'=' if op == '==' else op} {a.t} {b.t})")
        return super().compare(op, a, b)

    def decide(self, c):
        if isinstance(c, (SB, BoolF)):
            return None
        return super().decide(c)

    def bterm(self, c):
        c = self.val(c)
        if isinstance(c, bool):
            return str(c).lower()
        if isinstance(c, SB):
            return c.t
        if isinstance(c, BoolF):
            return f"({c.op} {' '.join(self.bterm(x) for x in c.xs)})"
        raise Undecided(f"condition of type {type(c).__name__}")

    def truth(self, c):
        c = self.val(c)
        if isinstance(c, bool):
            return c
        t = self.bterm(c)
        if t in ("true", "false"):
            return t == "true"
        if self.choose(2) == 0:
            self.facts.append(("smt", ZERO, t))
            return True
        self.facts.append(("smt", ZERO, smt_not(t)))
        return False

    def branch(self, c):
        return self.truth(c)

    def builtin_call(self, ids, n, env, fr):
        q = ids[-2] if len(ids) > 1 else None
        A = lambda i: self.val(self.argval(n["args"][i], env, fr))
        if q in ("f64x2", "u64x2", "Simd"):
            m = ids[-1]
            if m in ("from_array", "from"):
                return self.simd(A(0))
            if m == "splat":
                v = A(0)
                return self.simd(Arr([v, v]))
            if m == "from_bits":
                return self.frombits(A(0))
            if m == "from_slice":
                return self.simd(A(0))
        if q == "f64" and ids[-1] == "from_bits":
            return self.frombits(A(0))
        if q == "f64" and ids[-1] in ("max", "min", "abs", "next_up", "next_down"):
            return self.method(ids[-1], A(0), [A(i) for i in range(1, len(n["args"]))], n, env, fr, None)
        return NotImplemented

    def frombits(self, v):
        if isinstance(v, Bits):
            return v.x
        if isinstance(v, Simd):
            return Simd([self.frombits(x) for x in v.a])
        raise Undecided("from_bits")

    def method(self, m, rv, args, n, env, fr, recv):
        v = self.val(rv)
        args = [self.val(a) for a in args]
        if isinstance(v, F) and m != "into":
            v = self.toX(v)
        if isinstance(v, X):
            if m == "next_up":
                return self.up(v)
            if m == "next_down":
                return self.down(v)
            if m in ("max", "min"):
                o = self.toX(args[0])
                return self.fmax(v, o) if m == "max" else self.neg(self.fmax(self.neg(v), self.neg(o)))
            if m == "is_sign_negative":
                return SB(v.sb)
            if m == "is_sign_positive":
                return SB(smt_not(v.sb))
            if m == "to_bits":
                return Bits(v)
            if m in ("clone", "into"):
                return v
            if m == "abs":
                return X(f"(ite (>= {v.t} 0.0) {v.t} (- {v.t}))", "false")
            raise Undecided("method " + m + " of f64")
        if isinstance(v, Simd):
            if m == "reverse":
                if isinstance(rv, (Ref, Cell)) and False:
                    pass
                return Simd(list(v.a)[::-1])
            if m in ("reduce_max", "reduce_min"):
                return self.method(m[7:], v.a[0], [v.a[1]], n, env, fr, recv)
            if m in ("is_sign_negative", "is_sign_positive", "to_bits", "abs"):
                r = [self.method(m, x, [], n, env, fr, recv) for x in v.a]
                return Mask(r) if m[:3] == "is_" else Simd(r)
            if m in ("simd_max", "simd_min"):
                return Simd([self.method(m[5:], x, [y], n, env, fr, recv) for x, y in zip(v.a, self.simd(args[0]).a)])
            if m in ("simd_lt", "simd_le", "simd_gt", "simd_ge", "simd_eq", "simd_ne"):
                op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[m[5:]]
                return Mask([self.compare(op, x, y) for x, y in zip(v.a, self.simd(args[0]).a)])
            if m in ("to_array", "as_array"):
                return Arr(list(v.a))
            if m in ("clone", "into"):
                return Simd(list(v.a)) if m == "clone" else v
        if isinstance(v, Mask):
            if m == "to_bitmask":
                return sum((1 << i) for i, b in enumerate(v.bs) if self.truth(b))
            if m == "any":
                return SB(f"(or {self.bterm(v.bs[0])} {self.bterm(v.bs[1])})")
            if m == "all":
                return SB(f"(and {self.bterm(v.bs[0])} {self.bterm(v.bs[1])})")
            if m == "test":
                return v.bs[args[0]]
            if m == "select":
                a, b = self.simd(args[0]), self.simd(args[1])
                return Simd([x if self.truth(c) else y for c, x, y in zip(v.bs, a.a, b.a)])
        if isinstance(v, (Arr, View)) and m == "into":
            return self.simd(v)
        if isinstance(v, SB) and m == "clone":
            return v
        return super().method(m, rv, args, n, env, fr, recv)


class Iv:
    def __init__(self):
        self.ix = FnIndex([IREL])
        self.sp = Space()
        self.it = IvInterp(self.ix, self.sp)

    def iv(self, n, empty_ok=False):
        """an interval [-n1, n0] holding the exact value n; n0, n1 not both with the sign bit set"""
        it = self.it
        a = [it.input(n + "0"), it.input(n + "1")]
        it.ax.append(f"(not (and {a[0].sb} {a[1].sb}))")
        it.decl.append(f"(declare-const {n} Real)")
        it.ax += [f"(<= {n} {a[0].t})", f"(<= (- {a[1].t}) {n})"]
        return St(TY, {"data": Cell(Simd(a))})


def lanes(it, r):
    r = it.val(r)
    if not (isinstance(r, St) and r.name == TY):
        raise Undecided("result is not an interval")
    v = it.val(r.f["data"])
    if not isinstance(v, Simd):
        raise Undecided("result data is not a vector")
    return [it.toX(x) for x in v.a]


def check(R, I, Zz, name, call, goals, probe=None):
    """goals(result) -> [(text, SMT term)] on each path; panics must be unreachable"""
    it = I.it
    n = live = 0
    for k, r, facts in it.paths(call):
        n += 1
        pre = it.decl + [f"(assert {x})" for x in it.ax] + [f"(assert {t})" for _, _, t in facts]
        nm = f"{name}: path {n}"
        if k != "ret":
            gs = [("panic '" + str(r) + "' unreachable", "false")]
        else:
            try:
                gs = goals(r)
            except Undecided as e:
                R.add(nm, ("undecided", str(e)))
                continue
            pre = it.decl + [f"(assert {x})" for x in it.ax] + [f"(assert {t})" for _, _, t in facts]
        res = Zz.run(pre, [[smt_not(g)] for _, g in gs])
        for (t, g), s in zip(gs, res):
            R.add(f"{nm}: {t}", None if s == "unsat" else ("failed" if s == "sat" else "undecided", f"{t}: not implied ({s})" + (f", facts {[t for _, _, t in facts]}" if facts else "")))
        if k == "ret" and probe:
            live += Zz.run(pre, [[]])[0] != "unsat"      # the path's assumptions are consistent
    if not n:
        raise Undecided(name + ": no path")
    if probe:
        R.probe(live > 0)
    R.detail[name] = f"{n} paths" + (f", {live} reachable" if probe else "")


def encl(it, r, e):
    a = lanes(it, r)
    return [("upper bound >= exact result", f"(>= {a[0].t} {e})"), ("lower bound <= exact result", f"(<= (- {a[1].t}) {e})"),
            ("bounds keep the sign-bit invariant", f"(not (and {a[0].sb} {a[1].sb}))")]


def boolean(it, r):
    return it.bterm(r)


def u_interval(R):
    R.assumptions = {"finite interval bounds, no overflow (a rounded result is finite); rounding is monotone and to nearest, so next_up(fl(e)) >= e and fl(e) has no sign opposite to e (underflow allowed)",
                     "std::simd lane semantics (elementwise + - *, reverse, reduce_max, to_bitmask with lane 0 lowest, to_bits/from_bits), f64::next_up",
                     "IntervalNumber::new(low, high) and from_f64x2 are given low <= high (low = 0.0 with high = -0.0 excluded)"}
    Zz = Z(200)
    I = Iv()
    it, ix = I.it, I.ix
    OPS = {"add": ("+", "Add"), "sub": ("-", "Sub"), "mul": ("*", "Mul")}
    ex = {}
    for im in rsyn.expand_items(IREL):
        if im.get("k") == "Impl" and im.get("trait"):
            tr = rsyn.path_last(im["trait"])
            for f in im["items"]:
                if f.get("k") == "Fn":
                    ex.setdefault((tr, f["name"]), []).append((im, f))
    src, items = rsyn.load(IREL)
    for im in rsyn.items_flat(items):
        if im["k"] == "Impl" and im["trait"]:
            tr = rsyn.path_last(im["trait"])
            for f in im["items"]:
                if f.get("k") == "Fn":
                    ex.setdefault((tr, f["name"]), []).append((im, f))
    for fn, (op, tr) in OPS.items():
        impls = ex.get((tr, fn), [])
        if len(impls) != 4:
            raise Undecided(f"anchor lost: {len(impls)} implementations of {tr} for intervals")
        for j, (im, f) in enumerate(impls):
            F_ = Fn(f, IREL, im)

            def call():
                return it.call_fn(F_, [I.iv("x"), I.iv("y")], None, TY)
            check(R, I, Zz, f"{tr} #{j}", call, lambda r: encl(it, r, f"({op} x y)"), True)
    M = lambda n: ix.meth[(TY, n)] if (TY, n) in ix.meth else (_ for _ in ()).throw(Undecided("anchor lost: " + n))

    def call():
        i = I.iv("x")
        c = Cell(i)
        it.call_fn(M("neg"), [Ref(lambda: c.v, lambda v: it.setcell(c, v))], None, TY)
        return c.v
    check(R, I, Zz, "neg", call, lambda r: encl(it, r, "(- x)"))

    def mk():
        v = it.input("v")
        return it.call_fn(M("from"), [v], None, TY)
    check(R, I, Zz, "from", mk, lambda r: encl(it, r, "v"))

    def mk2():
        l, h = it.input("l"), it.input("h")
        it.decl.append("(declare-const x Real)")
        it.ax += ["(<= l x)", "(<= x h)", "(or (< l h) (= l_sb h_sb) l_sb)"]
        return it.call_fn(M("new"), [l, h], None, TY)
    check(R, I, Zz, "new", mk2, lambda r: encl(it, r, "x"))

    def fd():
        i = I.iv("x")
        return it.call_fn(M("from_f64x2"), [i.f["data"].v], None, TY)
    check(R, I, Zz, "from_f64x2", fd, lambda r: encl(it, r, "x"))
    for nm, spec in (("positive", "(< x1 0.0)"), ("negative", "(< x0 0.0)"), ("not_zero", "(or (< x1 0.0) (< x0 0.0))")):
        def call(nm=nm):
            return it.call_fn(M(nm), [I.iv("x")], None, TY)
        sound = {"positive": "(> x 0.0)", "negative": "(< x 0.0)", "not_zero": "(not (= x 0.0))"}[nm]
        check(R, I, Zz, nm, call, lambda r: [("true exactly when the bounds settle it", f"(= {boolean(it, r)} {spec})"), ("every enclosed value agrees", f"(=> {boolean(it, r)} {sound})")])

    def cl():
        return it.call_fn(M("clone"), [I.iv("x")], None, TY)
    if (TY, "clone") in ix.meth:
        check(R, I, Zz, "clone", cl, lambda r: encl(it, r, "x"))
    R.functions |= set(it.inlined)
    R.detail["solver_queries"] = Zz.n
