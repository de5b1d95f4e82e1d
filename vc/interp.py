"""Symbolic execution of the functions of /repo from their syntax trees (see sym.py for numbers).

A function body is executed with symbolic arguments; calls go to the callee's contract where one is
given, otherwise into the callee's body. Every branch on an undetermined condition is taken both
ways (the execution is repeated with the recorded decisions), except tests for zero whose branches
only change values: those are merged with an indicator atom. No input value, array length of an
expansion or number of components is ever fixed.
"""
from fractions import Fraction as Fr
import rsyn
from sym import Poly, C, ZERO, ONE, Space, Undecided, Pre, U


class Panic(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    def __init__(self, label, v):
        self.label, self.v = label, v


class ContinueEx(Exception):
    def __init__(self, label):
        self.label = label


class Infeasible(Exception):
    pass


class F:
    """an f64: exact value V; tag = (group, index) of a multi-component result; last = V is the
    value of the expansion whose last component this is (same sign and same zero)"""
    __slots__ = ("V", "tag", "last")

    def __init__(self, V, tag=None, last=False):
        self.V, self.tag, self.last = V, tag, last

    def __repr__(self):
        return f"F({self.V.t})"


class Ap(F):
    """an f64 that approximates the exact value V; n: how it was computed (filter.py)"""
    __slots__ = ("n",)

    def __init__(self, V, n):
        self.V, self.tag, self.last, self.n = V, None, False, n


class Mx(F):
    """sign * c * M^k with r roundings, M the maximum of the magnitudes of args"""
    __slots__ = ("c", "k", "r", "args", "sgn", "src")

    def __init__(self, c, k, r, args, sgn=1):
        self.V, self.tag, self.last = None, None, False
        self.c, self.k, self.r, self.args, self.sgn = c, k, r, frozenset(args), sgn
        self.src = None


class AbsLast(F):
    """the magnitude of the last component of an expansion with value V"""
    __slots__ = ()

    def __init__(self, V):
        self.V, self.tag, self.last = V, None, False


class ApCond:
    """sign * (value of node n) > bound (an Mx, or None for zero)"""
    __slots__ = ("a", "s", "mx", "neg")

    def __init__(self, a, s, mx, neg=False):
        self.a, self.s, self.mx, self.neg = a, s, mx, neg


class Exp:
    """a Vec<f64>/&[f64] holding a (strongly non-overlapping, zero-eliminated or not) expansion"""
    __slots__ = ("V", "ne", "ok")

    def __init__(self, V, ne=None, ok=True):
        self.V, self.ne, self.ok = V, (C(1) if ne is None else ne), ok


class IV:
    """an interval known to contain V; cls: 1 / -1 / 0 reported positive / negative / undecided"""
    __slots__ = ("V", "cls")

    def __init__(self, V, cls=None):
        self.V, self.cls = V, cls


class Lazy:
    """x.into() whose target type is not known yet"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Arr:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Whole:
    """sole content of an Arr that is known only as an expansion (after a merge)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class View:
    """slice of an Arr"""
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    @property
    def a(self):
        return self.base.a[self.lo:self.hi]


class St:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class En:
    __slots__ = ("name", "v", "p")

    def __init__(self, name, v, p=()):
        self.name, self.v, self.p = name, v, list(p)

    def __repr__(self):
        return f"{self.name}::{self.v}{self.p if self.p else ''}"


SOME = lambda v: En("Option", "Some", [v])
NONE = lambda: En("Option", "None")


class Sgn:
    """symbolic Orientation: sign of V (three-way), Undefined when und holds"""
    __slots__ = ("V",)

    def __init__(self, V):
        self.V = V


class Opaque:
    __slots__ = ("name", "data")

    def __init__(self, name, data=None):
        self.name, self.data = name, data


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Ref:
    """&mut place"""
    __slots__ = ("get", "set")

    def __init__(self, get, set):
        self.get, self.set = get, set


class Fn:
    __slots__ = ("node", "rel", "impl", "env")

    def __init__(self, node, rel, impl=None, env=None):
        self.node, self.rel, self.impl, self.env = node, rel, impl, env


class Clo:
    __slots__ = ("node", "env", "fr")

    def __init__(self, node, env, fr):
        self.node, self.env, self.fr = node, env, fr


class Cond:
    """comparison of a polynomial with zero: rel in > >= < <= == !="""
    __slots__ = ("rel", "V", "lhs", "rhs")

    def __init__(self, rel, V, lhs=None, rhs=None):
        self.rel, self.V, self.lhs, self.rhs = rel, V, lhs, rhs


NEG = {">": "<=", ">=": "<", "<": ">=", "<=": ">", "==": "!=", "!=": "=="}
FLIP = {">": "<", ">=": "<=", "<": ">", "<=": ">=", "==": "==", "!=": "!="}


class BoolF:
    """and/or of conditions"""
    __slots__ = ("op", "xs")

    def __init__(self, op, xs):
        self.op, self.xs = op, xs


def bnot(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, Cond):
        return Cond(NEG[c.rel], c.V, c.lhs, c.rhs)
    if isinstance(c, ApCond):
        return ApCond(c.a, c.s, c.mx, not c.neg)
    return BoolF("or" if c.op == "and" else "and", [bnot(x) for x in c.xs])


class Env:
    __slots__ = ("d", "up")

    def __init__(self, up=None):
        self.d, self.up = {}, up

    def find(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        return None


class Frame:
    __slots__ = ("rel", "tmap", "cmap", "fn", "selfty")

    def __init__(self, rel, fn, tmap=None, cmap=None, selfty=None):
        self.rel, self.fn, self.tmap, self.cmap, self.selfty = rel, fn, tmap or {}, cmap or {}, selfty


class FnIndex:
    def __init__(self, files):
        self.free, self.meth, self.traitdef, self.consts = {}, {}, {}, {}
        for rel in files:
            src, items = rsyn.load(rel)
            for it in rsyn.items_flat(items):
                if it["k"] == "Fn" and not it["test"]:
                    self.free.setdefault(it["name"], []).append(Fn(it, rel))
                elif it["k"] == "Const":
                    self.consts[(rel, it["name"])] = it
                elif it["k"] == "Impl":
                    tn = rsyn.type_name(it["ty"])
                    for f in it["items"]:
                        if f.get("k") == "Fn":
                            self.meth.setdefault((tn, f["name"]), Fn(f, rel, it))
                        elif f.get("k") == "Const":
                            self.consts[(tn, f["name"])] = f
                elif it["k"] == "Trait":
                    for f in it["items"]:
                        if f.get("k") == "Fn" and f["body"]:
                            self.traitdef[f["name"]] = Fn(f, rel, it)


def has_jump(node):
    if isinstance(node, dict):
        k = node.get("k")
        if k in ("Return", "Break", "Continue", "Try"):
            return True
        if k == "Closure" or k == "Item":
            return False
        return any(has_jump(v) for v in node.values())
    if isinstance(node, list):
        return any(has_jump(v) for v in node)
    return False


class Interp:
    def __init__(self, index, space, contracts=None, mod_of=None):
        self.ix, self.sp = index, space
        self.contracts = contracts or {}
        self.mod_of = mod_of or {}
        self.used, self.inlined = set(), set()
        self.constcache = {}
        self.log = None
        self.dec, self.pos = [], 0
        self.facts = []
        self.obl = []
        self.steps = 0
        self.depth = 0

    # ---- decisions ------------------------------------------------------------------------
    def choose(self, n, what=None):
        if self.pos < len(self.dec):
            r = self.dec[self.pos][0]
        else:
            r = 0
            self.dec.append([0, n])
        self.pos += 1
        return r

    def paths(self, run, limit=20000):
        """run() once per path; yields (result, facts)"""
        self.dec = []
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Undecided("too many paths")
            self.pos, self.facts, self.log, self.obl = 0, [], None, []
            self.resets()
            try:
                r = run()
                yield ("ret", r, list(self.facts))
            except Infeasible:
                pass
            except Panic as e:
                yield ("panic", str(e), list(self.facts))
            except Pre as e:
                yield ("pre", str(e), list(self.facts))
            self.dec = self.dec[:self.pos]
            while self.dec and self.dec[-1][0] + 1 >= self.dec[-1][1]:
                self.dec.pop()
            if not self.dec:
                return
            self.dec[-1][0] += 1

    def resets(self):
        pass

    # ---- facts ----------------------------------------------------------------------------
    def canon(self, c):
        """(rel, poly) with canonical sign"""
        V = self.sp.norm(c.V)
        if V.t:
            V = self.strip(V)
            k = V.t[min(V.t)]
            V = V.scale(1 / abs(k))
            if k < 0:
                return FLIP[c.rel], -V
        return c.rel, V

    def strip(self, V):
        """V without a common factor that is a power of two"""
        m0 = next(iter(V.t))
        for x in set(m0):
            if self.sp.atoms[x].kind == "pow2" and all(x in m for m in V.t):
                out = {}
                for m, c in V.t.items():
                    l = list(m)
                    l.remove(x)
                    out[tuple(l)] = c
                return self.strip(Poly(out))
        return V

    def sign_of(self, V):
        """possible signs of V on this path: subset of {-1,0,1}"""
        s = {-1, 0, 1}
        if V.t:
            V = self.strip(V)
            V = V.scale(1 / abs(V.t[min(V.t)]))
        k = V.const()
        if k is not None:
            return {(k > 0) - (k < 0)}
        flip = V.t[min(V.t)] < 0
        if flip:
            V = -V
        nn = self.sp.nnpoly(V, self.signs())
        if nn is not None:
            s &= {0, 1}
        for rel, P, _ in self.facts:
            if rel not in ("ap", "or") and P == V:
                s &= {">": {1}, ">=": {0, 1}, "<": {-1}, "<=": {-1, 0}, "==": {0}, "!=": {-1, 1}}[rel]
        return {-x for x in s} if flip else s

    def signs(self):
        """atoms with a known weak sign"""
        d = {}
        for rel, P, _ in self.facts:
            if rel not in ("ap", "or") and len(P.t) == 1:
                (m, c), = P.t.items()
                if len(m) == 1:
                    if rel in (">", ">=", "=="):
                        d[m[0]] = 1 if c > 0 else -1
                    elif rel in ("<", "<="):
                        d[m[0]] = -1 if c > 0 else 1
        return d

    def decide(self, c):
        """True/False/None"""
        if isinstance(c, bool):
            return c
        if isinstance(c, BoolF):
            vs = [self.decide(x) for x in c.xs]
            if c.op == "and":
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if isinstance(c, ApCond):
            return self.ap_decide(c)
        rel, V = self.canon(c)
        s = self.sign_of(V)
        ok = {">": {1}, ">=": {0, 1}, "<": {-1}, "<=": {-1, 0}, "==": {0}, "!=": {-1, 1}}[rel]
        if s <= ok:
            return True
        if not (s & ok):
            return False
        return None

    def ap_decide(self, c):
        """from an earlier comparison of the same value: s a > mx >= 0"""
        for rel, _, f in self.facts:
            if rel == "ap" and f.a.n is c.a.n:
                if f.s == c.s and f.mx is c.mx:
                    return f.neg == c.neg
                if not f.neg:            # f.s * a > something >= 0
                    if f.s != c.s:
                        return c.neg
                    if c.mx is None:
                        return not c.neg
        return None

    def assume(self, c):
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            raise Infeasible()
        if isinstance(c, BoolF):
            if c.op == "and":
                for x in c.xs:
                    self.assume(x)
            else:
                xs = [x for x in c.xs if self.decide(x) is not False]
                if getattr(self, "keep_ne", False):
                    self.facts.append(("or", None, BoolF("or", xs)))
                    return
                if all(isinstance(x, Cond) and x.rel == "!=" for x in xs):
                    return      # nothing that a certificate uses: drop the fact
                i = self.choose(len(xs)) if len(xs) > 1 else 0
                self.assume(xs[i])
            return
        if isinstance(c, ApCond):
            self.facts.append(("ap", c.a.V, c))
            return
        rel, V = self.canon(c)
        self.facts.append((rel, V, c))
        if not self.sign_of(V):
            raise Infeasible()

    def branch(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        if self.choose(2) == 0:
            self.assume(c)
            return True
        self.assume(bnot(c))
        return False

    def zero_test(self, c):
        """(atoms, True if c means 'all zero') for a test of atoms against zero, else None"""
        def one(x, rel):
            if isinstance(x, Cond) and x.rel == rel:
                V = self.sp.norm(x.V)
                if len(V.t) == 1:
                    (m, _), = V.t.items()
                    if len(m) == 1 and self.sp.atoms[m[0]].kind in ("tail", "input", "diff", "round"):
                        return m[0]
            return None
        if isinstance(c, Cond):
            for rel in ("==", "!="):
                a = one(c, rel)
                if a is not None:
                    return [a], rel == "=="
            return None
        if isinstance(c, BoolF):
            rel = "==" if c.op == "and" else "!="
            xs = self.flat(c)
            if xs is None:
                return None
            zs = [one(x, rel) for x in xs if self.decide(x) is None]
            if zs and all(z is not None for z in zs):
                return zs, rel == "=="
        return None

    def flat(self, c):
        out = []
        for x in c.xs:
            if isinstance(x, BoolF):
                if x.op != c.op:
                    return None
                y = self.flat(x)
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out

    # ---- writes ---------------------------------------------------------------------------
    def setcell(self, c, v):
        if self.log is not None:
            self.log.append((c, None, c.v))
        c.v = v

    def setarr(self, a, i, v):
        if any(isinstance(x, Whole) for x in a.a):
            raise Undecided("components of a conditionally filled expansion")
        if isinstance(a, View):
            return self.setarr(a.base, a.lo + i, v)
        if self.log is not None:
            self.log.append((a, "copy", list(a.a)))
        a.a[i] = v

    def setlist(self, a, l):
        if self.log is not None:
            self.log.append((a, "copy", list(a.a)))
        a.a = l

    def merged(self, atoms, allzero_first, f_then, f_else):
        """run both branches and merge the states"""
        g = self.sp.indicator(atoms)
        outs = []
        fz, fn = (f_then, f_else) if allzero_first else (f_else, f_then)
        saved = self.log
        nf = len(self.facts)
        for zero, f in ((False, fn), (True, fz)):
            self.log = []
            if zero:
                for x in atoms:
                    self.facts.append(("==", Poly({(x,): ONE}), None))
            elif len(atoms) == 1:
                self.facts.append(("!=", Poly({(atoms[0],): ONE}), None))
            p0 = self.pos
            v = f()
            if self.pos != p0:
                raise Undecided("branching inside a merged branch")
            del self.facts[nf:]
            fin = {}
            for (o, k, old) in self.log:
                fin[id(o)] = (o, k)
            vals = {i: (o, k, (o.v if k is None else list(o.a))) for i, (o, k) in fin.items()}
            for (o, k, old) in reversed(self.log):
                if k is None:
                    o.v = old
                else:
                    o.a = old
            outs.append((v, vals))
        self.log = saved
        (v1, s1), (v0, s0) = outs
        for i in set(s1) | set(s0):
            o, k = (s1.get(i) or s0.get(i))[:2]
            cur = o.v if k is None else list(o.a)
            a = s1[i][2] if i in s1 else cur
            b = s0[i][2] if i in s0 else cur
            if k is None:
                self.setcell(o, self.merge(g, a, b))
            else:
                if len(a) != len(b) or any(isinstance(x, Whole) for x in a + b):
                    a, b = self.to_exp(Arr(a)), self.to_exp(Arr(b))
                    self.setlist(o, [Whole(Exp(self.mergeV(g, a.V, b.V), self.mergeV(g, a.ne, b.ne), a.ok and b.ok))])
                    continue
                self.setlist(o, [self.merge(g, x, y) for x, y in zip(a, b)])
        return self.merge(g, v1, v0)

    def mergeV(self, g, a, b):
        if a == b:
            return a
        return self.sp.norm(g * a + b - g * b)

    def merge(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, F) and isinstance(b, F):
            return F(self.mergeV(g, a.V, b.V), a.tag if a.tag == b.tag else None)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        if isinstance(a, (Arr, Exp)) and isinstance(b, (Arr, Exp)):
            a, b = self.to_exp(a), self.to_exp(b)
            return Exp(self.mergeV(g, a.V, b.V), self.mergeV(g, a.ne, b.ne), a.ok and b.ok)
        if type(a) is type(b) and isinstance(a, (int, bool)) and a == b:
            return a
        raise Undecided(f"cannot merge {type(a).__name__} and {type(b).__name__}")

    # ---- expansions -----------------------------------------------------------------------
    def to_exp(self, v):
        v = self.val(v)
        if isinstance(v, St) and "vec" in v.f:
            v = v.f["vec"].v
        if isinstance(v, Exp):
            return v
        if isinstance(v, (Arr, View)):
            xs = [self.val(x) for x in v.a]
            xs = [self.asF(self.val(x.v)) if isinstance(x, Lazy) else x for x in xs]
            if len(xs) == 1 and isinstance(xs[0], Whole):
                return xs[0].e
            if all(isinstance(x, Exp) for x in xs) and xs:
                raise Undecided("array of expansions used as an expansion")
            s = ZERO
            for x in xs:
                s = s + x.V
            nz = [x for x in xs if x.V.const() is None or x.V.const() != 0]
            ok = len(nz) <= 1
            if not ok:
                tags = [x.tag for x in nz]
                ok = None not in tags and len({(t[0], t[2]) for t in tags}) == 1 and all(tags[i][1] < tags[i + 1][1] for i in range(len(tags) - 1)) if tags else True
            return Exp(s, C(1) if xs else ZERO, ok)
        raise Undecided(f"expansion expected, found {type(v).__name__}")

    # ---- values ---------------------------------------------------------------------------
    def val(self, v):
        while isinstance(v, (Ref, Cell)):
            v = v.get() if isinstance(v, Ref) else v.v
        return v

    def asF(self, v):
        v = self.val(v)
        if isinstance(v, Lazy):
            v = self.val(v.v)
        if isinstance(v, F):
            return v
        raise Undecided(f"f64 expected, found {type(v).__name__}")

    def rnd(self, V):
        V1 = self.sp.norm(V) if V.degree() <= 1 else V
        return F(self.sp.round(V1, self.signs()))

    def lin(self, V):
        return self.sp.norm(V) if V.degree() <= 1 else V

    def arith(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Lazy) and isinstance(b, Lazy):
            raise Undecided("type of .into() not known")
        if isinstance(a, Lazy):
            a = self.coerce(a, self.kind(b))
        if isinstance(b, Lazy):
            b = self.coerce(b, self.kind(a))
        if isinstance(a, St) and "vec" in a.f:
            a = self.to_exp(a)
        if isinstance(b, St) and "vec" in b.f:
            b = self.to_exp(b)
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == 0:
                    raise Panic("division by zero")
                return int(a / b) if (a < 0) != (b < 0) else a // b
            if op == "%":
                if b == 0:
                    raise Panic("remainder by zero")
                return abs(a) % abs(b) * (1 if a >= 0 else -1)
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
        if isinstance(a, (Ap, Mx)) or isinstance(b, (Ap, Mx)):
            return self.ap_arith(op, a, b)
        if type(a) is not type(b):
            raise Undecided(f"{op} on {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, (F, IV, Exp)):
            x, y = a.V, b.V
            if op == "/":
                cx, cy = x.const(), y.const()
                if isinstance(a, F) and cx is not None and cy is not None and cy != 0:
                    return F(C(Fr(float(cx) / float(cy))))
                if isinstance(a, F):
                    k = ("quo", x.key(), y.key())
                    if k not in self.sp.rkey:
                        self.sp.rkey[k] = self.sp.new("quo%d" % len(self.sp.atoms), "quo").id
                    r = F(self.sp.P(self.sp.atoms[self.sp.rkey[k]]))
                    r.tag = ("quo", x, y)
                    return r
                raise Undecided("division")
            r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else None
            if r is None:
                raise Undecided("operator " + op)
            if isinstance(a, F):
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    fx, fy = float(cx), float(cy)
                    return F(C(Fr({"+": fx + fy, "-": fx - fy, "*": fx * fy}[op])))
                return self.rnd(self.mayzero(r))
            return IV(r) if isinstance(a, IV) else Exp(r)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"&": a and b, "|": a or b, "^": a != b}[op]
        raise Undecided(f"{op} on {type(a).__name__}")

    def ap_arith(self, op, a, b):
        import filt
        if isinstance(a, F) and isinstance(b, F):
            if isinstance(b, Mx) and not isinstance(a, Mx):
                a, b = b, a
            if isinstance(a, Mx) and op == "*":
                if isinstance(b, Mx):
                    if a.args != b.args:
                        raise Undecided("product of different maxima")
                    return Mx(a.c * b.c, a.k + b.k, a.r + b.r + 1, a.args, a.sgn * b.sgn)
                c = b.V.const() if b.V is not None and not isinstance(b, Ap) else None
                if c is not None and c > 0:
                    return Mx(a.c * c, a.k, a.r + (0 if filt.pow2(c) else 1), a.args, a.sgn)
            if isinstance(a, Mx) and op == "+" and isinstance(b, Mx) and a.args == b.args and a.k == b.k and a.sgn == b.sgn:
                return Mx(a.c + b.c, a.k, max(a.r, b.r) + 1, a.args, a.sgn)
            if isinstance(a, Ap) and isinstance(b, Ap) and op in "+-*":
                V = a.V + b.V if op == "+" else a.V - b.V if op == "-" else a.V * b.V
                return Ap(V, filt.node(op, a.n, b.n))
            if isinstance(a, Ap) and op == "*" and not isinstance(b, Ap) and b.V is not None and b.V.const() is not None and filt.pow2(abs(b.V.const())):
                c = b.V.const()
                return Ap(a.V.scale(c), filt.node("s", a.n, c))
        raise Undecided(f"filter arithmetic {op} on {type(a).__name__} and {type(b).__name__}")

    def mayzero(self, V):
        """drop monomials with an atom that is zero on this path"""
        z = {x for rel, P, _ in self.facts if rel == "==" and len(P.t) == 1 for m in P.t for x in m if len(m) == 1}
        if not z:
            return V
        return Poly({m: c for m, c in V.t.items() if not any(x in z for x in m)})

    def kind(self, v):
        v = self.val(v)
        if isinstance(v, St) and "vec" in v.f:
            return "Exp"
        return {F: "F", Ap: "F", Mx: "F", IV: "IV", Exp: "Exp"}.get(type(v))

    def coerce(self, v, kind):
        v = self.val(v)
        if isinstance(v, Lazy):
            w = self.val(v.v)
            if kind == "F":
                return self.asF(w)
            if kind == "IV":
                return IV(self.asF(w).V) if isinstance(w, F) else w
            if kind == "Exp":
                return self.to_exp(w)
            raise Undecided("into " + str(kind))
        return v

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (Ap, Mx)) or isinstance(b, (Ap, Mx)):
            return self.ap_compare(op, a, b)
        if isinstance(a, F) and isinstance(b, F):
            if (a.last or b.last):
                o = b if a.last else a
                if o.V.const() != 0:
                    raise Undecided("last component compared with something other than zero")
            return Cond(op, self.lin(a.V - b.V), a.V, b.V)
        if isinstance(a, Opaque) and a.name == "int" and isinstance(b, int):
            return self.choose(2) == 0          # an unknown integer
        if isinstance(a, (Sgn, En)) and isinstance(b, (Sgn, En)):
            a, b = self.force(a), self.force(b)
            r = a.name == b.name and a.v == b.v
            if r and a.p:
                raise Undecided("comparison of payloads")
            return r if op == "==" else not r
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ("==", "!="):
            r = all(self.truth(self.compare("==", x, y)) for x, y in zip(a, b))
            return r if op == "==" else not r
        if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)) and op in ("==", "!="):
            r = len(a.a) == len(b.a) and all(self.truth(self.compare("==", x, y)) for x, y in zip(a.a, b.a))
            return r if op == "==" else not r
        raise Undecided(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def ap_compare(self, op, a, b):
        z = lambda x: not isinstance(x, (Ap, Mx)) and isinstance(x, F) and x.V is not None and x.V.iszero()
        if isinstance(a, Ap) and isinstance(b, Ap) and a.n.op == "in" and b.n.op == "in":
            return Cond(op, a.V - b.V, a.V, b.V)
        if isinstance(b, Ap) and not isinstance(a, Ap):
            a, b, op = b, a, FLIP[op]
        if isinstance(a, Ap) and z(b):
            if a.n.op == "in":
                return Cond(op, a.V)
            if op in (">", "<"):
                return ApCond(a, 1 if op == ">" else -1, None)
            if op in ("<=", ">="):
                return ApCond(a, 1 if op == "<=" else -1, None, True)
        if isinstance(a, Ap) and isinstance(b, Mx):
            if (op in (">", ">=") and b.sgn == 1) or (op in ("<", "<=") and b.sgn == -1):
                if op in (">=", "<="):
                    raise Undecided("filter comparison is not strict")
                return ApCond(a, b.sgn, b)
            if op in ("<=", ">=") and (op == "<=") == (b.sgn == 1):
                return ApCond(a, b.sgn, b, True)
        if isinstance(a, Mx) and a.src is not None and isinstance(b, Mx) and op == ">" and b.src is None:
            # |value| > bound: in one of two directions, or not
            k = self.choose(3)
            if k == 2:
                return False
            self.assume(ApCond(a.src, 1 - 2 * k, b))
            return True
        if isinstance(a, Mx) and z(b) and op in ("==", "!="):
            return self.choose(2) == (0 if op == "==" else 1)
        raise Undecided(f"filter comparison {op} of {type(a).__name__} and {type(b).__name__}")

    def truth(self, c):
        c = self.val(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, (Cond, BoolF, ApCond)):
            return self.branch(c)
        raise Undecided(f"condition of type {type(c).__name__}")

    def force(self, s):
        """a concrete enum value"""
        s = self.val(s)
        if isinstance(s, Sgn):
            V = s.V
            sg = self.sign_of(self.sp.norm(V))
            opts = [x for x in (1, -1, 0) if x in sg]
            i = self.choose(len(opts)) if len(opts) > 1 else 0
            self.assume(Cond({1: ">", -1: "<", 0: "=="}[opts[i]], V))
            return En("Orientation", {1: "Positive", -1: "Negative", 0: "Zero"}[opts[i]])
        return s

    # ---- calls ----------------------------------------------------------------------------
    def resolve(self, path, fr, env):
        name = path[-1]["id"]
        if len(path) == 1:
            c = env.find(name) if env else None
            if c is not None:
                v = self.val(c)
                if isinstance(v, (Fn, Clo)) or callable(v):
                    return v
        cands = self.ix.free.get(name, [])
        if len(path) > 1:
            q = path[-2]["id"]
            m = [f for f in cands if f.rel.endswith(f"/{q}.rs") or f.rel.endswith(f"/{q}/mod.rs")]
            if m:
                return m[0]
            if (q, name) in self.ix.meth:
                return self.ix.meth[(q, name)]
            if q == "Self" and fr.selfty and (fr.selfty, name) in self.ix.meth:
                return self.ix.meth[(fr.selfty, name)]
            if q in ("super", "crate", "self"):
                pass
            else:
                return None
        same = [f for f in cands if f.rel == fr.rel]
        if same:
            return same[0]
        pref = self.mod_of.get(name)
        if pref:
            for f in cands:
                if f.rel == pref:
                    return f
        if len(cands) == 1:
            return cands[0]
        if cands:
            raise Undecided(f"ambiguous function {name}")
        return None

    def call_fn(self, fn, args, targs=None, selfty=None):
        node = fn.node
        name = node["name"]
        q = (selfty or (rsyn.type_name(fn.impl["ty"]) if fn.impl and fn.impl.get("ty") else None))
        for key in ((q, name), (fn.rel, name), name):
            if key in self.contracts and not (key == name and q and q != "Self" and (q, name) not in self.contracts and False):
                self.used.add(name if not isinstance(key, tuple) or not q else f"{q}::{name}")
                return self.contracts[key](self, args, targs or [])
        self.inlined.add(f"{fn.rel}::{q + '::' if q else ''}{name}")
        if node["body"] is None:
            raise Undecided(f"no body: {name}")
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        env = Env(fn.env)
        tmap, cmap = {}, {}
        gens = [g for g in node["generics"] if g["k"] in ("T", "C")]
        for g, t in zip(gens, targs or []):
            if g["k"] == "C":
                cmap[g["id"]] = t
            elif t is not None:
                tmap[g["id"]] = t
        params = node["params"]
        # infer generic numeric type from the arguments
        def tvar(t):
            while t and t["k"] == "Ref":
                t = t["e"]
            n = rsyn.type_name(t)
            return n if any(g["id"] == n and g["k"] == "T" for g in gens) else None
        for p, a in zip(params, args):
            if not p.get("self"):
                tv = tvar(p["t"])
                if tv and tv not in tmap:
                    k = self.kind(a)
                    if k:
                        tmap[tv] = k
        vals = []
        for p, a in zip(params, args):
            if not p.get("self"):
                tv = tvar(p["t"])
                n = rsyn.type_name(p["t"])
                if isinstance(self.val(a), Lazy):
                    if tv and tv in tmap:
                        a = self.coerce(a, tmap[tv])
                    elif n in ("ExpansionNum",):
                        a = self.coerce(a, "Exp")
                    elif n in ("IntervalNumber",):
                        a = self.coerce(a, "IV")
            vals.append(a)
        fr = Frame(fn.rel, name, tmap, cmap, q)
        for k, v in cmap.items():
            env.d[k] = Cell(v)
        if len(vals) != len(params):
            raise Undecided(f"arity of {name}")
        for p, a in zip(params, vals):
            if p.get("self"):
                env.d["self"] = Cell(a)
            else:
                if not (p["t"]["k"] == "Ref" and p["t"]["mut"]):
                    a = self.copy(self.val(a))
                self.bind(p["p"], a, env, fr)
        try:
            r = self.ev(node["body"], env, fr)
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
        return r

    def copy(self, v):
        if isinstance(v, Arr):
            return Arr(list(v.a))
        return v

    def call(self, f, args, targs=None):
        f = self.val(f)
        if isinstance(f, Clo):
            env = Env(f.env)
            for p, a in zip(f.node["ps"], args):
                self.bind(p, a, env, f.fr)
            try:
                return self.ev(f.node["b"], env, f.fr)
            except ReturnEx as e:
                return e.v
        if isinstance(f, Fn):
            return self.call_fn(f, args, targs)
        if callable(f):
            return f(*args)
        raise Undecided("call of " + type(f).__name__)

    # ---- patterns -------------------------------------------------------------------------
    def bind(self, p, v, env, fr):
        """irrefutable binding"""
        if not self.match(p, v, env, fr):
            raise Undecided("refutable pattern")

    def match(self, p, v, env, fr):
        k = p["k"]
        if k == "Ident":
            if p["id"][:1].isupper() or (p["id"] in ("None",)):
                w = self.val(v)
                if isinstance(w, (En, Sgn)):
                    w = self.force(w)
                    if w.v == p["id"]:
                        return True
                    if p["id"] in ("None", "Some"):
                        return False
                c = self.constant(fr, p["id"])
                if c is not None:
                    return self.truth(self.compare("==", w, c))
            if p.get("sub"):
                if not self.match(p["sub"], v, env, fr):
                    return False
            env.d[p["id"]] = Cell(v.v if isinstance(v, Cell) else v)
            return True
        if k in ("Wild", "Rest"):
            return True
        if k == "Type":
            return self.match(p["p"], v, env, fr)
        if k == "Ref":
            return self.match(p["p"], self.val(v), env, fr)
        if k == "Tuple":
            w = self.val(v)
            if not isinstance(w, tuple):
                raise Undecided("tuple pattern on " + type(w).__name__)
            return self.matchseq(p["es"], list(w), env, fr)
        if k == "Slice":
            w = self.val(v)
            if not isinstance(w, (Arr, View)):
                raise Undecided("slice pattern")
            return self.matchseq(p["es"], list(w.a), env, fr)
        if k == "TupleStruct":
            w = self.force(v)
            n = p["path"][-1]["id"]
            if isinstance(w, En):
                if w.v != n:
                    return False
                return self.matchseq(p["es"], w.p, env, fr)
            if isinstance(w, St):
                return self.matchseq(p["es"], [w.f[str(i)] for i in range(len(w.f))], env, fr)
            raise Undecided("pattern " + n + " on " + type(w).__name__)
        if k == "Struct":
            w = self.val(v)
            if isinstance(w, St):
                return all(self.match(q, w.f[n], env, fr) for n, q in p["fs"])
            raise Undecided("struct pattern")
        if k == "Path":
            w = self.force(v)
            if isinstance(w, En):
                return w.v == p["path"][-1]["id"]
            c = self.path_const(p["path"], fr)
            return self.truth(self.compare("==", w, c))
        if k == "Lit":
            w = self.val(v)
            return self.truth(self.compare("==", w, self.ev(p["e"], env, fr)))
        if k == "Or":
            return any(self.match(q, v, env, fr) for q in p["es"])
        raise Undecided("pattern " + k)

    def matchseq(self, ps, vs, env, fr):
        r = [i for i, p in enumerate(ps) if p["k"] == "Rest"]
        if r:
            i = r[0]
            tail = len(ps) - i - 1
            vs = vs[:i] + [None] + vs[len(vs) - tail:]
        if len(ps) != len(vs):
            return False
        return all(self.match(p, v, env, fr) for p, v in zip(ps, vs))

    # ---- constants ------------------------------------------------------------------------
    def constant(self, fr, name, ty=None):
        key = (ty or fr.rel, name)
        if key not in self.ix.consts:
            if ty is None:
                c = [k for k in self.ix.consts if k[1] == name and k[0].endswith(".rs")]
                if len(c) != 1:
                    return None
                key = c[0]
            else:
                return None
        if key not in self.constcache:
            log, self.log = self.log, None
            rel = key[0] if key[0].endswith(".rs") else fr.rel
            self.constcache[key] = self.ev(self.ix.consts[key]["e"], Env(), Frame(rel, name))
            self.log = log
        return self.constcache[key]

    def path_const(self, path, fr):
        ids = [s["id"] for s in path]
        if len(ids) >= 2 and ids[-2] == "Orientation":
            return En("Orientation", ids[-1])
        if ids[-2:] == ["f64", "NAN"]:
            raise Undecided("NaN")
        if len(ids) >= 2:
            q = fr.selfty if ids[-2] == "Self" else ids[-2]
            c = self.constant(fr, ids[-1], q)
            if c is not None:
                return c
        c = self.constant(fr, ids[-1])
        if c is not None:
            return c
        if ids[-1] == "None":
            return NONE()
        if ids[-1] == "Global":
            return Opaque("alloc")
        if len(ids) >= 2 and ids[-1][:1].isupper():
            return En(ids[-2], ids[-1])
        return None

    # ---- places ---------------------------------------------------------------------------
    def place(self, n, env, fr):
        k = n["k"]
        if k == "Path" and len(n["path"]) == 1:
            c = env.find(n["path"][0]["id"])
            if c is None:
                raise Undecided("place " + n["path"][0]["id"])
            return Ref(lambda: c.v, lambda v: self.setcell(c, v))
        if k == "Unary" and n["op"] == "*":
            v = self.ev(n["e"], env, fr)
            if isinstance(v, Cell):
                v = v.v
            if isinstance(v, Ref):
                return self.deepest(v)
            # *x where x is a plain value: assign through the variable
            return self.place(n["e"], env, fr)
        if k == "Field":
            b = self.val(self.ev(n["e"], env, fr))
            if isinstance(b, St):
                c = b.f[n["m"]]
                if isinstance(c.v, Ref):
                    return Ref(lambda: c.v, lambda v: self.setcell(c, v))
                return Ref(lambda: c.v, lambda v: self.setcell(c, v))
            if isinstance(b, tuple):
                base = self.place(n["e"], env, fr)
                i = int(n["m"])

                def st(v):
                    t = list(self.val(base))
                    t[i] = v
                    base.set(tuple(t))
                return Ref(lambda: self.val(base)[i], st)
            if isinstance(b, Exp) and n["m"] == "vec":
                return self.place(n["e"], env, fr)
            raise Undecided("field place " + n["m"])
        if k == "Index":
            b = self.val(self.ev(n["e"], env, fr))
            i = self.val(self.ev(n["i"], env, fr))
            if isinstance(b, (Arr, View)) and isinstance(i, int):
                if not 0 <= i < len(b.a):
                    raise Panic(f"index {i} out of bounds {len(b.a)}")
                return Ref(lambda: b.a[i], lambda v: self.setarr(b, i, v))
            if isinstance(b, (Arr, View)) and isinstance(i, Opaque) and i.name == "range":
                w = self.slice(b, i)
                return Ref(lambda: w, lambda v: None)
            raise Undecided("index place")
        v = self.ev(n, env, fr)
        if isinstance(v, Ref):
            return self.deepest(v)
        c = Cell(v)
        return Ref(lambda: c.v, lambda v: self.setcell(c, v))

    def deepest(self, r):
        while isinstance(r, Ref):
            v = r.get()
            if isinstance(v, Ref):
                r = v
            else:
                return r
        return r

    def slice(self, b, r):
        lo, hi, inc = r.data
        lo = 0 if lo is None else lo
        n = len(b.a)
        hi = n if hi is None else hi + (1 if inc else 0)
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise Undecided("symbolic slice")
        if not 0 <= lo <= hi <= n:
            raise Panic(f"slice {lo}..{hi} of {n}")
        return View(b, lo, hi) if isinstance(b, Arr) else View(b.base, b.lo + lo, b.lo + hi)

    # ---- evaluation -----------------------------------------------------------------------
    def ev(self, n, env, fr):
        self.steps += 1
        return getattr(self, "e_" + n["k"], self.e_unsup)(n, env, fr)

    def e_unsup(self, n, env, fr):
        raise Undecided("unsupported expression " + n["k"])

    def e_Int(self, n, env, fr):
        if n["suf"] in ("f64", "f32"):
            return F(C(int(n["v"])))
        return int(n["v"].replace("_", ""), 0)

    def e_Float(self, n, env, fr):
        return F(C(Fr(float(n["v"]))))

    def e_Bool(self, n, env, fr):
        return n["v"]

    def e_Str(self, n, env, fr):
        return n["v"]

    def e_Path(self, n, env, fr):
        p = n["path"]
        if len(p) == 1:
            c = env.find(p[0]["id"])
            if c is not None:
                return c
        c = self.path_const(p, fr) if not (len(p) == 1 and p[0]["id"][:1].islower()) else None
        if c is not None:
            return c
        f = self.resolve(p, fr, env)
        if f is not None:
            return f
        if p[-1]["id"] in ("Some", "Ok"):
            return SOME
        if p[-1]["id"] in ("None",):
            return NONE()
        raise Undecided("name " + "::".join(s["id"] for s in p))

    def e_Block(self, n, env, fr):
        env = Env(env)
        r = ()
        for s in n["ss"]:
            if s["k"] == "Item":
                it = s["item"]
                if it.get("k") == "Fn":
                    env.d[it["name"]] = Cell(Fn(it, fr.rel, None, None))
                elif it.get("k") == "Const":
                    env.d[it["name"]] = Cell(self.ev(it["e"], env, fr))
        for s in n["ss"]:
            r = ()
            if s["k"] == "Let":
                if s["e"] is None:
                    self.declare(s["p"], env)
                    continue
                v = self.ev(s["e"], env, fr)
                v = self.move(s["e"], v)
                if s["else"] is not None:
                    if not self.match(s["p"], v, env, fr):
                        self.ev(s["else"], env, fr)
                        raise Undecided("let else does not diverge")
                else:
                    if s["p"]["k"] == "Type" and isinstance(self.val(v), Lazy):
                        t = rsyn.type_name(s["p"]["t"])
                        kd = {"f64": "F", "IntervalNumber": "IV", "ExpansionNum": "Exp"}.get(t) or fr.tmap.get(t)
                        if kd:
                            v = self.coerce(v, kd)
                    self.bind(s["p"], v, env, fr)
            elif s["k"] == "Expr":
                v = self.ev(s["e"], env, fr)
                if not s["semi"]:
                    r = self.move(s["e"], v)
        return r

    def move(self, e, v):
        """value semantics: moving or copying out of a variable"""
        if isinstance(v, Cell):
            v = v.v
            if isinstance(v, Arr):
                return Arr(list(v.a))
        return v

    def declare(self, p, env):
        if p["k"] == "Type":
            return self.declare(p["p"], env)
        if p["k"] == "Ident":
            env.d[p["id"]] = Cell(None)
        elif p["k"] == "Tuple":
            for q in p["es"]:
                self.declare(q, env)

    def e_Binary(self, n, env, fr):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.val(self.ev(n["l"], env, fr))
            if isinstance(a, bool):
                if a == (op == "||"):
                    return a
                return self.val(self.ev(n["r"], env, fr))
            d = self.decide(a)
            if d is not None:
                if d == (op == "||"):
                    return d
                return self.val(self.ev(n["r"], env, fr))
            if self.pure(n["r"]):
                p0, nf = self.pos, len(self.facts)
                b = self.val(self.ev(n["r"], env, fr))
                if self.pos == p0:
                    if isinstance(b, bool):
                        return b if (b == (op == "||")) else a
                    return BoolF("and" if op == "&&" else "or", [a, b])
                # b needed a decision of its own: short circuit instead
                raise Undecided("decision inside a pure condition")
            t = self.branch(a)
            if t == (op == "||"):
                return t
            return self.val(self.ev(n["r"], env, fr))
        if op.endswith("=") and op not in ("==", "<=", ">=", "!="):
            pl = self.place(n["l"], env, fr)
            r = self.ev(n["r"], env, fr)
            pl = self.deepest(pl)
            pl.set(self.arith(op[:-1], pl.get(), r))
            return ()
        l = self.ev(n["l"], env, fr)
        l = self.val(l)
        r = self.ev(n["r"], env, fr)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, l, r)
        return self.arith(op, l, r)

    def pure(self, n):
        """arithmetic comparisons only"""
        for x in rsyn.walk(n):
            if x.get("k") in ("Call", "Macro", "If", "Match", "Block", "Closure"):
                return False
            if x.get("k") == "Method" and x["m"] not in ("abs", "max", "min"):
                return False
        return True

    def e_Unary(self, n, env, fr):
        op = n["op"]
        v = self.ev(n["e"], env, fr)
        if op == "*":
            if isinstance(v, Cell):
                v = v.v
            if isinstance(v, Ref):
                return v.get()
            return v
        v = self.val(v)
        if op == "!":
            if isinstance(v, (bool, Cond, BoolF, ApCond)):
                return bnot(v)
            raise Undecided("!")
        if op == "-":
            if isinstance(v, Mx):
                return Mx(v.c, v.k, v.r, v.args, -v.sgn)
            if isinstance(v, Ap):
                import filt
                return Ap(-v.V, filt.node("s", v.n, Fr(-1)))
            if isinstance(v, F):
                return F(-v.V, (v.tag[0], v.tag[1], not v.tag[2]) if v.tag else None, v.last)
            if isinstance(v, int):
                return -v
            if isinstance(v, Opaque) and v.name == "int":
                return v
        raise Undecided("unary " + op)

    def e_Ref(self, n, env, fr):
        if n["mut"]:
            return self.place(n["e"], env, fr)
        v = self.ev(n["e"], env, fr)
        return v.v if isinstance(v, Cell) else v

    def e_Index(self, n, env, fr):
        b = self.val(self.ev(n["e"], env, fr))
        i = self.val(self.ev(n["i"], env, fr))
        if isinstance(b, St):
            d = self.ix.meth.get((b.name, "deref"))
            if d is not None and "vec" not in b.f:
                b = self.val(self.call_fn(d, [b], None, b.name))
        if isinstance(b, St):
            for f in ("data", "vec"):
                if f in b.f:
                    b = self.val(b.f[f])
                    break
        if isinstance(b, (Arr, View)):
            if isinstance(i, int):
                if not 0 <= i < len(b.a):
                    raise Panic(f"index {i} out of bounds {len(b.a)}")
                return b.a[i]
            if isinstance(i, Opaque) and i.name == "range":
                return self.slice(b, i)
        raise Undecided(f"index of {type(b).__name__}")

    def e_Field(self, n, env, fr):
        b = self.val(self.ev(n["e"], env, fr))
        m = n["m"]
        if isinstance(b, St):
            return b.f[m]
        if isinstance(b, tuple):
            return b[int(m)]
        if isinstance(b, Exp) and m == "vec":
            return b
        raise Undecided(f"field {m} of {type(b).__name__}")

    def e_Tuple(self, n, env, fr):
        return tuple(self.move(e, self.ev(e, env, fr)) for e in n["es"])

    def e_Array(self, n, env, fr):
        return Arr([self.move(e, self.ev(e, env, fr)) for e in n["es"]])

    def e_Repeat(self, n, env, fr):
        v = self.move(n["e"], self.ev(n["e"], env, fr))
        k = self.val(self.ev(n["n"], env, fr))
        return Arr([self.copy(v) for _ in range(k)])

    def e_Cast(self, n, env, fr):
        v = self.val(self.ev(n["e"], env, fr))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        raise Undecided("cast")

    def e_Range(self, n, env, fr):
        f = lambda x: None if x is None else self.val(self.ev(x, env, fr))
        return Opaque("range", (f(n["lo"]), f(n["hi"]), n["inc"]))

    def e_Struct(self, n, env, fr):
        name = n["path"][-1]["id"]
        if name == "Self" or (len(n["path"]) > 1 and n["path"][0]["id"] == "Self"):
            name = fr.selfty or name
        f = {}
        if n.get("rest"):
            base = self.val(self.ev(n["rest"], env, fr))
            f = {k: Cell(self.copy(self.val(c))) for k, c in base.f.items()}
        for k, e in n["fs"]:
            v = self.move(e, self.ev(e, env, fr))
            f[k] = Cell(v)
        if name == "ExpansionNum" and "vec" in f:
            return self.to_exp(f["vec"])
        return St(name, f)

    def e_Closure(self, n, env, fr):
        return Clo(n, env, fr)

    def e_Return(self, n, env, fr):
        raise ReturnEx(() if n["e"] is None else self.move(n["e"], self.ev(n["e"], env, fr)))

    def e_Break(self, n, env, fr):
        raise BreakEx(n["label"], () if n["e"] is None else self.ev(n["e"], env, fr))

    def e_Continue(self, n, env, fr):
        raise ContinueEx(n["label"])

    def e_If(self, n, env, fr):
        if n["c"]["k"] == "LetCond":
            e2 = Env(env)
            v = self.ev(n["c"]["e"], env, fr)
            if self.match(n["c"]["p"], v.v if isinstance(v, Cell) else v, e2, fr):
                return self.ev(n["t"], e2, fr)
            return self.ev(n["e"], env, fr) if n["e"] else ()
        if n["c"]["k"] == "Binary" and n["c"]["op"] == "&&" and any(x.get("k") == "LetCond" for x in rsyn.walk(n["c"])):
            e2 = Env(env)
            if all(self.letcond(x, e2, fr) for x in self.conj(n["c"])):
                return self.ev(n["t"], e2, fr)
            return self.ev(n["e"], env, fr) if n["e"] else ()
        c = self.val(self.ev(n["c"], env, fr))
        if isinstance(c, Opaque) and c.name == "havoc":
            c = self.choose(2) == 0
        f_t = lambda: self.ev(n["t"], env, fr)
        f_e = lambda: self.ev(n["e"], env, fr) if n["e"] else ()
        if isinstance(c, (Cond, BoolF)) and self.decide(c) is None:
            z = self.zero_test(c)
            if z and not has_jump(n["t"]) and not has_jump(n["e"]):
                return self.merged(z[0], z[1], f_t, f_e)
        return f_t() if self.truth(c) else f_e()

    def conj(self, n):
        if n["k"] == "Binary" and n["op"] == "&&":
            return self.conj(n["l"]) + self.conj(n["r"])
        return [n]

    def letcond(self, x, env, fr):
        if x["k"] == "LetCond":
            v = self.ev(x["e"], env, fr)
            return self.match(x["p"], v.v if isinstance(v, Cell) else v, env, fr)
        return self.truth(self.ev(x, env, fr))

    def e_LetCond(self, n, env, fr):
        raise Undecided("let condition")

    def e_Match(self, n, env, fr):
        v = self.ev(n["e"], env, fr)
        v = v.v if isinstance(v, Cell) else v
        if isinstance(v, tuple):
            v = tuple(v)
        for arm in n["arms"]:
            e2 = Env(env)
            if self.match(arm["p"], v, e2, fr):
                if arm["g"] is not None and not self.truth(self.ev(arm["g"], e2, fr)):
                    continue
                return self.move(arm["b"], self.ev(arm["b"], e2, fr))
        raise Panic("no arm matches")

    def e_Loop(self, n, env, fr):
        for _ in range(5000):
            try:
                self.ev(n["b"], env, fr)
            except BreakEx as b:
                if b.label and b.label != n["label"]:
                    raise
                return b.v
            except ContinueEx as b:
                if b.label and b.label != n["label"]:
                    raise
        raise Undecided("loop without a contract")

    def e_While(self, n, env, fr):
        for _ in range(5000):
            if n["c"]["k"] == "LetCond":
                e2 = Env(env)
                v = self.ev(n["c"]["e"], env, fr)
                if not self.match(n["c"]["p"], v.v if isinstance(v, Cell) else v, e2, fr):
                    return ()
            else:
                e2 = env
                c = self.val(self.ev(n["c"], env, fr))
                if not isinstance(c, bool):
                    raise Undecided("while on a symbolic condition")
                if not c:
                    return ()
            try:
                self.ev(n["b"], e2, fr)
            except BreakEx as b:
                if b.label and b.label != n["label"]:
                    raise
                return ()
            except ContinueEx as b:
                if b.label and b.label != n["label"]:
                    raise
        raise Undecided("loop without a contract")

    def items(self, v):
        """elements an iteration over v yields"""
        mutref = isinstance(v, Ref)
        w = self.val(v)
        if isinstance(w, Opaque) and w.name == "range":
            lo, hi, inc = w.data
            if not (isinstance(lo, int) and isinstance(hi, int)):
                raise Undecided("symbolic range")
            return list(range(lo, hi + (1 if inc else 0)))
        if isinstance(w, Opaque) and w.name == "iter":
            return w.data
        if isinstance(w, (Arr, View)):
            if mutref:
                return [Ref(lambda i=i: w.a[i], lambda x, i=i: self.setarr(w, i, x)) for i in range(len(w.a))]
            return list(w.a)
        if isinstance(w, En) and w.name == "Option":
            return list(w.p)
        raise Undecided("iteration over " + type(w).__name__)

    def e_For(self, n, env, fr):
        v = self.ev(n["e"], env, fr)
        w = self.val(v)
        if isinstance(w, Opaque) and w.name == "itermut":
            v = w.data
            w = self.val(v)
        if isinstance(w, Exp):
            pl = v if isinstance(v, Ref) else v.v if isinstance(v, Cell) and isinstance(v.v, Ref) else None
            if pl is None:
                raise Undecided("iteration over an expansion")
            return self.for_exp(n, self.deepest(pl), w, env, fr)
        if isinstance(v, Cell):
            v = v.v
        for x in self.items(v):
            e2 = Env(env)
            self.bind(n["p"], x, e2, fr)
            try:
                self.ev(n["b"], e2, fr)
            except BreakEx as b:
                if b.label and b.label != n["label"]:
                    raise
                return ()
            except ContinueEx as b:
                if b.label and b.label != n["label"]:
                    raise
        return ()

    def for_exp(self, n, pl, w, env, fr):
        """for v in &mut expansion { *v = k * *v }: one generic component stands for all of them"""
        a = self.sp.new("comp", "input")
        c = Cell(F(self.sp.P(a)))
        e2 = Env(env)
        self.bind(n["p"], Ref(lambda: c.v, lambda x: self.setcell(c, x)), e2, fr)
        p0, l0 = self.pos, len(self.log) if self.log is not None else 0
        self.ev(n["b"], e2, fr)
        if self.pos != p0:
            raise Undecided("branching in a component loop")
        k = {}
        for m, q in self.asF(c).V.t.items():
            if m.count(a.id) != 1:
                raise Undecided("component loop is not linear")
            mm = list(m)
            mm.remove(a.id)
            k[tuple(mm)] = q
        k = Poly(k)
        if len(k.t) != 1:
            raise Undecided("component loop is not a scaling")
        pl.set(Exp(w.V * k, w.ne, w.ok))
        return ()

    def e_Assign(self, n, env, fr):
        r = self.move(n["r"], self.ev(n["r"], env, fr))
        self.assign(n["l"], r, env, fr)
        return ()

    def assign(self, l, r, env, fr):
        if l["k"] == "Tuple":
            r = self.val(r)
            for x, y in zip(l["es"], r):
                self.assign(x, y, env, fr)
            return
        if l["k"] == "Path" and l["path"][-1]["id"] == "_":
            return
        if l["k"] == "Macro" or l["k"] == "Unsupported" and l.get("s") == "_":
            return
        self.place(l, env, fr).set(r)

    def e_Macro(self, n, env, fr):
        nm = n["name"]
        if nm == "vec":
            if n["rep"]:
                v = self.move(n["rep"][0], self.ev(n["rep"][0], env, fr))
                k = self.val(self.ev(n["rep"][1], env, fr))
                if not isinstance(k, int):
                    raise Undecided("vec! of symbolic length")
                return Arr([self.copy(v) for _ in range(k)])
            return Arr([self.move(e, self.ev(e, env, fr)) for e in (n["args"] or [])])
        if nm in ("panic", "unreachable", "todo", "unimplemented"):
            raise Panic(nm)
        if nm in ("assert", "debug_assert"):
            if not self.truth(self.ev(n["args"][0], env, fr)):
                raise Panic("assertion")
            return ()
        if nm in ("println", "eprintln", "print", "dbg", "format"):
            return ()
        raise Undecided("macro " + nm)

    def targs(self, seg, fr):
        out = []
        for a in seg.get("args") or []:
            if "t" in a:
                t = rsyn.type_name(a["t"])
                if t == "_" or t is None:
                    # a bare identifier may be a const generic parameter
                    out.append(None)
                elif t in fr.cmap:
                    out.append(fr.cmap[t])
                else:
                    out.append({"IntervalNumber": "IV", "ExpansionNum": "Exp", "f64": "F"}.get(t, fr.tmap.get(t)))
            elif "c" in a:
                out.append(self.val(self.ev(a["c"], Env(), fr)))
            else:
                out.append(None)
        return out

    def e_Call(self, n, env, fr):
        f = n["f"]
        if f["k"] == "Path":
            path = f["path"]
            name = path[-1]["id"]
            ids = [s["id"] for s in path]
            b = self.builtin_call(ids, n, env, fr)
            if b is not NotImplemented:
                return b
            fn = self.resolve(path, fr, env)
            if fn is None:
                if name in ("Some", "Ok"):
                    return SOME(self.move(n["args"][0], self.ev(n["args"][0], env, fr)))
                if len(ids) >= 2 and name[:1].isupper():
                    return En(ids[-2], name, [self.move(a, self.ev(a, env, fr)) for a in n["args"]])
                raise Undecided("function " + "::".join(ids))
            args = [self.argval(a, env, fr) for a in n["args"]]
            return self.call(fn, args, self.targs(path[-1], fr))
        fv = self.ev(f, env, fr)
        return self.call(fv, [self.argval(a, env, fr) for a in n["args"]])

    def argval(self, a, env, fr):
        v = self.ev(a, env, fr)
        return v.v if isinstance(v, Cell) else v

    def builtin_call(self, ids, n, env, fr):
        name = ids[-1]
        q = ids[-2] if len(ids) > 1 else None
        A = lambda i: self.argval(n["args"][i], env, fr)
        if name == "from_elem_in":
            v, k = self.val(A(0)), self.val(A(1))
            if not isinstance(k, int):
                raise Undecided("symbolic length")
            return Arr([v] * k)
        if q == "Vec" and name in ("new", "new_in", "with_capacity", "with_capacity_in"):
            return Arr([])
        if q == "RefCell" and name == "new":
            return St("RefCell", {"v": Cell(A(0))})
        if q == "Ref" and name == "leak":
            return A(0)
        if q == "IntervalNumber" and name == "from":
            return IV(self.asF(A(0)).V)
        if name == "drop":
            return ()
        if q == "f64" and name in ("max", "min", "abs"):
            return self.method(name, A(0), [A(i) for i in range(1, len(n["args"]))], n, env, fr, None)
        return NotImplemented

    def e_Method(self, n, env, fr):
        m = n["m"]
        recv = n["recv"]
        rv = self.ev(recv, env, fr)
        base = self.val(rv)
        # user-defined methods first
        ty = base.name if isinstance(base, St) else "ExpansionNum" if isinstance(base, Exp) else "IntervalNumber" if isinstance(base, IV) else base.name if isinstance(base, En) else None
        if isinstance(base, Opaque) and base.name.startswith("obj:"):
            ty = base.name[4:]
        key = (ty, m)
        fn = self.ix.meth.get(key)
        if key in self.contracts:
            self.used.add(f"{ty}::{m}")
            pl = self.recv_ref(recv, rv, env, fr)
            return self.contracts[key](self, [pl] + [self.argval(a, env, fr) for a in n["args"]], [])
        if fn is None and ty and m in self.ix.traitdef and ty in ("ImplicitPointLPI", "ImplicitPointTPI"):
            fn = self.ix.traitdef[m]
        if fn is not None and ty not in ("Option",):
            p0 = fn.node["params"][0]
            selfv = self.recv_ref(recv, rv, env, fr) if p0.get("mut") or p0.get("ref") else base
            args = [selfv] + [self.argval(a, env, fr) for a in n["args"]]
            return self.call_fn(fn, args, [self.val(self.ev(t["c"], Env(), fr)) if "c" in t else None for t in (n["tf"] or [])], ty)
        args = [self.argval(a, env, fr) for a in n["args"]]
        return self.method(m, rv, args, n, env, fr, recv)

    def recv_ref(self, recv, rv, env, fr):
        if isinstance(rv, Ref):
            return self.deepest(rv)
        if isinstance(rv, Cell):
            if isinstance(rv.v, Ref):
                return self.deepest(rv.v)
            return Ref(lambda: rv.v, lambda v: self.setcell(rv, v))
        try:
            return self.place(recv, env, fr)
        except Undecided:
            return rv

    def it(self, xs):
        return Opaque("iter", list(xs))

    def method(self, m, rv, args, n, env, fr, recv):
        v = self.val(rv)
        sp = self.sp
        # numbers
        if isinstance(v, (Ap, Mx)):
            if m == "total_cmp":
                return Opaque("cmp", (v, self.val(args[0])))
            if m == "abs" and isinstance(v, Ap):
                r = Mx(ONE, 1, 0, {v.n})
                r.src = v
                return r
            if m == "abs":
                return Mx(v.c, v.k, v.r, v.args)
            if m == "max" and isinstance(v, Mx):
                o = self.val(args[0])
                if isinstance(o, Mx) and (o.c, o.k, o.r, o.sgn) == (v.c, v.k, v.r, v.sgn) == (ONE, 1, 0, 1):
                    return Mx(ONE, 1, 0, v.args | o.args)
            if m == "into":
                return Lazy(v)
            if m == "clone":
                return v
            raise Undecided("filter method " + m)
        if isinstance(v, F):
            if m == "total_cmp":
                return Opaque("cmp", (v, self.val(args[0])))
            if m == "abs":
                if v.last:
                    return AbsLast(v.V)
                c = v.V.const()
                if c is not None:
                    return F(C(abs(c)))
                nn = sp.nnpoly(v.V, self.signs())
                if nn is not None:
                    return F(nn)
                if len(v.V.t) == 1:
                    (mo, c), = v.V.t.items()
                    q = C(abs(c))
                    for x in mo:
                        q = q * sp.absatom(x)
                    return F(q)
                raise Undecided("abs")
            if m == "max":
                return F(sp.max_([v.V, self.asF(args[0]).V]))
            if m == "min":
                return F(-sp.max_([-v.V, -self.asF(args[0]).V]))
            if m == "into":
                return Lazy(v)
            if m == "clone":
                return v
            if m == "powi" and isinstance(self.val(args[0]), int):
                c = v.V.const()
                if c is not None:
                    return F(C(Fr(float(c) ** self.val(args[0]))))
            if m == "powi" and v.V.const() == 2:
                s = sp.new("2^k%d" % len(sp.atoms), "pow2", nn=True)
                self.facts.append((">", sp.P(s), None))
                return F(sp.P(s))
            if m == "sqrt":
                raise Undecided("sqrt")
        if isinstance(v, int) and m in ("into", "clone"):
            return v
        if isinstance(v, Lazy):
            raise Undecided("method on .into()")
        if m in ("clone", "to_owned", "as_ref", "as_mut", "as_slice", "borrow", "borrow_mut", "by_ref", "copied", "cloned", "as_deref", "deref", "allocator", "to_vec", "to_vec_in"):
            if m == "allocator":
                return Opaque("alloc")
            if isinstance(v, St) and v.name == "RefCell":
                if m in ("borrow", "borrow_mut"):
                    c = v.f["v"]
                    return c.v if m == "borrow" else Ref(lambda: c.v, lambda x: self.setcell(c, x))
            if m in ("as_mut", "by_ref") and isinstance(rv, Ref):
                return rv
            if m in ("to_vec", "to_vec_in", "clone", "to_owned") and isinstance(v, (Arr, View)):
                return Arr(list(v.a))
            if m == "as_mut" and isinstance(v, En) and v.v == "Some":
                p = v.p
                return SOME(Ref(lambda: p[0], lambda x: p.__setitem__(0, x)))
            return v
        if isinstance(v, St) and v.name == "RefCell" and m == "replace":
            c = v.f["v"]
            old = c.v
            self.setcell(c, args[0])
            return old
        # options
        if isinstance(v, En) and v.name == "Option":
            some = v.v == "Some"
            if m == "unwrap" or m == "expect":
                if not some:
                    raise Panic("unwrap of None")
                return v.p[0]
            if m == "is_some":
                return some
            if m == "is_none":
                return not some
            if m == "zip":
                o = self.val(args[0])
                return SOME((v.p[0], o.p[0])) if some and o.v == "Some" else NONE()
            if m == "map":
                return SOME(self.call(args[0], [v.p[0]])) if some else NONE()
            if m == "and_then":
                return self.call(args[0], [v.p[0]]) if some else NONE()
            if m == "unwrap_or":
                return v.p[0] if some else args[0]
            if m == "unwrap_or_else":
                return v.p[0] if some else self.call(args[0], [])
        # expansions
        if isinstance(v, Exp):
            if m == "last":
                return SOME(F(v.V, None, True))
            if m == "into":
                return v
            if m == "is_empty" and v.ne == C(1):
                return False
            if m in ("iter_mut",):
                return Opaque("itermut", rv)
            raise Undecided("method " + m + " of an expansion")
        if isinstance(v, (Arr, View)) or (isinstance(v, Opaque) and v.name in ("iter", "range")):
            return self.seq_method(m, rv, v, args, env, fr)
        if isinstance(v, IV) and m in ("into",):
            return v
        raise Undecided(f"method {m} of {type(v).__name__}")

    def seq_method(self, m, rv, v, args, env, fr):
        isarr = isinstance(v, (Arr, View))
        if isarr and any(isinstance(x, Whole) for x in v.a):
            raise Undecided("components of a conditionally filled expansion")
        if isarr:
            if m in ("len",):
                return len(v.a)
            if m == "is_empty":
                return not v.a
            if m in ("iter", "into_iter"):
                return self.it(v.a)
            if m == "iter_mut":
                return self.it([Ref(lambda i=i: v.a[i], lambda x, i=i: self.setarr(v, i, x)) for i in range(len(v.a))])
            if m == "into":
                return Lazy(v)
            if m == "push":
                self.setlist(v, v.a + [args[0]])
                return ()
            if m == "pop":
                if not v.a:
                    return NONE()
                x = v.a[-1]
                self.setlist(v, v.a[:-1])
                return SOME(x)
            if m == "clear":
                self.setlist(v, [])
                return ()
            if m == "extend":
                self.setlist(v, v.a + self.items(args[0]))
                return ()
            if m == "resize":
                k = self.val(args[0])
                self.setlist(v, v.a[:k] + [args[1]] * (k - len(v.a)))
                return ()
            if m == "first":
                return SOME(v.a[0]) if v.a else NONE()
            if m == "last":
                e = None
                if not v.a:
                    return NONE()
                return SOME(v.a[-1])
            if m == "split_first":
                return SOME((v.a[0], Arr(list(v.a[1:])))) if v.a else NONE()
            if m == "swap":
                l = list(v.a)
                i, j = self.val(args[0]), self.val(args[1])
                l[i], l[j] = l[j], l[i]
                for k in (i, j):
                    self.setarr(v, k, l[k])
                return ()
            if m == "reverse":
                l = list(v.a)[::-1]
                for i, x in enumerate(l):
                    self.setarr(v, i, x)
                return ()
            if m == "contains":
                return any(self.truth(self.compare("==", x, args[0])) for x in v.a)
            if m == "get":
                i = self.val(args[0])
                return SOME(v.a[i]) if 0 <= i < len(v.a) else NONE()
            if m in ("map",):
                return Arr([self.call(args[0], [x]) for x in v.a])
        xs = self.items(v)
        if m in ("into_iter", "iter", "flatten", "copied", "cloned", "by_ref", "fuse", "peekable"):
            if m == "flatten":
                return self.it([y for x in xs for y in self.items(x)])
            return self.it(xs)
        if m == "map":
            return self.it([self.call(args[0], [x]) for x in xs])
        if m == "filter":
            return self.it([x for x in xs if self.truth(self.call(args[0], [x]))])
        if m in ("filter_map", "flat_map"):
            return self.it([y for x in xs for y in self.items(self.call(args[0], [x]))])
        if m == "enumerate":
            return self.it(list(enumerate(xs)))
        if m == "rev":
            return self.it(xs[::-1])
        if m == "skip":
            return self.it(xs[self.val(args[0]):])
        if m == "take":
            return self.it(xs[:self.val(args[0])])
        if m == "step_by":
            return self.it(xs[::self.val(args[0])])
        if m == "zip":
            return self.it(list(zip(xs, self.items(args[0]))))
        if m == "chain":
            return self.it(xs + self.items(args[0]))
        if m in ("collect", "to_vec"):
            return Arr(xs)
        if m == "for_each":
            for x in xs:
                self.call(args[0], [x])
            return ()
        if m == "fold":
            acc = args[0]
            for x in xs:
                acc = self.call(args[1], [acc, x])
            return acc
        if m == "reduce":
            if not xs:
                return NONE()
            acc = xs[0]
            for x in xs[1:]:
                acc = self.call(args[0], [acc, x])
            return SOME(acc)
        if m == "any":
            return any(self.truth(self.call(args[0], [x])) for x in xs)
        if m == "all":
            return all(self.truth(self.call(args[0], [x])) for x in xs)
        if m == "position":
            for i, x in enumerate(xs):
                if self.truth(self.call(args[0], [x])):
                    return SOME(i)
            return NONE()
        if m == "find":
            for x in xs:
                if self.truth(self.call(args[0], [x])):
                    return SOME(x)
            return NONE()
        if m == "next":
            if not xs:
                return NONE()
            v.data = xs[1:]
            return SOME(xs[0])
        if m == "last":
            return SOME(xs[-1]) if xs else NONE()
        if m in ("count", "len"):
            return len(xs)
        if m == "sum":
            acc = F(C(0))
            for x in xs:
                acc = self.arith("+", acc, x)
            return acc
        if m in ("max_by", "min_by"):
            # which element wins is left open: every choice is a path
            if not xs:
                return NONE()
            if len(xs) == 1:
                return SOME(xs[0])
            i = self.choose(len(xs))
            last = lambda x: next((y for y in map(self.val, x) if isinstance(y, AbsLast)), None) if isinstance(x, tuple) else self.val(x) if isinstance(self.val(x), AbsLast) else None
            ls = [last(x) for x in xs]
            if m == "max_by" and None not in ls:
                # the largest magnitude vanishes only if all do
                k = self.val(self.call(args[0], [xs[0], xs[1]]))
                if not (isinstance(k, Opaque) and k.name == "cmp"):
                    raise Undecided("ordering of max_by")
                if k.data[0] is ls[0] and k.data[1] is ls[1]:
                    if self.choose(2) == 0:
                        self.assume(Cond("!=", ls[i].V))
                    else:
                        for l in ls:
                            self.assume(Cond("==", l.V))
            return SOME(xs[i])
        raise Undecided("iterator method " + m)
