"""Contracts of the floating-point building blocks and the obligations of the predicates."""
from fractions import Fraction as Fr
import sys, time
from sym import *
from interp import *

TOP = 2 * U * (1 + Fr(1, 2 ** 40))   # distance of the top component of two_two_* from the value, relative to |a1| + |b1|
PRED = "src/predicates/predicates.rs"
NUMFILES = [PRED]


class Num:
    """one symbolic execution context"""

    def __init__(self, files=NUMFILES, extra=None):
        self.ix = FnIndex(files)
        self.sp = Space()
        self.groups = 0
        c = dict(BASE)
        c.update(extra or {})
        self.it = Interp(self.ix, self.sp, c)
        self.it.num = self

    def vec(self, name, n):
        return Arr([F(self.sp.input(f"{name}[{i}]")) for i in range(n)])


def grp(it, Vs):
    """components of a valid expansion, smallest first"""
    it.num.groups += 1
    g = it.num.groups
    return [F(it.mayzero(v), (g, i, False)) for i, v in enumerate(Vs)]


def c_two_product(it, a, t):
    x, y = it.asF(a[0]).V, it.asF(a[1]).V
    V = it.mayzero(x * y)
    r = it.rnd(V).V
    lo, hi = grp(it, [V - r, r])
    return (hi, lo)


def c_square(it, a, t):
    return c_two_product(it, [a[0], a[0]], t)


def c_sum2(sign):
    def f(it, a, t):
        x, y = it.asF(a[0]).V, it.asF(a[1]).V
        V = it.mayzero(it.lin(x + y.scale(sign)))
        r = it.rnd(V).V
        lo, hi = grp(it, [it.lin(V - r), r])
        return (hi, lo)
    return f


def c_diff_tail(it, a, t):
    x, y, d = [it.asF(v).V for v in a]
    want = it.rnd(it.mayzero(it.lin(x - y))).V
    if it.sp.norm(want) != it.sp.norm(d):
        raise Pre("two_diff_tail: the third argument is not the rounded difference of the first two")
    return F(it.sp.norm(x - y - d))


def parts(it, V, n, name, err=None):
    """n components of a non-overlapping expansion of V: opaque values whose sum is V; err bounds
    the distance of the largest one from V"""
    sp = it.sp
    ps = [sp.P(sp.new(f"{name}{i}", "part")) for i in range(n - 2)]
    if err is None:
        top = sp.new(name + "t", "part")
    else:
        top = sp.new(name + "t", "top", q=V)
        top.err = err
    rest = V - sp.P(top)
    for p in ps:
        rest = rest - p
    return grp(it, ps + [rest, sp.P(top)])


def c_two_two(sign, na, nb):
    def f(it, a, t):
        xs = [it.asF(v) for v in a]
        A = ZERO
        for v in xs[:na]:
            A = A + v.V
        for v in xs[na:]:
            A = A + v.V.scale(sign)
        for g in (xs[:na], xs[na:]):
            if len(g) == 2 and not pairok(g):
                raise Undecided("arguments are not the two components of a product, sum or difference")
        A = it.sp.norm(A)
        if A.iszero():
            return tuple(F(ZERO) for _ in range(na + nb))
        mag = ZERO
        for v in (xs[0], xs[na]):
            mag = mag + it.sp.xpoly(it.sp.norm(v.V))
        return tuple(reversed(parts(it, A, na + nb, "p%d_" % len(it.sp.atoms), mag.scale(TOP))))
    return f


def pairok(g):
    hi, lo = g
    if lo.V.iszero() or hi.V.iszero():
        return True
    return hi.tag is not None and lo.tag is not None and hi.tag[0] == lo.tag[0] and hi.tag[2] == lo.tag[2] and lo.tag[1] < hi.tag[1]


def c_two_one_product(it, a, t):
    xs = [it.asF(v) for v in a]
    if not pairok(xs[:2]):
        raise Undecided("arguments are not the two components of a product, sum or difference")
    return tuple(reversed(parts(it, (xs[0].V + xs[1].V) * xs[2].V, 4, "p%d_" % len(it.sp.atoms))))


def chk(it, e, what, ne=True):
    e = it.to_exp(e)
    if not e.ok:
        raise Undecided(what + ": operand is not known to be a non-overlapping expansion")
    if ne and nonempty(it, e.ne) != C(1):
        raise Undecided(what + ": operand may be empty")
    return e


def nonempty(it, ne):
    """indicators of sets with an atom known to be nonzero are 1"""
    nz = {m[0] for rel, P, _ in it.facts if rel in ("!=", ">", "<") and len(P.t) == 1 for m in P.t if len(m) == 1}
    sub = {x: C(1) for m in ne.t for x in m if it.sp.atoms[x].kind == "ind" and it.sp.atoms[x].ind & nz}
    return it.sp.substitute(ne, sub)


def c_fes(sign):
    def f(it, a, t):
        x, y = chk(it, a[0], "expansion sum", False), chk(it, a[1], "expansion sum", False)
        if nonempty(it, x.ne) != C(1) and nonempty(it, y.ne) != C(1):
            raise Undecided("expansion sum: both operands may be empty")
        return Exp(x.V + y.V.scale(sign))
    return f


def c_scale(it, a, t):
    return Exp(chk(it, a[0], "scale_expansion").V * it.asF(a[1]).V)


def c_mul(it, a, t):
    return Exp(chk(it, a[0], "mul_expansion").V * chk(it, a[1], "mul_expansion").V)


def c_invert(it, a, t):
    r = it.deepest(a[0]) if isinstance(a[0], Ref) else a[0]
    v = it.val(r)
    if isinstance(v, Exp):
        r.set(Exp(-v.V, v.ne, v.ok))
    else:
        for i, x in enumerate(v.a):
            it.setarr(v, i, F(-x.V, (x.tag[0], x.tag[1], not x.tag[2]) if x.tag else None))
    return ()


def c_estimate(it, a, t):
    V = it.sp.norm(chk(it, a[0], "estimate", False).V)
    sp = it.sp
    k = ("est", V.key())
    if k not in sp.rkey:
        sp.rkey[k] = sp.new("est%d" % len(sp.atoms), "est", q=V).id
    return F(sp.P(sp.atoms[sp.rkey[k]]))


BASE = {
    "two_product": c_two_product, "square": c_square, "two_sum": c_sum2(1), "two_diff": c_sum2(-1),
    "two_diff_tail": c_diff_tail, "two_two_sum": c_two_two(1, 2, 2), "two_two_diff": c_two_two(-1, 2, 2),
    "two_one_sum": c_two_two(1, 2, 1), "two_one_diff": c_two_two(-1, 2, 1), "two_one_product": c_two_one_product,
    "fast_expansion_sum_zeroelim": c_fes(1), "fast_expansion_diff_zeroelim": c_fes(-1),
    "scale_expansion_zeroelim": c_scale, "mul_expansion_zeroelim": c_mul, "expansion_invert": c_invert,
    "estimate": c_estimate,
}


def det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    s = ZERO
    for i in range(n):
        if rows[i][0].iszero():
            continue
        m = [r[1:] for j, r in enumerate(rows) if j != i]
        s = s + (rows[i][0] * det(m)).scale(-1 if i % 2 else 1)
    return s


