"""Forward error bounds of floating-point filters: everything is relative to M^deg, where M is the
maximum the code itself computes."""
import itertools
from fractions import Fraction as Fr
from sym import U, Undecided

ONE = Fr(1)
RU = U / (1 + U)          # |fl(q) - q| <= RU |q|


def pow2(c):
    n, d = c.numerator, c.denominator
    return n > 0 and (n & (n - 1)) == 0 and (d & (d - 1)) == 0


class Node:
    """op: in (an exact input), imp (part of an implicit point: deg, magnitude, error), + - *, s (scaling by +-2^k)"""
    __slots__ = ("op", "a", "b", "name", "__weakref__")

    def __init__(self, op, a=None, b=None, name=None):
        self.op, self.a, self.b, self.name = op, a, b, name


_memo = {}


def node(op, a, b):
    """hash-consed, so that equal computations are equal"""
    k = (op, a, b)
    if k not in _memo:
        _memo[k] = Node(op, a, b)
    return _memo[k]


_leaf = {}


def leaf(name):
    if name not in _leaf:
        _leaf[name] = Node("in", name=name)
    return _leaf[name]


def imp(point, comp, deg, mag, err):
    k = (point, comp, deg, mag, err)
    if k not in _leaf:
        _leaf[k] = Node("imp", (deg, mag, err), point, f"{point}.{comp}")
    return _leaf[k]


class TooBig(Exception):
    pass


class Unbounded(Exception):
    pass


class Bounds:
    """(deg, m, e): |float| <= m M^deg and |float - exact| <= e M^deg, M >= |args|"""

    def __init__(self, args):
        self.args = args
        self.memo = {}
        self.vmemo = {}
        self.hmemo = {}

    def get(self, n):
        if n not in self.memo:
            self.memo[n] = self.calc(n)
        return self.memo[n]

    def calc(self, n):
        if n.op == "in":
            if n in self.args:
                return 1, ONE, Fr(0)
            raise Unbounded(f"{n.name} is not among the values whose maximum is taken")
        if n.op == "imp":
            if n.b in self.args:
                return n.a
            raise Unbounded(f"the maximum of point {n.b} is not taken")
        if n.op == "s":
            d, m, e = self.get(n.a)
            return d, m * abs(n.b), e * abs(n.b)
        if n in self.args:
            if n.op in "+-" and n.a.op == "in" and n.b.op == "in":
                return 1, ONE, U
            d, m, e = self.calc2(n)
            return (d, min(m, ONE), e) if d == 1 else (d, m, e)
        return self.calc2(n)

    def calc2(self, n):
        d1, m1, e1 = self.get(n.a)
        d2, m2, e2 = self.get(n.b)
        if n.op == "*":
            q = m1 * m2
            return d1 + d2, q * (1 + RU), m1 * e2 + m2 * e1 + e1 * e2 + q * RU
        if d1 != d2:
            raise Undecided("sum of terms of different degree")
        e = e1 + e2
        q = min(m1 + m2, self.exactmag(n) + e)
        return d1, q * (1 + RU), e + q * RU

    def exact1(self, n):
        """bound of the exact value"""
        d, m, e = self.get(n)
        return m + e

    def height(self, n):
        if n not in self.hmemo:
            self.hmemo[n] = 0 if n.op in ("in", "imp") or n in self.args else self.height(n.a) if n.op == "s" else 1 + max(self.height(n.a), self.height(n.b))
        return self.hmemo[n]

    def expand(self, n, h):
        """n as a sum of monomials over nodes of height at most h: {tuple of nodes: coefficient}"""
        if self.height(n) <= h:
            return {(n,): 1}
        if n.op == "s":
            return {m: c * n.b for m, c in self.expand(n.a, h).items()}
        A, B = self.expand(n.a, h), self.expand(n.b, h)
        if len(A) > 40 or len(B) > 40:
            raise TooBig()
        r = {}
        if n.op == "*":
            for m1, c1 in A.items():
                for m2, c2 in B.items():
                    m = tuple(sorted(m1 + m2, key=id))
                    r[m] = r.get(m, 0) + c1 * c2
        else:
            for m, c in A.items():
                r[m] = r.get(m, 0) + c
            for m, c in B.items():
                r[m] = r.get(m, 0) + (c if n.op == "+" else -c)
        return {m: c for m, c in r.items() if c}

    def exactmag(self, n):
        """bound of the exact value of a sum: a multilinear function takes its maximum at a vertex"""
        if n in self.vmemo:
            return self.vmemo[n]
        best = self.exact1(n.a) + self.exact1(n.b)
        for h in range(self.height(n) - 2, -1, -1):
            try:
                ex = self.expand(n, h)
            except TooBig:
                break
            vs = sorted({x for m in ex for x in m}, key=id)
            if len(ex) > 40:
                break
            if len(vs) > 10 or any(len(set(m)) != len(m) for m in ex):
                continue
            b = [self.exact1(x) for x in vs]
            ix = {x: i for i, x in enumerate(vs)}
            ms = []
            for m, c in ex.items():
                w = Fr(c)
                for x in m:
                    w *= b[ix[x]]
                ms.append((w, [ix[x] for x in m]))
            top = Fr(0)
            den = 1
            ws = [w for w, _ in ms]
            from math import lcm
            for w in ws:
                den = lcm(den, w.denominator)
            ints = [int(w * den) for w in ws]
            for bits in range(2 ** len(vs)):
                s = 0
                for w, idx in zip(ints, ms):
                    p = 0
                    for i in idx[1]:
                        p ^= bits >> i & 1
                    s += -w if p else w
                top = max(top, Fr(abs(s), den))
            best = min(best, top)
        self.vmemo[n] = best
        return best


def covers(mx, a):
    """(ratio, text): error of a / guaranteed size of the bound mx, both relative to M^deg"""
    try:
        d, m, e = Bounds(mx.args).get(a.n)
    except Unbounded as x:
        return None, str(x)
    if d != mx.k:
        return None, f"the compared value has degree {d}, the bound degree {mx.k}"
    low = mx.c * (1 - U) ** mx.r
    return e / low, f"error bound {float(e):.10g} against {float(mx.c):.10g} (degree {d})"
