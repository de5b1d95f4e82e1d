"""Exact algebra for the floating-point obligations.

Every f64 in the analysed code is represented by its exact real value: a polynomial over atoms with
rational coefficients. An operation that rounds introduces an atom r for its result together with
the exact value Q it is the rounding of (r = fl(Q), keyed by Q, because rounding is a function of
the exact value). The only facts used about rounding are, for round-to-nearest without overflow or
underflow:
    |fl(Q) - Q| <= u |fl(Q)|,   |fl(Q) - Q| <= u |Q|,   u = 2^-53,
    fl is odd and monotone, fl(2^k Q) = 2^k fl(Q).
Error bounds are polynomials with non-negative coefficients over non-negative atoms.
"""
from fractions import Fraction as Fr

U = Fr(1, 2 ** 53)
ONE = Fr(1)
EST = U * (1 + Fr(1, 2 ** 40))   # |estimate(e) - e| <= EST |estimate(e)| for a non-overlapping e


class Undecided(Exception):
    """the obligation could not be decided by this back end (never a violation by itself)"""


class Pre(Exception):
    """a callee's precondition does not hold at a call"""


class Atom:
    __slots__ = ("id", "name", "kind", "q", "base", "args", "ind", "nn", "err", "facts")

    def __init__(self, id, name, kind, **kw):
        self.id, self.name, self.kind = id, name, kind
        self.q = kw.get("q")
        self.base = kw.get("base")
        self.args = kw.get("args")
        self.ind = kw.get("ind")
        self.nn = kw.get("nn", False)
        self.err = None


class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            elif m in r:
                del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                elif m in r:
                    del r[m]
        return Poly(r)

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def key(self):
        return frozenset(self.t.items())

    def iszero(self):
        return not self.t

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.t), default=0)


ZERO = Poly({})


def C(x):
    x = Fr(x)
    return Poly({(): x}) if x else ZERO


def pow2part(q):
    """largest power of two p with q/p odd/odd"""
    n, d = abs(q.numerator), q.denominator
    k = 0
    while n % 2 == 0:
        n //= 2
        k += 1
    while d % 2 == 0:
        d //= 2
        k -= 1
    return Fr(2) ** k


class Space:
    """atoms and the facts of one symbolic execution path (facts are per path; atoms are shared)"""

    def __init__(self):
        self.atoms = []
        self.rkey = {}
        self.abskey = {}
        self.maxkey = {}
        self.named = {}
        self.subst = {}      # input atom -> Poly (after rounding of input differences)
        self.indof = {}      # indicator atom -> set of atoms it absorbs

    def new(self, name, kind, **kw):
        a = Atom(len(self.atoms), name, kind, **kw)
        self.atoms.append(a)
        return a

    def P(self, a):
        return Poly({(a.id,): ONE})

    def input(self, name, nn=False):
        if name not in self.named:
            self.named[name] = self.new(name, "input", nn=nn)
        return self.P(self.named[name])

    # ---- non-negativity -------------------------------------------------------------------
    def absatom(self, aid):
        """canonical non-negative polynomial for |atom|"""
        a = self.atoms[aid]
        if a.nn:
            return Poly({(aid,): ONE})
        if aid in self.abskey:
            return self.abskey[aid]
        if a.kind == "round":
            m = a.q.t
            if len(m) == 1:
                (mono, c), = m.items()
                q = C(abs(c))
                for x in mono:
                    q = q * self.absatom(x)
                r = self.round(q)
                self.abskey[aid] = r
                return r
        r = self.P(self.new(f"|{a.name}|", "abs", base=aid, nn=True))
        self.abskey[aid] = r
        return r

    def nnpoly(self, p, signs=None):
        """p as a polynomial with non-negative coefficients over non-negative atoms, or None.
        signs: atom id -> +1/-1 known on the path"""
        out = ZERO
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            q = C(abs(c))
            i = 0
            cnt = {}
            for x in m:
                cnt[x] = cnt.get(x, 0) + 1
            for x, k in cnt.items():
                a = self.atoms[x]
                if a.nn:
                    pass
                elif k % 2 == 0:
                    pass
                elif signs and x in signs:
                    s *= signs[x]
                else:
                    return None
                ax = self.absatom(x)
                for _ in range(k):
                    q = q * ax
            if s < 0:
                return None
            out = out + q
        return out

    # ---- rounding -------------------------------------------------------------------------
    def round(self, q, signs=None):
        """the float fl(q) as a polynomial (one atom, possibly scaled by a power of two)"""
        if q.iszero():
            return ZERO
        c = q.const()
        if c is not None:
            return C(Fr(float(c)))
        if len(q.t) == 1:
            (m, k), = q.t.items()
            if len(m) == 1 and pow2part(k) == abs(k) and self.isfloat(m[0]):
                return q
            if len([x for x in m if not self.atoms[x].kind == "pow2"]) == 1 and pow2part(k) == abs(k):
                return q
        nn = self.nnpoly(q, signs)
        if nn is not None:
            q = nn
        # canonical sign and power of two
        lead = min(q.t)
        k = q.t[lead]
        s = pow2part(k) * (1 if k > 0 else -1)
        qn = q.scale(1 / s)
        key = qn.key()
        if key not in self.rkey:
            isnn = all(c > 0 for c in qn.t.values()) and all(self.atoms[x].nn for x in qn.atoms())
            d = self.inputdiff(qn)
            if d:
                a, co, rest = d   # qn = co a + rest
                t = self.new("t%d" % len(self.atoms), "diff", q=qn)
                tau = self.new(t.name + "'", "tail", base=t.id)
                self.rkey[key] = t.id
                self.rkey[(self.P(t) + self.P(tau)).key()] = t.id
                if a is not None:
                    self.subst[a] = (self.P(t) + self.P(tau) - rest).scale(co)
            else:
                r = self.new("r%d" % len(self.atoms), "round", q=qn, nn=isnn)
                self.rkey[key] = r.id
        return self.P(self.atoms[self.rkey[key]]).scale(s)

    def isfloat(self, aid):
        return self.atoms[aid].kind not in ("ind", "sym")

    def inputdiff(self, q):
        """difference of two inputs: (atom to eliminate or None, its coefficient, the rest of q)"""
        if len(q.t) != 2:
            return None
        ms = sorted(q.t.items())
        if not all(len(m) == 1 and abs(c) == 1 and self.atoms[m[0]].kind == "input" for m, c in ms):
            return None
        if ms[0][1] + ms[1][1] != 0:
            return None
        used = set().union(*[p.atoms() for p in self.subst.values()]) if self.subst else set()
        for m, c in ms:
            if m[0] not in self.subst and m[0] not in used:
                return m[0], c, q - Poly({m: c})
        return (None, 1, None)

    def normin(self, p):
        """substitute eliminated inputs"""
        return self.substitute(p, self.subst)

    def substitute(self, p, sub):
        if not sub or not any(x in sub for m in p.t for x in m):
            return p
        out = {}
        cache = {}
        for m, c in p.t.items():
            hit = [x for x in m if x in sub]
            if not hit:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
                continue
            h = tuple(hit)
            if h not in cache:
                q = C(1)
                for x in hit:
                    q = q * sub[x]
                cache[h] = q
            rest = tuple(x for x in m if x not in sub)
            for m2, c2 in cache[h].t.items():
                mm = tuple(sorted(rest + m2))
                v = out.get(mm, 0) + c * c2
                if v:
                    out[mm] = v
                elif mm in out:
                    del out[mm]
        return Poly(out)

    def norm(self, p):
        """normal form: eliminated inputs, indicators absorbed, |x|^2 = x^2"""
        p = self.normin(p)
        out = {}
        ch = False
        for m, c in p.t.items():
            m2 = self.normmono(m)
            if m2 is not m:
                ch = True
            v = out.get(m2, 0) + c
            if v:
                out[m2] = v
            elif m2 in out:
                del out[m2]
        return Poly(out) if ch else p

    def normmono(self, m):
        ks = [self.atoms[x].kind for x in m]
        if "ind" not in ks and "abs" not in ks:
            return m
        cnt = {}
        for x in m:
            cnt[x] = cnt.get(x, 0) + 1
        for x in list(cnt):
            a = self.atoms[x]
            if a.kind == "abs" and cnt[x] >= 2:
                e = cnt[x] // 2 * 2
                cnt[x] -= e
                cnt[a.base] = cnt.get(a.base, 0) + e
        for x in list(cnt):
            a = self.atoms[x]
            if a.kind == "ind":
                cnt[x] = 1
                if any(cnt.get(y, 0) for y in a.ind):
                    cnt[x] = 0
        return tuple(sorted(x for x, k in cnt.items() for _ in range(k)))

    def indicator(self, aids):
        key = ("ind", frozenset(aids))
        if key not in self.rkey:
            self.rkey[key] = self.new("[%s]" % ",".join(self.atoms[x].name for x in sorted(aids)), "ind", ind=frozenset(aids), nn=True).id
        return self.P(self.atoms[self.rkey[key]])

    def max_(self, ps):
        """max of the given float polynomials as an atom"""
        args = set()
        for p in ps:
            m = self.ismax(p)
            if m is not None:
                args |= set(m)
            else:
                args.add(p)
        key = frozenset(args)
        if len(key) == 1:
            return ps[0]
        if key not in self.maxkey:
            nn = any(self.nnpoly(p) is not None for p in key)
            self.maxkey[key] = self.new("max%d" % len(self.atoms), "max", args=key, nn=nn)
        return self.P(self.maxkey[key])

    def ismax(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == "max":
                return self.atoms[m[0]].args
        return None

    # ---- error majorants ------------------------------------------------------------------
    def xatom(self, aid):
        """non-negative polynomial that bounds |atom|"""
        a = self.atoms[aid]
        if a.nn and a.kind != "ind":
            return Poly({(aid,): ONE})
        if a.kind == "ind":
            return C(1)
        if a.kind == "tail":
            return self.absatom(a.base).scale(U)
        if a.kind == "rho":
            return self.xerr(a.base)
        if a.kind == "top":
            return self.xpoly(a.q) + a.err
        if a.kind == "round":
            k = ("x", aid)
            if k not in self.rkey:
                self.rkey[k] = self.round(self.xpoly(a.q))
            return self.rkey[k]
        return self.absatom(aid)

    def xerr(self, aid):
        """bound of |atom - its exact value|"""
        a = self.atoms[aid]
        if a.kind == "est":
            return self.absatom(aid).scale(EST)
        if a.kind == "top":
            return a.err
        return self.xatom(aid).scale(U)

    def xpoly(self, p):
        out = ZERO
        for m, c in p.t.items():
            q = C(abs(c))
            for x in m:
                q = q * self.xatom(x)
            out = out + q
        return out

    def unround(self, p, keep=()):
        """replace every rounding atom by its exact value plus an error atom"""
        p = self.norm(p)
        while True:
            # latest rounding atom first
            cand = [x for x in p.atoms() if x not in keep and self.atoms[x].kind in ("round", "est", "top")]
            absc = [x for x in p.atoms() if self.atoms[x].kind == "abs" and x not in keep]
            if not cand:
                return p
            x = max(cand)
            a = self.atoms[x]
            k = ("rho", x)
            if k not in self.rkey:
                self.rkey[k] = self.new("e" + a.name, "rho", base=x).id
            p = self.norm(self.substitute(p, {x: a.q + Poly({(self.rkey[k],): ONE})}))

    def show(self, p, n=6):
        ts = []
        for m, c in list(p.t.items())[:n]:
            ts.append(("%.17g" % float(c)) + "".join("*" + self.atoms[x].name for x in m))
        return " + ".join(ts) + (" + ..." if len(p.t) > n else "") if ts else "0"
