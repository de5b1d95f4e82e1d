"""Sign certificates: the float returned on a path has the sign of the exact determinant."""
from sym import *


class Fold:
    """coefficients K with E <= K * root, for nonnegative E, along the tree of the roundings of root"""

    def __init__(self, sp, root):
        self.sp, self.root = sp, root
        self.nodes = {}      # mono -> list of (path weight) for capacity sharing
        self.children = {}
        self.build((root,))

    def composite(self, m):
        c = [x for x in m if self.sp.atoms[x].kind == "round"]
        return max(c) if c else None

    def kids(self, m):
        """the monomials of m with its latest rounding replaced by its exact value"""
        if m not in self.children:
            x = self.composite(m)
            if x is None:
                self.children[m] = None
            else:
                rest = list(m)
                rest.remove(x)
                rest = tuple(rest)
                self.children[m] = {self.sp.normmono(tuple(sorted(rest + m2))): c for m2, c in self.sp.atoms[x].q.t.items()}
        return self.children[m]

    def build(self, m):
        order, seen = [], set()

        def go(m):
            if m in seen:
                return
            seen.add(m)
            k = self.kids(m)
            for c in (k or {}):
                go(c)
            order.append(m)
        go(m)
        order.reverse()          # parents before children
        self.order = order
        self.cap = {m: Fr(0) for m in order}
        self.cap[m] = ONE
        self.cap[(self.root,)] = ONE
        for m in order:
            k = self.kids(m)
            for c, w in (k or {}).items():
                self.cap[c] += self.cap[m] * w

    def place(self, E):
        """E with every monomial moved down to a node of the tree"""
        out, work = {}, dict(E.t)
        while work:
            m, c = work.popitem()
            if m in self.cap:
                out[m] = out.get(m, 0) + c
                continue
            if not m:
                raise Undecided("constant error term")
            k = self.kids(m)
            if k is None:
                m2 = self.bymax(m)
                if m2 in self.cap:
                    out[m2] = out.get(m2, 0) + c
                    continue
                raise Undecided("error term outside the bound: " + self.sp.show(Poly({m: c})))
            for m2, w in k.items():
                work[m2] = work.get(m2, 0) + c * w * (1 + U)
        return out

    def bymax(self, m):
        """m with every atom replaced by the maximum that bounds it"""
        sp = self.sp
        mx = {x for n in self.cap for x in n if sp.atoms[x].kind == "max"}
        if len(mx) != 1:
            return None
        (M,) = mx
        args = sp.atoms[M].args
        out = []
        for x in m:
            a = sp.atoms[x]
            ok = x == M or sp.P(a) in args or (not a.nn and a.kind in ("diff", "input") and sp.absatom(x) in args)
            if not ok:
                return None
            out.append(M)
        return tuple(out)

    def bound(self, E):
        e = self.place(E)
        K = {}
        for m in reversed(self.order):       # children before parents
            k = self.kids(m)
            v = e.get(m, Fr(0))
            if k:
                # a child shared by several parents gives each its share by capacity
                v += (1 + U) * max(K[c] for c in k)
            # K is per unit of capacity-weighted monomial: scaled below
            K[m] = v / self.cap[m] if not k else None
            if k:
                K[m] = e.get(m, Fr(0)) / self.cap[m] + (1 + U) * max(K[c] for c in k)
        return K[(self.root,)]


def explain(sp, E, n=8):
    return sp.show(E, n)


class Fail(Exception):
    """the certificate shows a contradiction (not a weakness of the analysis)"""


class Cert:
    def __init__(self, num, slack1=Fr(0), slack2=Fr(0)):
        self.sp = num.sp
        self.it = num.it
        self.slack1, self.slack2 = slack1, slack2   # tolerated shortage of a second-order constant
        self.assumed = set()

    def zeros(self, facts):
        """the sets of atoms that are zero on the path (one set per case of a vanishing product)"""
        sp = self.sp
        z, lo, hi = set(), set(), set()
        for rel, P, _ in facts:
            if len(P.t) == 1:
                (m, c), = P.t.items()
                if len(m) == 1:
                    if rel == "==":
                        z.add(m[0])
                    elif rel in (">=", "<="):
                        (lo if (rel == ">=") == (c > 0) else hi).add(m[0])
        z |= lo & hi
        cases = []

        def close(z, todo):
            while todo:
                x = todo.pop()
                a = sp.atoms[x]
                if a.kind == "diff":
                    t = self.tail_of(x)
                    if t is not None and t not in z:
                        z.add(t)
                if a.kind == "round" and len(a.q.t) == 1:
                    (m, c), = a.q.t.items()
                    if not any(y in z for y in m):
                        for y in set(m):
                            close(z | {y}, [y] + list(todo))
                        return
            cases.append(z)
        close(set(z), list(z))
        return cases

    def tail_of(self, x):
        for a in self.sp.atoms[x + 1:x + 2]:
            if a.kind == "tail" and a.base == x:
                return a.id

    def kill(self, p, z):
        if not z:
            return p
        return Poly({m: c for m, c in p.t.items() if not any(x in z for x in m)})

    def check(self, v, true, facts):
        """None if certified, else (kind, reason): kind failed or undecided"""
        for z in self.zeros(facts):
            try:
                r = self.check1(v, true, facts, z)
            except Undecided as e:
                r = ("undecided", str(e))
            if r is not None:
                return r
        return None

    def check1(self, v, true, facts, z):
        sp = self.sp
        if v.last:
            d = self.kill(sp.norm(v.V - true), z)
            return None if d.iszero() else ("failed", "exact value differs from the determinant by " + sp.show(d))
        V = self.kill(sp.norm(v.V), z)
        t = self.kill(sp.norm(true), z)
        if V.iszero():
            return None if t.iszero() else ("failed", "returns zero where the determinant is " + sp.show(t))
        if (V - t).iszero():
            return None
        if len(V.t) != 1:
            raise Undecided("returned value is not a single float: " + sp.show(V))
        (m, c), = V.t.items()
        if len(m) != 1:
            raise Undecided("returned value is not a single float: " + sp.show(V))
        a = sp.atoms[m[0]]
        if a.kind == "round":
            Q, lose = a.q, 1 + U
        elif a.kind == "est":
            Q, lose = a.q, 1 / (1 - EST)
        else:
            Q, lose = V.scale(1 / c), ONE
        Q = Q.scale(c)
        Q0 = self.kill(sp.norm(Q), z)
        Q = Q0
        D = self.kill(t - sp.unround(Q), z)
        if D.iszero():
            return None
        E = self.kill(sp.norm(sp.xpoly(D)), z)
        # relative: the terms of Q do not cancel
        why, best = [], None
        nn = self.signed(Q, facts)
        if nn is not None:
            tot = sp.new("tot", "round", q=nn, nn=True)
            try:
                k = Fold(sp, tot.id).bound(E)
                if k < 1:
                    return None
                why.append(f"relative error {float(k):.6g}")
                best = k
            except Undecided as ex:
                why.append(str(ex))
        # absolute: |v| >= s * errbound
        ab = self.abs_of(m[0])
        bounds = []
        for rel, P, _ in self.expand(facts):
            if rel not in (">", ">=", "<", "<=") or len(P.t) != 2:
                continue
            mv = m if m in P.t else ab if ab in P.t else None
            if mv is None:
                continue
            (m2, b), = [(x, y) for x, y in P.t.items() if x != mv]
            if len(m2) != 1 or not sp.atoms[m2[0]].nn:
                continue
            # alpha v + beta e rel 0
            al = P.t[mv]
            pos = rel in (">", ">=")
            if (b > 0) == pos or (mv == ab and (al > 0) != pos):
                continue         # gives no lower bound of |v|
            s = abs(b / al) * abs(c)
            bounds.append((s, m2[0]))
            try:
                k = Fold(sp, m2[0]).bound(E)
            except Undecided as ex:
                why.append(str(ex))
                continue
            if k * lose < s:
                return None
            ratio = k * lose / s
            tol = self.slack2 if any(sp.atoms[x].kind == "est" for x in Q.atoms()) else self.slack1
            if ratio <= 1 + tol:
                self.assumed.add("constant of the filter taken from the published analysis: mechanical bound / code constant = 1 + %.3g" % float(ratio - 1))
                return None
            best = ratio if best is None else min(best, ratio)
            why.append(f"error up to {float(ratio):.9g} times what the filter accepts")
        txt = "no certificate: " + "; ".join(why or ["the returned value has an error and no lower bound of its magnitude is known"]) + f" (returned {sp.show(V)})"
        if (best is not None and best > 1.01 + self.slack2) or not bounds:
            return ("failed", txt)
        if all(self.exceeds(D, s, e) for s, e in bounds):
            return ("failed", txt)
        return ("undecided", txt)

    def abs_of(self, x):
        p = self.sp.abskey.get(x)
        return next(iter(p.t)) if p is not None and len(p.t) == 1 else None

    def expand(self, facts):
        """facts about rounded differences are also facts about the exact ones"""
        out = list(facts)
        for rel, P, c in facts:
            if len(P.t) == 1:
                (m, k), = P.t.items()
                if len(m) == 1 and self.sp.atoms[m[0]].kind == "round":
                    out.append((rel, self.sp.atoms[m[0]].q.scale(k), c))
        return out

    def exceeds(self, D, s, root):
        """a single term of the error, made of differences and their roundoffs only, is not covered"""
        sp = self.sp
        for m, c in D.t.items():
            if m and all(sp.atoms[x].kind in ("diff", "input", "tail") for x in m):
                try:
                    if Fold(sp, root).bound(sp.xpoly(Poly({m: c}))) > 4 * s:
                        return True
                except Undecided:
                    return True
        return False

    def signed(self, Q, facts):
        """|Q| as a nonnegative polynomial when its terms have one sign"""
        sp = self.sp
        d = {}
        for rel, P, _ in facts:
            if len(P.t) == 1:
                (m, c), = P.t.items()
                if len(m) == 1 and rel in (">", ">=", "=="):
                    d[m[0]] = 1 if c > 0 else -1
                elif len(m) == 1 and rel in ("<", "<="):
                    d[m[0]] = -1 if c > 0 else 1
        if len(Q.t) == 1:
            (m, c), = Q.t.items()
            q = C(abs(c))
            for x in m:
                q = q * (sp.P(sp.atoms[x]) if sp.atoms[x].nn else sp.absatom(x))
            return q
        return sp.nnpoly(Q, d) or sp.nnpoly(-Q, d)
