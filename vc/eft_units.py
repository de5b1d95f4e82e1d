"""Error-free transformations of src/predicates/predicates.rs (P04), decided by Coq with Flocq.

Each function is executed symbolically from its source; every floating-point operation becomes a
named real with a hypothesis `t = rnd (a op b)`.  The contract (x + y = a + b, ...) is emitted as a
Coq theorem over exactly these hypotheses; its proof instantiates the theorem of coq/Eft.v whose
sequence of roundings is the same up to signs and commutation, each premise being proved from the
code's own hypothesis.  coqc checks the file on every run."""
import hashlib, os, random, re, shutil, subprocess
from s_units import *
from interp import *

COQ = os.path.join(rsyn.VERIF, "vc", "coq")
OUT = os.path.join(rsyn.BUILD, "coq")
LIM = C(0)


class D:
    """signed node"""
    __slots__ = ("s", "n")

    def __init__(self, s, n):
        self.s, self.n = s, n

    def key(self):
        return (self.s, self.n.id)


class Node:
    __slots__ = ("id", "kind", "a", "var", "text", "num")

    def __init__(self, id, kind, a, var=None, text=None, num=None):
        self.id, self.kind, self.a, self.var, self.text, self.num = id, kind, a, var, text, num


class EftInterp(Interp):
    def __init__(self, index, space):
        super().__init__(index, space)
        self.reset_nodes()

    def resets(self):
        self.reset_nodes()

    def reset_nodes(self):
        self.tab, self.nodes, self.trace = {}, [], []

    def node(self, kind, a, text, num):
        k = (kind, a)
        if k not in self.tab:
            n = Node(len(self.nodes), kind, a, num=num)
            self.nodes.append(n)
            if kind == "v":
                n.var = a
            elif kind == "c":
                n.var = f"({a})" if a.denominator > 1 else str(a)
            else:
                n.var = f"t{n.id}"
                self.trace.append((n.var, text, num))
            self.tab[k] = n
        return self.tab[k]

    def inp(self, name):
        return D(1, self.node("v", name, None, None))

    def toD(self, v):
        v = self.val(v)
        if isinstance(v, D):
            return v
        if isinstance(v, F) and v.V.const() is not None:
            c = v.V.const()
            if c == 0:
                return D(1, self.node("c", Fr(0), None, None))
            return D(1 if c > 0 else -1, self.node("c", abs(c), None, None))
        raise Undecided(f"f64 expected, found {type(v).__name__}")

    def sg(self, d):
        """sign of the value relative to the Coq variable of its node"""
        return d.s * (d.n.num or 1)

    def tx(self, d):
        return d.n.var if self.sg(d) > 0 else f"(- {d.n.var})"

    def op(self, op, a, b):
        """rnd (a op b), sign-canonical"""
        text = f"{self.tx(a)} {op} {self.tx(b)}"
        if op == "*":
            if a.n.kind == "c" and a.n.a == 0 or b.n.kind == "c" and b.n.a == 0:
                raise Undecided("product with the constant zero")
            s = a.s * b.s
            n = self.node("mul", tuple(sorted((a.n.id, b.n.id))), text, s)
            return D(s, n)
        sb = b.s if op == "+" else -b.s
        terms = {}
        for s, n in ((a.s, a.n), (sb, b.n)):
            if n.kind == "c" and n.a == 0:
                continue
            terms[n.id] = terms.get(n.id, 0) + s
        terms = {k: c for k, c in terms.items() if c}
        if not terms:
            return D(1, self.node("c", Fr(0), None, None))
        if len(terms) == 1:
            (k, c), = terms.items()
            if abs(c) == 1:
                return D(c, self.nodes[k])
        s = 1 if terms[min(terms)] > 0 else -1
        n = self.node("add", tuple(sorted((k, c * s) for k, c in terms.items())), text, s)
        return D(s, n)

    def kind(self, v):
        return None

    def arith(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, D) or isinstance(b, D):
            if op not in "+-*":
                raise Undecided("operator " + op)
            return self.op(op, self.toD(a), self.toD(b))
        return super().arith(op, a, b)

    def e_Unary(self, n, env, fr):
        if n["op"] == "-":
            v = self.val(self.ev(n["e"], env, fr))
            if isinstance(v, D):
                return D(-v.s, v.n)
            return super().e_Unary(n, env, fr)
        return super().e_Unary(n, env, fr)

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, D) or isinstance(b, D):
            raise Undecided("comparison of floats in a straight-line transformation")
        return super().compare(op, a, b)

    def method(self, m, rv, args, n, env, fr, recv):
        v = self.val(rv)
        if isinstance(v, D):
            if m == "clone":
                return v
            raise Undecided("method " + m + " of f64")
        return super().method(m, rv, args, n, env, fr, recv)


# --- the sequences of roundings that coq/Eft.v proves ---------------------------------------------
def neg(d):
    return D(-d.s, d.n)


def t_twosum(it, a, b):
    o = it.op
    x = o("+", a, b)
    bv = o("-", x, a)
    av = o("-", x, bv)
    br = o("-", b, bv)
    ar = o("-", a, av)
    y = o("+", ar, br)
    return (x, y), "TwoSum", [a, b, x, bv, av, br, ar, y]


def t_fast(it, a, b):
    o = it.op
    x = o("+", a, b)
    bv = o("-", x, a)
    y = o("-", b, bv)
    return (x, y), "FastTwoSum", [a, b, x, bv, y]


def t_split(it, a):
    o = it.op
    c = D(1, it.node("c", Fr(134217729), None, None))
    ca = o("*", a, c)
    aa = o("-", ca, a)
    ah = o("-", ca, aa)
    return ca, aa, ah, o("-", a, ah)


def t_dekker(it, a, b):
    o = it.op
    ca, aa, ah, al = t_split(it, a)
    cb, ab, bh, bl = t_split(it, b)
    hh, lh, hl, ll = o("*", ah, bh), o("*", al, bh), o("*", ah, bl), o("*", al, bl)
    x = o("*", a, b)
    e1 = o("-", x, hh)
    e2 = o("-", e1, lh)
    e3 = o("-", e2, hl)
    y = o("-", ll, e3)
    return (x, y), "DekkerProduct", [a, b, ca, aa, ah, al, cb, ab, bh, bl, hh, lh, hl, ll, x, e1, e2, e3, y]


def t_square(it, a):
    o = it.op
    ca, aa, ah, al = t_split(it, a)
    hh, ll = o("*", ah, ah), o("*", al, al)
    x = o("*", a, a)
    e1 = o("-", x, hh)
    s = o("+", ah, ah)
    sl = o("*", s, al)
    e3 = o("-", e1, sl)
    y = o("-", ll, e3)
    return (x, y), "SquareProduct", [a, ca, aa, ah, al, hh, ll, x, e1, s, sl, e3, y]


T = dict(a="TwoSum", f="FastTwoSum")
#        name: (arguments, exact result, templates tried in turn, extra hypotheses)
FNS = {
    "two_sum": ("ab", "a + b", [lambda i, a, b: t_twosum(i, a, b), lambda i, a, b: t_twosum(i, b, a)], []),
    "two_diff": ("ab", "a - b", [lambda i, a, b: t_twosum(i, a, neg(b)), lambda i, a, b: t_twosum(i, neg(b), a)], []),
    "fast_two_sum": ("ab", "a + b", [lambda i, a, b: t_fast(i, a, b), lambda i, a, b: t_twosum(i, a, b), lambda i, a, b: t_twosum(i, b, a)], ["Rabs b <= Rabs a"]),
    "fast_two_diff": ("ab", "a - b", [lambda i, a, b: t_fast(i, a, neg(b)), lambda i, a, b: t_twosum(i, a, neg(b)), lambda i, a, b: t_twosum(i, neg(b), a)], ["Rabs b <= Rabs a"]),
    "two_product": ("ab", "a * b", [lambda i, a, b: t_dekker(i, a, b), lambda i, a, b: t_dekker(i, b, a)], ["tiny a b"]),
    "square": ("a", "a * a", [lambda i, a: t_square(i, a), lambda i, a: t_dekker(i, a, a)], ["normal1 a"]),
    "two_diff_tail": ("ab", "a - b", [lambda i, a, b: t_twosum(i, a, neg(b)), lambda i, a, b: t_twosum(i, neg(b), a)], []),
    "two_product_pre_split": ("ab", "a * b", [lambda i, a, b: t_dekker(i, a, b), lambda i, a, b: t_dekker(i, b, a)], ["tiny a b"]),
}


def ev(trace, vals, expr):
    env = dict(vals)
    for var, text, _ in trace:
        env[var] = eval(text, {}, env)
    return env


def samples(name, k, rng):
    r = lambda: rng.choice((-1.0, 1.0)) * (rng.getrandbits(rng.choice((53, 53, 27, 5, 1))) | 1) * 2.0 ** rng.randint(-60, 60)
    for _ in range(3000):
        v = [r() for _ in range(k)]
        if rng.random() < .3 and k == 2:
            v[1] = -v[0] * (1 + rng.choice((-1, 1)) * rng.randint(0, 9) * 2.0 ** -52)
        if "fast" in name and abs(v[0]) < abs(v[1]):
            v = v[::-1]
        yield v


def counterexample(it, name, args, exact, ret):
    """evaluate the code's own operation sequence on doubles against exact rationals"""
    rng = random.Random(7)
    for v in samples(name, len(args), rng):
        try:
            env = ev(it.trace, dict(zip(args, v)), None)
        except (OverflowError, ZeroDivisionError):
            continue
        got = sum((Fr(it.sg(d)) * Fr(env[d.n.var] if d.n.var in env else float(d.n.a)) for d in ret), Fr(0))
        want = eval(exact, {}, {x: Fr(y) for x, y in zip(args, v)})
        if got != want:
            return f"{name}({', '.join(repr(x) for x in v)}): components sum to {float(got)!r}, exact result differs by {float(got - want)!r}"
    return None


def gen(it, name, args, exact, tmpl, extra, ret):
    """Coq theorem for one function, or None when no proved sequence matches"""
    A = [it.inp(x) for x in args]
    n0 = len(it.nodes)
    for t in tmpl:
        out, lemma, formal = t(it, *A)
        if len(it.nodes) != n0 and any(n.var.startswith("t") for n in it.nodes[n0:]):
            bad = [n for n in it.nodes[n0:] if n.kind in ("add", "mul")]
            if bad:
                # undo: the template performs roundings that the code does not
                for n in it.nodes[n0:]:
                    del it.tab[(n.kind, n.a)]
                del it.nodes[n0:]
                it.trace[:] = [x for x in it.trace if x[0] not in {b.var for b in bad}]
                continue
        if [d.key() for d in out] == [d.key() for d in ret]:
            break
    else:
        return None
    defs = {v: (text, s) for v, text, s in it.trace}
    need, order = set(), []
    used = {d.n.var for d in formal}
    lines = [f"Theorem c_{name} {' '.join(args)} {' '.join(v for v, _, _ in it.trace)} :"]
    hyps = [f"fmt {x}" for x in args] + extra + [f"{v} = rnd ({text})" for v, text, _ in it.trace]
    lines.append("  " + " ->\n  ".join(hyps) + f" ->\n  {' + '.join(it.tx(d) for d in ret)} = {exact}.")
    names = [f"F{x}" for x in args] + [f"X{i}" for i in range(len(extra))] + [f"H{v}" for v, _, _ in it.trace]
    pr = ["Proof.", "intros " + " ".join(names) + "."]
    pr.append(f"pose proof ({lemma} {' '.join('(' + it.tx(d) + ')' for d in formal)}) as L.")
    pr.append("assert (G : " + " + ".join(it.tx(d) for d in ret) + " = " + lemma_rhs(it, lemma, formal) + "); [ apply L; clear L |].")
    # premises in the lemma's order: formats, side conditions, then one equation per rounding
    k = {"TwoSum": 2, "FastTwoSum": 2, "DekkerProduct": 2, "SquareProduct": 1}[lemma]
    for d in formal[:k]:
        pr.append(f"{{ {'apply fmt_opp; ' if it.sg(d) < 0 else ''}exact F{d.n.var}. }}")
    if lemma == "FastTwoSum":
        pr.append("{ rewrite ?Rabs_Ropp. assumption. }")
    if lemma == "DekkerProduct":
        pr.append("{ first [ assumption | unfold tiny in *; rewrite Rmult_comm; assumption | apply normal1_tiny; assumption ]. }")
    if lemma == "SquareProduct":
        pr.append("{ assumption. }")
    for d in formal[k:]:
        h = f"H{d.n.var}"
        pr.append("{ " + (f"rewrite {h}; f_equal; ring" if it.sg(d) > 0 else f"rewrite {h}, <- rnd_opp; f_equal; ring") + ". }")
    pr.append("rewrite G; ring.")
    pr.append("Qed.")
    return "\n".join(lines + pr) + "\n"


def lemma_rhs(it, lemma, f):
    a = it.tx(f[0])
    if lemma == "SquareProduct":
        return f"{a} * {a}"
    return f"{a} {'*' if lemma == 'DekkerProduct' else '+'} {it.tx(f[1])}"


def library():
    """compile coq/Eft.v once per content"""
    os.makedirs(OUT, exist_ok=True)
    src = open(os.path.join(COQ, "Eft.v")).read()
    h = hashlib.sha256(src.encode()).hexdigest()
    st = os.path.join(OUT, "Eft.sha")
    if not (os.path.exists(st) and open(st).read() == h and os.path.exists(os.path.join(OUT, "Eft.vo"))):
        tmp = OUT + f".{os.getpid()}"
        os.makedirs(tmp)
        open(os.path.join(tmp, "Eft.v"), "w").write(src)
        p = subprocess.run(["coqc", "-q", "-R", tmp, "Gpf", "Eft.v"], cwd=tmp, capture_output=True, text=True)
        if p.returncode:
            shutil.rmtree(tmp)
            raise Undecided("coq/Eft.v does not compile: " + p.stderr[-300:])
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(OUT, f))
        os.rmdir(tmp)
        open(st, "w").write(h)
    return src


def coq(thms):
    """compile the generated theorems; returns {name: None | error}"""
    d = os.path.join(OUT, f"gen.{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    res = {}

    def one(names):
        f = os.path.join(d, "Gen.v")
        with open(f, "w") as o:
            o.write("From Coq Require Import ZArith Reals Psatz.\nFrom Flocq Require Import Core.\nFrom Gpf Require Import Eft.\nLocal Open Scope R_scope.\n\n")
            for n in names:
                o.write(thms[n] + "\n")
            o.write("".join(f"Print Assumptions c_{n}.\n" for n in names))
        p = subprocess.run(["coqc", "-q", "-R", OUT, "Gpf", "Gen.v"], cwd=d, capture_output=True, text=True, timeout=300)
        ax = {l.split(":")[0].strip() for l in p.stdout.split("\n") if re.match(r"^[A-Za-z_.']+ :", l)}
        return p.returncode, p.stderr, ax
    try:
        rc, err, ax = one(list(thms))
        if rc == 0:
            return {n: None for n in thms}, ax
        for n in thms:
            rc, err, a1 = one([n])
            res[n] = None if rc == 0 else err[-300:]
            ax |= a1
        return res, ax
    finally:
        shutil.rmtree(d)


def u_eft(R):
    R.assumptions = {"f64 addition, subtraction and multiplication are round-to-nearest-even in FLT(-1074, 53): no overflow; products at least 2^-969 or zero, squared numbers at least 2^-480 or zero"}
    src = library()
    lem = re.findall(r"^(?:Theorem|Lemma) (\w+)", src, re.M)
    for l in lem:
        R.add(f"Eft.v: {l}", None)      # checked by coqc in library()
    ix = FnIndex([PRED])
    it = EftInterp(ix, Space())
    thms = {}
    for name, (args, exact, tmpl, extra) in FNS.items():
        fns = [f for f in ix.free.get(name, []) if f.rel == PRED]
        if len(fns) != 1:
            R.add(name, ("undecided", f"anchor lost: function {name}"))
            continue

        def call():
            A = [it.inp(x) for x in args]
            if name == "two_diff_tail":
                x = it.op("-", *A)
                return (x, it.call_fn(fns[0], A + [x]))
            if name == "two_product_pre_split":
                sp = [f for f in ix.free.get("split", []) if f.rel == PRED]
                if len(sp) != 1:
                    raise Undecided("anchor lost: function split")
                hl = it.val(it.call_fn(sp[0], [A[1]]))
                return it.call_fn(fns[0], A + list(hl))
            return it.call_fn(fns[0], A)
        try:
            rs = []
            for k, r, facts in it.paths(call):
                if k != "ret":
                    R.add(name, ("failed", f"may panic: {r}"))
                    break
                ret = [it.toD(x) for x in it.val(r)]
                t = gen(it, name, args, exact, tmpl, extra, ret)
                if t is None:
                    w = counterexample(it, name, args, exact, ret)
                    R.add(name, ("failed", w) if w else ("undecided", "the sequence of roundings is not one of the proved ones"))
                else:
                    thms[name] = t
        except Undecided as e:
            R.add(name, ("undecided", str(e)))
    if thms:
        res, ax = coq(thms)
        for n, e in res.items():
            R.add(f"{n}: x + y is exactly {FNS[n][1]}", None if e is None else ("undecided", "coqc: " + e))
        R.detail["axioms reported by Coq"] = sorted(ax)
        # the same machinery must refuse a wrong statement
        n = next(iter(thms))
        bad, _ = coq({n: thms[n].replace(f"= {FNS[n][1]}.", f"= {FNS[n][1]} + 1.")})
        R.probe(bad[n] is not None)
    R.functions |= set(it.inlined)
    R.backend = "Coq 8.16 with Flocq (theorems of vc/coq/Eft.v instantiated on the code's own sequence of roundings, checked by coqc on every run)"
