"""Expansion arithmetic (P04): values of the building blocks and of the loops over expansions of
any length.

Slices and vectors of unknown length are represented by the sum of their components.  A loop over
such a sequence is verified once, for an arbitrary iteration from an arbitrary state: the sum of all
the floats it modifies changes by exactly c*e for the element e (c fixed), so that after the loop
it has changed by c times the value of the sequence.  The contracts of two_sum, two_product, ... are
those that Coq proves (eft_units.py)."""
from s_units import *
from interp import *
from help_units import Z

EREL = "src/predicates/expansion_number.rs"


class Seq:
    """slice of f64 of unknown length: V sum of the components; ne nonempty True/False/None"""
    __slots__ = ("V", "ne", "first", "lo", "sorted", "single")

    def __init__(self, V, ne=None, lo=None, single=None):
        self.V, self.ne, self.first, self.lo, self.single = V, ne, None, lo, single


class Vecx:
    """Vec<f64> under construction"""
    __slots__ = ("W", "ne", "zf", "items", "mref")

    def __init__(self, W=ZERO, ne=False, zf=True):
        self.W, self.ne, self.zf = W, ne, zf
        self.mref = False        # a &mut slice
        self.items = [] if ne is False else None      # the components, while all are known


class It:
    """iterator pipeline over a Seq or Vecx"""
    __slots__ = ("src", "stages")

    def __init__(self, src, stages=()):
        self.src, self.stages = src, tuple(stages)


class Len:
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class Stop(Exception):
    pass


class ExInterp(Interp):
    def __init__(self, index, space):
        super().__init__(index, space)
        self.coef, self.checks = {}, {}
        self.smt = []
        self.mag = []
        self.loopdepth = 0
        self.excl, self.zbad, self.names, self.touched = {}, {}, {}, {}
        self.count = 0

    def resets(self):
        self.mag = []       # SMT facts of this path: magnitudes
        self.loopdepth = 0
        self.count = 0      # unknowns are numbered per path: equal choices give equal names

    # ---- bookkeeping ----------------------------------------------------------------------
    def record(self, name, ok, text):
        o = self.checks.get(name)
        if o is None or (o[0] and not ok):
            self.checks[name] = (ok, text)

    def fresh(self, n="s"):
        self.count += 1
        k = (n, self.count)
        if k not in self.names:
            self.names[k] = self.sp.new(f"{n}{self.count}", "in")
        return self.sp.P(self.names[k])

    def later(self, c, count):
        """unknowns of polynomial c introduced after the count-th of the path"""
        new = {self.names[k] for k in self.names if k[1] > count}
        return any(x in new for m in c.t for x in m)

    def reduce(self, P):
        """P modulo the equalities of the path; the zero polynomial if it follows"""
        eqs = [Q for rel, Q, _ in self.facts if rel == "==" and not Q.iszero()]
        lin = [Q for Q in eqs if any(len(m) == 1 and not any(m[0] in o for o in Q.t if o != m) for m in Q.t)]
        for Q in lin:
            m = max(m for m in Q.t if len(m) == 1 and not any(m[0] in o for o in Q.t if o != m))
            if any(m[0] in o for o in P.t):
                a = m[0]
                c = Q.t[m]
                v = Poly({o: -k / c for o, k in Q.t.items() if o != m})      # a == v
                R = ZERO
                for o, k in P.t.items():
                    T = Poly({tuple(x for x in o if x != a): k})
                    for _ in range(o.count(a)):
                        T = T * v
                    R = R + T
                if R.iszero():
                    return R
                if len(R.t) <= len(P.t):
                    P = R
        for rounds in range(3):
            for Q in eqs:
                for s in (1, -1):
                    R = P + Q.scale(s)
                    if len(R.t) < len(P.t):
                        P = R
            if P.iszero():
                return P
        # lengthening steps: try all small combinations
        if len(eqs) <= 6:
            import itertools
            for cs in itertools.product((0, 1, -1), repeat=len(eqs)):
                R = P
                for c, Q in zip(cs, eqs):
                    if c:
                        R = R + Q.scale(c)
                if R.iszero():
                    return R
        return P

    def kind(self, v):
        return None

    def copy(self, v):
        if isinstance(v, (Seq, Vecx)):
            return v
        return super().copy(v)

    # ---- symbolic sequences ---------------------------------------------------------------
    def nonempty(self, s):
        if isinstance(s, Vecx):
            if s.ne is None:
                s.ne = self.choose(2) == 0
                if not s.ne:
                    self.facts.append(("==", s.W, None))
            return s.ne
        if s.ne is None:
            s.ne = self.choose(2) == 0
            if not s.ne:
                self.facts.append(("==", s.V, None))
        return s.ne

    def head(self, s):
        if not self.nonempty(s):
            raise Panic("element of an empty slice")
        if s.first is None:
            if s.single:
                s.first = s.V
            else:
                s.first = self.fresh("e")
            if s.lo is not None:
                self.mag.append(("<=", s.lo, s.first))
        return F(s.first)

    def tail(self, s):
        h = self.head(s)
        return Seq(s.V - s.first, False if s.single else None, s.first)

    def seqof(self, v):
        v = self.val(v)
        if isinstance(v, St) and "vec" in v.f:
            v = self.val(v.f["vec"])
        return v

    def e_Index(self, n, env, fr):
        b = self.seqof(self.ev(n["e"], env, fr))
        if isinstance(b, Vecx):
            b = Seq(b.W, b.ne)
        if isinstance(b, Seq):
            i = self.val(self.ev(n["i"], env, fr))
            if i == 0 and isinstance(i, int):
                return self.head(b)
            if isinstance(i, Opaque) and i.name == "range" and i.data[0] == 1 and i.data[1] is None:
                return self.tail(b)
            if isinstance(i, Opaque) and i.name == "range" and i.data[0] in (0, None) and i.data[1] is None:
                return b
            raise Undecided("index into a slice of unknown length")
        return super().e_Index(n, env, fr)

    def place(self, n, env, fr):
        if n["k"] == "Index":
            b = self.seqof(self.ev(n["e"], env, fr))
            i = self.val(self.ev(n["i"], env, fr))
            if isinstance(b, Vecx) and isinstance(i, Opaque) and i.name == "range" and i.data[1] is None:
                # a suffix: the rest of the vector is untouched, so its sum changes by as much
                return It(b, (("mut",), ("suffix",)))
        if n["k"] == "Field" and n["m"] == "vec":
            b = self.seqof(self.ev(n["e"], env, fr))
            if isinstance(b, Vecx):
                return Ref(lambda: b, lambda v: None)
        return super().place(n, env, fr)

    def e_Field(self, n, env, fr):
        b = self.val(self.ev(n["e"], env, fr))
        if isinstance(b, (Seq, Vecx)) and n["m"] == "vec":
            return b
        return super().e_Field(n, env, fr)

    def e_Struct(self, n, env, fr):
        name = n["path"][-1]["id"]
        if name in ("ExpansionNum", "Output") and len(n["fs"]) == 1 and n["fs"][0][0] == "vec":
            return self.val(self.ev(n["fs"][0][1], env, fr))
        return super().e_Struct(n, env, fr)

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Len) or isinstance(b, Len):
            if isinstance(b, Len) and not isinstance(a, Len):
                a, b, op = b, a, FLIP[op]
            if isinstance(b, Len):
                if op in ("==", "!="):
                    raise Undecided("comparison of lengths")
                return self.choose(2) == 0
            s = a.seq
            if b == 0 and op in ("==", "!=", ">"):
                return self.nonempty(s) == (op != "==")
            if b == 1 and op in ("==", "!="):
                if isinstance(s, Vecx):
                    raise Undecided("length of a vector under construction")
                if s.single is None:
                    s.single = self.choose(2) == 0
                    if s.single:
                        if s.ne is False:
                            raise Infeasible()
                        s.ne = True
                return s.single == (op == "==")
            raise Undecided("comparison of a length")
        if isinstance(a, (Cond, BoolF)) or isinstance(b, (Cond, BoolF)):
            return self.compare(op, self.truth(a), self.truth(b))
        return super().compare(op, a, b)

    def argval(self, a, env, fr):
        return super().argval(a, env, fr)

    def builtin_call(self, ids, n, env, fr):
        name = ids[-1]
        q = ids[-2] if len(ids) > 1 else None
        if q == "Vec" and name in ("new", "new_in", "with_capacity", "with_capacity_in"):
            for a in n["args"][-1:]:
                pass
            return Vecx()
        return super().builtin_call(ids, n, env, fr)

    def e_Macro(self, n, env, fr):
        r = super().e_Macro(n, env, fr)
        if n["name"] == "vec" and isinstance(r, Arr):
            return self.tovec(r)
        return r

    def tovec(self, v):
        v = self.seqof(v)
        if isinstance(v, Vecx):
            return v
        if isinstance(v, (Arr, View)):
            W = ZERO
            for x in v.a:
                W = W + self.asF(x).V
            return Vecx(W, bool(v.a), None)
        if isinstance(v, Seq):
            return Vecx(v.V, v.ne, None)
        raise Undecided("expansion expected, found " + type(v).__name__)

    def push(self, vec, x):
        V = self.asF(x).V
        nz = V.const() not in (None, 0) or any(rel in ("!=", ">", "<") and (Q == V or Q == -V) for rel, Q, _ in self.facts) or self.nzfact(V)
        if not nz and not (vec.ne is False):
            vec.zf = False if vec.zf is not None else None
        vec.W = vec.W + V
        vec.ne = True
        if vec.items is not None:
            vec.items = vec.items + [V]

    def nzfact(self, V):
        try:
            return 0 not in self.sign_of(self.sp.norm(V))
        except Undecided:
            return False

    def arith(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, (Len, Opaque)) or isinstance(b, (Len, Opaque)):
            if op not in "+*":
                raise Undecided("arithmetic on lengths")
            return Opaque("int")
        if isinstance(a, F) and isinstance(b, F) and type(a) is F and type(b) is F:
            if a.V.iszero() and op == "+":
                return b
            raise Undecided("floating-point arithmetic outside the building blocks")
        return super().arith(op, a, b)

    # ---- methods --------------------------------------------------------------------------
    def method(self, m, rv, args, n, env, fr, recv):
        v = self.seqof(rv)
        if isinstance(v, Vecx):
            if m == "push":
                self.push(v, args[0])
                return ()
            if m == "is_empty":
                return not self.nonempty(v)
            if m == "extend":
                return self.extend(v, args[0], n, env, fr)
            if m in ("reserve", "shrink_to_fit"):
                return ()
            if m == "allocator":
                return Opaque("alloc")
            if m in ("clone", "into", "to_vec", "as_slice", "deref", "as_ref", "as_mut", "as_mut_slice", "to_vec_in", "to_owned"):
                if m not in ("clone", "to_vec", "to_vec_in", "to_owned"):
                    return v
                w = Vecx(v.W, v.ne, v.zf)
                w.items = v.items
                return w
            if m == "clear":
                v.W, v.ne, v.zf, v.items = ZERO, False, True, []
                return ()
        if isinstance(v, (Seq, Vecx)):
            if m == "len":
                return Len(v)
            if m == "is_empty":
                return not self.nonempty(v)
            if m in ("iter", "into_iter", "iter_mut"):
                return It(v, (("mut",),) if m == "iter_mut" or m == "into_iter" and getattr(v, "mref", False) else ())
            if m in ("to_vec", "clone", "to_vec_in", "to_owned", "as_slice", "deref", "as_ref"):
                return v
            if m == "first":
                return SOME(self.head(v)) if self.nonempty(v) else NONE()
            if m == "split_first":
                return SOME((self.head(v), self.tail(v))) if self.nonempty(v) else NONE()
            if m == "allocator":
                return Opaque("alloc")
        if isinstance(v, It):
            if m in ("map", "filter_map", "flat_map"):
                return It(v.src, v.stages + ((m, self.val(args[0])),))
            if m == "filter":
                return It(v.src, v.stages + ((m, self.val(args[0])),))
            if m in ("flatten", "copied", "cloned", "by_ref", "fuse", "into_iter", "rev"):
                return It(v.src, v.stages + (((m,),) if m == "flatten" else ()))
            if m == "enumerate":
                return It(v.src, v.stages + (("enumerate",),))
            if m == "skip" and self.val(args[0]) == 1 and all(s[0] in ("enumerate",) for s in v.stages):
                return It(self.tail(v.src), v.stages)
            if m == "for_each":
                f = self.val(args[0])
                self.loop(n, v, lambda x: self.call(f, [x]), [f], env)
                return ()
            if m == "reduce":
                return self.reduce_(v, self.val(args[0]), n)
            if m == "fold":
                raise Undecided("fold over a sequence of unknown length")
            if m in ("collect", "to_vec"):
                w = Vecx()
                self.extend(w, v, n, env, fr)
                return w
        return super().method(m, rv, args, n, env, fr, recv)

    def extend(self, vec, src, n, env, fr):
        src = self.val(src)
        if isinstance(src, (Vecx, Seq)):
            src = It(src)
        if isinstance(src, It):
            self.loop(n, src, lambda x: self.push(vec, x), [vec], env)
            return ()
        if isinstance(src, (Arr, View)) or isinstance(src, Opaque):
            for x in self.items(src):
                self.push(vec, x)
            return ()
        raise Undecided("extend")

    # ---- loops ----------------------------------------------------------------------------
    def mutated(self, node, env):
        """cells of variables that the code may modify, visible in env"""
        names = set()

        def lhs(l):
            k = l["k"]
            if k == "Path" and len(l["path"]) == 1:
                names.add(l["path"][0]["id"])
            elif k in ("Tuple", "Array"):
                for x in l["es"]:
                    lhs(x)
            elif k in ("Index", "Field", "Unary", "Paren"):
                lhs(l["e"])
        for x in rsyn.walk(node):
            k = x.get("k")
            if k == "Assign":
                lhs(x["l"])
            elif k == "Binary" and x["op"].endswith("=") and x["op"] not in ("==", "<=", ">=", "!="):
                lhs(x["l"])
            elif k == "Method":
                r = x["recv"]
                if r["k"] == "Path" and len(r["path"]) == 1:
                    names.add(r["path"][0]["id"])
            elif k == "Ref" and x["mut"]:
                lhs(x["e"])
        cells = []
        for nm in names:
            c = env.find(nm) if env is not None else None
            if c is not None and not any(c is d for d in cells):
                cells.append(c)
        return cells

    def state(self, things, env):
        """objects whose floats a loop may change: cells of floats, vectors, sequences in structs"""
        out = []
        for t in things:
            if isinstance(t, Vecx):
                out.append(t)
            elif isinstance(t, Clo):
                for c in self.mutated(t.node["b"], t.env):
                    out.append(c)
            elif isinstance(t, (list, tuple)):
                out += list(t)
        res = []
        for c in out:
            if isinstance(c, Vecx):
                x = c
            else:
                v = self.val(c)
                if isinstance(v, Vecx):
                    x = v
                elif isinstance(v, F):
                    x = c
                elif isinstance(v, St):
                    for f in v.f.values():
                        w = self.val(f)
                        if isinstance(w, (Seq, Vecx, F)):
                            y = w if isinstance(w, Vecx) else f
                            if not any(y is z for z in res):
                                res.append(y)
                    continue
                elif isinstance(v, (Seq,)):
                    x = c
                elif isinstance(v, (Opaque, It, Fn, Clo, int, bool, Len, type(None), tuple)) or v is None:
                    continue
                else:
                    raise Undecided("loop modifies a " + type(v).__name__)
            if not any(x is z for z in res):
                res.append(x)
        return res

    def total(self, st):
        t = ZERO
        for x in st:
            if isinstance(x, Vecx):
                t = t + x.W
            else:
                v = self.val(x)
                t = t + (v.V if isinstance(v, (F, Seq)) else ZERO)
        return t

    def havoc(self, st, total=None):
        """arbitrary values (of the given total); the first vector, else the last float, absorbs"""
        absorb = next((x for x in st if isinstance(x, Vecx)), None)
        if absorb is None and st:
            absorb = st[-1]
        s = ZERO
        for x in st:
            if x is absorb and total is not None:
                continue
            V = self.fresh("h")
            s = s + V
            self.put(x, V)
        if total is not None and absorb is not None:
            self.put(absorb, total - s)

    def put(self, x, V):
        if isinstance(x, Vecx):
            x.W, x.ne, x.items = V, True if x.ne is True else None, None
        else:
            v = self.val(x)
            while isinstance(x.v, (Ref, Cell)):
                x = x.v
            if isinstance(v, F):
                x.v = F(V)
            else:
                q = Seq(V, None, None)
                x.v = q

    def stage(self, x, stages, k):
        """items produced from element x, passed to k"""
        for i, s in enumerate(stages):
            m = s[0]
            if m == "map":
                x = self.call(s[1], [x])
            elif m in ("filter_map",):
                r = self.val(self.call(s[1], [x]))
                if r.v == "None":
                    return
                x = r.p[0]
            elif m == "filter":
                if not self.truth(self.call(s[1], [x])):
                    return
            elif m in ("flat_map", "flatten"):
                if m == "flat_map":
                    x = self.call(s[1], [x])
                w = self.seqof(x)
                if isinstance(w, En):
                    ys = [w.p[0]] if w.v == "Some" else []
                    for y in ys:
                        self.stage(y, stages[i + 1:], k)
                    return
                if isinstance(w, Vecx):
                    if w.items is None:
                        raise Undecided("flatten of vectors of unknown length")
                    for V in w.items:
                        self.stage(F(V), stages[i + 1:], k)
                    return
                for y in self.items(w):
                    self.stage(y, stages[i + 1:], k)
                return
            elif m == "enumerate":
                x = (Opaque("int"), x)
            elif m in ("mut", "suffix"):
                pass
        k(x)

    def loop(self, n, it, body, things, env):
        """for an iterator over a sequence of unknown length"""
        src = it.src
        things = list(things) + [s[1] for s in it.stages if len(s) > 1]
        if isinstance(src, Vecx):
            if not any(s[0] == "mut" for s in it.stages):
                src = Seq(src.W, src.ne)
        st = self.state(things, env)
        inplace = isinstance(src, Vecx)
        part = any(s[0] == "suffix" for s in it.stages)
        if not inplace and src.ne is False:
            return
        if inplace:
            st = [x for x in st if x is not src]
        key = (n["sp"][0], n["sp"][1], self.loopdepth)
        nm = f"loop at byte {n['sp'][0]}"
        start = self.count
        if self.choose(2) == 0:
            # an arbitrary iteration
            self.facts = list(self.facts)
            self.havoc(st)
            flags = [(x, x.zf) for x in st if isinstance(x, Vecx)]
            b0 = [self.total([x]) for x in st]
            full = {i for i, (x, z) in enumerate(flags) if x.ne is True}
            plain = {i for i, x in enumerate(st) if not isinstance(x, Vecx) and type(self.val(x)) is F}
            e = self.fresh("e")
            ea = list(e.t)[0][0]
            self.loopdepth += 1
            cell = None
            if inplace:
                cell = Cell(F(e))
                self.stage(Ref(lambda: cell.v, lambda v: self.setcell(cell, v)), it.stages, body)
            else:
                self.stage(F(e), it.stages, body)
            b1 = [self.total([x]) for x in st]
            for i, x in enumerate(st):
                if isinstance(x, Vecx) or not (b1[i] - b0[i]).iszero() or i not in plain:
                    self.touched[key, i] = True
            ok = False
            for drop in ([self.excl[key]] if key in self.excl else self.subsets(st)):
                d = ZERO
                for i in range(len(st)):
                    if i not in drop:
                        d = d + b1[i] - b0[i]
                if inplace:
                    d = d + self.asF(cell).V - e
                c = self.coef.get(key)
                if c is None:
                    c = Poly({tuple(x for x in m if x != ea) if m.count(ea) == 1 else m: q for m, q in d.t.items() if ea in m})
                if part:
                    c = ZERO
                ok = not self.later(c, start) and self.reduce(d - c * e).iszero()
                want = f"({self.sp.show(c)}) times the element"
                if ok:
                    self.excl[key] = drop
                    self.coef[key] = c
                    break
            self.record(nm, ok, f"one iteration changes the sum of the carried values and outputs by {self.sp.show(d)}, expected {want}")
            for i, (x, z) in enumerate(flags):
                if z and x.zf is False:
                    self.zbad[key, i] = True
                if i in full and x.ne is not True:
                    raise Undecided(nm + ": a vector may become empty")
            raise Infeasible()
        drop = self.excl.get(key)
        if drop is None:
            raise Undecided(nm + ": no invariant found")
        keep = [x for i, x in enumerate(st) if i not in drop and (key, i) in self.touched]
        st = [x for i, x in enumerate(st) if (key, i) in self.touched]
        if inplace:
            # the vector's components absorb the change; carried floats get arbitrary values
            tot = self.total(keep) + src.W + self.coef[key] * src.W
            self.havoc(st)
            src.W, src.zf, src.items = tot - self.total(keep), None, None
            return
        c = self.coef[key]
        if src.ne is None and not self.nonempty(src):
            return
        before = self.total(keep)
        vs = [x for x in st if isinstance(x, Vecx)]
        for i, x in enumerate(vs):
            if self.zbad.get((key, i)):
                x.zf = False
        self.havoc([x for x in st if not any(x is y for y in keep)])
        self.havoc(keep, before + c * src.V)

    def subsets(self, st):
        """sets of carried floats left out of the invariant (overwritten before they are read)"""
        import itertools
        fl = [i for i, x in enumerate(st) if not isinstance(x, Vecx)]
        for k in range(len(fl) + 1):
            for c in itertools.combinations(fl, k):
                yield c

    def for_exp(self, n, pl, w, env, fr):
        raise Undecided("loop over an expansion")

    def e_For(self, n, env, fr):
        try:
            v = self.ev(n["e"], env, fr)
        except Undecided:
            raise
        w = self.seqof(v)
        if isinstance(w, (Seq, Vecx)):
            mut = isinstance(w, Vecx) and n["e"]["k"] == "Ref" and n["e"]["mut"]
            w = It(w, (("mut",),) if mut or isinstance(w, Vecx) and (w.mref or isinstance(v, Ref)) else ())
        cells = lambda: self.mutated(n["b"], env)
        if isinstance(w, It):
            def body(x):
                e2 = Env(env)
                self.bind(n["p"], x, e2, fr)
                self.ev(n["b"], e2, fr)
            self.loop(n, w, body, [cells()], env)
            return ()
        if isinstance(w, St) and (w.name, "next") in self.ix.meth:
            # user-written iterator: while let Some(x) = it.next() { body }
            f = self.ix.meth[(w.name, "next")]
            st = self.state([cells(), list(w.f.values())], env)
            nm = f"loop at byte {n['sp'][0]}"
            before = self.total(st)
            ch = self.choose(2)
            self.havoc(st, before)
            flags = [(x, x.zf) for x in st if isinstance(x, Vecx)]
            full = {i for i, (x, z) in enumerate(flags) if x.ne is True}
            r = self.val(self.call_fn(f, [w], None, w.name))
            if ch == 0:
                if r.v == "None":
                    raise Infeasible()
                e2 = Env(env)
                self.bind(n["p"], r.p[0], e2, fr)
                self.ev(n["b"], e2, fr)
                d = self.reduce(self.total(st) - before)
                self.record(nm, d.iszero(), f"one iteration changes the sum of remaining elements, carried values and outputs by {self.sp.show(d)}")
                for i, (x, z) in enumerate(flags):
                    if z and x.zf is False:
                        self.zbad[nm, i] = True
                    if i in full and x.ne is not True:
                        raise Undecided(nm + ": a vector may become empty")
                raise Infeasible()
            for i, (x, z) in enumerate(flags):
                if self.zbad.get((nm, i)):
                    x.zf = False
            if r.v != "None":
                raise Infeasible()
            return ()
        # concrete
        for x in self.items(w):
            e2 = Env(env)
            self.bind(n["p"], x, e2, fr)
            try:
                self.ev(n["b"], e2, fr)
            except BreakEx as e:
                break
            except ContinueEx as e:
                continue
        return ()

    def reduce_(self, it, f, n):
        """items g(e) with value c*e, combined by an operation that adds values"""
        if any(s[0] not in ("map",) for s in it.stages):
            raise Undecided("reduce over a filtered sequence")
        nm = f"reduce at byte {n['sp'][0]}"
        src = it.src
        key = (n["sp"][0], "reduce", src.V.key() if isinstance(src, Seq) else src.W.key())
        start = self.count
        ch = self.choose(3)
        if ch == 0:
            e = self.fresh("e")
            out = []
            self.stage(F(e), it.stages, out.append)
            V = self.tovec(out[0]).W
            ea = list(e.t)[0][0]
            c = Poly({tuple(x for x in m if x != ea) if m.count(ea) == 1 else m: k for m, k in V.t.items() if ea in m})
            if self.coef.setdefault(key, c).key() != c.key():
                self.record(nm + " (item)", False, "the value of an item is not a fixed multiple of the element")
            r = self.reduce(V - c * e)
            self.record(nm + " (item)", r.iszero() and not self.later(c, start), f"item has value {self.sp.show(V)}")
            raise Infeasible()
        if ch == 1:
            a, b = Vecx(self.fresh("a"), True, True), Vecx(self.fresh("b"), True, True)
            r = self.tovec(self.call(f, [a, b]))
            d = self.reduce(r.W - a.W - b.W)
            self.record(nm + " (step)", d.iszero(), f"combining two values is off by {self.sp.show(d)}")
            raise Infeasible()
        if not self.nonempty(src):
            return NONE()
        c = self.coef.get(key)
        if c is None:
            raise Undecided(nm)
        return SOME(Vecx(c * src.V, True, True))


# --- contracts ----------------------------------------------------------------------------------
def k_two_sum(it, a, t):
    x, y = it.asF(a[0]).V, it.asF(a[1]).V
    r = it.fresh("r")
    it.mag.append(("fl", r, x + y))
    return (F(r), F(x + y - r))


def k_two_diff(it, a, t):
    x, y = it.asF(a[0]).V, it.asF(a[1]).V
    r = it.fresh("r")
    it.mag.append(("fl", r, x - y))
    return (F(r), F(x - y - r))


def k_two_product(it, a, t):
    x, y = it.asF(a[0]).V, it.asF(a[1]).V
    r = it.fresh("r")
    it.mag.append(("fl", r, x * y))
    return (F(r), F(x * y - r))


def k_pre_split(it, a, t):
    h, l = it.asF(a[2]).V, it.asF(a[3]).V
    if getattr(it, "splits", {}).get((h.key(), l.key())) != it.asF(a[1]).V.key():
        raise Pre("two_product_pre_split: the last two arguments are not the split of the second")
    return k_two_product(it, a[:2], t)


def k_split(it, a, t):
    v = it.asF(a[0]).V
    h = it.fresh("hi")
    if not hasattr(it, "splits"):
        it.splits = {}
    it.splits[(h.key(), (v - h).key())] = v.key()
    return (F(h), F(v - h))


def term(it, P, names):
    ts = []
    for m, c in sorted(P.t.items()):
        v = "m" + "_".join(map(str, m)) if m else None
        if v:
            names.add(v)
        k = f"{abs(c.numerator)}.0" if c.denominator == 1 else f"(/ {abs(c.numerator)}.0 {c.denominator}.0)"
        k = f"(- {k})" if c < 0 else k
        ts.append(k if v is None else f"(* {k} {v})")
    return "0.0" if not ts else ts[0] if len(ts) == 1 else f"(+ {' '.join(ts)})"


UU = Fr(1, 2 ** 53)


def magnitude(it, big, small):
    """|big| >= |small| from the path's facts (linear over monomials)"""
    names = set()
    ab = lambda t: f"(ite (>= {t} 0.0) {t} (- {t}))"
    ax = []
    for f in it.mag:
        if f[0] == "<=":
            ax.append(f"(<= {ab(term(it, f[1], names))} {ab(term(it, f[2], names))})")
        elif f[0] == "fl":
            r, e = term(it, f[1], names), term(it, f[2], names)
            ax.append(f"(<= {ab(f'(- {r} {e})')} (* (/ 1.0 {2 ** 53}.0) {ab(e)}))")
        elif f[0] == "small":
            ax.append(f"(<= {ab(term(it, f[1], names))} (* {f[3]} {ab(term(it, f[2], names))}))")
    for rel, P, _ in it.facts:
        if rel in (">", ">=", "<", "<=", "=="):
            ax.append(f"({'=' if rel == '==' else rel} {term(it, P, names)} 0.0)")
        elif rel == "!=":
            ax.append(f"(not (= {term(it, P, names)} 0.0))")
    g = f"(not (<= {ab(term(it, small, names))} {ab(term(it, big, names))}))"
    decl = [f"(declare-const {v} Real)" for v in sorted(names)]
    return Z(30).run(decl + [f"(assert {x})" for x in ax], [[g]])[0]


def k_fast(assumed):
    def f(it, a, t):
        x, y = it.asF(a[0]).V, it.asF(a[1]).V
        if not assumed:
            r = magnitude(it, x, y)
            it.record("fast_two_sum: the first argument is not smaller in magnitude", r == "unsat",
                      f"|{it.sp.show(x)}| >= |{it.sp.show(y)}| is not implied ({r})")
        return k_two_sum(it, a, t)
    return f


KK = {"two_sum": k_two_sum, "two_diff": k_two_diff, "two_product": k_two_product, "two_product_pre_split": k_pre_split, "split": k_split}


def k_fes(it, a, t):
    x, y = it.tovec(a[0]), it.tovec(a[1])
    return Vecx(x.W + y.W, True, True)


def k_scale(it, a, t):
    return Vecx(it.tovec(a[0]).W * it.asF(a[1]).V, True, True)


class Ex:
    def __init__(self, contracts, extra=()):
        self.ix = FnIndex([PRED, EREL])
        for tr, im, f in extra:
            pass
        self.sp = Space()
        self.it = ExInterp(self.ix, self.sp)
        self.it.contracts = contracts

    def seq(self, n, ne=True):
        return Seq(self.it.fresh(n), ne)

    def num(self, n):
        return F(self.it.fresh(n))


def verify(R, E, name, call, spec):
    """spec(result) -> [(text, ok)]"""
    it = E.it
    it.checks, it.coef, it.excl, it.zbad, it.touched = {}, {}, {}, {}, {}
    n = 0
    try:
        for k, r, facts in it.paths(call):
            n += 1
            it.facts = facts
            if k != "ret":
                R.add(f"{name}: path {n}", ("failed", f"{k}: {r}"))
                continue
            for t, ok in spec(r):
                R.add(f"{name}: path {n}: {t}", None if ok else ("failed", t + " does not hold"))
    except Undecided as e:
        R.add(name, ("undecided", str(e)))
    for nm, (ok, t) in it.checks.items():
        R.add(f"{name}: {nm}", None if ok else ("failed", t))
    if n == 0:
        R.add(name, ("undecided", "no path returns"))
    R.detail[name] = f"{n} paths, {len(it.checks)} loop obligations"
    R.functions |= set(it.inlined)


def one(ix, name, rel=PRED):
    fns = [f for f in ix.free.get(name, []) if f.rel == rel]
    if len(fns) != 1:
        raise Undecided(f"anchor lost: function {name}")
    return fns[0]


def u_expansion(R):
    R.assumptions = {"the contracts of two_sum, two_diff, fast_two_sum, two_product, two_product_pre_split and square proved by Coq (unit eft)",
                     "fast_two_sum inside scale_expansion_zeroelim is given operands in order of magnitude when its input is a nonoverlapping expansion (Shewchuk 1997, theorem 19)",
                     "results of the zero-eliminating operations are nonoverlapping and increasing when the operands are (Shewchuk 1997, theorems 13 and 19); bounded check only",
                     "Iterator adapters (map, filter_map, flatten, enumerate, skip, reduce, for_each), Vec::extend/push have their documented meaning"}
    R.backend = "symbolic VC generation from the AST; loop invariants over sums of components; exact polynomial identities; z3 for magnitudes"
    AL = Opaque("alloc")

    def block(name, args, want, fast=None, pre=None):
        c = dict(KK)
        c["fast_two_sum"] = k_fast(False)
        E = Ex(c)
        fn = one(E.ix, name)
        box = {}

        def call():
            box["a"] = [E.num(x) for x in args]
            if pre:
                pre(E, box["a"])
            return E.it.call_fn(fn, list(box["a"]))

        def spec(r):
            s = ZERO
            for x in E.it.val(r):
                s = s + E.it.asF(x).V
            w = want(*[x.V for x in box["a"]])
            return [("components sum to the exact result", E.it.reduce(s - w).iszero())]
        verify(R, E, name, call, spec)

    def pair(i, j):
        def f(E, a):
            # (hi, lo) is a rounded result and its error
            E.it.mag.append(("small", a[j].V, a[i].V, "(/ 1.0 %d.0)" % 2 ** 53))
        return f

    def pair_times(E, a):
        E.it.mag.append(("small", a[1].V * a[2].V, a[0].V * a[2].V, "(/ 1.0 %d.0)" % 2 ** 53))
    block("two_one_sum", ["a1", "a0", "b"], lambda a1, a0, b: a1 + a0 + b)
    block("two_one_diff", ["a1", "a0", "b"], lambda a1, a0, b: a1 + a0 - b)
    block("two_two_sum", ["a1", "a0", "b1", "b0"], lambda a1, a0, b1, b0: a1 + a0 + b1 + b0)
    block("two_two_diff", ["a1", "a0", "b1", "b0"], lambda a1, a0, b1, b0: a1 + a0 - b1 - b0)
    block("two_one_product", ["a1", "a0", "b"], lambda a1, a0, b: (a1 + a0) * b, pre=pair_times)

    def loops(name, mk, want, contracts, zf=True, ne=True, rel=PRED, inplace=None):
        c = dict(KK)
        c["fast_two_sum"] = k_fast(name == "scale_expansion_zeroelim")
        c.update(contracts)
        c = {k: v for k, v in c.items() if k != name}
        E = Ex(c)
        fn = one(E.ix, name, rel)
        box = {}

        def call():
            box["a"] = mk(E)
            box["v"] = [x.V if isinstance(x, (F, Seq)) else getattr(x, "W", None) for x in box["a"]]
            return E.it.call_fn(fn, [x for x in box["a"]] if inplace is None else [inplace(E, box)])

        def spec(r):
            it = E.it
            w = want(*box["v"])
            if inplace is not None:
                return [("value is the exact result", it.reduce(box["out"]() - w).iszero())]
            v = it.tovec(r)
            o = [("value is the exact result", it.reduce(v.W - w).iszero())]
            if ne:
                o.append(("the result is not empty", it.nonempty(v)))
            if zf:
                o.append(("no component is zero unless it is the only one", v.zf is True))
            return o
        verify(R, E, name, call, spec)
    FES = {"fast_expansion_sum_zeroelim": k_fes}
    loops("fast_expansion_sum_zeroelim", lambda E: [E.seq("e"), E.seq("f"), AL], lambda e, f, _: e + f, {})
    loops("fast_expansion_diff_zeroelim", lambda E: [E.seq("e"), E.seq("f"), AL], lambda e, f, _: e - f, FES)
    loops("scale_expansion_zeroelim", lambda E: [E.seq("e"), E.num("b"), AL], lambda e, b, _: e * b, {})
    loops("mul_expansion_zeroelim", lambda E: [E.seq("e"), E.seq("f"), AL], lambda e, f, _: e * f, {**FES, "scale_expansion_zeroelim": k_scale})
    loops("grow_expansion", lambda E: [E.seq("e", None), E.num("b"), AL], lambda e, b, _: e + b, {}, zf=False)
    loops("grow_expansion_zeroelim", lambda E: [E.seq("e", None), E.num("b"), AL], lambda e, b, _: e + b, {}, ne=False)
    loops("expansion_sum", lambda E: [E.seq("e", None), E.seq("f"), AL], lambda e, f, _: e + f, {}, zf=False)

    def inv(E, box):
        v = Vecx(box["a"][0].V, True, True)
        box["out"] = lambda: v.W
        v.mref = True
        return v
    loops("expansion_invert", lambda E: [E.seq("e")], lambda e: -e, {}, inplace=inv)
    E = Ex({})
    fn = E.ix.meth.get(("ExpansionNum", "neg"))
    box = {}

    def neg():
        box["v"] = v = Vecx(E.seq("e").V, True, True)
        box["w"] = v.W
        v.mref = True
        return E.it.call_fn(fn, [v], None, "ExpansionNum")
    if fn is None:
        R.add("neg", ("undecided", "anchor lost: ExpansionNum::neg"))
    else:
        verify(R, E, "ExpansionNum::neg", neg, lambda r: [("the value is negated", E.it.reduce(box["v"].W + box["w"]).iszero())])
    operators(R, FES)
    probe(R)


def operators(R, FES):
    """the operators on ExpansionNum, from the file's own macros"""
    want = {"Add": ("add", lambda a, b: a + b), "Sub": ("sub", lambda a, b: a - b), "Mul": ("mul", lambda a, b: a * b)}
    c = dict(FES)
    c["fast_expansion_diff_zeroelim"] = lambda it, a, t: Vecx(it.tovec(a[0]).W - it.tovec(a[1]).W, True, True)
    c["mul_expansion_zeroelim"] = lambda it, a, t: Vecx(it.tovec(a[0]).W * it.tovec(a[1]).W, True, True)
    n = 0
    src, items = rsyn.load(EREL)
    for im in list(rsyn.items_flat(items)) + list(rsyn.expand_items(EREL)):
        if im.get("k") != "Impl" or not im.get("trait") or rsyn.path_last(im["trait"]) not in want:
            continue
        tr = rsyn.path_last(im["trait"])
        fn, w = want[tr]
        for f in im["items"]:
            if f.get("k") == "Fn" and f["name"] == fn:
                E = Ex(c)
                n += 1
                box = {}

                def call():
                    box["a"] = [Vecx(E.seq(x).V, True, True) for x in "ab"]
                    box["v"] = [x.W for x in box["a"]]
                    return E.it.call_fn(Fn(f, EREL, im), list(box["a"]), None, "ExpansionNum")
                verify(R, E, f"{tr} for ExpansionNum #{n}", call, lambda r: [("value is the exact result", E.it.reduce(E.it.tovec(r).W - w(*box["v"])).iszero())])
    if n < 12:
        R.add("operators", ("undecided", f"{n} operator implementations found, 12 expected"))


def probe(R):
    """a wrong specification must be refused"""
    for text, w in (("the sum loses its last component", lambda e, b: e), ("the sum is doubled", lambda e, b: e + e + b)):
        E = Ex(dict(KK))
        fn = one(E.ix, "grow_expansion")
        box = {}

        def call():
            box["a"] = [E.seq("e", None), E.num("b")]
            return E.it.call_fn(fn, box["a"] + [Opaque("alloc")])
        S = Result("probe")
        verify(S, E, "grow_expansion", call, lambda r: [("value", E.it.reduce(E.it.tovec(r).W - w(box["a"][0].V, box["a"][1].V)).iszero())])
        R.probe(bool(S.failed))
