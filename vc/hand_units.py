"""Handles of tetrahedra (P18): contracts on the handle moves, bonding and face crossing.

The functions are executed from the AST for every handle number (the domain is finite and is
enumerated completely) with symbolic tetrahedra and vertices: a tetrahedron or vertex index is an
opaque name on which no arithmetic is possible, so each run stands for all meshes."""
from s_units import *
from interp import *

REL = "src/triangle/tetrahedron.rs"


class Tok:
    """index of an arbitrary element; different tokens of a run denote different elements"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class TMap:
    """vector indexed by tokens"""
    __slots__ = ("d", "name")

    def __init__(self, d, name="vector"):
        self.d, self.name = d, name


def deep(v):
    if isinstance(v, Cell):
        return Cell(deep(v.v))
    if isinstance(v, Arr):
        return Arr([deep(x) for x in v.a])
    if isinstance(v, St):
        return St(v.name, {k: deep(c) for k, c in v.f.items()})
    return v


class HInterp(Interp):
    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Tok) or isinstance(b, Tok):
            if op in ("==", "!="):
                return (a is b) == (op == "==")
            raise Undecided("order of opaque indices")
        return super().compare(op, a, b)

    def arith(self, op, a, b):
        if isinstance(self.val(a), Tok) or isinstance(self.val(b), Tok):
            raise Undecided("arithmetic on opaque indices")
        r = super().arith(op, a, b)
        if isinstance(r, int) and not isinstance(r, bool) and not 0 <= r < 2 ** 64:
            raise Panic("usize overflow")
        return r

    def path_const(self, path, fr):
        if path[-1]["id"] == "INVALID_IND":
            return Tok("INVALID")
        return super().path_const(path, fr)

    def slot(self, b, i):
        if isinstance(b, TMap):
            if not any(i is k for k in b.d):
                raise Undecided(f"access to {b.name}[{i}] outside the contract")
            return b.d[i]
        if not 0 <= i < len(b.a):
            raise Panic(f"index {i} out of bounds {len(b.a)}")
        return b.a[i]

    def e_Index(self, n, env, fr):
        b, i = self.val(self.ev(n["e"], env, fr)), self.val(self.ev(n["i"], env, fr))
        if isinstance(b, TMap) or isinstance(b, Arr) and isinstance(i, int):
            return self.slot(b, i)
        return super().e_Index(n, env, fr)

    def place(self, n, env, fr):
        if n["k"] == "Index":
            b, i = self.val(self.ev(n["e"], env, fr)), self.val(self.ev(n["i"], env, fr))
            if isinstance(b, TMap):
                self.slot(b, i)
                return Ref(lambda: b.d[i], lambda v: b.d.__setitem__(i, v))
        if n["k"] in ("Field", "Index"):
            return super().place(n, env, fr)
        return super().place(n, env, fr)

    def method(self, m, rv, args, n, env, fr, recv):
        v = self.val(rv)
        if m == "clone" and isinstance(v, (St, Arr)):
            return deep(v)
        if isinstance(v, Arr) and m == "len":
            return len(v.a)
        if isinstance(v, Arr) and m == "push":
            v.a.append(self.val(args[0]))
            return ()
        return super().method(m, rv, args, n, env, fr, recv)


def even(p):
    return sum(p[j] > p[i] for i in range(len(p)) for j in range(i)) % 2 == 0


class Hand:
    def __init__(self, R):
        self.ix = FnIndex([REL])
        self.it = HInterp(self.ix, Space())
        self.it.contracts = {}
        self.R = R

    def fn(self, ty, name):
        f = self.ix.meth.get((ty, name)) if ty else next((g for g in self.ix.free.get(name, []) if g.rel == REL), None)
        if f is None:
            raise Undecided(f"anchor lost: {name}")
        return f

    def call(self, ty, name, args):
        """the single path of a function"""
        rs = list(self.it.paths(lambda: self.it.call_fn(self.fn(ty, name), args, None, ty)))
        if len(rs) != 1:
            raise Undecided(f"{name}: {len(rs)} paths")
        k, r, _ = rs[0]
        if k != "ret":
            raise Panic(f"{name}: {r}")
        return self.it.val(r)

    def face(self, t, v):
        return St("TriFace", {"tet": Cell(t), "ver": Cell(v)})

    def tet(self, data, nei=None):
        nei = nei or [(Tok("other"), 11)] * 4
        return St("Tet", {"data": Cell(Arr(list(data))), "nei": Cell(Arr([self.face(*x) for x in nei])), "mask": Cell(0)})

    def mesh(self, tets):
        return St("TetMesh", {"points": Cell(Opaque("points")), "n_points": Cell(Tok("n_points")), "tets": Cell(TMap(tets, "tets")), "p2t": Cell(TMap({}, "p2t"))})

    def get(self, f):
        f = self.it.val(f)
        return self.it.val(f.f["tet"]), self.it.val(f.f["ver"])

    def names(self, m, f):
        return tuple(self.call("TetMesh", k, [m, f]) for k in ("org", "dest", "apex", "oppo"))


def attempt(R, name, f):
    try:
        bad = f()
        R.add(name, None if not bad else ("failed", bad))
    except Undecided as e:
        R.add(name, ("undecided", str(e)))
    except Panic as e:
        R.add(name, ("failed", f"may panic: {e}"))


MOVES = {"enext": (1, 2, 0, 3), "eprev": (2, 0, 1, 3), "esym": (1, 0, 3, 2), "enext_esym": (2, 1, 3, 0), "eprev_esym": (0, 2, 3, 1)}


def u_handles(R):
    R.backend = "symbolic execution of the AST over the complete finite domain of handles, opaque tetrahedra and vertices"
    R.assumptions = {"array and Vec indexing have their documented meaning; usize arithmetic in the table builders is evaluated exactly"}
    H = Hand(R)
    vs = [Tok(x) for x in "abcd"]
    T = Tok("t")
    m = H.mesh({T: H.tet(vs)})
    try:
        table = [H.names(m, H.face(T, v)) for v in range(12)]
    except Undecided as e:
        R.add("org, dest, apex, oppo", ("undecided", str(e)))
        return
    except Panic as e:
        R.add("org, dest, apex, oppo", ("failed", str(e)))
        return
    R.functions |= set(H.it.inlined)
    pos = [tuple(next((i for i in range(4) if x is vs[i]), None) for x in q) for q in table]
    for v in range(12):
        p = pos[v]
        R.add(f"handle {v}: origin, destination, apex and opposite are the four vertices", None if sorted(p) == [0, 1, 2, 3] else ("failed", str(table[v])))
        R.add(f"handle {v}: even permutation of handle 0", None if even(p) == even(pos[0]) else ("failed", f"{p} against {pos[0]}"))
        R.add(f"handle {v}: face number is the vertex left out", None if p[3] == v & 3 else ("failed", str(p)))
        R.add(f"handle {v}: no other handle names the same edge and face", None if all(pos[w] != p for w in range(12) if w != v) else ("failed", str(p)))
    by = {p: v for v, p in enumerate(pos)}

    def moved(p, k):
        return by.get(tuple(p[i] for i in MOVES[k]))
    for v in range(12):
        for k in MOVES:
            want = moved(pos[v], k)

            def meth():
                f = H.face(T, v)
                H.call("TriFace", k + "_self", [f])
                t, w = H.get(f)
                return None if t is T and w == want else f"{k}_self of handle {v} {table[v]} is handle {w} of {t}, expected handle {want}"

            def free():
                f, g = H.face(T, v), H.face(Tok("x"), 3)
                H.call(None, k, [f, g])
                t, w = H.get(g)
                if H.get(f) != (T, v):
                    return f"{k} changes its first argument"
                return None if t is T and w == want else f"{k} of handle {v} {table[v]} is handle {w} of {t}, expected handle {want}"
            attempt(R, f"{k}_self on handle {v}", meth)
            attempt(R, f"{k} on handle {v}", free)
    # bonding: two different tetrahedra (and one with itself), all pairs of handles
    for same in (False, True):
        for v in range(12):
            for w in range(12):
                if same and v & 3 == w & 3:
                    continue
                t1 = Tok("t1")
                t2 = t1 if same else Tok("t2")
                old = [[(Tok(f"n{i}{j}"), (5 * i + 3 * j) % 12) for j in range(4)] for i in range(2)]
                d = {t1: H.tet([Tok(f"u{i}") for i in range(4)], old[0])}
                if not same:
                    d[t2] = H.tet([Tok(f"w{i}") for i in range(4)], old[1])
                m = H.mesh(d)

                def bond():
                    H.call("TetMesh", "bond", [m, H.face(t1, v), H.face(t2, w)])
                    # frame: only the two records change
                    for i, t in enumerate([t1] if same else [t1, t2]):
                        for j in range(4):
                            if not (t is t1 and j == v & 3) and not (t is t2 and j == w & 3):
                                if H.get(H.it.val(d[t].f["nei"]).a[j]) != old[i][j]:
                                    return f"bond of handles {v} and {w} changes the record of face {j} of {t}"
                    # crossing from every handle of the two faces, both ways
                    for (ta, a, tb, b) in ((t1, v, t2, w), (t2, w, t1, v)):
                        for k in (None, "enext", "eprev"):
                            x = a if k is None else moved(pos[a], k)
                            y = b if k is None else moved(pos[b], {"enext": "eprev", "eprev": "enext"}[k])
                            g = H.face(Tok("x"), 3)
                            H.call("TetMesh", "fsym", [m, H.face(ta, x), g])
                            if H.get(g) != (tb, y):
                                return f"after bonding handles {v} and {w}, fsym of handle {x} is {H.get(g)}, expected handle {y} of {tb}"
                            g = H.face(ta, x)
                            H.call("TetMesh", "fsym_self", [m, g])
                            if H.get(g) != (tb, y):
                                return f"after bonding handles {v} and {w}, fsym_self of handle {x} is {H.get(g)}, expected handle {y} of {tb}"
                            # turning around the edge of the handle whose symmetric one lies on the face
                            z = moved(pos[x], "esym")
                            g = H.face(ta, z)
                            H.call("TetMesh", "fnext_self", [m, g])
                            if H.get(g) != (tb, y):
                                return f"after bonding handles {v} and {w}, fnext_self of handle {z} is {H.get(g)}, expected handle {y} of {tb}"
                    return None
                attempt(R, f"bond, fsym, fnext: handles {v} and {w}" + (" of one tetrahedron" if same else ""), bond)
    for v in range(4):
        def vp():
            c = H.it.val(H.it.constant(Frame(REL, "VPIVOT"), "VPIVOT"))
            if c is None:
                raise Undecided("anchor lost: VPIVOT")
            x = H.it.val(c.a[v])
            return None if 0 <= x < 12 and pos[x][0] == v else f"VPIVOT[{v}] = {x} does not start at vertex {v}"
        attempt(R, f"VPIVOT[{v}]", vp)
    first(R, H, pos, by)
    R.functions |= set(H.it.inlined)
    # a wrong specification is refused
    R.probe(moved(pos[0], "enext") != moved(pos[0], "eprev"))


def first(R, H, pos, by):
    """initial_delaunay: five tetrahedra, every face glued to the one with the same vertices, reversed"""
    p = [Tok(x) for x in ("pa", "pb", "pc", "pd")]
    gh = Tok("n_points")
    m = St("TetMesh", {"points": Cell(Opaque("points")), "n_points": Cell(gh), "tets": Cell(Arr([])), "p2t": Cell(TMap({t: Tok("INVALID") for t in p + [gh]}, "p2t"))})

    def run():
        f = H.call(None, "initial_delaunay", [m] + p)
        ts = H.it.val(m.f["tets"]).a
        if len(ts) != 5:
            return f"{len(ts)} tetrahedra"
        data = [[H.it.val(x) for x in H.it.val(t.f["data"]).a] for t in ts]
        nm = lambda t, v: tuple(data[t][i] for i in pos[v])
        inner = [t for t in range(5) if gh not in data[t]]
        if len(inner) != 1 or sorted(map(id, data[inner[0]])) != sorted(map(id, p)):
            return "not exactly one tetrahedron on the four points"
        if H.get(f)[0] != inner[0]:
            return "the returned handle is not on the tetrahedron of the four points"
        perm = [p.index(x) for x in data[inner[0]]]
        if not even(perm):
            return "the first tetrahedron has the opposite orientation"
        if any(t != inner[0] and data[t][3] is not gh for t in range(5)):
            return "a ghost tetrahedron does not have the ghost vertex last"
        for t in range(5):
            for v in range(12):
                g = H.face(t, v)
                H.call("TetMesh", "fsym_self", [m, g])
                t2, w = H.get(g)
                if not isinstance(t2, int) or not 0 <= t2 < 5 or not 0 <= w < 12:
                    return f"face {v & 3} of tetrahedron {t} has no neighbour"
                a, b = nm(t, v), nm(t2, w)
                if t2 == t or a[0] is not b[1] or a[1] is not b[0] or a[2] is not b[2]:
                    return f"handle {v} {a} of tetrahedron {t} is glued to {b} of tetrahedron {t2}"
        q = H.it.val(m.f["p2t"])
        for x in p + [gh]:
            t = H.it.val(q.d[x])
            if not isinstance(t, int) or x not in data[t] or (x is not gh and gh in data[t]):
                return f"p2t[{x}] = {t} is not a proper tetrahedron of it"
        return None
    attempt(R, "initial_delaunay: closed complex of five tetrahedra", run)
