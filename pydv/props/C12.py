"""RefinedGrid.to_coarse_barycentric_point and to_coarse_edge_point."""
from .steps import *
from ..containers import PDict

EXPLANATION = ("The two maps are executed on a refined grid with any number of triangles and edges whose tables satisfy the data-structure invariant "
               "(each listed triangle and each edge has a coarse partner and the coarse coordinates of its corners denote the corners); the result is "
               "proved to denote the same Cartesian point for all coordinates and parameters and every rotation of the triangle, and anything else "
               "is proved to be rejected.  That refinement establishes the invariant is proved for _refine_equilateral_triangle: any factor, either "
               "kind of coarse triangle, any state of the fine grid; every fine triangle and every piece of a coarse edge gets an entry and the entry "
               "denotes its corners.")
ASSUMPTIONS = ["that each coarse triangle is refined once, and the points of the pieces (C11)"]
SEEDS = 24
SECONDS = 60


class Fine:
    def __init__(self, V):
        self.V = V
        D = mod("domain")
        self.N, self.M, self.E, self.L, self.CN, self.CM, self.CE = V.int("N", "M", "E", "L", "CN", "CM", "CE")
        V.requires(*[tm.le(1, x) for x in (self.N, self.M, self.E, self.L, self.CN, self.CM, self.CE)])
        self.k = k = tm.var("%t", tm.I)
        I = lambda name, n, hi: self.ranged(name, n, hi)
        seq = lambda n, v: PList([For(k, n, [Item(v)])])
        R = lambda name: tm.app(name, [k])
        at = lambda f, ix: tm.subst(f, {k: ix})
        bd = call(D.Boundary, [lst([]), lst([])])
        # coarse grid
        ct = tuple(I(f"ct{j}", self.CM, self.CN) for j in range(3))
        ce = tuple(I(f"ce{j}", self.CE, self.CN) for j in range(2))
        self.ct, self.ce = ct, ce
        self.coarse = call(D.Grid, [seq(self.CN, k), seq(self.CE, ce), seq(self.CM, ct), bd, bd, bd, seq(self.CN, Vec(R("cx"), R("cy")))])
        # fine grid
        self.t = tuple(I(f"t{j}", self.M, self.N) for j in range(3))
        self.e = tuple(I(f"e{j}", self.E, self.N) for j in range(2))
        # edges on coarse edges: keys of the edge table
        self.le = tuple(I(f"le{j}", self.L, self.N) for j in range(2))
        # tables: functions of their keys
        self.q = [[(lambda key, n=f"q{a}{j}": tm.app(n, list(key))) for j in (1, 2)] for a in range(3)]
        self.s = [(lambda key, n=f"s{a}": tm.app(n, list(key))) for a in (0, 1)]
        self.par = lambda key: self.below("parent", key, self.CM)
        self.epar = lambda key: self.below("eparent", key, self.CE)
        par, epar = self.par(self.t), self.epar(self.le)
        q = [bary(f(self.t), g(self.t)) for f, g in self.q]
        s = tuple(f(self.le) for f in self.s)
        ptri, pedge = tuple(at(c, par) for c in ct), tuple(at(c, epar) for c in ce)
        dic = lambda n, key, v: PDict([For(k, n, [Item((key, v))])])
        self.grid = interp.construct(D.RefinedGrid, [
            seq(self.N, k), seq(self.E, self.e), seq(self.M, self.t), bd, bd, bd, seq(self.N, Vec(R("fx"), R("fy"))), self.coarse,
            dic(self.M, self.t, ptri), dic(self.M, self.t, tuple(q)), dic(self.L, self.le, pedge), dic(self.L, self.le, s)], {})
        V.cover("refined grid")

    def ranged(self, name, n, hi):
        f = tm.app(name, [self.k], tm.I)
        self.V.requires(tm.forall((self.k,), tm.implies(tm.and_(tm.le(0, self.k), tm.lt(self.k, n)), tm.and_(tm.le(0, f), tm.lt(f, hi)))))
        return f

    def below(self, name, key, n):
        """an index below n depending on the key"""
        f = tm.app(name, list(key), tm.I)
        count, k = (self.M, self.k) if len(key) == 3 else (self.L, self.k)
        if key is self.t or key is self.le:
            self.V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, count)), tm.and_(tm.le(0, f), tm.lt(f, n)))))
        return f

    def invariant(self, key, X, F, a):
        """difference between the point denoted by the table and corner a of the triangle `key`"""
        p = [tm.app(X, [tm.subst(c, {self.k: self.par(key)})]) for c in self.ct]
        l1, l2 = (f(key) for f in self.q[a])
        return l1 * p[0] + l2 * p[1] + (1 - l1 - l2) * p[2] - tm.app(F, [key[a]])

    def einvariant(self, key, X, F, a):
        g, h = [tm.app(X, [tm.subst(c, {self.k: self.epar(key)})]) for c in self.ce]
        s = self.s[a](key)
        return s * g + (1 - s) * h - tm.app(F, [key[a]])

    def rekey(self, terms, names, key):
        """replace the entry the answer was read from by the equal one of `key`: the answer in terms of `key`, or None"""
        V, m = self.V, {}
        for u in tm.subterms([tm.lift(x) for x in terms]):
            if u.op == "app" and u.args[0] in names:
                old = u.args[1:]
                if not V.c.entails(tm.and_(*[tm.eq(x, tm.lift(y)) for x, y in zip(old, key)])):
                    return None
                m[u] = tm.app(u.args[0], [tm.lift(y) for y in key], u.sort)
        if not m:
            return None
        out = []
        for x in terms:
            x = tm.lift(x)
            for u, v in m.items():
                x = tm.replace(x, u, v)
            out.append(x)
        return out

    def denotes(self, what, key_of, names, terms, point, want):
        """point(terms) == want(axis), given the invariant of the table entry that was read"""
        V = self.V
        for key, facts in key_of:
            r = self.rekey(terms, names, key)
            if r is not None:
                break
        else:
            V.oblige(f"{what}: is read from the entry of this key", False)
            return
        for X, F in (("cx", "fx"), ("cy", "fy")):
            # `facts` are the invariant's differences, all zero: the claim is that this combination of them is the error
            V.oblige(f"{what}: same {F[1]} coordinate", tm.eq(tm.sub(point(r, X), want(F)), sum((c * f for c, f in facts(X, F)), ZERO)))


def triangles(rot):
    def fn(V):
        w = Fine(V)
        m = V.int("m")
        V.requires(tm.le(0, m), tm.lt(m, w.M))
        l1, l2 = V.real("l1", "l2")
        tri = tuple(tm.subst(f, {w.k: m}) for f in w.t)
        tri = tuple(C.pyint(tri[(i + rot) % 3]) for i in range(3))
        pt = lambda: interp.construct(mod("domain").BarycentricPoint, [tri, bary(l1, l2)], {})
        V.cover("a point of a triangle")

        def ens(r):
            T, c = getattr_(r, "triangle"), getattr_(r, "coordinates")
            T = tuple(tm.lift(x) for x in T)
            V.oblige("a triangle of the coarse grid", C.member(T, C.nodes_of(getattr_(w.coarse, "triangles"))))
            q = [num(getattr_(c, n)) for n in ("l1", "l2", "l3")]
            V.oblige("coordinates sum to one", tm.eq(q[0] + q[1] + q[2], 1))
            l = (l1, l2, 1 - l1 - l2)
            keys = []
            for o in range(3):
                key = tuple(tm.lift(tri[(i + o) % 3]) for i in range(3))
                lk = tuple(l[(i + o) % 3] for i in range(3))
                # the invariant says invariant(key, ..) == 0 for every listed key
                keys.append((key, lambda X, F, key=key, lk=lk: [(lk[a], w.invariant(key, X, F, a)) for a in range(3)]))
            w.denotes("point", keys, {"parent", "q01", "q02", "q11", "q12", "q21", "q22"}, list(T) + q,
                      lambda r, X: sum((a * tm.app(X, [i]) for a, i in zip(r[3:], r[:3])), ZERO),
                      lambda F: sum((a * tm.app(F, [i]) for a, i in zip(l, tri)), ZERO))
        V.returns("coarse point", lambda: call(getattr_(w.grid, "to_coarse_barycentric_point"), [pt()]), ens)
    return fn


def edges(V):
    w = Fine(V)
    m, t = V.int("m"), V.real("t")
    V.requires(tm.le(0, m), tm.lt(m, w.L))
    e = tuple(C.pyint(tm.subst(f, {w.k: m})) for f in w.le)
    V.cover("an edge on a coarse edge")

    def ens(r):
        ce, s = interp.unpack(r, 2)
        ce, s = tuple(tm.lift(x) for x in ce), num(s)
        V.oblige("an edge of the coarse grid", C.member(ce, C.nodes_of(getattr_(w.coarse, "edges"))))
        key = tuple(tm.lift(x) for x in e)
        w.denotes("edge point", [(key, lambda X, F: [(t, w.einvariant(key, X, F, 0)), (1 - t, w.einvariant(key, X, F, 1))])],
                  {"eparent", "s0", "s1"}, list(ce) + [s], lambda r, X: r[2] * tm.app(X, [r[0]]) + (1 - r[2]) * tm.app(X, [r[1]]),
                  lambda F: t * tm.app(F, [e[0]]) + (1 - t) * tm.app(F, [e[1]]))
    V.returns("coarse edge point", lambda: call(getattr_(w.grid, "to_coarse_edge_point"), [e, t]), ens)


def rejected_triangle(V):
    w = Fine(V)
    a = V.int("a", "b", "c")
    l1, l2 = V.real("l1", "l2")
    for r in range(3):
        V.requires(tm.not_(tm.boolterm(C.member(tuple(a[(i + r) % 3] for i in range(3)), C.nodes_of(getattr_(w.grid, "triangles"))))))
    V.cover("a triangle not in the grid")
    V.raises("point of a triangle not in the grid", lambda: call(getattr_(w.grid, "to_coarse_barycentric_point"),
             [interp.construct(mod("domain").BarycentricPoint, [tuple(map(C.pyint, a)), bary(l1, l2)], {})]), ValueError)


def rejected_edge(V):
    w = Fine(V)
    a, t = V.int("a", "b"), V.real("t")
    V.requires(tm.not_(tm.boolterm(C.member(tuple(a), (For(w.k, w.L, [Item(w.le)]),)))))
    V.cover("an edge on no coarse edge")
    V.raises("edge on no coarse edge", lambda: call(getattr_(w.grid, "to_coarse_edge_point"), [tuple(map(C.pyint, a)), t]), ValueError)


def cases():
    from . import refine2
    return refine2.triangles(refine2.check_tables, ", tables") + [Case(f"points of triangles, rotation {r}", triangles(r), budget=200) for r in range(3)] + [
        Case("points of edges", edges, budget=200), Case("unknown triangles", rejected_triangle, budget=200), Case("unknown edges", rejected_edge, budget=200)]


# ---------------------------------------------------------------- real refined grids
def gen(rng, tier):
    for _ in range(4):
        yield {"nx": rng.randint(1, 3), "ny": rng.randint(1, 3), "r": rng.choice([1, 2, 3, 4]), "s": rng.choice([1.0, 0.5, 3.0]) * zoom(rng),
               "seed": rng.randint(0, 10 ** 6), "flip": rng.choice([0, rng.randint(1, 10 ** 6)]), "fix": rng.choice([None, "left", ["upper", "right"]])}


def real(case):
    D = mod("domain")
    d = D.RectangleDomain(case["s"] * (case["nx"] + 0.01), case["s"] * (case["ny"] + 0.01), case["fix"])
    g = d.grid(case["s"])
    if case.get("flip"):
        from .C11r import flipped
        g = flipped(D, g, case["flip"])
    return d, g, d.refine(g, case["r"])


def run(case):
    import random
    D, Tn = mod("domain"), mod("tensors")
    rng = random.Random(case["seed"])
    d, g, f = real(case)
    tol = 1e-8 * case["s"]
    P = lambda G, t, l: [sum(a * G.points[i][k] for a, i in zip(l, t)) for k in (0, 1)]
    off = lambda a, b: max(abs(x - y) for x, y in zip(a, b)) > tol
    if f.coarse() is not g:
        return "coarse() is another grid"
    ls = []
    for _ in range(3):
        a, b = sorted((rng.random(), rng.random()))
        ls.append((a, b - a, 1 - b))
    for t in f.triangles + f.triangles[:2]:
        for rot, l in [(rot, l) for l in rng.sample(ls, 2) for rot in range(3)]:
            T = tuple(t[(i + rot) % 3] for i in range(3))
            r = f.to_coarse_barycentric_point(D.BarycentricPoint(T, Tn.BarycentricCoordinates(l[0], l[1])))
            if r.triangle not in g.triangles:
                return f"{T} is mapped to {r.triangle}, which is no coarse triangle"
            q = (r.coordinates.l1, r.coordinates.l2, r.coordinates.l3)
            if off(P(g, r.triangle, q), P(f, T, l)):
                return f"point {l} of {T} at {P(f, T, l)} is mapped to {P(g, r.triangle, q)}"
    s, h = case["s"], case["s"] / case["r"]
    n = 0
    tt = rng.random()
    for e in f.edges + f.edges[:3]:
        m = [(f.points[e[0]][k] + f.points[e[1]][k]) / 2 for k in (0, 1)]
        near = lambda x: abs(x / s - round(x / s)) < 1e-6
        diag = all(abs(f.points[e[0]][k] - f.points[e[1]][k]) > h / 2 for k in (0, 1))
        horiz = abs(f.points[e[0]][1] - f.points[e[1]][1]) < h / 2
        lies = near(m[0] - m[1]) if diag else near(m[1]) if horiz else near(m[0])
        if not lies:
            try:
                f.to_coarse_edge_point(e, 0.5)
                return f"edge {e} lies on no coarse edge but was accepted"
            except ValueError:
                continue
        n += 1
        t = rng.choice((tt, 1 - tt, rng.random()))
        try:
            ce, ct = f.to_coarse_edge_point(e, t)
        except ValueError:
            return f"edge {e} lies on a coarse edge but was rejected"
        if ce not in g.edges:
            return f"{e} is mapped to {ce}, which is no coarse edge"
        try:
            re_, rt = f.to_coarse_edge_point(e[::-1], t)
            if off(P(g, re_, (rt, 1 - rt)), P(f, e, (1 - t, t))):
                return f"parameter {t} of edge {e[::-1]} is mapped to another point"
        except ValueError:
            pass
        if off(P(g, ce, (ct, 1 - ct)), P(f, e, (t, 1 - t))):
            return f"parameter {t} of edge {e} is mapped to another point"
    for bad, fn in (((0, 0, 0), lambda: f.to_coarse_barycentric_point(D.BarycentricPoint((0, 0, 0), Tn.BarycentricCoordinates(0.2, 0.3)))),
                    ("reversed", lambda: f.to_coarse_barycentric_point(D.BarycentricPoint(f.triangles[0][::-1], Tn.BarycentricCoordinates(0.2, 0.3)))),
                    ((-1, 7), lambda: f.to_coarse_edge_point((10 ** 6, 7), 0.5))):
        try:
            fn()
            return f"{bad} was accepted"
        except ValueError:
            pass
    return by_hand(D, Tn, g, f, rng, P, off)


def by_hand(D, Tn, g, f, rng, P, off):
    """the same points and triangles with other tables: edges in either direction, corners listed from any vertex"""
    import numpy as np
    p = [[q[0], q[1]] for q in f.points]
    c = [[q[0], q[1]] for q in g.points]

    def bary_of(T, x):
        return [float(v) for v in np.linalg.solve(np.array([[c[i][0] for i in T], [c[i][1] for i in T], [1, 1, 1]]), np.array([x[0], x[1], 1.0]))]

    tris, tt, tc = [], {}, {}
    for t in f.triangles:
        o = rng.randrange(3)
        t = tuple(t[(i + o) % 3] for i in range(3))
        m = [sum(p[i][k] for i in t) / 3 for k in (0, 1)]
        T = next((T for T in g.triangles if min(bary_of(T, m)) > 1e-9), None)
        if T is None:
            return None
        tris.append(t)
        tt[t] = T
        tc[t] = tuple(Tn.BarycentricCoordinates(*[round(v, 12) for v in bary_of(T, p[i])[:2]]) for i in t)
    es, et, ec = [], {}, {}
    for i, j in f.edges:
        if rng.random() < 0.5:
            i, j = j, i
        es.append((i, j))
        for a, b in g.edges:
            d = [c[a][k] - c[b][k] for k in (0, 1)]
            n = d[0] ** 2 + d[1] ** 2
            s = [sum((p[v][k] - c[b][k]) * d[k] for k in (0, 1)) / n for v in (i, j)]
            if all(-1e-9 < x < 1 + 1e-9 and not off([c[b][k] + x * d[k] for k in (0, 1)], p[v]) for x, v in zip(s, (i, j))):
                et[i, j], ec[i, j] = (a, b), tuple(s)
                break
    try:
        h = D.RefinedGrid(f.vertices, es, tris, f.boundary, f.dirichlet_boundary, f.neumann_boundary, f.points, g, tt, tc, et, ec)
    except TypeError:
        return None
    for t in tris:
        for o in range(3):
            T = tuple(t[(i + o) % 3] for i in range(3))
            l = (0.5, 0.2, 0.3)
            r = h.to_coarse_barycentric_point(D.BarycentricPoint(T, Tn.BarycentricCoordinates(l[0], l[1])))
            if off(P(g, r.triangle, (r.coordinates.l1, r.coordinates.l2, r.coordinates.l3)), P(f, T, l)):
                return f"tables {tt[t]}, {tc[t]}: point {l} of {T} is mapped to another point"
    for e in et:
        ce, ct = h.to_coarse_edge_point(e, 0.3)
        if off(P(g, ce, (ct, 1 - ct)), P(f, e, (0.3, 0.7))):
            return f"tables {et[e]}, {ec[e]}: parameter 0.3 of edge {e} is mapped to another point"
