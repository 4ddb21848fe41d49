"""Contracts of the refinement of a grid: points on a fine lattice of mesh width h."""
from .steps import *
from ..containers import PDict, If
from .grids import scope, leaves


class Fine:
    """Points number i at (A(i) h, B(i) h) with integers A(i), B(i); the mean edge length is None or in (0, 2h]."""

    def __init__(self, V, mean=True):
        self.V = V
        self.h = V.real("h")
        self.m, self.me = V.int("m", "me")
        V.requires(tm.lt(tm.rconst(Fraction(1, 10 ** 15)), self.h), tm.le(1, self.m), tm.le(0, self.me))
        self.i = tm.var("%t", tm.I)
        self.mean = V.real("mean") if mean else None
        if mean:
            V.requires(tm.lt(0, self.mean), tm.le(self.mean, 2 * self.h))
        else:
            V.requires(tm.eq(self.me, 0))

    def A(self, i):
        return tm.app("A", [tm.lift(i)], tm.I)

    def B(self, i):
        return tm.app("B", [tm.lift(i)], tm.I)

    def u(self, j):
        return tm.app("eu", [tm.lift(j)], tm.I)

    def v(self, j):
        return tm.app("ev", [tm.lift(j)], tm.I)

    def at(self, a, b):
        return Vec(tm.toreal(a) * self.h, tm.toreal(b) * self.h)

    def all(self, n, f):
        """f(i) for all 0 <= i < n"""
        return tm.forall((self.i,), tm.implies(tm.and_(tm.le(0, self.i), tm.lt(self.i, n)), f(self.i)))

    def points(self, m):
        return (For(self.i, m, [Item(self.at(self.A(self.i), self.B(self.i)))]),)

    def vertices(self, m):
        return (For(self.i, m, [Item(self.i)]),)

    def edges(self, me):
        return (For(self.i, me, [Item((C.pyint(self.u(self.i)), C.pyint(self.v(self.i))))]),)

    def side(self, p, q):
        """the points p and q are the ends of a side of a fine triangle"""
        x, y = tm.sub(self.A(q), self.A(p)), tm.sub(self.B(q), self.B(p))
        return tm.or_(*[tm.and_(tm.eq(x, s * a), tm.eq(y, s * b)) for s in (1, -1) for a, b in ((1, 0), (0, 1), (1, 1))])

    def range(self, i, n):
        return tm.and_(tm.le(0, i), tm.lt(i, n))

    def grid(self):
        """a grid object with these points and edges"""
        D = mod("domain")
        bd = lambda: call(D.Boundary, [lst([]), lst([])])
        g = call(D.Grid, [PList(self.vertices(self.m)), lst([]), lst([]), bd(), bd(), bd(), PList(self.points(self.m))])
        interp.setattr_(g, "edges", PList(self.edges(self.me)))
        interp.setattr_(g, "_mean_edge_length", self.mean)
        return g


def point_to_vertex(mean):
    def fn(V):
        w = Fine(V, mean)
        a, b = V.int("a", "b")
        V.cover("grid and point")
        g = w.grid()

        def ens(r):
            if r is None:
                j = V.int("other")
                V.requires(tm.le(0, j), tm.lt(j, w.m), tm.eq(w.A(j), a), tm.eq(w.B(j), b))
                for f in list(V.c.facts):
                    # (the search passed over number j)
                    if f.op == "forall" and len(f.args) == 2 and f.args[0].sort == tm.I:
                        V.requires(tm.subst(f.args[1], {f.args[0]: j}))
                V.oblige("a point of the grid is found", False)
                return
            r = tm.lift(r)
            V.oblige("the index is one of a point", tm.and_(tm.le(0, r), tm.lt(r, w.m)))
            V.oblige("that point is at the given place", tm.and_(tm.eq(w.A(r), a), tm.eq(w.B(r), b)))
        V.returns("lookup", lambda: call(getattr_(g, "point_to_vertex"), [w.at(a, b)]), ens)
    return fn


def append_edge(mean, present):
    def fn(V):
        w = Fine(V, mean)
        p, q = V.int("p", "q")
        V.requires(w.range(p, w.m), w.range(q, w.m), w.side(p, q))
        V.requires(w.all(w.me, lambda j: tm.and_(w.range(w.u(j), w.m), w.range(w.v(j), w.m))))
        if mean:
            V.requires(tm.le(1, w.me))
        if present:
            j = V.int("j")
            V.requires(w.range(j, w.me), tm.or_(*[tm.and_(tm.eq(w.u(j), a), tm.eq(w.v(j), b)) for a, b in ((p, q), (q, p))]))
        else:
            for a, b in ((p, q), (q, p)):
                V.requires(w.all(w.me, lambda j: tm.not_(tm.and_(tm.eq(w.u(j), a), tm.eq(w.v(j), b)))))
        V.cover("grid and edge")

        def th():
            g = w.grid()
            old = {n: getattr_(g, n) for n in ("vertices", "points", "triangles", "edges")}
            old = {n: (v, v.nodes) for n, v in old.items()}
            call(getattr_(g, "append_edge"), [(C.pyint(p), C.pyint(q))])
            return g, old

        def ens(r):
            g, old = r
            for n in ("vertices", "points", "triangles"):
                V.oblige(f"{n} unchanged", getattr_(g, n) is old[n][0] and getattr_(g, n).nodes is old[n][1])
            es, before = getattr_(g, "edges").nodes, old["edges"][1]
            if present:
                V.oblige("an edge already listed is not added", len(es) == len(before) and all(a is b for a, b in zip(es, before)))
            else:
                ok = len(es) == len(before) + 1 and all(a is b for a, b in zip(es, before)) and isinstance(es[-1], Item)
                V.oblige("a new edge is added", ok and tm.boolterm(C.disj([C.eqv(tuple(es[-1].v), (p, q)), C.eqv(tuple(es[-1].v), (q, p))])))
            mu = getattr_(g, "_mean_edge_length")
            if present and not mean:
                return
            # the scale of the tolerance used to recognise points stays that of the fine cells
            with scope():
                if not present:
                    x, y = tm.toreal(tm.sub(w.A(q), w.A(p))), tm.toreal(tm.sub(w.B(q), w.B(p)))
                    L = num(call(getattr_(call(mod("tensors").Vector, [lst([x * w.h, y * w.h])]), "norm"), []))
                    for f in (tm.lt(0, L), tm.le(L, 2 * w.h)):
                        V.oblige("lemma: length of a side", f)
                        V.requires(f)
                mu = num(mu)
                V.oblige("mean edge length positive", tm.lt(0, mu))
                V.oblige("mean edge length below two cells", tm.le(mu, 2 * w.h))
        V.returns("append", th, ens)
    return fn


class Part:
    """an arbitrary part of the coarse boundary and the fine one under construction"""

    def __init__(self, V, name):
        D = mod("domain")
        self.V, self.name = V, name
        self.n, self.nv, self.fe, self.fv = V.int(*[name + x for x in ("n", "nv", "fe", "fv")])
        V.requires(*[tm.le(0, x) for x in (self.n, self.nv, self.fe, self.fv)])
        k = self.k = tm.var("%t", tm.I)
        f = lambda x: C.pyint(tm.app(name + x, [k], tm.I))
        seq = lambda n, v: PList([For(k, n, [Item(v)])])
        self.coarse = call(D.Boundary, [seq(self.nv, f("v")), seq(self.n, (f("e0"), f("e1")))])
        self.fine = call(D.Boundary, [seq(self.fv, f("old v")), seq(self.fe, (f("old e0"), f("old e1")))])
        self.before = self.state()

    def state(self):
        g = lambda b: (getattr_(b, "vertices").nodes, getattr_(b, "edges").nodes)
        return g(self.coarse), g(self.fine)

    def has(self, e):
        """the edge is in the coarse part"""
        return tm.boolterm(C.member(tuple(e), C.nodes_of(getattr_(self.coarse, "edges"))))


def appended(V, what, new, old):
    """nodes appended to a collection; None when it was changed otherwise"""
    ok = len(new) >= len(old) and all(a is b for a, b in zip(new, old))
    V.oblige(f"{what}: earlier elements kept", ok)
    return new[len(old):] if ok else None


def line(V, what, edges, verts, n, ev):
    """the appended edges are exactly (ev(k), ev(k+1)), k < n, the appended vertices exactly ev(k), 0 < k < n"""
    if edges is None or verts is None:
        return
    k = V.int("piece")
    es, vs = PList(edges), PList(verts)
    V.oblige(f"{what}: number of edges", tm.eq(tm.lift(interp.call(len, [es])), n))
    V.oblige(f"{what}: number of vertices", tm.eq(tm.lift(interp.call(len, [vs])), tm.sub(n, 1)))
    with scope():
        V.requires(tm.le(0, k), tm.lt(k, n))
        V.oblige(f"{what}: every piece is an edge", C.disj([C.member((ev(k), ev(tm.add(k, 1))), edges), C.member((ev(tm.add(k, 1)), ev(k)), edges)]))
    with scope():
        V.requires(tm.le(1, k), tm.lt(k, n))
        V.oblige(f"{what}: every inner point is a vertex", C.member(ev(k), verts))


def boundary_edge(V):
    P = Part(V, "part")
    r = V.int("r")
    V.requires(tm.le(1, r))
    k = tm.var("%t", tm.I)
    ev = lambda i: tm.app("point", [tm.lift(i)], tm.I)
    e = V.int("e0", "e1")
    V.c.injective.add("point")
    V.cover("edge and part")
    f = mod("domain")._refine_boundary_edge

    def th():
        call(f, [tuple(map(C.pyint, e)), PList([For(k, tm.add(r, 1), [Item(C.pyint(ev(k)))])]), P.coarse, P.fine])
        return P.state()

    def ens(st):
        V.oblige("coarse part unchanged", all(a is b for a, b in zip(st[0], P.before[0])))
        verts, edges = [appended(V, n, x, y) for n, x, y in zip(("vertices", "edges"), st[1], P.before[1])]
        if V.c.entails(P.has(e)):
            line(V, "edge of the part", edges, verts, r, ev)
        else:
            V.oblige("only edges of the part are refined", tm.or_(P.has(e), not edges and not verts))
    V.returns("boundary edge", th, ens)


def cases():
    return [Case("point_to_vertex, mean edge length", point_to_vertex(True)), Case("point_to_vertex, first triangle", point_to_vertex(False))] + [
        Case(f"append_edge, {'listed' if p else 'new'} edge{'' if m else ', first edge'}", append_edge(m, p), budget=100)
        for m, p in ((True, True), (True, False), (False, False))] + [Case("_refine_boundary_edge", boundary_edge, budget=100)]
