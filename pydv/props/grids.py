"""Shared by the grid contracts: symbolic rectangle grids, generic elements of the produced collections."""
from __future__ import annotations
from contextlib import contextmanager
from .. import terms as tm, interp, containers as C
from ..terms import T
from ..containers import Item, For, If, Rem, PList, eqv, member, conj, disj
from ..lib import *
from ..engine import ctx

SIDES = ("lower", "right", "upper", "left")


class G:
    """a rectangle of symbolic size with nx columns and ny rows of grid vertices (nx, ny >= 2)"""

    def __init__(self, V):
        self.V = V
        self.w, self.h, self.s = V.real("width", "height", "scale")
        self.nx, self.ny = V.int("nx", "ny")
        V.requires(tm.lt(0, self.w), tm.lt(0, self.h), tm.lt(0, self.s), tm.le(2, self.nx), tm.le(2, self.ny))
        V.oblige("lemma: nx*ny >= 0", tm.le(0, self.nx * self.ny))
        V.requires(tm.le(0, self.nx * self.ny))
        V.radix(self.nx)
        # nx - 1 and ny - 1 cells of side `scale` fit into the rectangle
        V.name_floor(self.w / self.s, self.nx - 1)
        V.name_floor(self.h / self.s, self.ny - 1)
        V.cover("rectangle of at least one cell")

    def domain(self, fix=None):
        if isinstance(fix, (list, tuple)):
            fix = lst(fix)
        return call(mod("domain").RectangleDomain, [self.w, self.h, fix])

    def earlier(self):
        """some other scale, to build another grid of the same domain first"""
        V = self.V
        s0 = V.real("scale0")
        mx, my = V.int("mx", "my")
        V.requires(tm.lt(0, s0), tm.le(2, mx), tm.le(2, my))
        V.oblige("lemma: mx*my >= 0", tm.le(0, mx * my))
        V.requires(tm.le(0, mx * my))
        V.radix(mx)
        V.name_floor(self.w / s0, mx - 1)
        V.name_floor(self.h / s0, my - 1)
        return s0

    def second_grid(self, fix=None):
        """a grid of a domain that produced another one before"""
        s0, d = self.earlier(), self.domain(fix)
        interp.call(getattr_(d, "grid"), [s0])
        return call(getattr_(d, "grid"), [self.s])

    def v(self, i, j):
        return tm.add(tm.mul(j, self.nx), i)

    def decode(self, v):
        """(column, row) of a vertex; 0 <= column < nx and v == row*nx + column by construction"""
        c = ctx()
        v = tm.lift(v)
        rc = c.lattice.split(v, self.nx)
        if rc is not None:
            return rc[1], rc[0]
        q, r = c.fresh_var("row", tm.I), c.fresh_var("col", tm.I)
        c.define(tm.le(0, r)); c.define(tm.lt(r, self.nx))
        c.define(tm.eq(v, self.v(r, q)))
        return r, q

    def inside(self, x, y):
        """lattice point of the grid (0 <= x < nx holds for decoded columns)"""
        return tm.and_(tm.le(0, x), tm.lt(x, self.nx), tm.le(0, y), tm.lt(y, self.ny))


def leaves(nodes):
    """[(binders, guards, value)]"""
    out = []

    def rec(ns, bs, gs):
        for nd in ns:
            if isinstance(nd, Item):
                out.append((bs, gs, nd.v))
            elif isinstance(nd, If):
                rec(nd.nodes, bs, gs + [(len(bs), nd.c)])
            elif isinstance(nd, For):
                rec(nd.nodes, bs + [(nd.k, nd.n)], gs)
            else:
                raise tm.Unsupported("collection with removed elements")
    rec(C.listed(nodes), [], [])
    return out


def instantiate(g, leaf, tag=""):
    """assume the ranges and guards of a generic element; returns (value, index variables)"""
    bs, gs, v = leaf
    c = ctx()
    m, ix = {}, []
    for d, (k, n) in enumerate(bs):
        n = tm.lift(C.inst(n, m))
        n = C.simp_count(n) if n.op != "const" else n
        # an index running over all vertices is split into row and column
        x = c.fresh_var("ix" + tag, tm.I)
        from ..lattice import ipoly
        p = ipoly(n)
        if len(p) == 1 and list(p.values()) == [1] and g.nx.id in next(iter(p)) and len(next(iter(p))) == 2:
            y = c.fresh_var("iy" + tag, tm.I)
            c.assume(tm.and_(tm.le(0, x), tm.lt(x, g.nx), tm.le(0, y), tm.lt(tm.mul(y, g.nx), n)))
            other = [i for i in next(iter(p)) if i != g.nx.id] or [g.nx.id]
            from ..lattice import ATOMS
            c.assume(tm.lt(y, ATOMS[other[0]]))
            m[k] = g.v(x, y)
            ix += [x, y]
        else:
            c.assume(tm.and_(tm.le(0, x), tm.lt(x, n)))
            m[k] = x
            ix.append(x)
        for dd, cond in gs:
            if dd == d + 1:
                c.assume(c.lattice.simp(tm.subst(cond, m)))
    for dd, cond in gs:
        if dd == 0:
            c.assume(cond)
    return C.inst(v, m), ix


@contextmanager
def scope():
    c = ctx()
    m = c.mark()
    try:
        yield
    finally:
        c.cut(m)


def each(V, g, nodes, fn):
    """fn(value, number) for a generic element of every part of the collection"""
    from ..engine import Abandon
    for i, leaf in enumerate(leaves(nodes)):
        with scope():
            try:
                v, ix = instantiate(g, leaf)
            except Abandon:
                continue
            fn(v, i)


def distinct(V, g, label, nodes, same):
    """no two different positions hold elements with same(a, b)"""
    from ..engine import Abandon
    ls = leaves(nodes)
    for a in range(len(ls)):
        for b in range(a, len(ls)):
            with scope():
                try:
                    x, ix = instantiate(g, ls[a], "a")
                    y, iy = instantiate(g, ls[b], "b")
                except Abandon:
                    continue
                e = tm.boolterm(same(x, y))
                if a == b:
                    goal = tm.or_(tm.not_(e), tm.and_(*[tm.eq(p, q) for p, q in zip(ix, iy)]))
                else:
                    goal = tm.not_(e)
                V.oblige(f"{label}: parts {a} and {b} share no element", goal)


def nodes(v):
    if isinstance(v, C.PSet):
        return v.elements()
    return C.nodes_of(v)


def edge_eq(e, f):
    """the same edge, in either orientation"""
    return disj([eqv(e, f), eqv((e[1], e[0]), f)])


def member_edge(e, ns):
    return disj([member(e, ns), member((e[1], e[0]), ns)])


def triangle_eq(t, u):
    return disj([eqv(t, u), eqv((t[1], t[2], t[0]), u), eqv((t[2], t[0], t[1]), u)])


def pt(points, v):
    p = points.index(v)
    return entry(p, 0), entry(p, 1)


# ------------------------------------------------------------------ concrete grids
def lattice(w, h, s):
    nx, ny = int(w / s) + 1, int(h / s) + 1
    return nx, ny


def side_vertices(nx, ny, side):
    return {"lower": {i for i in range(nx)}, "upper": {(ny - 1) * nx + i for i in range(nx)},
            "left": {j * nx for j in range(ny)}, "right": {j * nx + nx - 1 for j in range(ny)}}[side]


def side_edges(nx, ny, side):
    return {frozenset(e) for e in
            {"lower": [(i, i + 1) for i in range(nx - 1)], "upper": [((ny - 1) * nx + i, (ny - 1) * nx + i + 1) for i in range(nx - 1)],
             "left": [(j * nx, (j + 1) * nx) for j in range(ny - 1)],
             "right": [(j * nx + nx - 1, (j + 1) * nx + nx - 1) for j in range(ny - 1)]}[side]}
