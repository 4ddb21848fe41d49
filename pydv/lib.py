"""Symbolic inputs and specification helpers shared by the contracts."""
from __future__ import annotations
import random
from fractions import Fraction
from . import terms as tm, interp, containers as C
from .terms import T
from .engine import ctx, MISSING
from .containers import PList, For, Item

call = interp.call
getattr_ = interp.getattr_


def mod(name):
    import importlib
    return importlib.import_module("tvemoves_rufbad." + name)


def lst(vals):
    return PList.of(list(vals))


def symlist(name, *dims, sort=tm.R):
    """nested list of uninterpreted values name(i, j, ...) of symbolic length"""
    def rec(idx, ds):
        if not ds:
            return tm.app(name, idx, sort)
        if isinstance(ds[0], int):
            return PList.of([rec(idx + [tm.const(j)], ds[1:]) for j in range(ds[0])])
        k = tm.var(f"%{name}{len(idx)}", tm.I)
        return PList([For(k, ds[0], [Item(rec(idx + [k], ds[1:]))])])
    return rec([], list(dims))


def Vec(*vals):
    return call(mod("tensors").Vector, [lst(vals)])


def Mat(rows):
    return call(mod("tensors").Matrix, [lst(lst(r) for r in rows)])


def Ten(ms):
    return call(mod("tensors").Tensor3D, [lst(lst(lst(r) for r in m) for m in ms)])


def bary(l1, l2):
    return call(mod("tensors").BarycentricCoordinates, [l1, l2])


def data(v):
    """entries of a Vector / Matrix / Tensor / list of concrete shape as nested python lists, via its public data"""
    if isinstance(v, PList):
        return [data(x) for x in v.vals()]
    if isinstance(v, (list, tuple)):
        return [data(x) for x in v]
    if C.is_repo_instance(v):
        d = getattr_(v, "data", MISSING)
        if d is not MISSING:
            return data(d)
    return v


def entry(v, *idx):
    """v[i] / v[i, j] through the object's own indexing"""
    return interp.subscript(v, idx[0] if len(idx) == 1 else tuple(idx))


class Tri:
    """a generic nondegenerate triangle (either orientation), as real parameters"""

    def __init__(self, V, tag=""):
        n = lambda s: s + tag
        self.x1, self.y1, self.b2, self.c2, self.b3, self.c3 = V.real(*[n(s) for s in ("x1", "y1", "b2", "c2", "b3", "c3")])
        self.b1, self.c1 = tm.neg(tm.add(self.b2, self.b3)), tm.neg(tm.add(self.c2, self.c3))
        self.p1 = (self.x1, self.y1)
        self.p2 = (self.x1 + self.c3, self.y1 - self.b3)
        self.p3 = (self.x1 - self.c2, self.y1 + self.b2)
        # twice the signed area: (p2-p1) x (p3-p1)
        self.A2 = self.c3 * self.b2 - self.b3 * self.c2
        self.pts = (self.p1, self.p2, self.p3)
        self.norms = [self.b1 * self.b1 + self.c1 * self.c1, self.b2 * self.b2 + self.c2 * self.c2,
                      self.b3 * self.b3 + self.c3 * self.c3]
        V.requires(tm.not_(tm.eq(self.A2, 0)))
        V.known_nonzero(self.A2)
        # lemma: a nondegenerate triangle has no side of length zero (each b_i^2 + c_i^2 > 0)
        for i, q in enumerate(self.norms):
            V.oblige(f"lemma: side {i + 1} of a nondegenerate triangle has positive length", tm.lt(0, q))
            V.requires(tm.lt(0, q))
            V.known_nonzero(q)
        V.cover("nondegenerate triangle")

    def vertices(self):
        return tuple(Vec(*p) for p in self.pts)

    def point(self, l1, l2):
        l3 = 1 - l1 - l2
        return tuple(l1 * a + l2 * b + l3 * c for a, b, c in zip(*self.pts))


# ---------------------------------------------------------------- polynomials as specifications
def monos(deg):
    return [(a, d - a) for d in range(deg + 1) for a in range(d, -1, -1)]


def poly_eval(coefs, x, y, dx=0, dy=0):
    """value of d^dx/dx d^dy/dy of sum coefs[a,b] x^a y^b"""
    r = 0
    for (a, b), c in coefs.items():
        if a < dx or b < dy:
            continue
        f = 1
        for i in range(dx):
            f *= a - i
        for i in range(dy):
            f *= b - i
        r = r + c * f * _p(x, a - dx) * _p(y, b - dy)
    return r


def _p(x, n):
    if n == 0:
        return 1
    return tm.power(x, n) if isinstance(x, T) else x ** n


ORD6 = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]


# ---------------------------------------------------------------- concrete side
def R(rng, lo=-3, hi=3, den=16):
    return rng.randint(lo * den, hi * den) / den


def zoom(rng):
    """a power of two by which a body is made smaller or larger: the same numbers, other units"""
    return rng.choice([1, 1, 1, 2.0 ** -rng.randint(8, 30), 2.0 ** rng.randint(4, 12)])


def rtri(rng, lo=-2, hi=2):
    while True:
        p = [[R(rng, lo, hi), R(rng, lo, hi)] for _ in range(3)]
        a2 = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
        e = max(((p[i][0] - p[j][0]) ** 2 + (p[i][1] - p[j][1]) ** 2) for i in range(3) for j in range(3))
        if abs(a2) > 0.15 * e and e > 0.01:
            return p


def close(a, b, tol=1e-7, scale=1.0):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * (scale + abs(a) + abs(b))
