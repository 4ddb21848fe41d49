"""Contracts of the Bell element, shared by C01-C04."""
import random
from .. import terms as tm
from ..framework import Case
from ..lib import *


def B():
    return mod("bell_finite_element")


def quartic(V):
    return {(a, b): V.real(f"q{a}{b}") for a, b in monos(4)}


def nodal(coefs, rel):
    """18 nodal values of the polynomial (in coordinates relative to the first vertex)"""
    return [poly_eval(coefs, x, y, *d) for (x, y) in rel for d in ORD6]


def rel(t):
    return [(tm.rconst(0), tm.rconst(0)), (t.c3, -t.b3), (-t.c2, t.b2)]


def relpt(t, l1, l2):
    l3 = 1 - l1 - l2
    return l2 * t.c3 - l3 * t.c2, l3 * t.b2 - l2 * t.b3


def reproduces(what):
    def fn(V):
        t = Tri(V)
        l1, l2 = V.real("l1", "l2")
        q = quartic(V)
        prm = nodal(q, rel(t))
        x, y = relpt(t, l1, l2)
        if what == "value":
            V.returns("interpolant of a quartic's nodal data equals the quartic at the point",
                      lambda: call(B().bell_interpolation, [t.vertices(), bary(l1, l2), Vec(*prm)]),
                      lambda v: tm.eq(v, poly_eval(q, x, y)))
        elif what == "gradient":
            def ens(v):
                for i, d in enumerate(((1, 0), (0, 1))):
                    V.oblige(f"gradient component {i} equals the quartic's derivative", tm.eq(entry(v, i), poly_eval(q, x, y, *d)))
            V.returns("gradient", lambda: call(B().bell_interpolation_gradient, [t.vertices(), bary(l1, l2), Vec(*prm)]), ens)
        elif what == "hessian":
            def ens(v):
                for i, j, d in ((0, 0, (2, 0)), (0, 1, (1, 1)), (1, 0, (1, 1)), (1, 1, (0, 2))):
                    V.oblige(f"hessian entry {i},{j} equals the quartic's derivative", tm.eq(entry(v, i, j), poly_eval(q, x, y, *d)))
            V.returns("hessian", lambda: call(B().bell_interpolation_hessian, [t.vertices(), bary(l1, l2), Vec(*prm)]), ens)
    return fn


def generic(V, tag="u"):
    return [V.real(f"{tag}{i}") for i in range(18)]


def nodes(what):
    def fn(V):
        t = Tri(V)
        u = generic(V)
        for n, (a, b) in enumerate(((1, 0), (0, 1), (0, 0))):
            if what == "value":
                V.returns(f"value at vertex {n + 1} is the prescribed value",
                          lambda: call(B().bell_interpolation, [t.vertices(), bary(tm.rconst(a), tm.rconst(b)), Vec(*u)]),
                          lambda v: tm.eq(v, u[6 * n]))
            elif what == "gradient":
                def ens(v):
                    for i in (0, 1):
                        V.oblige(f"gradient component {i} at vertex {n + 1} is the prescribed one", tm.eq(entry(v, i), u[6 * n + 1 + i]))
                V.returns("gradient", lambda: call(B().bell_interpolation_gradient,
                                                   [t.vertices(), bary(tm.rconst(a), tm.rconst(b)), Vec(*u)]), ens)
            else:
                def ens(v):
                    for i, j, m in ((0, 0, 3), (0, 1, 4), (1, 0, 4), (1, 1, 5)):
                        V.oblige(f"hessian entry {i},{j} at vertex {n + 1} is the prescribed one", tm.eq(entry(v, i, j), u[6 * n + m]))
                V.returns("hessian", lambda: call(B().bell_interpolation_hessian,
                                                  [t.vertices(), bary(tm.rconst(a), tm.rconst(b)), Vec(*u)]), ens)
    return fn


def wrong_size(V):
    """a parameter vector that does not have 18 entries is rejected, whatever its length"""
    t = Tri(V)
    n = V.int("n")
    V.requires(tm.le(0, n), tm.not_(tm.eq(n, 18)))
    V.cover("length other than 18")
    for f in ("bell_interpolation", "bell_interpolation_gradient", "bell_interpolation_hessian"):
        V.raises(f"{f} rejects parameter vectors of any length other than 18",
                 lambda: call(getattr(B(), f), [t.vertices(), bary(*V.real("l1", "l2")), call(mod("tensors").Vector, [symlist("u", n)])]),
                 ValueError)


# quintic Hermite basis on [0, 1] in the parameter s (distance fraction from the first end), computed here
def herm5(s):
    """(f0, f0', f0'', f1, f1', f1'') coefficients of the quintic with these end data (derivatives in s)"""
    s2, s3, s4, s5 = s ** 2, s ** 3, s ** 4, s ** 5
    F = tm.num if False else (lambda x: x)
    from fractions import Fraction as Q
    h = Q(1, 2)
    return [1 - 10 * s3 + 15 * s4 - 6 * s5, s - 6 * s3 + 8 * s4 - 3 * s5, h * s2 - 3 * h * s3 + 3 * h * s4 - h * s5,
            10 * s3 - 15 * s4 + 6 * s5, -4 * s3 + 7 * s4 - 3 * s5, h * s3 - s4 + h * s5]


def herm5d(s):
    s2, s3, s4 = s ** 2, s ** 3, s ** 4
    from fractions import Fraction as Q
    h = Q(1, 2)
    return [-30 * s2 + 60 * s3 - 30 * s4, 1 - 18 * s2 + 32 * s3 - 15 * s4, s - 9 * h * s2 + 6 * s3 - 5 * h * s4,
            30 * s2 - 60 * s3 + 30 * s4, -12 * s2 + 28 * s3 - 15 * s4, 3 * h * s2 - 4 * s3 + 5 * h * s4]


def herm3(s):
    s2, s3 = s ** 2, s ** 3
    return [1 - 3 * s2 + 2 * s3, s - 2 * s2 + s3, 3 * s2 - 2 * s3, -s2 + s3]


def edge_spec(u, v, d, s):
    """(value, tangential derivative * |d|, normal derivative * |d|) at the point p + s d of the edge from p to q = p + d,
    from the nodal data u at p and v at q only; normal n = (-d1, d0)"""
    dx, dy = d
    data = []
    for w in (u, v):
        data += [w[0], w[1] * dx + w[2] * dy, w[3] * dx * dx + 2 * w[4] * dx * dy + w[5] * dy * dy]
    val = sum(c * x for c, x in zip(herm5(s), data))
    tan = sum(c * x for c, x in zip(herm5d(s), data))
    nd = []
    for w in (u, v):
        nd += [w[2] * dx - w[1] * dy, -w[3] * dx * dy + w[4] * (dx * dx - dy * dy) + w[5] * dx * dy]
    nor = sum(c * x for c, x in zip(herm3(s), nd))
    return val, tan, nor


def edge_cases(k):
    """on the k-th side of any triangle the value and the gradient are those determined by that side's data alone"""
    def fn(V):
        t = Tri(V)
        u = generic(V)
        s = V.real("s")
        i, j = ((0, 1), (1, 2), (2, 0))[k]
        lam = [tm.rconst(0)] * 3
        lam[i], lam[j] = 1 - s, s
        r = rel(t)
        d = (r[j][0] - r[i][0], r[j][1] - r[i][1])
        val, tan, nor = edge_spec(u[6 * i:6 * i + 6], u[6 * j:6 * j + 6], d, s)
        V.returns(f"side {k + 1}: value is the quintic determined by the two end vertices",
                  lambda: call(B().bell_interpolation, [t.vertices(), bary(lam[0], lam[1]), Vec(*u)]), lambda v: tm.eq(v, val))

        def ens(g):
            g0, g1 = entry(g, 0), entry(g, 1)
            V.oblige(f"side {k + 1}: tangential derivative is determined by the two end vertices", tm.eq(g0 * d[0] + g1 * d[1], tan))
            V.oblige(f"side {k + 1}: normal derivative is the cubic determined by the two end vertices", tm.eq(g1 * d[0] - g0 * d[1], nor))
        V.returns("gradient", lambda: call(B().bell_interpolation_gradient, [t.vertices(), bary(lam[0], lam[1]), Vec(*u)]), ens)
    return fn


def on_edge(V):
    """the separate edge evaluation computes the same trace"""
    x, y, dx, dy, s = V.real("x", "y", "dx", "dy", "s")
    u = [V.real(f"u{i}") for i in range(12)]
    V.requires(tm.lt(0, dx * dx + dy * dy))
    V.known_nonzero(dx * dx + dy * dy)
    V.cover("edge of positive length")
    val, _, _ = edge_spec(u[:6], u[6:], (dx, dy), s)
    V.returns("edge evaluation is the quintic determined by the two end vertices",
              lambda: call(B().bell_interpolation_on_edge, [(Vec(x, y), Vec(x + dx, y + dy)), 1 - s, Vec(*u)]), lambda v: tm.eq(v, val))


def lemma_reverse(V):
    """the edge data specification does not depend on the direction in which the edge is traversed"""
    dx, dy, s = V.real("dx", "dy", "s")
    u = [V.real(f"u{i}") for i in range(12)]
    a = edge_spec(u[:6], u[6:], (dx, dy), s)
    b = edge_spec(u[6:], u[:6], (-dx, -dy), 1 - s)
    V.oblige("lemma: value agrees from both directions", tm.eq(a[0], b[0]))
    V.oblige("lemma: tangential derivative changes sign", tm.eq(a[1], -b[1]))
    V.oblige("lemma: normal derivative changes sign with the normal", tm.eq(a[2], -b[2]))


def derivs(what):
    """gradient / Hessian are the exact Euclidean derivatives of the value, for arbitrary data"""
    def fn(V):
        t = Tri(V)
        l1, l2 = V.real("l1", "l2")
        u = generic(V)
        vals = V.explore(lambda: call(B().bell_interpolation, [t.vertices(), bary(l1, l2), Vec(*u)]))
        dl = {"x": (t.b1 / t.A2, t.b2 / t.A2), "y": (t.c1 / t.A2, t.c2 / t.A2)}

        def D(f, ax):
            a, b = dl[ax]
            return tm.diff(f, l1) * a + tm.diff(f, l2) * b
        for p in vals:
            with V.under(p):
                if p.kind != "ok":
                    V.oblige("value is defined", False)
                    continue
                f = p.value
                if what == "gradient":
                    def ens(g):
                        V.oblige("x-component is the derivative of the value", tm.eq(entry(g, 0), D(f, "x")))
                        V.oblige("y-component is the derivative of the value", tm.eq(entry(g, 1), D(f, "y")))
                    V.returns("gradient", lambda: call(B().bell_interpolation_gradient, [t.vertices(), bary(l1, l2), Vec(*u)]), ens)
                else:
                    def ens(h):
                        for i, j, a, b in ((0, 0, "x", "x"), (0, 1, "x", "y"), (1, 0, "x", "y"), (1, 1, "y", "y")):
                            V.oblige(f"entry {i},{j} is the second derivative of the value", tm.eq(entry(h, i, j), D(D(f, a), b)))
                    V.returns("hessian", lambda: call(B().bell_interpolation_hessian, [t.vertices(), bary(l1, l2), Vec(*u)]), ens)
    return fn


# ------------------------------------------------------------------ through C1Interpolation and a grid
def sym_grid(V, tag=""):
    """an arbitrary grid: N points, M triangles, E edges; indices in range"""
    D = mod("domain")
    N, M, E = V.int("N" + tag, "M" + tag, "E" + tag)
    V.requires(tm.le(3, N), tm.le(1, M), tm.le(1, E))
    k = tm.var("%t", tm.I)
    T3 = [tm.app(f"tri{j}{tag}", [k], tm.I) for j in range(3)]
    E2 = [tm.app(f"edge{j}{tag}", [k], tm.I) for j in range(2)]
    for f in T3:
        V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, M)), tm.and_(tm.le(0, f), tm.lt(f, N)))))
    for f in E2:
        V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, E)), tm.and_(tm.le(0, f), tm.lt(f, N)))))
    tris = PList([For(k, M, [Item(tuple(T3))])])
    edges = PList([For(k, E, [Item(tuple(E2))])])
    verts = PList([For(k, N, [Item(k)])])
    pts = PList([For(k, N, [Item(Vec(tm.app("px" + tag, [k]), tm.app("py" + tag, [k])))])])
    bd = call(D.Boundary, [lst([]), lst([])])
    grid = call(D.Grid, [verts, edges, tris, bd, bd, bd, pts])
    return grid, N, M, E, T3, E2, k


def at(V, fs, k, v, N):
    """the index functions at a chosen element, with their range facts"""
    out = []
    for f in fs:
        g = tm.subst(f, {k: v})
        V.requires(tm.le(0, g), tm.lt(g, N))
        out.append(g)
    return tuple(out)


def c1_class(V):
    """C1Interpolation on any grid hands each triangle its own vertices' data, in order"""
    I = mod("interpolation")
    grid, N, M, E, T3, E2, k = sym_grid(V)
    m, e = V.int("m", "e")
    V.requires(tm.le(0, m), tm.lt(m, M), tm.le(0, e), tm.lt(e, E))
    tri = at(V, T3, k, m, N)
    edge = at(V, E2, k, e, N)
    V.cover("grid")
    l1, l2, s = V.real("l1", "l2", "s")
    pts = [Vec(tm.app("px", [i]), tm.app("py", [i])) for i in tri]
    u = [tm.app("u", [i, tm.const(j)]) for i in tri for j in range(6)]
    prm = symlist("u", N, 6)
    c = V.c
    x = [(tm.app("px", [i]), tm.app("py", [i])) for i in tri]
    A2 = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0])
    V.requires(tm.not_(tm.eq(A2, 0)))
    V.known_nonzero(A2)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        q = (x[i][0] - x[j][0]) ** 2 + (x[i][1] - x[j][1]) ** 2
        V.oblige("lemma: sides have positive length", tm.lt(0, q))
        V.known_nonzero(q)

    def same(name, a, b):
        V.oblige(name, tm.eq(a, b))
    inter = None

    def make():
        return call(I.C1Interpolation, [grid, prm])
    V.returns("value", lambda: (call(make(), [tri, bary(l1, l2)]), call(B().bell_interpolation, [tuple(pts), bary(l1, l2), Vec(*u)])),
              lambda v: tm.eq(v[0], v[1]))
    V.returns("gradient", lambda: (call(getattr_(make(), "gradient"), [tri, bary(l1, l2)]),
                                   call(B().bell_interpolation_gradient, [tuple(pts), bary(l1, l2), Vec(*u)])),
              lambda v: tm.and_(*[tm.eq(entry(v[0], i), entry(v[1], i)) for i in (0, 1)]))
    V.returns("hessian", lambda: (call(getattr_(make(), "hessian"), [tri, bary(l1, l2)]),
                                  call(B().bell_interpolation_hessian, [tuple(pts), bary(l1, l2), Vec(*u)])),
              lambda v: tm.and_(*[tm.eq(entry(v[0], i, j), entry(v[1], i, j)) for i in (0, 1) for j in (0, 1)]))
    ept = tuple(Vec(tm.app("px", [i]), tm.app("py", [i])) for i in edge)
    eu = [tm.app("u", [i, tm.const(j)]) for i in edge for j in range(6)]
    V.returns("edge evaluation", lambda: (call(getattr_(make(), "on_edge"), [edge, s]),
                                          call(B().bell_interpolation_on_edge, [ept, s, Vec(*eu)])),
              lambda v: tm.eq(v[0], v[1]))


# ------------------------------------------------------------------ concrete
def rquartic(rng):
    return {f"{a},{b}": R(rng) for a, b in monos(4)}


def cq(q):
    return {tuple(map(int, k.split(","))): v for k, v in q.items()}


def run_on_real(tri, lam, prm, z=1):
    if z != 1:
        v, g, h = run_on_real(zpts(tri, z), lam, zdata(list(prm), z))
        return v, zgrad(g, z), zhess(h, z)
    Tn = mod("tensors")
    p = tuple(Tn.Vector(list(x)) for x in tri)
    b = Tn.BarycentricCoordinates(lam[0], lam[1])
    u = Tn.Vector(list(prm))
    return (B().bell_interpolation(p, b, u), B().bell_interpolation_gradient(p, b, u), B().bell_interpolation_hessian(p, b, u))


class Zoomed:
    """an interpolation on a body given in other units (lengths times z), asked in the old units"""

    def __init__(self, inter, z):
        self.inter, self.z = inter, z

    def __call__(self, *a):
        return self.inter(*a)

    def on_edge(self, *a):
        return self.inter.on_edge(*a)

    def gradient(self, *a):
        return zgrad(self.inter.gradient(*a), self.z)

    def hessian(self, *a):
        return zhess(self.inter.hessian(*a), self.z)


def zgrad(g, z):
    if len(g) != 2:
        raise AssertionError(f"gradient {g}")
    return [g[0] * z, g[1] * z]


def zhess(h, z):
    if tuple(h.shape) != (2, 2):
        raise AssertionError(f"hessian of shape {h.shape}")
    return {(i, j): h[i, j] * z * z for i in (0, 1) for j in (0, 1)}


def zpts(pts, z):
    return [[x * z for x in p] for p in pts]


def zdata(rows, z):
    """nodal data (u, u_x, u_y, u_xx, u_xy, u_yy per vertex, nested or flat) in the new units"""
    if rows and not isinstance(rows[0], list):
        return [x / z ** (0, 1, 1, 2, 2, 2)[i % 6] for i, x in enumerate(rows)]
    return [zdata(r, z) for r in rows]


def c1_real(tri, prm, z=1):
    if z != 1:
        return Zoomed(c1_real(zpts(tri, z), zdata(list(prm), z)), z)
    """C1Interpolation over a one-triangle grid with shuffled vertex numbers"""
    D, I, Tn = mod("domain"), mod("interpolation"), mod("tensors")
    pts = [Tn.Vector(list(p)) for p in tri]
    bd = D.Boundary([], [])
    g = D.Grid([0, 1, 2], [(0, 1), (1, 2), (2, 0)], [(0, 1, 2)], bd, bd, bd, pts)
    return I.C1Interpolation(g, [list(prm[6 * i:6 * i + 6]) for i in range(3)])


def rlam(rng):
    a, b = sorted(rng.randint(0, 16) for _ in range(2))
    return [a / 16, (b - a) / 16]


def rmesh(rng, n=5):
    """points and triangles that share vertices in every way, each with any order of its vertices"""
    import itertools
    while True:
        pts = [[R(rng), R(rng)] for _ in range(n)]
        tris = []
        for t in itertools.permutations(range(n), 3):
            (a, b), (c, d), (e, f) = [pts[i] for i in t]
            A = abs((c - a) * (f - b) - (e - a) * (d - b))
            L = max((c - a) ** 2 + (d - b) ** 2, (e - a) ** 2 + (f - b) ** 2, (e - c) ** 2 + (f - d) ** 2)
            if A > 0.25 and A > L / 12:
                tris.append(list(t))
        if len(tris) > 12:
            first = rng.choice(tris)
            again = [first[1:] + first[:1], first[::-1], first[2:] + first[:2], first]
            return pts, [first] + again + rng.sample(tris, 6) + [t for t in tris if t != first and set(t) & set(first)][:4]


def real_grid(pts, tris):
    D, Tn = mod("domain"), mod("tensors")
    bd = D.Boundary([], [])
    es = [(t[i], t[(i + 1) % 3]) for t in tris for i in range(3)]
    return D.Grid(list(range(len(pts))), es, [tuple(t) for t in tris], bd, bd, bd, [Tn.Vector(list(p)) for p in pts])
