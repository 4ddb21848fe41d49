"""Deformation and Euclidean wrappers."""
from .. import terms as tm, interp
from ..engine import ctx, InterpRaise
from ..framework import Case
from ..lib import *

STATEFUL = True
EXPLANATION = ("The wrappers are executed on two arbitrary component interpolations (uninterpreted functions of triangle and coordinates) and "
               "on arbitrary grids whose point location is an uninterpreted partial function (its contract is C10).")
ASSUMPTIONS = ["component interpolations and point location are pure functions of their arguments"]


class Comp(interp.Opaque):
    """arbitrary component interpolation: every value is an uninterpreted function of the arguments"""

    def __init__(self, tag, grid=None):
        self.grid = grid
        f = lambda n, t, c: tm.app(f"{n}_{tag}", [tm.lift(x) for x in t] + [entry(c, 0), entry(c, 1)])
        self.val, self.tag = f, tag
        super().__init__(lambda t, c: f("value", t, c))
        self.gradient = interp.Opaque(lambda t, c: Vec(f("gx", t, c), f("gy", t, c)))
        self.hessian = interp.Opaque(lambda t, c: Mat([[f("hxx", t, c), f("hxy", t, c)], [f("hyx", t, c), f("hyy", t, c)]]))
        self.on_edge = interp.Opaque(lambda e, s: self.edge(e, s))

    def edge(self, e, s):
        return tm.app(f"edge_{self.tag}", [tm.lift(x) for x in e] + [tm.lift(s)])


class G:
    """arbitrary grid: located(x, y) decides whether a triangle is found, and which"""

    def __init__(self, tag):
        self.tag = tag
        self.to_barycentric_point = interp.Opaque(self.locate)

    def where(self, x, y):
        t = tuple(tm.app(f"tri{k}_{self.tag}", [x, y], tm.I) for k in range(3))
        return t, bary(tm.app(f"l1_{self.tag}", [x, y]), tm.app(f"l2_{self.tag}", [x, y]))

    def inside(self, x, y):
        return tm.app(f"inside_{self.tag}", [x, y], tm.B)

    def locate(self, p):
        x, y = tm.toreal(tm.lift(entry(p, 0))), tm.toreal(tm.lift(entry(p, 1)))
        if not ctx().decide(self.inside(x, y)):
            return None
        return interp.construct(mod("domain").BarycentricPoint, list(self.where(x, y)), {})


def same(v, want):
    d = data(v)
    if isinstance(want, list):
        return tm.and_(tm.const(isinstance(d, list) and len(d) == len(want)), *[same(a, b) for a, b in zip(d, want)]) if isinstance(d, list) else tm.FALSE
    return tm.eq(d, want)


def barycentric(V):
    a, b = Comp("a"), Comp("b")
    t = tuple(V.int("i1", "i2", "i3"))
    e = tuple(V.int("e1", "e2"))
    l1, l2, s = V.real("l1", "l2", "s")
    V.cover("point")
    D = lambda: interp.construct(mod("interpolation").Deformation, [a, b], {})
    c = bary(l1, l2)
    v = lambda n, x: x.val(n, t, c)
    V.returns("value", lambda: call(D(), [t, bary(l1, l2)]), lambda r: same(r, [v("value", a), v("value", b)]))
    V.returns("strain", lambda: call(getattr_(D(), "strain"), [t, bary(l1, l2)]), lambda r: same(r, [[v("gx", x), v("gy", x)] for x in (a, b)]))
    V.returns("hyper strain", lambda: call(getattr_(D(), "hyper_strain"), [t, bary(l1, l2)]),
              lambda r: same(r, [[[v("hxx", x), v("hxy", x)], [v("hyx", x), v("hyy", x)]] for x in (a, b)]))
    V.returns("edge value", lambda: call(getattr_(D(), "on_edge"), [e, s]), lambda r: same(r, [a.edge(e, s), b.edge(e, s)]))
    for i, x in enumerate((a, b)):
        V.returns(f"component {i}", lambda: interp.subscript(D(), i), lambda r: r is x)


def euclidean(V):
    a, b = Comp("a", G("a")), Comp("b", G("b"))
    x, y = V.real("x", "y")
    V.cover("point")
    D = lambda: interp.construct(mod("interpolation").EuclideanDeformation, [a, b], {})
    E = lambda: interp.construct(mod("interpolation").EuclideanInterpolation, [a], {})
    v = lambda n, c: c.val(n, *c.grid.where(x, y))
    grad, hess = lambda c: [v("gx", c), v("gy", c)], lambda c: [[v("hxx", c), v("hxy", c)], [v("hyx", c), v("hyy", c)]]
    for nm, mk, ins, specs in (("interpolation", E, a.grid.inside(x, y), {"__call__": lambda: v("value", a), "gradient": lambda: grad(a), "hessian": lambda: hess(a)}),
                               ("deformation", D, tm.and_(a.grid.inside(x, y), b.grid.inside(x, y)),
                                {"__call__": lambda: [v("value", a), v("value", b)], "strain": lambda: [grad(a), grad(b)],
                                 "hyper_strain": lambda: [hess(a), hess(b)]})):
        for m, spec in specs.items():
            th = (lambda: call(mk(), [x, y])) if m == "__call__" else (lambda: call(getattr_(mk(), m), [x, y]))
            with V.under(ins):
                V.returns(f"{nm} {m}", th, lambda r: same(r, spec()))
            with V.under(tm.not_(ins)):
                V.raises(f"{nm} {m} outside", th, ValueError)
    for i, c in enumerate((a, b)):
        with V.under(c.grid.inside(x, y)):
            V.returns(f"component {i}", lambda: call(interp.subscript(D(), i), [x, y]), lambda r: same(r, v("value", c)))
    V.returns("grid kept", E, lambda o: getattr_(o, "grid") is a.grid)


def histories(V):
    """the Euclidean wrappers again, after arbitrary earlier queries on the same objects (some of them outside)"""
    a, b = Comp("a", G("a")), Comp("b", G("b"))
    x, y = V.real("x", "y")
    x0, y0, x1, y1 = V.real("x0", "y0", "x1", "y1")
    V.cover("points")
    v = lambda n, c: c.val(n, *c.grid.where(x, y))
    grad, hess = lambda c: [v("gx", c), v("gy", c)], lambda c: [[v("hxx", c), v("hxy", c)], [v("hyx", c), v("hyy", c)]]
    use = lambda o, m, p: call(o if m == "__call__" else getattr_(o, m), list(p))
    specs = {"__call__": lambda: [v("value", a), v("value", b)], "strain": lambda: [grad(a), grad(b)],
             "hyper_strain": lambda: [hess(a), hess(b)]}

    def after(cls, comps, first, m):
        o = interp.construct(getattr(mod("interpolation"), cls), comps, {})
        for f, p in first:
            try:
                use(o, f, p)
            except InterpRaise:
                pass
        return use(o, m, (x, y))
    for m, spec in specs.items():
        th = lambda: after("EuclideanDeformation", [a, b], [("__call__", (x0, y0)), ("strain", (x, y1)), (m, (x1, y))], m)
        with V.under(tm.and_(a.grid.inside(x, y), b.grid.inside(x, y))):
            V.returns(f"deformation {m}", th, lambda r: same(r, spec()))
        with V.under(tm.not_(tm.and_(a.grid.inside(x, y), b.grid.inside(x, y)))):
            V.raises(f"deformation {m} outside", th, ValueError)
    for m, spec in (("__call__", lambda: v("value", a)), ("gradient", lambda: grad(a)), ("hessian", lambda: hess(a))):
        th = lambda: after("EuclideanInterpolation", [a], [("gradient", (x0, y0)), ("__call__", (x, y1)), ("hessian", (x1, y))], m)
        with V.under(a.grid.inside(x, y)):
            V.returns(f"interpolation {m}", th, lambda r: same(r, spec()))
        with V.under(tm.not_(a.grid.inside(x, y))):
            V.raises(f"interpolation {m} outside", th, ValueError)
    t, t0 = tuple(V.int("i1", "i2", "i3")), tuple(V.int("j1", "j2", "j3"))
    e, e0 = tuple(V.int("e1", "e2")), tuple(V.int("f1", "f2"))
    l1, l2, s, k1, k2, s0 = V.real("l1", "l2", "s", "k1", "k2", "s0")
    w = lambda n, c: c.val(n, t, bary(l1, l2))

    def bafter(m):
        d = interp.construct(mod("interpolation").Deformation, [a, b], {})
        for f in ("__call__", "strain", "hyper_strain"):
            for q in ([t0, bary(k1, k2)], [t, bary(k1, k2)], [t0, bary(l1, l2)]):
                use(d, f, q)
        for q in ((e0, s0), (e, s0), (e0, s)):
            use(d, "on_edge", q)
        return use(d, m, (e, s) if m == "on_edge" else (t, bary(l1, l2)))
    V.returns("barycentric value", lambda: bafter("__call__"), lambda r: same(r, [w("value", c) for c in (a, b)]))
    V.returns("barycentric strain", lambda: bafter("strain"), lambda r: same(r, [[w("gx", c), w("gy", c)] for c in (a, b)]))
    V.returns("barycentric hyper strain", lambda: bafter("hyper_strain"),
              lambda r: same(r, [[[w("hxx", c), w("hxy", c)], [w("hyx", c), w("hyy", c)]] for c in (a, b)]))
    V.returns("edge value", lambda: bafter("on_edge"), lambda r: same(r, [c.edge(e, s) for c in (a, b)]))


def cases():
    return [Case("barycentric", barycentric, budget=60), Case("Euclidean", euclidean, budget=60),
            Case("later queries", histories, budget=120)]


def gen(rng, tier):
    for _ in range(10):
        yield {"c": [[rng.uniform(-2, 2) for _ in range(6)] for _ in range(2)], "w": rng.randint(1, 3), "h": rng.randint(1, 3),
               "p": [rng.uniform(-0.5, 3.5), rng.uniform(-0.5, 3.5)], "l": [rng.uniform(0, 0.5), rng.uniform(0, 0.5)], "t": rng.random()}


def run(case):
    D, I, T = mod("domain"), mod("interpolation"), mod("tensors")
    g = D.RectangleDomain(case["w"], case["h"]).grid(1)

    def field(c):
        f = lambda x, y: c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y
        gr = lambda x, y: [c[1] + 2 * c[3] * x + c[4] * y, c[2] + c[4] * x + 2 * c[5] * y]
        he = [[2 * c[3], c[4]], [c[4], 2 * c[5]]]
        return f, gr, he, I.C1Interpolation(g, [[f(*p)] + gr(*p) + [he[0][0], he[0][1], he[1][1]] for p in g.points])
    F = [field(c) for c in case["c"]]
    d, e = I.Deformation(F[0][3], F[1][3]), I.EuclideanDeformation(F[0][3], F[1][3])
    t = g.triangles[int(case["t"] * len(g.triangles))]
    l = T.BarycentricCoordinates(*case["l"])
    q = [sum(w * g.points[i][k] for w, i in zip(l, t)) for k in range(2)]

    def cmp(nm, got, want):
        import numpy as np
        if not np.allclose(np.array(data_(got), dtype=float), np.array(want, dtype=float), rtol=1e-7, atol=1e-7):
            return f"{nm} is {got} instead of {want}"

    def all_(nm, val, st, hy, p):
        return (cmp(nm + " value", val, [f[0](*p) for f in F]) or cmp(nm + " strain", st, [f[1](*p) for f in F])
                or cmp(nm + " hyper strain", hy, [f[2] for f in F]))
    r = all_("barycentric", d(t, l), d.strain(t, l), d.hyper_strain(t, l), q)
    if r:
        return r
    # other queries in between: nothing may be remembered
    x, y = case["p"]
    for p in ((x, 0.3), (0.4, y), (0.1, 0.9)):
        for m in (e, e.strain, e.hyper_strain, e[0], e[1].gradient):
            try:
                m(*p)
            except ValueError:
                pass
    for u in g.triangles:
        r = all_("barycentric", d(u, l), d.strain(u, l), d.hyper_strain(u, l),
                 [sum(w * g.points[i][k] for w, i in zip(l, u)) for k in range(2)])
        if r:
            return r
    ed = g.edges[int(case["t"] * len(g.edges))]
    s = case["l"][0]
    pe = [s * g.points[ed[0]][k] + (1 - s) * g.points[ed[1]][k] for k in range(2)]
    r = cmp("edge value", d.on_edge(ed, s), [f[0](*pe) for f in F])
    if r:
        return r
    x, y = case["p"]
    if 0 <= x <= case["w"] and 0 <= y <= case["h"]:
        r = all_("Euclidean", e(x, y), e.strain(x, y), e.hyper_strain(x, y), (x, y))
        if r:
            return r
    for m in () if 0 <= x <= case["w"] and 0 <= y <= case["h"] else (e, e.strain, e.hyper_strain, e[0], e[0].gradient, e[1].hessian):
        try:
            m(x, y)
        except ValueError:
            continue
        return f"point {x}, {y} outside the domain accepted"
    # components on different grids of the same rectangle
    r = D.RectangleDomain(case["w"], case["h"])
    fine = r.refine(g, 2)
    a, b = (I.P1Interpolation(G, [c[0] + c[1] * p[0] + c[2] * p[1] for p in G.points]) for G, c in ((g, case["c"][0]), (fine, case["c"][1])))
    e = I.EuclideanDeformation(a, b)
    x, y = case["l"][0] * case["w"], case["l"][1] * case["h"]
    return (cmp("value of components on two grids", e(x, y), [c[0] + c[1] * x + c[2] * y for c in case["c"]])
            or cmp("strain of components on two grids", e.strain(x, y), [c[1:3] for c in case["c"]]))


def data_(v):
    return v.data
