"""Integrators."""
import math
from .bell import *

EXPLANATION = ("The integrators are executed on lists of M triangles / E edges over N points with a rule of n points, all numbers symbolic, and an "
               "uninterpreted integrand; the result is proved equal to the composite quadrature sum, on the first and on a repeated call.")
ASSUMPTIONS = ["numpy.polynomial.legendre.leggauss as in C14"]
SECONDS = 30


def cells(V, width, count, tag):
    N = V.int("N")
    V.requires(tm.le(1, N), tm.le(0, count))
    k = tm.var("%t", tm.I)
    fs = [tm.app(f"{tag}{j}", [k], tm.I) for j in range(width)]
    for f in fs:
        V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, count)), tm.and_(tm.le(0, f), tm.lt(f, N)))))
    cl = PList([For(k, count, [Item(tuple(fs))])])
    pts = PList([For(k, N, [Item(Vec(tm.app("px", [k]), tm.app("py", [k])))])])
    return cl, pts, fs, k


def rule(n):
    k = tm.var("%q", tm.I)
    w = symlist("w", n)
    p = PList([For(k, n, [Item(bary(tm.app("l1", [k]), tm.app("l2", [k])))])])
    o = interp.construct(mod("quadrature_rules").TriangleQuadratureRule, [w, PList([For(k, n, [Item((tm.app("l1", [k]), tm.app("l2", [k])))])])], {})
    return o


def rule_requires(V, n):
    k = tm.var("%q", tm.I)
    l1, l2 = tm.app("l1", [k]), tm.app("l2", [k])
    V.requires(tm.le(1, n), tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n)), tm.and_(tm.le(0, l1), tm.le(0, l2), tm.le(l1 + l2, 1)))),
               tm.eq(tm.ssum(k, n, tm.app("w", [k])), 1))


def coords(i):
    return tm.app("px", [i]), tm.app("py", [i])


def domain(V):
    M, n = V.int("M", "n")
    tris, pts, fs, k = cells(V, 3, M, "tri")
    rule_requires(V, n)
    V.cover("triangles and rule")
    q = tm.var("%qq", tm.I)
    (x1, y1), (x2, y2), (x3, y3) = [coords(f) for f in fs]
    area = tm.absval((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)) / 2
    l1, l2 = tm.app("l1", [q]), tm.app("l2", [q])

    def spec(g):
        return tm.ssum(k, M, area * tm.ssum(q, n, tm.app("w", [q]) * g))
    f = interp.Opaque(lambda t, p: tm.app("f", list(t) + [call(getattr_(p, "__getitem__"), [i]) for i in range(3)]))
    fval = tm.app("f", fs + [l1, l2, 1 - l1 - l2])
    make = lambda: call(mod("integrators").Integrator, [rule(n), tris, pts])
    V.returns("integral", lambda: call(make(), [f]), lambda v: tm.eq(v, spec(fval)))

    def twice():
        o = make()
        call(o, [f])
        return call(o, [f])
    V.returns("integral, second call", twice, lambda v: tm.eq(v, spec(fval)))
    V.returns("integral of one is the total area", lambda: call(make(), [interp.Opaque(lambda t, p: tm.const(1))]),
              lambda v: tm.eq(v, tm.ssum(k, M, area)))
    a = V.real("alpha")
    g = interp.Opaque(lambda t, p: a * f(t, p) + tm.app("g", [t[0]]))
    V.returns("linearity", lambda: call(make(), [g]),
              lambda v: tm.eq(v, a * spec(fval) + spec(tm.app("g", [fs[0]]))))


def concrete_rules(V):
    """the published rules, used as they are"""
    Q = mod("quadrature_rules")
    M = V.int("M")
    tris, pts, fs, k = cells(V, 3, M, "tri")
    V.cover("triangles")
    (x1, y1), (x2, y2), (x3, y3) = [coords(f) for f in fs]
    area = tm.absval((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)) / 2
    f = interp.Opaque(lambda t, p: tm.app("f", list(t) + [call(getattr_(p, "__getitem__"), [i]) for i in range(2)]))
    for nm in ("CENTROID", "DUNAVANT2", "DUNAVANT5"):
        r = getattr(Q, nm)
        pairs = [(tm.lift(w), tm.lift(getattr_(p, "l1")), tm.lift(getattr_(p, "l2"))) for w, p in interp.iter_values(call(getattr_(r, "__iter__"), []))]
        want = tm.ssum(k, M, area * sum((w * tm.app("f", fs + [a, b]) for w, a, b in pairs), tm.rconst(0)))
        V.returns(f"{nm}", lambda: call(call(mod("integrators").Integrator, [r, tris, pts]), [f]), lambda v: tm.eq(v, want))


def boundary(V):
    E, n = V.int("E", "n")
    V.requires(tm.le(1, n))
    edges, pts, fs, k = cells(V, 2, E, "edge")
    V.cover("edges")
    q = tm.var("%qq", tm.I)
    (x1, y1), (x2, y2) = [coords(f) for f in fs]
    length = tm.sqrt((x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2))
    t = (1 + tm.app("gl_x", [n, q])) / 2
    w = tm.app("gl_w", [n, q]) / 2

    def spec(g):
        return tm.ssum(k, E, length * tm.ssum(q, n, w * g))
    f = interp.Opaque(lambda e, t: tm.app("f", list(e) + [tm.lift(t)]))
    make = lambda: call(mod("integrators").BoundaryIntegrator, [n, edges, pts])
    V.returns("boundary integral", lambda: call(make(), [f]), lambda v: tm.eq(v, spec(tm.app("f", fs + [t]))))

    def twice():
        o = make()
        call(o, [f])
        return call(o, [f])
    V.returns("boundary integral, second call", twice, lambda v: tm.eq(v, spec(tm.app("f", fs + [t]))))


def cases():
    return [Case("domain integrator", domain, budget=90), Case("published rules", concrete_rules, budget=60),
            Case("boundary integrator", boundary, budget=60)]


def gen(rng, tier):
    for _ in range(20):
        n = rng.randint(3, 6)
        yield {"pts": [[R(rng), R(rng)] for _ in range(n)], "tris": [rng.sample(range(n), 3) for _ in range(rng.randint(0, 4))],
               "edges": [rng.sample(range(n), 2) for _ in range(rng.randint(0, 4))], "deg": rng.randint(1, 5), "rule": rng.randint(0, 4),
               "c": [rng.randint(-4, 4) for _ in range(5)], "z": zoom(rng)}


def run(case):
    It, Q, Tn = mod("integrators"), mod("quadrature_rules"), mod("tensors")
    z = case.get("z", 1)
    pts = [Tn.Vector([x * z for x in p]) for p in case["pts"]]
    P, c = case["pts"], case["c"]
    rule_ = Q.DUNAVANT_QUADRATURE_RULES[case["rule"]]
    tris = [tuple(t) for t in case["tris"]]
    edges = [tuple(e) for e in case["edges"]]
    f = lambda t, p: c[0] + c[1] * t[0] * p[0] + c[2] * p[1] * p[2] + c[3] * t[1] * p[1] + c[4] * t[2]
    it = It.Integrator(rule_, tris, pts)
    want = 0
    for t in tris:
        (a, b), (d, e), (g, h) = (P[i] for i in t)
        want += abs((d - a) * (h - b) - (g - a) * (e - b)) / 2 * sum(w * f(t, (p.l1, p.l2, p.l3)) for w, p in rule_)
    for n in (1, 2):
        if not close(it(f) / z ** 2, want, 1e-10, 10):
            return f"integral {it(f)} instead of {want} (call {n})"
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(case["deg"])
    ge = lambda e, t: c[0] + c[1] * e[0] * t + c[2] * e[1] * t * t + c[3] * t ** 3
    be = It.BoundaryIntegrator(case["deg"], edges, pts)
    want = sum(math.dist(P[i], P[j]) * sum(wk / 2 * ge((i, j), (1 + xk) / 2) for wk, xk in zip(w, x)) for i, j in edges)
    for n in (1, 2):
        if not close(be(ge) / z, want, 1e-10, 10):
            return f"boundary integral {be(ge)} instead of {want} (call {n})"
    return None
