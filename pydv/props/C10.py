"""Grid.to_barycentric_point."""
from .bell import *

EXPLANATION = ("to_barycentric_point is executed on a grid with any number of points and nondegenerate triangles of either orientation. "
               "The result is proved to name a triangle of the grid with weights reproducing the point and nonnegative up to the tolerance; "
               "a point given as a convex combination of the corners of any triangle of the grid is proved never to be reported outside.")
ASSUMPTIONS = ["real arithmetic instead of floats; the tolerance is accepted up to 1e-9 in units of twice the triangle area"]
SEEDS = 40
SECONDS = 30
TOL = 1e-9


def area2(P, f):
    (x1, y1), (x2, y2), (x3, y3) = [P(i) for i in f]
    return (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)


def P(i):
    return tm.app("px", [i]), tm.app("py", [i])


def setup(V):
    grid, N, M, E, T3, E2, k = sym_grid(V)
    a = area2(P, T3)
    V.nonzero_for_all(k, M, a, a * a)
    V.cover("grid of nondegenerate triangles")
    return grid, N, M, T3, k


def locate(grid, x, y):
    return call(getattr_(grid, "to_barycentric_point"), [Vec(x, y)])


def found(V):
    grid, N, M, T3, k = setup(V)
    x, y = V.real("x", "y")

    def ens(r):
        if r is None:
            return True
        t = getattr_(r, "triangle")
        V.oblige("the triangle is one of the grid", C.member(tuple(t), C.nodes_of(getattr_(grid, "triangles"))))
        co = getattr_(r, "coordinates")
        l = [tm.lift(getattr_(co, n)) for n in ("l1", "l2", "l3")]
        ps = [P(i) for i in t]
        a = area2(P, t)
        D = tm.app("twice the area", [t[0], t[1], t[2]])
        V.known_nonzero(a)
        V.oblige("weights sum to one", tm.eq(l[0] + l[1] + l[2], 1))
        for j, (nm, w) in enumerate((("x", x), ("y", y))):
            V.oblige(f"weights reproduce the {nm} coordinate", tm.eq(sum((q * p[j] for q, p in zip(l, ps)), tm.rconst(0)), w))
        # the weights times twice the area are the signed areas of the sub-triangles
        for j in range(3):
            q1, q2 = ps[(j + 1) % 3], ps[(j + 2) % 3]
            s = (q1[0] - x) * (q2[1] - y) - (q2[0] - x) * (q1[1] - y)
            ok = V.oblige(f"lemma: weight {j + 1} is a ratio of signed areas", tm.eq(l[j] * a, s))
            V.oblige(f"weight {j + 1} is nonnegative up to the tolerance",
                     tm.and_(tm.implies(tm.lt(0, a), tm.le(-TOL, s)), tm.implies(tm.lt(a, 0), tm.le(s, TOL))))
    V.returns("location", lambda: locate(grid, x, y), ens)


def inside(V):
    grid, N, M, T3, k = setup(V)
    m = V.int("m")
    V.requires(tm.le(0, m), tm.lt(m, M))
    t = at(V, T3, k, m, N)
    l1, l2, l3 = V.real("l1", "l2", "l3")
    V.requires(tm.le(0, l1), tm.le(0, l2), tm.le(0, l3), tm.eq(l1 + l2 + l3, 1))
    l3 = 1 - l1 - l2
    ps = [P(i) for i in t]
    x, y = [sum((l * p[j] for l, p in zip((l1, l2, l3), ps)), tm.rconst(0)) for j in (0, 1)]
    a = area2(P, t)
    V.cover("a point of a triangle of the grid")

    def ens(r):
        if r is not None:
            return True
        # no triangle accepted the point: in particular not number m
        for f in list(V.c.facts):
            if f.op == "forall" and len(f.args) == 2 and f.args[0].sort == tm.I:
                V.requires(tm.subst(f.args[1], {f.args[0]: m}))
        for nm, side in (("counterclockwise", tm.lt(0, a)), ("clockwise", tm.lt(a, 0))):
            with V.under(side):
                for l in (l1, l2, l3):
                    g = tm.le(0, l * a) if nm == "counterclockwise" else tm.le(l * a, 0)
                    V.oblige("lemma: sign of a weight times the area", g)
                    V.requires(g)
                V.oblige(f"a point of a {nm} triangle is not reported outside", False)
        V.oblige("nondegenerate triangles have an orientation", tm.or_(tm.lt(0, a), tm.lt(a, 0)))
    V.returns("location of a point in triangle m", lambda: locate(grid, x, y), ens)


def cases():
    return [Case("located points", found, budget=200), Case("points of a triangle", inside, budget=200)]


# ------------------------------------------------------------------ concrete
def gen(rng, tier):
    for _ in range(10):
        n = rng.randint(1, 4)
        tris = [rtri(rng, -4, 4) for _ in range(n)]
        j = rng.randrange(n)
        mode = rng.choice(["in", "edge", "vertex", "out", "far"])
        a, b = sorted((rng.random(), rng.random()))
        l = {"in": (a, b - a, 1 - b), "edge": rng.choice([(a, 1 - a, 0), (0, a, 1 - a), (a, 0, 1 - a)]),
             "vertex": rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)]), "out": (1 + a, -a / 2, -a / 2), "far": (30, -20, -9)}[mode]
        yield {"tris": tris, "j": j, "l": l, "mode": mode,
               "before": [[rng.uniform(-6, 6), rng.uniform(-6, 6)] for _ in range(2)]}


def run(case):
    D, Tn = mod("domain"), mod("tensors")
    pts, tris = [], []
    for t in case["tris"]:
        tris.append((len(pts), len(pts) + 1, len(pts) + 2))
        pts += [Tn.Vector(list(p)) for p in t]
    b = D.Boundary([], [])
    es = [(t[i], t[(i + 1) % 3]) for t in tris for i in range(3)]
    g = D.Grid(list(range(len(pts))), es, tris, b, b, b, pts)
    for q in case.get("before", []):
        g.to_barycentric_point(Tn.Vector(q))
    for t in case["tris"][::-1]:
        g.to_barycentric_point(Tn.Vector([sum(p[i] for p in t) / 3 for i in (0, 1)]))
    T = case["tris"][case["j"]]
    x, y = [sum(l * p[i] for l, p in zip(case["l"], T)) for i in (0, 1)]
    r = g.to_barycentric_point(Tn.Vector([x, y]))
    if r is None:
        return f"point {x, y} in triangle {T} reported outside" if case["mode"] in ("in", "edge", "vertex") else None
    if tuple(r.triangle) not in tris:
        return f"triangle {r.triangle} is not in the grid"
    l = (r.coordinates.l1, r.coordinates.l2, r.coordinates.l3)
    Q = [(pts[i][0], pts[i][1]) for i in r.triangle]
    a = abs((Q[1][0] - Q[0][0]) * (Q[2][1] - Q[0][1]) - (Q[2][0] - Q[0][0]) * (Q[1][1] - Q[0][1]))
    for i, w in ((0, x), (1, y)):
        if not close(sum(q * p[i] for q, p in zip(l, Q)), w, 1e-9):
            return f"weights {l} of triangle {Q} give another point than {x, y}"
    if any(q * a < -TOL * 2 for q in l):
        return f"weights {l} for {x, y} in {Q}: the point is not in this triangle"
    return None
