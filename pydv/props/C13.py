"""RefinedInterpolation."""
from .steps import *
from .C12 import real
from .grids import scope

EXPLANATION = ("RefinedInterpolation is executed for an arbitrary coarse interpolation (its value, gradient, Hessian and edge values are arbitrary functions "
               "of the coarse triangle or edge and the coordinates) and a refined grid known by the contract of its two fine-to-coarse maps (C12); "
               "each of the four queries is proved to return the coarse one at the corresponding coarse point, and to reject what the maps reject.")
ASSUMPTIONS = ["RefinedGrid.to_coarse_barycentric_point and to_coarse_edge_point by their contracts (C12)"]
SEEDS = 16
SECONDS = 60


class Coarse:
    """an arbitrary interpolation"""
    __model__ = True

    def __init__(self, grid):
        self.grid = grid

    def args(self, t, c):
        return [num(v) if v.sort == "R" else v for v in (tm.lift(x) for x in interp.unpack(t, 3))] + [num(getattr_(c, "l1")), num(getattr_(c, "l2"))]

    def __call__(self, triangle, barycentric_coordinates):
        return tm.app("value", self.args(triangle, barycentric_coordinates))

    def gradient(self, triangle, barycentric_coordinates):
        a = self.args(triangle, barycentric_coordinates)
        return Vec(tm.app("gx", a), tm.app("gy", a))

    def hessian(self, triangle, barycentric_coordinates):
        a = self.args(triangle, barycentric_coordinates)
        return Mat([[tm.app("hxx", a), tm.app("hxy", a)], [tm.app("hyx", a), tm.app("hyy", a)]])

    def on_edge(self, edge, t):
        return tm.app("edgevalue", [tm.lift(x) for x in interp.unpack(edge, 2)] + [num(t)])


class Setup:
    def __init__(self, V):
        D, I = mod("domain"), mod("interpolation")
        self.tri, self.edge = [C.pyint(x) for x in V.int("i1", "i2", "i3")], [C.pyint(x) for x in V.int("j1", "j2")]
        self.l1, self.l2, self.t = V.real("l1", "l2", "t")
        self.known = V.int("listed")
        self.V = V
        bd = call(D.Boundary, [lst([]), lst([])])
        E = [lst([]), lst([]), lst([]), bd, bd, bd, lst([])]
        self.coarse_grid = call(D.Grid, E)
        self.grid = interp.construct(D.RefinedGrid, E + [self.coarse_grid, C.PDict(), C.PDict(), C.PDict(), C.PDict()], {})
        interp.CONTRACTS[D.RefinedGrid.to_coarse_barycentric_point] = lambda a, k: self.to_point(*a, **k)
        interp.CONTRACTS[D.RefinedGrid.to_coarse_edge_point] = lambda a, k: self.to_edge(*a, **k)
        self.coarse = Coarse(self.coarse_grid)
        self.f = interp.construct(I.RefinedInterpolation, [self.coarse, self.grid], {})
        V.cover("interpolation, grid and point")

    def map3(self, a):
        return tuple(C.pyint(tm.app(f"T{j}", a, tm.I)) for j in range(3)), tm.app("m1", a), tm.app("m2", a)

    def map2(self, a):
        return tuple(C.pyint(tm.app(f"E{j}", a, tm.I)) for j in range(2)), tm.app("m", a)

    def listed(self):
        return interp.truth(tm.eq(self.known, 1))

    def to_point(self, grid, fine_point):
        if grid is not self.grid:
            raise tm.Unsupported("another grid")
        if not self.listed():
            raise InterpRaise(ValueError("triangle does not appear in the grid"))
        c = getattr_(fine_point, "coordinates")
        T, a, b = self.map3([tm.lift(x) for x in interp.unpack(getattr_(fine_point, "triangle"), 3)] + [num(getattr_(c, "l1")), num(getattr_(c, "l2"))])
        return interp.construct(mod("domain").BarycentricPoint, [T, bary(a, b)], {})

    def to_edge(self, grid, fine_edge, t):
        if grid is not self.grid:
            raise tm.Unsupported("another grid")
        if not self.listed():
            raise InterpRaise(ValueError("only fine edges that lie on coarse edges are valid inputs"))
        return self.map2([tm.lift(x) for x in interp.unpack(fine_edge, 2)] + [num(t)])


def query(name):
    def fn(V):
        w = Setup(V)
        if name == "on_edge":
            args = [tuple(w.edge), w.t]
            E, s = w.map2([tm.lift(x) for x in w.edge] + [w.t])
            want = w.coarse.on_edge(E, s)
        else:
            args = [tuple(w.tri), bary(w.l1, w.l2)]
            T, a, b = w.map3([tm.lift(x) for x in w.tri] + [w.l1, w.l2])
            want = (w.coarse if name == "value" else getattr(w.coarse, name))(T, bary(a, b))
        th = lambda: call(w.f if name == "value" else getattr_(w.f, name), args)

        def ens(r):
            if name in ("value", "on_edge"):
                V.oblige(f"{name} of the coarse interpolation", same(num(r), num(want)))
            elif name == "gradient":
                V.oblige("gradient of the coarse interpolation", tm.and_(*[same(num(entry(r, i)), num(entry(want, i))) for i in (0, 1)]))
            else:
                V.oblige("Hessian of the coarse interpolation", tm.and_(*[same(num(entry(r, i, j)), num(entry(want, i, j))) for i in (0, 1) for j in (0, 1)]))
        with scope():
            V.requires(tm.eq(w.known, 1))
            V.returns(name, th, ens)
        with scope():
            V.requires(tm.eq(w.known, 0))
            V.raises(f"{name} outside the refined grid", th, ValueError)
    return fn


def cases():
    return [Case(n, query(n), budget=120) for n in ("value", "gradient", "hessian", "on_edge")]


# ---------------------------------------------------------------- real refined grids
def gen(rng, tier):
    for _ in range(4):
        yield {"nx": rng.randint(1, 2), "ny": rng.randint(1, 2), "r": rng.choice([1, 2, 3]), "s": rng.choice([1.0, 0.5, 2.0]) * zoom(rng), "fix": None,
               "seed": rng.randint(0, 10 ** 6), "kind": rng.choice(["P1", "C1"])}


def run(case):
    import random
    D, Tn, I = mod("domain"), mod("tensors"), mod("interpolation")
    rng = random.Random(case["seed"])
    d, g, f = real(case)
    u = lambda: rng.uniform(-2, 2)
    F = I.P1Interpolation(g, [u() for _ in g.points]) if case["kind"] == "P1" else I.C1Interpolation(g, [[u() for _ in range(6)] for _ in g.points])
    R = I.RefinedInterpolation(F, f)
    P = lambda G, t, l: [sum(a * float(G.points[i][k]) for a, i in zip(l, t)) for k in (0, 1)]

    def weights(T, x):
        (a, b), (c, e), (p, q) = [[float(v) for v in (g.points[i][0], g.points[i][1])] for i in T]
        A = (c - a) * (q - b) - (p - a) * (e - b)
        l2 = ((x[0] - a) * (q - b) - (p - a) * (x[1] - b)) / A
        l3 = ((c - a) * (x[1] - b) - (x[0] - a) * (e - b)) / A
        return (1 - l2 - l3, l2, l3)
    lists = lambda v: [lists(x) for x in v.data] if hasattr(v, "data") else [lists(x) for x in v] if isinstance(v, list) else float(v)

    def flat(v):
        return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]

    def differ(a, b):
        a, b = flat(lists(a)), flat(lists(b))
        return len(a) != len(b) or any(abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)) for x, y in zip(a, b))
    ls = []
    for _ in range(2):
        a, b = sorted((rng.random(), rng.random()))
        ls.append((a, b - a, 1 - b))
    # the same coordinates in one triangle after the other, and in all cyclic orders of each, and again
    ts = rng.sample(f.triangles, min(4, len(f.triangles)))
    for t, rot, l in [(t, rot, l) for t in ts for l in ls for rot in (0, 1, 2)] + [(t, 0, l) for l in ls for t in ts]:
        T = tuple(t[(i + rot) % 3] for i in range(3))
        x = P(f, T, l)
        c = P(f, T, (1 / 3, 1 / 3, 1 / 3))
        K = next(K for K in g.triangles if min(weights(K, c)) > 1e-9)
        k = weights(K, x)
        at = (T, Tn.BarycentricCoordinates(l[0], l[1])), (K, Tn.BarycentricCoordinates(k[0], k[1]))
        for nm in ("__call__", "gradient") + (("hessian",) if case["kind"] == "C1" else ()):
            v, w = getattr(R, nm)(*at[0]), getattr(F, nm)(*at[1])
            if differ(v, w):
                return f"{case['kind']} {nm} at {l} of fine triangle {T}: {v}, coarse interpolation: {w}"
    s = case["s"]
    n = 0
    for e in rng.sample(f.edges, len(f.edges)):
        p, q = ([float(f.points[i][k]) / s for k in (0, 1)] for i in e)
        for E in g.edges:
            P0, P1 = ([float(g.points[i][k]) / s for k in (0, 1)] for i in E)
            dx, dy = P1[0] - P0[0], P1[1] - P0[1]
            par = [((z[0] - P0[0]) * dx + (z[1] - P0[1]) * dy) / (dx * dx + dy * dy) for z in (p, q)]
            off = [abs((z[0] - P0[0]) * dy - (z[1] - P0[1]) * dx) for z in (p, q)]
            if max(off) < 1e-7 and min(par) > -1e-7 and max(par) < 1 + 1e-7:
                t = rng.random()
                z = t * par[0] + (1 - t) * par[1]
                v, w = R.on_edge(e, t), F.on_edge(E, 1 - z)
                if differ(v, w):
                    return f"{case['kind']} on_edge({e}, {t}) is {v}, coarse interpolation on {E}: {w}"
                n += 1
        if n > 5:
            break
