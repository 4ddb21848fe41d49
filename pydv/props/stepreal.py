"""The real steps with the real Pyomo and a solver stub, against numpy (concrete side of C21-C25)."""
import logging, math, random
from ..lib import mod, close

logging.getLogger("pyomo").setLevel(logging.ERROR)
FIX = [None, "left", "lower", ["left", "right"], ["upper", "lower", "left", "right"], "upper"]


class Solver:
    """answers with random values for the free variables and records what it was given"""

    def __init__(self, seed, amp=0.08, objective=True):
        self.rng, self.amp, self.objective, self.log = random.Random(seed), amp, objective, []

    def solve(self, model, *a, **k):
        import pyomo.environ as pyo
        vs = list(model.component_data_objects(pyo.Var))
        rec = {"start": {id(v): v.value for v in vs}, "bounds": {id(v): v.bounds for v in vs}, "fixed": sum(v.fixed for v in vs), "n": len(vs),
               "model": model, "constraints": []}
        for v in vs:
            if not v.fixed:
                lo, hi = v.bounds
                x = (v.value or 0.0) + self.rng.uniform(-1, 1) * self.amp
                v.set_value(x if lo is None else min(max(x, lo), hi), skip_validation=True)
        os_ = list(model.component_data_objects(pyo.Objective, active=True))
        rec["sense"] = [o.sense for o in os_]
        rec["objective"] = [pyo.value(o) for o in os_] if self.objective else None
        self.log.append(rec)


def build(case):
    D = mod("domain")
    fix = case["fix"]
    d = D.RectangleDomain(case["w"], case["h"], fix)
    g = d.grid(1)
    if case["reg"] is None and case.get("shuffle"):
        g = relabelled(g, random.Random(case["shuffle"]))
    rf = d.refine(g, case["r"]) if case["reg"] is not None else None
    if case.get("turn"):
        for G in (g, rf):
            if G is not None:
                G.points = [mod("tensors").Vector(turned(p, case["turn"])) for p in G.points]
    return d, g, rf


def turned(p, a):
    return [math.cos(a) * p[0] - math.sin(a) * p[1], math.sin(a) * p[0] + math.cos(a) * p[1]]


def relabelled(g, rng):
    """the same grid with other vertex numbers, its collections listed in another order"""
    D = mod("domain")
    n = len(g.points)
    new = rng.sample(range(n), n)

    def mix(xs):
        return rng.sample(xs, len(xs))

    def bd(b):
        return D.Boundary(mix([new[v] for v in b.vertices]), mix([tuple(mix([new[v] for v in e])) for e in b.edges]))

    pts = [None] * n
    for i, p in enumerate(g.points):
        pts[new[i]] = p
    return D.Grid(list(range(n)), mix([tuple(new[v] for v in e) for e in g.edges]), mix([tuple(new[v] for v in t) for t in g.triangles]),
                  bd(g.boundary), bd(g.dirichlet_boundary), bd(g.neumann_boundary), pts)


def traction(t, x, y):
    return [0.3 + t * x - 0.2 * y, -0.1 + 0.5 * x + t * t * y]


def setting(rng):
    reg = rng.choice([None, None, None, 0.0, 0.4])
    n = 1 if reg is not None else 2
    return {"w": rng.randint(1, n), "h": rng.randint(1, n), "fix": rng.choice(FIX), "reg": reg, "r": rng.choice([1, 1, 1, 2]),
            "seed": rng.randint(0, 10 ** 6), "th0": rng.choice([0.0, 0.7]), "radius": rng.choice([0.5, 1.0]), "fps": rng.choice([1, 3, 7.5]),
            "t": rng.choice([0.0, 0.25, 2.0]), "turn": rng.choice([0, 0, 0.6, 2.1]), "shuffle": rng.choice([0, 0, rng.randint(1, 10 ** 6)])}


def P(g):
    return [[float(p[0]), float(p[1])] for p in g.points]


def area(p, t):
    (a, b), (c, d), (e, f) = (p[i] for i in t)
    return abs((c - a) * (f - b) - (e - a) * (d - b)) / 2


def grad1(p, t, u):
    """gradient of the affine function with these vertex values"""
    import numpy as np
    (a, b), (c, d), (e, f) = (p[i] for i in t)
    return np.linalg.solve(np.array([[c - a, d - b], [e - a, f - b]]), np.array([u[1] - u[0], u[2] - u[0]]))


def quad(name):
    return [(w, tuple(p)) for w, p in getattr(mod("quadrature_rules"), name)]


def M(a):
    return mod("tensors").Matrix([list(map(float, r)) for r in a])


class P1Def:
    def __init__(self, g, y):
        self.p, self.y = P(g), y

    def strain(self, t, l):
        return [grad1(self.p, t, [self.y[i][c] for i in t]) for c in (0, 1)]


class C1Def:
    """C1 deformation on the coarse grid evaluated on fine triangles; the coarse triangle is found geometrically"""

    def __init__(self, g, fine, y):
        I = mod("interpolation")
        self.g, self.p, self.fp = g, P(g), P(fine)
        self.c = [I.C1Interpolation(g, [[float(v) for v in y[i][c]] for i in range(len(g.points))]) for c in (0, 1)]

    def where(self, t, l):
        cen = [sum(self.fp[i][k] for i in t) / 3 for k in (0, 1)]
        for T in self.g.triangles:
            b = self.bary(T, cen)
            if min(b) > -1e-9:
                x = [sum(w * self.fp[i][k] for w, i in zip(l, t)) for k in (0, 1)]
                b = self.bary(T, x)
                return T, mod("tensors").BarycentricCoordinates(b[0], b[1])
        raise AssertionError("fine triangle outside the coarse grid")

    def bary(self, T, x):
        import numpy as np
        A = np.array([[self.p[i][0] for i in T], [self.p[i][1] for i in T], [1, 1, 1]])
        return [float(v) for v in np.linalg.solve(A, np.array([x[0], x[1], 1.0]))]

    def strain(self, t, l):
        w = self.where(t, l)
        return [[f.gradient(*w)[0], f.gradient(*w)[1]] for f in self.c]

    def hyper(self, t, l):
        w = self.where(t, l)
        return [[[f.hessian(*w)[i, j] for j in (0, 1)] for i in (0, 1)] for f in self.c]


def mech_objective(case, g, fine, y, prev, theta, t):
    h = mod("helpers")
    reg, fps = case["reg"], case["fps"]
    if reg is None:
        d, dp, G = P1Def(g, y), P1Def(g, prev), g
        rules = ("DUNAVANT2", "CENTROID")
    else:
        d, dp, G = C1Def(g, fine, y), C1Def(g, fine, prev), fine
        rules = ("DUNAVANT5", "DUNAVANT5")
    p = P(G)
    tot = 0.0
    for T in G.triangles:
        a = area(p, T)
        for w, l in quad(rules[0]):
            tot += a * w * h.total_elastic_potential(M(d.strain(T, l)), sum(x * theta[i] for x, i in zip(l, T)))
            if reg is not None:
                tot += reg * a * w * sum(x * x for A in d.hyper(T, l) for r in A for x in r) ** 1.5
        for w, l in quad(rules[1]):
            tot += fps * a * w * h.dissipation_potential(M(dp.strain(T, l)), M(d.strain(T, l)))
    if reg is None:
        for i, j in g.neumann_boundary.edges:
            gi, gj = traction(t, *p[i]), traction(t, *p[j])
            tot -= math.dist(p[i], p[j]) * sum((gi[c] + gj[c]) / 2 * (y[i][c] + y[j][c]) / 2 for c in (0, 1))
    return tot


def identity(g, reg):
    import numpy as np
    if reg is None:
        return np.array(P(g))
    return np.array([[[x, 1, 0, 0, 0, 0], [y, 0, 1, 0, 0, 0]] for x, y in P(g)], dtype=float)


def perturbed(g, reg, rng, amp=0.05):
    import numpy as np
    a = identity(g, reg)
    return a + np.array([rng.uniform(-amp, amp) for _ in range(a.size)]).reshape(a.shape)


def temps(n, rng):
    import numpy as np
    return np.array([rng.choice([0.0, rng.uniform(0, 1)]) for _ in range(n)])


def mech(case, solver):
    m = mod("mechanical_step")
    d, g, fine = build(case)
    st = m.mechanical_step(solver, g, m.MechanicalStepParams(case["th0"], case["radius"], case["fps"], case["reg"]), fine, traction)
    return g, fine, st


def external(t):
    return 0.4 + 0.3 * t


def therm(case, solver, prev, y, theta):
    m = mod("thermal_step")
    d, g, fine = build(case)
    st = m.thermal_step(solver, g, prev, y, theta, m.ThermalStepParams(case["radius"], case["fps"], case["reg"]), external, fine)
    return g, fine, st


def therm_objective(case, g, fine, theta, prev, y, ptheta, t):
    import numpy as np
    h = mod("helpers")
    reg, fps = case["reg"], case["fps"]
    if reg is None:
        d, dp, G, rule = P1Def(g, y), P1Def(g, prev), g, "DUNAVANT2"
    else:
        d, dp, G, rule = C1Def(g, fine, y), C1Def(g, fine, prev), fine, "DUNAVANT5"
    p = P(G)
    tot = 0.0
    for T in G.triangles:
        a = area(p, T)
        gr = grad1(p, T, [theta[i] for i in T])
        for w, l in quad(rule):
            th, pth = (sum(x * v[i] for x, i in zip(l, T)) for v in (theta, ptheta))
            F0, F1 = np.array(dp.strain(T, l), dtype=float), np.array(d.strain(T, l), dtype=float)
            K = np.linalg.det(F0) * np.linalg.inv(F0) @ np.linalg.inv(F0).T
            S = np.array(h.strain_derivative_coupling_potential(M(F0), pth).data, dtype=float)
            C = (F1 - F0).T @ F0 + F0.T @ (F1 - F0)
            rate = (C * C).sum() * fps ** 2
            tot += a * w * (gr @ K @ gr - (rate + (S * (F1 - F0)).sum() * fps) * th)
            tot += a * w * fps * (h.ENTROPY_CONSTANT / 2 * (th - pth) ** 2 + h.temp_antrider_internal_energy_no_entropy(M(F1), th)
                                  - h.internal_energy_no_entropy(M(F0), pth) * th)
    if reg is None:
        for i, j in g.boundary.edges:
            tot += math.dist(p[i], p[j]) * h.HEAT_TRANSFER_COEFFICIENT / 2 * ((theta[i] + theta[j]) / 2 - external(t)) ** 2
    return tot
