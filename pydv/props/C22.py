"""Objective of the thermal step."""
from .steps import *

STATEFUL = True
EXPLANATION = ("thermal_step() is executed on an arbitrary grid (symbolic numbers of vertices, triangles, boundary edges) with a solver stub; "
               "the objective found in the problem handed to the solver is proved equal to the documented functional of the unknown temperature, at "
               "construction and after arbitrary earlier values followed by updates.")
ASSUMPTIONS = ["leggauss(1) is the midpoint rule: node 0, weight 2", "the external temperature is non-negative (a negative one is rejected by Pyomo)"]
SECONDS = 60
SEEDS = 16


def make(W, prev, y, theta, r, fps, reg):
    M = mod("thermal_step")
    S = PM.SolverM()
    ext = interp.Opaque(lambda t: tm.app("ext", [num(t)]))
    step = call(M.thermal_step, [S, W.grid, prev, y, theta, interp.construct(M.ThermalStepParams, [r, fps, reg], {}), ext, W.fine])
    return S, step


def meth(o, name, *a):
    return call(getattr_(o, name), list(a))


def unknowns(V, theta):
    i = V.int("vertex")
    t = unknown(theta.get(i))[1]
    return lambda ix: tm.subst(t, {i: tm.lift(ix)})


def spec(W, th, prev, y, pth, ext, fps, reg):
    """the documented functional of the unknown temperature th"""
    H = mod("helpers")
    if reg is None:
        strain = lambda u, tri, l: Mat([p1_grad(W, u[0], tri), p1_grad(W, u[1], tri)])
        tag, deg = "", 2
    else:
        strain = lambda u, tri, l: Mat([c1_grad(W, u[0], tri, l), c1_grad(W, u[1], tri, l)])
        tag, deg = "f", 5

    def energy(tri, l):
        F0, F1 = strain(prev, tri, l), strain(y, tri, l)
        K = data(helper("heat_conductivity_reference", F0))
        S = data(helper("strain_derivative_coupling_potential", F0, p1_val(W, pth, tri, l)))
        g = p1_grad(W, th, tri, tag or "c")
        rate = num(helper("dissipation_rate", F0, F1, fps))
        a, b = data(F1), data(F0)
        work = sum((S[i][j] * (a[i][j] - b[i][j]) * fps for i in (0, 1) for j in (0, 1)), ZERO)
        diff = sum((g[i] * K[i][j] * g[j] for i in (0, 1) for j in (0, 1)), ZERO)
        return diff - (rate + work) * p1_val(W, th, tri, l)

    def diss(tri, l):
        F0, F1 = strain(prev, tri, l), strain(y, tri, l)
        t, p = p1_val(W, th, tri, l), p1_val(W, pth, tri, l)
        return (num(H.ENTROPY_CONSTANT) / 2 * (t - p) * (t - p) + num(helper("temp_antrider_internal_energy_no_entropy", F1, t))
                - num(helper("internal_energy_no_entropy", F0, p)) * t)
    r = integral(W, deg, energy, tag) + fps * integral(W, deg, diss, tag)
    if reg is None:
        def transfer(e):
            m = (th(e[0]) + th(e[1])) / 2 - ext
            return num(H.HEAT_TRANSFER_COEFFICIENT) / 2 * m * m
        r = r + edge_integral(W, W.bE2, W.nBe, transfer)
    return r


def setting(V, regularized):
    W = World(V, regularized)
    r, fps, reg = V.real("radius", "fps", "regularization")
    V.requires(tm.lt(0, r), tm.lt(0, fps), tm.le(0, reg), tm.le(0, tm.app("ext", [ZERO])), tm.le(0, tm.app("ext", [V.real("time")])))
    nt = W.Nf if regularized else W.N
    for nm in ("theta0", "newtheta"):
        nonneg(V, nm, nt)
    V.cover("grid and parameters")
    return W, nt, r, fps, reg if regularized else None


def ystate(nm, W, regularized):
    return state(nm, W.N, 2, 6) if regularized else state(nm, W.N, 2)


def yfun(nm, regularized):
    if regularized:
        return [lambda i, j, c=c: tm.app(nm, [tm.lift(i), tm.const(c), tm.const(j)]) for c in (0, 1)]
    return [lambda i, c=c: tm.app(nm, [tm.lift(i), tm.const(c)]) for c in (0, 1)]


def check(V, label, W, S, step, n, prev, y, pth, ext, fps, reg):
    theta = meth(step, "theta")
    p = S.problems[n]
    V.oblige(f"{label}: one objective, to be minimised", len(p.objective) == 1 and p.sense == [PM.pyo.minimize])
    th = unknowns(V, theta)
    with defined_where():
        want = spec(W, th, yfun(prev, reg is not None), yfun(y, reg is not None), lambda i: tm.app(pth, [tm.lift(i)]), ext, fps, reg)
    V.oblige(f"{label}: objective is the documented functional",
             tm.eq(p.objective[0], want))


def first(regularized):
    def fn(V):
        W, nt, r, fps, reg = setting(V, regularized)

        def th():
            S, step = make(W, ystate("prev0", W, regularized), ystate("y0", W, regularized), state("theta0", nt), r, fps, reg)
            meth(step, "solve")
            return S, step

        def ens(v):
            S, step = v
            V.oblige("one problem solved", len(S.problems) == 1)
            check(V, "first problem", W, S, step, 0, "prev0", "y0", "theta0", tm.app("ext", [ZERO]), fps, reg)
        V.returns("construction and first solve", th, ens)
    return fn


def later(regularized):
    def fn(V):
        W, nt, r, fps, reg = setting(V, regularized)

        def th():
            S, step = make(W, ystate("prev0", W, regularized), ystate("y0", W, regularized), state("theta0", nt), r, fps, reg)
            meth(step, "solve")
            S.problems[0].model.havoc()
            meth(step, "update_prev_y", ystate("newprev", W, regularized))
            meth(step, "update_prev_theta", state("newtheta", nt))
            meth(step, "update_y", ystate("newy", W, regularized))
            meth(step, "update_external_temperature", V.real("time"))
            meth(step, "solve")
            return S, step

        def ens(v):
            S, step = v
            V.oblige("one more problem solved", len(S.problems) == 2)
            check(V, "later problem", W, S, step, 1, "newprev", "newy", "newtheta", tm.app("ext", [V.real("time")]), fps, reg)
        V.returns("updates and solve", th, ens)
    return fn


def cases():
    return [Case(f"{'regularised' if r else 'unregularised'}, {n}", f(r), budget=240)
            for r in (False, True) for n, f in (("first problem", first), ("problem after updates", later))]


def gen(rng, tier):
    from .stepreal import setting as s
    for _ in range(12):
        yield s(rng)


def run(case):
    import numpy as np, random
    from . import stepreal as sr
    sol = sr.Solver(case["seed"])
    rng = random.Random(case["seed"] + 1)
    reg = case["reg"]
    d, g, fine = sr.build(case)
    nt = len((g if reg is None else fine).vertices)
    new = lambda: (sr.perturbed(g, reg, rng), sr.perturbed(g, reg, rng), sr.temps(nt, rng))
    prev, y, pth = new()
    g, fine, st = sr.therm(case, sol, prev, y, pth)

    def cmp(n, prev, y, pth, t):
        want = sr.therm_objective(case, g, fine, np.asarray(st.theta()), prev, y, pth, t)
        got = sol.log[n]["objective"]
        if len(got) != 1 or sol.log[n]["sense"] != [1]:
            return f"problem {n}: {len(got)} objectives, senses {sol.log[n]['sense']}"
        if not close(got[0], want, 1e-7, 1 + abs(want)):
            return f"problem {n}: objective {got[0]}, expected {want} ({case})"
    st.solve()
    r = cmp(0, prev, y, pth, 0)
    if r:
        return r
    for n in (1, 2):
        prev, y, pth = new()
        t = case["t"] + n - 1
        fs = [lambda: st.update_prev_y(prev), lambda: st.update_prev_theta(pth), lambda: st.update_y(y), lambda: st.update_external_temperature(t)]
        rng.shuffle(fs)
        for f in fs:
            f()
        st.solve()
        r = cmp(n, prev, y, pth, t)
        if r:
            return r
    return None
