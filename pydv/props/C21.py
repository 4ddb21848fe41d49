"""Objective of the mechanical step."""
from .steps import *

STATEFUL = True
EXPLANATION = ("mechanical_step() is executed on an arbitrary grid (symbolic numbers of vertices, triangles, boundary edges) with a solver stub; "
               "the objective found in the problem handed to the solver is proved equal to the documented functional of the unknowns, at "
               "construction and after arbitrary earlier values followed by updates.")
ASSUMPTIONS = ["leggauss(1) is the midpoint rule: node 0, weight 2"]
SECONDS = 60
SEEDS = 16


def traction(V):
    return interp.Opaque(lambda t, x, y: lst([tm.app("g1", [num(t), num(x), num(y)]), tm.app("g2", [num(t), num(x), num(y)])]))


def scalars(V, *names):
    r = V.real(*names)
    return r


def make(W, th0, r, fps, reg, bt):
    M = mod("mechanical_step")
    S = PM.SolverM()
    step = call(M.mechanical_step, [S, W.grid, interp.construct(M.MechanicalStepParams, [th0, r, fps, reg], {}), W.fine, bt])
    return S, step


def meth(o, name, *a):
    return call(getattr_(o, name), list(a))


def elastic(F, th):
    return num(helper("total_elastic_potential", F, th))


def unknowns(V, y, reg):
    """y(i[, j])[c] -> unknown in expressions"""
    i = V.int("vertex")
    out = []
    for c in (0, 1):
        if not reg:
            t = unknown(y.get(i, tm.const(c)))[1]
            out.append(lambda ix, t=t: tm.subst(t, {i: tm.lift(ix)}))
        else:
            ts = [unknown(y.get(i, tm.const(c), tm.const(j)))[1] for j in range(6)]
            out.append(lambda ix, j, ts=ts: tm.subst(ts[j], {i: tm.lift(ix)}))
    return out


def spec(W, yv, prev, prev_theta, g, fps, reg):
    """the documented functional of the unknowns yv"""
    D = mod("helpers").dissipation_potential
    if reg is None:
        strain = lambda u, tri: Mat([p1_grad(W, u[0], tri), p1_grad(W, u[1], tri)])
        el = integral(W, 2, lambda tri, l: elastic(strain(yv, tri), p1_val(W, prev_theta, tri, l)))
        di = integral(W, 1, lambda tri, l: num(call(D, [strain(prev, tri), strain(yv, tri)])))
        mid = lambda u, e: (u(e[0]) + u(e[1])) / 2
        tr = edge_integral(W, W.nE2, W.nNe, lambda e: sum((mid(g[c], e) * mid(yv[c], e) for c in (0, 1)), ZERO))
        return el - tr + fps * di
    strain = lambda u, tri, l: Mat([c1_grad(W, u[0], tri, l), c1_grad(W, u[1], tri, l)])
    el = integral(W, 5, lambda tri, l: elastic(strain(yv, tri, l), p1_val(W, prev_theta, tri, l)), "f")
    di = integral(W, 5, lambda tri, l: num(call(D, [strain(prev, tri, l), strain(yv, tri, l)])), "f")
    hy = integral(W, 5, lambda tri, l: num(helper("hyper_elastic_potential", Ten([c1_hess(W, u, tri, l) for u in yv]))), "f")
    return el + reg * hy + fps * di


def setting(V, regularized):
    W = World(V, regularized)
    th0, r, fps, reg = V.real("initial_temperature", "radius", "fps", "regularization")
    V.requires(tm.le(0, th0), tm.lt(0, r), tm.lt(0, fps), tm.le(0, reg))
    V.cover("grid and parameters")
    return W, th0, r, fps, reg if regularized else None


def check(V, label, W, S, step, n, prev, prev_theta, g, fps, reg):
    y = meth(step, "y")
    p = S.problems[n]
    V.oblige(f"{label}: one objective, to be minimised", len(p.objective) == 1 and p.sense == [PM.pyo.minimize])
    yv = unknowns(V, y, reg is not None)
    with defined_where():
        want = spec(W, yv, prev, prev_theta, g, fps, reg)
    V.oblige(f"{label}: objective is the documented functional", tm.eq(p.objective[0], want))


def first(regularized):
    def fn(V):
        W, th0, r, fps, reg = setting(V, regularized)
        bt = traction(V)

        def th():
            S, step = make(W, th0, r, fps, reg, bt)
            meth(step, "solve")
            return S, step

        def ens(v):
            S, step = v
            V.oblige("one problem solved", len(S.problems) == 1)
            if regularized:
                prev = [lambda i, j, c=c: (W.p(i)[c] if j == 0 else tm.rconst(1 if j == c + 1 else 0)) for c in (0, 1)]
            else:
                prev = [lambda i, c=c: W.p(i)[c] for c in (0, 1)]
            g = [lambda i, c=c: tm.app(f"g{c + 1}", [ZERO, *W.p(i)]) for c in (0, 1)]
            check(V, "first problem", W, S, step, 0, prev, lambda i: th0, g, fps, reg)
        V.returns("construction and first solve", th, ens)
    return fn


def later(regularized):
    def fn(V):
        W, th0, r, fps, reg = setting(V, regularized)
        bt = traction(V)
        t = V.real("time")
        nv = W.N
        nt = W.Nf if regularized else W.N
        nonneg(V, "newtheta", nt)

        def th():
            S, step = make(W, th0, r, fps, reg, bt)
            meth(step, "solve")
            S.problems[0].model.havoc()
            meth(step, "update_prev_y", state("newy", nv, 2, 6) if regularized else state("newy", nv, 2))
            meth(step, "update_prev_theta", state("newtheta", nt))
            meth(step, "update_boundary_traction", t)
            meth(step, "solve")
            return S, step

        def ens(v):
            S, step = v
            V.oblige("one more problem solved", len(S.problems) == 2)
            if regularized:
                prev = [lambda i, j, c=c: tm.app("newy", [tm.lift(i), tm.const(c), tm.const(j)]) for c in (0, 1)]
            else:
                prev = [lambda i, c=c: tm.app("newy", [tm.lift(i), tm.const(c)]) for c in (0, 1)]
            g = [lambda i, c=c: tm.app(f"g{c + 1}", [t, *W.p(i)]) for c in (0, 1)]
            check(V, "later problem", W, S, step, 1, prev, lambda i: tm.app("newtheta", [tm.lift(i)]), g, fps, reg)
        V.returns("updates and solve", th, ens)
    return fn


def cases():
    return [Case(f"{'regularised' if r else 'unregularised'}, {n}", f(r), budget=240)
            for r in (False, True) for n, f in (("first problem", first), ("problem after updates", later))]


def gen(rng, tier):
    from .stepreal import setting as s
    for _ in range(12):
        yield s(rng)


def run(case):
    import numpy as np, random
    from . import stepreal as sr
    sol = sr.Solver(case["seed"])
    g, fine, st = sr.mech(case, sol)
    rng = random.Random(case["seed"] + 1)
    reg = case["reg"]
    nt = len((g if reg is None else fine).vertices)

    def cmp(n, prev, theta, t):
        want = sr.mech_objective(case, g, fine, np.asarray(st.y()), prev, theta, t)
        got = sol.log[n]["objective"]
        if len(got) != 1 or sol.log[n]["sense"] != [1]:
            return f"problem {n}: {len(got)} objectives, senses {sol.log[n]['sense']}"
        if not close(got[0], want, 1e-7, 1 + abs(want)):
            return f"problem {n}: objective {got[0]}, expected {want} ({case})"
    st.solve()
    r = cmp(0, sr.identity(g, reg), np.full(nt, case["th0"]), 0)
    if r:
        return r
    for n in (1, 2):
        prev, theta, t = sr.perturbed(g, reg, rng), sr.temps(nt, rng), case["t"] + n - 1
        if n == 1:
            st.update_prev_y(prev)
            st.update_prev_theta(theta)
        else:
            st.update_prev_theta(theta)
            st.update_prev_y(prev)
        st.update_boundary_traction(t)
        st.solve()
        r = cmp(n, prev, theta, t)
        if r:
            return r
    return None
