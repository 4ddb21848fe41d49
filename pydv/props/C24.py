"""Dirichlet conditions of the mechanical step."""
from .steps import *
from .C23 import setting, cst

STATEFUL = True
EXPLANATION = ("the mechanical step is built on an arbitrary grid; in the problem handed to the solver - the first one and any later one, after an arbitrary "
               "history - an unknown is proved to be fixed exactly when it is a position unknown of a Dirichlet vertex, its value is proved to be the "
               "identity whenever the state passed on is, and the only constraints are proved to be those saying that the trace on Dirichlet edges is "
               "the identity.  Induction over the steps: the thermal step passes deformations on unchanged (C23, C25).")
ASSUMPTIONS = ["the solver returns fixed unknowns unchanged (Pyomo/ipopt contract)"]
SECONDS = 60
SEEDS = 16


def is_dirichlet(W, i):
    """vertex i is listed in the Dirichlet part"""
    k = W.k
    kk = tm.var("%dv", tm.I)
    d = tm.subst(W.dv, {k: kk})
    return tm.not_(tm.forall((kk,), tm.implies(tm.and_(tm.le(0, kk), tm.lt(kk, W.nD)), tm.not_(tm.eq(d, i)))))


def fixed(V, W, L, label, S, n, y):
    p = S.problems[n]
    for e in L.entries():
        c, ix = p.entry(unknown(y.get(*e))[1])
        with p.at():
            fx = c.fixed_term(ix)
        value = len(e) == 2 or e[2].args[0] == 0
        if not value:
            V.oblige(f"{label}: unknown {e} is free", tm.not_(fx))
            continue
        m = V.c.mark()
        V.requires(fx)
        V.oblige(f"{label}: unknown {e} is fixed only at Dirichlet vertices", is_dirichlet(W, e[0]))
        V.c.cut(m)
        # the generic Dirichlet vertex
        d = V.int("dirichlet_position")
        V.requires(tm.le(0, d), tm.lt(d, W.nD))
        v = tm.subst(W.dv, {W.k: d})
        at = [tm.subst(x, {e[0]: v}) for x in map(tm.lift, ix)]
        with p.at():
            fx = c.fixed_term(tuple(C.pyint(x) for x in at))
            val = c.value_at(tuple(C.pyint(x) for x in at))
        V.oblige(f"{label}: unknown {e} is fixed at Dirichlet vertices", fx)
        want = W.p(v)[cst(e)[1]]
        V.oblige(f"{label}: unknown {e} is fixed at the identity", tm.FALSE if val is None else same(val, want))
        V.oblige(f"{label}: answer {e} is the identity at Dirichlet vertices", same(y.get(v, *e[1:]), want))
        V.c.cut(m)


def holds(nodes):
    """formula: all constraints of the problem hold, as [(binder, count, formula)] and plain formulas"""
    out = []
    for nd in nodes:
        if isinstance(nd, C.Item):
            out.append((None, None, nd.v))
        elif isinstance(nd, C.If):
            out += [(k, n, tm.implies(nd.c, f)) for k, n, f in holds(nd.nodes)]
        elif isinstance(nd, C.For):
            inner = holds(nd.nodes)
            for k, n, f in inner:
                if k is None:
                    out.append((nd.k, nd.n, f))
                elif isinstance(n, int) or n.op == "const":
                    m = n if isinstance(n, int) else n.args[0]
                    out += [(nd.k, nd.n, tm.subst(f, {k: tm.const(i)})) for i in range(int(m))]
                else:
                    raise tm.Unsupported("nested constraint indices")
        else:
            raise tm.Unsupported("constraints")
    return out


def hermite(W, e, u, c):
    """the six conditions saying that component c of the trace on edge e is the identity"""
    (px, py), (qx, qy) = W.p(e[0]), W.p(e[1])
    dx, dy = qx - px, qy - py
    out = []
    for v, x in ((e[0], (px, py)), (e[1], (qx, qy))):
        out.append(tm.eq(u(v, 0), x[c]))
        out.append(tm.eq(u(v, 1) * dx + u(v, 2) * dy, (dx, dy)[c]))
        out.append(tm.eq(u(v, 3) * dx * dx + 2 * u(v, 4) * dx * dy + u(v, 5) * dy * dy, ZERO))
    return out


def constraints(V, W, L, label, S, n, y, reg):
    p = S.problems[n]
    fs = holds(p.constraints)
    if not reg:
        V.oblige(f"{label}: no constraints", len(fs) == 0)
        return
    i = V.int("vertex")
    us = []
    for c in (0, 1):
        ts = [unknown(y.get(i, tm.const(c), tm.const(j)))[1] for j in range(6)]
        us.append(lambda ix, j, ts=ts: tm.subst(ts[j], {i: tm.lift(ix)}))
    e = V.int("dirichlet_edge")
    m = V.c.mark()
    V.requires(tm.le(0, e), tm.lt(e, W.nDe))
    edge = tuple(tm.subst(x, {W.k: e}) for x in W.dE2)
    want = [f for c in (0, 1) for f in hermite(W, edge, us[c], c)]
    got = []
    for k, cnt, f in fs:
        if k is None:
            V.oblige(f"{label}: a constraint besides the Dirichlet conditions", False)
            continue
        V.oblige(f"{label}: one family per Dirichlet edge", tm.eq(tm.lift(cnt), W.nDe))
        got.append(tm.subst(f, {k: e}))
    mm = V.c.mark()
    for f in want:
        V.requires(f)
    for n_, f in enumerate(got):
        V.oblige(f"{label}: constraint {n_} follows from the identity trace", f)
    V.c.cut(mm)
    for f in got:
        V.requires(f)
    V.cover(f"{label}: the constraints")
    for n_, f in enumerate(want):
        V.oblige(f"{label}: the constraints imply condition {n_}", f)
    V.c.cut(m)


def first(reg):
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ())

        def th():
            S, st = mech_step(W, th0, r, fps, g)
            meth(st, "solve")
            return S, meth(st, "y")

        def ens(v):
            S, y = v
            fixed(V, W, L, "first problem", S, 0, y)
            constraints(V, W, L, "first problem", S, 0, y, reg)
        V.returns("construction", th, ens)
    return fn


def later(reg):
    """from an arbitrary state, with a previous deformation that is the identity at Dirichlet vertices"""
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("newtheta",))
        k = W.k
        for c in (0, 1):
            a = tm.app("newy", [W.dv, tm.const(c)] + ([tm.const(0)] if reg else []))
            V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, W.nD)), tm.eq(a, W.p(W.dv)[c]))))
        V.cover("identity at Dirichlet vertices")

        def th():
            S, st = mech_step(W, th0, r, fps, g)
            meth(st, "solve")
            S.problems[0].model.havoc()
            meth(st, "update_prev_y", L.y("newy"))
            meth(st, "update_prev_theta", L.theta("newtheta"))
            meth(st, "update_boundary_traction", V.real("time"))
            meth(st, "solve")
            return S, meth(st, "y")

        def ens(v):
            S, y = v
            fixed(V, W, L, "next problem", S, 1, y)
            constraints(V, W, L, "next problem", S, 1, y, reg)
        V.returns("updates", th, ens)
    return fn


def trace_lemma(V):
    """a quintic trace with the six end conditions is the identity along the whole edge"""
    from .bell import herm5
    x, d, s = V.real("x", "d", "s")
    data = [x, d, ZERO, x + d, d, ZERO]
    V.oblige("lemma: trace with identity end data is affine and equals the identity",
             tm.eq(sum((c * v for c, v in zip(herm5(s), data)), ZERO), x + s * d))


def cases():
    from .bell import on_edge
    return [Case(f"{'regularised' if r else 'unregularised'}, {n}", f(r), budget=240)
            for r in (False, True) for n, f in (("first problem", first), ("problem after updates", later))] + \
        [Case("trace of the C1 interpolation on an edge", on_edge, budget=60), Case("trace lemma", trace_lemma, budget=30)]


def gen(rng, tier):
    from .stepreal import setting as s
    for _ in range(12):
        yield s(rng)


def run(case):
    import numpy as np, random
    import pyomo.environ as pyo
    from . import stepreal as sr
    reg = case["reg"]
    sol = sr.Solver(case["seed"], amp=0.4, objective=False)
    g, fine, st = sr.mech(case, sol)
    w, h = case["w"], case["h"]
    sides = [] if case["fix"] is None else [case["fix"]] if isinstance(case["fix"], str) else case["fix"]
    on = lambda p: any(abs(v) < 1e-9 for s in sides for v in [{"left": p[0], "right": p[0] - w, "lower": p[1], "upper": p[1] - h}[s]])
    P = sr.P(g)
    dir_ = [i for i, p in enumerate(P) if on(sr.turned(p, -case.get("turn", 0)))]
    rng = random.Random(case["seed"] + 7)
    nt = len((g if reg is None else fine).vertices)
    for n in range(3):
        if n:
            y = np.asarray(st.y()).astype(float)
            st.update_prev_y(y)
            st.update_prev_theta(sr.temps(nt, rng))
            st.update_boundary_traction(case["t"] + n)
        st.solve()
        y = np.asarray(st.y()).astype(float)
        for i in dir_:
            got = y[i] if reg is None else y[i, :, 0]
            if np.abs(got - np.array(P[i])).max() > 1e-12:
                return f"step {n}: Dirichlet vertex {i} at {P[i]} is moved to {got.tolist()}"
        rec = sol.log[n]
        if rec["fixed"] != 2 * len(dir_):
            return f"step {n}: {rec['fixed']} unknowns fixed for {len(dir_)} Dirichlet vertices"
        m = rec["model"]
        cons = list(m.component_data_objects(pyo.Constraint, active=True))
        if reg is None and cons:
            return f"step {n}: {len(cons)} constraints"
        if reg is not None:
            r = constraint_space(m, cons, g, st, P, rng)
            if r:
                return f"step {n}: {r}"
    return None


def constraint_space(m, cons, g, st, P, rng):
    """the constraints hold for deformations with identity trace on the Dirichlet edges, and each kind of violation is noticed"""
    import numpy as np
    import pyomo.environ as pyo
    vs = list(m.component_data_objects(pyo.Var))
    keep = [(v, v.value) for v in vs]
    try:
        tag = {}
        for k, v in enumerate(vs):
            v.set_value(float(k) + 1000.5, skip_validation=True)
            tag[float(k) + 1000.5] = v
        y = np.asarray(st.y()).astype(float)
        N = len(P)
        var = {(i, c, j): tag[y[i, c, j]] for i in range(N) for c in (0, 1) for j in range(6)}
        edges = [tuple(e) for e in g.dirichlet_boundary.edges]

        def fill(u):
            for k, v in var.items():
                v.set_value(float(u[k]), skip_validation=True)
            return max([abs(pyo.value(c.body) - pyo.value(c.lower)) for c in cons if c.equality] + [0.0])
        base = np.array([[[p[0], 1, 0, 0, 0, 0], [p[1], 0, 1, 0, 0, 0]] for p in P], dtype=float)
        rnd = base + np.array([rng.uniform(-1, 1) for _ in range(base.size)]).reshape(base.shape)
        # identity trace on an edge of direction d: value, first and second derivative along d at both ends
        ends = {}
        for i, j in edges:
            d = np.array([P[j][0] - P[i][0], P[j][1] - P[i][1]])
            d = d / np.linalg.norm(d) * (1 if max(d, key=abs) > 0 else -1)
            for v in (i, j):
                if not any(np.allclose(d, e) for e in ends.setdefault(v, [])):
                    ends[v].append(d)
        rows = {v: np.array([[1, 0, 0, 0, 0, 0]] + [[0, d[0], d[1], 0, 0, 0] for d in ds]
                            + [[0, 0, 0, d[0] ** 2, 2 * d[0] * d[1], d[1] ** 2] for d in ds]) for v, ds in ends.items()}
        free = rnd.copy()
        for v, A in rows.items():
            for c in (0, 1):
                free[v, c] -= np.linalg.pinv(A) @ (A @ (rnd[v, c] - base[v, c]))
        if any(not c.equality for c in cons):
            return "an inequality constraint"
        r = fill(free)
        if r > 1e-9:
            return f"a constraint is violated ({r}) by a deformation with identity trace on the Dirichlet edges"
        for v, A in rows.items():
            for c in (0, 1):
                for row in A:
                    u = free.copy()
                    u[v, c] += 0.5 * row / np.linalg.norm(row)
                    if fill(u) < 1e-6:
                        return f"no constraint notices a trace different from the identity (vertex {v}, component {c}, derivatives {row.tolist()})"
        return None
    finally:
        for v, x in keep:
            v.set_value(x, skip_validation=True)
