"""Updates of the steps: previous state, starting guess, search box."""
from .steps import *

STATEFUL = True
EXPLANATION = ("both steps are built on an arbitrary grid, brought into an arbitrary state (all parameters, variables and bounds arbitrary), updated and "
               "solved; the arrays returned before and after, and the values and bounds of every unknown in the problem handed to the solver, are "
               "proved to be those of the new state; wrong shapes are proved to be rejected without changing anything.")
ASSUMPTIONS = ["temperatures passed to an update are non-negative (Pyomo rejects a negative one)"]
SECONDS = 60
SEEDS = 16


def cst(e):
    return [x.args[0] if x.op == "const" else x for x in e]


def ident(W):
    return lambda i, c, j=None: identity_entry(W, i, int(tm.lift(c).args[0]), None if j is None else int(tm.lift(j).args[0]))


def arr(name):
    return lambda *ix: tm.app(name, list(ix))


def box(V, L, label, S, n, a, entries, want, r, floor=None):
    """problem n starts at `want` and restricts every unknown to the radius around it; `a` is the array of answers"""
    p = S.problems[n]
    seen = []
    for e in entries:
        ans, t = unknown(a.get(*e))
        c, ix = p.entry(t)
        seen.append(c)
        w = num(want(*e))
        with p.at():
            v, lo, hi = c.value_at(ix), c.bound_at("lb", ix), c.bound_at("ub", ix)
            fx = c.fixed_term(ix)
        V.oblige(f"{label}: starting guess of {e}", tm.FALSE if v is None else same(v, w))
        low = w - r if floor is None else tm.ite(tm.le(floor, w - r), w - r, floor)
        V.oblige(f"{label}: search box of {e}", tm.FALSE if lo is None or hi is None else tm.and_(same(lo, low), same(hi, w + r)))
        V.oblige(f"{label}: answer of {e}", tm.or_(fx, same(a.get(*e), ans)))
    return seen


def all_unknowns(V, label, S, n, L, counts):
    """the problem has no unknowns besides those returned by y()/theta()"""
    p = S.problems[n]
    tot = [tm.lift(c.set.model_len()) if c.set is not None else tm.const(1) for c in p.vars]
    V.oblige(f"{label}: no other unknowns", tm.eq(sum(tot[1:], tot[0]), counts))


def setting(V, reg, temps):
    W = World(V, reg)
    without_objective(W)
    r, fps, g, th0 = V.real("radius", "fps", "regularization", "initial_temperature")
    V.requires(tm.lt(0, r), tm.lt(0, fps), tm.le(0, g), tm.le(0, th0))
    L = Layout(V, W, reg)
    for t in temps:
        nonneg(V, t, L.nt)
    V.cover("grid and parameters")
    return W, L, r, fps, g if reg else None, th0


# ------------------------------------------------------------------ mechanical step
def m_first(reg):
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ())

        def th():
            S, st = mech_step(W, th0, r, fps, g)
            a = meth(st, "prev_y"), meth(st, "prev_theta")
            meth(st, "solve")
            return S, a, (meth(st, "prev_y"), meth(st, "prev_theta")), meth(st, "y")

        def ens(v):
            S, a, b, y = v
            for lab, (py, pt) in (("initially", a), ("after solving", b)):
                L.check_y(f"{lab}, prev_y", py, ident(W))
                L.check_theta(f"{lab}, prev_theta", pt, lambda i: th0)
            L.V.oblige("y: layout", L.shape(y, False))
            V.oblige("one problem", len(S.problems) == 1)
            box(V, L, "first problem", S, 0, y, L.entries(), ident(W), r)
            all_unknowns(V, "first problem", S, 0, L, W.N * (12 if reg else 2))
        V.returns("construction", th, ens)
    return fn


def m_update(reg):
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("newtheta",))

        def th():
            S, st = mech_step(W, th0, r, fps, g)
            meth(st, "solve")
            S.problems[0].model.havoc()
            get = lambda: (meth(st, "prev_y"), meth(st, "prev_theta"), meth(st, "y"))
            out = [get()]
            meth(st, "update_prev_y", L.y("newy"))
            out.append(get())
            meth(st, "update_prev_theta", L.theta("newtheta"))
            out.append(get())
            meth(st, "update_boundary_traction", V.real("time"))
            out.append(get())
            meth(st, "solve")
            out.append(get())
            return S, out

        def ens(v):
            S, (a0, a1, a2, a3, a4) = v
            L.check_y("after update_prev_y, prev_y", a1[0], arr("newy"))
            L.check_theta("after update_prev_y, prev_theta", a1[1], a0[1].get)
            L.check_y("after update_prev_theta, prev_y", a2[0], arr("newy"))
            L.check_theta("after update_prev_theta, prev_theta", a2[1], arr("newtheta"))
            for lab, a in (("after update_boundary_traction", a3), ("after solve", a4)):
                L.check_y(f"{lab}, prev_y", a[0], arr("newy"))
                L.check_theta(f"{lab}, prev_theta", a[1], arr("newtheta"))
            V.oblige("one more problem", len(S.problems) == 2)
            V.oblige("y: layout", L.shape(a4[2], False))
            box(V, L, "next problem", S, 1, a4[2], L.entries(), arr("newy"), r)
        V.returns("updates", th, ens)
    return fn


# ------------------------------------------------------------------ thermal step
def t_first(reg):
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("theta0",))
        V.requires(tm.le(0, tm.app("ext", [ZERO])))

        def th():
            S, st = therm_step(W, L.y("prev0"), L.y("y0"), L.theta("theta0"), r, fps, g)
            get = lambda: (meth(st, "prev_y"), meth(st, "y"), meth(st, "prev_theta"))
            a = get()
            meth(st, "solve")
            return S, a, get(), meth(st, "theta")

        def ens(v):
            S, a, b, theta = v
            for lab, x in (("initially", a), ("after solving", b)):
                L.check_y(f"{lab}, prev_y", x[0], arr("prev0"))
                L.check_y(f"{lab}, y", x[1], arr("y0"))
                L.check_theta(f"{lab}, prev_theta", x[2], arr("theta0"))
            V.oblige("theta: layout", L.shape(theta, True))
            V.oblige("one problem", len(S.problems) == 1)
            box(V, L, "first problem", S, 0, theta, [(L.it,)], arr("theta0"), r, ZERO)
            all_unknowns(V, "first problem", S, 0, L, L.nt)
        V.returns("construction", th, ens)
    return fn


def t_update(reg):
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("theta0", "newtheta"))
        t = V.real("time")
        V.requires(tm.le(0, tm.app("ext", [ZERO])), tm.le(0, tm.app("ext", [t])))

        def th():
            S, st = therm_step(W, L.y("prev0"), L.y("y0"), L.theta("theta0"), r, fps, g)
            meth(st, "solve")
            S.problems[0].model.havoc()
            get = lambda: (meth(st, "prev_y"), meth(st, "y"), meth(st, "prev_theta"), meth(st, "theta"))
            out = [get()]
            for nm, x in (("update_prev_theta", L.theta("newtheta")), ("update_prev_y", L.y("newprev")), ("update_y", L.y("newy")),
                          ("update_external_temperature", t)):
                meth(st, nm, x)
                out.append(get())
            meth(st, "solve")
            out.append(get())
            return S, out

        def ens(v):
            S, a = v
            L.check_y("after update_prev_theta, prev_y", a[1][0], a[0][0].get)
            L.check_y("after update_prev_theta, y", a[1][1], a[0][1].get)
            L.check_theta("after update_prev_theta, prev_theta", a[1][2], arr("newtheta"))
            L.check_y("after update_prev_y, prev_y", a[2][0], arr("newprev"))
            L.check_y("after update_prev_y, y", a[2][1], a[0][1].get)
            L.check_theta("after update_prev_y, prev_theta", a[2][2], arr("newtheta"))
            for n, lab in ((3, "update_y"), (4, "update_external_temperature"), (5, "solve")):
                L.check_y(f"after {lab}, prev_y", a[n][0], arr("newprev"))
                L.check_y(f"after {lab}, y", a[n][1], arr("newy"))
                L.check_theta(f"after {lab}, prev_theta", a[n][2], arr("newtheta"))
            V.oblige("one more problem", len(S.problems) == 2)
            V.oblige("theta: layout", L.shape(a[5][3], True))
            box(V, L, "next problem", S, 1, a[5][3], [(L.it,)], arr("newtheta"), r, ZERO)
        V.returns("updates", th, ens)
    return fn


# ------------------------------------------------------------------ wrong shapes
def wrong_shapes(V, L, theta):
    """arrays of dimension 1-4 whose shape differs from the documented one"""
    want = [L.nt] if theta else ([L.W.N, 2, 6] if L.reg else [L.W.N, 2])
    out = []
    for d in range(1, 5):
        ns = [V.int(f"d{d}{j}") for j in range(d)]
        V.requires(*[tm.le(0, n) for n in ns])
        if d == len(want):
            V.requires(tm.not_(tm.and_(*[tm.eq(n, w) for n, w in zip(ns, want)])))
        out.append(ns)
    return out


def rejects(mech, reg, name):
    """an update with a wrong shape raises ValueError and changes nothing"""
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("theta0",))
        V.requires(tm.le(0, tm.app("ext", [ZERO])))
        isth = name == "update_prev_theta"
        for k, ns in enumerate(wrong_shapes(V, L, isth)):

            def th():
                S, st = mech_step(W, th0, r, fps, g) if mech else therm_step(W, L.y("prev0"), L.y("y0"), L.theta("theta0"), r, fps, g)
                meth(st, "solve")
                S.problems[0].model.havoc()
                get = lambda: [meth(st, x) for x in (("prev_y", "y", "prev_theta") if mech else ("prev_y", "y", "prev_theta", "theta"))]
                a = get()
                try:
                    meth(st, name, state("wrong", *ns))
                    ok = False
                except InterpRaise as e:
                    ok = isinstance(e.exc, ValueError)
                return ok, a, get()

            def ens(v):
                ok, a, b = v
                V.oblige(f"{k + 1}-dimensional: rejected", ok)
                for n, (x, y) in enumerate(zip(a, b)):
                    V.oblige(f"{k + 1}-dimensional: array {n} unchanged",
                             tm.and_(*[same(x.get(*e), y.get(*e)) for e in (L.entries() if n < 2 else [(L.it,)])]))
            V.returns(f"{k + 1}-dimensional", th, ens)
    return fn


def rejects_first(reg):
    """initial data of a wrong shape; a regularised step without refined grid"""
    def fn(V):
        W, L, r, fps, g, th0 = setting(V, reg, ("theta0",))
        V.requires(tm.le(0, tm.app("ext", [ZERO])))
        ok = [L.y("prev0"), L.y("y0"), L.theta("theta0")]
        m = V.c.mark()
        for n in range(3):
            V.c.cut(m)
            for k, ns in enumerate(wrong_shapes(V, L, n == 2)):
                args = list(ok)
                args[n] = state("wrong", *ns)
                V.raises(f"initial array {n}, {k + 1}-dimensional", lambda: therm_step(W, *args, r, fps, g), ValueError)
        V.c.cut(m)
        if reg:
            W.fine = None
            V.raises("mechanical step without refined grid", lambda: mech_step(W, th0, r, fps, g), ValueError)
            V.raises("thermal step without refined grid", lambda: therm_step(W, *ok, r, fps, g), ValueError)
    return fn


def cases():
    out = []
    for reg in (False, True):
        w = "regularised" if reg else "unregularised"
        out += [Case(f"mechanical, {w}, construction", m_first(reg)), Case(f"mechanical, {w}, updates", m_update(reg)),
                Case(f"thermal, {w}, construction", t_first(reg)), Case(f"thermal, {w}, updates", t_update(reg)),
                Case(f"{w}, initial data rejected", rejects_first(reg))]
        out += [Case(f"mechanical, {w}, {n} rejected", rejects(True, reg, n)) for n in ("update_prev_y", "update_prev_theta")]
        out += [Case(f"thermal, {w}, {n} rejected", rejects(False, reg, n)) for n in ("update_prev_y", "update_y", "update_prev_theta")]
    return out


def gen(rng, tier):
    from .stepreal import setting as s
    for _ in range(10):
        c = s(rng)
        c["step"] = rng.choice(["mech", "therm"])
        yield c


def run(case):
    import numpy as np, random
    import pyomo.environ as pyo
    from . import stepreal as sr
    rng = random.Random(case["seed"] + 1)
    reg, r = case["reg"], case["radius"]
    d, g, fine = sr.build(case)
    nt, n = len((g if reg is None else fine).vertices), len(g.vertices)
    ys, ts = ((n, 2) if reg is None else (n, 2, 6)), (nt,)
    sol = sr.Solver(case["seed"], amp=2.0, objective=False)
    mech = case["step"] == "mech"
    new = lambda: (sr.perturbed(g, reg, rng, 2.0), sr.temps(nt, rng) * 3)
    if mech:
        g, fine, st = sr.mech(case, sol)
        cur = {"prev_y": sr.identity(g, reg), "prev_theta": np.full(nt, case["th0"])}
        main, var = "prev_y", "y"
    else:
        (p, t), (y, _) = new(), new()
        g, fine, st = sr.therm(case, sol, p, y, t)
        cur = {"prev_y": p, "y": y, "prev_theta": t}
        main, var = "prev_theta", "theta"

    def arrays(when):
        for k, v in cur.items():
            a = np.asarray(getattr(st, k)())
            if a.shape != v.shape or not np.array_equal(a.astype(float), v):
                return f"{when}: {k}() is {a.tolist()}, expected {v.tolist()}"

    def problem(k):
        rec = sol.log[k]
        a = np.asarray(getattr(st, var)())
        if a.shape != cur[main].shape:
            return f"{var}() has shape {a.shape}"
        start = sorted(rec["start"].values())
        if not np.allclose(start, sorted(cur[main].ravel()), rtol=1e-12, atol=1e-12):
            return f"problem {k}: starting guess {start}, expected {sorted(cur[main].ravel())}"
        lo = [b[0] for b in rec["bounds"].values()]
        hi = [b[1] for b in rec["bounds"].values()]
        wl = cur[main].ravel() - r
        if not mech:
            wl = np.maximum(wl, 0)
        if not (np.allclose(sorted(lo), sorted(wl), rtol=1e-12, atol=1e-12) and np.allclose(sorted(hi), sorted(cur[main].ravel() + r), rtol=1e-12, atol=1e-12)):
            return f"problem {k}: bounds {sorted(zip(lo, hi))}"
        for i, b in rec["bounds"].items():
            s = rec["start"][i]
            if abs(b[1] - s - r) > 1e-12 or abs(b[0] - (s - r if mech else max(0.0, s - r))) > 1e-12:
                return f"problem {k}: an unknown starting at {s} has bounds {b}"
        if (np.abs(a - cur[main]) > r + 1e-12).any():
            return f"problem {k}: answer outside the search box"
    m = arrays("initially")
    st.solve()
    m = m or problem(0) or arrays("after solving")
    for k in (1, 2):
        fs = {}
        for nm in cur:
            fs[nm] = new()[1] if nm == "prev_theta" else new()[0]
            if rng.random() < 0.3:
                # nearly what is there already
                fs[nm] = cur[nm] + rng.choice([1e-7, 1e-10]) * fs[nm]
        order = list(fs)
        rng.shuffle(order)
        for nm in order:
            m = m or arrays("before " + nm)
            shape = ts if nm == "prev_theta" else ys
            bad = np.full(rng.choice([(), shape + (1,), shape[:-1], tuple(reversed(shape)), (shape[0] + 1,) + shape[1:], shape[:-1] + (shape[-1] - 1,),
                                      (shape[0] - 1,) + shape[1:]]), 0.5)
            if bad.shape != shape:
                try:
                    getattr(st, "update_" + nm)(bad)
                    m = m or f"update_{nm} accepts shape {bad.shape} instead of {shape}"
                except ValueError:
                    pass
                m = m or arrays("after a rejected " + nm)
            a = fs[nm].copy()
            getattr(st, "update_" + nm)(a)
            cur[nm] = fs[nm].copy()
            a += 1e3
            m = m or arrays("after update_" + nm)
        st.solve()
        m = m or problem(k) or arrays("after solving")
    return m
