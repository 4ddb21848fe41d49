"""The staggered scheme and its recorded history."""
from .steps import *
from ..engine import tick

STATEFUL = True
EXPLANATION = ("Simulation is executed with an arbitrary domain and grid; the two steps enter through their contracts (C21-C24: a step solves the problem "
               "given by its current data and answers arbitrarily).  For run(n) with symbolic n, and for any two runs one after the other, the sequence "
               "of problems solved, their data and times, and the recorded steps evaluated at an arbitrary point are proved to be those of the scheme.")
ASSUMPTIONS = ["mechanical_step and thermal_step by their contracts (C21-C24)", "point location by its contract (C10)"]
SECONDS = 60
SEEDS = 8


class Mech:
    """contract of a mechanical step: the state passed on, arbitrary answers"""
    __model__ = True

    def __init__(self, w, solver, grid, params, refined, traction):
        self.birth = tick()
        self.w = w
        self.run = w.cur
        self.params = {k: getattr_(params, k) for k in ("initial_temperature", "search_radius", "fps", "regularization")}
        self.env = (grid, refined, solver)
        self.traction = traction
        self.n = tm.const(0)
        self.t = ZERO
        self._y = self._prev_y = w.identity()
        self._prev_theta = Arr((w.nt,), lambda i: w.th0)

    def set(self, k, v):
        ctx().put(self, k, v)

    def solve(self):
        w = self.w
        x, y = w.pt
        g = [num(v) for v in interp.unpack(call(self.traction, [self.t, x, y]), 2)]
        self.run.record("mech", self._prev_y, self._prev_theta, None, tuple(g))
        self.set("n", tm.add(self.n, 1))
        n = self.n
        self.set("_y", Arr(w.yshape, lambda *ix: tm.app("mech_answer", [n] + [tm.lift(i) for i in ix])))

    prev_y = lambda self: self._prev_y
    y = lambda self: self._y
    prev_theta = lambda self: self._prev_theta

    def update_prev_y(self, a):
        self.w.shaped(a, self.w.yshape)
        self.set("_prev_y", a)
        self.set("_y", a)

    def update_prev_theta(self, a):
        self.w.shaped(a, (self.w.nt,))
        self.set("_prev_theta", a)

    def update_boundary_traction(self, t):
        self.set("t", num(t))


class Therm:
    __model__ = True

    def __init__(self, w, solver, grid, prev_y, y, prev_theta, params, external, refined):
        self.birth = tick()
        self.w = w
        self.run = w.cur
        self.params = {k: getattr_(params, k) for k in ("search_radius", "fps", "regularization")}
        self.env = (grid, refined, solver)
        w.shaped(prev_y, w.yshape)
        w.shaped(y, w.yshape)
        w.shaped(prev_theta, (w.nt,))
        self._prev_y, self._y, self._prev_theta, self._theta = prev_y, y, prev_theta, prev_theta
        self.external = external
        self.t = ZERO
        self.n = tm.const(0)

    set = Mech.set

    def solve(self):
        w = self.w
        self.run.record("therm", self._prev_y, self._prev_theta, self._y, (num(call(self.external, [self.t])),))
        self.set("n", tm.add(self.n, 1))
        n = self.n
        self.set("_theta", Arr((w.nt,), lambda i: tm.app("therm_answer", [n, tm.lift(i)])))

    prev_y = lambda self: self._prev_y
    y = lambda self: self._y
    prev_theta = lambda self: self._prev_theta
    theta = lambda self: self._theta
    update_prev_y = lambda self, a: (self.w.shaped(a, self.w.yshape), self.set("_prev_y", a))[1]
    update_y = lambda self, a: (self.w.shaped(a, self.w.yshape), self.set("_y", a))[1]

    def update_prev_theta(self, a):
        self.w.shaped(a, (self.w.nt,))
        self.set("_prev_theta", a)
        self.set("_theta", a)

    def update_external_temperature(self, t):
        self.set("t", num(t))


class StubDomain:
    __model__ = True

    def __init__(self, w):
        self.w = w
        self.curves = interp.Opaque(lambda *a, **k: lst([]))

    def grid(self, scale):
        if not interp.truth(tm.eq(num(scale), self.w.scale)):
            raise tm.Unsupported("grid of another scale")
        return self.w.W.grid

    def refine(self, grid, factor):
        if grid is self.w.W.grid:
            if not interp.truth(tm.eq(num(factor), tm.toreal(self.w.factor))):
                raise tm.Unsupported("refinement by another factor")
            return self.w.W.fine
        return Plain()


class Plain:
    """some other grid (only drawn)"""
    __model__ = True


class Run:
    """what happened during one execution"""

    def __init__(self):
        self.log = PList()
        self.made = {}

    def record(self, kind, prev_y, prev_theta, y, load):
        self.log.set(self.log.nodes + (Item((kind, prev_y, prev_theta, y, load)),))


class Setting:
    def __init__(self, V, reg):
        self.V, self.reg = V, reg
        self.ent = None
        self.W = W = World(V, reg)
        self.th0, self.radius, self.fps, self.scale, self.g = V.real("initial_temperature", "radius", "fps", "scale", "regularization")
        self.factor = V.int("factor")
        V.requires(tm.le(0, self.th0), tm.lt(0, self.radius), tm.lt(0, self.fps), tm.lt(0, self.scale), tm.le(0, self.g), tm.le(1, self.factor))
        self.nt = W.Nf if reg else W.N
        self.yshape = (W.N, tm.const(2), tm.const(6)) if reg else (W.N, tm.const(2))
        self.pt = V.real("x", "y")
        M, T, D = mod("mechanical_step"), mod("thermal_step"), mod("domain")
        interp.CONTRACTS[M.mechanical_step] = lambda a, k: self.made(Mech(self, *self.bind(M.mechanical_step, a, k)))
        interp.CONTRACTS[T.thermal_step] = lambda a, k: self.made(Therm(self, *self.bind(T.thermal_step, a, k)))
        for c in (D.Grid, D.RefinedGrid):
            f = c.__dict__.get("to_barycentric_point")
            if f is not None:
                interp.CONTRACTS[f] = lambda a, k: self.locate(*a, **k)
        self.entries()
        V.cover("grid and parameters")

    def bind(self, f, a, k):
        import inspect
        b = inspect.signature(f).bind(*a, **k)
        b.apply_defaults()
        return list(b.arguments.values())

    def made(self, x):
        self.cur.made[type(x).__name__] = x
        return x

    def identity(self):
        return Arr(self.yshape, lambda i, c, j=None: self.id_entry(i, c, j))

    def id_entry(self, i, c, j):
        i, c = tm.lift(i), tm.lift(c)
        p = self.W.p(i)
        v = tm.ite(tm.eq(c, 0), p[0], p[1])
        if j is None:
            return v
        j = tm.lift(j)
        return tm.ite(tm.eq(j, 0), v, tm.ite(tm.eq(j, tm.add(c, 1)), tm.rconst(1), ZERO))

    def shaped(self, a, shape):
        """precondition of the updates: the documented shape"""
        ok = isinstance(a, Arr) and len(a.shape) == len(shape)
        if not (ok and interp.truth(C.conj([C.pybool(tm.eq(tm.lift(x), tm.lift(s))) for x, s in zip(a.shape, shape)]))):
            raise InterpRaise(ValueError("wrong shape"))

    def locate(self, grid, p):
        """C10: a triangle of the grid and weights depending on the grid and the point"""
        t = self.W.tag(grid)
        x = [num(entry(p, 0)), num(entry(p, 1))]
        tri = tuple(C.pyint(tm.app(f"at{j}{t}", x, tm.I)) for j in range(3))
        for v in tri:
            ctx().define(tm.and_(tm.le(0, v), tm.lt(v, self.W.Nf if t == "f" else self.W.N)))
        return interp.construct(mod("domain").BarycentricPoint, [tri, bary(tm.app("atl1" + t, x), tm.app("atl2" + t, x))], {})

    # ---- the specification of a recorded step at the point pt
    def value(self, field):
        """field(i) at the point, P1"""
        t = "f" if self.reg else "c"
        x = list(self.pt)
        tri = [tm.app(f"at{j}{t}", x, tm.I) for j in range(3)]
        l = [tm.app("atl1" + t, x), tm.app("atl2" + t, x)]
        l.append(1 - l[0] - l[1])
        return sum((a * num(field(i)) for a, i in zip(l, tri)), ZERO)

    def yvalue(self, field, c):
        """component c of a deformation with these entries, at the point"""
        if not self.reg:
            return self.value(lambda i: field(i, tm.const(c)))
        x = list(self.pt)
        tri = [tm.app(f"at{j}c", x, tm.I) for j in range(3)]
        a = tri + [tm.app("atl1c", x), tm.app("atl2c", x)] + [num(field(i, tm.const(c), tm.const(j))) for i in tri for j in range(6)]
        return tm.app("c1vc", a)

    def build(self):
        S = mod("simulation")
        p = interp.construct(S.SimulationParams, [self.th0, self.radius, self.fps, self.scale, self.g if self.reg else None,
                                                  self.factor if self.reg else None], {})
        ext = interp.Opaque(lambda t: tm.app("ext", [num(t)]))
        trac = interp.Opaque(lambda t, x, y: lst([tm.app("g1", [num(t), num(x), num(y)]), tm.app("g2", [num(t), num(x), num(y)])]))
        self.cur = run = Run()
        return interp.construct(S.Simulation, [StubDomain(self), p, ext, trac], {}), run

    # ---- obligations
    def entries(self):
        if self.ent is None:
            i, it, c, j = self.V.int("vertex", "tvertex", "component", "dof")
            self.V.requires(tm.le(0, c), tm.lt(c, 2), tm.le(0, j), tm.lt(j, 6))
            self.ent = [(i, c, j) if self.reg else (i, c)], [(it,)]
        return self.ent

    def problem(self, label, rec, kind, prev_y, prev_theta, y, load):
        """the logged problem has these data"""
        V = self.V
        V.oblige(f"{label}: is a {kind} problem", rec[0] == kind)
        if rec[0] != kind:
            return
        ys, ts = self.entries()
        V.oblige(f"{label}: previous deformation", tm.and_(*[same(rec[1].get(*e), prev_y(*e)) for e in ys]))
        V.oblige(f"{label}: previous temperature", tm.and_(*[same(rec[2].get(*e), prev_theta(*e)) for e in ts]))
        if kind == "therm":
            V.oblige(f"{label}: deformation", tm.and_(*[same(rec[3].get(*e), y(*e)) for e in ys]))
        V.oblige(f"{label}: load at its time", tm.and_(*[same(a, b) for a, b in zip(rec[4], load)]) if len(rec[4]) == len(load) else tm.FALSE)

    def step(self, label, st, y, theta):
        """the recorded step, evaluated at the point"""
        V = self.V
        x = list(self.pt)

        def ens(v):
            d, t = v
            V.oblige(f"{label}: deformation", tm.and_(*[same(entry(d, c), self.yvalue(y, c)) for c in (0, 1)]))
            V.oblige(f"{label}: temperature", same(t, self.value(theta)))
        V.returns(label, lambda: (call(getattr_(st, "y"), x), call(getattr_(st, "theta"), x)), ens)

    # the scheme: entry 0 is the initial state, entry n >= 1 the answers number n, solved at time (n - 1) / fps
    def sy(self, n):
        idn = self.identity()
        n = tm.lift(n)
        return lambda *ix: tm.ite(tm.eq(n, 0), num(idn.get(*ix)), tm.app("mech_answer", [n] + [tm.lift(i) for i in ix]))

    def st(self, n):
        n = tm.lift(n)
        return lambda i: tm.ite(tm.eq(n, 0), self.th0, tm.app("therm_answer", [n, tm.lift(i)]))

    def loads(self, n):
        t = tm.toreal(tm.sub(tm.lift(n), 1)) / self.fps
        return [tm.app("g1", [t, *self.pt]), tm.app("g2", [t, *self.pt])], [tm.app("ext", [t])]

    def numbered(self, n, label, pair):
        """the two problems leading to entry n >= 1"""
        g, e = self.loads(n)
        p = tm.sub(tm.lift(n), 1)
        self.problem(f"{label}, mechanical problem", pair[0], "mech", self.sy(p), self.st(p), None, g)
        self.problem(f"{label}, thermal problem", pair[1], "therm", self.sy(p), self.st(p), self.sy(n), e)


def walk(V, nodes, size, what, f, start=0):
    """f(position term or int, [values]) for every group of `size` consecutive elements; generic position for symbolic parts.  Returns length."""
    pos, buf = tm.const(start), []
    for nd in nodes:
        if isinstance(nd, Item):
            buf.append(nd.v)
            if len(buf) == size:
                f(pos, buf)
                buf, pos = [], tm.add(pos, 1)
        elif isinstance(nd, For) and not buf and all(isinstance(x, Item) for x in nd.nodes) and len(nd.nodes) % size == 0:
            m = len(nd.nodes) // size
            with V.c.bind(nd.n) as k:
                vs = [x.v for x in C.inst_nodes(nd.nodes, {nd.k: k})]
                for j in range(m):
                    f(tm.add(pos, tm.add(tm.mul(m, k), j)), vs[j * size:(j + 1) * size])
            pos = tm.add(pos, tm.mul(m, nd.n))
        else:
            V.oblige(f"{what}: shape of the history", False)
            return None
    V.oblige(f"{what}: complete", not buf)
    return pos


def history(V, w, sim, run, total, label):
    """the whole log and all recorded steps are those of the scheme with `total` entries after the initial one"""
    n = walk(V, run.log.nodes, 2, "problems", lambda n, b: w.numbered(tm.add(n, 1), f"{label}, problems of entry", b))
    if n is not None:
        V.oblige(f"{label}: number of problems", tm.eq(n, total))
    st = getattr_(sim, "steps")
    n = walk(V, interp.to_nodes(st), 1, "recorded steps", lambda n, b: w.step(f"{label}, recorded entry", b[0], w.sy(n), w.st(n)))
    if n is not None:
        V.oblige(f"{label}: number of recorded steps", tm.eq(n, tm.add(total, 1)))


def construction(reg):
    def fn(V):
        w = Setting(V, reg)

        def ens(v):
            sim, run = v
            history(V, w, sim, run, tm.const(1), "after construction")
            m, t = run.made["Mech"], run.made["Therm"]
            for k, v in (("initial_temperature", w.th0), ("search_radius", w.radius), ("fps", w.fps)):
                V.oblige(f"mechanical parameter {k}", same(m.params[k], v))
            for k, v in (("search_radius", w.radius), ("fps", w.fps)):
                V.oblige(f"thermal parameter {k}", same(t.params[k], v))
            for nm, o in (("mechanical", m), ("thermal", t)):
                V.oblige(f"{nm} regularisation", same(o.params["regularization"], w.g) if reg else o.params["regularization"] is None)
                V.oblige(f"{nm} grids", o.env[0] is w.W.grid and o.env[1] is w.W.fine)
        V.returns("construction", w.build, ens)
    return fn


def runs(reg, single):
    """run(n), then run(m) for symbolic n, m"""
    def fn(V):
        w = Setting(V, reg)
        n, m = V.int("n", "m")
        if single:
            V.requires(tm.eq(n, 1), tm.eq(m, 1))
            n = m = tm.const(1)
        else:
            V.requires(tm.le(1, n), tm.le(1, m))

        def th():
            sim, run = w.build()
            call(getattr_(sim, "run"), [C.pyint(n)])
            call(getattr_(sim, "run"), [C.pyint(m)])
            return sim, run

        def ens(v):
            sim, run = v
            history(V, w, sim, run, tm.add(1, tm.add(n, m)), "after two runs")
        V.returns("two runs", th, ens)
    return fn


def rejected(V):
    w = Setting(V, False)
    n = V.int("n")
    V.requires(tm.le(n, 0))

    def th():
        sim, run = w.build()
        try:
            call(getattr_(sim, "run"), [n])
            ok = False
        except InterpRaise as e:
            ok = isinstance(e.exc, ValueError)
        return sim, run, ok

    def ens(v):
        V.oblige("a number of steps below one is rejected", v[2])
        history(V, w, v[0], v[1], tm.const(1), "after a rejected run")
    V.returns("rejected run", th, ens)


def cases():
    out = []
    for reg in (False, True):
        nm = "regularised" if reg else "unregularised"
        out += [Case(f"{nm}, construction", construction(reg), budget=600), Case(f"{nm}, two single runs", runs(reg, True), budget=240),
                Case(f"{nm}, two runs of any length", runs(reg, False), budget=600)]
    return out + [Case("rejected numbers of steps", rejected, budget=600)]


# ---------------------------------------------------------------- the real thing
def gen(rng, tier):
    for _ in range(4 if tier == "quick" else 12):
        reg = rng.choice([None, None, None, 0.3])
        n = 1 if reg is not None else 2
        yield {"w": rng.randint(1, n), "h": rng.randint(1, n), "fix": rng.choice([None, "left", "lower", ["left", "right"]]), "reg": reg,
               "r": 1, "seed": rng.randint(0, 10 ** 6), "th0": rng.choice([0.0, 0.6]), "radius": 0.5, "fps": rng.choice([1, 3, 7.5]),
               "scale": rng.choice([1.0, 4.0, 10.0, 13.7, 0.3]), "factor": rng.choice([1, 2, 3]),
               "runs": [130] if reg is None and rng.random() < 0.2 else rng.choice([[1], [1, 1], [2], [3], [2, 1], [1, 2], [0, 1], [2, -1, 2]])}


def run(case):
    import contextlib, io
    import numpy as np
    import pyomo.environ as pyo
    from . import stepreal as sr
    S, D = mod("simulation"), mod("domain")
    reg, fps = case["reg"], case["fps"]
    # a regularised step can be recorded on any grid of the domain
    r = np.random.default_rng(case["seed"])
    n = int(r.integers(1, 3))
    s = case["scale"]
    d = D.RectangleDomain(s * (n + 0.25), s * 1.25)
    g = d.grid(s)
    f = d.refine(g, case["factor"])
    if len(g.triangles) != 2 * n:
        return "grid of a rectangle"
    ya, ta = r.normal(size=(len(g.vertices), 2, 6)), r.normal(size=len(f.vertices))
    st = S.RegularizedStep(ya, ta, d, g, f)
    for k in (0, len(g.vertices) - 1):
        if not np.allclose([float(v) for v in (st.y(*g.points[k])[0], st.y(*g.points[k])[1])], ya[k, :, 0], atol=1e-6):
            return f"recorded deformation at vertex {k}"
    if abs(float(st.theta(*f.points[-1])) - ta[-1]) > 1e-6:
        return "recorded temperature"
    sol = sr.Solver(case["seed"], amp=0.04 if sum(case["runs"]) < 10 else 0.004)
    old = pyo.SolverFactory
    try:
        pyo.SolverFactory = lambda *a, **k: sol
        d = D.RectangleDomain(case["w"], case["h"], case["fix"])
        sim = S.Simulation(d, S.SimulationParams(case["th0"], case["radius"], fps, 1.0, reg, case["r"] if reg is not None else None),
                           sr.external, sr.traction)
        done = 1
        with contextlib.redirect_stderr(io.StringIO()):
            for k in case["runs"]:
                try:
                    sim.run(k)
                    if k < 1:
                        return f"run({k}) was accepted"
                    done += k
                except ValueError:
                    if k >= 1:
                        return f"run({k}) was rejected"
    finally:
        pyo.SolverFactory = old
    if len(sim.steps) != done + 1:
        return f"{len(sim.steps)} recorded steps after {done} steps of the scheme"
    if len(sol.log) != 2 * done:
        return f"{len(sol.log)} problems solved in {done} steps of the scheme"
    _, g, fine = sr.build(case)
    pc, pf = sr.P(g), sr.P(g if reg is None else fine)

    def data(st):
        if reg is None:
            y = np.array([[float(v) for v in (st.y(*p)[0], st.y(*p)[1])] for p in pc])
        else:
            dof = lambda p, c: [float(v) for v in (st.y(*p)[c], st.y.strain(*p)[c, 0], st.y.strain(*p)[c, 1], *[st.y.hyper_strain(*p)[c, i, j]
                                                                                                             for i, j in ((0, 0), (0, 1), (1, 1))])]
            y = np.array([[dof(p, c) for c in (0, 1)] for p in pc])
        return y, np.array([float(st.theta(*p)) for p in pf])
    hist = [data(s) for s in sim.steps]
    if not np.allclose(hist[0][0], sr.identity(g, reg), atol=1e-7) or not np.allclose(hist[0][1], case["th0"], atol=1e-9):
        return "the first recorded step is not the initial state"
    for n in range(1, done + 1):
        (py, pt), (y, t) = hist[n - 1], hist[n]
        time = (n - 1) / fps
        for nm, rec, want in (("mechanical", sol.log[2 * n - 2], sr.mech_objective(case, g, fine, y, py, pt, time)),
                              ("thermal", sol.log[2 * n - 1], sr.therm_objective(case, g, fine, t, py, y, pt, time))):
            if len(rec["objective"]) != 1:
                return f"step {n}: {nm} problem has {len(rec['objective'])} objectives"
            if not close(rec["objective"][0], want, 1e-5):
                return f"step {n}: {nm} objective at the answer is {rec['objective'][0]}, for the recorded states at time {time} it is {want}"
