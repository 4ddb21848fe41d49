"""The steps on arbitrary grids: shared setting of C21-C25."""
from fractions import Fraction
from .. import terms as tm, interp, containers as C, pyomo_model as PM
from ..engine import ctx, InterpRaise
from ..framework import Case
from ..lib import *
from ..containers import Arr, PList, For, Item

ZERO = tm.rconst(0)
RULES = {1: "CENTROID", 2: "DUNAVANT2", 5: "DUNAVANT5"}


def num(x):
    x = interp.norm_num(x)
    if hasattr(x, "__term__"):
        x = x.__term__()
    return tm.toreal(tm.lift(x))


class World:
    """an arbitrary coarse grid (and refinement), interpolations replaced by their contracts (C01-C05, C12, C13)"""

    def __init__(self, V, refined=False):
        self.V, self.refined = V, refined
        self.tags = {}
        self.grid = self.build("", False)
        self.fine = self.build("f", True) if refined else None
        I = mod("interpolation")
        interp.STUBS[I.P1Interpolation] = lambda *a, **k: StubP1(self, *a, **k)
        interp.STUBS[I.C1Interpolation] = lambda *a, **k: StubC1(self, *a, **k)
        R = mod("domain").RefinedGrid
        interp.CONTRACTS[R.to_coarse_barycentric_point] = lambda a, k: self.to_coarse(*a, **k)
        interp.LAMBDIFIED.append(opaque_function)
        V.c.assumptions.add("interpolations by their contracts (P1: C05, C1: C01-C04, coarse coordinates: C12): values, gradients and Hessians are "
                            "functions of the triangle, the coordinates and the nodal data at its vertices")
        V.c.assumptions.add("the sympy-generated potentials are pure functions (their values: C16-C20)")

    def build(self, tag, fine):
        V, D = self.V, mod("domain")
        N, M, E, nb, nD, nN, nDe, nNe, nBe = V.int(*[x + tag for x in ("N", "M", "E", "nb", "nD", "nN", "nDe", "nNe", "nBe")])
        self.__dict__.update({x + tag: v for x, v in zip(("N", "M", "E", "nb", "nD", "nN", "nDe", "nNe", "nBe"), (N, M, E, nb, nD, nN, nDe, nNe, nBe))})
        V.requires(tm.le(1, N), tm.le(1, M), tm.le(1, E), *[tm.le(0, x) for x in (nb, nD, nN, nDe, nNe, nBe)])
        k = tm.var("%t", tm.I)

        def fn(name, n, hi):
            f = tm.app(name + tag, [k], tm.I)
            V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n)), tm.and_(tm.le(0, f), tm.lt(f, hi)))))
            return f
        seq = lambda n, v: PList([For(k, n, [Item(v)])])
        T3 = tuple(fn(f"tri{j}", M, N) for j in range(3))
        E2 = tuple(fn(f"edge{j}", E, N) for j in range(2))
        at = lambda f, ix: tm.subst(f, {k: ix})
        px, py = tm.app("px" + tag, [k]), tm.app("py" + tag, [k])
        x = [(at(px, f), at(py, f)) for f in T3]
        V.nonzero_for_all(k, M, (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0]))
        bd = lambda vs, es: call(D.Boundary, [vs, es])
        # boundary vertices are distinct; edges join vertices of their part and are edges of the grid
        for nm, n in (("bv", nb), ("dv", nD), ("nv", nN)):
            V.c.injective.add(nm + tag)
        ed = lambda f: tuple(at(e, f) for e in E2)
        dedge, nedge, bedge = fn("de", nDe, E), fn("ne", nNe, E), fn("be", nBe, E)
        bvs, dvs, nvs = fn("bv", nb, N), fn("dv", nD, N), fn("nv", nN, N)

        def ends(name, count, vs, n, edge):
            """the ends of the edges are vertices of their part (positions pos0, pos1)"""
            for j in (0, 1):
                p = fn(f"{name}pos{j}", count, n)
                V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, count)), tm.eq(ed(edge)[j], at(vs, p)))))
        ends("ne", nNe, nvs, nN, nedge)
        ends("de", nDe, dvs, nD, dedge)
        # Neumann edges written directly through their end vertices
        nE2 = tuple(at(nvs, fn(f"nepos{j}", nNe, nN)) for j in (0, 1))
        self.__dict__.update({"T3" + tag: T3, "E2" + tag: E2, "k": k, "nE2" + tag: nE2, "bE2" + tag: ed(bedge), "dE2" + tag: ed(dedge),
                              "dv" + tag: dvs, "nv" + tag: nvs})
        args = [seq(N, k), seq(E, E2), seq(M, T3), bd(seq(nb, bvs), seq(nBe, ed(bedge))), bd(seq(nD, dvs), seq(nDe, ed(dedge))),
                bd(seq(nN, nvs), seq(nNe, nE2)), seq(N, Vec(px, py))]
        if fine:
            g = call(D.RefinedGrid, args + [self.grid, C.PDict(), C.PDict(), C.PDict(), C.PDict()])
        else:
            g = call(D.Grid, args)
        self.tags[id(g)] = tag or "c"
        return g

    def tag(self, grid):
        if id(grid) not in self.tags:
            raise tm.Unsupported("interpolation on another grid")
        return self.tags[id(grid)]

    def p(self, i, tag=""):
        return tm.app("px" + tag, [i]), tm.app("py" + tag, [i])

    def area(self, tag=""):
        (x1, y1), (x2, y2), (x3, y3) = [self.p(f, tag) for f in getattr(self, "T3" + tag)]
        return tm.absval((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)) / 2

    def to_coarse(self, grid, bp):
        """C12: some coarse triangle and coordinates determined by the fine ones"""
        t, c = getattr_(bp, "triangle"), getattr_(bp, "coordinates")
        i = [tm.lift(x) for x in interp.unpack(t, 3)]
        l = [num(entry(c, 0)), num(entry(c, 1))]
        ct = tuple(C.pyint(tm.app(f"ctri{j}", i, tm.I)) for j in range(3))
        for x in ct:
            ctx().define(tm.and_(tm.le(0, x), tm.lt(x, self.N)))
        cl = bary(tm.app("cl1", i + l), tm.app("cl2", i + l))
        return interp.construct(mod("domain").BarycentricPoint, [ct, cl], {})


def opaque_function(f, args, kwargs):
    """pure function identified by its code; the shape of its result is learnt from one run"""
    import hashlib
    key = hashlib.sha1(f.__code__.co_code + repr((f.__code__.co_consts, f.__code__.co_names)).encode()).hexdigest()[:8]
    if kwargs:
        raise tm.Unsupported("keyword arguments of a generated function")
    ts = [num(a) for a in args]
    shape = f(*[1.5, 0.25, 0.125, 1.25][:len(ts)])
    interp.USED[f"{f.__name__} (generated by sympy.lambdify)"] = 0

    def rec(v, path):
        if isinstance(v, (list, tuple)):
            return PList.of([rec(x, path + (i,)) for i, x in enumerate(v)])
        return tm.app(f"gen_{key}_{'_'.join(map(str, path))}", ts)
    return rec(shape, ())


class StubP1:
    __model__ = True

    def __inst__(self, m, ids):
        p = C._inst(self.params, m, ids)
        if p is self.params:
            return self
        o = object.__new__(StubP1)
        o.__dict__.update(self.__dict__, params=p)
        return o

    def __init__(self, W, grid, params):
        self.W, self.grid, self.params = W, grid, params
        self.t = W.tag(grid)
        n = interp.call(len, [params])
        if not interp.truth(C.eqv(n, interp.call(len, [getattr_(grid, "vertices")]))):
            raise InterpRaise(ValueError("number of params must equal to the number of vertices"))

    def u(self, i):
        return num(interp.subscript(self.params, i))

    def __call__(self, triangle, barycentric_coordinates):
        l = [num(entry(barycentric_coordinates, j)) for j in range(3)]
        return sum((a * self.u(i) for a, i in zip(l, interp.unpack(triangle, 3))), ZERO)

    def gradient(self, triangle, barycentric_coordinates):
        i = list(interp.unpack(triangle, 3))
        a = [tm.lift(x) for x in i] + [self.u(x) for x in i]
        return Vec(tm.app("p1gx" + self.t, a), tm.app("p1gy" + self.t, a))

    def on_edge(self, edge, t):
        i, j = interp.unpack(edge, 2)
        t = num(t)
        return t * self.u(i) + (1 - t) * self.u(j)

    def hessian(self, triangle, barycentric_coordinates):
        raise InterpRaise(NotImplementedError("Hessian cannot be computed for P1 interpolations"))


class StubC1:
    __model__ = True

    def __inst__(self, m, ids):
        p = C._inst(self.params, m, ids)
        if p is self.params:
            return self
        o = object.__new__(StubC1)
        o.__dict__.update(self.__dict__, params=p)
        return o

    def __init__(self, W, grid, params):
        self.W, self.grid, self.params = W, grid, params
        self.t = W.tag(grid)
        n = interp.call(len, [params])
        bad = interp.call(any, [PList(C.map_nodes(interp.to_nodes(params), lambda p: C.pybool(tm.not_(tm.boolterm(C.eqv(interp.call(len, [p]), 6))))))])
        if interp.truth(bad):
            raise InterpRaise(ValueError("each parameter provided must be a list of 6 elements"))
        if not interp.truth(C.eqv(n, interp.call(len, [getattr_(grid, "vertices")]))):
            raise InterpRaise(ValueError("number of params must equal to the number of vertices"))

    def args(self, triangle, c):
        i = list(interp.unpack(triangle, 3))
        prm = [num(interp.subscript(interp.subscript(self.params, x), j)) for x in i for j in range(6)]
        return [tm.lift(x) for x in i] + [num(entry(c, 0)), num(entry(c, 1))] + prm

    def __call__(self, triangle, barycentric_coordinates):
        return tm.app("c1v" + self.t, self.args(triangle, barycentric_coordinates))

    def gradient(self, triangle, barycentric_coordinates):
        a = self.args(triangle, barycentric_coordinates)
        return Vec(tm.app("c1gx" + self.t, a), tm.app("c1gy" + self.t, a))

    def hessian(self, triangle, barycentric_coordinates):
        a = self.args(triangle, barycentric_coordinates)
        xy = tm.app("c1hxy" + self.t, a)
        return Mat([[tm.app("c1hxx" + self.t, a), xy], [xy, tm.app("c1hyy" + self.t, a)]])

    def on_edge(self, edge, t):
        i = list(interp.unpack(edge, 2))
        prm = [num(interp.subscript(interp.subscript(self.params, x), j)) for x in i for j in range(6)]
        return tm.app("c1e" + self.t, [tm.lift(x) for x in i] + [num(t)] + prm)


def state(name, *dims, sort=tm.R):
    """numpy array of arbitrary numbers"""
    return Arr(tuple(dims), lambda *ix: tm.app(name, [tm.lift(i) for i in ix], sort))


def nonneg(V, name, n):
    k = tm.var("%n", tm.I)
    V.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n)), tm.le(0, tm.app(name, [k])))))


def unknown(v, sym="sol!"):
    """the unknown behind an entry of an array read after a solve: its answer sol!..(index) and its name in expressions"""
    xs = {t.id: t for t in tm.subterms([tm.lift(v)]) if t.op == "app" and t.args[0].startswith(sym)}
    if len(xs) != 1:
        raise tm.Unsupported("returned array is not made of single unknowns")
    t = next(iter(xs.values()))
    return t, tm.app("pyo!" + t.args[0].split("!", 2)[2], list(t.args[1:]), tm.R)


class Field:
    """nodal unknowns or data as functions: vals(vertex, *dof) -> term"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *ix):
        return num(self.f(*ix))


def p1_val(W, u, tri, l, tag="c"):
    return sum((a * u(i) for a, i in zip(l, tri)), ZERO)


def p1_grad(W, u, tri, tag="c"):
    a = [tm.lift(i) for i in tri] + [u(i) for i in tri]
    return [tm.app("p1gx" + tag, a), tm.app("p1gy" + tag, a)]


def coarse(W, tri, l):
    a = [tm.lift(i) for i in tri] + [tm.lift(x) for x in l[:2]]
    ct = [tm.app(f"ctri{j}", a[:3], tm.I) for j in range(3)]
    return ct, [tm.app("cl1", a), tm.app("cl2", a)]


def c1_args(W, u, tri, l):
    ct, cl = coarse(W, tri, l)
    return ct + cl + [u(i, j) for i in ct for j in range(6)]


def c1_grad(W, u, tri, l):
    a = c1_args(W, u, tri, l)
    return [tm.app("c1gxc", a), tm.app("c1gyc", a)]


def c1_hess(W, u, tri, l):
    a = c1_args(W, u, tri, l)
    xy = tm.app("c1hxyc", a)
    return [[tm.app("c1hxxc", a), xy], [xy, tm.app("c1hyyc", a)]]


def rule(degree):
    """published rule of this degree: (weight, l1, l2, l3)"""
    r = getattr(mod("quadrature_rules"), RULES[degree])
    return [(num(w), *[num(p[j]) for j in range(3)]) for w, p in r]


def integral(W, degree, f, tag=""):
    """sum over triangles of area times the quadrature sum of f(triangle, coordinates)"""
    n = getattr(W, "M" + tag)
    tri = getattr(W, "T3" + tag)
    return tm.ssum(W.k, n, W.area(tag) * sum((w * f(tri, l) for w, *l in rule(degree)), ZERO))


def edge_integral(W, edge, n, f):
    """midpoint rule over edges"""
    (x1, y1), (x2, y2) = W.p(edge[0]), W.p(edge[1])
    return tm.ssum(W.k, n, tm.sqrt((x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2)) * f(edge))


def helper(name, *args):
    return call(getattr(mod("helpers"), name), list(args))


class defined_where:
    """specification terms are written without proving their divisors nonzero: they mean what they say where they are defined"""

    def __enter__(self):
        ctx().lenient = True

    def __exit__(self, *a):
        ctx().lenient = False


def without_objective(W):
    """the value of the objective plays no role: integrals are arbitrary numbers (their values: C15, C21, C22)"""
    I = mod("integrators")

    def mk(*a, **k):
        def integrate(f):
            s = ctx()
            s.counter += 1
            return tm.app(f"integral{s.counter}", [ZERO])
        return interp.Opaque(integrate)
    interp.STUBS[I.Integrator] = mk
    interp.STUBS[I.BoundaryIntegrator] = mk


def opaque_traction():
    return interp.Opaque(lambda t, x, y: lst([tm.app("g1", [num(t), num(x), num(y)]), tm.app("g2", [num(t), num(x), num(y)])]))


def meth(o, name, *a):
    return call(getattr_(o, name), list(a))


def mech_step(W, th0, r, fps, reg):
    M = mod("mechanical_step")
    S = PM.SolverM()
    return S, call(M.mechanical_step, [S, W.grid, interp.construct(M.MechanicalStepParams, [th0, r, fps, reg], {}), W.fine, opaque_traction()])


def therm_step(W, prev, y, theta, r, fps, reg):
    M = mod("thermal_step")
    S = PM.SolverM()
    ext = interp.Opaque(lambda t: tm.app("ext", [num(t)]))
    return S, call(M.thermal_step, [S, W.grid, prev, y, theta, interp.construct(M.ThermalStepParams, [r, fps, reg], {}), ext, W.fine])


def same(a, b):
    """formula: equal numbers"""
    return tm.eq(num(a), num(b))


def identity_entry(W, i, c, j=None):
    """entry of the identity deformation in the documented layout"""
    if j is None or j == 0:
        return W.p(i)[c]
    return tm.rconst(1 if j == c + 1 else 0)


class Layout:
    """documented layouts: y is N x 2, resp. N x 2 x 6; theta has one entry per (refined) vertex"""

    def __init__(self, V, W, reg):
        self.V, self.W, self.reg = V, W, reg
        self.nt = W.Nf if reg else W.N
        self.i, self.it = V.int("vertex", "tvertex")
        V.requires(tm.le(0, self.i), tm.lt(self.i, W.N), tm.le(0, self.it), tm.lt(self.it, self.nt))

    def y(self, name):
        return state(name, self.W.N, 2, 6) if self.reg else state(name, self.W.N, 2)

    def theta(self, name):
        return state(name, self.nt)

    def entries(self):
        return [(self.i, tm.const(c), tm.const(j)) for c in (0, 1) for j in range(6)] if self.reg else [(self.i, tm.const(c)) for c in (0, 1)]

    def shape(self, a, theta):
        want = (self.nt,) if theta else ((self.W.N, 2, 6) if self.reg else (self.W.N, 2))
        if not isinstance(a, Arr) or len(a.shape) != len(want):
            return tm.FALSE
        return tm.and_(*[tm.eq(tm.lift(x), tm.lift(w)) for x, w in zip(a.shape, want)])

    def check_y(self, label, a, want):
        """want: (i, c[, j]) -> term"""
        self.V.oblige(f"{label}: layout", self.shape(a, False))
        self.V.oblige(f"{label}: entries", tm.and_(*[same(a.get(*e), want(*e)) for e in self.entries()]))

    def check_theta(self, label, a, want):
        self.V.oblige(f"{label}: layout", self.shape(a, True))
        self.V.oblige(f"{label}: entries", same(a.get(self.it), want(self.it)))
