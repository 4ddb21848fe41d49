"""P1 interpolation."""
from .bell import *

EXPLANATION = "Contracts of the piecewise affine interpolation over an arbitrary grid (symbolic numbers of points, triangles and edges)."
ASSUMPTIONS = []


def setup(V):
    grid, N, M, E, T3, E2, k = sym_grid(V)
    m, e = V.int("m", "e")
    V.requires(tm.le(0, m), tm.lt(m, M), tm.le(0, e), tm.lt(e, E))
    tri = at(V, T3, k, m, N)
    edge = at(V, E2, k, e, N)
    return grid, N, tri, edge


def xy(i):
    return tm.app("px", [i]), tm.app("py", [i])


def values(V):
    I = mod("interpolation")
    grid, N, tri, edge = setup(V)
    V.cover("grid")
    prm = symlist("u", N)
    l1, l2, s = V.real("l1", "l2", "s")
    u = [tm.app("u", [i]) for i in tri]
    make = lambda: call(I.P1Interpolation, [grid, prm])
    V.returns("value is the barycentric combination of the vertex values", lambda: call(make(), [tri, bary(l1, l2)]),
              lambda v: tm.eq(v, l1 * u[0] + l2 * u[1] + (1 - l1 - l2) * u[2]))
    V.returns("edge value is the convex combination of its ends", lambda: call(getattr_(make(), "on_edge"), [edge, s]),
              lambda v: tm.eq(v, s * tm.app("u", [edge[0]]) + (1 - s) * tm.app("u", [edge[1]])))
    for j, (a, b) in enumerate(((1, 0), (0, 1), (0, 0))):
        V.returns(f"vertex {j + 1} value is interpolated", lambda: call(make(), [tri, bary(tm.rconst(a), tm.rconst(b))]),
                  lambda v: tm.eq(v, u[j]))
    V.raises("no Hessian", lambda: call(getattr_(make(), "hessian"), [tri, bary(l1, l2)]), NotImplementedError)


def gradient(V):
    I = mod("interpolation")
    grid, N, tri, edge = setup(V)
    x = [xy(i) for i in tri]
    A2 = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0])
    V.requires(tm.not_(tm.eq(A2, 0)))
    V.known_nonzero(A2)
    V.cover("nondegenerate triangle of a grid")
    prm = symlist("u", N)
    u = [tm.app("u", [i]) for i in tri]
    l1, l2 = V.real("l1", "l2")

    def ens(g):
        g0, g1 = entry(g, 0), entry(g, 1)
        for a, b in ((0, 1), (1, 2), (2, 0)):
            V.oblige(f"directional derivative along side {a + 1} is the difference of the vertex values",
                     tm.eq(g0 * (x[b][0] - x[a][0]) + g1 * (x[b][1] - x[a][1]), u[b] - u[a]))
    V.returns("gradient", lambda: call(getattr_(call(I.P1Interpolation, [grid, prm]), "gradient"), [tri, bary(l1, l2)]), ens)


def affine(V):
    """affine functions are reproduced exactly"""
    I = mod("interpolation")
    grid, N, tri, edge = setup(V)
    x = [xy(i) for i in tri]
    A2 = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0])
    V.requires(tm.not_(tm.eq(A2, 0)))
    V.known_nonzero(A2)
    k = tm.var("%a", tm.I)
    a, b, c = V.real("a", "b", "c")
    prm = PList([For(k, N, [Item(a + b * xy(k)[0] + c * xy(k)[1])])])
    l1, l2 = V.real("l1", "l2")
    l = (l1, l2, 1 - l1 - l2)
    make = lambda: call(I.P1Interpolation, [grid, prm])
    X, Y = (sum((w * p[i] for w, p in zip(l, x)), tm.rconst(0)) for i in (0, 1))
    V.returns("affine values", lambda: call(make(), [tri, bary(l1, l2)]), lambda v: tm.eq(v, a + b * X + c * Y))
    V.returns("affine gradient", lambda: call(getattr_(make(), "gradient"), [tri, bary(l1, l2)]),
              lambda g: tm.and_(tm.eq(entry(g, 0), b), tm.eq(entry(g, 1), c)))


def sizes(V):
    I, D = mod("interpolation"), mod("domain")
    grid, N, tri, edge = setup(V)
    n = V.int("n")
    V.requires(tm.le(0, n), tm.not_(tm.eq(n, N)))
    V.cover("wrong number of parameters")
    V.raises("wrong number of parameters is rejected", lambda: call(I.P1Interpolation, [grid, symlist("u", n)]), ValueError)
    V.raises("wrong number of C1 parameters is rejected", lambda: call(I.C1Interpolation, [grid, symlist("u", n, 6)]), ValueError)
    V.returns("matching number accepted", lambda: call(I.P1Interpolation, [grid, symlist("u", N)]), lambda v: True)
    nb = V.int("nb")
    V.requires(tm.le(0, nb), tm.not_(tm.eq(nb, n)))
    kb = tm.var("%b", tm.I)
    bd = call(D.Boundary, [PList([For(kb, nb, [Item(tm.app("bv", [kb], tm.I))])]), lst([])])
    V.raises("wrong number of boundary parameters is rejected", lambda: call(I.P1BoundaryInterpolation, [bd, symlist("u", n)]), ValueError)


def ragged(V):
    """a C1 parameter entry that does not have six values is rejected, wherever it is"""
    I = mod("interpolation")
    grid, N, tri, edge = setup(V)
    k, j = tm.var("%r", tm.I), tm.var("%rr", tm.I)
    ln = tm.app("len", [k], tm.I)
    prm = PList([For(k, N, [Item(PList([For(j, ln, [Item(tm.app("u", [k, j]))])]))])])
    w = V.int("w")
    V.requires(tm.forall((k,), tm.le(0, ln)), tm.le(0, w), tm.lt(w, N), tm.not_(tm.eq(tm.app("len", [w], tm.I), 6)))
    V.cover("ragged parameters")
    V.raises("ragged C1 parameters are rejected", lambda: call(I.C1Interpolation, [grid, prm]), ValueError)


def boundary(V):
    """boundary data indexed by vertex"""
    I, D = mod("interpolation"), mod("domain")
    i, j = V.int("i", "j")
    s, a, b = V.real("s", "a", "b")
    V.requires(tm.not_(tm.eq(i, j)))
    bd = call(D.Boundary, [lst([i, j]), lst([(i, j)])])
    d = C.PDict((Item((i, a)), Item((j, b))))
    V.returns("boundary interpolation is the convex combination of the end values",
              lambda: call(call(I.P1BoundaryInterpolation, [bd, d]), [(i, j), s]), lambda v: tm.eq(v, s * a + (1 - s) * b))


def cases():
    return [Case("values", values, budget=60), Case("gradient", gradient, budget=60), Case("affine functions", affine, budget=60),
            Case("parameter counts", sizes, budget=60), Case("ragged parameters", ragged, budget=60), Case("boundary data", boundary, budget=60)]


def gen(rng, tier):
    for _ in range(25):
        yield {"tri": rtri(rng), "u": [R(rng) for _ in range(5)], "lam": rlam(rng), "perm": rng.sample(range(5), 3), "n": rng.choice([0, 4, 6, 9]), "z": zoom(rng)}
    pts, tris = rmesh(rng)
    yield {"mesh": pts, "tris": tris, "u": [R(rng) for _ in pts], "lam": rlam(rng), "s": R(rng), "z": zoom(rng)}


def run_mesh(case):
    """one interpolation object asked about many triangles that share vertices, in turn"""
    I, Tn, pts, u = mod("interpolation"), mod("tensors"), case["mesh"], case["u"]
    z = case.get("z", 1)
    it = Zoomed(I.P1Interpolation(real_grid(zpts(pts, z), case["tris"]), u), z)
    for t, lam in [(t, lam) for t in case["tris"] for lam in (case["lam"], case["lam"][::-1])]:
        l = [lam[0], lam[1], 1 - sum(lam)]
        b = Tn.BarycentricCoordinates(*lam)
        v, w = it(tuple(t), b), sum(a * u[i] for a, i in zip(l, t))
        if not close(v, w):
            return f"value in {t} after the triangles before it: {v} instead of {w}"
        gr = it.gradient(tuple(t), b)
        for i, j in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            d = sum(gr[k] * (pts[j][k] - pts[i][k]) for k in (0, 1))
            if not close(d, u[j] - u[i], 1e-6, 10):
                return f"derivative along side {i, j} of {t} after the triangles before it: {d} instead of {u[j] - u[i]}"
            if not close(it.on_edge((i, j), case["s"]), case["s"] * u[i] + (1 - case["s"]) * u[j], 1e-9, 10):
                return f"edge value on {i, j} after other edges: {it.on_edge((i, j), case['s'])}"
    return None


def run(case):
    if "mesh" in case:
        return run_mesh(case)
    D, I, Tn = mod("domain"), mod("interpolation"), mod("tensors")
    t = case["perm"]
    pts = [[10. + i, -5. - i * i] for i in range(5)]
    for v, p in zip(t, case["tri"]):
        pts[v] = p
    z = case.get("z", 1)
    pts = [Tn.Vector(p) for p in zpts(pts, z)]
    bd = D.Boundary([0, 1, 2, 3, 4], [(0, 1)])
    edges = [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
    g = D.Grid(list(range(5)), edges, [tuple(t)], bd, bd, bd, pts)
    u, lam = case["u"], case["lam"]
    it = Zoomed(I.P1Interpolation(g, u), z)
    l = [lam[0], lam[1], 1 - lam[0] - lam[1]]
    v = it(tuple(t), Tn.BarycentricCoordinates(*lam))
    w = sum(a * u[i] for a, i in zip(l, t))
    if not close(v, w):
        return f"value {v} instead of {w}"
    gr = it.gradient(tuple(t), Tn.BarycentricCoordinates(*lam))
    for a, b in ((0, 1), (1, 2), (2, 0)):
        p, q = case["tri"][a], case["tri"][b]
        d = gr[0] * (q[0] - p[0]) + gr[1] * (q[1] - p[1])
        if not close(d, u[t[b]] - u[t[a]], 1e-6, 10):
            return f"derivative along a side {d} instead of {u[t[b]] - u[t[a]]}"
    bi = I.P1BoundaryInterpolation(bd, u)
    for e in edges:
        s = lam[0]
        for f in (it.on_edge, bi):
            if not close(f(e, s), s * u[e[0]] + (1 - s) * u[e[1]]):
                return f"edge value {f(e, s)}"
    for cls, prm in ((I.P1Interpolation, [0.] * case["n"]), (I.C1Interpolation, [[0.] * 6] * case["n"]),
                     (I.C1Interpolation, [[0.] * 6] * 4 + [[0.] * case["n"]] if case["n"] != 6 else [[0.] * 6] * 4)):
        try:
            cls(g, prm)
        except ValueError:
            continue
        return f"{cls.__name__} accepted {len(prm)} parameters for 5 vertices"
    try:
        I.P1BoundaryInterpolation(bd, [0.] * case["n"])
        return "boundary interpolation accepted the wrong number of parameters"
    except ValueError:
        pass
    return None
