from .bell import *

EXPLANATION = ("The gradient and Hessian terms computed by the code are compared, as rational functions, with the chain-rule derivatives of "
               "the value term computed by the code, for arbitrary triangles, points and data.")
ASSUMPTIONS = ["sympy's lambdified element functions are executed as the Python code sympy generated from the expressions in the repository"]


def p1_gradient(V):
    """transform_gradient is the chain rule for any function of the barycentric coordinates"""
    t = Tri(V)
    g = V.real("g1", "g2", "g3")

    def ens(v):
        V.oblige("x", tm.eq(entry(v, 0), (g[0] * t.b1 + g[1] * t.b2 + g[2] * t.b3) / t.A2))
        V.oblige("y", tm.eq(entry(v, 1), (g[0] * t.c1 + g[1] * t.c2 + g[2] * t.c3) / t.A2))
    V.returns("transform_gradient", lambda: call(B().transform_gradient, [t.vertices(), Vec(*g)]), ens)
    h = {(i, j): V.real(f"h{min(i, j)}{max(i, j)}") for i in range(3) for j in range(3)}
    order = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))
    b, c = (t.b1, t.b2, t.b3), (t.c1, t.c2, t.c3)

    def ensh(v):
        for i, j, p, q in ((0, 0, b, b), (0, 1, b, c), (1, 0, c, b), (1, 1, c, c)):
            V.oblige(f"hessian {i}{j}", tm.eq(entry(v, i, j), sum((h[r, s] * p[r] * q[s] for r in range(3) for s in range(3)), tm.rconst(0)) / (t.A2 * t.A2)))
    V.returns("transform_hessian", lambda: call(B().transform_hessian, [t.vertices(), Vec(*[h[o] for o in order])]), ensh)


def cases():
    return [Case("gradient of the interpolant", derivs("gradient"), budget=160), Case("hessian of the interpolant", derivs("hessian"), budget=200),
            Case("transformation to Euclidean derivatives", p1_gradient, budget=60), Case("C1Interpolation", c1_class, budget=160)]


def gen(rng, tier):
    for _ in range(20):
        yield {"tri": rtri(rng), "lam": [rng.randint(1, 6) / 16, rng.randint(1, 6) / 16], "u": [R(rng) for _ in range(18)],
               "object": rng.random() < .4, "z": zoom(rng)}


def run(case):
    tri, u = case["tri"], case["u"]
    (x1, y1), (x2, y2), (x3, y3) = tri
    A2 = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)
    dl = ((y2 - y3) / A2, (y3 - y1) / A2), ((x3 - x2) / A2, (x1 - x3) / A2)
    e = 1e-4 * abs(A2) ** .5
    lam = case["lam"]

    inter = c1_real(tri, u, case.get("z", 1)) if case.get("object") else None
    BC = mod("tensors").BarycentricCoordinates

    def val(dx, dy):
        l = [lam[i] + dl[0][i] * dx + dl[1][i] * dy for i in (0, 1)]
        if inter is not None:
            return inter((0, 1, 2), BC(*l))
        return run_on_real(tri, l, u, case.get("z", 1))[0]

    def grad(dx, dy):
        l = [lam[i] + dl[0][i] * dx + dl[1][i] * dy for i in (0, 1)]
        if inter is not None:
            return inter.gradient((0, 1, 2), BC(*l))
        return run_on_real(tri, l, u, case.get("z", 1))[1]
    if inter is not None:
        for b in (BC(0.1, 0.2), BC(0.6, 0.3)):
            inter((0, 1, 2), b), inter.gradient((0, 1, 2), b), inter.hessian((0, 1, 2), b)
        g, h = inter.gradient((0, 1, 2), BC(*lam)), inter.hessian((0, 1, 2), BC(*lam))
    else:
        _, g, h = run_on_real(tri, lam, u, case.get("z", 1))
    # sixth-order central differences of the code's own values: exact for the quintics at hand up to rounding
    def d(f):
        return (f(3) - 9 * f(2) + 45 * f(1) - 45 * f(-1) + 9 * f(-2) - f(-3)) / 60
    E = 1000 * e
    sc = 100 * (1 + max(abs(x) for x in u)) / min(1, abs(A2))
    num = [d(lambda k: val(k * E, 0)) / E, d(lambda k: val(0, k * E)) / E]
    for i in (0, 1):
        if not close(g[i], num[i], 1e-7, sc):
            return f"gradient[{i}] = {g[i]} but the value changes at rate {num[i]}"
        a, b = d(lambda k: grad(k * E, 0)[i]) / E, d(lambda k: grad(0, k * E)[i]) / E
        for j, q in ((0, a), (1, b)):
            if not close(h[i, j], q, 1e-7, 10 * sc):
                return f"hessian[{i},{j}] = {h[i, j]} but the gradient changes at rate {q}"
    return None
