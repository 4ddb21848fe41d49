from .bell import *

EXPLANATION = ("Every obligation is a polynomial/rational identity in the six triangle parameters, two barycentric coordinates and "
               "fifteen quartic coefficients, decided by ring normalisation of the terms obtained by symbolically executing the "
               "real functions.")
ASSUMPTIONS = ["sympy's lambdified element functions are executed as the Python code sympy generated from the expressions in the repository"]


def cases():
    return [Case("bell value", reproduces("value"), budget=120), Case("bell gradient", reproduces("gradient"), budget=120),
            Case("bell hessian", reproduces("hessian"), budget=160), Case("bell parameter count", wrong_size, budget=60),
            Case("C1Interpolation", c1_class, budget=160)]


def gen(rng, tier):
    for _ in range(25):
        yield {"tri": rtri(rng), "lam": rlam(rng), "q": rquartic(rng), "z": zoom(rng)}
    pts, tris = rmesh(rng)
    yield {"mesh": pts, "tris": tris, "q": rquartic(rng), "lam": rlam(rng), "z": zoom(rng)}


def run_mesh(case):
    """one interpolation object asked about many triangles that share vertices, in turn"""
    q, pts = cq(case["q"]), case["mesh"]
    z = case.get("z", 1)
    g = real_grid(zpts(pts, z), case["tris"])
    prm = [[poly_eval(q, x, y, *d) for d in ORD6] for x, y in pts]
    inter = mod("interpolation").C1Interpolation(g, zdata(prm, z))
    inter = Zoomed(inter, z)
    s = 1 + max(abs(a) for r in prm for a in r)
    for t, lam in [(t, lam) for t in case["tris"] for lam in (case["lam"], case["lam"][::-1])]:
        b = mod("tensors").BarycentricCoordinates(*lam)
        l = [lam[0], lam[1], 1 - sum(lam)]
        x, y = (sum(a * pts[i][k] for a, i in zip(l, t)) for k in (0, 1))
        v, gr, h = inter(tuple(t), b), inter.gradient(tuple(t), b), inter.hessian(tuple(t), b)
        got = [v, gr[0], gr[1], h[0, 0], h[0, 1], h[1, 1]]
        for nm, a, d, tol in zip(("value", "x-derivative", "y-derivative", "xx", "xy", "yy"), got, ORD6, (1e-6,) + (1e-5,) * 2 + (1e-4,) * 3):
            if not close(a, poly_eval(q, x, y, *d), tol, s):
                return f"{nm} in triangle {t} after the triangles before it: {a} instead of {poly_eval(q, x, y, *d)}"
    return None


def run(case):
    if "mesh" in case:
        return run_mesh(case)
    q, tri, lam = cq(case["q"]), case["tri"], case["lam"]
    prm = [poly_eval(q, x, y, *d) for x, y in tri for d in ORD6]
    l = [lam[0], lam[1], 1 - lam[0] - lam[1]]
    x, y = (sum(a * p[i] for a, p in zip(l, tri)) for i in (0, 1))
    inter = c1_real(tri, prm, case.get("z", 1))
    b = mod("tensors").BarycentricCoordinates(lam[0], lam[1])
    for v, g, h in (run_on_real(tri, lam, prm, case.get("z", 1)),
                    (inter((0, 1, 2), b), inter.gradient((0, 1, 2), b), inter.hessian((0, 1, 2), b))):
        s = 1 + max(abs(a) for a in prm)
        if not close(v, poly_eval(q, x, y), 1e-7, s):
            return f"value {v} instead of {poly_eval(q, x, y)}"
        for i, d in enumerate(((1, 0), (0, 1))):
            if not close(g[i], poly_eval(q, x, y, *d), 1e-6, s):
                return f"gradient[{i}] {g[i]} instead of {poly_eval(q, x, y, *d)}"
        for i, j, d in ((0, 0, (2, 0)), (0, 1, (1, 1)), (1, 0, (1, 1)), (1, 1, (0, 2))):
            if not close(h[i, j], poly_eval(q, x, y, *d), 1e-5, s):
                return f"hessian[{i},{j}] {h[i, j]} instead of {poly_eval(q, x, y, *d)}"
    return None
