from .bell import *
from .C05 import ragged, sizes

EXPLANATION = "Values, gradients and Hessians of the Bell interpolant at the three vertices, for arbitrary data, as ring identities; data of any other size is proved to be rejected with ValueError."
ASSUMPTIONS = ["sympy's lambdified element functions are executed as the Python code sympy generated from the expressions in the repository"]


def cases():
    return [Case("nodal values", nodes("value"), budget=120), Case("nodal gradients", nodes("gradient"), budget=120),
            Case("nodal hessians", nodes("hessian"), budget=160), Case("edge trace", on_edge, budget=60),
            Case("C1Interpolation", c1_class, budget=160), Case("bell parameter count", wrong_size, budget=60),
            Case("parameter counts", sizes, budget=60), Case("ragged parameters", ragged, budget=60)]


def gen(rng, tier):
    for _ in range(25):
        yield {"tri": rtri(rng), "u": [R(rng) for _ in range(18)], "n": rng.randint(0, 2), "z": zoom(rng)}
    pts, tris = rmesh(rng)
    yield {"tri": rtri(rng), "sizes": [rng.randint(0, 17), rng.randint(19, 40)], "row": rng.randint(0, 2), "len": rng.choice([0, 1, 5, 7, 12])}
    yield {"mesh": pts, "tris": tris, "u": [[R(rng) for _ in range(6)] for _ in pts], "z": zoom(rng)}


def run_mesh(case):
    """one interpolation object asked about many triangles that share vertices, in turn"""
    z = case.get("z", 1)
    inter = Zoomed(mod("interpolation").C1Interpolation(real_grid(zpts(case["mesh"], z), case["tris"]), zdata(case["u"], z)), z)
    for t in case["tris"]:
        for n, lam in enumerate(([1, 0], [0, 1], [0, 0])):
            b = mod("tensors").BarycentricCoordinates(*lam)
            v, g, h = inter(tuple(t), b), inter.gradient(tuple(t), b), inter.hessian(tuple(t), b)
            for name, a, c in zip(("value", "x-derivative", "y-derivative", "xx", "xy", "yx", "yy"),
                                  [v, g[0], g[1], h[0, 0], h[0, 1], h[1, 0], h[1, 1]],
                                  (lambda w: w[:5] + w[4:])(case["u"][t[n]])):
                if not close(a, c, 1e-5, 10):
                    return f"{name} at vertex {n + 1} of {t} after the triangles before it: {a} instead of {c}"
        for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            for s, k in ((1, e[0]), (0, e[1])):
                if not close(inter.on_edge(e, s), case["u"][k][0], 1e-6, 10):
                    return f"edge trace on {e} after other edges: {inter.on_edge(e, s)} instead of {case['u'][k][0]}"
    return None


def run_sizes(case):
    """data of the wrong size"""
    Tn, I = mod("tensors"), mod("interpolation")
    p = tuple(Tn.Vector(list(x)) for x in case["tri"])
    g = real_grid(case["tri"], [(0, 1, 2)])
    rows = [[0.5] * (case["len"] if i == case["row"] else 6) for i in range(3)]
    tries = [(f, (lambda f=f, n=n: getattr(B(), f)(p, Tn.BarycentricCoordinates(0.2, 0.3), Tn.Vector([1.0] * n))), n)
             for f in ("bell_interpolation", "bell_interpolation_gradient", "bell_interpolation_hessian") for n in case["sizes"]]
    tries += [("C1Interpolation", lambda: I.C1Interpolation(g, rows), [len(r) for r in rows])]
    tries += [("C1Interpolation", (lambda n=n: I.C1Interpolation(g, [[0.5] * 6] * n)), n) for n in (0, 2, 4)]
    for name, f, n in tries:
        try:
            f()
        except ValueError:
            continue
        return f"{name} accepted data of size {n}"
    return None


def run(case):
    if "sizes" in case:
        return run_sizes(case)
    if "mesh" in case:
        return run_mesh(case)
    tri, u, n = case["tri"], case["u"], case["n"]
    lam = [[1, 0], [0, 1], [0, 0]][n]
    inter = c1_real(tri, u, case.get("z", 1))
    b = mod("tensors").BarycentricCoordinates(*lam)
    for v, g, h in (run_on_real(tri, lam, u, case.get("z", 1)), (inter((0, 1, 2), b), inter.gradient((0, 1, 2), b), inter.hessian((0, 1, 2), b))):
        w = u[6 * n:6 * n + 6]
        got = [v, g[0], g[1], h[0, 0], h[0, 1], h[1, 1]]
        for name, a, c in zip(("value", "x-derivative", "y-derivative", "xx", "xy", "yy"), got, w):
            if not close(a, c, 1e-6, 10):
                return f"{name} at vertex {n + 1} is {a} instead of {c}"
        if not close(h[1, 0], w[4], 1e-6, 10):
            return f"yx at vertex {n + 1} is {h[1, 0]} instead of {w[4]}"
    e = [(0, 1), (1, 2), (2, 0)][n]
    for t, k in ((1, e[0]), (0, e[1])):
        if not close(inter.on_edge(e, t), u[6 * k], 1e-7, 10):
            return f"edge trace at its end is {inter.on_edge(e, t)} instead of {u[6 * k]}"
    return None
