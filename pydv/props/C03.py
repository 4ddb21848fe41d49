from .bell import *

EXPLANATION = ("On each side of an arbitrary triangle the value, tangential and normal derivative of the interpolant are shown equal to "
               "explicit Hermite polynomials in the data of that side's two end vertices; with the reversal lemma, two triangles sharing a "
               "side therefore agree there in value and gradient.")
ASSUMPTIONS = ["sympy's lambdified element functions are executed as the Python code sympy generated from the expressions in the repository"]


def cases():
    return [Case(f"side {k + 1}", edge_cases(k), budget=160) for k in range(3)] + \
        [Case("edge trace", on_edge, budget=60), Case("reversal lemma", lemma_reverse, budget=60), Case("C1Interpolation", c1_class, budget=160)]


def gen(rng, tier):
    for _ in range(25):
        while True:
            p, q = [R(rng), R(rng)], [R(rng), R(rng)]
            a, b = [R(rng), R(rng)], [R(rng), R(rng)]
            cr = lambda r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
            d2 = (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2
            if d2 > 0.1 and cr(a) > .2 * d2 and cr(b) < -.2 * d2 and max(abs(cr(a)), abs(cr(b))) < 8 * d2:
                break
        yield {"p": p, "q": q, "a": a, "b": b, "u": [[R(rng) for _ in range(6)] for _ in range(4)], "s": rng.randint(0, 16) / 16,
               "ra": rng.randint(0, 2), "rb": rng.randint(0, 2), "z": zoom(rng)}


def run(case):
    D, I, Tn = mod("domain"), mod("interpolation"), mod("tensors")
    z = case.get("z", 1)
    pts = [Tn.Vector(p) for p in zpts([case[k] for k in "pqab"], z)]
    ta, tb = [0, 1, 2], [1, 0, 3]
    ta, tb = ta[case["ra"]:] + ta[:case["ra"]], tb[case["rb"]:] + tb[:case["rb"]]
    bd = D.Boundary([], [])
    g = D.Grid([0, 1, 2, 3], [(0, 1), (1, 2), (2, 0), (0, 3), (3, 1)], [tuple(ta), tuple(tb)], bd, bd, bd, pts)
    inter = Zoomed(I.C1Interpolation(g, zdata(case["u"], z)), z)
    s = case["s"]
    w = {0: 1 - s, 1: s, 2: 0, 3: 0}
    res = []
    for t in (tb, ta, tb):
        # earlier questions to the same object
        for b in (Tn.BarycentricCoordinates(0.2, 0.3), Tn.BarycentricCoordinates(0.5, 0.1)):
            inter(tuple(t), b), inter.gradient(tuple(t), b)
    for t in (ta, tb):
        b = Tn.BarycentricCoordinates(w[t[0]], w[t[1]])
        gr = inter.gradient(tuple(t), b)
        res.append((inter(tuple(t), b), gr[0], gr[1]))
    for name, x, y in zip(("value", "x-derivative", "y-derivative"), *res):
        if not close(x, y, 1e-6, 20):
            return f"{name} jumps across the shared edge: {x} against {y}"
    for e, tt in (((0, 1), 1 - s), ((1, 0), s)):
        v = inter.on_edge(e, tt)
        if not close(v, res[0][0], 1e-6, 20):
            return f"edge trace {v} differs from the value {res[0][0]} inside the triangle"
    return None
