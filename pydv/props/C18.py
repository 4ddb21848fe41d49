"""Dissipation."""
from .pot import *

EXPLANATION = ("symmetrized_strain_delta, dissipation_potential and dissipation_rate are executed on generic strains; every statement is a "
               "polynomial identity (modulo cos^2 + sin^2 = 1 for the common rotation).")
ASSUMPTIONS = []


def fn(V):
    p = V.real("p11", "p12", "p21", "p22")
    f = V.real("f11", "f12", "f21", "f22")
    fps, t = V.real("fps", "t")
    cs = rotation(V)
    V.cover("two strains")
    d = [x - y for x, y in zip(f, p)]
    # symmetric part: D^T P + P^T D
    S = [[d[0 + i] * p[0 + j] + d[2 + i] * p[2 + j] + p[0 + i] * d[0 + j] + p[2 + i] * d[2 + j] for j in range(2)] for i in range(2)]
    pot = sum((x * x for r in S for x in r), tm.rconst(0)) / 2
    V.returns("symmetrised increment", lambda: h("symmetrized_strain_delta", M2(p), M2(f)), lambda v: same(v, S))
    D = lambda a, b: h("dissipation_potential", M2(a), M2(b))
    V.returns("half the squared norm", lambda: D(p, f), lambda v: tm.eq(v, pot))
    V.returns("nonnegative", lambda: D(p, f), lambda v: tm.le(0, v))
    V.returns("zero for an unchanged strain", lambda: D(p, p), lambda v: tm.eq(v, 0))
    w = V.real("w")
    spin = [p[0] - w * p[2], p[1] - w * p[3], p[2] + w * p[0], p[3] + w * p[1]]
    V.returns("zero for an infinitesimal rotation", lambda: D(p, spin), lambda v: tm.eq(v, 0))
    V.returns("quadratic in the increment", lambda: D(p, [x + t * y for x, y in zip(p, d)]), lambda v: tm.eq(v, t * t * pot))
    V.returns("invariant under a common rotation", lambda: D(rot(cs, p), rot(cs, f)), lambda v: tm.eq(v, pot))
    V.returns("rate", lambda: h("dissipation_rate", M2(p), M2(f), fps), lambda v: tm.eq(v, 2 * fps * fps * pot))

    def frame():
        a, b = M2(p), M2(f)
        h("dissipation_rate", a, b, fps)
        return a, b
    V.returns("arguments unchanged", frame, lambda v: tm.and_(same(v[0], [p[:2], p[2:]]), same(v[1], [f[:2], f[2:]])))


def cases():
    return [Case("dissipation", fn, budget=60)]


def gen(rng, tier):
    for _ in range(60):
        yield {"P": [rng.uniform(-2, 2) for _ in range(4)], "F": [rng.uniform(-2, 2) for _ in range(4)], "fps": rng.uniform(0.1, 9), "t": rng.uniform(-4, 4), "z": zoom(rng), "zf": zoom(rng)}


def run(case):
    import numpy as np
    m, P, F, fps = H(), case["P"], case["F"], case["fps"] * case.get("zf", 1)
    z = case.get("z", 1)
    zM = lambda a: cM([x * z for x in a])
    p, f = np.array(P).reshape(2, 2), np.array(F).reshape(2, 2)
    S = (f - p).T @ p + p.T @ (f - p)
    got = m.symmetrized_strain_delta(zM(P), zM(F)) * (1 / z ** 2)
    for i in range(2):
        for j in range(2):
            if not close(got[i, j], S[i, j]):
                return f"symmetrised increment entry {i},{j}: {got[i, j]} instead of {S[i, j]}"
    want = (S ** 2).sum() / 2
    if not close(m.dissipation_potential(zM(P), zM(F)) / z ** 4, want):
        return "dissipation_potential"
    if not close(m.dissipation_potential(zM(crot(case["t"], P)), zM(crot(case["t"], F))) / z ** 4, want):
        return "dissipation_potential is not frame indifferent"
    if not close(m.dissipation_rate(zM(P), zM(F), fps) / z ** 4 / fps ** 2, 2 * want):
        return "dissipation_rate"
    return None
