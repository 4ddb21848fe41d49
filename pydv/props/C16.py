"""Elastic potentials."""
from .pot import *

EXPLANATION = ("The potentials (including the functions sympy.lambdify generates for them) are executed on a generic strain of positive "
               "determinant; invariance under rotations is a polynomial identity modulo cos^2 + sin^2 = 1, nonnegativity and the wells are "
               "discharged by SMT over nonlinear real arithmetic, with log x <= x - 1 (equality only at 1).")
ASSUMPTIONS = ["log x <= x - 1 for x > 0, with equality only at x = 1", "austenite fraction within [0, 1] (proved as C19)"]


def austenite(V):
    f, J = strain(V)
    a, b, c, d = f
    cs = rotation(V)
    V.cover("strain of positive determinant")
    W = lambda *g: h("austenite_potential", M2(g))
    V.oblige("lemma: |F|^2 >= 2 det F", tm.le(0, (a - d) * (a - d) + (b + c) * (b + c)))
    V.requires(tm.le(0, (a - d) * (a - d) + (b + c) * (b + c)))
    V.returns("nonnegative", lambda: W(*f), lambda v: tm.le(0, v))
    V.returns("invariant under rotations", lambda: (W(*f), W(*rot(cs, f))), lambda p: tm.eq(*p))
    V.returns("vanishes only at rotations", lambda: W(*f),
              lambda v: tm.implies(tm.eq(v, 0), tm.and_(tm.eq(a, d), tm.eq(b, -c), tm.eq(J, 1))))
    V.returns("vanishes at rotations", lambda: W(cs[0], -cs[1], cs[1], cs[0]), lambda v: tm.eq(v, 0))


def martensite(V):
    f, J = strain(V)
    cs = rotation(V)
    V.cover("strain of positive determinant")
    W = lambda *g: h("martensite_potential", M2(g))
    V.returns("nonnegative", lambda: W(*f), lambda v: tm.le(0, v))
    V.returns("invariant under rotations", lambda: (W(*f), W(*rot(cs, f))), lambda p: tm.eq(*p))
    s = tm.lift(H().MARTENSITE_POS_SHEAR)
    V.returns("vanishes at the first well", lambda: W(*rot(cs, (1, s, 0, 1))), lambda v: tm.eq(v, 0))
    V.returns("vanishes at the second well", lambda: W(*rot(cs, (1, -s, 0, 1))), lambda v: tm.eq(v, 0))
    for nm, sg in (("FIRST", 1), ("SECOND", -1)):
        V.returns(f"{nm} well inverse", lambda: interp.binop("matmul", Mat([[1, sg * s], [0, 1]]), getattr(H(), f"{nm}_MARTENSITE_WELL_INVERSE")),
                  lambda v: same(v, [[1, 0], [0, 1]]))
    V.returns("positive at the identity", lambda: W(1, 0, 0, 1), lambda v: tm.lt(0, v))


def total(V):
    f, J = strain(V)
    th = V.real("theta")
    V.requires(tm.le(0, th))
    cs = rotation(V)
    V.cover("strain and temperature")
    a, m, lam = h("austenite_potential", M2(f)), h("martensite_potential", M2(f)), h("austenite_percentage", th)
    V.returns("convex combination", lambda: h("total_elastic_potential", M2(f), th), lambda v: tm.eq(v, lam * a + (1 - lam) * m))
    V.returns("invariant under rotations", lambda: (h("total_elastic_potential", M2(f), th), h("total_elastic_potential", M2(rot(cs, f)), th)),
              lambda p: tm.eq(*p))
    A, B, L = V.real("A", "B", "L")
    with V.under(tm.and_(tm.le(0, A), tm.le(0, B), tm.le(0, L), tm.le(L, 1))):
        V.oblige("lemma: a convex combination of nonnegative numbers is nonnegative", tm.le(0, L * A + (1 - L) * B))


def hyper(V):
    e = V.real(*[f"h{i}" for i in range(8)])
    V.cover("strain gradient")
    t = lambda x: Ten([[x[0:2], x[2:4]], [x[4:6], x[6:8]]])
    V.returns("nonnegative", lambda: h("hyper_elastic_potential", t(e)), lambda v: tm.le(0, v))
    V.returns("third power of the norm", lambda: h("hyper_elastic_potential", t(e)),
              lambda v: tm.eq(v * v, tm.power(sum((x * x for x in e), tm.rconst(0)), 3)))
    V.returns("vanishes at zero", lambda: h("hyper_elastic_potential", t([tm.rconst(0)] * 8)), lambda v: tm.eq(v, 0))


def cases():
    return [Case("austenite", austenite, budget=60), Case("martensite", martensite, budget=60), Case("total", total, budget=60),
            Case("strain gradient", hyper, budget=60)]


def gen(rng, tier):
    for j in range(60):
        e = rng.choice((0.3, 0.05, 0.01))
        near = crot(rng.uniform(-4, 4), [1 + rng.uniform(-e, e), rng.choice((0, 0.5, -0.5)) + rng.uniform(-e, e), 0, 1 + rng.uniform(-e, e)])
        if j % 3 == 0:
            k = 1 + rng.uniform(-e, e)
            near = crot(rng.uniform(-4, 4), [k, 0, 0, k])
        yield {"F": near if j % 2 else rF(rng), "t": rng.uniform(-4, 4), "theta": rng.choice([0, rng.uniform(0, 3), rng.uniform(3, 9)]), "h": [rng.uniform(-2, 2) for _ in range(8)]}


def run(case):
    m, f = H(), case["F"]
    q = crot(case["t"], f)
    th = case["theta"]
    for nm in ("austenite_potential", "martensite_potential"):
        w = getattr(m, nm)
        if w(cM(f)) < -1e-9:
            return f"{nm}({f}) = {w(cM(f))} is negative"
        if not close(w(cM(f)), w(cM(q)), 1e-7):
            return f"{nm}({f}) = {w(cM(f))} but {w(cM(q))} after a rotation"
    if not close(m.total_elastic_potential(cM(f), th), m.total_elastic_potential(cM(q), th), 1e-7) or m.total_elastic_potential(cM(f), th) < -1e-9:
        return f"total_elastic_potential at {f}, {th}"
    if abs(m.austenite_potential(cM(crot(case["t"], [1, 0, 0, 1])))) > 1e-9:
        return "austenite potential does not vanish at a rotation"
    s = m.MARTENSITE_POS_SHEAR
    for g in (s, -s):
        if abs(m.martensite_potential(cM(crot(case["t"], [1, g, 0, 1])))) > 1e-9:
            return "martensite potential does not vanish at a well"
    T = mod("tensors").Tensor3D
    x = case["h"]
    n = math.sqrt(sum(y * y for y in x))
    if not close(m.hyper_elastic_potential(T([[x[:2], x[2:4]], [x[4:6], x[6:]]])), n ** 3):
        return "hyper_elastic_potential is not the cubed norm"
    return None
