"""Pulled-back heat conductivity and the 2x2 inverse."""
from .pot import *

EXPLANATION = ("inverse_2x2 and heat_conductivity_reference are executed on a generic invertible strain; the results are proved equal to the "
               "inverse and to det(F) F^-1 K F^-T as rational identities, definiteness via the pulled-back quadratic form.")
ASSUMPTIONS = []


def inverse(V):
    f, J = strain(V, positive=False)
    a, b, c, d = f
    V.cover("invertible strain")
    inv = [[d / J, -b / J], [-c / J, a / J]]
    I = [[1, 0], [0, 1]]
    V.returns("inverse", lambda: call(mod("tensors").inverse_2x2, [M2(f)]), lambda v: same(v, inv))
    V.returns("right inverse", lambda: interp.binop("matmul", M2(f), call(mod("tensors").inverse_2x2, [M2(f)])), lambda v: same(v, I))
    V.returns("left inverse", lambda: interp.binop("matmul", call(mod("tensors").inverse_2x2, [M2(f)]), M2(f)), lambda v: same(v, I))

    def frame():
        m = M2(f)
        call(mod("tensors").inverse_2x2, [m])
        return m
    V.returns("argument unchanged", frame, lambda v: same(v, [f[:2], f[2:]]))


def shapes(V):
    n, m = V.int("n", "m")
    V.requires(tm.le(1, n), tm.le(1, m), tm.not_(tm.and_(tm.eq(n, 2), tm.eq(m, 2))))
    V.cover("other shapes")
    V.raises("other shapes rejected", lambda: call(mod("tensors").inverse_2x2, [call(mod("tensors").Matrix, [symlist("a", n, m)])]), ValueError)


def conductivity(V):
    f, J = strain(V, positive=False)
    a, b, c, d = f
    V.cover("invertible strain")
    inv = [[d / J, -b / J], [-c / J, a / J]]
    K = [[tm.lift(x) for x in r] for r in data(getattr(H(), "HEAT_CONDUCTIVITY"))]
    want = [[J * sum((inv[i][k] * K[k][l] * inv[j][l] for k in range(2) for l in range(2)), tm.rconst(0)) for j in range(2)] for i in range(2)]
    V.returns("pull-back", lambda: h("heat_conductivity_reference", M2(f)), lambda v: same(v, want))
    V.returns("symmetric", lambda: h("heat_conductivity_reference", M2(f)), lambda v: tm.eq(entry(v, 0, 1), entry(v, 1, 0)))
    V.oblige("the conductivity is symmetric", tm.eq(K[0][1], K[1][0]))
    V.oblige("the conductivity is positive definite", tm.and_(tm.lt(0, K[0][0]), tm.lt(0, K[0][0] * K[1][1] - K[0][1] * K[1][0])))
    x, y = V.real("x", "y")
    # with w = F^-T (x, y):  (x, y) Kref (x, y)^T = det F * w^T K w
    w = [inv[0][0] * x + inv[1][0] * y, inv[0][1] * x + inv[1][1] * y]
    q = lambda v: entry(v, 0, 0) * x * x + (entry(v, 0, 1) + entry(v, 1, 0)) * x * y + entry(v, 1, 1) * y * y
    V.returns("quadratic form", lambda: h("heat_conductivity_reference", M2(f)),
              lambda v: tm.eq(q(v), J * sum((w[i] * K[i][j] * w[j] for i in range(2) for j in range(2)), tm.rconst(0))))
    V.returns("determinant", lambda: h("heat_conductivity_reference", M2(f)),
              lambda v: tm.eq(entry(v, 0, 0) * entry(v, 1, 1) - entry(v, 0, 1) * entry(v, 1, 0), K[0][0] * K[1][1] - K[0][1] * K[1][0]))
    # Sylvester: positive leading minors, so positive definite for det F > 0
    minor = K[0][0] * d * d - (K[0][1] + K[1][0]) * d * b + K[1][1] * b * b
    V.returns("leading entry times det F", lambda: h("heat_conductivity_reference", M2(f)), lambda v: tm.eq(entry(v, 0, 0) * J, minor))
    V.oblige("the leading entry times det F is positive", tm.lt(0, minor))
    # w = 0 only for (x, y) = 0
    V.oblige("lemma: F^-T is injective", tm.and_(tm.eq(x, a * w[0] + c * w[1]), tm.eq(y, b * w[0] + d * w[1])))


def cases():
    return [Case("inverse", inverse, budget=60), Case("other shapes", shapes, budget=60), Case("conductivity", conductivity, budget=60)]


def gen(rng, tier):
    for _ in range(60):
        yield {"F": rF(rng, positive=False), "n": rng.randint(1, 4), "m": rng.randint(1, 4), "z": zoom(rng)}


def run(case):
    import numpy as np
    f = np.array(case["F"]).reshape(2, 2)
    T = mod("tensors")
    z = case.get("z", 1)
    got = T.inverse_2x2(cM([x * z for x in case["F"]])).numpy() * z
    if not np.allclose(got, np.linalg.inv(f), rtol=1e-8, atol=1e-8):
        return f"inverse of {f.tolist()} is {got.tolist()}"
    k = H().heat_conductivity_reference(cM([x * z for x in case["F"]])).numpy()
    want = np.linalg.det(f) * np.linalg.inv(f) @ H().HEAT_CONDUCTIVITY.numpy() @ np.linalg.inv(f).T
    if not np.allclose(k, want, rtol=1e-8, atol=1e-8):
        return f"conductivity at {f.tolist()} is {k.tolist()} instead of {want.tolist()}"
    n, m = case["n"], case["m"]
    if (n, m) != (2, 2):
        try:
            T.inverse_2x2(T.Matrix([[float(i + 2 * j) for j in range(m)] for i in range(n)]))
        except ValueError:
            return None
        return f"inverse of a {n}x{m} matrix accepted"
    return None
