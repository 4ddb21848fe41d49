"""Stresses are derivatives of the potentials."""
from .pot import *

EXPLANATION = ("Potential and stress functions are executed on a generic strain; the potential's term is differentiated symbolically (sum, "
               "product, quotient, chain rule) and each entry of the stress is proved equal to that derivative as a rational identity.")
ASSUMPTIONS = ["formal differentiation of real terms agrees with differentiation where the denominators do not vanish and log arguments are positive"]


def single(nm):
    def fn(V):
        f, J = strain(V)
        V.cover("strain of positive determinant")
        w = h(nm, M2(f))
        want = [[tm.diff(w, f[2 * i + j]) for j in range(2)] for i in range(2)]
        V.returns("derivative", lambda: h("derivative_" + nm, M2(f)), lambda v: same(v, want))
        V.returns("shape", lambda: h("derivative_" + nm, M2(f)), lambda v: tm.eq(tm.const(len(data(v)) == 2 and all(len(r) == 2 for r in data(v))), tm.TRUE))
    return fn


def coupling(V):
    f, J = strain(V)
    th = V.real("theta")
    V.cover("strain and temperature")
    lam = h("austenite_percentage", th)
    tot, mart = h("total_elastic_potential", M2(f), th), h("martensite_potential", M2(f))
    # total = coupling + purely elastic (martensite) part
    want = [[tm.diff(tot, f[2 * i + j]) - tm.diff(mart, f[2 * i + j]) for j in range(2)] for i in range(2)]
    V.returns("coupling stress", lambda: h("strain_derivative_coupling_potential", M2(f), th), lambda v: same(v, want))
    wd = [[lam * (tm.diff(h("austenite_potential", M2(f)), x) - tm.diff(mart, x)) for x in f[k:k + 2]] for k in (0, 2)]
    V.returns("coupling stress by parts", lambda: h("strain_derivative_coupling_potential", M2(f), th), lambda v: same(v, wd))


def cases():
    return [Case("austenite stress", single("austenite_potential"), budget=60), Case("martensite stress", single("martensite_potential"), budget=60),
            Case("coupling stress", coupling, budget=60)]


def gen(rng, tier):
    for _ in range(60):
        yield {"F": rF(rng), "theta": rng.choice([0, rng.uniform(0, 2), rng.uniform(2, 9)])}


def run(case):
    m, f, th = H(), case["F"], case["theta"]
    e = 1e-5

    def num(w):
        out = []
        for i in range(4):
            g, k = list(f), list(f)
            g[i] += e
            k[i] -= e
            out.append((w(cM(g)) - w(cM(k))) / (2 * e))
        return out

    def cmp(nm, got, want):
        for i in range(4):
            if abs(got[i // 2, i % 2] - want[i]) > 1e-3 * (1 + max(abs(x) for x in want)):
                return f"{nm} at {f}, {th}: entry {i} is {got[i // 2, i % 2]}, numerical derivative {want[i]}"
    if f[0] * f[3] - f[1] * f[2] < 0.4:
        return None
    a, ma = num(m.austenite_potential), num(m.martensite_potential)
    lam = m.austenite_percentage(th)
    return (cmp("derivative_austenite_potential", m.derivative_austenite_potential(cM(f)), a)
            or cmp("derivative_martensite_potential", m.derivative_martensite_potential(cM(f)), ma)
            or cmp("strain_derivative_coupling_potential", m.strain_derivative_coupling_potential(cM(f), th), [lam * (x - y) for x, y in zip(a, ma)]))
