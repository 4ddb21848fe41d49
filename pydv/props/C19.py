"""Thermal constitutive functions."""
from .pot import *

EXPLANATION = ("The functions sympy.lambdify generates are executed on a symbolic temperature; derivatives are taken symbolically of the "
               "executed terms, so the relations (energy = coupling - theta * d/dtheta coupling, antiderivative, monotonicity) are proved for "
               "every temperature and strain.")
ASSUMPTIONS = ["exp x > 0 and exp x >= 1 + x, exp 0 = 1; a function with positive derivative increases (mean value theorem)",
               "formal differentiation of real terms agrees with differentiation"]


def fraction(V):
    th = V.real("theta")
    V.cover("temperature")
    lam = lambda t: h("austenite_percentage", t)
    with V.under(tm.le(0, th)):
        V.returns("at least zero", lambda: lam(th), lambda v: tm.le(0, v))
        V.returns("below one", lambda: lam(th), lambda v: tm.lt(v, 1))
        V.returns("increases", lambda: lam(th), lambda v: tm.lt(0, tm.diff(v, th)))
    V.returns("zero at zero", lambda: lam(tm.rconst(0)), lambda v: tm.eq(v, 0))


def energy(V):
    f, J = strain(V)
    th = V.real("theta")
    V.cover("strain and temperature")
    lam = h("austenite_percentage", th)
    wa, wm = h("austenite_potential", M2(f)), h("martensite_potential", M2(f))
    coupling = lam * (wa - wm)
    e = coupling - th * tm.diff(coupling, th)
    V.returns("weight", lambda: h("internal_energy_weight", th), lambda v: tm.eq(v, lam - th * tm.diff(lam, th)))
    V.returns("internal energy without entropy", lambda: h("internal_energy_no_entropy", M2(f), th), lambda v: tm.eq(v, e))
    V.returns("internal energy", lambda: h("internal_energy", M2(f), th), lambda v: tm.eq(v, e + tm.lift(H().ENTROPY_CONSTANT) * th))
    V.returns("coupling energy is the total minus the martensite energy", lambda: h("total_elastic_potential", M2(f), th),
              lambda v: tm.eq(v - wm, coupling))
    V.returns("weight antiderivative", lambda: h("antider_internal_energy_weight", th),
              lambda v: tm.eq(tm.diff(v, th), h("internal_energy_weight", th)))
    V.returns("energy antiderivative", lambda: h("temp_antrider_internal_energy_no_entropy", M2(f), th), lambda v: tm.eq(tm.diff(v, th), e))
    V.returns("energy antiderivative at zero", lambda: h("temp_antrider_internal_energy_no_entropy", M2(f), tm.rconst(0)), lambda v: tm.eq(v, 0))
    V.returns("positive entropy constant", lambda: tm.lift(H().ENTROPY_CONSTANT), lambda v: tm.lt(0, v))


def cases():
    return [Case("austenite fraction", fraction, budget=60), Case("internal energy", energy, budget=60)]


def gen(rng, tier):
    for _ in range(60):
        yield {"F": rF(rng), "theta": rng.choice([0.0, rng.uniform(0, 3), rng.uniform(3, 5)]), "d": rng.uniform(1e-3, 0.5)}


def run(case):
    m, f, th, d = H(), cM(case["F"]), case["theta"], case["d"]
    lam = m.austenite_percentage
    if not (0 <= lam(th) < 1) or lam(0.0) != 0 or not lam(th + d) > lam(th):
        return f"austenite_percentage at {th}"
    e = 1e-5
    df = lambda g, x: (g(x + e) - g(x - e)) / (2 * e)
    w = lam(th) - th * df(lam, th)
    if not close(m.internal_energy_weight(th), w, 1e-6):
        return f"internal_energy_weight({th}) = {m.internal_energy_weight(th)}, expected {w}"
    if not close(df(m.antider_internal_energy_weight, th), m.internal_energy_weight(th), 1e-6) or abs(m.antider_internal_energy_weight(0.0)) > 1e-12:
        return f"antider_internal_energy_weight at {th}"
    g = m.austenite_potential(f) - m.martensite_potential(f)
    if not close(m.internal_energy_no_entropy(f, th), w * g, 1e-6, 1 + abs(g)):
        return "internal_energy_no_entropy"
    if not close(m.internal_energy(f, th), w * g + m.ENTROPY_CONSTANT * th, 1e-6, 1 + abs(g)):
        return "internal_energy"
    if not close(m.temp_antrider_internal_energy_no_entropy(f, th), m.antider_internal_energy_weight(th) * g, 1e-7, 1 + abs(g)):
        return "temp_antrider_internal_energy_no_entropy"
    return None
