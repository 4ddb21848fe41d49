"""Validation and forwarding of the simulation parameters."""
import itertools
from .. import terms as tm, interp
from ..framework import Case
from ..lib import *

EXPLANATION = ("SimulationParams is constructed from symbolic values (regularisation and refinement factor given or not); every path that "
               "accepts is proved to imply the documented conditions and to keep the values, every path that rejects to imply their negation.")
ASSUMPTIONS = ["parameter values are numbers (or None where allowed)"]


def one(has_reg, has_rf, keyword):
    def fn(V):
        S = mod("simulation").SimulationParams
        t, r, f, s, g = V.real("temperature", "radius", "fps", "scale", "regularization")
        n = V.int("factor")
        V.cover("parameters")
        reg, rf = (g if has_reg else None), (n if has_rf else None)
        args = dict(initial_temperature=t, search_radius=r, fps=f, scale=s)
        if has_reg or keyword:
            args["regularization"] = reg
        if has_rf or keyword:
            args["refinement_factor"] = rf
        ok = tm.and_(tm.le(0, t), tm.lt(0, r), tm.lt(0, f), tm.lt(0, s), tm.le(0, g) if has_reg else tm.TRUE, tm.lt(0, n) if has_rf else tm.TRUE,
                     tm.const(has_rf or not has_reg))
        same = lambda v, w: (v is None) if w is None else (tm.eq(v, w) if v is not None else False)
        for p in V.explore(lambda: interp.construct(S, [], args)):
            with V.under(p):
                if p.kind == "ok":
                    V.oblige("accepted parameters are valid", ok)
                    o = p.value
                    for nm, w in (("initial_temperature", t), ("search_radius", r), ("fps", f), ("scale", s), ("regularization", reg),
                                  ("refinement_factor", rf if has_reg else None)):
                        V.oblige(f"{nm} kept", same(getattr_(o, nm), w))
                    m = call(getattr_(o, "mechanical_step_params"), [])
                    for nm, w in (("initial_temperature", t), ("search_radius", r), ("fps", f), ("regularization", reg)):
                        V.oblige(f"mechanical step gets {nm}", same(getattr_(m, nm), w))
                    m = call(getattr_(o, "thermal_step_params"), [])
                    for nm, w in (("search_radius", r), ("fps", f), ("regularization", reg)):
                        V.oblige(f"thermal step gets {nm}", same(getattr_(m, nm), w))
                else:
                    V.oblige("rejection is a ValueError", isinstance(p.value, ValueError))
                    V.oblige("rejected parameters are invalid", tm.not_(ok))
    return fn


def cases():
    return [Case(f"regularisation {'given' if a else 'absent'}, factor {'given' if b else 'absent'}{', explicit None' if k else ''}", one(a, b, k), budget=60)
            for a, b, k in itertools.product((False, True), (False, True), (False, True)) if not (k and a and b)]


def gen(rng, tier):
    v = lambda: rng.choice((-1.0, 0.0, 0.5, 1, 2.5, -0.01, 1e-9))
    for _ in range(400):
        p = [rng.choice((0.0, 1.0, 0.3)), 1.0, 2.0, 0.5, rng.choice((None, 0.0, 1.0)), rng.choice((None, 1, 2))]
        for _ in range(rng.choice((0, 1, 1, 2))):
            i = rng.randrange(6)
            p[i] = v() if i < 4 else (rng.choice((None, v())) if i == 4 else rng.choice((None, -1, 0, 1, 3)))
        yield {"p": p}


def run(case):
    t, r, f, s, g, n = case["p"]
    ok = t >= 0 and r > 0 and f > 0 and s > 0 and (g is None or g >= 0) and (n is None or n > 0) and (g is None or n is not None)
    try:
        o = mod("simulation").SimulationParams(t, r, f, s, g, n)
    except ValueError:
        return f"valid parameters {case['p']} rejected" if ok else None
    if not ok:
        return f"invalid parameters {case['p']} accepted"
    if (o.initial_temperature, o.search_radius, o.fps, o.scale, o.regularization, o.refinement_factor) != (t, r, f, s, g, n if g is not None else None):
        return f"parameters {case['p']} not kept"
    m, h = o.mechanical_step_params(), o.thermal_step_params()
    if (m.initial_temperature, m.search_radius, m.fps, m.regularization) != (t, r, f, g):
        return f"mechanical step parameters {m}"
    if (h.search_radius, h.fps, h.regularization) != (r, f, g):
        return f"thermal step parameters {h}"
    return None
