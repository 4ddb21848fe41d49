"""Quadrature rules."""
from math import factorial
from fractions import Fraction
import random
from .. import terms as tm, interp, containers as C
from ..framework import Case
from ..lib import *

EXPLANATION = ("The rule tables of the current source are read through the rules' own iteration; every barycentric monomial up to the rule's "
               "degree is an exact rational inequality (error at most 5e-14, the rounding of tables with 15 digits), which by linearity covers "
               "all polynomials.  The rule constructor is executed on tables of arbitrary length and the Gauss rule for an arbitrary number "
               "of points on top of numpy's leggauss; the numerical values of leggauss are checked for 1 to 12 points (bounded).")
ASSUMPTIONS = ["numpy.polynomial.legendre.leggauss(n) is exact to degree 2n-1 on [-1,1] for n > 12"]
TOL = Fraction(5, 10**14)
DEG = {"CENTROID": 1, "VERTEX": 1, "DUNAVANT2": 2, "DUNAVANT3": 3, "DUNAVANT4": 4, "DUNAVANT5": 5}
Q = lambda: mod("quadrature_rules")


def nodes_of_rule(rule):
    return [(unwrap(w), [unwrap(x) for x in (getattr_(p, "l1"), getattr_(p, "l2"), getattr_(p, "l3"))])
            for w, p in interp.iter_values(call(getattr_(rule, "__iter__"), []))]


def unwrap(x):
    return tm.lift(x)


def table(name):
    def fn(V):
        rule = getattr(Q(), name)
        d = DEG[name]

        def ens(ns):
            V.oblige("at least one point", len(ns) > 0)
            V.oblige("weights sum to one", tm.le(tm.absval(tm.sub(sum((w for w, _ in ns), tm.rconst(0)), 1)), tm.lift(TOL)))
            for n, (w, l) in enumerate(ns):
                V.oblige(f"point {n} lies in the triangle", tm.and_(*[tm.le(0, x) for x in l]))
                V.oblige(f"point {n}: barycentric coordinates sum to one", tm.le(tm.absval(l[0] + l[1] + l[2] - 1), tm.lift(TOL)))
            for a in range(d + 1):
                for b in range(d + 1 - a):
                    # mean over a triangle of l1^a l2^b
                    ex = Fraction(2 * factorial(a) * factorial(b), factorial(a + b + 2))
                    q = sum((w * pw(l[0], a) * pw(l[1], b) for w, l in ns), tm.rconst(0))
                    V.oblige(f"l1^{a} l2^{b} is integrated exactly", tm.le(tm.absval(q - tm.lift(ex)), tm.lift(TOL)))
        V.returns("iteration over the rule", lambda: nodes_of_rule(rule), ens)
    return fn


def pw(x, n):
    return tm.rconst(1) if n == 0 else tm.power(x, n)


def family(V):
    """the published list contains rules of degree 1, 2, ... in order"""
    rules = Q().DUNAVANT_QUADRATURE_RULES
    for i, r in enumerate(rules):
        ns = nodes_of_rule(r)
        for a in range(i + 2):
            for b in range(i + 2 - a):
                ex = Fraction(2 * factorial(a) * factorial(b), factorial(a + b + 2))
                q = sum((w * pw(l[0], a) * pw(l[1], b) for w, l in ns), tm.rconst(0))
                V.oblige(f"rule {i} of the list integrates l1^{a} l2^{b}", tm.le(tm.absval(q - tm.lift(ex)), tm.lift(TOL)))


def constructor(V):
    n, m = V.int("n", "m")
    i = tm.var("%i", tm.I)
    V.requires(tm.le(0, n), tm.le(0, m))
    w = symlist("w", n)
    pts = PList([For(i, m, [Item((tm.app("px", [i]), tm.app("py", [i])))])])
    total = tm.ssum(i, n, tm.app("w", [i]))
    inside = lambda k: tm.and_(tm.le(0, tm.app("px", [k])), tm.le(0, tm.app("py", [k])), tm.le(tm.app("px", [k]) + tm.app("py", [k]), 1))
    V.cover("rule data")
    make = lambda: call(Q().TriangleQuadratureRule, [w, pts])
    j = V.int("j")
    with V.under(tm.and_(tm.le(0, j), tm.lt(j, m), tm.not_(inside(j)))):
        V.raises("a point outside the triangle is rejected", make, ValueError)
    with V.under(tm.lt(tm.lift(Fraction(1, 10**8)), tm.absval(total - 1))):
        V.raises("weights that do not sum to one are rejected", make, ValueError)
    with V.under(tm.and_(tm.eq(total, 1), tm.forall((i,), tm.implies(tm.and_(tm.le(0, i), tm.lt(i, m)), inside(i))))):
        def ens(r):
            ws, ps = getattr_(r, "weights"), getattr_(r, "points")
            V.oblige("accepted rule keeps its weights", tm.and_(tm.eq(interp.call(len, [ws]), n)))
            V.oblige("accepted rule keeps its points", tm.eq(interp.call(len, [ps]), m))
            with V.under(tm.and_(tm.le(0, j), tm.lt(j, n), tm.lt(j, m))):
                V.oblige("weight j", tm.eq(entry(ws, j), tm.app("w", [j])))
                p = entry(ps, j)
                V.oblige("point j", tm.and_(tm.eq(getattr_(p, "l1"), tm.app("px", [j])), tm.eq(getattr_(p, "l2"), tm.app("py", [j])),
                                            tm.eq(getattr_(p, "l3"), 1 - tm.app("px", [j]) - tm.app("py", [j]))))
        V.returns("valid rule", make, ens)


def gauss(V):
    """the rule on [0, 1] is the affine image of numpy's rule on [-1, 1]"""
    n, j = V.int("n", "j")
    V.requires(tm.le(1, n), tm.le(0, j), tm.lt(j, n))
    V.cover("number of points")

    def ens(r):
        ws, ps = getattr_(r, "weights"), getattr_(r, "points")
        V.oblige("number of weights", tm.eq(interp.call(len, [ws]), n))
        V.oblige("number of points", tm.eq(interp.call(len, [ps]), n))
        V.oblige("weight j", tm.eq(entry(ws, j), tm.app("gl_w", [n, j]) / 2))
        V.oblige("point j", tm.eq(entry(ps, j), (1 + tm.app("gl_x", [n, j])) / 2))
    V.returns("Gauss rule", lambda: call(Q().GaussQuadratureRule, [n]), ens)


def gauss_values(lo, hi):
    def fn(V):
        for n in range(lo, hi):
            r = Q().GaussQuadratureRule(n)   # the real object
            ns = [(tm.lift(float(w)), tm.lift(float(x))) for w, x in r]
            V.oblige(f"{n} points", len(ns) == n)
            for w, x in ns:
                V.oblige(f"{n}-point rule: point in [0,1]", tm.and_(tm.le(0, x), tm.le(x, 1)))
            for k in range(2 * n):
                q = sum((w * pw(x, k) for w, x in ns), tm.rconst(0))
                V.oblige(f"{n}-point rule integrates t^{k}", tm.le(tm.absval(q - tm.lift(Fraction(1, k + 1))), tm.lift(TOL * 10)))
    return fn


def cases():
    return [Case(n, table(n), budget=60) for n in DEG] + \
        [Case("list of rules", family, budget=60), Case("rule constructor", constructor, budget=90), Case("Gauss rule", gauss, budget=60),
         Case("Gauss values 1-6", gauss_values(1, 7), kind="bounded", bound="1 to 6 points", budget=60),
         Case("Gauss values 7-12", gauss_values(7, 13), kind="bounded", bound="7 to 12 points", budget=60)]


def gen(rng, tier):
    for _ in range(25):
        n = rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.randint(10, 40)])
        w = [rng.randint(1, 9) for _ in range(rng.randint(1, 4))]
        s = sum(w)
        c = rng.choice([0, 0, .25, -.5, 1e-3])
        yield {"coef": [[rng.randint(-5, 5) for _ in range(6)] for _ in range(6)], "n": n, "gc": [rng.randint(-5, 5) for _ in range(2 * n)],
               "w": [x / s + (c if i == 0 else 0) for i, x in enumerate(w)], "bad": c != 0,
               "pts": [[rng.choice([-.1, 0, .2, .5, .9]), rng.choice([-.1, 0, .2, .5, .6])] for _ in range(rng.randint(1, 3))]}


def run(case):
    Q_ = Q()
    rules = [(getattr(Q_, n), d, n) for n, d in DEG.items()] + [(r, i + 1, f"list entry {i}") for i, r in enumerate(Q_.DUNAVANT_QUADRATURE_RULES)]
    for r, d, n in rules:
        ex = q = 0
        for a in range(d + 1):
            for b in range(d + 1 - a):
                c = case["coef"][a][b]
                ex += c * 2 * factorial(a) * factorial(b) / factorial(a + b + 2)
                q += sum(w * c * p.l1 ** a * p.l2 ** b for w, p in r)
        if not close(q, ex, 1e-11, 10):
            return f"{n} integrates a polynomial of degree {d} to {q} instead of {ex}"
    g = Q_.GaussQuadratureRule(case["n"])
    q = sum(w * sum(c * x ** k for k, c in enumerate(case["gc"])) for w, x in g)
    ex = sum(c / (k + 1) for k, c in enumerate(case["gc"]))
    if not close(q, ex, 1e-11, 10):
        return f"{case['n']}-point Gauss rule gives {q} instead of {ex}"
    ok = not case["bad"] and all(x >= 0 and y >= 0 and x + y <= 1 for x, y in case["pts"])
    try:
        r = Q_.TriangleQuadratureRule(case["w"], [tuple(p) for p in case["pts"]])
    except ValueError:
        return f"valid rule rejected: {case['w']} {case['pts']}" if ok else None
    if not ok:
        return f"invalid rule accepted: {case['w']} {case['pts']}"
    got = [(w, p.l1, p.l2) for w, p in r]
    want = [(w, *p) for w, p in zip(case["w"], case["pts"])]
    return None if got == want else f"rule yields {got}"
