"""Domain curves."""
from .. import terms as tm, interp, containers as C
from ..framework import Case
from ..lib import *

EXPLANATION = ("RectangleDomain.curves is executed with symbolic width, height and counts; lengths and the point at an arbitrary index of an "
               "arbitrary curve are proved equal to the uniform family.")
ASSUMPTIONS = ["at least two points per curve (with fewer the spacing is undefined and the code divides by zero)"]


def fn(default):
    def go(V):
        w, hh = V.real("width", "height")
        P, nh, nv = V.int("points", "horizontal", "vertical")
        V.requires(tm.le(2, P), tm.le(0, nh), tm.le(0, nv))
        V.cover("counts")
        if default:
            nv = nh
        D = lambda: interp.construct(mod("domain").RectangleDomain, [w, hh], {})
        cur = lambda: call(getattr_(D(), "curves"), [P, nh] + ([] if default else [nv]))
        ln = lambda v: interp.call(len, [v])
        V.returns("number of curves", cur, lambda v: tm.eq(ln(v), nh + nv + 4))
        i, j = V.int("i", "j")
        with V.under(tm.and_(tm.le(0, i), tm.lt(i, P), tm.le(0, j), tm.lt(j, nh + 2))):
            def ens(p):
                n, q = p
                V.oblige("horizontal curve: number of points", tm.eq(n, P))
                V.oblige("horizontal curve: abscissa", tm.eq(entry(q, 0) * (P - 1), tm.toreal(i) * w))
                V.oblige("horizontal curve: ordinate", tm.eq(entry(q, 1) * (nh + 1), tm.toreal(j) * hh))

            def th():
                c = interp.subscript(cur(), j)
                return ln(c), interp.subscript(c, i)
            V.returns("horizontal curve", th, ens)
        with V.under(tm.and_(tm.le(0, i), tm.lt(i, P), tm.le(0, j), tm.lt(j, nv + 2))):
            def ens(p):
                n, q = p
                V.oblige("vertical curve: number of points", tm.eq(n, P))
                V.oblige("vertical curve: ordinate", tm.eq(entry(q, 1) * (P - 1), tm.toreal(i) * hh))
                V.oblige("vertical curve: abscissa", tm.eq(entry(q, 0) * (nv + 1), tm.toreal(j) * w))

            def th():
                c = interp.subscript(cur(), j + nh + 2)
                return ln(c), interp.subscript(c, i)
            V.returns("vertical curve", th, ens)
    return go


def cases():
    return [Case("both counts", fn(False), budget=60), Case("one count for both families", fn(True), budget=60)]


def gen(rng, tier):
    for _ in range(40):
        yield {"w": rng.uniform(0.1, 5) * zoom(rng), "h": rng.uniform(0.1, 5) * zoom(rng), "p": rng.randint(2, 9), "nh": rng.randint(0, 6), "nv": rng.choice((None, 0, 1, 2, 5))}


def run(case):
    w, h, P, nh, nv = (case[k] for k in ("w", "h", "p", "nh", "nv"))
    d = mod("domain").RectangleDomain(w, h)
    cs = d.curves(P, nh) if nv is None else d.curves(P, nh, nv)
    nv = nh if nv is None else nv
    want = [[(i * w / (P - 1), j * h / (nh + 1)) for i in range(P)] for j in range(nh + 2)]
    want += [[(j * w / (nv + 1), i * h / (P - 1)) for i in range(P)] for j in range(nv + 2)]
    if len(cs) != len(want):
        return f"{len(cs)} curves instead of {len(want)}"
    for a, b in zip(cs, want):
        if len(a) != len(b) or any(not close(p[0] / w, q[0] / w, 1e-9) or not close(p[1] / h, q[1] / h, 1e-9) for p, q in zip(a, b)):
            return f"curve {a} instead of {b}"
    return None
