"""Shared inputs of the constitutive contracts (C16-C20)."""
import math
from .. import terms as tm, interp
from ..framework import Case
from ..lib import *

H = lambda: mod("helpers")


def h(name, *args):
    return call(getattr(H(), name), list(args))


def strain(V, tag="F", positive=True):
    """a generic 2x2 strain, with det > 0 (or merely invertible)"""
    a, b, c, d = V.real(*[f"{tag}{i}{j}" for i in "12" for j in "12"])
    J = a * d - b * c
    V.requires(tm.lt(0, J) if positive else tm.not_(tm.eq(J, 0)))
    V.known_nonzero(J)
    return (a, b, c, d), J


def M2(f):
    return Mat([[f[0], f[1]], [f[2], f[3]]])


def rotation(V):
    """cos, sin of an arbitrary angle: c^2 + s^2 = 1, used as a rewriting rule of the ring back end"""
    c, s = V.real("cos_", "sin_")
    V.requires(tm.eq(c * c + s * s, 1))
    V.c.prover.ring.rule(c, 2, 1 - s * s)
    return c, s


def rot(cs, f):
    c, s = cs
    a, b, x, y = f
    return (c * a - s * x, c * b - s * y, s * a + c * x, s * b + c * y)


def same(x, y):
    return tm.and_(*[tm.eq(u, v) for r, q in zip(data(x), y) for u, v in zip(r, q)])


# ---- concrete side
def rF(rng, positive=True):
    while True:
        f = [rng.uniform(-2, 2) for _ in range(4)]
        j = f[0] * f[3] - f[1] * f[2]
        if (j > 0.1) if positive else abs(j) > 0.1:
            return f


def cM(f):
    return mod("tensors").Matrix([[f[0], f[1]], [f[2], f[3]]])


def crot(t, f):
    c, s = math.cos(t), math.sin(t)
    return [c * f[0] - s * f[2], c * f[1] - s * f[3], s * f[0] + c * f[2], s * f[1] + c * f[3]]
