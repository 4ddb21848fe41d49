"""Shared contracts of the tensor classes (C06, C07)."""
import random
from .. import terms as tm, interp, containers as C
from ..framework import Case
from ..lib import *

TT = lambda: mod("tensors")


def vec(name, n):
    return call(TT().Vector, [symlist(name, n)])


def mat(name, n, m):
    return call(TT().Matrix, [symlist(name, n, m)])


def ten(name, n, m, k):
    return call(TT().Tensor3D, [symlist(name, n, m, k)])


def A(name, *idx):
    return tm.app(name, [tm.lift(i) for i in idx])


def sum_(n, f):
    k = tm.var("%s", tm.I)
    return tm.ssum(k, n, f(k))


def dims(V, *names):
    r = V.int(*names)
    r = r if isinstance(r, list) else [r]
    for d in r:
        V.requires(tm.le(1, d))
    return r if len(r) > 1 else r[0]


def is_tensor(V, label, t, cls, shape, f):
    """t is an instance of cls with this shape, whose entry at every index in range is f(index)"""
    V.oblige(f"{label}: type", isinstance(t, getattr(TT(), cls)))
    if not isinstance(t, getattr(TT(), cls)):
        return
    sh = getattr_(t, "shape")
    V.oblige(f"{label}: shape", tm.and_(tm.const(len(sh) == len(shape)), *[tm.eq(a, b) for a, b in zip(sh, shape)]))
    names = ["i_", "j_", "k_"][:len(shape)]
    idx = [tm.var(f"{label}.{n}", tm.I) for n in names]
    with V.under(tm.and_(*[tm.and_(tm.le(0, i), tm.lt(i, d)) for i, d in zip(idx, shape)])):
        V.returns(f"{label}: entry", lambda: entry(t, *idx), lambda v: tm.eq(v, f(*idx)))


def unary(V, label, make, op, cls, shape, f, src=None):
    """op(x) has the stated entries and leaves x as it was"""
    def th():
        x = make()
        return x, op(x)

    def ens(p):
        x, r = p
        is_tensor(V, label, r, cls, shape, f)
        if src is not None:
            is_tensor(V, f"{label} (operand unchanged)", x, *src)
    V.returns(label, th, ens)


def binary(V, label, make, op, cls, shape, f, srcs=()):
    def th():
        xs = make()
        return xs, op(*xs)

    def ens(p):
        xs, r = p
        if cls is None:
            V.oblige(label, tm.eq(r, f))
        else:
            is_tensor(V, label, r, cls, shape, f)
        for n, (x, s) in enumerate(zip(xs, srcs)):
            is_tensor(V, f"{label} (operand {n + 1} unchanged)", x, *s)
    V.returns(label, th, ens)
