"""Shape and index checks of the tensor classes."""
from .tens import *

EXPLANATION = ("Indexing is executed at arbitrary integer indices of tensors of arbitrary shape: inside the shape the stored entry is "
               "returned, outside IndexError is raised.  Constructors and operators are executed on operands of arbitrary different shapes.")
ASSUMPTIONS = []


def inside(idx, shape):
    return tm.and_(*[tm.and_(tm.le(0, i), tm.lt(i, n)) for i, n in zip(idx, shape)])


def indexing(V):
    n, m, k = dims(V, "n", "m", "k")
    i, j, l = V.int("i", "j", "l")
    V.cover("indices")
    l1, l2 = V.real("l1", "l2")
    bar = [l1, l2, 1 - l1 - l2]
    for nm, x, idx, shape, val in (
            ("vector", lambda: vec("a", n), (i,), (n,), A("a", i)),
            ("matrix", lambda: mat("a", n, m), (i, j), (n, m), A("a", i, j)),
            ("3-d tensor", lambda: ten("a", n, m, k), (i, j, l), (n, m, k), A("a", i, j, l)),
            ("barycentric point", lambda: bary(l1, l2), (i,), (3,), tm.ite(tm.eq(i, 0), bar[0], tm.ite(tm.eq(i, 1), bar[1], bar[2])))):
        with V.under(inside(idx, shape)):
            V.returns(f"{nm} entry inside the shape", lambda: entry(x(), *idx), lambda v: tm.eq(v, val))
        for d, (ix, s) in enumerate(zip(idx, shape)):
            with V.under(tm.lt(ix, 0)):
                V.raises(f"{nm} axis {d} below zero", lambda: entry(x(), *idx), IndexError)
            with V.under(tm.le(s, ix)):
                V.raises(f"{nm} axis {d} too large", lambda: entry(x(), *idx), IndexError)


def different(V, a, b):
    return tm.not_(tm.and_(*[tm.eq(x, y) for x, y in zip(a, b)]))


def shapes(V):
    n, m, k, n2, m2, k2 = dims(V, "n", "m", "k", "n2", "m2", "k2")
    V.cover("shapes")
    v, w = lambda: vec("a", n), lambda: vec("b", n2)
    a, b = lambda: mat("a", n, m), lambda: mat("b", n2, m2)
    s, t = lambda: ten("a", n, m, k), lambda: ten("b", n2, m2, k2)
    with V.under(tm.not_(tm.eq(n, n2))):
        V.raises("sum of vectors of different sizes", lambda: interp.binop("add", v(), w()), ValueError)
        V.raises("difference of vectors of different sizes", lambda: interp.binop("sub", v(), w()), ValueError)
        V.raises("stack of vectors of different sizes", lambda: call(getattr_(v(), "stack"), [w()]), ValueError)
    with V.under(different(V, (n, m), (n2, m2))):
        for op in ("add", "sub"):
            V.raises(f"{op} of matrices of different shapes", lambda: interp.binop(op, a(), b()), ValueError)
        V.raises("scalar product of matrices of different shapes", lambda: call(getattr_(a(), "scalar_product"), [b()]), ValueError)
        V.raises("stack of matrices of different shapes", lambda: call(getattr_(a(), "stack"), [b()]), ValueError)
    with V.under(tm.not_(tm.eq(m, n2))):
        V.raises("product of incompatible matrices", lambda: interp.binop("matmul", a(), b()), ValueError)
        V.raises("product of a matrix with an incompatible vector", lambda: call(getattr_(a(), "dot"), [w()]), ValueError)
    with V.under(different(V, (n, m, k), (n2, m2, k2))):
        for op in ("add", "sub"):
            V.raises(f"{op} of tensors of different shapes", lambda: interp.binop(op, s(), t()), ValueError)
    with V.under(tm.not_(tm.eq(n * m, n2))):
        V.raises("reshape to the wrong size", lambda: call(getattr_(w(), "reshape"), [n, m]), ValueError)
    with V.under(tm.not_(tm.eq(n, m))):
        V.raises("determinant of a nonsquare matrix", lambda: call(getattr_(a(), "det"), []), ValueError)
    with V.under(different(V, (n, m), (2, 2))):
        V.raises("inverse of a matrix that is not 2x2", lambda: call(TT().inverse_2x2, [a()]), ValueError)


def ragged(V):
    n, w, w2 = V.int("n", "w", "w2")
    i, j, l = (tm.var(x, tm.I) for x in ("%i", "%j", "%l"))
    ln = lambda *ix: tm.app("len", list(ix), tm.I)
    rows = PList([For(i, n, [Item(PList([For(j, ln(i), [Item(A("a", i, j))])]))])])
    V.requires(tm.le(1, n), tm.forall((i,), tm.le(0, ln(i))), tm.le(0, w), tm.lt(w, n), tm.not_(tm.eq(ln(w), ln(tm.const(0)))))
    V.cover("ragged rows")
    V.raises("matrix of ragged rows", lambda: call(TT().Matrix, [rows]), ValueError)


def ragged3(V):
    n, m, w, w2 = V.int("n", "m", "w", "w2")
    i, j, l = (tm.var(x, tm.I) for x in ("%i", "%j", "%l"))
    ln = lambda *ix: tm.app("len", list(ix), tm.I)
    V.requires(tm.le(1, n), tm.forall((i,), tm.le(1, ln(i))), tm.forall((i, j), tm.le(0, tm.app("len2", [i, j], tm.I))), tm.le(0, w), tm.lt(w, n))
    t = PList([For(i, n, [Item(PList([For(j, ln(i), [Item(PList([For(l, tm.app("len2", [i, j], tm.I), [Item(A("a", i, j, l))])]))])]))])])
    V.cover("ragged tensor")
    with V.under(tm.not_(tm.eq(ln(w), ln(tm.const(0))))):
        V.raises("3-d tensor with ragged matrices", lambda: call(TT().Tensor3D, [t]), ValueError)
    with V.under(tm.and_(tm.le(0, w2), tm.lt(w2, ln(w)), tm.not_(tm.eq(tm.app("len2", [w, w2], tm.I), tm.app("len2", [tm.const(0), tm.const(0)], tm.I))))):
        V.raises("3-d tensor with ragged rows", lambda: call(TT().Tensor3D, [t]), ValueError)


def cases():
    return [Case("indexing", indexing, budget=60), Case("shapes", shapes, budget=60), Case("ragged rows", ragged, budget=60),
            Case("ragged tensors", ragged3, budget=60)]


def gen(rng, tier):
    for _ in range(30):
        sh = [rng.randint(1, 4) for _ in range(3)]
        yield {"sh": sh, "idx": [rng.randint(-5, 6) for _ in range(3)], "sh2": [rng.choice([s, rng.randint(1, 4)]) for s in sh],
               "rag": [rng.randint(0, 3), rng.randint(0, 3), rng.randint(1, 2)]}


def run(case):
    T_ = mod("tensors")
    n, m, k = case["sh"]
    i, j, l = case["idx"]
    f = lambda *ix: 100 * ix[0] + 10 * (ix[1] if len(ix) > 1 else 0) + (ix[2] if len(ix) > 2 else 0)
    mk1 = lambda n: [f(a) for a in range(n)]
    mk2 = lambda n, m: [[f(a, b) for b in range(m)] for a in range(n)]
    mk3 = lambda n, m, k: [[[f(a, b, c) for c in range(k)] for b in range(m)] for a in range(n)]
    v, M, X = T_.Vector(mk1(n)), T_.Matrix(mk2(n, m)), T_.Tensor3D(mk3(n, m, k))

    def raises(g, e):
        try:
            g()
        except e:
            return True
        return False
    for nm, x, ix, sh in (("vector", v, (i,), (n,)), ("matrix", M, (i, j), (n, m)), ("tensor", X, (i, j, l), (n, m, k)),
                          ("barycentric", T_.BarycentricCoordinates(1, 2), (i,), (3,))):
        ok = all(0 <= a < b for a, b in zip(ix, sh))
        key = ix[0] if len(ix) == 1 else ix
        if ok:
            w = f(*ix) if nm != "barycentric" else [1, 2, -2][i]
            if x[key] != w:
                return f"{nm}[{key}] is {x[key]} instead of {w}"
        elif not raises(lambda: x[key], IndexError):
            return f"{nm} of shape {sh} accepts index {key}"
    n2, m2, k2 = case["sh2"]
    v2, M2, X2 = T_.Vector(mk1(n2)), T_.Matrix(mk2(n2, m2)), T_.Tensor3D(mk3(n2, m2, k2))
    exp = [("v+", lambda: v + v2, n == n2), ("v-", lambda: v - v2, n == n2), ("vstack", lambda: v.stack(v2), n == n2),
           ("m+", lambda: M + M2, (n, m) == (n2, m2)), ("m-", lambda: M - M2, (n, m) == (n2, m2)),
           ("sp", lambda: M.scalar_product(M2), (n, m) == (n2, m2)), ("mstack", lambda: M.stack(M2), (n, m) == (n2, m2)),
           ("@", lambda: M @ M2, m == n2), ("mdot", lambda: M.dot(v2), m == n2), ("t+", lambda: X + X2, case["sh"] == case["sh2"]),
           ("t-", lambda: X - X2, case["sh"] == case["sh2"]), ("reshape", lambda: v2.reshape(n, m), n2 == n * m), ("det", lambda: M.det(), n == m)]
    if (n, m) != (2, 2):
        exp.append(("inverse", lambda: T_.inverse_2x2(M), False))
    for nm, g, ok in exp:
        if raises(g, ValueError) == ok:
            return f"{nm}: shapes {case['sh']} and {case['sh2']} " + ("rejected" if ok else "accepted")
    r0, r1, d = case["rag"]
    rows = mk2(n, m)
    rows[r0 % n] = rows[r0 % n] + [7] * d
    if raises(lambda: T_.Matrix(rows), ValueError) == (n == 1):
        return f"ragged rows {rows}"
    t3 = mk3(n, m, k)
    t3[r0 % n][r1 % m] = t3[r0 % n][r1 % m] + [7] * d
    if raises(lambda: T_.Tensor3D(t3), ValueError) == (n * m == 1):
        return f"ragged tensor rows {t3}"
    t3 = mk3(n, m, k)
    t3[r0 % n] = t3[r0 % n] + [[7] * k] * d
    if raises(lambda: T_.Tensor3D(t3), ValueError) == (n == 1):
        return f"ragged tensor matrices {t3}"
    return None
