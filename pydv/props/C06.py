"""Tensor algebra."""
import ast
from .tens import *

EXPLANATION = ("Every operation of Vector, Matrix and Tensor3D is executed on operands of symbolic shape with arbitrary entries; the entry "
               "of the result at an arbitrary index is proved equal to the textbook expression.  The determinant is proved for sizes 1 to 4 "
               "against the Laplace expansion, and for every size from 5 on to be the Leibniz sum over itertools.permutations with `sign` by "
               "its contract; `sign` is proved to be the parity of the number of inversions for sequences of any length (and once more for "
               "all sequences of four, bounded, which stands in if inversions are counted in a way the verifier does not recognise).")
ASSUMPTIONS = ["scalars are elements of the field of real numbers", "itertools.permutations(range(n)) yields each permutation of 0..n-1 once (n >= 5)"]


def vectors(V):
    n = dims(V, "n")
    s, i = V.real("s"), None
    V.cover("vectors")
    a, b = lambda: vec("a", n), lambda: vec("b", n)
    av, bv = ("Vector", (n,), lambda i: A("a", i)), ("Vector", (n,), lambda i: A("b", i))
    ab = lambda: (a(), b())
    V.returns("size", a, lambda v: tm.and_(tm.eq(getattr_(v, "size"), n), tm.eq(interp.call(len, [v]), n)))
    is_tensor(V, "constructor", a(), *av)
    unary(V, "negation", a, lambda v: interp.call(lookup(v, "__neg__"), [v]), "Vector", (n,), lambda i: -A("a", i), av)
    for nm, op, f in (("sum", "add", lambda i: A("a", i) + A("b", i)), ("difference", "sub", lambda i: A("a", i) - A("b", i))):
        binary(V, nm, ab, lambda x, y: interp.binop(op, x, y), "Vector", (n,), f, (av, bv))
    unary(V, "scaling from the right", a, lambda v: interp.binop("mul", v, s), "Vector", (n,), lambda i: A("a", i) * s, av)
    unary(V, "scaling from the left", a, lambda v: interp.binop("mul", s, v), "Vector", (n,), lambda i: A("a", i) * s, av)
    binary(V, "scalar product", ab, lambda x, y: call(getattr_(x, "dot"), [y]), None, None, sum_(n, lambda k: A("a", k) * A("b", k)), (av, bv))
    V.returns("squared norm", lambda: call(getattr_(a(), "normsqr"), []), lambda v: tm.eq(v, sum_(n, lambda k: A("a", k) * A("a", k))))
    unary(V, "map", a, lambda v: call(getattr_(v, "map"), [interp.Opaque(lambda x: tm.app("f", [tm.lift(x)]))]), "Vector", (n,),
          lambda i: tm.app("f", [A("a", i)]), av)
    binary(V, "stack", ab, lambda x, y: call(getattr_(x, "stack"), [y]), "Matrix", (2, n),
           lambda i, j: tm.ite(tm.eq(i, 0), A("a", j), A("b", j)), (av, bv))
    unary(V, "transpose", a, lambda v: call(getattr_(v, "transpose"), []), "Matrix", (1, n), lambda i, j: A("a", j), av)
    m = dims(V, "m")
    binary(V, "extend", lambda: (a(), vec("b", m)), lambda x, y: call(getattr_(x, "extend"), [y]), "Vector", (n + m,),
           lambda i: tm.ite(tm.lt(i, n), A("a", i), A("b", i - n)), (av, ("Vector", (m,), lambda i: A("b", i))))
    with V.under(tm.not_(tm.eq(s, 0))):
        unary(V, "division", a, lambda v: interp.binop("truediv", v, s), "Vector", (n,), lambda i: A("a", i) / s, av)


def lookup(v, name):
    return interp.lookup_type(type(v), name)


def norms(V):
    n, m, k = dims(V, "n", "m", "k")
    V.cover("norms")
    for nm, x, q in (("vector", lambda: vec("a", n), sum_(n, lambda i: A("a", i) * A("a", i))),
                     ("matrix", lambda: mat("a", n, m), sum_(n, lambda i: ss(m, lambda j: A("a", i, j) * A("a", i, j)))),
                     ("tensor", lambda: ten("a", n, m, k), sum_(n, lambda i: ss(m, lambda j: ss3(k, lambda l: A("a", i, j, l) * A("a", i, j, l)))))):
        V.returns(f"{nm} squared norm", lambda: call(getattr_(x(), "normsqr"), []), lambda v: tm.eq(v, q))
        V.returns(f"{nm} norm", lambda: call(getattr_(x(), "norm"), []), lambda v: tm.and_(tm.eq(v * v, q), tm.le(0, v)))


def ss(n, f):
    k = tm.var("%s2", tm.I)
    return tm.ssum(k, n, f(k))


def ss3(n, f):
    k = tm.var("%s3", tm.I)
    return tm.ssum(k, n, f(k))


def matrices(V):
    n, m = dims(V, "n", "m")
    s = V.real("s")
    V.cover("matrices")
    a, b = lambda: mat("a", n, m), lambda: mat("b", n, m)
    av, bv = ("Matrix", (n, m), lambda i, j: A("a", i, j)), ("Matrix", (n, m), lambda i, j: A("b", i, j))
    ab = lambda: (a(), b())
    V.returns("constructor", a, lambda x: is_tensor(V, "constructor", x, *av))
    unary(V, "negation", a, lambda v: interp.call(lookup(v, "__neg__"), [v]), "Matrix", (n, m), lambda i, j: -A("a", i, j), av)
    for nm, op, f in (("sum", "add", lambda i, j: A("a", i, j) + A("b", i, j)), ("difference", "sub", lambda i, j: A("a", i, j) - A("b", i, j))):
        binary(V, nm, ab, lambda x, y: interp.binop(op, x, y), "Matrix", (n, m), f, (av, bv))
    unary(V, "scaling from the right", a, lambda v: interp.binop("mul", v, s), "Matrix", (n, m), lambda i, j: A("a", i, j) * s, av)
    unary(V, "scaling from the left", a, lambda v: interp.binop("mul", s, v), "Matrix", (n, m), lambda i, j: A("a", i, j) * s, av)
    unary(V, "transpose", a, lambda v: call(getattr_(v, "transpose"), []), "Matrix", (m, n), lambda i, j: A("a", j, i), av)
    unary(V, "map", a, lambda v: call(getattr_(v, "map"), [interp.Opaque(lambda x: tm.app("f", [tm.lift(x)]))]), "Matrix", (n, m),
          lambda i, j: tm.app("f", [A("a", i, j)]), av)
    with V.under(tm.not_(tm.eq(s, 0))):
        unary(V, "division", a, lambda v: interp.binop("truediv", v, s), "Matrix", (n, m), lambda i, j: A("a", i, j) / s, av)


def products(V):
    n, m, k = dims(V, "n", "m", "k")
    V.cover("products")
    a, b = lambda: mat("a", n, m), lambda: mat("b", n, m)
    av, bv = ("Matrix", (n, m), lambda i, j: A("a", i, j)), ("Matrix", (n, m), lambda i, j: A("b", i, j))
    binary(V, "matrix product", lambda: (a(), mat("c", m, k)), lambda x, y: interp.binop("matmul", x, y), "Matrix", (n, k),
           lambda i, j: sum_(m, lambda l: A("a", i, l) * A("c", l, j)), (av, ("Matrix", (m, k), lambda i, j: A("c", i, j))))
    binary(V, "matrix-vector product", lambda: (a(), vec("v", m)), lambda x, y: call(getattr_(x, "dot"), [y]), "Vector", (n,),
           lambda i: sum_(m, lambda l: A("a", i, l) * A("v", l)), (av, ("Vector", (m,), lambda i: A("v", i))))
    binary(V, "Frobenius product", lambda: (a(), b()), lambda x, y: call(getattr_(x, "scalar_product"), [y]), None, None,
           sum_(n, lambda i: ss(m, lambda j: A("a", i, j) * A("b", i, j))), (av, bv))
    V.returns("trace", lambda: call(getattr_(a(), "trace"), []),
              lambda v: tm.eq(v, sum_(tm.tmin(n, m), lambda i: A("a", i, i))))


def layout(V):
    n, m = dims(V, "n", "m")
    V.cover("layout")
    i, j = V.int("i", "j")
    V.returns("flatten", lambda: call(getattr_(mat("a", n, m), "flatten"), []), lambda v: flat(V, v, n, m))
    V.returns("reshape", lambda: call(getattr_(vec("a", n * m), "reshape"), [n, m]),
              lambda v: is_tensor(V, "reshape", v, "Matrix", (n, m), lambda i, j: A("a", i * m + j)))
    V.returns("stack of matrices", lambda: call(getattr_(mat("a", n, m), "stack"), [mat("b", n, m)]),
              lambda v: is_tensor(V, "stack of matrices", v, "Tensor3D", (2, n, m),
                                  lambda h, i, j: tm.ite(tm.eq(h, 0), A("a", i, j), A("b", i, j))))


def flat(V, v, n, m):
    V.oblige("flatten: size", tm.eq(getattr_(v, "size"), n * m))
    i, j = tm.var("fi", tm.I), tm.var("fj", tm.I)
    with V.under(tm.and_(tm.le(0, i), tm.lt(i, n), tm.le(0, j), tm.lt(j, m))):
        V.oblige("lemma: row-major position is in range", tm.and_(tm.le(0, i * m + j), tm.lt(i * m + j, n * m)))
        V.requires(tm.le(0, i * m + j), tm.lt(i * m + j, n * m))
        V.returns("flatten: entry", lambda: entry(v, i * m + j), lambda x: tm.eq(x, A("a", i, j)))


def tensors(V):
    n, m, k = dims(V, "n", "m", "k")
    V.cover("tensors")
    a, b = lambda: ten("a", n, m, k), lambda: ten("b", n, m, k)
    av, bv = ("Tensor3D", (n, m, k), lambda *i: A("a", *i)), ("Tensor3D", (n, m, k), lambda *i: A("b", *i))
    V.returns("constructor", a, lambda x: is_tensor(V, "constructor", x, *av))
    unary(V, "negation", a, lambda v: interp.call(lookup(v, "__neg__"), [v]), "Tensor3D", (n, m, k), lambda *i: -A("a", *i), av)
    for nm, op, f in (("sum", "add", lambda *i: A("a", *i) + A("b", *i)), ("difference", "sub", lambda *i: A("a", *i) - A("b", *i))):
        binary(V, nm, lambda: (a(), b()), lambda x, y: interp.binop(op, x, y), "Tensor3D", (n, m, k), f, (av, bv))
    unary(V, "map", a, lambda v: call(getattr_(v, "map"), [interp.Opaque(lambda x: tm.app("f", [tm.lift(x)]))]), "Tensor3D", (n, m, k),
          lambda *i: tm.app("f", [A("a", *i)]), av)


def equality(V):
    n, m, k, n2, m2, k2 = dims(V, "n", "m", "k", "n2", "m2", "k2")
    i, j, l = tm.var("%qi", tm.I), tm.var("%qj", tm.I), tm.var("%ql", tm.I)
    V.cover("equality")
    V.returns("vector equality", lambda: interp.compare(ast.Eq, vec("a", n), vec("b", m)),
              lambda r: tm.iff(tm.boolterm(r), tm.and_(tm.eq(n, m), tm.forall((i,), tm.implies(tm.and_(tm.le(0, i), tm.lt(i, n)), tm.eq(A("a", i), A("b", i)))))))
    in_ = lambda *b: tm.and_(*[tm.and_(tm.le(0, x), tm.lt(x, d)) for x, d in b])
    for nm, op, neg in (("equality", ast.Eq, False), ("inequality", ast.NotEq, True)):
        f = lambda r: tm.not_(tm.boolterm(r)) if neg else tm.boolterm(r)
        same = lambda q, l, ds: tm.and_(q, tm.forall(l, tm.implies(in_(*zip(l, ds)), tm.eq(A("a", *l), A("b", *l)))))
        # shapes are those of nonempty tensors: equal data mean equal shapes
        V.returns(f"matrix {nm}", lambda: interp.compare(op, mat("a", n, m), mat("b", n2, m2)),
                  lambda r: tm.iff(f(r), same(tm.and_(tm.eq(n, n2), tm.eq(m, m2)), (i, j), (n, m))))
        V.returns(f"tensor {nm}", lambda: interp.compare(op, ten("a", n, m, k), ten("b", n2, m2, k2)),
                  lambda r: tm.iff(f(r), same(tm.and_(tm.eq(n, n2), tm.eq(m, m2), tm.eq(k, k2)), (i, j, l), (n, m, k))))


def copies(V):
    n, m, k = dims(V, "n", "m", "k")
    V.cover("copies")
    for nm, x, sh in (("vector", lambda: vec("a", n), (n,)), ("matrix", lambda: mat("a", n, m), (n, m)),
                      ("tensor", lambda: ten("a", n, m, k), (n, m, k))):
        def ens(r):
            V.oblige(f"{nm}: numpy shape", tm.and_(tm.const(len(r.shape) == len(sh)), *[tm.eq(tm.lift(p), q) for p, q in zip(r.shape, sh)]))
            idx = [tm.var(f"%c{d}", tm.I) for d in range(len(sh))]
            with V.under(tm.and_(*[tm.and_(tm.le(0, p), tm.lt(p, q)) for p, q in zip(idx, sh)])):
                V.oblige(f"{nm}: numpy entry", tm.eq(tm.toreal(tm.lift(r.get(*idx))), A("a", *idx)))
        V.returns(f"{nm} as numpy array", lambda: call(getattr_(x(), "numpy"), []), ens)


def laplace(rows):
    if len(rows) == 1:
        return rows[0][0]
    r = 0
    for j, x in enumerate(rows[0]):
        r = r + (1 if j % 2 == 0 else -1) * x * laplace([q[:j] + q[j + 1:] for q in rows[1:]])
    return r


def det(n):
    def fn(V):
        es = [[tm.app("a", [tm.const(i), tm.const(j)]) for j in range(n)] for i in range(n)]
        V.returns(f"determinant of a {n}x{n} matrix", lambda: call(getattr_(mat("a", n, n), "det"), []), lambda v: tm.eq(v, laplace(es)))
    return fn


def leibniz(V):
    """size n >= 5: the sum over itertools.permutations of sign(p) times the product of the entries, with `sign` by contract"""
    import itertools
    S = getattr(TT(), "sign", None)
    if S is None:
        raise tm.Unsupported("no function sign")
    n = dims(V, "n")
    V.requires(tm.le(5, n))
    V.cover("determinant")
    q, i = tm.var("%pq", tm.I), tm.var("%pi", tm.I)
    P = tm.app("number_of_permutations", [n], tm.I)
    V.requires(tm.le(1, P))
    perm = lambda q, i: tm.app("perm", [tm.lift(q), tm.lift(i)], tm.I)
    V.requires(tm.forall((q, i), tm.implies(tm.and_(tm.le(0, q), tm.lt(q, P), tm.le(0, i), tm.lt(i, n)),
                                            tm.and_(tm.le(0, perm(q, i)), tm.lt(perm(q, i), n)))))
    native = interp.STUBS[itertools.permutations]

    def permutations(it, *r):
        nodes = interp.to_nodes(it)
        m, get = C.view(nodes)
        if isinstance(m, int) or r:
            return native(interp.PIter(nodes), *r)
        if not V.c.entails(tm.and_(tm.eq(m, n), tm.eq(tm.lift(get(i)), i))):
            raise tm.Unsupported("permutations of something else")
        return interp.PIter((C.For(q, P, [C.Item(C.PList([C.For(i, n, [C.Item(perm(q, i))])]))]),))

    def sign(args, kwargs):
        p, = args
        m, get = C.view(interp.to_nodes(p))
        x = tm.lift(get(i))
        if x.op != "app" or x.args[0] != "perm" or x.args[2] is not i or not V.c.entails(tm.eq(tm.lift(m), n)):
            raise tm.Unsupported("sign of something else than one of the permutations")
        return tm.app("sgn", [x.args[1]], tm.R)
    interp.STUBS[itertools.permutations] = permutations
    interp.CONTRACTS[S] = sign
    V.c.assumptions.add("itertools.permutations(range(n)) yields each permutation of 0..n-1 once")
    rows = tm.ssum(q, P, tm.app("sgn", [q]) * tm.sprod(i, n, A("a", i, perm(q, i))))
    cols = tm.ssum(q, P, tm.app("sgn", [q]) * tm.sprod(i, n, A("a", perm(q, i), i)))      # det of the transpose: the same number

    def ens(v):
        if not any(u.op == "app" and u.args[0] == "sgn" for u in tm.subterms([tm.lift(v)])):
            raise tm.Unsupported("determinant by another formula")
        return tm.eq(v, cols if V.c.prover.ring_equal(tm.lift(v), cols) else rows)
    V.returns("determinant", lambda: call(getattr_(mat("a", n, n), "det"), []), ens)


def signs(n):
    def fn(V):
        S = getattr(TT(), "sign", None)
        if S is None:
            raise tm.Unsupported("no function sign")
        p = V.int(*[f"p{i}" for i in range(n)]) if n > 1 else [V.int("p0")]
        V.requires(*[tm.not_(tm.eq(x, y)) for i, x in enumerate(p) for y in p[:i]])
        V.cover("permutation")
        # sgn = product over pairs of the sign of their difference
        want = tm.const(1)
        for i, x in enumerate(p):
            for y in p[:i]:
                want = tm.mul(want, tm.ite(tm.lt(y, x), tm.const(1), tm.const(-1)))
        V.returns(f"sign of a permutation of {n}", lambda: call(S, [C.PList.of(list(p))]), lambda v: tm.eq(v, want))
    return fn


def parity(V):
    """sign of a sequence of any length: the parity of its number of inversions"""
    S = getattr(TT(), "sign", None)
    if S is None:
        raise tm.Unsupported("no function sign")
    n = dims(V, "n")
    V.cover("sequence")
    p = lambda i: tm.app("p", [tm.lift(i)], tm.I)
    i, j = tm.var("%vi", tm.I), tm.var("%vj", tm.I)
    one = lambda c: tm.ite(c, tm.const(1), tm.const(0))
    inv = tm.ssum(i, n, tm.ssum(j, n - i - 1, one(tm.lt(p(i + 1 + j), p(i)))))
    full = tm.ssum(i, n, tm.ssum(j, n, one(tm.and_(tm.lt(i, j), tm.lt(p(j), p(i))))))
    rev = tm.ssum(i, n, tm.ssum(j, i, one(tm.lt(p(i), p(j)))))

    def ens(v):
        # the same count of pairs, ordered by the first index, by both, or by the second
        for c in (inv, full, rev):
            t = tm.ite(tm.eq(tm.mod(c, 2), 0), tm.const(1), tm.const(-1))
            if V.c.prover.ring_equal(tm.toreal(tm.lift(v)), tm.toreal(t)) or V.c.entails(tm.eq(tm.lift(v), t)):
                return tm.TRUE
        raise tm.Unsupported("inversions counted in another way")
    V.returns("sign", lambda: call(S, [symlist("p", n, sort=tm.I)]), ens)


def cases():
    return [Case("vectors", vectors, budget=60), Case("norms", norms, budget=60), Case("matrices", matrices, budget=90),
            Case("products", products, budget=60), Case("layout", layout, budget=60), Case("3-d tensors", tensors, budget=90),
            Case("equality", equality, budget=60), Case("numpy copies", copies, budget=60), Case("2x2 determinant", det(2), budget=20)] + \
        [Case(f"{n}x{n} determinant", det(n), thorough=n > 4, budget=100) for n in (1, 3, 4, 5)] + \
        [Case("determinant of size 5 and more", leibniz, budget=60)] + \
        [Case("sign", parity, budget=60)] + \
        [Case(f"sign {n}", signs(n), kind="bounded", bound=f"permutations of {n} elements", budget=60) for n in (4,)]


def gen(rng, tier):
    r = lambda: rng.randint(-9, 9)
    for _ in range(30):
        n, m, k = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        q = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        yield {"n": n, "m": m, "k": k, "q": q, "s": rng.choice([-4, -2, -1, 2, 4, 8]),
               "a": [[r() for _ in range(m)] for _ in range(n)], "b": [[r() for _ in range(m)] for _ in range(n)],
               "c": [[r() for _ in range(k)] for _ in range(m)], "v": [r() for _ in range(m)],
               "d": [[r() for _ in range(q)] for _ in range(q)]}


def run(case):
    import copy
    T_ = mod("tensors")
    n, m, k, q, s = (case[x] for x in ("n", "m", "k", "q", "s"))
    a, b, c, v, d = (case[x] for x in "abcvd")
    orig = copy.deepcopy(case)
    M = lambda x: T_.Matrix(x)
    Vv = lambda x: T_.Vector(x)
    I, J, K = range(n), range(m), range(k)
    got = []

    def mt(x, shape):
        if x.shape != shape:
            return f"shape {x.shape}"
        return [[x[i, j] for j in range(shape[1])] for i in range(shape[0])]

    def tn(x, shape):
        return [[[x[i, j, l] for l in range(shape[2])] for j in range(shape[1])] for i in range(shape[0])] if x.shape == shape else x.shape
    fl = [x for r in a for x in r]
    A_, B_, C_ = M(a), M(b), M(c)
    row = Vv(a[0])
    Ta, Tb = T_.Tensor3D([a, b]), T_.Tensor3D([b, a])
    checks = [
        ("add", mt(A_ + B_, (n, m)), [[a[i][j] + b[i][j] for j in J] for i in I]),
        ("sub", mt(A_ - B_, (n, m)), [[a[i][j] - b[i][j] for j in J] for i in I]),
        ("neg", mt(-A_, (n, m)), [[-a[i][j] for j in J] for i in I]),
        ("mul", mt(A_ * s, (n, m)), [[a[i][j] * s for j in J] for i in I]),
        ("rmul", mt(s * A_, (n, m)), [[a[i][j] * s for j in J] for i in I]),
        ("div", mt(A_ / s, (n, m)), [[a[i][j] / s for j in J] for i in I]),
        ("matmul", mt(A_ @ C_, (n, k)), [[sum(a[i][l] * c[l][j] for l in J) for j in K] for i in I]),
        ("transpose", mt(A_.transpose(), (m, n)), [[a[i][j] for i in I] for j in J]),
        ("trace", A_.trace(), sum(a[i][i] for i in range(min(n, m)))),
        ("det", M(d).det(), laplace(d)),
        ("normsqr", A_.normsqr(), sum(x * x for x in fl)),
        ("scalar_product", A_.scalar_product(B_), sum(a[i][j] * b[i][j] for i in I for j in J)),
        ("flatten", list(A_.flatten()), fl),
        ("reshape", mt(Vv(fl).reshape(n, m), (n, m)), a),
        ("dot", list(A_.dot(Vv(v))), [sum(a[i][j] * v[j] for j in J) for i in I]),
        ("map", mt(A_.map(lambda x: x * x + 1), (n, m)), [[x * x + 1 for x in r] for r in a]),
        ("numpy", A_.numpy().tolist(), a),
        ("vadd", list(row + Vv(b[0])), [x + y for x, y in zip(a[0], b[0])]),
        ("vsub", list(row - Vv(b[0])), [x - y for x, y in zip(a[0], b[0])]),
        ("vneg", list(-row), [-x for x in a[0]]),
        ("vmul", list(row * s), [x * s for x in a[0]]), ("vrmul", list(s * row), [x * s for x in a[0]]),
        ("vdiv", list(row / s), [x / s for x in a[0]]),
        ("vdot", row.dot(Vv(b[0])), sum(x * y for x, y in zip(a[0], b[0]))),
        ("vnormsqr", row.normsqr(), sum(x * x for x in a[0])),
        ("vextend", list(row.extend(Vv(v))), a[0] + v), ("vlen", len(row), m), ("vnumpy", row.numpy().tolist(), a[0]),
        ("vmap", list(row.map(lambda x: 3 * x)), [3 * x for x in a[0]]),
        ("vstack", mt(row.stack(Vv(b[0])), (2, m)), [a[0], b[0]]), ("vtranspose", mt(row.transpose(), (1, m)), [a[0]]),
        ("veq", row == Vv(list(a[0])), True), ("vne", row == Vv(a[0] + [1]), False), ("meq", A_ == M([list(r) for r in a]), True),
        ("mne", [A_ == M([[x + (i == I[-1] and j == J[-1]) for j, x in enumerate(r)] for i, r in enumerate(a)]), A_ == M(a + [a[0]]), A_ != A_],
         [False, False, False]),
        ("teq", [Ta == T_.Tensor3D([a, b]), Ta == Tb, Ta == T_.Tensor3D([a, b, a]), Ta != Ta, Ta != Tb], [True, a == b, False, False, a != b]),
        ("stack", tn(A_.stack(B_), (2, n, m)), [a, b]),
        ("tadd", tn(Ta + Tb, (2, n, m)), [[[x + y for x, y in zip(p, q)] for p, q in zip(P, Q)] for P, Q in ((a, b), (b, a))]),
        ("tsub", tn(Ta - Tb, (2, n, m)), [[[x - y for x, y in zip(p, q)] for p, q in zip(P, Q)] for P, Q in ((a, b), (b, a))]),
        ("tneg", tn(-Ta, (2, n, m)), [[[-x for x in p] for p in P] for P in (a, b)]),
        ("tmap", tn(Ta.map(lambda x: 2 * x), (2, n, m)), [[[2 * x for x in p] for p in P] for P in (a, b)]),
        ("tnormsqr", Ta.normsqr(), sum(x * x for P in (a, b) for p in P for x in p)),
        ("tnumpy", Ta.numpy().tolist(), [a, b]),
        ("norms", [round(float(x) ** 2, 6) for x in (A_.norm(), row.norm(), Ta.norm())],
         [round(float(x), 6) for x in (A_.normsqr(), row.normsqr(), Ta.normsqr())]),
    ]
    for nm, g, w in checks:
        if g != w:
            return f"{nm}: {g} instead of {w}"
    if case != orig:
        return "an operation changed its operand"
    return None
