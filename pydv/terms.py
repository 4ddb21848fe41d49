"""Hash-consed logical terms (sorts: I integers, R reals, B booleans) with Python operator overloads.

A term is what a scalar of the program under verification is during symbolic execution.  `bool(term)`
asks the current path explorer to decide the condition (forking the path when both answers are possible).
Machine numbers are read as mathematical ones; see `num`.
"""
from __future__ import annotations
from fractions import Fraction
import math

I, R, B = "I", "R", "B"
_table: dict = {}
_next = [1]

# installed by engine.py
HOOK = {"fork": None, "nonzero": None, "divmod": None, "floor": None}


class SymError(BaseException):
    """Verifier-internal failure (never caught by interpreted code)."""


class Unsupported(SymError):
    pass


class SideEffect(Unsupported):
    """an operation expected to be pure changes existing state"""


def snap(x: float) -> Fraction:
    """Reading of a float constant: the rational p/q (q <= 10^4) it rounds, if it is within 1e-14
    (relative) of one, otherwise its exact binary value."""
    f = Fraction(x)
    g = f.limit_denominator(10000)
    if f == g:
        return g
    if g != 0 and abs(f - g) <= abs(f) * Fraction(1, 10**14):
        return g
    return f


def num(x):
    """Python number -> int | Fraction."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("infinite or nan constant in arithmetic")
        return snap(x)
    if hasattr(x, "item") and hasattr(x, "dtype"):
        return num(x.item())
    try:
        import sympy
        if isinstance(x, sympy.Rational):
            return Fraction(int(x.p), int(x.q))
        if isinstance(x, sympy.Float):
            return snap(float(x))
    except ImportError:
        pass
    raise Unsupported(f"not a number: {type(x).__name__}")


def isnum(x):
    return isinstance(x, (int, float, Fraction)) or (
        hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ()
    )


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "__weakref__")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __hash__(self):
        return self.id * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFF

    # ---- arithmetic
    def __add__(self, o):
        return add(self, o) if _ok(o) else NotImplemented

    def __radd__(self, o):
        return add(o, self) if _ok(o) else NotImplemented

    def __sub__(self, o):
        return add(self, neg(lift(o))) if _ok(o) else NotImplemented

    def __rsub__(self, o):
        return add(lift(o), neg(self)) if _ok(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if _ok(o) else NotImplemented

    def __rmul__(self, o):
        return mul(o, self) if _ok(o) else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if not _ok(o):
            return NotImplemented
        o = lift(o)
        HOOK["nonzero"](o)
        return div(self, o)

    def __rtruediv__(self, o):
        if not _ok(o):
            return NotImplemented
        HOOK["nonzero"](self)
        return div(lift(o), self)

    def __floordiv__(self, o):
        if not _ok(o):
            return NotImplemented
        o = lift(o)
        HOOK["nonzero"](o)
        return idiv(self, o)

    def __rfloordiv__(self, o):
        HOOK["nonzero"](self)
        return idiv(lift(o), self)

    def __mod__(self, o):
        if not _ok(o):
            return NotImplemented
        o = lift(o)
        HOOK["nonzero"](o)
        return mod(self, o)

    def __rmod__(self, o):
        HOOK["nonzero"](self)
        return mod(lift(o), self)

    def __pow__(self, e):
        if isinstance(e, T):
            if e.op == "const":
                e = e.args[0]
            else:
                raise Unsupported("symbolic exponent")
        e = num(e)
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if isinstance(e, Fraction):
            if e == Fraction(1, 2):
                return sqrt(self)
            if e.denominator == 2:
                r = sqrt(self)
                return r ** e.numerator
            raise Unsupported(f"exponent {e}")
        if e < 0:
            HOOK["nonzero"](self)
            return div(const(1), power(self, -e))
        return power(self, e)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return absval(self)

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside the interpreter")

    def __index__(self):
        if self.op == "const" and isinstance(self.args[0], int):
            return self.args[0]
        raise Unsupported("symbolic value used as a concrete index")

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the interpreter")

    # ---- comparisons
    def __lt__(self, o):
        return _cmp("lt", self, o)

    def __le__(self, o):
        return _cmp("le", self, o)

    def __gt__(self, o):
        return _cmp("gt", self, o)

    def __ge__(self, o):
        return _cmp("ge", self, o)

    def __eq__(self, o):
        if o is self:
            return TRUE
        return eq(self, o) if _ok(o) else False

    def __ne__(self, o):
        if o is self:
            return FALSE
        return not_(eq(self, o)) if _ok(o) else True

    def __and__(self, o):
        if self.sort == B:
            return and_(self, o)
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __or__(self, o):
        if self.sort == B:
            return or_(self, o)
        raise Unsupported("bitwise or")

    __ror__ = __or__

    def __invert__(self):
        if self.sort == B:
            return not_(self)
        raise Unsupported("bitwise not")

    def __bool__(self):
        if self.op == "const":
            return bool(self.args[0])
        c = self if self.sort == B else not_(eq(self, 0))
        if c.op == "const":
            return bool(c.args[0])
        f = HOOK["fork"]
        if f is None:
            raise Unsupported("truth value of a symbolic term outside exploration: " + show(self))
        return f(c)

    def conjugate(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)


def _ok(o):
    return isinstance(o, T) or isnum(o) or hasattr(o, "__term__")


def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, T) else ("#", type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort, t.id = op, args, sort, _next[0]
        t._fv = None
        _next[0] += 1
        _table[key] = t
    return t


def const(x):
    if isinstance(x, bool):
        return mk("const", (x,), B)
    x = num(x)
    if isinstance(x, int):
        return mk("const", (x,), I)
    return mk("const", (x,), R)


def rconst(x):
    return mk("const", (Fraction(num(x)),), R)


def lift(x) -> T:
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return const(x)
    h = getattr(x, "__term__", None)
    if h is not None:
        return h()
    return const(x)


def var(name, sort=R):
    return mk("var", (name,), sort)


def app(f, args, sort=R):
    if f.startswith("perm!"):
        return _perm(f, [lift(a) for a in args])
    return mk("app", (f,) + tuple(lift(a) for a in args), sort)


PERMS = [False]     # any permutation around?


# An unspecified order of the indices 0 <= i < n: app("perm!x", [parameters, n, i]) is a permutation of [0, n), extended by the
# identity, and app("perm!x^-1", ...) its inverse.
def _perm(f, args):
    g = f[:-3] if f.endswith("^-1") else f + "^-1"
    a = args[-1]
    if a.op == "app" and a.args[0] == g and len(a.args) == len(args) + 1 and all(x is y for x, y in zip(a.args[1:-1], args[:-1])):
        return a.args[-1]
    PERMS[0] = True
    return mk("app", (f,) + tuple(args), I)


def is_perm(t):
    return t.op == "app" and t.args[0].startswith("perm!")


def unpermute(v, n, body, atoms=False):
    """body with the permuted index in place of v when v occurs in no other way (with atoms: except in v < 0 and v < n); None otherwise"""
    ps = [t for t in subterms([body]) if is_perm(t) and t.args[-1] is v]
    if len(ps) != 1:
        return None
    p = ps[0]
    if any(v.id in fv(a) for a in p.args[1:-1]) or (n is not None and p.args[-2] is not n):
        return None
    if any(t.op in ("forall", "exists", "sum") and any(b is v or b.id in fv(p) for b in (t.args[:-1] if t.op != "sum" else t.args[:1]))
           for t in subterms([body])):
        return None
    w = fresh_bound(I)
    b = replace(body, p, w)
    if atoms:
        for x, y in ((le(0, v), le(0, w)), (lt(v, p.args[-2]), lt(w, p.args[-2]))):
            b = replace(b, x, y)
    if v.id in fv(b):
        return None
    return w, b


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def toreal(t):
    t = lift(t)
    if t.sort == R:
        return t
    if t.sort == B:
        return ite(t, rconst(1), rconst(0))
    if t.op == "const":
        return rconst(t.args[0])
    if t.op == "add":
        return add(*[toreal(a) for a in t.args])
    if t.op == "mul":
        return mul(*[toreal(a) for a in t.args])
    if t.op == "ite":
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return mk("toreal", (t,), R)


def _unify(ts):
    ts = [lift(t) for t in ts]
    ts = [ite(t, const(1), const(0)) if t.sort == B else t for t in ts]
    if any(t.sort == R for t in ts):
        return [toreal(t) for t in ts], R
    return ts, I


def add(*ts):
    ts, s = _unify(ts)
    flat = []
    c = 0
    for t in ts:
        for u in (t.args if t.op == "add" else (t,)):
            if u.op == "const":
                c += u.args[0]
            else:
                flat.append(u)
    k = rconst(c) if s == R else const(c)
    if not flat:
        return k
    if c != 0:
        flat.append(k)
    if len(flat) == 1:
        return flat[0]
    return mk("add", tuple(flat), s)


def mul(*ts):
    ts, s = _unify(ts)
    flat = []
    c = 1
    for t in ts:
        for u in (t.args if t.op == "mul" else (t,)):
            if u.op == "const":
                c *= u.args[0]
            else:
                flat.append(u)
    k = rconst(c) if s == R else const(c)
    if c == 0 or not flat:
        return k
    if c != 1:
        flat.insert(0, k)
    if len(flat) == 1:
        return flat[0]
    return mk("mul", tuple(flat), s)


def neg(t):
    t = lift(t)
    if t.op == "add":
        return add(*[neg(a) for a in t.args])
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(lift(b)))


def power(t, e: int):
    t = lift(t)
    if e == 0:
        return rconst(1) if t.sort == R else const(1)
    if e == 1:
        return t
    if t.op == "const":
        v = t.args[0] ** e
        return rconst(v) if t.sort == R else const(v)
    if t.op == "pow":
        return mk("pow", (t.args[0], t.args[1] * e), t.sort)
    return mk("pow", (t, e), t.sort)


def div(a, b):
    a, b = toreal(lift(a)), toreal(lift(b))
    if b.op == "const" and b.args[0] != 0:
        return mul(rconst(1 / b.args[0]), a)
    if a.op == "const" and a.args[0] == 0:
        return a
    return mk("div", (a, b), R)


def idiv(a, b):
    a, b = lift(a), lift(b)
    if a.sort == R or b.sort == R:
        return toreal(floor(div(a, b)))
    if a.op == "const" and b.op == "const":
        return const(a.args[0] // b.args[0])
    if b.op == "const" and b.args[0] == 1:
        return a
    if HOOK["divmod"] is not None:
        r = HOOK["divmod"](a, b)
        if r is not None:
            return r[0]
    return mk("idiv", (a, b), I)


def mod(a, b):
    a, b = lift(a), lift(b)
    if a.sort == R or b.sort == R:
        return sub(a, mul(toreal(floor(div(a, b))), b))
    if a.op == "const" and b.op == "const":
        return const(a.args[0] % b.args[0])
    if b.op == "const" and b.args[0] == 1:
        return const(0)
    if HOOK["divmod"] is not None:
        r = HOOK["divmod"](a, b)
        if r is not None:
            return r[1]
    return mk("mod", (a, b), I)


def floor(t):
    t = lift(t)
    if t.sort == I:
        return t
    if t.op == "const":
        return const(math.floor(t.args[0]))
    if t.op == "toreal":
        return t.args[0]
    if HOOK["floor"] is not None:
        r = HOOK["floor"](t)
        if r is not None:
            return r
    return mk("floor", (t,), I)


def absval(t):
    t = lift(t)
    if t.op == "const":
        return const(abs(t.args[0])) if t.sort == I else rconst(abs(t.args[0]))
    return mk("abs", (t,), t.sort)


def sqrt(t):
    t = toreal(lift(t))
    if t.op == "const":
        v = t.args[0]
        p, q = math.isqrt(abs(v.numerator)), math.isqrt(v.denominator)
        if v >= 0 and p * p == v.numerator and q * q == v.denominator:
            return rconst(Fraction(p, q))
    return app("sqrt", (t,), R)


def exp(t):
    t = toreal(lift(t))
    if t.op == "const" and t.args[0] == 0:
        return rconst(1)
    return app("exp", (t,), R)


def log(t):
    t = toreal(lift(t))
    if t.op == "const" and t.args[0] == 1:
        return rconst(0)
    return app("log", (t,), R)


TRUE = const(True)
FALSE = const(False)


def boolterm(x):
    if isinstance(x, T):
        return x if x.sort == B else not_(eq(x, 0))
    return const(bool(x))


def not_(t):
    t = boolterm(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return le(t.args[1], t.args[0])
    if t.op == "le":
        return lt(t.args[1], t.args[0])
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "forall":
        return mk("exists", t.args[:-1] + (not_(t.args[-1]),), B)
    if t.op == "exists":
        return mk("forall", t.args[:-1] + (not_(t.args[-1]),), B)
    return mk("not", (t,), B)


def and_(*ts):
    out, seen = [], set()
    for t in ts:
        t = boolterm(t)
        for u in (t.args if t.op == "and" else (t,)):
            if u is FALSE:
                return FALSE
            if u is TRUE or u.id in seen:
                continue
            seen.add(u.id)
            out.append(u)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), B)


def or_(*ts):
    out, seen = [], set()
    for t in ts:
        t = boolterm(t)
        for u in (t.args if t.op == "or" else (t,)):
            if u is TRUE:
                return TRUE
            if u is FALSE or u.id in seen:
                continue
            seen.add(u.id)
            out.append(u)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), B)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(boolterm(a), boolterm(b))


def ite(c, a, b):
    c = boolterm(c)
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if a.sort == B or b.sort == B:
            a = ite(a, const(1), const(0)) if a.sort == B else a
            b = ite(b, const(1), const(0)) if b.sort == B else b
        if a.sort != b.sort:
            a, b = toreal(a), toreal(b)
    if a.sort == B:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(implies(c, a), or_(c, b))
    if b.op in ("sum", "add") and c.op == "le" and c.args[1].op == "const" and c.args[1].args[0] == 0:
        # an empty sum is 0
        empty = lambda u: u.op == "sum" and u.args[1] is c.args[0]
        us = b.args if b.op == "add" else (b,)
        if any(map(empty, us)) and add(const(0), *[u for u in us if not empty(u)]) is a:
            return b
    return mk("ite", (c, a, b), a.sort)


def _cmp(op, a, b):
    if isinstance(b, float) and math.isinf(b):
        pos = b > 0
        return const(pos if op in ("lt", "le") else not pos)
    if not _ok(b):
        return NotImplemented
    if op == "lt":
        return lt(a, b)
    if op == "le":
        return le(a, b)
    if op == "gt":
        return lt(b, a)
    return le(b, a)


def lt(a, b):
    (a, b), s = _unify([a, b])
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return const(a.args[0] < b.args[0])
    if s == I:
        if is_perm(a) and a.args[-2] is b:
            return lt(a.args[-1], b)
        d = sub(b, a)
        if d.op == "const":
            return const(d.args[0] > 0)
        return le(add(a, 1), b)
    return mk("lt", (a, b), B)


def le(a, b):
    (a, b), s = _unify([a, b])
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.args[0] <= b.args[0])
    if is_perm(b) and a.op == "const" and a.args[0] == 0:
        return le(a, b.args[-1])
    if a.op == "add" and b.sort == I and any(is_perm(x) and x.args[-2] is b for x in a.args):
        x = next(x for x in a.args if is_perm(x) and x.args[-2] is b)
        if sub(a, x).op == "const" and sub(a, x).args[0] == 1:
            return lt(x.args[-1], b)
    return mk("le", (a, b), B)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == B and b.sort == B:
        if b.op == "const":
            return a if b.args[0] else not_(a)
        if a.op == "const":
            return b if a.args[0] else not_(b)
    else:
        (a, b), _ = _unify([a, b])
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            return const(a.args[0] == b.args[0])
    if is_perm(a) and is_perm(b) and a.args[0] == b.args[0] and all(x is y for x, y in zip(a.args[1:-1], b.args[1:-1])):
        return eq(a.args[-1], b.args[-1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), B)


def ne(a, b):
    return not_(eq(a, b))


def forall(vs, body):
    vs = tuple(v for v in vs)
    body = boolterm(body)
    if body.op == "const" or not vs:
        return body
    f = fv(body)
    vs = tuple(v for v in vs if v.id in f)
    if not vs:
        return body
    if PERMS[0]:
        for i, v in enumerate(vs):
            r = unpermute(v, None, body, atoms=True)
            if r is not None:
                return forall(vs[:i] + (r[0],) + vs[i + 1:], r[1])
    return mk("forall", vs + (body,), B)


def exists(vs, body):
    return not_(forall(vs, not_(body)))


def ssum(v, n, body):
    """sum_{0 <= v < n} body"""
    n = lift(n)
    body = lift(body)
    if body.sort == B:
        body = ite(body, const(1), const(0))
    if body.op == "const" and body.args[0] == 0:
        return body
    if v.id not in fv(body):
        nn = n if n.sort == I else n
        return mul(_max0(nn), body)
    if PERMS[0]:
        r = unpermute(v, n, body)
        if r is not None:
            return ssum(r[0], n, r[1])
    return mk("sum", (v, n, body), body.sort)


def sprod(v, n, body):
    """prod_{0 <= v < n} body, written prod!(sum of factor!(body)).  Sound: with factor! mapping the reals one to one onto numbers that are
    linearly independent over the rationals, such a sum determines the multiset of factors, and prod! of it is their product."""
    n, body = lift(n), toreal(lift(body))
    if n.op == "const":
        r = rconst(1)
        for i in range(n.args[0]):
            r = mul(r, subst(body, {v: const(i)}))
        return r
    return mk("app", ("prod!", ssum(v, n, mk("app", ("factor!", body), R))), R)


NONNEG_HINT = set()


def _max0(n):
    if n.op == "const":
        return const(max(0, n.args[0]))
    if n.id in NONNEG_HINT:
        return n
    return ite(le(0, n), n, const(0))


def tmin(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = lift(a), lift(b)
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- traversal
_EMPTY = frozenset()


def fv(t) -> frozenset:
    """ids of free variables"""
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        u = stack[-1]
        if u._fv is not None:
            stack.pop()
            continue
        kids = [a for a in u.args if isinstance(a, T)]
        todo = [a for a in kids if a._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if u.op == "var":
            u._fv = frozenset((u.id,))
        elif u.op in ("forall", "exists"):
            u._fv = kids[-1]._fv - {v.id for v in kids[:-1]}
        elif u.op == "sum":
            u._fv = (kids[2]._fv - {kids[0].id}) | kids[1]._fv
        else:
            s = _EMPTY
            for a in kids:
                s = s | a._fv
            u._fv = s
        stack.pop()
    return t._fv


def rebuild(t, args):
    o = t.op
    if o == "add":
        return add(*args)
    if o == "mul":
        return mul(*args)
    if o == "pow":
        return power(args[0], args[1])
    if o == "div":
        return div(*args)
    if o == "idiv":
        return idiv(*args)
    if o == "mod":
        return mod(*args)
    if o == "floor":
        return floor(*args)
    if o == "toreal":
        return toreal(*args)
    if o == "abs":
        return absval(*args)
    if o == "not":
        return not_(*args)
    if o == "and":
        return and_(*args)
    if o == "or":
        return or_(*args)
    if o == "ite":
        return ite(*args)
    if o == "lt":
        return lt(*args)
    if o == "le":
        return le(*args)
    if o == "eq":
        return eq(*args)
    if o == "forall":
        return forall(args[:-1], args[-1])
    if o == "exists":
        return exists(args[:-1], args[-1])
    if o == "sum":
        return ssum(*args)
    if o == "app":
        f = args[0]
        if f == "sqrt":
            return sqrt(args[1])
        if f == "exp":
            return exp(args[1])
        if f == "log":
            return log(args[1])
        return app(f, args[1:], t.sort)
    return mk(o, tuple(args), t.sort)


_fresh = [0]


def fresh_bound(sort=I):
    _fresh[0] += 1
    return var(f"%b{_fresh[0]}", sort)


def subst(t, m: dict):
    """m: {T var: T}. Capture-avoiding."""
    m = {k.id: lift(v) for k, v in m.items()}
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not (fv(t) & m.keys()):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m[t.id]
        if r.sort != t.sort:
            if t.sort == R:
                r = toreal(r)
            else:
                raise Unsupported("sort mismatch in substitution")
    elif t.op in ("forall", "exists", "sum"):
        bvs = t.args[:-1] if t.op != "sum" else (t.args[0],)
        inner = {k: v for k, v in m.items() if k not in {b.id for b in bvs}}
        clash = set()
        for k, v in inner.items():
            clash |= fv(v)
        ren = {}
        nb = []
        for b in bvs:
            if b.id in clash:
                f = fresh_bound(b.sort)
                ren[b.id] = f
                nb.append(f)
            else:
                nb.append(b)
        inner2 = dict(inner)
        inner2.update(ren)
        body = _subst(t.args[-1], inner2, {})
        if t.op == "sum":
            r = ssum(nb[0], _subst(t.args[1], m, memo), body)
        elif t.op == "forall":
            r = forall(nb, body)
        else:
            r = exists(nb, body)
    else:
        r = rebuild(t, [(_subst(a, m, memo) if isinstance(a, T) else a) for a in t.args])
    memo[t.id] = r
    return r


def replace(t, old, new, memo=None):
    """Replace every occurrence of subterm `old` by `new` (no capture check)."""
    if memo is None:
        memo = {}
    if t is old:
        return new
    r = memo.get(t.id)
    if r is not None:
        return r
    if any(isinstance(a, T) for a in t.args):
        args = [(replace(a, old, new, memo) if isinstance(a, T) else a) for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t, args)
    else:
        r = t
    memo[t.id] = r
    return r


def subterms(ts):
    seen = {}
    stack = list(ts)
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        stack.extend(a for a in u.args if isinstance(a, T))
    return list(seen.values())


_SHOW = {"add": " + ", "mul": "*", "and": " & ", "or": " | ", "lt": " < ", "le": " <= ", "eq": " = "}


def show(t, depth=9):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "..."
    o = t.op
    if o == "const":
        return str(t.args[0])
    if o == "var":
        return t.args[0]
    if o == "toreal":
        return show(t.args[0], depth)
    if o in _SHOW:
        return "(" + _SHOW[o].join(show(a, depth - 1) for a in t.args) + ")"
    if o == "app":
        return t.args[0] + "(" + ",".join(show(a, depth - 1) for a in t.args[1:]) + ")"
    if o == "pow":
        return f"{show(t.args[0], depth-1)}^{t.args[1]}"
    return o + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"


# ---------------------------------------------------------------- calculus
def diff(t, x, memo=None):
    """Formal derivative of a real term with respect to variable x."""
    if memo is None:
        memo = {}
    t = lift(t)
    if x.id not in fv(t):
        return rconst(0)
    r = memo.get(t.id)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == "var":
        r = rconst(1)
    elif o == "add":
        r = add(*[diff(u, x, memo) for u in a])
    elif o == "mul":
        parts = []
        for i, u in enumerate(a):
            d = diff(u, x, memo)
            if not (d.op == "const" and d.args[0] == 0):
                parts.append(mul(*a[:i], d, *a[i + 1:]))
        r = add(*parts) if parts else rconst(0)
    elif o == "pow":
        r = mul(rconst(a[1]), power(a[0], a[1] - 1), diff(a[0], x, memo))
    elif o == "div":
        u, v = a
        r = sub(div(diff(u, x, memo), v), div(mul(u, diff(v, x, memo)), power(v, 2)))
    elif o == "app" and a[0] == "exp":
        r = mul(t, diff(a[1], x, memo))
    elif o == "app" and a[0] == "log":
        r = div(diff(a[1], x, memo), a[1])
    elif o == "app" and a[0] == "sqrt":
        r = div(diff(a[1], x, memo), mul(2, t))
    elif o == "sum" and x.id not in fv(a[1]):
        r = ssum(a[0], a[1], diff(a[2], x))
    elif o == "ite":
        if x.id in fv(a[0]):
            raise Unsupported("derivative through a condition")
        r = ite(a[0], diff(a[1], x, memo), diff(a[2], x, memo))
    else:
        raise Unsupported(f"derivative of {o} {a[0] if o == 'app' else ''}")
    r = toreal(r)
    memo[t.id] = r
    return r


# ---------------------------------------------------------------- evaluation
def evaluate(t, env: dict, funs: dict | None = None, memo=None):
    """Concrete value under env {var name: number}; floats or Fractions."""
    if memo is None:
        memo = {}
    t = lift(t)
    if t.id in memo:
        return memo[t.id]
    o, a = t.op, t.args
    ev = lambda u: evaluate(u, env, funs, memo)
    if o == "const":
        r = a[0]
    elif o == "var":
        r = env[a[0]]
    elif o == "add":
        r = 0
        for u in a:
            r = r + ev(u)
    elif o == "mul":
        r = 1
        for u in a:
            r = r * ev(u)
    elif o == "pow":
        r = ev(a[0]) ** a[1]
    elif o == "div":
        r = ev(a[0]) / ev(a[1]) if not isinstance(ev(a[1]), int) else Fraction(ev(a[0])) / ev(a[1])
    elif o == "idiv":
        r = ev(a[0]) // ev(a[1])
    elif o == "mod":
        r = ev(a[0]) % ev(a[1])
    elif o == "floor":
        r = math.floor(ev(a[0]))
    elif o == "toreal":
        r = ev(a[0])
    elif o == "abs":
        r = abs(ev(a[0]))
    elif o == "not":
        r = not ev(a[0])
    elif o == "and":
        r = all(ev(u) for u in a)
    elif o == "or":
        r = any(ev(u) for u in a)
    elif o == "ite":
        r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif o == "lt":
        r = ev(a[0]) < ev(a[1])
    elif o == "le":
        r = ev(a[0]) <= ev(a[1])
    elif o == "eq":
        r = ev(a[0]) == ev(a[1])
    elif o == "sum":
        r = 0
        for k in range(int(ev(a[1]))):
            r = r + evaluate(a[2], {**env, a[0].args[0]: k}, funs, {})
    elif o == "app":
        f = a[0]
        xs = [ev(u) for u in a[1:]]
        if funs and f in funs:
            r = funs[f](*xs)
        elif f == "sqrt":
            r = math.sqrt(xs[0])
        elif f == "exp":
            r = math.exp(xs[0])
        elif f == "log":
            r = math.log(xs[0])
        else:
            raise Unsupported(f"no interpretation for {f}")
    else:
        raise Unsupported(f"evaluate {o}")
    memo[t.id] = r
    return r
