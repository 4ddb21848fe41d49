"""Models of the builtins and library functions the repository calls."""
from __future__ import annotations
import ast, builtins, math, copy, itertools, functools, operator, types, dataclasses
from fractions import Fraction
from . import terms as tm
from .terms import T
from .engine import ctx, InterpRaise, MISSING, VDict
from . import containers as C
from .containers import (PList, PSet, PDict, Arr, Item, For, If, Rem, eqv, member, conj, disj, inst, is_repo_instance,
                         is_scalar, guard, _bv)
from . import interp as I
from .interp import STUBS, to_nodes, iter_values, truth, PIter, PRange, Bound, call, binop, truthterm


# ------------------------------------------------------------------ methods of containers
def container_attr(o, name):
    if isinstance(o, PList):
        f = LIST.get(name)
    elif isinstance(o, PDict):
        f = DICT.get(name)
    elif isinstance(o, PSet):
        f = SET.get(name)
    elif isinstance(o, Arr):
        from .numpy_model import ARR
        if name == "shape":
            return o.shape
        if name == "T":
            from .numpy_model import transpose
            return transpose(o)
        f = ARR.get(name)
        if f is None and name != "ndim" and name != "size" and hasattr(__import__("numpy").ndarray, name):
            raise tm.Unsupported("array attribute " + name)
        if name == "size":
            return tm.mul(*o.shape) if any(isinstance(x, T) for x in o.shape) else math.prod(o.shape)
        if name == "ndim":
            return len(o.shape)
    elif isinstance(o, PRange):
        return getattr(o, name, MISSING) if name in ("start", "stop", "step") else MISSING
    else:
        f = {"__next__": lambda it: b_next(it)}.get(name)
    if f is None:
        raise InterpRaise(AttributeError(name)) if not name.startswith("_") else tm.Unsupported(name)
    return Bound(lambda *a, **k: f(o, *a, **k))


def l_append(l, v):
    l.set(l.nodes + (Item(v),))


def l_extend(l, it):
    l.set(l.nodes + to_nodes(it))


def l_insert(l, i, v):
    if l.concrete() and isinstance(i, int):
        n = len(l.nodes)
        i = max(0, min(n, i + n if i < 0 else i))
        l.set(l.nodes[:i] + (Item(v),) + l.nodes[i:])
    elif i == 0:
        l.set((Item(v),) + l.nodes)
    else:
        raise tm.Unsupported("insert")


def l_pop(l, i=-1):
    n = l.length()
    if truth(eqv(n, 0)):
        raise InterpRaise(IndexError("pop from empty list"))
    v = l.index(i)
    if l.concrete() and isinstance(i, int):
        j = i % len(l.nodes)
        l.set(l.nodes[:j] + l.nodes[j + 1:])
        return v
    raise tm.Unsupported("pop")


def l_index(l, x):
    for i, v in enumerate(l.vals()):
        if truth(eqv(x, v)):
            return i
    raise InterpRaise(ValueError("not in list"))


def l_sort(l, key=None, reverse=False):
    l.set(b_sorted(l, key=key, reverse=reverse).nodes)


def l_reverse(l):
    l.set(b_reversed(l).nodes)


def l_count(l, x):
    return b_sum(PIter(tuple(C.map_nodes(l.nodes, lambda v: tm.ite(tm.boolterm(eqv(v, x)), 1, 0)))))


def l_remove(l, x):
    vs = l.vals()
    for i, v in enumerate(vs):
        if truth(eqv(x, v)):
            l.set(l.nodes[:i] + l.nodes[i + 1:])
            return
    raise InterpRaise(ValueError("not in list"))


LIST = {"append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "index": l_index, "sort": l_sort,
        "reverse": l_reverse, "copy": lambda l: PList(l.nodes), "count": l_count, "remove": l_remove,
        "clear": lambda l: l.set(()), "__len__": lambda l: l.length(), "__iter__": lambda l: PIter(l.nodes),
        "__getitem__": lambda l, i: l.index(i)}


def d_get(d, k, default=None):
    c = d.contains(k)
    if truth(c):
        return d.lookup(k)
    return default


def d_pop(d, k, default=MISSING):
    if truth(d.contains(k)):
        v = d.lookup(k)
        d.set(d.nodes + (Rem((Item(k),)),))
        return v
    if default is MISSING:
        raise InterpRaise(KeyError(k))
    return default


def d_setdefault(d, k, default=None):
    if truth(d.contains(k)):
        return d.lookup(k)
    d.store(k, default)
    return default


def d_update(d, other=None, **kw):
    ns = ()
    if isinstance(other, PDict):
        ns = other.nodes
    elif isinstance(other, dict):
        ns = tuple(Item(p) for p in other.items())
    elif other is not None:
        ns = C.map_nodes(to_nodes(other), lambda p: tuple(I.unpack(p, 2)))
    ns = ns + tuple(Item(p) for p in kw.items())
    d.set(d.nodes + ns)


def d_keys(d):
    return PList(to_nodes(d))


def d_values(d):
    return PList(C.map_nodes(d.items_nodes(), lambda p: p[1]))


DICT = {"get": d_get, "items": lambda d: PList(d.items_nodes()), "keys": d_keys, "values": d_values, "pop": d_pop,
        "setdefault": d_setdefault, "update": d_update, "copy": lambda d: PDict(d.nodes, default=d.default),
        "__contains__": lambda d, k: d.contains(k), "__len__": lambda d: d.length(), "clear": lambda d: d.set(())}


def s_add(s, v):
    if not any(isinstance(x, C.Barrier) for x in s.nodes) and member(v, s.nodes) is True:
        return
    s.set(s.nodes + (Item(v),))


def set_nodes(x):
    return x.nodes if isinstance(x, PSet) else C.listed(to_nodes(x))


def plain(x):
    """nodes without removals listing the members of x (possibly repeatedly)"""
    if isinstance(x, PSet):
        if any(isinstance(n, Rem) for n in x.nodes):
            return x.elements()
        return x.nodes
    return C.listed(to_nodes(x))


def s_update(s, *others):
    for o in others:
        s.set(s.nodes + plain(o))


def same_nodes(a, b):
    """syntactic identity of node tuples up to bound names"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, Item):
            if x.v is not y.v and eqv(x.v, y.v) is not True:
                return False
        elif isinstance(x, For):
            if x.n is not y.n and eqv(x.n, y.n) is not True:
                return False
            k = _bv("z")
            if not same_nodes(C.inst_nodes(x.nodes, {x.k: k}), C.inst_nodes(y.nodes, {y.k: k})):
                return False
        elif isinstance(x, If):
            if x.c is not y.c or not same_nodes(x.nodes, y.nodes):
                return False
        else:
            return False
    return True


def s_diff_update(s, *others):
    for o in others:
        r = plain(o)
        if r:
            s.set(s.nodes + (Rem(r),))


def s_discard(s, v):
    s.set(s.nodes + (Rem((Item(v),)),))


def s_remove(s, v):
    if not truth(member(v, s.nodes)):
        raise InterpRaise(KeyError(v))
    s_discard(s, v)


def s_copyop(f):
    def g(s, *o):
        r = PSet(set_nodes(s))
        f(r, *o)
        return r
    return g


def s_inter_update(s, *others):
    for o in others:
        ns = set_nodes(o)
        s.set(C.expand(plain(s), lambda v: guard(tm.boolterm(member(v, ns)), (Item(v),))))


def s_issubset(s, o):
    ns = set_nodes(o)
    return b_all(PIter(C.map_nodes(plain(s), lambda v: tm.boolterm(member(v, ns)))))


SET = {"add": s_add, "update": s_update, "difference_update": s_diff_update, "discard": s_discard, "remove": s_remove,
       "union": s_copyop(s_update), "difference": s_copyop(s_diff_update), "copy": lambda s: PSet(s.nodes),
       "intersection_update": s_inter_update, "intersection": s_copyop(s_inter_update), "issubset": s_issubset,
       "issuperset": lambda s, o: s_issubset(o if isinstance(o, PSet) else PSet(to_nodes(o)), s),
       "__contains__": lambda s, v: member(v, s.nodes), "clear": lambda s: s.set(())}


def set_op(op, a, b):
    a = a if isinstance(a, PSet) else PSet(tuple(Item(v) for v in a))
    b = b if isinstance(b, PSet) else PSet(tuple(Item(v) for v in b))
    if op == "or_":
        return SET["union"](a, b)
    if op == "sub":
        return SET["difference"](a, b)
    if op == "and_":
        return SET["intersection"](a, b)
    raise tm.Unsupported("set operator " + op)


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, (PList, PSet, PDict)):
        return x.length()
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, PRange):
        return PList(x.nodes()).length()
    if is_repo_instance(x):
        m = I.lookup_type(type(x), "__len__")
        if m is None:
            raise InterpRaise(TypeError("object has no len()"))
        return call(m, [x])
    if getattr(x, "__model__", False):
        return x.model_len()
    if isinstance(x, T) or isinstance(x, PIter):
        raise InterpRaise(TypeError("object has no len()"))
    try:
        return len(x)
    except TypeError as e:
        raise InterpRaise(e)


def b_range(*a):
    a = [I.norm_num(x) for x in a]
    if any(isinstance(x, Fraction) for x in a):
        raise InterpRaise(TypeError("'float' object cannot be interpreted as an integer"))
    a = [C.pyint(x) if isinstance(x, T) else x for x in a]
    if any(isinstance(x, T) and x.sort != "I" for x in a):
        raise InterpRaise(TypeError("'float' object cannot be interpreted as an integer"))
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return PRange(0, a[0])
    if len(a) == 3 and not isinstance(a[2], int):
        raise tm.Unsupported("symbolic range step")
    return PRange(*a)


def sum_nodes(nodes, start):
    r = start
    for nd in nodes:
        if isinstance(nd, Item):
            r = binop("add", r, nd.v)
        elif isinstance(nd, If):
            v = sum_nodes(nd.nodes, 0)
            r = binop("add", r, tm.ite(nd.c, tm.lift(I.norm_num(v)), 0))
        elif isinstance(nd, For):
            v = sum_nodes(nd.nodes, 0)
            if not is_scalar(v):
                raise tm.Unsupported("sum of non-scalars over a symbolic range")
            r = binop("add", r, tm.ssum(nd.k, nd.n, tm.lift(I.norm_num(v))))
        else:
            raise tm.Unsupported("sum over a partially summarised container")
    return r


def b_sum(it, start=0):
    ns = to_nodes(it)
    if not C.allitems(ns):
        # a collection length may hide a max(0, .)
        pass
    return sum_nodes(ns, start)


def b_abs(x):
    x = I.norm_num(x)
    if isinstance(x, T):
        s = ctx()
        z = tm.rconst(0) if x.sort == "R" else tm.const(0)
        r = s.settle(tm.le(z, x)) if not s.nofork else None
        if r is True:
            return x
        return tm.absval(x)
    if is_repo_instance(x):
        return call(I.lookup_type(type(x), "__abs__"), [x])
    return abs(x)


def _minmax(args, key, default, better):
    if len(args) == 1:
        ns = to_nodes(args[0])
    else:
        ns = tuple(Item(a) for a in args)
    if C.allitems(ns):
        vals = [n.v for n in ns]
        if not vals:
            if default is MISSING:
                raise InterpRaise(ValueError("arg is an empty sequence"))
            return default
        r = vals[0]
        for v in vals[1:]:
            if key is not None:
                c = better(call(key, [v]), call(key, [r]))
                if truth(c):
                    r = v
                continue
            c = better(v, r)
            if isinstance(c, bool):
                r = v if c else r
            elif is_scalar(v) and is_scalar(r):
                r = tm.ite(c, tm.lift(I.norm_num(v)), tm.lift(I.norm_num(r)))
            else:
                r = v if truth(c) else r
        return r
    if key is not None:
        raise tm.Unsupported("min/max with a key over a symbolic collection")
    s = ctx()
    m = s.fresh("ext", tm.R)
    # attained and extreme
    s.define(tm.boolterm(member(m, ns)))

    def bound(v):
        return tm.not_(tm.boolterm(better(tm.lift(v), m)))

    s.define(tm.boolterm(all_nodes(C.map_nodes(ns, bound))))
    return m


def b_min(*a, key=None, default=MISSING):
    return _minmax(a, key, default, lambda x, y: I.compare(ast.Lt, x, y))


def b_max(*a, key=None, default=MISSING):
    return _minmax(a, key, default, lambda x, y: I.compare(ast.Gt, x, y))


def all_nodes(nodes):
    out = []
    for nd in nodes:
        if isinstance(nd, Item):
            out.append(truthterm(nd.v) if isinstance(nd.v, T) else tm.const(truth(nd.v)))
        elif isinstance(nd, If):
            out.append(tm.implies(nd.c, all_nodes(nd.nodes)))
        elif isinstance(nd, For):
            kb = _bv("a")
            b = all_nodes(nd.nodes)
            out.append(tm.forall((kb,), tm.subst(tm.implies(tm.and_(tm.le(0, nd.k), tm.lt(nd.k, nd.n)), b), {nd.k: kb}))
                       if b.op != "const" or not b.args[0] else tm.TRUE)
            if b is tm.FALSE:
                out[-1] = tm.le(nd.n, 0)
    return tm.and_(*out)


def b_all(it):
    r = all_nodes(to_nodes(it))
    return bool(r.args[0]) if r.op == "const" else r


def b_any(it):
    ns = to_nodes(it)
    ns = C.map_nodes(ns, lambda v: tm.not_(truthterm(v)))
    r = tm.not_(all_nodes(ns))
    return bool(r.args[0]) if r.op == "const" else r


def zip_nodes(srcs, strict=False):
    nss = [to_nodes(x) for x in srcs]
    if not nss:
        return ()
    if all(C.allitems(n) for n in nss):
        return tuple(Item(t) for t in zip(*[[i.v for i in n] for n in nss]))
    # identical shape: For/For with equal bounds, one item each
    views = [C.view(n) for n in nss]
    s = ctx()
    n0 = views[0][0]
    for v in views[1:]:
        if n0 is v[0]:
            continue
        e = eqv(n0, v[0])
        if e is True or (e is not False and s.settle(e) is True):
            continue
        if truth(I.compare(ast.Lt, v[0], n0)):
            n0 = v[0]
    if isinstance(n0, int):
        return tuple(Item(tuple(v[1](i) for v in views)) for i in range(n0))
    with s.bind(n0) as k:
        t = tuple(v[1](k) for v in views)
    return (For(k, n0, (Item(t),)),)


def b_zip(*srcs, strict=False):
    return PIter(zip_nodes(srcs))


def b_enumerate(it, start=0):
    ns = to_nodes(it)
    if C.allitems(ns):
        return PIter(tuple(Item((C.pyint(tm.add(i, start)) if not isinstance(start, int) else i + start, x.v)) for i, x in enumerate(ns)))
    out = []
    off = start
    for nd in ns:
        if isinstance(nd, Item):
            out.append(Item((C.pyint(tm.lift(off)), nd.v)))
        elif isinstance(nd, For) and len(nd.nodes) == 1 and isinstance(nd.nodes[0], Item):
            out.append(For(nd.k, nd.n, (Item((tm.add(nd.k, off), nd.nodes[0].v)),)))
        else:
            n, g = C.view(ns)
            s = ctx()
            with s.bind(n) as k:
                t = (tm.add(k, start), g(k))
            return PIter((For(k, n, (Item(t),)),))
        off = tm.add(off, C.simp_count(C.count((nd,))))
    return PIter(tuple(out))


def b_reversed(it):
    ns = to_nodes(it)
    if C.allitems(ns):
        return PIter(tuple(reversed(ns)))
    out = []
    for nd in reversed(ns):
        if isinstance(nd, Item):
            out.append(nd)
        elif isinstance(nd, For):
            kb = _bv("v")
            sub = C.inst_nodes(nd.nodes, {nd.k: tm.sub(tm.sub(nd.n, 1), kb)})
            out.append(For(kb, nd.n, b_reversed(PIter(sub)).nodes))
        elif isinstance(nd, If):
            out.append(If(nd.c, b_reversed(PIter(nd.nodes)).nodes))
        else:
            raise tm.Unsupported("reversed")
    return PIter(tuple(out))


def b_sorted(it, key=None, reverse=False):
    ns = to_nodes(it)
    if not C.allitems(ns):
        if key is None and not reverse and len(ns) == 1 and isinstance(ns[0], For):
            f = ns[0]
            if len(f.nodes) == 1 and isinstance(f.nodes[0], Item) and is_scalar(f.nodes[0].v):
                # increasing in the index?
                nxt = tm.subst(tm.lift(f.nodes[0].v), {f.k: tm.add(f.k, 1)})
                if ctx().settle(tm.le(f.nodes[0].v, nxt)) is True:
                    return PList(ns)
        if len(ns) > 1:
            raise tm.Unsupported("sorted collection of several parts")
        return PList(C.shuffle(ns))
    vals = [n.v for n in ns]
    keys = [call(key, [v]) for v in vals] if key is not None else list(vals)
    # insertion sort, stable
    out = []
    for v, kk in zip(vals, keys):
        i = len(out)
        while i > 0 and truth(I.compare(ast.Lt, kk, out[i - 1][1])):
            i -= 1
        out.insert(i, (v, kk))
    res = [v for v, _ in out]
    if reverse:
        res = res[::-1]
    return PList.of(res)


def b_list(it=()):
    if isinstance(it, (list,)):
        return PList.of(it)
    return PList(to_nodes(it))


def b_tuple(it=()):
    return tuple(iter_values(it))


def b_set(it=()):
    if isinstance(it, PSet):
        return PSet(it.nodes)
    ns = to_nodes(it)
    if C.allitems(ns):
        out = []
        for n in ns:
            m = member(n.v, tuple(out))
            if m is True:
                continue
            out.append(n)
        ns = tuple(out)
    return PSet(ns)


def b_dict(it=None, **kw):
    d = PDict()
    d_update(d, it, **kw)
    return d


def first_of(ns):
    """(found, value) of the first element"""
    s = ctx()
    for nd in ns:
        if isinstance(nd, Item):
            return True, nd.v
        if isinstance(nd, If):
            if s.decide(tm.and_(nd.c, nonempty(nd.nodes))):
                return first_of(nd.nodes)
        elif isinstance(nd, For):
            ne = nonempty(nd.nodes)
            kb = _bv("f")
            c = tm.exists((kb,), tm.subst(tm.and_(tm.le(0, nd.k), tm.lt(nd.k, nd.n), ne), {nd.k: kb}))
            if ne is tm.TRUE:
                c = tm.lt(0, nd.n)
            if s.decide(c):
                if ne is tm.TRUE:
                    K = tm.const(0)
                else:
                    K = s.fresh("first", tm.I)
                    s.define(tm.and_(tm.le(0, K), tm.lt(K, nd.n), tm.subst(ne, {nd.k: K})))
                    jb = _bv("f")
                    s.define(tm.forall((jb,), tm.implies(tm.and_(tm.le(0, jb), tm.lt(jb, K)), tm.not_(tm.subst(ne, {nd.k: jb})))))
                return first_of(C.inst_nodes(nd.nodes, {nd.k: K}))
    return False, None


def nonempty(ns):
    out = []
    for nd in ns:
        if isinstance(nd, Item):
            return tm.TRUE
        if isinstance(nd, If):
            out.append(tm.and_(nd.c, nonempty(nd.nodes)))
        elif isinstance(nd, For):
            kb = _bv("o")
            e = nonempty(nd.nodes)
            if e is tm.TRUE:
                out.append(tm.lt(0, nd.n))
            else:
                out.append(tm.exists((kb,), tm.subst(tm.and_(tm.le(0, nd.k), tm.lt(nd.k, nd.n), e), {nd.k: kb})))
    return tm.or_(*out)


def b_next(it, default=MISSING):
    if not isinstance(it, PIter):
        if is_repo_instance(it):
            raise tm.Unsupported("user iterator")
        return I.native_call(next, [it] + ([] if default is MISSING else [default]), {})
    ns = it.nodes
    if ns and isinstance(ns[0], Item):
        ctx().put(it, "nodes", ns[1:])
        return ns[0].v
    ok, v = first_of(ns)
    if ok:
        ctx().put(it, "nodes", (If(tm.var("%consumed", tm.B), ()),))  # partially consumed: not reusable
        return v
    if default is MISSING:
        raise InterpRaise(StopIteration())
    return default


def b_iter(x):
    return PIter(to_nodes(x))


def is_int_object(v):
    """a number may be handed over as an int or as a float: both are looked at"""
    s = ctx()
    c = tm.app("isint", (v,), "B")
    if s.decide(c):
        s.assume(tm.eq(v, tm.toreal(tm.floor(v))))
        return True
    return False


def b_isinstance(v, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if type(cls) is tuple:
        if isinstance(v, T) and v.sort == "R" and int in cls and float in cls:
            return True
        return any(b_isinstance(v, c) for c in cls)
    if cls is object:
        return True
    if isinstance(v, T):
        if v.sort == "I":
            return cls is int or getattr(cls, "__name__", "") in ("Integral", "Real", "Number", "Rational")
        if v.sort == "B":
            return cls in (bool, int)
        if cls in (int, float) and not v.op == "const":
            return is_int_object(v) == (cls is int)
        return cls is float or getattr(cls, "__name__", "") in ("Real", "Number")
    if isinstance(v, Fraction):
        return cls is float or getattr(cls, "__name__", "") in ("Real", "Number")
    if isinstance(v, PList):
        return cls is list or getattr(cls, "__name__", "") in ("Sequence", "Iterable", "Collection", "MutableSequence")
    if isinstance(v, PDict):
        return cls is dict or getattr(cls, "__name__", "") in ("Mapping", "Iterable")
    if isinstance(v, PSet):
        return cls is set or getattr(cls, "__name__", "") in ("Set", "Iterable")
    if isinstance(v, Arr):
        return getattr(cls, "__name__", "") == "ndarray"
    if isinstance(v, PIter):
        return getattr(cls, "__name__", "") in ("Iterator", "Iterable", "Generator")
    if isinstance(v, (I.InterpFunction, I.Opaque)):
        return getattr(cls, "__name__", "") in ("Callable", "function")
    if getattr(v, "__model__", False) and hasattr(v, "model_isinstance"):
        return v.model_isinstance(cls)
    try:
        return isinstance(v, cls)
    except TypeError as e:
        raise InterpRaise(e)


def b_int(x=0, *a):
    x = I.norm_num(x)
    if isinstance(x, T):
        if x.sort == "I":
            return x
        if x.sort == "B":
            return tm.ite(x, 1, 0)
        s = ctx()
        if s.settle(tm.le(0, x)) is True:
            return tm.floor(x)
        return tm.ite(tm.le(tm.rconst(0), x), tm.floor(x), tm.neg(tm.floor(tm.neg(x))))
    try:
        return int(x, *a) if isinstance(x, str) else int(x)
    except Exception as e:
        raise InterpRaise(e)


def b_float(x=0):
    x = I.norm_num(x) if not isinstance(x, str) else x
    if isinstance(x, T):
        return tm.toreal(x)
    try:
        f = float(x) if isinstance(x, str) else x
    except Exception as e:
        raise InterpRaise(e)
    if isinstance(f, float):
        return f if math.isinf(f) or math.isnan(f) else Fraction(f)
    if f is None:
        raise InterpRaise(TypeError("float() argument"))
    return Fraction(f)


def b_bool(x=False):
    if isinstance(x, T):
        return tm.boolterm(x)
    return truth(x)


def b_map(f, *its):
    if len(its) == 1:
        return PIter(C.map_nodes(to_nodes(its[0]), lambda v: call(f, [v])))
    return PIter(C.map_nodes(zip_nodes(its), lambda v: call(f, list(v))))


def b_filter(f, it):
    return PIter(C.expand(to_nodes(it), lambda v: (Item(v),) if truth(call(f, [v]) if f is not None else v) else ()))


def b_getattr(o, name, *d):
    return I.getattr_(o, name, *(d or (MISSING,)))


def b_hasattr(o, name):
    try:
        r = I.getattr_(o, name, MISSING)
    except InterpRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise
    return True


def b_type(x):
    if isinstance(x, PList):
        return list
    if isinstance(x, PDict):
        return dict
    if isinstance(x, PSet):
        return set
    if isinstance(x, T):
        if x.sort == "R" and x.op != "const" and is_int_object(x):
            return int
        return {"I": int, "R": float, "B": bool}[x.sort]
    if isinstance(x, Fraction):
        return float
    return type(x)


def b_round(x, nd=None):
    x = I.norm_num(x)
    if isinstance(x, T):
        if x.sort == "I":
            return x
        raise tm.Unsupported("round of a symbolic value")
    return round(x, nd) if nd is not None else round(x)


def b_pow(a, b, *m):
    return binop("pow", a, b)


def b_divmod(a, b):
    return (binop("floordiv", a, b), binop("mod", a, b))


def b_str(x=""):
    return I.pystr(x)


def copy_value(v, deep, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PList):
        r = PList(())
        memo[id(v)] = r
        r.nodes = copy_nodes(v.nodes, memo) if deep else v.nodes
        return r
    if isinstance(v, PDict):
        r = PDict((), default=v.default)
        memo[id(v)] = r
        r.nodes = copy_nodes(v.nodes, memo) if deep else v.nodes
        return r
    if isinstance(v, PSet):
        return PSet(v.nodes)
    if type(v) is tuple and deep:
        return tuple(copy_value(x, deep, memo) for x in v)
    if type(v) is list:
        return PList.of([copy_value(x, deep, memo) if deep else x for x in v])
    if is_repo_instance(v):
        o = object.__new__(type(v))
        memo[id(v)] = o
        object.__setattr__(o, "__dict__", VDict({k: (copy_value(x, deep, memo) if deep else x) for k, x in v.__dict__.items()}))
        return o
    if isinstance(v, Arr):
        return Arr(v.shape, v.get)
    return v


def copy_nodes(nodes, memo):
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(Item(copy_value(n.v, True, memo)))
        else:
            out.append(n)   # elements of symbolic collections are immutable here
    return tuple(out)


def m_isclose(a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
    a, b = I.norm_num(a), I.norm_num(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return math.isclose(a, b, rel_tol=float(rel_tol), abs_tol=float(abs_tol))
    d = tm.absval(tm.sub(a, b))
    return tm.or_(tm.le(d, tm.mul(rel_tol, tm.tmax(tm.absval(tm.lift(a)), tm.absval(tm.lift(b))))), tm.le(d, tm.lift(I.norm_num(abs_tol))))


def it_product(*its, repeat=1):
    its = list(its) * repeat
    nss = [to_nodes(x) for x in its]

    def go(i, acc):
        if i == len(nss):
            return (Item(acc),)
        return C.expand(nss[i], lambda v: go(i + 1, acc + (v,)))

    return PIter(go(0, ()))


def it_chain(*its):
    out = ()
    for x in its:
        out += to_nodes(x)
    return PIter(out)


def it_from_iterable(it):
    return PIter(C.expand(to_nodes(it), lambda v: to_nodes(v)))


def it_native(f):
    def g(it, *a, **k):
        return PIter(tuple(Item(x) for x in f(iter_values(it), *a, **k)))
    return g


def it_pairwise(it):
    ns = to_nodes(it)
    l = PList(ns)
    return b_zip(l.slice(slice(None, -1)), l.slice(slice(1, None)))


def it_repeat(v, n):
    return PIter(I.repeat(PList.of([v]), n).nodes)


def f_reduce(f, it, *init):
    if f is operator.mul and init:
        return m_prod(it, init[0])
    vals = iter_values(it)
    if init:
        r = init[0]
    else:
        if not vals:
            raise InterpRaise(TypeError("reduce() of empty sequence"))
        r, vals = vals[0], vals[1:]
    for v in vals:
        r = call(f, [r, v])
    return r


def m_hypot(*a):
    return I.sym_sqrt(tm.add(*[tm.mul(tm.lift(I.norm_num(x)), tm.lift(I.norm_num(x))) for x in a]))


def m_floor(x):
    x = I.norm_num(x)
    return tm.floor(x) if isinstance(x, T) else math.floor(x)


def m_ceil(x):
    x = I.norm_num(x)
    return tm.neg(tm.floor(tm.neg(x))) if isinstance(x, T) else math.ceil(x)


def m_prod(it, start=1):
    r = start
    for nd in to_nodes(it):
        if isinstance(nd, Item):
            r = binop("mul", r, nd.v)
        elif isinstance(nd, For) and len(nd.nodes) == 1 and isinstance(nd.nodes[0], Item) and is_scalar(nd.nodes[0].v):
            r = binop("mul", r, tm.sprod(nd.k, nd.n, tm.toreal(tm.lift(I.norm_num(nd.nodes[0].v)))))
        else:
            raise tm.Unsupported("product over a collection of unknown shape")
    return r


def num1(f, g):
    def h(x):
        x = I.norm_num(x)
        if isinstance(x, (T, Fraction, int)) and not isinstance(x, bool):
            r = f(x)
            return C.pyint(r) if isinstance(r, T) and r.op == "const" else r
        return I.native_call(g, [x], {})
    return h


def opfun(name):
    return lambda a, b: binop(name, a, b)


def defaultdict(factory=None, *a, **k):
    d = b_dict(*a, **k)
    d.default = factory
    return d


def install():
    import collections
    import pyomo.environ as pyo
    import numpy as np
    S = STUBS
    S.update({
        builtins.len: b_len, builtins.range: b_range, builtins.sum: b_sum, builtins.abs: b_abs, builtins.min: b_min,
        builtins.max: b_max, builtins.zip: b_zip, builtins.enumerate: b_enumerate, builtins.sorted: b_sorted,
        builtins.reversed: b_reversed, builtins.list: b_list, builtins.tuple: b_tuple, builtins.set: b_set,
        builtins.frozenset: b_set, builtins.dict: b_dict, builtins.any: b_any, builtins.all: b_all, builtins.next: b_next,
        builtins.iter: b_iter, builtins.isinstance: b_isinstance, builtins.int: b_int, builtins.float: b_float,
        builtins.bool: b_bool, builtins.str: b_str, builtins.repr: b_str, builtins.map: b_map, builtins.filter: b_filter,
        builtins.getattr: b_getattr, builtins.hasattr: b_hasattr, builtins.type: b_type, builtins.round: b_round,
        builtins.pow: b_pow, builtins.divmod: b_divmod, builtins.print: lambda *a, **k: None,
        builtins.callable: lambda x: callable(x), builtins.setattr: lambda o, n, v: I.setattr_(o, n, v),
        builtins.format: lambda *a: "<value>", builtins.id: lambda x: id(x),
        copy.deepcopy: lambda v, memo=None: copy_value(v, True, {}), copy.copy: lambda v: copy_value(v, False, {}),
        math.isclose: m_isclose, math.hypot: m_hypot, math.floor: m_floor, math.ceil: m_ceil, math.prod: m_prod,
        math.sqrt: num1(I.sym_sqrt, math.sqrt), math.exp: num1(I.sym_exp, math.exp), math.log: num1(I.sym_log, math.log),
        math.fabs: b_abs, math.fsum: b_sum, math.trunc: b_int,
        itertools.product: it_product, itertools.chain: it_chain, itertools.chain.from_iterable: it_from_iterable,
        dict.fromkeys: lambda it, v=None: PDict(C.map_nodes(to_nodes(it), lambda k: (k, v))), itertools.permutations: it_native(itertools.permutations), itertools.combinations: it_native(itertools.combinations),
        itertools.pairwise: it_pairwise, itertools.repeat: it_repeat, itertools.starmap: lambda f, it: PIter(
            C.map_nodes(to_nodes(it), lambda v: call(f, iter_values(v)))),
        functools.reduce: f_reduce, collections.defaultdict: defaultdict,
        operator.add: opfun("add"), operator.sub: opfun("sub"), operator.mul: opfun("mul"), operator.truediv: opfun("truediv"),
        operator.matmul: opfun("matmul"), operator.neg: lambda a: I.unary(ast.USub, a),
        operator.itemgetter: lambda *ks: Bound(lambda o: I.subscript(o, ks[0]) if len(ks) == 1 else tuple(I.subscript(o, k) for k in ks)),
        operator.attrgetter: lambda k: Bound(lambda o: I.getattr_(o, k)),
        pyo.sqrt: num1(I.sym_sqrt, math.sqrt), pyo.exp: num1(I.sym_exp, math.exp), pyo.log: num1(I.sym_log, math.log),
        np.sqrt: num1(I.sym_sqrt, math.sqrt), np.exp: num1(I.sym_exp, math.exp), np.log: num1(I.sym_log, math.log),
    })
    try:
        from tqdm import tqdm
        S[tqdm] = lambda it, *a, **k: it
    except ImportError:
        pass
    from . import numpy_model, pyomo_model
    numpy_model.install(S)
    pyomo_model.install(S)
