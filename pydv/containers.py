"""Lists, dictionaries, sets and numpy arrays of the interpreted program.

A container's contents are a tuple of nodes:  Item(v) | For(k, n, nodes) | If(c, nodes) | Rem(nodes)
(Rem only in sets/dicts).  For(k, n, nodes) stands for the nodes with k = 0, 1, ..., n-1 in turn.
"""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import T
from .engine import ctx, InterpRaise, MISSING, Retry, VDict, tick
from .lattice import exists1, solve


class Item:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class For:
    """orig: the same nodes in the order they were listed, when these are in the unspecified order p (a term in k)"""
    __slots__ = ("k", "n", "nodes", "orig", "p")

    def __init__(self, k, n, nodes, orig=None, p=None):
        self.k, self.n, self.nodes = k, n, tuple(nodes)
        self.orig, self.p = orig, p


class If:
    __slots__ = ("c", "nodes")

    def __init__(self, c, nodes):
        self.c, self.nodes = c, tuple(nodes)


class Rem:
    __slots__ = ("nodes",)

    def __init__(self, nodes):
        self.nodes = tuple(nodes)


class Barrier:
    """unknown effect of the earlier iterations of a loop being summarised"""
    __slots__ = ("reads", "check")

    def __init__(self, check):
        self.reads, self.check = [], check


def allitems(nodes):
    return all(isinstance(x, Item) for x in nodes)


def guard(c, nodes):
    c = tm.boolterm(c)
    if c is tm.TRUE:
        return tuple(nodes)
    if c is tm.FALSE or not nodes:
        return ()
    if any(isinstance(x, Rem) for x in nodes):
        return tuple(y for x in nodes for y in ((Rem(guard(c, x.nodes)),) if isinstance(x, Rem) else guard(c, (x,))))
    return (If(c, nodes),)


# ------------------------------------------------------------------ instantiation
def inst(v, m):
    """value with terms substituted (m: {T var: T}); returns v itself when nothing changes"""
    if not m:
        return v
    ids = {k.id for k in m}
    return _inst(v, m, ids)


def _inst(v, m, ids):
    if isinstance(v, T):
        return tm.subst(v, m) if tm.fv(v) & ids else v
    if v is None or isinstance(v, (int, str, float, Fraction, bytes)):
        return v
    if type(v) is tuple:
        w = tuple(_inst(x, m, ids) for x in v)
        return v if all(a is b for a, b in zip(v, w)) else w
    if isinstance(v, slice):
        return slice(_inst(v.start, m, ids), _inst(v.stop, m, ids), _inst(v.step, m, ids))
    f = getattr(v, "__inst__", None)
    if f is not None:
        return f(m, ids)
    if type(v) is list:
        w = [_inst(x, m, ids) for x in v]
        return v if all(a is b for a, b in zip(v, w)) else w
    d = getattr(v, "__dict__", None)
    if d is not None and is_repo_instance(v):
        w = {k: _inst(x, m, ids) for k, x in d.items()}
        if all(w[k] is d[k] for k in d):
            return v
        o = object.__new__(type(v))
        object.__setattr__(o, "__dict__", VDict(w))
        o.__dict__.frozen = True
        return o
    return v


REPO_MODULES = ("tvemoves_rufbad",)


def is_repo_class(c):
    return isinstance(c, type) and c.__module__.split(".")[0] in REPO_MODULES


def is_repo_instance(v):
    return is_repo_class(type(v))


def inst_nodes(nodes, m, ids=None):
    if ids is None:
        ids = {k.id for k in m}
    out = []
    same = True
    for x in nodes:
        if isinstance(x, Item):
            w = _inst(x.v, m, ids)
            y = x if w is x.v else Item(w)
        elif isinstance(x, For):
            n = _inst(x.n, m, ids)
            sub = inst_nodes(x.nodes, m, ids)
            if n is x.n and sub is x.nodes:
                y = x
            elif x.orig is None:
                y = For(x.k, n, sub)
            else:
                y = For(x.k, n, sub, inst_nodes((x.orig,), m, ids)[0], tm.subst(x.p, m))
        elif isinstance(x, If):
            c = tm.subst(x.c, m)
            sub = inst_nodes(x.nodes, m, ids)
            if c is x.c and sub is x.nodes:
                y = x
            else:
                same = False
                out.extend(guard(c, sub))
                continue
        elif isinstance(x, Rem):
            sub = inst_nodes(x.nodes, m, ids)
            y = x if sub is x.nodes else Rem(sub)
        else:
            y = x
        same = same and y is x
        out.append(y)
    return nodes if same else tuple(out)


# ------------------------------------------------------------------ equality, membership
def is_scalar(v):
    return isinstance(v, (T, int, float, Fraction)) or hasattr(v, "__term__")


EQ_HOOK = {"eq": None}


def eqv(a, b):
    """Python == as bool or term"""
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, float) or isinstance(b, float):
            import math
            for x in (a, b):
                if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                    if isinstance(a, float) and isinstance(b, float):
                        return a == b
                    return False
        r = tm.eq(tm.lift(a), tm.lift(b))
        if r.op == "eq" and r.args[0].sort == tm.I and ctx().lattice is not None:
            x = ctx().lattice.eq(*r.args)
            r = ctx().lattice.lineq(tm.sub(*r.args)) if x is None else x
        return bool(r.args[0]) if r.op == "const" else r
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return conj([eqv(x, y) for x, y in zip(a, b)])
    if is_seq(a) and is_seq(b) and not (type(a) is tuple or type(b) is tuple):
        return eq_lists(a, b)
    if isinstance(a, PSet) and isinstance(b, PSet):
        raise tm.Unsupported("set equality")
    if EQ_HOOK["eq"] is not None:
        return EQ_HOOK["eq"](a, b)
    return a == b


def conj(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    r = tm.and_(*out)
    return bool(r.args[0]) if r.op == "const" else r


def disj(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    r = tm.or_(*out)
    return bool(r.args[0]) if r.op == "const" else r


def is_seq(v):
    return isinstance(v, PList) or type(v) is list


def nodes_of(v):
    if isinstance(v, PList):
        return v.nodes
    if isinstance(v, (list, tuple)):
        return tuple(Item(x) for x in v)
    raise tm.Unsupported(f"not a sequence: {type(v).__name__}")


def eq_lists(a, b):
    na, nb = nodes_of(a), nodes_of(b)
    if allitems(na) and allitems(nb):
        if len(na) != len(nb):
            return False
        return conj([eqv(x.v, y.v) for x, y in zip(na, nb)])
    va, vb = view(na), view(nb)
    c = eqv(va[0], vb[0])
    if c is False:
        return False
    s = ctx()
    s.counter += 1
    k = tm.var(f"%e{s.counter}", tm.I)
    kk = tm.var(f"e!{s.counter}", tm.I)
    fm = s.mark()
    try:
        s.assume(tm.le(0, kk))
        s.assume(tm.lt(kk, va[0]))
        if c is not True:
            s.assume(c)
        body = tm.boolterm(eqv(va[1](kk), vb[1](kk)))
    finally:
        s.cut(fm)
    body = tm.subst(body, {kk: k})
    r = tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, va[0])), body))
    return conj([c, r])


def _bv(name):
    s = ctx()
    s.counter += 1
    return tm.var(f"%{name}{s.counter}", tm.I)


def member(x, nodes):
    """is x == some element: bool or term"""
    m = False
    for nd in nodes:
        if isinstance(nd, Item):
            m = disj([m, eqv(x, nd.v)])
        elif isinstance(nd, If):
            m = disj([m, conj([nd.c if nd.c.op != "const" else bool(nd.c.args[0]), member(x, nd.nodes)])])
        elif isinstance(nd, For):
            nd = nd.orig or nd
            if obvious_member(nd, x):
                return True
            kb = _bv("m")
            s = ctx()
            fm = s.mark()
            try:
                s.assume(tm.le(0, kb)); s.assume(tm.lt(kb, nd.n))
            except tm.SymError:
                s.cut(fm)
                continue
            try:
                b = member(x, inst_nodes(nd.nodes, {nd.k: kb}))
            finally:
                s.cut(fm)
            if s.lattice is not None:
                e = s.lattice.simp(exists1(kb, nd.n, b))
            else:
                e = tm.exists((kb,), tm.and_(tm.le(0, kb), tm.lt(kb, nd.n), tm.boolterm(b)))
            if b is True and e.op == "exists":
                e = tm.lt(0, nd.n)
            m = disj([m, bool(e.args[0]) if e.op == "const" else e])
        elif isinstance(nd, Rem):
            r = member(x, nd.nodes)
            m = conj([m, (not r) if isinstance(r, bool) else tm.not_(r)])
        else:
            raise tm.Unsupported("membership in a partially summarised container")
        if m is True and not any(isinstance(z, Rem) for z in nodes):
            return True
    return m


def obvious_member(nd, x):
    """x is the element of `nd` at a position read off x itself (f(t) among the f(k), k < n, with 0 <= t < n)"""
    if len(nd.nodes) != 1 or not isinstance(nd.nodes[0], Item):
        return False
    pat = nd.nodes[0].v
    t = unify(nd.k, pat, x)
    if t is None or eqv(inst(pat, {nd.k: t}), x) is not True:
        return False
    return ctx().entails(tm.and_(tm.le(0, t), tm.lt(t, nd.n)))


def unify(k, p, q):
    """some t with p[k := t] == q (a candidate: the caller checks it)"""
    if type(p) is tuple and type(q) is tuple:
        if len(p) == len(q):
            for x, y in zip(p, q):
                t = unify(k, x, y)
                if t is not None:
                    return t
        return None
    if not is_scalar(p) or not is_scalar(q):
        return None
    p, q = tm.lift(p), tm.lift(q)
    if p.op == "app" and q.op == "app" and p.args[0] == q.args[0] and len(p.args) == len(q.args):
        for x, y in zip(p.args[1:], q.args[1:]):
            t = unify(k, x, y)
            if t is not None:
                return t
        return None
    return solve_for(k, p, q)


# ------------------------------------------------------------------ length, views
def count(nodes):
    c = tm.const(0)
    for nd in nodes:
        if isinstance(nd, Item):
            c = tm.add(c, 1)
        elif isinstance(nd, If):
            c = tm.add(c, tm.ite(nd.c, count(nd.nodes), 0))
        elif isinstance(nd, For):
            c = tm.add(c, tm.ssum(nd.k, nd.n, count(nd.nodes)))
        else:
            raise tm.Unsupported("length of a partially summarised container")
    return c


def nonempty(nodes):
    """is there an element: bool or term; None when not expressible"""
    r = False
    for nd in nodes:
        if isinstance(nd, Item):
            return True
        if isinstance(nd, If):
            x = nonempty(nd.nodes)
            if x is None:
                return None
            r = disj([r, conj([nd.c if nd.c.op != "const" else bool(nd.c.args[0]), x])])
        elif isinstance(nd, For):
            x = nonempty(nd.nodes)
            if x is None:
                return None
            if x is False:
                continue
            if x is not True and nd.k.id in tm.fv(x) or tm.lift(nd.n).op == "const":
                return None
            r = disj([r, conj([tm.lt(0, nd.n), x])])
        else:
            return None
    return r


def pyint(t):
    t = tm.lift(t)
    return t.args[0] if t.op == "const" else t


def pybool(t):
    t = tm.boolterm(t)
    return bool(t.args[0]) if t.op == "const" else t


def simp_count(t):
    """drop max(0, n) when n >= 0 is known"""
    s = ctx()
    while True:
        hit = None
        for u in tm.subterms([t]):
            if u.op == "ite" and u.args[2].op == "const" and u.args[2].args[0] == 0 and u.args[0].op == "le":
                if s.entails(u.args[0]):
                    hit = (u, u.args[1])
                    break
        if hit is None:
            return t
        t = tm.replace(t, *hit)


def permuted(nd, p):
    """the loop nd in the order p (a permutation applied to any index)"""
    m = _bv("o")
    p = tm.app(p.args[0], list(p.args[1:-1]) + [m], tm.I)
    return For(m, nd.n, inst_nodes(nd.nodes, {nd.k: p}), nd, p)


def same_order(p, q):
    return p.args[0] == q.args[0] and all(x is y for x, y in zip(p.args[1:-1], q.args[1:-1]))


def listed(nodes):
    """the nodes in the order in which they were listed before sets or sorting lost it: for uses that do not depend on the order"""
    out = []
    for nd in nodes:
        if isinstance(nd, For):
            while nd.orig is not None:
                nd = nd.orig
            sub = listed(nd.nodes)
            nd = nd if sub == nd.nodes else For(nd.k, nd.n, sub)
        elif isinstance(nd, If):
            sub = listed(nd.nodes)
            nd = nd if sub == nd.nodes else If(nd.c, sub)
        out.append(nd)
    return tuple(out)


def shuffle(nodes):
    """the nodes with those of each loop in an unspecified order"""
    out = []
    s = ctx()

    def inner(nd):
        if nd.orig is not None:
            o = inner(nd.orig)
            return nd if o is nd.orig else permuted(o, nd.p)
        sub = shuffle(nd.nodes)
        return nd if sub == nd.nodes else For(nd.k, nd.n, sub)

    for nd in nodes:
        if isinstance(nd, For) and not (isinstance(nd.n, int) or nd.n.op == "const" and nd.n.args[0] <= 1):
            s.counter += 1
            nd = inner(nd)
            out.append(permuted(nd, tm.app(f"perm!{s.counter}", list(s.binders) + [tm.lift(nd.n), nd.k], tm.I)))
        elif isinstance(nd, If):
            sub = shuffle(nd.nodes)
            out.append(nd if sub == nd.nodes else If(nd.c, sub))
        else:
            out.append(nd)
    return tuple(out)


def view(nodes):
    """(length, getter) of a sequence"""
    if len(nodes) == 1 and isinstance(nodes[0], For):
        f = nodes[0]
        if len(f.nodes) == 1 and isinstance(f.nodes[0], Item):
            return f.n, lambda i: inst(f.nodes[0].v, {f.k: tm.lift(i)})
    if allitems(nodes):
        return len(nodes), lambda i: _pick([x.v for x in nodes], i)

    n = pyint(simp_count(count(nodes)))

    def get(i):
        return locate(nodes, tm.lift(i))

    return n, get


def _pick(vals, i):
    i = tm.lift(i)
    if i.op == "const":
        return vals[i.args[0]]
    # scalars of the same kind are merged, anything else decided
    if all(is_scalar(v) for v in vals) and len(vals) <= 8:
        r = tm.lift(vals[-1])
        for j in range(len(vals) - 2, -1, -1):
            r = tm.ite(tm.eq(i, j), tm.lift(vals[j]), r)
        return r
    for j in range(len(vals) - 1):
        if ctx().decide(tm.eq(i, j)):
            return vals[j]
    ctx().assume(tm.eq(i, len(vals) - 1))
    return vals[-1]


def locate(nodes, i):
    s = ctx()
    off = tm.const(0)
    for idx, nd in enumerate(nodes):
        last = idx == len(nodes) - 1
        c = simp_count(count((nd,)))
        if last or s.decide(tm.lt(i, tm.add(off, c))):
            j = tm.sub(i, off)
            if isinstance(nd, Item):
                return nd.v
            if isinstance(nd, For):
                if len(nd.nodes) == 1 and isinstance(nd.nodes[0], Item):
                    return inst(nd.nodes[0].v, {nd.k: j})
                ci = count(nd.nodes)
                if nd.k.id in tm.fv(ci):
                    raise tm.Unsupported("index into a ragged list")
                ci = simp_count(ci)
                q, r = s.fresh("q", tm.I), s.fresh("r", tm.I)
                s.define(tm.eq(j, tm.add(tm.mul(q, ci), r)))
                s.define(tm.le(0, r)); s.define(tm.lt(r, ci)); s.define(tm.le(0, q)); s.define(tm.lt(q, nd.n))
                return locate(inst_nodes(nd.nodes, {nd.k: q}), r)
            raise tm.Unsupported("index into a filtered list")
        off = tm.add(off, c)
    raise tm.Unsupported("index into an empty list")


# ------------------------------------------------------------------ containers
class PList:
    __slots__ = ("nodes", "frozen", "birth", "perm", "ghost")

    def __init__(self, nodes=(), frozen=False):
        self.nodes = tuple(nodes)
        self.frozen = frozen
        self.birth = tick()

    @staticmethod
    def of(vals):
        return PList(tuple(Item(v) for v in vals))

    def concrete(self):
        return allitems(self.nodes)

    def vals(self):
        if not self.concrete():
            raise tm.Unsupported("list of symbolic length used as a concrete list")
        return [x.v for x in self.nodes]

    def length(self):
        if self.concrete():
            return len(self.nodes)
        return pyint(simp_count(count(self.nodes)))

    def __inst__(self, m, ids):
        n = inst_nodes(self.nodes, m, ids)
        return self if n is self.nodes else PList(n, True)

    def set(self, nodes):
        if self.frozen:
            raise tm.Unsupported("mutation of a list inside a symbolic collection")
        ctx().put(self, "nodes", tuple(nodes))

    def index(self, i):
        n = self.length()
        i = norm_index(i, n, "list index out of range")
        if self.concrete() and isinstance(i, int):
            return self.nodes[i].v
        return view(self.nodes)[1](i)

    def slice(self, sl):
        n = self.length()
        if self.concrete() and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
            return PList(self.nodes[sl])
        if sl.step not in (None, 1, -1):
            raise tm.Unsupported("slice step")
        g = view(self.nodes)[1]
        if sl.step == -1:
            # elements a, a-1, ..., b+1
            if any(x is not None and not isinstance(x, int) for x in (sl.start, sl.stop)):
                raise tm.Unsupported("slice step")
            last = tm.sub(n, 1)
            a = last if sl.start is None else tm.sub(clamp(tm.add(sl.start, 1) if sl.start != -1 else n, n), 1)
            b = tm.const(-1) if sl.stop is None else tm.sub(clamp(tm.add(sl.stop, 1) if sl.stop != -1 else n, n), 1)
            at, ln = (lambda k: tm.sub(a, k)), tm.sub(a, b)
        else:
            a = clamp(0 if sl.start is None else sl.start, n)
            b = clamp(n if sl.stop is None else sl.stop, n)
            at, ln = (lambda k: tm.add(a, k)), tm.sub(b, a)
        if ctx().decide(tm.le(ln, 0)):
            return PList(())
        if tm.lift(ln).op == "const":
            return PList.of([g(at(j)) for j in range(tm.lift(ln).args[0])])
        c = ctx()
        with c.bind(ln) as k:
            v = g(at(k))
        return PList((For(k, ln, (Item(v),)),))

    def __repr__(self):
        if self.concrete():
            return repr(self.vals())
        return f"<list {shownodes(self.nodes)}>"


def showv(v):
    if type(v) is tuple:
        return "(" + ", ".join(showv(x) for x in v) + ")"
    if is_repo_instance(v):
        return type(v).__name__ + "{" + ", ".join(f"{k}={showv(x)}" for k, x in v.__dict__.items()) + "}"
    return repr(v)


def shownodes(nodes):
    out = []
    for x in nodes:
        if isinstance(x, Item):
            out.append(showv(x.v))
        elif isinstance(x, For):
            out.append(f"for {x.k}<{x.n}: {shownodes(x.nodes)}")
        elif isinstance(x, If):
            out.append(f"if {x.c}: {shownodes(x.nodes)}")
        elif isinstance(x, Rem):
            out.append(f"remove {shownodes(x.nodes)}")
        else:
            out.append("?")
    return "[" + "; ".join(out) + "]"


def clamp(i, n):
    """slice bound: python semantics"""
    if isinstance(i, int) and isinstance(n, int):
        return max(0, min(n, i if i >= 0 else i + n))
    i, n = tm.lift(i), tm.lift(n)
    s = ctx()
    if s.decide(tm.lt(i, 0)):
        i = tm.add(i, n)
        if s.decide(tm.lt(i, 0)):
            return tm.const(0)
    if s.decide(tm.le(i, n)):
        return i
    return n


def norm_index(i, n, msg):
    if hasattr(i, "__term__"):
        i = i.__term__()
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise InterpRaise(IndexError(msg))
        return i if i >= 0 else i + n
    i = tm.lift(i)
    if i.sort != tm.I:
        raise InterpRaise(TypeError("list indices must be integers"))
    n = tm.lift(n)
    s = ctx()
    if s.decide(tm.lt(i, 0)):
        i = tm.add(i, n)
        if s.decide(tm.lt(i, 0)):
            raise InterpRaise(IndexError(msg))
        return pyint(i)
    if s.decide(tm.le(n, i)):
        raise InterpRaise(IndexError(msg))
    return pyint(i)


class PSet:
    __slots__ = ("nodes", "frozen", "birth", "perm")

    def __init__(self, nodes=(), frozen=False):
        self.nodes = tuple(nodes)
        self.frozen = frozen
        self.birth = tick()

    def __inst__(self, m, ids):
        n = inst_nodes(self.nodes, m, ids)
        return self if n is self.nodes else PSet(n, True)

    def set(self, nodes):
        if self.frozen:
            raise tm.Unsupported("mutation of a set inside a symbolic collection")
        ctx().put(self, "nodes", tuple(nodes))

    def elements(self):
        """nodes listing every element exactly once (order unspecified)"""
        out = []
        nodes = self.nodes
        for i, nd in enumerate(nodes):
            if isinstance(nd, Rem):
                continue
            out.extend(self._uniq(nd, nodes[:i], nodes[i + 1:], []))
        return tuple(out)

    def _uniq(self, nd, before, after, outer):
        s = ctx()
        if isinstance(nd, Item):
            # v is present at the end and listed by no earlier node
            conds = []
            # earlier nodes followed by later ones: is v in `before` already (and not removed in between)?
            mb = member(nd.v, before)
            conds.append((not mb) if isinstance(mb, bool) else tm.not_(mb))
            # removed later (and not re-added, in which case the later node lists it)
            m = True
            for a in after:
                if isinstance(a, Rem):
                    r = member(nd.v, a.nodes)
                    m = conj([m, (not r) if isinstance(r, bool) else tm.not_(r)])
            conds.append(m)
            # earlier iterations of the enclosing loops
            for (k, n, tmpl, ren) in outer:
                conds.append(tm.not_(tm.boolterm(member(nd.v, tmpl))))
            c = tm.boolterm(conj(conds))
            if c is not tm.TRUE:
                parts = c.args if c.op == "and" else (c,)
                parts = [p for p in parts if s.settle(p) is not True]
                if any(s.settle(p) is False for p in parts):
                    return ()
                c = tm.and_(*parts)
            return guard(c, (nd,))
        if isinstance(nd, If):
            fm = s.mark()
            try:
                s.assume(nd.c)
                sub = []
                for i, x in enumerate(nd.nodes):
                    sub.extend(self._uniq(x, before + nd.nodes[:i], after, outer))
            finally:
                s.cut(fm)
            return guard(nd.c, sub)
        if isinstance(nd, For) and nd.orig is not None:
            # which occurrence is the one listed does not matter when the order is unspecified
            r = self._uniq(nd.orig, before, after, outer)
            return tuple(permuted(x, nd.p) for x in r)
        if isinstance(nd, For):
            with s.bind(nd.n) as k:
                body = inst_nodes(nd.nodes, {nd.k: k})
                # what earlier iterations listed: For j < k
                j = tm.var(f"%u{s.counter}", tm.I)
                earlier = (For(j, k, inst_nodes(nd.nodes, {nd.k: j})),)
                sub = []
                for i, x in enumerate(body):
                    sub.extend(self._uniq(x, before + tuple(body[:i]), after, outer + [(k, nd.n, earlier, None)]))
            return (For(k, nd.n, tuple(sub)),) if sub else ()
        raise tm.Unsupported("set iteration")

    def length(self):
        e = self.elements()
        if allitems(e):
            return len(e)
        return pyint(simp_count(count(e)))

    def __repr__(self):
        return f"<set {shownodes(self.nodes)}>"


class PDict:
    """write history; an Item holds (key, value), Rem holds removed keys"""
    __slots__ = ("nodes", "frozen", "default", "birth")

    def __init__(self, nodes=(), frozen=False, default=None):
        self.nodes = tuple(nodes)
        self.frozen = frozen
        self.birth = tick()
        self.default = default

    def __inst__(self, m, ids):
        n = inst_nodes(self.nodes, m, ids)
        return self if n is self.nodes else PDict(n, True, self.default)

    def set(self, nodes):
        if self.frozen:
            raise tm.Unsupported("mutation of a dict inside a symbolic collection")
        ctx().put(self, "nodes", tuple(nodes))

    def keynodes(self):
        return keys_only(self.nodes)

    def contains(self, key):
        return member(key, self.keynodes())

    def store(self, key, val):
        nodes = self.nodes
        if nodes and isinstance(nodes[-1], Item):
            # keep concrete dictionaries compact
            for i in range(len(nodes) - 1, -1, -1):
                if not isinstance(nodes[i], Item):
                    break
                e = eqv(nodes[i].v[0], key)
                if e is True:
                    self.set(nodes[:i] + (Item((nodes[i].v[0], val)),) + nodes[i + 1:])
                    return
                if e is not False:
                    break
        self.set(nodes + (Item((key, val)),))

    def lookup(self, key):
        v = find_last(self.nodes, key)
        if v is MISSING:
            if self.default is not None:
                from .interp import call
                v = call(self.default, [], {})
                self.store(key, v)
                return v
            raise InterpRaise(KeyError(key))
        return v

    def keyset(self):
        return PSet(self.keynodes())

    def items_nodes(self):
        if allitems(self.nodes):
            out = []
            for x in self.nodes:
                k, v = x.v
                hit = False
                for i, (k2, _) in enumerate(out):
                    e = eqv(k, k2)
                    if not isinstance(e, bool):
                        e = ctx().decide(e)
                    if e:
                        out[i] = (k2, v)
                        hit = True
                        break
                if not hit:
                    out.append((k, v))
            return tuple(Item(p) for p in out)
        return map_nodes(self.keyset().elements(), lambda k: (k, self.lookup(k)))

    def length(self):
        n = self.items_nodes() if allitems(self.nodes) else self.keyset().elements()
        if allitems(n):
            return len(n)
        return pyint(simp_count(count(n)))

    def __repr__(self):
        return f"<dict {shownodes(self.nodes)}>"


def keys_only(nodes):
    out = []
    for x in nodes:
        if isinstance(x, Item):
            out.append(Item(x.v[0]))
        elif isinstance(x, For):
            out.append(For(x.k, x.n, keys_only(x.nodes), None if x.orig is None else keys_only((x.orig,))[0], x.p))
        elif isinstance(x, If):
            out.append(If(x.c, keys_only(x.nodes)))
        elif isinstance(x, Barrier):
            out.append(x)
        else:
            out.append(x)
    return tuple(out)


def solve_for(k, pattern, key):
    """k with pattern(k) == key, when syntactically unique; None otherwise"""
    if type(pattern) is tuple and type(key) is tuple and len(pattern) == len(key):
        for p, q in zip(pattern, key):
            r = solve_for(k, p, q)
            if r is not None:
                return r
        return None
    if not is_scalar(pattern) or not is_scalar(key):
        return None
    p, q = tm.lift(pattern), tm.lift(key)
    if p is k:
        return q
    if k.id not in tm.fv(p):
        return None
    if tm.is_perm(p) and not any(k.id in tm.fv(a) for a in p.args[1:-1]):
        f = p.args[0]
        return solve_for(k, p.args[-1], tm.app(f[:-3] if f.endswith("^-1") else f + "^-1", list(p.args[1:-1]) + [q], tm.I))
    if p.op == "app" and q.op == "app" and p.args[0] == q.args[0] and p.args[0] in ctx().injective:
        return solve_for(k, p.args[1], q.args[1])
    if p.op == "add":
        rest, coef = [], 0
        for a in p.args:
            if a is k:
                coef += 1
            elif a.op == "mul" and len(a.args) == 2 and a.args[0].op == "const" and a.args[1] is k:
                coef += a.args[0].args[0]
            elif k.id in tm.fv(a):
                return None
            else:
                rest.append(a)
        if coef == 1:
            return tm.sub(q, tm.add(*rest))
        if coef == -1:
            return tm.sub(tm.add(*rest), q)
        return None
    if p.op == "mul" and len(p.args) == 2 and p.args[0].op == "const" and p.args[0].args[0] == -1 and p.args[1] is k:
        return tm.neg(q)
    return None


def find_last(nodes, key):
    """value of the last write to key in a write history (decides as needed); MISSING"""
    s = ctx()
    for nd in reversed(nodes):
        if isinstance(nd, Item):
            e = eqv(nd.v[0], key)
            if e is True or (e is not False and s.decide(e)):
                return nd.v[1]
        elif isinstance(nd, If):
            m = member(key, keys_only(nd.nodes))
            c = conj([nd.c, m])
            if c is True or (c is not False and s.decide(c)):
                return find_last(nd.nodes, key)
        elif isinstance(nd, For):
            v = _find_for(nd, key)
            if v is not MISSING:
                return v
        elif isinstance(nd, Rem):
            m = member(key, nd.nodes)
            if m is True or (m is not False and s.decide(m)):
                return MISSING
        elif isinstance(nd, Barrier):
            nd.reads.append((key, list(s.facts)))
            if not nd.check(key):
                raise tm.Unsupported("loop-carried dictionary entry")
    return MISSING


def common_solution(nd, key):
    """t such that every write of this loop to `key` happens in iteration t; None when not syntactically evident"""
    sols = []

    def walk(ns):
        for x in ns:
            if isinstance(x, Item):
                kp = x.v[0]
                t = solve_for(nd.k, kp, key)
                if t is None:
                    if type(kp) is tuple and type(key) is tuple and len(kp) == len(key) and \
                            any(eqv(a, b) is False for a, b in zip(kp, key)):
                        continue
                    return False
                sols.append(t)
            elif isinstance(x, (For, If)):
                if not walk(x.nodes):
                    return False
            else:
                return False
        return True

    if not walk(nd.nodes) or not sols or any(t is not sols[0] for t in sols):
        return None
    return sols[0]


def _find_for(nd, key):
    s = ctx()
    perm, nd = nd, nd.orig or nd      # where one iteration at most writes to key the order does not matter
    if s.lattice is not None:
        leaf, gs = nd.nodes, []
        while len(leaf) == 1 and isinstance(leaf[0], If):
            gs.append(leaf[0].c)
            leaf = leaf[0].nodes
        if len(leaf) == 1 and isinstance(leaf[0], Item):
            kb = _bv("f")
            kp, val = leaf[0].v
            fm = s.mark()
            try:
                s.assume(tm.le(0, kb)); s.assume(tm.lt(kb, nd.n))
                e = tm.boolterm(eqv(inst(kp, {nd.k: kb}), key))
            finally:
                s.cut(fm)
            parts = e.args if e.op == "and" else (e,)
            for x in parts:
                t = solve(kb, x)
                if t is None:
                    continue
                c = tm.and_(tm.le(0, t), tm.lt(t, nd.n), *[tm.subst(g, {nd.k: t}) for g in gs],
                            *[tm.subst(y, {kb: t}) for y in parts if y is not x])
                return inst(val, {nd.k: t}) if s.decide(c) else MISSING
    # try a syntactic solution
    if len(nd.nodes) == 1 and isinstance(nd.nodes[0], Item):
        it = nd.nodes[0]
        k = solve_for(nd.k, it.v[0], key)
        if k is not None:
            e = eqv(inst(it.v[0], {nd.k: k}), key)
            c = conj([tm.le(0, k), tm.lt(k, nd.n), e])
            if c is True or (c is not False and s.decide(c)):
                return inst(it.v[1], {nd.k: k})
            return MISSING
    t = common_solution(nd, key)
    if t is not None:
        if not s.decide(tm.and_(tm.le(0, t), tm.lt(t, nd.n))):
            return MISSING
        return find_last(inst_nodes(nd.nodes, {nd.k: t}), key)
    nd = perm
    m = member(key, (For(nd.k, nd.n, keys_only(nd.nodes)),))
    if m is False or (m is not True and not s.decide(m)):
        return MISSING
    k = s.fresh("at", tm.I)
    s.define(tm.le(0, k)); s.define(tm.lt(k, nd.n))
    sub = inst_nodes(nd.nodes, {nd.k: k})
    s.define(tm.boolterm(member(key, keys_only(sub))))
    j = _bv("l")
    later = member(key, keys_only(inst_nodes(nd.nodes, {nd.k: j})))
    s.define(tm.forall((j,), tm.implies(tm.and_(tm.lt(k, j), tm.lt(j, nd.n)), tm.not_(tm.boolterm(later)))))
    return find_last(sub, key)


# ------------------------------------------------------------------ generic traversal
def merge_values(paths):
    """paths: [(cond, value)] exhaustive and exclusive -> nodes"""
    if len(paths) == 1:
        return (Item(paths[0][1]),)
    if all(is_scalar(v) for _, v in paths):
        r = tm.lift(paths[-1][1])
        for c, v in reversed(paths[:-1]):
            r = tm.ite(c, tm.lift(v), r)
        return (Item(r),)
    if all(type(v) is tuple and all(is_scalar(x) for x in v) for _, v in paths) and len({len(v) for _, v in paths}) == 1:
        out = []
        for j in range(len(paths[0][1])):
            r = tm.lift(paths[-1][1][j])
            for c, v in reversed(paths[:-1]):
                r = tm.ite(c, tm.lift(v[j]), r)
            out.append(r)
        return (Item(tuple(out)),)
    out = []
    for c, v in paths:
        out.extend(guard(c, (Item(v),)))
    return tuple(out)


def map_nodes(nodes, fn):
    """nodes with fn applied to every element (fn may decide; it must not have side effects)"""
    return expand(nodes, lambda v: (Item(fn(v)),))


def expand(nodes, fn):
    """nodes with every element v replaced by the nodes fn(v)"""
    s = ctx()
    out = []
    for nd in nodes:
        if isinstance(nd, Item):
            out.extend(fn(nd.v))
        elif isinstance(nd, If):
            out.extend(branch(nd.c, lambda: expand(nd.nodes, fn)))
        elif isinstance(nd, For):
            out.extend(over(nd, fn))
        else:
            raise tm.Unsupported("iteration over a partially summarised container")
    return tuple(out)


def branch(c, thunk):
    s = ctx()

    def run():
        s.assume(c)
        return thunk()

    return guard(c, collect(pure(s.explore(run, keep_effects=True)), s.mark(), extra=c))


def pure(paths):
    for p in paths:
        if p.effects:
            raise tm.SideEffect(f"side effect on {sorted({str(k[1]) for k in p.effects})} while mapping over a collection")
    return paths


def over(nd, fn):
    if nd.orig is not None:
        r = over(nd.orig, fn)
        return (permuted(r[0], nd.p),) if r else ()
    s = ctx()
    n = nd.n
    if s.settle(tm.le(n, 0)) is True:
        return ()
    with s.bind(n) as k:
        body = inst_nodes(nd.nodes, {nd.k: k})
        paths = pure(s.explore(lambda: expand(body, fn), keep_effects=True))
        nodes = collect(paths, s.mark(), binder=(k, n))
    return (For(k, n, nodes),) if nodes else ()


def collect(paths, mark, extra=None, binder=None):
    """merge the paths of a nested exploration into nodes; paths that raise are decided outside"""
    s = ctx()
    bad = [p for p in paths if p.kind == "raise"]
    good = [p for p in paths if p.kind == "ok"]
    if bad:
        raise_out(bad, binder, extra)
    learn_defs(good, binder)
    if not good:
        return ()
    if len(good) == 1:
        return good[0].value
    if all(len(p.value) == 1 and isinstance(p.value[0], Item) for p in good):
        return merge_values([(p.pc, p.value[0].v) for p in good])
    out = []
    for p in good:
        out.extend(guard(p.pc, p.value))
    return tuple(out)


def learn_defs(paths, binder):
    s = ctx()
    for p in paths:
        ds = p.defs
        if not ds:
            continue
        f = tm.implies(p.pc, tm.and_(*ds))
        if binder is not None:
            k, n = binder
            if k.id in tm.fv(f):
                kb = _bv("d")
                f = tm.forall((kb,), tm.subst(tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n)), f), {k: kb}))
            for g in (f.args if f.op == "and" else (f,)):
                s.defids.add(g.id)
            insert_facts([f], k)
        else:
            s.define(f)


def raise_out(bad, binder, extra=None):
    """some element of a symbolic traversal may raise: decide, outside the binder, whether one does"""
    s = ctx()
    cond = tm.or_(*[p.pc for p in bad])
    if binder is not None:
        k, n = binder
        if any(b is k for b in s.binders):
            # leave the binder: drop facts mentioning k
            s.drop_binder(k)
            dropped = []
            keep = []
            for f in s.facts:
                (dropped if k.id in tm.fv(f) else keep).append(f)
            # temporarily restrict facts
            snapshot = list(s.facts)
            s.facts = keep
            s.fids = {f.id for f in keep}
            kb = _bv("x")
            ex = tm.exists((kb,), tm.subst(tm.and_(tm.le(0, k), tm.lt(k, n), cond), {k: kb}))
            if s.decide(ex):
                w = s.fresh("w", tm.I)
                s.assume(tm.subst(tm.and_(tm.le(0, k), tm.lt(k, n), cond), {k: w}))
                exc = bad[0].value
                raise InterpRaise(exc)
            learnt = s.facts[len(keep):]
            s.binders.append(k)
            s.facts = keep
            s.fids = {f.id for f in keep}
            # keep what was learnt *below* the local facts so that leaving the binder keeps it
            s.pending_learn = learnt
            s.facts = snapshot
            s.fids = {f.id for f in snapshot}
            insert_facts(learnt, k)
            return
    if extra is not None:
        cond = tm.and_(extra, cond)
    if s.decide(cond):
        raise InterpRaise(bad[0].value)


def insert_facts(fs, k):
    """add facts that do not mention k before the first fact about k"""
    s = ctx()
    pos = next((i for i, f in enumerate(s.facts) if k.id in tm.fv(f)), len(s.facts))
    for f in fs:
        if f.id not in s.fids:
            s.facts.insert(pos, f)
            s.fids.add(f.id)
            pos += 1


# ------------------------------------------------------------------ numpy arrays
class Arr:
    """numpy array: shape (tuple of int/terms) and an element function"""

    def __init__(self, shape, get, src=None):
        self.shape = tuple(shape)
        self.get = get
        self.src = src
        self.shared = False     # a view of another array, or an array with views: not written to

    def __inst__(self, m, ids):
        r = Arr(tuple(_inst(x, m, ids) for x in self.shape), lambda *ix, g=self.get: inst(g(*ix), m))
        r.shared = self.shared
        return r

    def __repr__(self):
        return f"<array shape={self.shape}>"
