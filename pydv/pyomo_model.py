"""Model of the part of Pyomo the repository uses (assumed contracts; see DESIGN.md, "Pyomo").

A component's entries are the terms pyo!<id>(index); expressions over them stay symbolic ("live").  Current values, bounds and
the fixed flags are write histories (PDict); `evaluate` replaces parameters by their current values.
"""
from __future__ import annotations
from contextlib import contextmanager
import pyomo.environ as pyo
from . import terms as tm
from .terms import T
from .engine import ctx, InterpRaise, MISSING, VDict
from . import containers as C
from .containers import PList, PDict, Arr, Item, For, If, is_scalar, eqv, member, inst
from . import interp as I
from .interp import Bound, call, truth

ASSUMED = ("Pyomo: Param/Var/Set/RangeSet/Constraint/Objective as modelled in pyomo_model.py (mutable parameters are live in expressions "
           "and bounds, assigning an expression to an entry stores its current value, fixed variables are not changed by a solver)")


def note():
    ctx().assumptions.add(ASSUMED)


def fresh_id(what):
    s = ctx()
    s.counter += 1
    return f"{what}{s.counter}"


REG: dict = {}      # symbol -> component


# ------------------------------------------------------------------ sets
class SetM:
    __model__ = True

    def __init__(self, nodes, contains=None, arity=1):
        self._nodes, self._contains, self.arity = nodes, contains, arity

    def iter_nodes(self):
        return self._nodes() if callable(self._nodes) else self._nodes

    def model_contains(self, x):
        if isinstance(x, Elem):
            x = x.__term__()
        if self._contains is not None:
            return self._contains(x)
        return member(x, self.iter_nodes())

    def model_len(self):
        ns = self.iter_nodes()
        return C.pyint(C.simp_count(C.count(ns)))

    def model_truth(self):
        return truth(self.model_len() if isinstance(self.model_len(), int) else tm.lt(0, self.model_len()))

    def __mul__(self, o):
        if not isinstance(o, SetM):
            raise InterpRaise(TypeError("set product"))
        return product(self, o)

    cross = __mul__

    def construct(self, model, name):
        pass

    def model_getitem(self, i):       # RangeSet/Set are 1-based when indexed
        n = self.model_len()
        return C.view(self.iter_nodes())[1](tm.sub(C.norm_index(tm.sub(i, 1), n, "set index out of range"), 0))

    def data(self):
        return PList(self.iter_nodes())

    def first(self):
        return self.model_getitem(1)


def tup(x):
    return x if type(x) is tuple else (x,)


def product(a, b):
    def nodes():
        return C.expand(a.iter_nodes(), lambda x: C.expand(b.iter_nodes(), lambda y: (Item(tup(x) + tup(y)),)))

    def contains(x):
        if type(x) is not tuple or len(x) != a.arity + b.arity:
            return False
        xa, xb = x[:a.arity], x[a.arity:]
        return C.conj([a.model_contains(xa[0] if a.arity == 1 else xa), b.model_contains(xb[0] if b.arity == 1 else xb)])

    return SetM(nodes, contains, a.arity + b.arity)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, T) and x.sort == "I")


def mk_set(*a, initialize=None, dimen=None, **k):
    note()
    if a or set(k) - {"ordered", "name", "doc", "within", "domain"}:
        raise tm.Unsupported("pyo.Set arguments")
    ns = I.to_nodes(initialize) if initialize is not None else ()
    cont = None
    if len(ns) == 1 and isinstance(ns[0], For) and len(ns[0].nodes) == 1 and isinstance(ns[0].nodes[0], Item):
        f = ns[0]
        v = f.nodes[0].v
        if isinstance(v, T) and v is f.k:
            cont = lambda x: C.conj([C.pybool(tm.le(0, x)), C.pybool(tm.lt(x, f.n))]) if is_int(x) else False
    return SetM(ns, cont)


def mk_rangeset(*a, **k):
    note()
    if set(k) - {"name", "doc"} or not 1 <= len(a) <= 2:
        raise tm.Unsupported("pyo.RangeSet arguments")
    a = [I.norm_num(x) for x in a]
    lo, hi = (1, a[0]) if len(a) == 1 else a

    def contains(x):
        if isinstance(x, tuple):
            return False
        return C.conj([C.pybool(tm.le(lo, x)), C.pybool(tm.le(x, hi))]) if is_int(x) else False

    return SetM(I.PRange(lo, tm.add(hi, 1)).nodes, contains)


# ------------------------------------------------------------------ entries
class Elem:
    """entry of a parameter or variable"""
    __model__ = True

    def __init__(self, comp, idx):
        self.comp, self.idx = comp, idx

    def __term__(self):
        return tm.app(self.comp.sym, [tm.lift(i) for i in self.idx], tm.R)

    def __inst__(self, m, ids):
        j = C._inst(self.idx, m, ids)
        return self if j is self.idx else Elem(self.comp, j)

    def key(self):
        return self.idx

    @property
    def value(self):
        return self.comp.value_at(self.idx)

    def __call__(self, *a, **k):
        return self.value

    def index(self):
        return self.idx[0] if len(self.idx) == 1 else self.idx

    def set_value(self, v, skip_validation=False):
        self.comp.set_at(self.idx, v)

    def fix(self, *v, **k):
        v = list(v) + [k[x] for x in ("value",) if x in k]
        if not self.comp.var:
            raise InterpRaise(AttributeError("fix"))
        if v:
            self.comp.set_at(self.idx, v[0])
        self.comp.fixed.store(self.idx, True)

    def unfix(self):
        self.comp.fixed.store(self.idx, False)

    free = unfix

    @property
    def fixed(self):
        return self.comp.fixed_at(self.idx)

    is_fixed = lambda self: self.comp.fixed_at(self.idx)

    def setlb(self, v):
        self.comp.need_var()
        self.comp.lbs.store(self.idx, bnd(v))

    def setub(self, v):
        self.comp.need_var()
        self.comp.ubs.store(self.idx, bnd(v))

    @property
    def lb(self):
        return self.comp.bound_at("lb", self.idx)

    @property
    def ub(self):
        return self.comp.bound_at("ub", self.idx)

    @property
    def bounds(self):
        return (self.lb, self.ub)

    def model_setattr(self, name, v):
        if name == "value":
            self.comp.set_at(self.idx, v)
        elif name == "bounds":
            if v is None:
                v = (None, None)
            lo, hi = I.unpack(v, 2)
            self.setlb(lo)
            self.setub(hi)
        elif name in ("lb", "lower"):
            self.setlb(v)
        elif name in ("ub", "upper"):
            self.setub(v)
        elif name == "fixed":
            self.comp.need_var()
            self.comp.fixed.store(self.idx, v)
        else:
            raise tm.Unsupported(f"entry attribute {name}")


def bnd(v):
    if v is None:
        return None
    t = I.norm_num(v)
    if isinstance(t, float):
        return None            # infinite
    t = tm.toreal(tm.lift(t))
    for u in tm.subterms([t]):
        if u.op == "app" and u.args[0].startswith("pyo!") and REG[u.args[0]].var:
            raise InterpRaise(ValueError("variable bounds must not depend on variables"))
    return t


# ------------------------------------------------------------------ Param, Var
class Indexed:
    """Param or Var"""
    __model__ = True

    def __init__(self, var, sets, initialize, within, mutable, bounds=None, default=None):
        note()
        self.var, self.sets, self.init, self.within, self.mutable, self.bounds_init, self.default = \
            var, sets, initialize, within, mutable, bounds, default
        self.sym = None
        self.name = None
        self.values, self.lbs, self.ubs, self.fixed = PDict(), PDict(), PDict(), PDict()
        if within not in (None, pyo.Reals, pyo.NonNegativeReals, pyo.Any):
            raise tm.Unsupported("domain")

    @property
    def nonneg(self):
        return self.within is pyo.NonNegativeReals

    @property
    def scalar(self):
        return not self.sets

    def construct(self, model, name):
        if self.sym is not None:
            raise InterpRaise(RuntimeError("component already attached"))
        self.name = name
        self.sym = "pyo!" + fresh_id(f"{name}_")
        REG[self.sym] = self
        for s in self.sets:
            if not isinstance(s, SetM):
                raise tm.Unsupported("index set")
        self.set = self.sets[0] if len(self.sets) == 1 else None
        for s in self.sets[1:] if len(self.sets) > 1 else ():
            self.set = product(self.set if self.set is not None else self.sets[0], s)
        if self.init is not None or (self.default is not None and not self.var):
            init = self.init if self.init is not None else self.default
            if self.scalar:
                v = call(init, [model]) if callable_(init) else init
                self.set_at((), v)
            else:
                if isinstance(init, (PList, list, tuple, Arr)):
                    seq = init if isinstance(init, Arr) else None
                    n = seq.shape[0] if seq is not None else (init.length() if isinstance(init, PList) else len(init))
                    # a sequence initialiser defines the indices 0, ..., len - 1: all must belong to the set
                    self.seq_check(n)
                self.each(lambda ix: self.set_at(ix, self.init_value(init, model, ix)))
        if self.var and self.bounds_init is not None:
            b = self.bounds_init

            def setb(ix):
                lo, hi = I.unpack(call(b, [model] + list(ix)) if callable_(b) else b, 2)
                Elem(self, ix).setlb(lo)
                Elem(self, ix).setub(hi)
            if self.scalar:
                setb(())
            else:
                self.each(setb)

    def seq_check(self, n):
        s = ctx()
        if isinstance(n, int) and n <= 32:
            for i in range(n):
                self.check(i)
            return
        with s.bind(n) as k:
            ok = self.set.model_contains(k)
            ok = ok if isinstance(ok, bool) else s.entails(ok)
        if not ok:
            raise InterpRaise(KeyError("index of the initial data is not in the index set"))

    def each(self, f):
        """f(index) for every index (a summarised loop)"""
        from .loops import run_nodes
        run_nodes(self.set.iter_nodes(), lambda v: f(tup(v)) and None)

    def init_value(self, init, model, ix):
        if callable_(init):
            return call(init, [model] + list(ix))
        if isinstance(init, (PDict, dict)):
            return I.subscript(init, ix[0] if len(ix) == 1 else ix)
        if isinstance(init, (PList, list, tuple, Arr)):
            if len(ix) != 1:
                raise tm.Unsupported("sequence initialiser of a multi-dimensional component")
            return I.subscript(init, ix[0])
        return init

    # --- entries
    def check(self, i):
        ix = tuple(tm_int(x) for x in tup(i))
        if self.scalar:
            if ix not in ((), (None,)):
                raise InterpRaise(KeyError(i))
            return ()
        c = self.set.model_contains(ix[0] if len(ix) == 1 else ix)
        if not (c if isinstance(c, bool) else ctx().decide(c)):
            raise InterpRaise(KeyError(i))
        return ix

    def model_getitem(self, i):
        ix = self.check(i)
        if not self.var and not self.mutable:
            v = self.value_at(ix)
            if v is None:
                raise InterpRaise(ValueError("no value for parameter"))
            return v
        return Elem(self, ix)

    def model_setitem(self, i, v):
        self.set_at(self.check(i), v)

    def model_len(self):
        return 1 if self.scalar else self.set.model_len()

    def model_contains(self, x):
        return self.set.model_contains(x)

    def iter_nodes(self):
        return self.set.iter_nodes()

    keys = lambda self: PList(self.set.iter_nodes())

    def values_(self):
        return PList(C.map_nodes(self.set.iter_nodes(), lambda i: self.model_getitem(i)))

    def items_(self):
        return PList(C.map_nodes(self.set.iter_nodes(), lambda i: (i, self.model_getitem(i))))

    # scalar component used as an expression
    @property
    def value(self):
        return self.value_at(())

    def need_var(self):
        if not self.var:
            raise InterpRaise(AttributeError("not a variable"))

    def set_at(self, ix, v):
        if not self.var and not self.mutable and self.set_done(ix):
            raise InterpRaise(TypeError("parameter is not mutable"))
        if v is not None:
            v = evaluate(v)
            if self.nonneg and not self.var:
                if not (v >= 0 if not isinstance(v, T) else ctx().decide(tm.le(0, v))):
                    raise InterpRaise(ValueError("value not in parameter domain"))
        self.values.store(ix, v)

    def set_done(self, ix):
        return bool(self.values.nodes) and self.name is not None and getattr(self, "_closed", False)

    def value_at(self, ix):
        v = C.find_last(self.values.nodes, ix)
        return None if v is MISSING else v

    def fixed_at(self, ix):
        self.need_var()
        v = C.find_last(self.fixed.nodes, ix)
        return False if v is MISSING else v

    def fixed_term(self, ix):
        """is entry ix fixed, as a formula (no decisions)"""
        return flag(self.fixed.nodes, ix)

    def bound_at(self, which, ix):
        self.need_var()
        d = self.lbs if which == "lb" else self.ubs
        v = C.find_last(d.nodes, ix)
        v = None if v is MISSING or v is None else evaluate(v)
        if which == "lb" and self.nonneg:
            return tm.rconst(0) if v is None else tm.ite(tm.le(0, v), tm.lift(v), tm.rconst(0))
        return v

    def fix(self, *a):
        self.each(lambda ix: Elem(self, ix).fix(*a))

    def unfix(self):
        self.each(lambda ix: Elem(self, ix).unfix())

    def model_truth(self):
        raise tm.Unsupported("truth value of a component")


class Scalar(Indexed):
    """component without index sets: behaves like its only entry"""

    def __term__(self):
        if not self.var and not self.mutable:
            return tm.lift(self.value_at(()))
        return tm.app(self.sym, [tm.const(0)], tm.R)

    def set_value(self, v, **k):
        self.set_at((), v)

    def model_setattr(self, name, v):
        Elem(self, ()).model_setattr(name, v)

    def fix(self, *a):
        Elem(self, ()).fix(*a)


def flag(nodes, ix):
    """value (formula) of a boolean write history at index ix"""
    r = tm.FALSE
    for nd in nodes:
        if isinstance(nd, Item):
            e = tm.boolterm(eqv(nd.v[0], ix))
            r = tm.ite(e, tm.boolterm(nd.v[1]), r) if nd.v[1] is not True else tm.or_(e, r)
            if nd.v[1] is False:
                r = tm.and_(tm.not_(e), r)
        elif isinstance(nd, For):
            if not all(isinstance(x, Item) and isinstance(x.v[1], bool) for x in nd.nodes):
                raise tm.Unsupported("fixed flags")
            t = {x.v[1] for x in nd.nodes}
            if len(t) != 1:
                raise tm.Unsupported("fixed flags")
            m = tm.boolterm(member(ix, (For(nd.k, nd.n, C.keys_only(nd.nodes)),)))
            r = tm.or_(m, r) if t == {True} else tm.and_(tm.not_(m), r)
        else:
            raise tm.Unsupported("fixed flags")
    return r


def tm_int(x):
    if isinstance(x, Elem):
        raise tm.Unsupported("entry used as an index")
    if hasattr(x, "dtype"):
        return x.item()
    return x


def callable_(f):
    return isinstance(f, (I.InterpFunction, I.Opaque)) or (callable(f) and not isinstance(f, (T, PList, PDict, Arr, Indexed)))


# ------------------------------------------------------------------ evaluation
def evaluate(v, keep_vars=False, memo=None):
    """current value of an expression"""
    if isinstance(v, (Elem, Indexed)):
        v = v.__term__()
    if isinstance(v, T):
        return _eval(v, keep_vars, {})
    return I.norm_num(v)


def has_pyo(t):
    from .engine import is_deferred
    return is_deferred(t)


def _eval(t, kv, memo):
    if not has_pyo(t):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "app" and t.args[0].startswith("pyo!"):
        c = REG[t.args[0]]
        if c.scalar:
            ix = ()
        else:
            ix = tuple(C.pyint(_eval(a, kv, memo)) for a in t.args[1:])
        if c.var and kv:
            r = t
        else:
            x = c.value_at(ix)
            if x is None:
                raise InterpRaise(ValueError("No value for uninitialized entry"))
            r = tm.toreal(tm.lift(x))
    elif t.op == "sum":
        k, n, body = t.args
        s = ctx()
        with s.bind(n) as kk:
            b = _eval(tm.subst(body, {k: kk}), kv, {})
        s.counter += 1
        kb = tm.var(f"%v{s.counter}", tm.I)
        r = tm.ssum(kb, _eval(n, kv, memo), tm.subst(b, {kk: kb}))
    elif t.op in ("forall", "exists"):
        raise tm.Unsupported("quantified expression")
    else:
        r = tm.rebuild(t, [_eval(a, kv, memo) if isinstance(a, T) else a for a in t.args])
    memo[t.id] = r
    return r


# ------------------------------------------------------------------ constraints, objective
class ConstraintM:
    __model__ = True

    def __init__(self, *sets, rule=None, expr=None, **k):
        note()
        self.sets, self.rule, self.expr = sets, rule, expr
        self.active = True

    def construct(self, model, name):
        self.name = name
        s = None
        for x in self.sets:
            s = x if s is None else product(s, x)
        if s is None:
            v = call(self.rule, [model]) if self.rule is not None else self.expr
            self.nodes = tuple(Item(c) for c in [body(v)] if c is not None)
            return
        if callable_(self.rule):
            f = lambda ix: call(self.rule, [model] + list(ix))
        else:
            f = lambda ix: self.rule if self.rule is not None else self.expr

        def one(v):
            c = body(f(tup(v)))
            return () if c is None else (Item(c),)
        self.nodes = C.expand(s.iter_nodes(), one)

    def deactivate(self):
        raise tm.Unsupported("deactivate")


def body(v):
    """formula of a constraint; None when skipped"""
    if v is pyo.Constraint.Skip or v is pyo.Constraint.Feasible:
        return None
    if type(v) is tuple or isinstance(v, PList):
        xs = I.iter_values(v)
        if len(xs) == 2:
            return tm.eq(tm.toreal(tm.lift(I.norm_num(xs[0]))), I.norm_num(xs[1]))
        if len(xs) == 3:
            fs = []
            if xs[0] is not None:
                fs.append(tm.le(I.norm_num(xs[0]), I.norm_num(xs[1])))
            if xs[2] is not None:
                fs.append(tm.le(I.norm_num(xs[1]), I.norm_num(xs[2])))
            return tm.and_(*fs)
    if isinstance(v, T) and v.sort == "B" and v.op in ("eq", "le", "and"):
        return v
    raise InterpRaise(ValueError("Constraint does not have a proper value"))


class ObjectiveM:
    __model__ = True

    def __init__(self, *a, expr=None, rule=None, sense=None, **k):
        note()
        if a:
            raise tm.Unsupported("indexed objective")
        self.expr, self.rule = expr, rule
        self.sense = pyo.minimize if sense is None else sense

    def construct(self, model, name):
        self.name = name
        if self.rule is not None:
            self.expr = call(self.rule, [model])
        self.expr = tm.toreal(tm.lift(I.norm_num(self.expr)))

    def __term__(self):
        return self.expr

    def set_value(self, v):
        ctx().put(self, "expr", tm.toreal(tm.lift(I.norm_num(v))))


class ExpressionM:
    __model__ = True

    def __init__(self, *a, expr=None, rule=None, initialize=None, **k):
        if a:
            raise tm.Unsupported("indexed expression")
        self.expr = expr if expr is not None else initialize
        self.rule = rule

    def construct(self, model, name):
        if self.rule is not None:
            self.expr = call(self.rule, [model])

    def __term__(self):
        return tm.toreal(tm.lift(I.norm_num(self.expr)))


COMPONENTS = (SetM, Indexed, ConstraintM, ObjectiveM, ExpressionM)


class ModelM:
    __model__ = True

    def __init__(self, *a, **k):
        note()
        object.__setattr__(self, "attrs", VDict())
        object.__setattr__(self, "uid", fresh_id("model"))

    def __getattr__(self, name):
        a = object.__getattribute__(self, "attrs")
        if name in a:
            v = a[name]
            if isinstance(v, I.Poison):
                raise tm.Unsupported("loop-carried attribute")
            return v
        raise AttributeError(name)

    def model_setattr(self, name, v):
        old = self.attrs.get(name, MISSING)
        if isinstance(old, COMPONENTS):
            if isinstance(v, COMPONENTS):
                raise tm.Unsupported("component replaced")
            if isinstance(old, Scalar):
                old.set_at((), v)
                return
            if isinstance(old, ObjectiveM):
                old.set_value(v)
                return
            raise tm.Unsupported("assignment to a component")
        if isinstance(v, COMPONENTS):
            if len(ctx().binders):
                raise tm.Unsupported("component created in a symbolic loop")
            v.construct(self, name)
            if isinstance(v, Indexed):
                v._closed = True
        ctx().put(self.attrs, name, v)

    def add_component(self, name, c):
        self.model_setattr(name, c)

    def component(self, name):
        return self.attrs.get(name)

    def of(self, *types):
        return [c for c in self.attrs.values() if isinstance(c, types)]

    # ---- used by contracts
    def variables(self):
        return [c for c in self.of(Indexed) if c.var]

    def params(self):
        return [c for c in self.of(Indexed) if not c.var and c.mutable]

    def objectives(self):
        return self.of(ObjectiveM)

    def constraints(self):
        return tuple(n for c in self.of(ConstraintM) for n in c.nodes)

    def havoc(self):
        """an arbitrary earlier history: every parameter and variable has an arbitrary value, every variable arbitrary bounds"""
        s = ctx()
        for c in self.of(Indexed):
            if not c.var and not c.mutable:
                continue
            tag = fresh_id("hist_")
            def some(what, ix):
                return tm.app(f"{what}_{tag}", [tm.lift(i) for i in ix] or [tm.const(0)], tm.R)
            if c.scalar:
                x = some("value", ())
                if c.nonneg:
                    s.define(tm.le(0, x))
                c.values.store((), x)
                continue
            ns = C.map_nodes(c.set.iter_nodes(), lambda v: (tup(v), some("value", tup(v))))
            c.values.set(c.values.nodes + ns)
            if c.var:
                c.lbs.set(c.lbs.nodes + C.map_nodes(c.set.iter_nodes(), lambda v: (tup(v), some("lb", tup(v)))))
                c.ubs.set(c.ubs.nodes + C.map_nodes(c.set.iter_nodes(), lambda v: (tup(v), some("ub", tup(v)))))

    def solve(self, tag):
        """a solver's answer: every free variable gets an arbitrary value, fixed ones keep theirs"""
        for c in self.variables():
            f = lambda ix: tm.app(f"sol!{tag}!{c.sym[4:]}", [tm.lift(i) for i in ix], tm.R)

            def new(v):
                ix = tup(v)
                fx = c.fixed_term(ix)
                if fx is tm.FALSE:
                    return (ix, f(ix))
                old = c.value_at(ix) if fx is not tm.FALSE else 0
                return (ix, tm.ite(fx, tm.lift(old), f(ix)))
            ns = C.map_nodes(c.set.iter_nodes(), new)
            c.values.set(c.values.nodes + ns)


def mk_indexed(var):
    def mk(*sets, initialize=None, within=None, domain=None, mutable=False, bounds=None, default=None, name=None, doc=None, rule=None,
           validate=None, units=None):
        w = within if within is not None else domain
        init = initialize if initialize is not None else rule
        cls = Indexed if sets else Scalar
        return cls(var, list(sets), init, w, mutable, bounds, default)
    return mk


class Snapshot:
    """the problem handed to the solver"""

    def __init__(self, model):
        self.model = model
        obs = model.objectives()
        self.sense = [o.sense for o in obs]
        self.objective = [evaluate(o.expr, keep_vars=True) for o in obs]
        self.comps = model.of(Indexed)
        self.vars = model.variables()
        self.constraints = model.constraints()
        self.state = [(c, [d.nodes for d in (c.values, c.lbs, c.ubs, c.fixed)]) for c in self.comps]

    @contextmanager
    def at(self):
        """look at the entries as they were when the problem was handed over"""
        now = [(c, [d.nodes for d in (c.values, c.lbs, c.ubs, c.fixed)]) for c in self.comps]
        reg = dict(REG)

        def put(st):
            for c, ns in st:
                for d, n in zip((c.values, c.lbs, c.ubs, c.fixed), ns):
                    d.nodes = n
        try:
            put(self.state)
            REG.update({c.sym: c for c in self.comps})
            yield self
        finally:
            put(now)
            REG.clear()
            REG.update(reg)

    def entry(self, t):
        """component and index of an unknown named t in expressions"""
        for c in self.vars:
            if c.sym == t.args[0]:
                return c, tuple(C.pyint(x) for x in t.args[1:])
        raise tm.Unsupported("not a variable of this problem")


class SolverM:
    """solver stub: records the problem, answers arbitrarily"""
    __model__ = True

    def __init__(self):
        self.log = PList()
        self.n = 0

    def solve(self, model, *a, **k):
        if not isinstance(model, ModelM):
            raise tm.Unsupported("solve")
        snap = Snapshot(model)
        n = len(self.log.nodes)
        self.log.set(self.log.nodes + (Item(snap),))
        model.solve(n)
        snap.after = n
        return None

    @property
    def problems(self):
        return [x.v for x in self.log.nodes]


def p_value(x, *a, **k):
    return evaluate(x)


def install(S):
    S.update({pyo.ConcreteModel: ModelM, pyo.Set: mk_set, pyo.RangeSet: mk_rangeset, pyo.Param: mk_indexed(False),
              pyo.Var: mk_indexed(True), pyo.Constraint: ConstraintM, pyo.Objective: ObjectiveM, pyo.Expression: ExpressionM,
              pyo.value: p_value, pyo.SolverFactory: lambda *a, **k: SolverM()})
