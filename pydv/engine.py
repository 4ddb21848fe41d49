"""Path exploration, facts, binders, heap trail and obligations."""
from __future__ import annotations
import time
from contextlib import contextmanager
from . import terms as tm
from .terms import T
from .prover import Prover, Result, STATS, has_quant


class InterpRaise(BaseException):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class Abandon(tm.SymError):
    """This path is infeasible."""


class Retry(tm.SymError):
    """Speculation failed."""


SERIAL = [0]


def tick():
    SERIAL[0] += 1
    return SERIAL[0]


class VDict(dict):
    """variables of a frame / attributes of an instance; remembers when it was created"""
    __slots__ = ("birth", "frozen")

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.birth = tick()
        self.frozen = False


def birth(c):
    return getattr(c, "birth", 0)


class Path:
    def __init__(self, facts, kind, value, effects=None):
        self.facts, self.kind, self.value, self.effects = facts, kind, value, effects
        c = ctx()
        # facts that followed from the others need not be part of the path condition
        self.implied = {f.id for f in facts if f.id in c.implied}

    @property
    def pc(self):
        return tm.and_(*[f for f in self.facts if f.id not in ctx().defids and f.id not in self.implied])

    @property
    def defs(self):
        return [f for f in self.facts if f.id in ctx().defids]


MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()


class Ctx:
    def __init__(self, prover=None):
        self.prover = prover or Prover()
        self.facts = []          # path condition and assumptions, in order
        self.fids = set()
        self.decisions = None    # active decision log: list of (value, open)
        self.pos = 0
        self.trail = []          # (container, key, old) undo log
        self.binders = []        # bound integer variables in scope
        self.nofork = 0
        self.counter = 0
        self.obligations = []
        self.memo = {}
        self.nz = set()
        self.loop_handlers = []
        self.max_paths = 400
        self.deadline = None
        self.assumptions = set()
        self.vac = []
        self.ctx_label = ""
        self.defids = set()
        self.lenient = False     # specification expressions: equality of both sides wherever they are defined
        self.implied = set()     # among the current facts: those that followed from the earlier ones
        self.lattice = None      # row/column index reasoning (V.radix)
        self.floors = []         # (real term, name of its floor)
        self.injective = set()   # uninterpreted index functions with distinct values
        self.nz_patterns = []    # (index variable, bound, term nonzero for every index in range)

    def divmod(self, a, b):
        return self.lattice.divmod(a, b) if self.lattice is not None else None

    def floor(self, t):
        for x, n in self.floors:
            if x is t or self.prover.ring_equal(x, t):
                return n
        return None

    # ------------------------------------------------ heap
    def put(self, cont, key, val):
        """cont is a dict (frame or instance __dict__) or an object with attribute `key`."""
        if isinstance(cont, dict):
            if getattr(cont, "frozen", False):
                raise tm.Unsupported("mutation of an object inside a symbolic collection")
            old = cont.get(key, MISSING)
            self.trail.append((cont, key, old))
            cont[key] = val
        else:
            old = getattr(cont, key, MISSING)
            self.trail.append((cont, key, old))
            object.__setattr__(cont, key, val)

    def get(self, cont, key):
        if isinstance(cont, dict):
            return cont.get(key, MISSING)
        return getattr(cont, key, MISSING)

    def raw(self, cont, key, val):
        if isinstance(cont, dict):
            if val is MISSING:
                cont.pop(key, None)
            else:
                cont[key] = val
        else:
            if val is MISSING:
                try:
                    object.__delattr__(cont, key)
                except AttributeError:
                    pass
            else:
                object.__setattr__(cont, key, val)

    def hmark(self):
        return (len(self.trail), tick())

    def undo(self, mark):
        """undo writes since mark to everything that existed at mark"""
        tr = self.trail
        n, ser = mark
        while len(tr) > n:
            c, k, old = tr.pop()
            if birth(c) <= ser:
                self.raw(c, k, old)

    def modified(self, mark):
        """locations written since mark: {(id, key): (container, key, value before)}"""
        out = {}
        n, ser = mark
        for c, k, old in self.trail[n:]:
            if birth(c) <= ser:
                out.setdefault((id(c), k), (c, k, old))
        return out

    # ------------------------------------------------ facts
    def fresh(self, name, sort=tm.R):
        self.counter += 1
        if self.binders:
            return tm.app(f"{name}!{self.counter}", self.binders, sort)
        return tm.var(f"{name}!{self.counter}", sort)

    def fresh_var(self, name, sort=tm.R):
        self.counter += 1
        return tm.var(f"{name}!{self.counter}", sort)

    def assume(self, f, implied=False):
        """implied: f follows from the current facts"""
        f = tm.boolterm(f)
        for g in (f.args if f.op == "and" else (f,)):
            if g is tm.TRUE or g.id in self.fids:
                continue
            (self.implied.add if implied else self.implied.discard)(g.id)
            if g is tm.FALSE:
                raise Abandon("false assumed")
            self.facts.append(g)
            self.fids.add(g.id)
            if self.lattice is not None and g.op == "eq" and g.args[0].sort == tm.I:
                h = self.lattice.eq(*g.args)
                if h is not None:
                    if h is tm.FALSE:
                        raise Abandon("false assumed")
                    if g.id in self.defids:
                        self.define(h)
                    else:
                        self.assume(h)

    def define(self, f):
        """a fact that holds by choice of a fresh symbol"""
        f = tm.boolterm(f)
        for g in (f.args if f.op == "and" else (f,)):
            if g.op != "const" and g.id not in self.fids:
                self.defids.add(g.id)
        self.assume(f)

    def mark(self):
        return len(self.facts)

    def cut(self, n):
        while len(self.facts) > n:
            self.fids.discard(self.facts.pop().id)

    def entails(self, goal, timeout=1500):
        goal = tm.boolterm(goal)
        if goal.op == "const":
            return bool(goal.args[0])
        if goal.id in self.fids:
            return True
        if self.lattice is not None and self.lattice.islin(goal):
            return self.lattice.entails(goal)
        key = (frozenset(self.fids), goal.id)
        r = self.memo.get(key)
        if r is None:
            r = self.prover.entails(self.relevant(goal), goal, timeout)
            self.memo[key] = r
        return r

    def relevant(self, goal):
        return self.facts

    def settle(self, c):
        """True / False when decided by the facts, else None"""
        c = tm.boolterm(c)
        if c.op == "const":
            return bool(c.args[0])
        if c.id in self.fids:
            return True
        n = tm.not_(c)
        if n.id in self.fids:
            return False
        if c.op in ("eq", "le", "lt") and c.args[0].sort != "B":
            r = self._ring_settle(c)
            if r is not None:
                return r
        if self.lattice is not None:
            c = self.lattice.simp(c)
            if c.op == "const":
                return bool(c.args[0])
            n = tm.not_(c)
            if c.id in self.fids or n.id in self.fids:
                return c.id in self.fids
        if self.entails(c):
            return True
        if self.entails(n):
            return False
        return None

    def _ring_settle(self, c):
        try:
            d = tm.sub(c.args[0], c.args[1])
            p = self.prover.ring.poly(d)
        except Exception:
            return None
        if not p:
            return c.op != "lt"
        if len(p) == 1 and 0 in p:
            v = p[0]
            return {"eq": v == 0, "le": v <= 0, "lt": v < 0}[c.op]
        return None

    # ------------------------------------------------ decisions
    def decide(self, c):
        c = tm.boolterm(c)
        if self.lattice is not None and c.op != "const":
            c = self.lattice.simp(c)
        if c.op == "const":
            return bool(c.args[0])
        if c.id in self.fids:
            return True
        n = tm.not_(c)
        if n.id in self.fids:
            return False
        if self.deadline and time.time() > self.deadline:
            raise tm.Unsupported("time budget exhausted")
        log = self.decisions
        if log is not None and self.pos < len(log):
            v = log[self.pos][0]
            settled = len(log[self.pos]) > 2
            self.pos += 1
            self.assume(c if v else n, settled)
            return v
        v = self.settle(c)
        settled = v is not None
        if v is None:
            if self.nofork or log is None:
                raise Retry("fork")
            v = True
            log.append([True, True])
        else:
            if log is not None and not self.nofork:
                log.append([v, False, "settled"])
        if log is not None and not self.nofork:
            self.pos += 1
        self.assume(c if v else n, settled)
        return v

    def nonzero(self, t):
        t = tm.lift(t)
        if t.op == "const":
            if t.args[0] == 0:
                raise InterpRaise(ZeroDivisionError("division by zero"))
            return
        if t.id in self.nz or self.lenient or is_deferred(t):
            return
        if nonzero_syn(t, self) or self.nz_instance(t):
            return
        if self.decide(tm.eq(t, 0)):
            raise InterpRaise(ZeroDivisionError("division by zero"))

    def nz_instance(self, t):
        """is t (up to a constant factor) an instance of a term known to be nonzero for every index in range?"""
        for k, n, p in self.nz_patterns:
            fs = {u.args[0] for u in tm.subterms([p]) if u.op == "app" and any(a is k for a in u.args[1:])}
            cand = {}
            for u in tm.subterms([t]):
                if u.op == "app" and u.args[0] in fs and len(u.args) == 2:
                    cand[u.args[1].id] = u.args[1]
            for ix in cand.values():
                q = tm.subst(p, {k: ix})
                try:
                    if monic(self.prover.ring.poly(q)) == monic(self.prover.ring.poly(t)) and \
                            self.entails(tm.and_(tm.le(0, ix), tm.lt(ix, n))):
                        return True
                except Exception:
                    continue
        return False

    def known_nonzero(self, t):
        """register a divisor as nonzero (the contract has proved or assumed it)"""
        self.nz.add(tm.lift(t).id)
        try:
            p = self.prover.ring.poly(tm.lift(t))
            self.nz.add(("p", monic(p)))
        except Exception:
            pass

    # ------------------------------------------------ exploration
    def explore(self, thunk, keep_effects=False):
        """All paths of thunk from the current state; the state is restored afterwards."""
        out = []
        log = []
        saved = (self.decisions, self.pos, self.nofork)
        fmark, tmark, cnt = self.mark(), self.hmark(), self.counter
        bl = len(self.binders)
        lh = list(self.loop_handlers)
        while True:
            self.decisions, self.pos, self.nofork = log, 0, 0
            self.counter = cnt
            res = None
            try:
                try:
                    v = thunk()
                    res = ("ok", v)
                except InterpRaise as e:
                    res = ("raise", e.exc)
                except Abandon:
                    res = None
                if res is not None:
                    eff = None
                    if keep_effects:
                        eff = {}
                        for key, (c, k, old) in self.modified(tmark).items():
                            eff[key] = (c, k, old, self.get(c, k))
                    out.append(Path(self.facts[fmark:], res[0], res[1], eff))
            finally:
                self.cut(fmark)
                self.undo(tmark)
                self.decisions, self.pos, self.nofork = saved
                del self.binders[bl:]
                self.loop_handlers = list(lh)
            # next alternative
            while log and not log[-1][1]:
                log.pop()
            if not log:
                break
            log[-1] = [not log[-1][0], False]
            if len(out) > self.max_paths:
                raise tm.Unsupported("too many paths")
        # keep names unique
        self.counter = max(self.counter, cnt) + 1
        return out

    def speculate(self, thunk, assumption=None):
        """Run thunk without forking under an assumption; raises Retry when it cannot."""
        fmark, tmark = self.mark(), self.hmark()
        self.nofork += 1
        try:
            if assumption is not None:
                self.assume(assumption)
            v = thunk()
            if self.modified(tmark):
                raise Retry("side effect")
            return v
        except InterpRaise:
            raise Retry("raise")
        except Abandon:
            raise Retry("infeasible")
        finally:
            self.nofork -= 1
            self.cut(fmark)
            self.undo(tmark)

    @contextmanager
    def bind(self, n, name="k"):
        """a generic index 0 <= k < n"""
        self.counter += 1
        k = tm.var(f"{name}!{self.counter}", tm.I)
        self.binders.append(k)
        marker = tm.le(0, k)
        try:
            self.assume(marker)
            self.assume(tm.lt(k, n))
            yield k
        finally:
            self.drop_binder(k)
            for i, f in enumerate(self.facts):
                if f is marker:
                    self.cut(i)
                    break

    def drop_binder(self, k):
        self.binders[:] = [b for b in self.binders if b is not k]

    # ------------------------------------------------ obligations
    def oblige(self, label, goal, timeout=None):
        goal = tm.boolterm(goal)
        t0 = time.time()
        try:
            if self.lattice is not None and self.lattice.simp(goal) is tm.TRUE:
                r = Result(True, "trivial" if goal is tm.TRUE else "z3")
            elif self.lattice is not None and self.lattice.entails(goal):
                r = Result(True, "z3")
            else:
                r = self.prover.prove(self.facts, goal, timeout=timeout)
        except (tm.Unsupported, RecursionError) as e:
            r = Result(False, "none", None, f"{type(e).__name__}: {e}")
        self.obligations.append(
            {"label": label, "ok": bool(r), "backend": r.backend, "seconds": round(time.time() - t0, 3),
             "goal": tm.show(goal)[:600], "reason": r.reason, "model": str(r.model)[:3000] if r.model is not None else None,
             "path": [tm.show(f)[:160] for f in self.facts[-12:]] if not r else None}
        )
        return bool(r)


def monic(p):
    m0 = max(p)
    c0 = p[m0]
    from fractions import Fraction
    return frozenset((m, Fraction(c) / c0) for m, c in p.items())


def nonzero_syn(t, ctx):
    if t.op == "const":
        return t.args[0] != 0
    if t.op in ("mul",):
        return all(nonzero_syn(a, ctx) for a in t.args)
    if t.op == "pow":
        return nonzero_syn(t.args[0], ctx)
    if t.op == "app" and t.args[0] == "exp":
        return True
    if t.op == "toreal" and nonzero_syn(t.args[0], ctx):
        return True
    if t.id in ctx.nz:
        return True
    try:
        p = ctx.prover.ring.poly(t)
        if p and ("p", monic(p)) in ctx.nz:
            return True
    except Exception:
        pass
    return tm.not_(tm.eq(t, 0)).id in ctx.fids


_def: dict = {}


def is_deferred(t):
    """does the term mention a modelling-language variable or mutable parameter (evaluated later, by a solver)?"""
    r = _def.get(t.id)
    if r is None:
        r = any(u.op == "app" and u.args[0].startswith("pyo!") for u in tm.subterms([t]))
        _def[t.id] = r
    return r


def nonneg_syn(t):
    t = tm.lift(t)
    o, a = t.op, t.args
    if o == "const":
        return a[0] >= 0
    if o == "add":
        return all(nonneg_syn(x) for x in a)
    if o == "mul":
        rest = {}
        c = 1
        for x in a:
            if x.op == "const":
                c *= x.args[0]
            else:
                rest[x.id] = rest.get(x.id, [x, 0])
                rest[x.id][1] += 1
        return c >= 0 and all(n % 2 == 0 or nonneg_syn(x) for x, n in rest.values())
    if o == "pow":
        return a[1] % 2 == 0 or nonneg_syn(a[0])
    if o == "div":
        return nonneg_syn(a[0]) and nonneg_syn(a[1])
    if o == "sum":
        return nonneg_syn(a[2])
    if o == "abs":
        return True
    if o == "toreal":
        return nonneg_syn(a[0])
    if o == "app":
        return a[0] in ("sqrt", "exp")
    if o == "ite":
        return nonneg_syn(a[1]) and nonneg_syn(a[2])
    return False


CTX: list = []


def ctx() -> Ctx:
    return CTX[-1]


@contextmanager
def use(c):
    CTX.append(c)
    old = dict(tm.HOOK)
    tm.HOOK["fork"] = c.decide
    tm.HOOK["nonzero"] = c.nonzero
    tm.HOOK["divmod"] = c.divmod
    tm.HOOK["floor"] = c.floor
    try:
        yield c
    finally:
        CTX.pop()
        tm.HOOK.update(old)
