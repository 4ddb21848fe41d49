"""Loops.  A loop over a collection of symbolic length is replaced by a closed form that holds by induction on the
iteration: each location the body writes is a running sum (new = old + e(k)), a conjunction/disjunction flag, a value
assigned afresh in every iteration, or a container to which the iteration appends.  Anything else is Unsupported."""
from __future__ import annotations
import ast
from . import terms as tm
from .terms import T
from .engine import ctx, InterpRaise, MISSING, Abandon, Retry
from . import containers as C
from .containers import Arr, Item, For, If, Rem, Barrier, PList, PDict, PSet, inst, inst_nodes, guard, is_scalar, _bv
from . import interp as I


def run_for(st, fr):
    src = I.to_nodes(I.ev(st.iter, fr))

    def body(v):
        I.assign(st.target, v, fr)
        r = I.exec_block(st.body, fr)
        if r is not None and r[0] == "continue":
            return None
        return r

    for h in reversed(ctx().loop_handlers):
        r = h(st, fr, src, body)
        if r is not NotImplemented:
            return finish(r, st, fr)
    return finish(run_nodes(src, body), st, fr)


def finish(r, st, fr):
    if r is None:
        return I.exec_block(st.orelse, fr)
    if r[0] == "break":
        return None
    return r


def run_nodes(nodes, body):
    for nd in nodes:
        if isinstance(nd, Item):
            r = body(nd.v)
        elif isinstance(nd, If):
            if not ctx().decide(nd.c):
                continue
            r = run_nodes(nd.nodes, body)
        elif isinstance(nd, For) and nd.orig is not None:
            try:
                r = summarise(nd.orig, lambda ns: run_nodes(ns, body), nd.p)
            except OrderSensitive:
                r = summarise(nd, lambda ns: run_nodes(ns, body))
        elif isinstance(nd, For):
            r = summarise(nd, lambda ns: run_nodes(ns, body))
        else:
            raise tm.Unsupported("iteration over a partially summarised container")
        if r is not None:
            return r
    return None


class OrderSensitive(Exception):
    """the outcome of a loop may depend on the order of its iterations"""


class Loc:
    def __init__(self, cont, key, old):
        self.cont, self.key, self.old = cont, key, old
        self.kind = None
        self.h = None
        self.closed = None
        self.sym = None

    def havoc(self, sort=None, k=None):
        s = ctx()
        old = self.old
        if isinstance(old, Arr) or (type(old) is tuple and old and all(is_number(x) for x in old)):
            # value before iteration k as a function of k (and the index); see `close`
            self.kind = "seq"
            if self.closed is None:
                s.counter += 1
                self.sym = f"seq!{s.counter}"
            return self.at(k)
        if self.key == "nodes" and isinstance(self.cont, (PList, PDict, PSet)):
            self.kind = "nodes"
            self.barrier = Barrier(lambda key: True)
            return old + (self.barrier,)
        if isinstance(old, (T, int, float)) or (is_scalar(old) and not isinstance(old, str)):
            self.kind = "scalar"
            t = tm.lift(I.norm_num(old)) if not isinstance(old, bool) else tm.const(old)
            srt = sort or t.sort
            self.h = s.fresh_var("h", srt)
            self.init = tm.toreal(t) if srt == "R" else t
            return self.h
        self.kind = "other"
        self.h = I.Poison(self.key)
        return self.h

    def at(self, k):
        """value before iteration k, by symbol (or closed form)"""
        if self.closed is not None:
            return self.closed(k)
        if isinstance(self.old, Arr):
            return Arr(self.old.shape, lambda *ix: tm.app(self.sym, [tm.lift(k)] + [tm.lift(i) for i in ix], tm.R))
        if type(self.old) is tuple:
            return tuple(tm.app(f"{self.sym}.{j}", [tm.lift(k)], tm.R) for j in range(len(self.old)))
        return tm.app(self.sym, [tm.lift(k)], self.h.sort)

    def close(self, s, k, new, free):
        """closed form when the value an iteration leaves does not depend on earlier ones: (function of k) or None; new: in terms of k"""
        if isinstance(self.old, Arr):
            if not (isinstance(new, Arr) and len(new.shape) == len(self.old.shape) and
                    all(a is b or s.entails(tm.eq(tm.lift(a), tm.lift(b))) for a, b in zip(new.shape, self.old.shape))):
                raise tm.Unsupported("array of changing shape carried between iterations")
            ix = [_bv("i") for _ in self.old.shape]
            val = real(new.get(*ix))
            if not free([val]):
                return None

            def at(m, old=self.old, val=val, ix=ix):
                if zero(m):
                    return old
                m = tm.lift(m)
                return Arr(old.shape, lambda *jx: tm.ite(tm.eq(m, 0), real(old.get(*jx)),
                                                         tm.subst(val, {k: tm.sub(m, 1), **{i: tm.lift(j) for i, j in zip(ix, jx)}})))
            return at
        if type(new) is not tuple or len(new) != len(self.old) or not all(is_number(x) for x in new):
            raise tm.Unsupported("tuple of changing type carried between iterations")
        vals = [real(x) for x in new]
        if not free(vals):
            return None
        return lambda m, old=self.old: old if zero(m) else \
            tuple(tm.ite(tm.eq(m, 0), real(o), tm.subst(v, {k: tm.sub(m, 1)})) for o, v in zip(old, vals))


def zero(m):
    return isinstance(m, T) and m.op == "const" and m.args[0] == 0 or (not isinstance(m, T) and m == 0)


def is_number(x):
    return is_scalar(x) and not isinstance(x, (str, bool)) and (not isinstance(x, T) or x.sort in ("I", "R")) and \
        not (isinstance(x, float) and x in (float("inf"), float("-inf")))


def real(x):
    return tm.toreal(tm.lift(I.norm_num(x)))


def summarise(nd, run, order=None):
    """order: the iterations happen in this order (a permutation) instead of k = 0, 1, ..."""
    s = ctx()
    n = nd.n
    if s.settle(tm.le(n, 0)) is True:
        return None
    known: dict = {}
    sorts: dict = {}
    closed: dict = {}
    for _ in range(12):
        with s.bind(n) as k:
            nodes = inst_nodes(nd.nodes, {nd.k: k})
            locs = {key: Loc(c, ky, old) for key, (c, ky, old) in known.items()}

            for key, L in locs.items():
                L.closed = closed.get(key)
                L.hv = L.havoc(sorts.get(key), k)

            def thunk():
                for key, L in locs.items():
                    s.put(L.cont, L.key, L.hv)
                return run(nodes)

            paths = s.explore(thunk, keep_effects=True)
        new = False
        for p in paths:
            for key, (c, ky, old, val) in p.effects.items():
                if key not in known:
                    known[key] = (c, ky, old)
                    new = True
        if new:
            continue
        # sort changes (integer accumulator receiving reals)
        redo = False
        for p in paths:
            for key, L in locs.items():
                if L.kind == "scalar":
                    v = p.effects.get(key, (0, 0, 0, L.hv))[3]
                    if is_scalar(v) and tm.lift(I.norm_num(v)).sort == "R" and L.h.sort == "I":
                        sorts[key] = "R"
                        redo = True
        if redo:
            continue
        r = apply(s, k, n, nd, locs, paths, run, order)
        if isinstance(r, Again):
            closed.update(r.closed)
            continue
        return r
    raise tm.Unsupported("loop does not stabilise")


class Again:
    def __init__(self, closed):
        self.closed = closed


def any_order(s, k, n, locs, paths):
    """every effect of the loop is the same whatever the order of the iterations: no exit, nothing reads what other iterations leave,
    appended elements, and sums, conjunctions and disjunctions"""
    hv = {L.h.id for L in locs.values() if L.kind == "scalar"}
    for p in paths:
        if not (p.kind == "ok" and p.value is None) or tm.fv(p.pc) & hv:
            return False
        for d in p.defs or ():
            if tm.fv(d) & hv:
                return False
    news = {}
    for key, L in locs.items():
        if L.kind == "seq" or L.kind == "nodes" and L.barrier.reads and not isinstance(L.cont, PDict):
            return False
        for p in paths:
            v = p.effects.get(key, (0, 0, 0, L.hv))[3]
            if L.kind == "nodes":
                if len(v) < len(L.hv) or any(a is not b for a, b in zip(v, L.hv)):
                    return False
                m = {x.h: s.fresh_var("h", x.h.sort) for x in locs.values() if x.kind == "scalar"}
                app = v[len(L.hv):]
                if m and inst_nodes(app, m) is not app:
                    return False
            elif L.kind == "scalar" and is_scalar(v):
                t = tm.lift(I.norm_num(v) if not isinstance(v, bool) else v)
                t = tm.toreal(t) if L.h.sort == "R" else t
                if tm.fv(t) & (hv - {L.h.id}):
                    return False
                news.setdefault(key, []).append((p.pc, t))
    if not all(distinct_keys(s, k, n, L, paths) for L in locs.values() if L.kind == "nodes" and isinstance(L.cont, PDict)):
        return False
    for key, vals in news.items():
        new = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            new = tm.ite(c, v, new)
        h = locs[key].h
        if new is not h and h.id in tm.fv(new) and recurrence(s, locs[key], new, k) is None:
            return False
    return True


def apply(s, k, n, nd, locs, paths, run, order=None):
    if order is not None and not any_order(s, k, n, locs, paths):
        raise OrderSensitive
    normal = [p for p in paths if p.kind == "ok" and p.value is None]
    exits = [p for p in paths if not (p.kind == "ok" and p.value is None)]
    # ---- dictionary reads past earlier iterations
    for L in locs.values():
        if order is None and L.kind == "nodes" and L.barrier.reads:
            check_reads(s, k, n, L, normal)
    # ---- scalar recurrences
    pre = {}     # havoc var -> value before iteration k
    post_new = {}
    scal = [L for L in locs.values() if L.kind == "scalar"]
    for key, L in locs.items():
        if L.kind == "scalar":
            vals = []
            for p in normal:
                v = p.effects.get(key, (0, 0, 0, L.hv))[3]
                if not is_scalar(v):
                    if len(normal) > 1 or not isinstance(v, object):
                        raise tm.Unsupported("loop variable of changing type")
                    vals = None
                    break
                t = I.norm_num(v) if not isinstance(v, bool) else v
                t = tm.lift(t)
                if L.h.sort == "R":
                    t = tm.toreal(t)
                vals.append((p.pc, t))
            if vals is None:
                L.kind = "other"
                continue
            if not vals:
                L.new = L.h
                continue
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = tm.ite(c, v, r)
            L.new = r
    scal = [L for L in scal if L.kind == "scalar"]
    todo = list(scal)
    hv = {L.h.id for L in todo}
    for L in locs.values():
        if L.kind == "other":
            pass
    while todo:
        progress = False
        for L in list(todo):
            new = tm.subst(L.new, pre) if pre else L.new
            others = (tm.fv(new) & hv) - {L.h.id} - {h.id for h in pre}
            if others:
                continue
            closed = recurrence(s, L, new, k)
            if closed is None:
                break
            pre[L.h] = closed
            todo.remove(L)
            progress = True
        if not progress:
            # no closed form: the value before iteration k is named by a function of k
            L = todo.pop(0)
            if L.h.sort == "B":
                raise tm.Unsupported(f"loop-carried variable {L.key}")
            s.counter += 1
            L.sym = f"seq!{s.counter}"
            pre[L.h] = L.at(k)
    # closed forms may mention variables that were closed later
    for _ in range(len(pre)):
        if not any(tm.fv(t) & hv for t in pre.values()):
            break
        pre = {h: tm.subst(t, pre) for h, t in pre.items()}
    fix = (lambda v: inst(v, pre)) if pre else (lambda v: v)
    fixn = (lambda ns: inst_nodes(ns, pre)) if pre else (lambda ns: ns)
    # sequences whose values turn out not to depend on earlier iterations get a closed form and another pass
    syms = {L.sym for L in locs.values() if L.sym is not None and L.closed is None}

    def free(ts):
        return not any(u.op == "app" and u.args[0].split(".")[0] in syms for u in tm.subterms(ts)) and not any(tm.fv(t) & hv for t in ts)
    again = {}
    for key, L in locs.items():
        if L.kind == "seq":
            vals = [(tm.subst(p.pc, pre) if pre else p.pc, fix(p.effects.get((id(L.cont), L.key), (0, 0, 0, L.hv))[3])) for p in normal]
            if vals and L.closed is None:
                c = L.close(s, k, merge_seq(vals), free)
                if c is not None:
                    # in terms of this pass's binder: renamed on use
                    again[key] = c
    if again:
        return Again(again)
    # ---- containers
    for key, L in locs.items():
        if L.kind == "nodes":
            out = []
            for p in normal:
                v = p.effects.get(key, (0, 0, 0, L.hv))[3]
                base = L.hv
                if len(v) < len(base) or any(a is not b for a, b in zip(v, base)):
                    raise tm.Unsupported("loop rewrites a container")
                app = v[len(base):]
                c = tm.subst(p.pc, pre) if pre else p.pc
                out.append((c, fixn(app)))
            if len(out) == 1:
                L.app = tuple(out[0][1])
            elif out and all(len(a) == 1 and isinstance(a[0], Item) for _, a in out):
                L.app = C.merge_values([(c, a[0].v) for c, a in out])
            else:
                L.app = tuple(x for c, a in out for x in guard(c, a))
        elif L.kind == "other":
            vals = [p.effects.get(key, (0, 0, 0, L.hv))[3] for p in normal]
            if any(v is L.hv for v in vals) or not vals:
                L.last = None
            elif len(vals) == 1:
                L.last = fix(vals[0])
            elif all(is_scalar(v) for v in vals):
                r = tm.lift(I.norm_num(vals[-1]))
                for p, v in reversed(list(zip(normal[:-1], vals[:-1]))):
                    c = tm.subst(p.pc, pre) if pre else p.pc
                    r = tm.ite(c, tm.lift(I.norm_num(v)), r)
                L.last = fix(r)
            else:
                L.last = None

    def set_state(m):
        """state before iteration m"""
        for L in locs.values():
            if L.kind == "scalar":
                if L.new is L.h:
                    continue
                if order is not None and L.h.id not in tm.fv(L.new):
                    # the value left by whichever iteration was the last
                    s.put(L.cont, L.key, I.Poison(L.key))
                    continue
                s.put(L.cont, L.key, C.pyint(simpl(s, tm.subst(pre[L.h], {k: m}))))
            elif L.kind == "seq":
                s.put(L.cont, L.key, L.at(m))
            elif L.kind == "nodes":
                if L.app:
                    kb = _bv("n")
                    app = inst_nodes(L.app, {k: kb})
                    if any(isinstance(x, Rem) for x in app):
                        # a loop that only removes
                        if not all(isinstance(x, Rem) for x in app):
                            raise tm.Unsupported("loop that adds to and removes from a container")
                        s.put(L.cont, L.key, L.old + (Rem((For(kb, m, tuple(y for x in app for y in x.nodes)),)),))
                        continue
                    f = For(kb, m, app)
                    if order is not None and isinstance(L.cont, (PList, PDict)):
                        f = C.permuted(f, order)
                    s.put(L.cont, L.key, L.old + (f,))
            else:
                if order is not None:
                    s.put(L.cont, L.key, I.Poison(L.key))
                elif L.last is not None:
                    s.put(L.cont, L.key, I.Last(L.last, k, m, L.old))
                elif L.old is MISSING:
                    s.put(L.cont, L.key, I.Poison(L.key))
                else:
                    s.put(L.cont, L.key, I.Poison(L.key))

    # facts chosen inside the body
    for p in normal:
        ds = p.defs
        if ds:
            f = tm.implies(p.pc, tm.and_(*ds))
            f = tm.subst(f, pre) if pre else f
            if k.id in tm.fv(f):
                kb = _bv("d")
                f = tm.forall((kb,), tm.subst(tm.implies(rng(k, n), f), {k: kb}))
            s.define(f)
    if exits:
        E = tm.or_(*[(tm.subst(p.pc, pre) if pre else p.pc) for p in exits])
        if tm.fv(E) & hv:
            raise tm.Unsupported("loop exit depends on unsummarised state")
        kb = _bv("x")
        ex = tm.exists((kb,), tm.subst(tm.and_(rng(k, n), E), {k: kb}))
        if s.decide(ex):
            K = s.fresh("first", tm.I)
            s.define(tm.and_(rng(K, n), tm.subst(E, {k: K})))
            jb = _bv("x")
            s.define(tm.forall((jb,), tm.implies(tm.and_(tm.le(0, jb), tm.lt(jb, K)), tm.subst(tm.not_(E), {k: jb}))))
            set_state(K)
            r = run(inst_nodes(nd.nodes, {nd.k: K}))
            if r is None:
                raise Abandon("iteration at which the loop exits")
            return r
    set_state(n)
    return None


def merge_seq(vals):
    """one value from those of the paths through the body"""
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        if isinstance(r, Arr):
            if not isinstance(v, Arr) or v.shape != r.shape:
                raise tm.Unsupported("array of changing shape carried between iterations")
            r = Arr(r.shape, lambda *ix, a=v, b=r, c=c: tm.ite(c, real(a.get(*ix)), real(b.get(*ix))))
        else:
            if type(v) is not tuple or type(r) is not tuple or len(v) != len(r):
                raise tm.Unsupported("tuple of changing type carried between iterations")
            r = tuple(tm.ite(c, real(a), real(b)) for a, b in zip(v, r))
    return r


def rng(k, n):
    return tm.and_(tm.le(0, k), tm.lt(k, n))


def simpl(s, t):
    return t


def recurrence(s, L, new, k):
    """value of the location before iteration k, as a term in k"""
    h = L.h
    if h.id not in tm.fv(new):
        # assigned afresh
        return tm.ite(tm.eq(k, 0), L.init, tm.subst(new, {k: tm.sub(k, 1)}))
    if h.sort == "B":
        c0, c1 = tm.subst(new, {h: tm.FALSE}), tm.subst(new, {h: tm.TRUE})
        jb = _bv("j")
        r = tm.and_(tm.le(0, jb), tm.lt(jb, k))
        if c1 is tm.TRUE:
            return tm.or_(L.init, tm.exists((jb,), tm.and_(r, tm.subst(c0, {k: jb}))))
        if c0 is tm.FALSE:
            return tm.and_(L.init, tm.forall((jb,), tm.implies(r, tm.subst(c1, {k: jb}))))
        return None
    zero = tm.rconst(0) if h.sort == "R" else tm.const(0)
    e = tm.subst(new, {h: zero})
    if s.prover.ring_equal(new, tm.add(h, e)) or (has_ite(new) and all(additive(s, h, t) for t in leaves(h, new))
                                                        and s.prover.prove(s.facts, tm.eq(new, tm.add(h, e)))):
        jb = _bv("j")
        return tm.add(L.init, tm.ssum(jb, k, tm.subst(e, {k: jb})))
    if h.sort == "R" and e.op == "const" and e.args[0] == 0:
        f = tm.subst(new, {h: tm.rconst(1)})
        if s.prover.ring_equal(new, tm.mul(h, f)):
            jb = _bv("j")
            return tm.mul(L.init, tm.sprod(jb, k, tm.subst(f, {k: jb})))
    return None


def leaves(h, t):
    """alternatives of a conditional term (None for one whose condition depends on h)"""
    if t.op == "ite":
        return ([None] if h.id in tm.fv(t.args[0]) else []) + leaves(h, t.args[1]) + leaves(h, t.args[2])
    return [t]


def additive(s, h, t):
    """t is h plus something without h (or contains further conditionals)"""
    if t is None:
        return False
    if has_ite(t):
        return True
    return s.prover.ring_equal(t, tm.add(h, tm.subst(t, {h: tm.rconst(0) if h.sort == "R" else tm.const(0)})))


def has_ite(t):
    return any(u.op == "ite" for u in tm.subterms([t]))


def distinct_keys(s, k, n, L, paths):
    """different iterations write to different keys, and read no key written by another"""
    apps = [(p, p.effects.get((id(L.cont), L.key), (0, 0, 0, L.hv))[3][len(L.hv):]) for p in paths]
    if not all(C.allitems(a) for _, a in apps):
        return False
    jb = s.fresh_var("jj", tm.I)
    R = [tm.le(0, jb), tm.lt(jb, n), tm.le(0, k), tm.lt(k, n)]
    for _, ks in apps:
        other = inst_nodes(C.keys_only(ks), {k: jb})
        for key, facts in [(x.v[0], list(s.facts) + [p.pc]) for p, a in apps for x in a] + list(L.barrier.reads):
            w = C.member(key, other)
            g = (not w) if isinstance(w, bool) else tm.not_(w)
            if g is True:
                continue
            # the lattice settles j < k and j > k, not j != k
            for side in (tm.lt(jb, k), tm.lt(k, jb)):
                if not s.prover.prove(facts + R + [side], tm.boolterm(g)):
                    return False
    return True


def check_reads(s, k, n, L, normal):
    keys = []
    for p in normal:
        v = p.effects.get((id(L.cont), L.key), (0, 0, 0, L.hv))[3]
        keys.append(C.keys_only(v[len(L.hv):]))
    jb = s.fresh_var("jj", tm.I)
    for key, facts in L.barrier.reads:
        for ks in keys:
            w = C.member(key, inst_nodes(ks, {k: jb}))
            g = (not w) if isinstance(w, bool) else tm.not_(w)
            if g is True:
                continue
            fs = facts + [tm.le(0, jb), tm.lt(jb, k), tm.le(0, k), tm.lt(k, n)]
            if not s.prover.prove(fs, tm.boolterm(g)):
                raise tm.Unsupported("dictionary entry carried between iterations")
