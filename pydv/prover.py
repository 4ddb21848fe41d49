"""Discharging obligations: ring normalisation first, then SMT (z3, then cvc5)."""
from __future__ import annotations
import sys, time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from . import terms as tm
from .terms import T
from .ring import Ring, TooBig

STATS = {"z3_queries": 0, "z3_time": 0.0, "ring_queries": 0, "ring_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0}


class Z3Tr:
    def __init__(self, ring=None):
        self.memo = {}
        self.decls = {}
        self.side = []       # axiom instances
        self.sidedone = set()
        self.ring = ring or Ring()

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]

    def fn(self, name, argsorts, res):
        key = (name, tuple(argsorts), res)
        d = self.decls.get(key)
        if d is None:
            nm = name if not argsorts else f"{name}/{''.join(argsorts)}"
            d = z3.Function(nm, *[self.sort(s) for s in argsorts], self.sort(res))
            self.decls[key] = d
        return d

    def __call__(self, t: T):
        memo = self.memo
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in memo:
                stack.pop()
                continue
            kids = [a for a in u.args if isinstance(a, T)]
            if u.op == "sum":
                kids = [u.args[1]]
            todo = [a for a in kids if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[u.id] = self._tr(u)
            stack.pop()
        return memo[t.id]

    def _tr(self, t):
        o, a = t.op, t.args
        g = lambda u: self.memo[u.id]
        if o == "const":
            v = a[0]
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if t.sort == "I":
                return z3.IntVal(v)
            v = Fraction(v)
            return z3.RealVal(f"{v.numerator}/{v.denominator}")
        if o == "var":
            return z3.Const(a[0] + ("" if t.sort == "R" else ":" + t.sort), self.sort(t.sort))
        if o == "add":
            return z3.Sum([g(u) for u in a])
        if o == "mul":
            return z3.Product([g(u) for u in a])
        if o == "pow":
            b = g(a[0])
            return z3.Product([b] * a[1]) if a[1] <= 8 else b ** a[1]
        if o == "div":
            return g(a[0]) / g(a[1])
        if o == "idiv":
            return self._floordiv(g(a[0]), g(a[1]), a[1])
        if o == "mod":
            x, y = g(a[0]), g(a[1])
            return x - y * self._floordiv(x, y, a[1])
        if o == "floor":
            return z3.ToInt(g(a[0]))
        if o == "toreal":
            return z3.ToReal(g(a[0]))
        if o == "abs":
            x = g(a[0])
            return z3.If(x >= 0, x, -x)
        if o == "not":
            return z3.Not(g(a[0]))
        if o == "and":
            return z3.And([g(u) for u in a])
        if o == "or":
            return z3.Or([g(u) for u in a])
        if o == "ite":
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if o == "lt":
            return g(a[0]) < g(a[1])
        if o == "le":
            return g(a[0]) <= g(a[1])
        if o == "eq":
            return g(a[0]) == g(a[1])
        if o in ("forall", "exists"):
            q = z3.ForAll if o == "forall" else z3.Exists
            return q([g(v) for v in a[:-1]], g(a[-1]))
        if o == "sum":
            fvs = sorted(tm.fv(t))
            if not any(tm_name(i).startswith("%") for i in fvs):
                try:
                    k = "sum:" + str(self.ring.index.setdefault(("sumkey", self.ring.key(self.ring.poly(t))), len(self.ring.index) + 10**6))
                except TooBig:
                    k = f"sum#{t.id}"
                return z3.Const(k, self.sort(t.sort))
            vs = [v for v in tm.subterms([t]) if v.op == "var" and v.id in tm.fv(t)]
            vs.sort(key=lambda v: v.id)
            return self.fn(f"sum#{t.id}", [v.sort for v in vs], t.sort)(*[self(v) for v in vs])
        if o == "app":
            xs = [g(u) for u in a[1:]]
            r = self.fn(a[0], [u.sort for u in a[1:]], t.sort)(*xs) if xs else z3.Const(a[0] + "()", self.sort(t.sort))
            self.axioms(t, a[0], xs, r)
            return r
        raise tm.Unsupported("z3 translation of " + o)

    def _floordiv(self, x, y, yt):
        if yt.op == "const" and yt.args[0] > 0:
            return x / y
        # python floor semantics for any sign of the divisor
        return z3.If(y > 0, x / y, (-x) / (-y))

    def axioms(self, t, f, xs, r):
        if t.id in self.sidedone or any(tm_name(i).startswith("%b") for i in tm.fv(t)):
            return
        self.sidedone.add(t.id)
        if f == "sqrt":
            self.side.append(z3.And(r >= 0, z3.Implies(xs[0] >= 0, r * r == xs[0])))
        elif f == "exp":
            self.side.append(z3.And(r > 0, r >= 1 + xs[0], z3.Implies(xs[0] <= 0, r <= 1), z3.Implies(xs[0] < 0, r < 1)))
        elif f.startswith("perm!"):
            # a permutation of [0, n)
            i, n = xs[-1], xs[-2]
            inv = self.fn(f[:-3] if f.endswith("^-1") else f + "^-1", [u.sort for u in t.args[1:]], t.sort)
            self.side.append(z3.And(z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= r, r < n)), inv(*xs[:-1], r) == i))
        elif f == "log":
            self.side.append(z3.Implies(xs[0] > 0, z3.And(r <= xs[0] - 1, z3.Implies(r == xs[0] - 1, xs[0] == 1))))


def tm_name(i):
    return _names.get(i) or _loadname(i)


_names: dict = {}


def _loadname(i):
    for t in list(tm._table.values()):
        if t.op == "var":
            _names[t.id] = t.args[0]
    return _names.get(i, "")


class Result:
    def __init__(self, ok, backend, model=None, reason=""):
        self.ok, self.backend, self.model, self.reason = ok, backend, model, reason

    def __bool__(self):
        return self.ok


class Prover:
    def __init__(self, timeout=8000):
        self.ring = Ring()
        self.timeout = timeout
        self.use_cvc5 = True

    # ---------- smt
    def smt(self, facts, goal, timeout=None, model=False):
        """Is goal a consequence of facts? -> 'valid' | 'invalid' | 'unknown', model"""
        tr = Z3Tr(self.ring)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        try:
            for f in facts:
                s.add(tr(f))
            s.add(z3.Not(tr(goal)))
            for ax in tr.side:
                s.add(ax)
        except z3.Z3Exception as e:
            raise tm.Unsupported(f"z3: {e}")
        t0 = time.time()
        r = s.check()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if r == z3.unsat:
            return "valid", None
        if r == z3.sat:
            return "invalid", s.model() if model else None
        self._last = s
        return "unknown", None

    def cvc5(self, facts, goal, timeout=None):
        try:
            import cvc5
        except ImportError:
            return "unknown"
        tr = Z3Tr(self.ring)
        s = z3.Solver()
        for f in facts:
            s.add(tr(f))
        s.add(z3.Not(tr(goal)))
        for ax in tr.side:
            s.add(ax)
        text = s.to_smt2()
        t0 = time.time()
        STATS["cvc5_queries"] += 1
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(int(timeout or self.timeout)))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            res = "unknown"
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out = c.invoke(slv, sm)
                if "unsat" in str(out):
                    res = "valid"
                elif str(out).strip() == "sat":
                    res = "invalid"
            return res
        except Exception:
            return "unknown"
        finally:
            STATS["cvc5_time"] += time.time() - t0

    def entails(self, facts, goal, timeout=1500):
        goal = tm.boolterm(goal)
        if goal is tm.TRUE:
            return True
        ids = {f.id for f in facts}
        if goal.id in ids:
            return True
        return self.smt(facts, goal, timeout)[0] == "valid"

    def feasible(self, facts, cond, timeout=1500):
        if cond is tm.FALSE or tm.not_(cond).id in {f.id for f in facts}:
            return False
        qf = [f for f in facts if not has_quant(f)]
        if not has_quant(cond):
            if self.smt(qf, tm.not_(cond), timeout)[0] == "valid":
                return False
            if len(qf) == len(facts):
                return True
        return self.smt(facts, tm.not_(cond), timeout)[0] != "valid"

    # ---------- equality
    def ring_equal(self, a, b):
        t0 = time.time()
        STATS["ring_queries"] += 1
        try:
            return self.ring.equal(a, b)
        except (TooBig, ZeroDivisionError):
            return False
        finally:
            STATS["ring_time"] += time.time() - t0

    # ---------- main entry
    def prove(self, facts, goal, depth=0, timeout=None) -> Result:
        goal = tm.boolterm(goal)
        facts = list(facts)
        if goal is tm.TRUE:
            return Result(True, "trivial")
        ids = {f.id for f in facts}
        if goal.id in ids:
            return Result(True, "trivial")
        if tm.FALSE.id in ids:
            return Result(True, "trivial")
        o, a = goal.op, goal.args
        if o == "and":
            backs = []
            for g in a:
                r = self.prove(facts, g, depth, timeout)
                if not r:
                    return r
                backs.append(r.backend)
            return Result(True, best(backs))
        if o == "forall":
            m = {}
            for v in a[:-1]:
                tm._fresh[0] += 1
                m[v] = tm.var(f"sk{tm._fresh[0]}_{v.args[0].lstrip('%')}", v.sort)
            return self.prove(facts, tm.subst(a[-1], m), depth, timeout)
        if o == "or":
            # assume the negations of all but the "main" disjunct
            main = None
            for g in a:
                if g.op in ("eq", "and", "forall", "exists") and (main is None or g.op != "exists"):
                    main = g
            if main is None:
                main = a[-1]
            f2 = facts + flat([tm.not_(g) for g in a if g is not main])
            return self.prove(f2, main, depth, timeout)
        if o == "eq":
            x, y = a
            if x.sort == "B":
                r1 = self.prove(facts + flat([x]), y, depth, timeout)
                if not r1:
                    return r1
                r2 = self.prove(facts + flat([y]), x, depth, timeout)
                return r2 if not r2 else Result(True, best([r1.backend, r2.backend]))
            if self.ring_equal(x, y):
                return Result(True, "ring")
            if self.modulo(facts, x, y):
                return Result(True, "ring")
            # eliminate variables defined by equations in facts
            x2, y2 = self.elim(facts, [x, y])
            if (x2 is not x or y2 is not y) and self.ring_equal(x2, y2):
                return Result(True, "ring")
            # case split
            if depth < 6:
                c = find_ite([x2, y2])
                if c is not None:
                    backs = []
                    for val, lit in ((True, c), (False, tm.not_(c))):
                        if self.entails(facts, tm.not_(lit), 700):
                            continue
                        u = tm.eq(resolve_ite(x2, c, val), resolve_ite(y2, c, val))
                        r = self.prove(facts + flat([lit]), u, depth + 1, timeout)
                        if not r:
                            return r
                        backs.append(r.backend)
                    return Result(True, best(backs) if backs else "z3")
        if o == "le" and a[0].sort == "R":
            from .engine import nonneg_syn
            if nonneg_syn(tm.sub(a[1], a[0])):
                return Result(True, "trivial")
        if o == "exists":
            r = self.witness(facts, goal, depth, timeout)
            if r:
                return r
        if depth == 0 or o in ("eq", "le", "lt"):
            m = self.refute(facts, goal)
            if m is not None:
                return Result(False, "evaluation", m, "refuted")
        return self.last(facts, goal, timeout)

    def refute(self, facts, goal, tries=60):
        """random point at which all facts hold and the goal fails (quantifier-free facts and goals only)"""
        if has_quant(goal) or any(has_quant(f) for f in facts):
            return None
        import random, hashlib, time as _t
        vs = [u for u in tm.subterms([goal] + facts) if u.op == "var"]
        if len(tm.subterms([goal])) > 60000:
            return None
        rnd = random.Random(1)
        t0 = _t.time()
        for n in range(tries):
            if _t.time() - t0 > 4:
                break
            env = {}
            for v in vs:
                env[v.args[0]] = rnd.randint(0, 4) if v.sort == "I" else (Fraction(rnd.randint(-9, 9), rnd.choice((1, 2, 3, 5)))
                                                                           if v.sort == "R" else rnd.random() < .5)
            memo = {}

            class Funs(dict):
                def __contains__(self, f):
                    return f not in ("sqrt", "exp", "log")

                def __getitem__(self, f):
                    def val(*xs):
                        h = int(hashlib.sha1(f"{n}|{f}|{xs}".encode()).hexdigest()[:8], 16)
                        return Fraction(h % 41 - 20, 1 + h // 41 % 3) if not sorts.get(f) == "I" else h % 5
                    return val
            sorts = {}
            for u in tm.subterms([goal] + facts):
                if u.op == "app":
                    sorts[u.args[0]] = u.sort
            try:
                if not all(tm.evaluate(f, env, Funs(), memo) for f in facts):
                    continue
                g = goal
                if g.op in ("eq", "le", "lt") and g.args[0].sort != "B":
                    a, b = tm.evaluate(g.args[0], env, Funs(), memo), tm.evaluate(g.args[1], env, Funs(), memo)
                    d = float(a) - float(b)
                    tol = 1e-7 * (1 + abs(float(a)) + abs(float(b)))
                    bad = abs(d) > tol if g.op == "eq" else d > tol
                else:
                    bad = tm.evaluate(g, env, Funs(), memo) is False
                if bad:
                    return {k: str(v) for k, v in env.items() if not k.startswith("%")}
            except (ZeroDivisionError, tm.SymError, ValueError, OverflowError, KeyError, TypeError, RecursionError):
                continue
        return None

    def last(self, facts, goal, timeout=None):
        st, m = self.smt(facts, goal, timeout, model=True)
        if st == "valid":
            return Result(True, "z3")
        if st == "unknown" and self.use_cvc5:
            if self.cvc5(facts, goal, timeout) == "valid":
                return Result(True, "cvc5")
        return Result(False, "z3", m, st)

    def witness(self, facts, goal, depth, timeout):
        """existential goal: try witnesses taken from the integer/real terms in scope"""
        vs, body = goal.args[:-1], goal.args[-1]
        if len(vs) > 3 or depth > 2:
            return Result(False, "")
        cands = self._cands(facts, goal, vs)
        import itertools
        n = 0
        for combo in itertools.product(*[cands[v.sort] for v in vs]):
            n += 1
            if n > 60:
                break
            inst = tm.subst(body, dict(zip(vs, combo)))
            if inst is tm.FALSE:
                continue
            if self.entails(facts, inst, 800):
                return Result(True, "z3")
        return Result(False, "")

    def _cands(self, facts, goal, vs):
        pool = {"I": [], "R": []}
        seen = set()
        for t in tm.subterms([goal.args[-1]]) + tm.subterms([f for f in facts if not has_quant(f)]):
            if t.sort in pool and t.op == "var" and not t.args[0].startswith("%") and t.id not in seen:
                seen.add(t.id)
                pool[t.sort].append(t)
        pool["I"].append(tm.const(0))
        return pool

    def modulo(self, facts, x, y):
        """x == y modulo assumed equations about sums over symbolic ranges (a linear atom is rewritten)"""
        rules = []
        try:
            for f in facts:
                if f.op == "eq" and f.args[0].sort != "B" and any(u.op == "sum" for u in f.args):
                    d = self.ring.poly(tm.sub(f.args[0], f.args[1]))
                    for m, c in d.items():
                        e = self.ring.exps(m)
                        if len(e) == 1 and e[0][1] == 1 and self.ring.atoms[e[0][0]][0] == "sum":
                            i = e[0][0]
                            if not any(j == i for m2 in d if m2 != m for j, _ in self.ring.exps(m2)):
                                rules.append((i, {k: -Fraction(v) / c for k, v in d.items() if k != m}))
                                break
            if not rules:
                return False
            p = self.ring.poly(tm.sub(x, y))
            saved = self.ring.special
            self.ring.special = {**saved, **{i: ("pow", 1, r) for i, r in rules}}
            try:
                return self.ring.zero(p)
            finally:
                self.ring.special = saved
        except (TooBig, ZeroDivisionError):
            return False

    def elim(self, facts, ts):
        """substitute variables by equations var = term found in facts"""
        done = set()
        for _ in range(10):
            hit = False
            for f in facts:
                if f.op == "eq" and f.args[0].sort != "B" and f.id not in done:
                    l, r = f.args
                    for v, e in ((l, r), (r, l)):
                        if v.op == "toreal":
                            continue
                        if v.op == "var" and v.id not in tm.fv(e) and any(v.id in tm.fv(t) for t in ts):
                            ts = [tm.subst(t, {v: e}) for t in ts]
                            done.add(f.id)
                            hit = True
                            break
                        if v.op == "app" and not any(u is v for u in tm.subterms([e])) and any(u is v for u in tm.subterms(ts)):
                            ts = [tm.replace(t, v, e) for t in ts]
                            done.add(f.id)
                            hit = True
                            break
            if not hit:
                break
        return ts


_q: dict = {}


def has_quant(t):
    r = _q.get(t.id)
    if r is None:
        r = any(u.op in ("forall", "exists") for u in tm.subterms([t]))
        _q[t.id] = r
    return r


def flat(ts):
    out = []
    for t in ts:
        t = tm.boolterm(t)
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    return out


ORDER = ["trivial", "ring", "z3", "cvc5"]


def best(bs):
    return max(bs, key=ORDER.index) if bs else "trivial"


def find_ite(ts):
    stack = list(ts)
    seen = set()
    bound = set()
    for u in tm.subterms(ts):
        if u.op == "sum":
            bound.add(u.args[0].id)
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("forall", "exists"):
            continue
        if u.op == "ite" and not (tm.fv(u.args[0]) & bound):
            return u.args[0]
        if u.op == "abs" and not (tm.fv(u.args[0]) & bound):
            return tm.le(0, u.args[0])
        stack.extend(a for a in u.args if isinstance(a, T))
    return None


def resolve_ite(t, c, val, memo=None):
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    nc = tm.not_(c)
    if t.op == "ite" and t.args[0] is c:
        r = resolve_ite(t.args[1] if val else t.args[2], c, val, memo)
    elif t.op == "ite" and t.args[0] is nc:
        r = resolve_ite(t.args[2] if val else t.args[1], c, val, memo)
    elif t.op == "abs" and tm.le(0, t.args[0]) is c:
        x = resolve_ite(t.args[0], c, val, memo)
        r = x if val else tm.neg(x)
    elif any(isinstance(a, T) for a in t.args) and t.op not in ("forall", "exists"):
        args = [(resolve_ite(a, c, val, memo) if isinstance(a, T) else a) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else tm.rebuild(t, args)
    else:
        r = t
    memo[t.id] = r
    return r
