"""Integer reasoning about row-major indices  row*n + col  (0 <= col < n).

While a Lattice is active (V.radix(n)), three rewritings are applied to integer terms; each is an equivalence under the
current facts, justified by the linear side condition that is proved before it is used:
  * A*n + B == 0  <->  A == 0 and B == 0         when |B| < n,
  * (A*n + B) div n = A, (A*n + B) mod n = B     when 0 <= B < n,
  * exists k in [0, m): k == t and P(k)  <->  0 <= t < m and P(t)      (t free of k).
Questions about linear integer facts are answered from the integer facts alone (not finding an answer there is
treated as `undecided`, which only makes the exploration consider more paths).
"""
from __future__ import annotations
import time
import z3
from . import terms as tm
from .terms import T


def ipoly(t):
    """{sorted tuple of atom ids: int}, atoms"""
    t = tm.lift(t)
    if t.op == "const":
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == "add":
        r = {}
        for a in t.args:
            for m, c in ipoly(a).items():
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r
    if t.op == "mul":
        r = {(): 1}
        for a in t.args:
            r = imul(r, ipoly(a))
        return r
    if t.op == "pow" and t.args[1] >= 0:
        r = {(): 1}
        p = ipoly(t.args[0])
        for _ in range(t.args[1]):
            r = imul(r, p)
        return r
    ATOMS[t.id] = t
    return {(t.id,): 1}


ATOMS: dict = {}


def imul(p, q):
    r = {}
    for m, c in p.items():
        for m2, c2 in q.items():
            k = tuple(sorted(m + m2))
            v = r.get(k, 0) + c * c2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def iterm(p):
    ts = []
    for m, c in sorted(p.items()):
        ts.append(tm.mul(tm.const(c), *[ATOMS[i] for i in m]) if m else tm.const(c))
    return tm.add(*ts) if ts else tm.const(0)


def normal(t):
    return iterm(ipoly(t))


class Lattice:
    def __init__(self, ctx):
        self.ctx = ctx
        self.radices = []
        self.memo = {}
        self.busy = False
        self.tr_memo = {}

    # ------------------------------------------------------------ linear entailment
    def islin(self, f):
        """quantifier-free boolean combination of integer comparisons"""
        if f.op == "const":
            return True
        if f.op in ("and", "or", "not"):
            return all(self.islin(a) for a in f.args)
        if f.op in ("le", "lt", "eq"):
            if f.args[0].sort == tm.B:
                return all(self.islin(a) for a in f.args)
            return f.args[0].sort == tm.I
        if f.op == "ite":
            return all(self.islin(a) for a in f.args)
        return False

    def z(self, f):
        r = self.tr_memo.get(f.id)
        if r is not None:
            return r
        o, a = f.op, f.args
        if o == "const":
            r = z3.BoolVal(a[0])
        elif o == "and":
            r = z3.And([self.z(x) for x in a])
        elif o == "or":
            r = z3.Or([self.z(x) for x in a])
        elif o == "not":
            r = z3.Not(self.z(a[0]))
        elif o == "ite":
            r = z3.If(self.z(a[0]), self.z(a[1]), self.z(a[2]))
        elif o == "eq" and a[0].sort == tm.B:
            r = self.z(a[0]) == self.z(a[1])
        else:
            p = ipoly(tm.sub(a[1], a[0]))
            e = z3.Sum([c * self.mono(m) for m, c in p.items()]) if p else z3.IntVal(0)
            r = e == 0 if o == "eq" else (e > 0 if o == "lt" else e >= 0)
        self.tr_memo[f.id] = r
        return r

    def mono(self, m):
        if not m:
            return z3.IntVal(1)
        if len(m) == 1:
            t = ATOMS[m[0]]
            if t.op == "ite":
                return z3.If(self.z(t.args[0]), self.lin(t.args[1]), self.lin(t.args[2])) if self.islin(t.args[0]) else z3.Int(f"m{m[0]}")
            return z3.Int(f"m{m[0]}")
        return z3.Int("m" + "_".join(map(str, m)))

    def lin(self, t):
        p = ipoly(t)
        return z3.Sum([c * self.mono(m) for m, c in p.items()]) if p else z3.IntVal(0)

    def entails(self, goal):
        goal = tm.boolterm(goal)
        if goal.op == "const":
            return bool(goal.args[0])
        if not self.islin(goal):
            return False
        c = self.ctx
        fs = [f for f in c.facts if self.islin(f)]
        key = (frozenset(f.id for f in fs), goal.id)
        r = self.memo.get(key)
        if r is None:
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add([self.z(f) for f in fs])
            if tm.PERMS[0]:
                s.add(self.orders(fs + [goal]))
            s.add(z3.Not(self.z(goal)))
            r = s.check() == z3.unsat
            from .prover import STATS
            STATS["z3_queries"] += 1
            STATS["z3_time"] += time.time() - t0
            self.memo[key] = r
        return r

    def orders(self, fs):
        """permuted indices stay in range and are different for different indices"""
        ps = [t for t in tm.subterms(fs) if tm.is_perm(t)]
        out = []
        for j, t in enumerate(ps):
            n, i = t.args[-2:]
            out.append(self.z(tm.implies(tm.and_(tm.le(0, i), tm.lt(i, n)), tm.and_(tm.mk("le", (tm.const(0), t), tm.B), tm.mk("lt", (t, n), tm.B)))))
            for u in ps[:j]:
                if u.args[0] == t.args[0] and all(x is y for x, y in zip(u.args[1:-1], t.args[1:-1])):
                    out.append(self.z(tm.or_(tm.lt(t, u), tm.lt(u, t), tm.eq(i, u.args[-1]))))
        return out

    # ------------------------------------------------------------ row / column
    def split(self, t, n):
        """(row, col) with t == row*n + col and 0 <= col < n under the facts, or None"""
        p = ipoly(t)
        row, col = {}, {}
        for m, c in p.items():
            if n.id in m:
                m2 = list(m)
                m2.remove(n.id)
                row[tuple(m2)] = c
            else:
                col[m] = c
        for d in (0, -1, 1, -2, 2):
            cc = dict(col)
            if d:
                v = cc.get((n.id,), 0) - d
                cc[(n.id,)] = v
            ct = iterm(cc)
            if self.entails(tm.and_(tm.le(0, ct), tm.lt(ct, n))):
                return tm.add(iterm(row), d), ct
        return None

    def eq(self, a, b):
        """an equivalent of a == b, or None"""
        p = ipoly(tm.sub(a, b))
        for n in self.radices:
            if not any(n.id in m for m in p):
                continue
            A, B = {}, {}
            for m, c in p.items():
                if n.id in m:
                    m2 = list(m)
                    m2.remove(n.id)
                    A[tuple(m2)] = c
                else:
                    B[m] = c
            for d in (0, -1, 1):
                bb = dict(B)
                if d:
                    bb[(n.id,)] = bb.get((n.id,), 0) - d
                bt = iterm(bb)
                if self.entails(tm.and_(tm.lt(tm.neg(n), bt), tm.lt(bt, n))):
                    at = tm.add(iterm(A), d)
                    return tm.and_(self.lineq(at), self.lineq(bt))
        return None

    def ge0(self, t):
        """t >= 0 in a normal form"""
        p = ipoly(t)
        if not p or (len(p) == 1 and () in p):
            return tm.const(not p or p[()] >= 0)
        t = iterm(p)
        for n in self.radices:
            if any(n.id in m and (len(m) > 1) for m in p):
                rc = self.split(t, n)
                if rc is not None:
                    return self.ge0(rc[0])
        e = tm.le(0, t)
        if self.entails(e):
            return tm.TRUE
        if self.entails(tm.not_(e)):
            return tm.FALSE
        return e

    def simp(self, t, depth=0):
        """an equivalent of the boolean term t under the facts: integer comparisons in normal form or settled"""
        t = tm.boolterm(t)
        o, a = t.op, t.args
        if o == "not":
            return tm.not_(self.simp(a[0], depth))
        if o == "and":
            return tm.and_(*[self.simp(x, depth) for x in a])
        if o == "or":
            return tm.or_(*[self.simp(x, depth) for x in a])
        if o == "eq" and a[0].sort == tm.I:
            r = self.eq(*a)
            return self.lineq(tm.sub(*a)) if r is None else r
        if o == "le" and a[0].sort == tm.I:
            return self.ge0(tm.sub(a[1], a[0]))
        return t

    def lineq(self, t):
        """t == 0 in a normal form; settled when the linear facts settle it"""
        p = ipoly(t)
        if not p:
            return tm.TRUE
        if len(p) == 1 and () in p:
            return tm.FALSE
        e = tm.eq(iterm(p), 0)
        if self.entails(e):
            return tm.TRUE
        if self.entails(tm.not_(e)):
            return tm.FALSE
        return e

    def divmod(self, a, n):
        if not any(n is r for r in self.radices):
            return None
        if self.busy:
            return None
        return self.split(a, n)


def solve(k, e):
    """t with  e <-> k == t  for an integer equation e, else None"""
    if e.op != "eq" or e.args[0].sort != tm.I:
        return None
    p = ipoly(tm.sub(e.args[0], e.args[1]))
    c = p.pop((k.id,), 0)
    if c not in (1, -1) or any(k.id in tm.fv(ATOMS[i]) for m in p for i in m):
        return None
    return iterm({m: -c * v for m, v in p.items()})


def exists1(k, n, b):
    """exists k in [0, n): b, with the one-point rule applied through disjunctions and conjunctions"""
    b = tm.boolterm(b)
    if b is tm.FALSE:
        return b
    if tm.PERMS[0]:
        r = tm.unpermute(k, n, b, atoms=True)
        if r is not None:
            k, b = r
    if b.op == "or":
        return tm.or_(*[exists1(k, n, x) for x in b.args])
    parts = b.args if b.op == "and" else (b,)
    for e in parts:
        t = solve(k, e)
        if t is not None:
            return tm.and_(tm.le(0, t), tm.lt(t, n), *[tm.subst(x, {k: t}) for x in parts if x is not e])
    out = [x for x in parts if k.id not in tm.fv(x)]
    inn = [x for x in parts if k.id in tm.fv(x)]
    for i, x in enumerate(inn):
        if x.op == "or" and len(x.args) <= 6:
            rest = inn[:i] + inn[i + 1:]
            ds = [exists1(k, n, tm.and_(y, *rest)) for y in x.args]
            if not any(_mentions_exists(d) for d in ds):
                return tm.and_(*out, tm.or_(*ds))
    if not inn:
        return tm.and_(*out, tm.lt(0, n))
    return tm.and_(*out, tm.exists((k,), tm.and_(tm.le(0, k), tm.lt(k, n), *inn)))


def _mentions_exists(t):
    return any(u.op in ("exists", "forall") for u in tm.subterms([t]))
