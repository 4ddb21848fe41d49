"""Ring back end: decides equality of real/integer terms in the theory of commutative rings with
named inverses (field operations whose divisors are nonzero), sums over symbolic ranges, and
uninterpreted functions.  A polynomial is {packed exponent vector: coefficient}.

Sound for `is_zero -> True`; a False answer only means "not shown equal".
"""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import T

W = 12  # bits per exponent
MASK = (1 << W) - 1


class TooBig(Exception):
    pass


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


class Ring:
    def __init__(self, limit=3_000_000):
        self.atoms = []       # index -> (kind, payload)
        self.index = {}       # key -> index
        self.bound = []       # index -> frozenset of bound var atom ids it depends on
        self.memo = {}
        self.limit = limit
        self.apps = {}        # fname -> list of (index, args polys)
        self.special = {}     # index of an atom needing reduction -> kind
        self.facts = []       # callable (a, b) -> bool to settle equality of app args

    # ---- atoms
    def atom(self, kind, payload, key, deps=frozenset()):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.index[key] = i
            self.bound.append(deps)
        return i

    def one(self, i, e=1):
        return {e << (W * i): 1}

    def key(self, p):
        return frozenset(p.items())

    # ---- polynomial ops
    def mulp(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > self.limit * 20:
            raise TooBig()
        if len(p) == 1:
            (m, c), = p.items()
            r = {m + m2: c * c2 for m2, c2 in q.items()} if c != 1 else {m + m2: c2 for m2, c2 in q.items()}
        else:
            r = {}
            get = r.get
            for m, c in p.items():
                for m2, c2 in q.items():
                    k = m + m2
                    r[k] = get(k, 0) + c * c2
            r = {k: c for k, c in r.items() if c != 0}
        if len(r) > self.limit:
            raise TooBig()
        if self.special:
            r = self.reduce(r)
        return r

    def powp(self, p, e):
        r = {0: 1}
        b = p
        while e:
            if e & 1:
                r = self.mulp(r, b)
            e >>= 1
            if e:
                b = self.mulp(b, b)
        return r

    def exps(self, m):
        out = []
        i = 0
        while m:
            e = m & MASK
            if e:
                out.append((i, e))
            m >>= W
            i += 1
        return out

    def reduce(self, p):
        """sqrt(x)^2 -> x ; inv(a)*a -> 1 for single atoms; user rewriting atom^e -> poly."""
        changed = True
        while changed:
            changed = False
            for i, sp in self.special.items():
                sh = W * i
                if sp[0] == "pow":  # atom^e -> poly
                    e0, rep = sp[1], sp[2]
                    hit = [m for m in p if (m >> sh) & MASK >= e0]
                    if hit:
                        changed = True
                        q = {m: c for m, c in p.items() if (m >> sh) & MASK < e0}
                        for m in hit:
                            r = {m - (e0 << sh): p[m]}
                            saved, self.special = self.special, {}
                            try:
                                r = self.mulp(r, rep)
                            finally:
                                self.special = saved
                            q = padd(q, r)
                        p = q
                elif sp[0] == "inv1":  # inverse of a single atom j
                    j = sp[1]
                    sj = W * j
                    q = None
                    for m in list(p):
                        a, b = (m >> sh) & MASK, (m >> sj) & MASK
                        if a and b:
                            if q is None:
                                q = dict(p)
                            d = min(a, b)
                            c = q.pop(m)
                            m2 = m - (d << sh) - (d << sj)
                            v = q.get(m2, 0) + c
                            if v == 0:
                                q.pop(m2, None)
                            else:
                                q[m2] = v
                    if q is not None:
                        p = q
                        changed = True
        return p

    # ---- conversion
    def poly(self, t: T):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in self.memo:
                stack.pop()
                continue
            if u.op in ("add", "mul", "pow", "div", "toreal"):
                todo = [a for a in u.args if isinstance(a, T) and a.id not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
            self.memo[u.id] = self._poly(u)
            stack.pop()
        return self.memo[t.id]

    def _poly(self, t):
        o, a = t.op, t.args
        if o == "const":
            c = a[0]
            if isinstance(c, bool):
                c = int(c)
            return {0: _norm(c)} if c != 0 else {}
        if o == "var":
            return self.one(self.atom("var", t, ("var", t.id), frozenset((t.id,)) if a[0].startswith("%") else frozenset()))
        if o == "toreal":
            return self.poly(a[0])
        if o == "add":
            r = {}
            for u in a:
                r = padd(r, self.poly(u))
            return r
        if o == "mul":
            ps = sorted((self.poly(u) for u in a), key=len)
            r = {0: 1}
            for p in ps:
                r = self.mulp(r, p)
                if not r:
                    return r
            return r
        if o == "pow":
            return self.powp(self.poly(a[0]), a[1])
        if o == "div":
            return self.mulp(self.poly(a[0]), self.invp(self.poly(a[1]), t.args[1]))
        if o == "sum":
            return self.sump(t)
        if o == "app":
            return self.appp(t)
        if o == "ite":
            x, y = self.poly(a[1]), self.poly(a[2])
            if x == y:
                return x
        if o == "abs":
            # |c*q| = |c|*|q| with q monic: canonical up to sign and rational factor
            p = self.poly(a[0])
            if not p:
                return {}
            c0 = p[max(p)]
            if len(p) == 1 and 0 in p:
                return {0: abs(c0)}
            q = {m: _norm(Fraction(c) / c0) for m, c in p.items()}
            i = self.atom("opaque", tm.mul(tm.rconst(Fraction(1) / abs(Fraction(c0))), t), ("abs", self.key(q)), self.depsof(t))
            return {1 << (W * i): _norm(abs(Fraction(c0)))}
        # opaque atom: canonicalise by children keys
        key = (o,) + tuple(
            (self.key(self.poly(u)) if u.sort != "B" else ("b", self.boolkey(u))) if isinstance(u, T) else u for u in a
        )
        return self.one(self.atom("opaque", t, key, self.depsof(t)))

    def depsof(self, t):
        ids = tm.fv(t)
        return frozenset(v for v in ids if v in self._bv)

    _bv: set = set()

    def boolkey(self, t):
        o = t.op
        if o in ("and", "or"):
            return (o, frozenset(self.boolkey(u) for u in t.args))
        if o in ("eq", "le", "lt") and t.args[0].sort != "B":
            p = padd(self.poly(t.args[0]), self.poly(t.args[1]), -1)
            if not p:
                return o != "lt"
            # scale canonically
            m0 = min(p)
            s = p[m0] if o == "eq" else abs(p[m0])
            return (o, frozenset((m, Fraction(c) / s) for m, c in p.items()))
        if o == "not":
            return (o, self.boolkey(t.args[0]))
        if o == "app":
            return (o, t.args[0]) + tuple(self.key(self.poly(u)) for u in t.args[1:])
        return ("id", t.id)

    def invp(self, p, t=None):
        """inverse of a nonzero polynomial"""
        if not p:
            raise ZeroDivisionError("division by the zero polynomial")
        if len(p) == 1:
            (m, c), = p.items()
            r = {0: Fraction(1) / c}
            for i, e in self.exps(m):
                k, pay = self.atoms[i]
                if k == "inv":
                    r = self.mulp(r, self.powp(pay, e))
                else:
                    j = self.atom("inv", self.one(i), ("inv1", i), self.bound[i])
                    self.special.setdefault(j, ("inv1", i))
                    r = self.mulp(r, self.one(j, e))
            return r
        # monic normalisation
        m0 = max(p)
        c0 = p[m0]
        q = {m: _norm(Fraction(c) / c0) for m, c in p.items()}
        deps = frozenset()
        for m in q:
            for i, _ in self.exps(m):
                deps |= self.bound[i]
        j = self.atom("inv", q, ("inv", self.key(q)), deps)
        return {1 << (W * j): _norm(Fraction(1) / c0)}

    def appp(self, t):
        f = t.args[0]
        args = [self.poly(u) for u in t.args[1:]]
        if f == "log" and args[0] == {0: 1}:
            return {}
        if f == "exp" and not args[0]:
            return {0: 1}
        if f == "sqrt" and (not args[0] or args[0] == {0: 1}):
            return dict(args[0])
        deps = self.depsof(t)
        key = ("app", f) + tuple(self.key(p) for p in args)
        i = self.index.get(key)
        if i is None and f not in ("exp",):
            # congruence modulo field identities
            if any(self._has_inv(p) for p in args):
                for j, args2 in self.apps.get(f, ()):
                    if len(args2) == len(args) and all(self._same(p, q) for p, q in zip(args, args2)):
                        i = j
                        self.index[key] = i
                        break
        if i is None:
            i = self.atom("app", t, key, deps)
            self.apps.setdefault(f, []).append((i, args))
            if f == "sqrt":
                self.special[i] = ("pow", 2, args[0])
        return self.one(i)

    def _has_inv(self, p):
        return any(self.atoms[i][0] == "inv" for m in p for i, _ in self.exps(m))

    def _same(self, p, q):
        d = padd(p, q, -1)
        return not d or self.zero(d)

    def sump(self, t):
        v, n, body = t.args
        h = self.height(body) + 1
        cv = tm.var(f"%s{h}", tm.I)
        self._bv.add(cv.id)
        # free occurrences of cv in body would clash: heights prevent that, but be safe
        if cv.id in tm.fv(body) and cv is not v:
            raise tm.Unsupported("sum variable clash")
        body = tm._subst(body, {v.id: cv}, {}) if cv is not v else body
        p = self.poly(body)
        np_ = self.poly(n)
        nkey = self.key(np_)
        out = {}
        for m, c in p.items():
            ind, dep = 0, 0
            for i, e in self.exps(m):
                if cv.id in self.bound[i]:
                    dep |= e << (W * i)
                else:
                    ind |= e << (W * i)
            if dep == 0:
                cnt = self.maxp(n)
                out = padd(out, self.mulp({ind: c}, cnt))
            else:
                deps = frozenset()
                for i, _ in self.exps(dep):
                    deps |= self.bound[i]
                deps = deps - {cv.id} | self.depsof(n)
                if h > 1:
                    # canonical bound variable: the height of this monomial, not of the whole body
                    h2 = 1 + max((self.aheight(i) for i, _ in self.exps(dep)), default=0)
                    if h2 < h:
                        bt = tm._subst(self.mterm(dep), {cv.id: (v2 := tm.var(f"%s{h2}", tm.I))}, {})
                        self._bv.add(v2.id)
                        out = padd(out, self.mulp({ind: c}, self.poly(tm.mk("sum", (v2, n, bt), tm.R))))
                        continue
                swapped = self.exchange(cv, n, nkey, dep)
                if swapped is not None:
                    out = padd(out, self.mulp({ind: c}, self.poly(swapped)))
                    continue
                j = self.atom("sum", (cv, n, dep), ("sum", nkey, h, dep), deps)
                out = padd(out, self.mulp({ind: c}, self.one(j)))
        return out

    def exchange(self, cv, n, nkey, dep):
        """sum_i A(i) * sum_j B(i, j) -> sum_j sum_i A(i) * B(i, j), when the bound of j does not
        depend on i and comes first in the order of bounds; None if there is nothing to exchange"""
        inner = [i for i, _ in self.exps(dep) if self.atoms[i][0] == "sum"]
        if len(inner) != 1 or (dep >> (W * inner[0])) & MASK != 1:
            return None
        cvj, nj, depj = self.atoms[inner[0]][1]
        if cv.id in self.depsof(nj) or cvj.id in self.depsof(n):
            return None
        if not repr(sorted(self.poly(nj).items())) < repr(sorted(nkey)):
            return None
        vi, vj = tm.var("%x0", tm.I), tm.var("%x1", tm.I)
        self._bv.add(vi.id)
        self._bv.add(vj.id)
        rest = self.mterm(dep - (1 << (W * inner[0])))
        body = tm._subst(tm.mul(rest, self.mterm(depj)), {cv.id: vi, cvj.id: vj}, {})
        return tm.mk("sum", (vj, nj, tm.mk("sum", (vi, n, body), tm.R)), tm.R)

    def aheight(self, i):
        k, pay = self.atoms[i]
        if k == "sum":
            return int(pay[0].args[0][2:])
        if k == "inv":
            return max((self.aheight(j) for m in pay for j, _ in self.exps(m)), default=0)
        return self.height(pay)

    def aterm(self, i):
        k, pay = self.atoms[i]
        if k == "sum":
            return tm.mk("sum", (pay[0], pay[1], self.mterm(pay[2])), tm.R)
        if k == "inv":
            d = tm.rconst(0)
            for m, c in pay.items():
                d = tm.add(d, tm.mul(tm.rconst(c), self.mterm(m)))
            return tm.div(tm.rconst(1), d)
        return pay

    def mterm(self, m):
        r = tm.rconst(1)
        for i, e in self.exps(m):
            r = tm.mul(r, tm.power(tm.toreal(self.aterm(i)), e))
        return r

    def maxp(self, n):
        m = tm._max0(n)
        if m.op == "ite":
            return self.one(self.atom("opaque", m, ("max0", self.key(self.poly(n))), self.depsof(n)))
        return self.poly(m)

    def height(self, t):
        hs = self.__dict__.setdefault("_h", {})
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in hs:
                stack.pop()
                continue
            kids = [a for a in u.args if isinstance(a, T)]
            todo = [a for a in kids if a.id not in hs]
            if todo:
                stack.extend(todo)
                continue
            h = max((hs[a.id] for a in kids), default=0)
            hs[u.id] = h + 1 if u.op == "sum" else h
            stack.pop()
        return hs[t.id]

    # ---- decision
    def zero(self, p):
        """p == 0 modulo clearing of denominators"""
        p = self.reduce(p) if self.special else p
        guard = 0
        while p:
            guard += 1
            if guard > 60:
                return False
            # pick the inverse atom with the largest index (payloads only mention smaller ones)
            best = -1
            for m in p:
                b = m.bit_length() // W
                while b > best:
                    if (m >> (W * b)) & MASK and self.atoms[b][0] == "inv":
                        best = b
                        break
                    b -= 1
            if best < 0:
                return False
            sh = W * best
            den = self.atoms[best][1]
            dmax = max((m >> sh) & MASK for m in p)
            pows = [{0: 1}]
            saved, self.special = self.special, {k: v for k, v in self.special.items() if k != best}
            try:
                for _ in range(dmax):
                    pows.append(self.mulp(pows[-1], den))
                groups = {}
                for m, c in p.items():
                    e = (m >> sh) & MASK
                    groups.setdefault(e, {})[m - (e << sh)] = c
                p = {}
                for e, g in groups.items():
                    p = padd(p, self.mulp(g, pows[dmax - e]))
            finally:
                self.special = saved
            if self.special:
                p = self.reduce(p)
        return True

    def is_zero(self, t):
        return self.zero(self.poly(tm.lift(t)))

    def equal(self, a, b):
        return self.zero(padd(self.poly(tm.lift(a)), self.poly(tm.lift(b)), -1))

    def rule(self, v, e, t):
        """rewrite v^e -> t (an assumed equation)"""
        p = self.poly(v)
        (m, c), = p.items()
        (i, _), = self.exps(m)
        self.special[i] = ("pow", e, self.poly(t))
