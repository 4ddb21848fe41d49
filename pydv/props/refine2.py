"""Contract of _refine_equilateral_triangle: one coarse triangle, any refinement factor, any state of the fine grid.

The loops that create the points are verified with the invariant `Inv(m)`: vertices 0..m-1, point number i at (A(i) h, B(i) h),
no two points at the same place.  point_to_vertex, append_edge and _refine_boundary_edge enter by their contracts (refine.py)."""
import ast
from .refine import *
from .. import loops
from ..containers import Barrier, inst_nodes

P2V, APPEND, BOUNDARY = "point_to_vertex", "append_edge", "_refine_boundary_edge"


def reaches(st, name, mods, seen=None):
    """does the statement mention `name`, directly or through functions of the modules"""
    seen = set() if seen is None else seen
    for nd in ast.walk(st):
        n = nd.id if isinstance(nd, ast.Name) else nd.attr if isinstance(nd, ast.Attribute) else None
        if n is None or n in seen:
            continue
        if n == name:
            return True
        seen.add(n)
        for m in mods:
            for d in m.get(n, ()):
                if reaches(d, name, mods, seen):
                    return True
    return False


def functions(modname):
    import inspect
    tree = ast.parse(inspect.getsource(mod(modname)))
    out = {}
    for nd in ast.walk(tree):
        if isinstance(nd, ast.FunctionDef):
            out.setdefault(nd.name, []).append(nd)
    return out


class Corners(PList):
    """the list of points of the coarse grid; the three corners are spelled out in terms of the first"""
    __slots__ = ("corners",)

    def index(self, i):
        p = self.corners.get(i.id) if isinstance(i, tm.T) else None
        return p if p is not None else PList.index(self, i)


class Triangle(Fine):
    def __init__(self, V, sigma, flags):
        super().__init__(V)
        D = mod("domain")
        self.sigma = sigma
        self.N, self.r = V.int("N", "r")
        self.ix = V.int("i1", "i2", "i3")
        r, i1, i2, i3 = self.r, *self.ix
        V.requires(tm.le(1, r), tm.le(3, self.N), tm.le(self.N, self.m), *[self.range(i, self.N) for i in self.ix])
        V.requires(*[tm.not_(tm.eq(a, b)) for a, b in ((i1, i2), (i2, i3), (i3, i1))])
        V.known_nonzero(tm.toreal(r), r)
        self.off = {}
        for i, (k, l) in zip(self.ix, ((0, 0), (r, 0), (0, r))):
            a, b = self.P(k, l)
            if i is not i1:
                V.requires(tm.eq(self.A(i), a), tm.eq(self.B(i), b))
        t = self.i
        # the coarse grid
        self.coarse = self.holder(D, [PList(self.vertices(self.N)), self.coarse_edges(flags), self.coarse_triangles(), self.corner_points()])
        # the fine grid so far
        self.fine = self.holder(D, [PList(self.vertices(self.m)), PList([Barrier(lambda k: False)]), PList([Barrier(lambda k: False)]),
                                    PList(self.points(self.m))])
        self.dicts = [PDict([Barrier(lambda k: False)]) for _ in range(4)]
        self.cur = (self.m, getattr_(self.fine, "vertices").nodes, getattr_(self.fine, "points").nodes)
        self.level = 0
        self.requested, self.parts = PList(), PList()
        self.mods = [functions("domain")]
        G = D.Grid
        interp.CONTRACTS[G.point_to_vertex] = lambda a, k: self.lookup(*a, **k)
        interp.CONTRACTS[G.append_edge] = lambda a, k: self.request(*a, **k)
        interp.CONTRACTS[D._refine_boundary_edge] = lambda a, k: self.boundary(*a, **k)
        V.c.loop_handlers.append(self.loop)
        V.cover("coarse triangle and fine grid")

    def holder(self, D, fields):
        bd = lambda: call(D.Boundary, [PList([Barrier(lambda k: False)]), PList([Barrier(lambda k: False)])])
        g = call(D.Grid, [fields[0], lst([]), fields[2], bd(), bd(), bd(), fields[3]])
        interp.setattr_(g, "edges", fields[1])
        return g

    def P(self, k, l):
        """fine lattice point number (k, l) of the triangle"""
        i1 = self.ix[0]
        s = self.sigma
        return tm.add(self.A(i1), tm.mul(s, tm.add(k, l))), tm.add(self.B(i1), tm.mul(s, tm.lift(l)))

    def coarse_edges(self, flags):
        """each side is listed once, in the orientation of the triangle when its flag is set"""
        V, t = self.V, self.i
        i1, i2, i3 = self.ix
        sides = ((i1, i2), (i2, i3), (i3, i1))
        self.sides = [tuple(map(C.pyint, s if f else s[::-1])) for s, f in zip(sides, flags)]
        n = V.int("number of other edges")
        V.requires(tm.le(0, n))
        e = tuple(tm.app(x, [t], tm.I) for x in ("ce0", "ce1"))
        for a, b in sides:
            for p, q in ((a, b), (b, a)):
                V.requires(tm.forall((t,), tm.implies(tm.and_(tm.le(0, t), tm.lt(t, n)), tm.not_(tm.and_(tm.eq(e[0], p), tm.eq(e[1], q))))))
        return PList([For(t, n, [Item(e)])] + [Item(s) for s in self.sides])

    def coarse_triangles(self):
        n = self.V.int("number of other triangles")
        self.V.requires(tm.le(0, n))
        return PList([For(self.i, n, [Item(tuple(tm.app(f"ct{j}", [self.i], tm.I) for j in range(3)))]), Item(tuple(map(C.pyint, self.ix)))])

    def corner_points(self):
        p = Corners(self.points(self.N))
        r = self.r
        p.corners = {i.id: self.at(*self.P(k, l)) for i, (k, l) in zip(self.ix, ((0, 0), (r, 0), (0, r)))}
        return p

    def tv(self, k, l):
        return tm.app("tv", [tm.lift(k), tm.lift(l)], tm.I)

    def snapshot(self):
        out = {"cur": self.cur, "requested": self.requested.nodes, "parts": self.parts.nodes}
        for g, n in ((self.coarse, "coarse"), (self.fine, "fine")):
            for f in ("vertices", "edges", "triangles", "points"):
                out[n, f] = getattr_(g, f).nodes
        for i, d in enumerate(self.dicts):
            out["dict", i] = d.nodes
        return out

    # ------------------------------------------------------------ contracts of the callees
    def is_fine(self, g):
        if g is not self.fine:
            raise tm.Unsupported("another grid")

    def where(self, p):
        """integers (a, b) with p == (a h, b h)"""
        ring = ctx().prover.ring
        out = []
        for j in (0, 1):
            x = num(entry(p, j))
            q = ring.poly(x)
            ts = []
            for mono, c in q.items():
                c = Fraction(c)
                es = ring.exps(mono)
                fs, hs = [], 0
                for i, e in es:
                    t = ring.aterm(i)
                    if t is self.h:
                        hs += e
                    elif t.op == "toreal":
                        fs += [t.args[0]] * e
                    elif t.op == "var" and t.sort == tm.I:
                        fs += [t] * e
                    elif t.op == "app" and t.sort == tm.I:
                        fs += [t] * e
                    else:
                        raise tm.Unsupported(f"not a lattice point: factor {t}")
                if hs != 1 or c.denominator != 1:
                    raise tm.Unsupported("not a lattice point")
                ts.append(tm.mul(int(c), *fs) if fs else tm.const(int(c)))
            z = tm.add(*ts) if ts else tm.const(0)
            out.append(z)
        return out

    def lookup(self, g, point):
        s = ctx()
        self.is_fine(g)
        m, vn, pn = self.cur
        if getattr_(g, "points").nodes is not pn:
            raise tm.Unsupported("points in another state")
        a, b = self.where(point)
        found = s.fresh("found", tm.B)
        if s.decide(found):
            o = s.fresh("old", tm.I)
            s.define(self.range(o, m)); s.define(tm.eq(self.A(o), a)); s.define(tm.eq(self.B(o), b))
            return o
        s.define(self.all(m, lambda i: tm.not_(tm.and_(tm.eq(self.A(i), a), tm.eq(self.B(i), b)))))
        return None

    def request(self, g, edge):
        self.is_fine(g)
        self.requested.set(self.requested.nodes + (Item(tuple(edge)),))

    def boundary(self, edge, edge_vertices, boundary, intermediate_boundary):
        self.parts.set(self.parts.nodes + (Item((tuple(edge), edge_vertices, boundary, intermediate_boundary)),))

    # ------------------------------------------------------------ the loops that create the points
    def loop(self, st, fr, src, body):
        if C.allitems(src) or not reaches(st, P2V, self.mods):
            return NotImplemented
        return self.sweep(src, body)

    def state(self, m):
        """make the fine grid have m points"""
        s = ctx()
        v, p = self.vertices(m), self.points(m)
        s.put(getattr_(self.fine, "vertices"), "nodes", v)
        s.put(getattr_(self.fine, "points"), "nodes", p)
        s.put(self.__dict__, "cur", (m, v, p))

    def sweep(self, src, body):
        s, V = ctx(), self.V
        m0, vn, pn = self.cur
        V_, P_ = getattr_(self.fine, "vertices"), getattr_(self.fine, "points")
        if V_.nodes is not vn or P_.nodes is not pn:
            raise tm.Unsupported("points in another state")
        if len(src) != 1 or not isinstance(src[0], For):
            raise tm.Unsupported("iteration over this collection while creating points")
        src = src[0]
        known, outer = {}, self.level == 0
        own = {(id(V_), "nodes"), (id(P_), "nodes"), (id(self.__dict__), "cur"), (id(self.__dict__), "level")}
        before = s.binders[:]
        for _ in range(8):
            with s.bind(src.n, "kl") as k:
                nodes = inst_nodes(src.nodes, {src.k: k})
                m1, base = m0, {}
                if known:
                    m1 = s.fresh_var("m1", tm.I)
                    s.define(tm.le(m0, m1))
                    base = {key: self.havoc(c, ky, old, m0, m1) for key, (c, ky, old) in known.items()}

                def thunk():
                    s.put(self.__dict__, "level", self.level + 1)
                    if known:
                        self.state(m1)
                    for key, (c, ky, old) in known.items():
                        s.put(c, ky, base[key])
                    here = self.cur
                    r = loops.run_nodes(nodes, body)
                    if r is not None:
                        raise tm.Unsupported("exit from a loop creating points")
                    return here
                paths = s.explore(thunk, keep_effects=True)
                new = {}
                for p in paths:
                    for key, (c, ky, old, val) in p.effects.items():
                        if key not in known and key not in own:
                            new[key] = (c, ky, s.get(c, ky))
                if new:
                    known.update(new)
                    continue
                table = self.step(paths, known, base, own, k, m1)
                break
        else:
            raise tm.Unsupported("loop does not stabilise")
        # the state after the loop
        m2 = s.fresh("m2", tm.I)
        s.define(tm.le(m0, m2))
        for key, (c, ky, old) in known.items():
            if self.counts(old, m0):
                s.put(c, ky, C.pyint(m2))
            elif key in table:
                b = C._bv("kl")
                s.put(c, ky, old + (For(b, src.n, inst_nodes(table[key], {k: b})),))
            elif ky == "nodes":
                s.put(c, ky, old + (Barrier(lambda k: False),))
            else:
                s.put(c, ky, interp.Poison(ky))
        self.state(m2)
        if outer:
            for key in table:
                self.total(known[key], table[key], m2)
        return None

    def counts(self, old, m):
        return C.is_scalar(old) and not isinstance(old, bool) and tm.lift(old).sort == tm.I and (C.eqv(old, m) is True or ctx().entails(tm.eq(tm.lift(old), m)))

    def havoc(self, c, ky, old, m0, m1):
        if self.counts(old, m0):
            return C.pyint(m1)
        if ky == "nodes" and isinstance(c, (PList, PDict, C.PSet)):
            return old + (Barrier(lambda k: False),)
        return interp.Poison(ky)

    def step(self, paths, known, base, own, k, m1):
        """one iteration keeps the invariant; returns {key: nodes written to the table of point numbers}"""
        s, V = ctx(), self.V
        V_, P_ = getattr_(self.fine, "vertices"), getattr_(self.fine, "points")
        written = {}
        for p in paths:
            if p.kind != "ok":
                raise InterpRaise(p.value)
            with V.under(p):
                eff = {key: val for key, (c, ky, old, val) in p.effects.items()}
                here = p.value
                cur = eff.get((id(self.__dict__), "cur"), here)
                vs, ps = eff.get((id(V_), "nodes"), here[1]), eff.get((id(P_), "nodes"), here[2])
                inner = cur is not here
                if inner:
                    # an inner loop ran: its state must be the last
                    if vs is not cur[1] or ps is not cur[2]:
                        raise tm.Unsupported("points created around an inner loop")
                    n, fresh = cur[0], None
                else:
                    n = m1
                    va, pa = vs[len(here[1]):], ps[len(here[2]):]
                    if any(a is not b for a, b in zip(vs, here[1])) or any(a is not b for a, b in zip(ps, here[2])) or len(va) > 1 or len(pa) > 1 or \
                            not C.allitems(va) or not C.allitems(pa):
                        raise tm.Unsupported("points changed in another way")
                    fresh = (va, pa) if va or pa else None
                tabs = []
                for key, (c, ky, old) in known.items():
                    if key not in eff:
                        continue
                    val = eff[key]
                    if isinstance(c, PDict) and ky == "nodes":
                        app = val[len(base[key]):]
                        if len(val) < len(base[key]) or any(a is not b for a, b in zip(val, base[key])):
                            raise tm.Unsupported("a dictionary is rewritten")
                        if inner:
                            if app and self.is_table(app):
                                written.setdefault(key, []).append((p, app))
                        elif app and self.is_table(app):
                            tabs.append((key, app))
                if inner:
                    if self.level == 0 or True:
                        for key, (c, ky, old) in known.items():
                            if key in eff and self.counts(old, self.cur[0]) and not self.counts(eff[key], n):
                                raise tm.Unsupported("counter not in step with the points")
                    continue
                after = m1 if fresh is None else tm.add(m1, 1)
                for key, (c, ky, old) in known.items():
                    if self.counts(old, self.cur[0]):
                        V.oblige("points: the next number is that of the points", tm.eq(tm.lift(eff.get(key, base[key])), after))
                for key, app in tabs:
                    if len(app) != 1 or not isinstance(app[0], Item):
                        raise tm.Unsupported("several entries in one iteration")
                    (ka, kb), v = app[0].v
                    v = tm.lift(v)
                    a, b = self.P(ka, kb)
                    if fresh is not None:
                        va, pa = fresh
                        ok = len(va) == 1 and len(pa) == 1
                        V.oblige("points: a vertex and its point are added together", ok)
                        if ok:
                            V.oblige("points: a new vertex has the next number", tm.and_(tm.eq(tm.lift(va[0].v), m1), tm.eq(v, m1)))
                            want = self.at(a, b)
                            for j in (0, 1):
                                V.oblige("points: a new point is at its place in the triangle", tm.eq(num(entry(pa[0].v, j)), num(entry(want, j))))
                            V.oblige("points: a new point is at none of the existing ones", self.all(m1, lambda i: tm.not_(tm.and_(tm.eq(self.A(i), a), tm.eq(self.B(i), b)))))
                    else:
                        V.oblige("points: a known number is that of the point at this place", tm.and_(self.range(v, m1), tm.eq(self.A(v), a), tm.eq(self.B(v), b)))
                    written.setdefault(key, []).append((p, (ka, kb)))
                if fresh is not None and not tabs:
                    V.oblige("points: a new point is entered in the table", False)
        return {key: self.entries(ws, paths) for key, ws in written.items()}

    def is_table(self, app):
        """entries (int, int) -> int"""
        for nd in app:
            if isinstance(nd, Barrier):
                return False
            while not isinstance(nd, Item):
                if not isinstance(nd, (For, If)) or len(nd.nodes) != 1:
                    return False
                nd = nd.nodes[0]
            k, v = nd.v
            if not (type(k) is tuple and len(k) == 2 and C.is_scalar(v) and not isinstance(v, (float, bool)) and tm.lift(v).sort == tm.I):
                return False
        return True

    def entries(self, ws, paths):
        """nodes ((a, b), tv(a, b)) of one iteration"""
        if not isinstance(ws[0][1][0], (For, If, Item)):
            ks = ws[0][1]
            if any(not all(C.eqv(x, y) is True for x, y in zip(ks, k2)) for _, k2 in ws):
                raise tm.Unsupported("different keys")
            nodes = (Item((ks, self.tv(*ks))),)
        else:
            if len(ws) != 1 or len(paths) != 1:
                raise tm.Unsupported("table written in some iterations")
            return ws[0][1]
        skip = [p.pc for p in paths if not any(p is q for q, _ in ws)]
        for c in skip:
            if any(u.op in ("forall", "exists") or u.op == "var" and u.args[0].startswith(("found", "old", "m1")) or
                   u.op == "app" and u.args[0].startswith(("found", "old", "A", "B")) for u in tm.subterms([c])):
                raise tm.Unsupported("entries left out depending on the points")
        return C.guard(tm.not_(tm.or_(*skip)), nodes) if skip else nodes

    def total(self, loc, app, m):
        """the table has every point of the triangle: afterwards tv(k, l) is its number"""
        s, V = ctx(), self.V
        c, ky, old = loc
        cur = s.get(c, ky)
        if not C.allitems(old):
            raise tm.Unsupported("initial table")
        for nd in old:
            (a, b), v = nd.v
            x, y = self.P(a, b)
            v = tm.lift(v)
            V.oblige("points: corners are entered at their places", tm.and_(self.range(v, m), tm.eq(self.A(v), x), tm.eq(self.B(v), y)))
            s.define(tm.eq(self.tv(a, b), v))
        k, l = s.fresh_var("tk", tm.I), s.fresh_var("tl", tm.I)
        with scope():
            s.assume(tm.and_(tm.le(0, k), tm.le(0, l), tm.le(tm.add(k, l), self.r)))
            V.oblige("points: every point of the triangle is entered", C.member((k, l), C.keys_only(cur)))
        x, y = C._bv("k"), C._bv("l")
        a, b = self.P(x, y)
        t = self.tv(x, y)
        s.define(tm.forall((x, y), tm.implies(tm.and_(tm.le(0, x), tm.le(0, y), tm.le(tm.add(x, y), self.r)),
                                              tm.and_(self.range(t, m), tm.eq(self.A(t), a), tm.eq(self.B(t), b)))))
        bl, bk = C._bv("l"), C._bv("k")
        r1 = tm.add(self.r, 1)
        s.put(c, ky, (For(bl, r1, [For(bk, tm.sub(r1, bl), [Item(((bk, bl), self.tv(bk, bl)))])]),))


# ------------------------------------------------------------------ what a refined triangle must be
class Leaf:
    """generic element of a collection: index variables, range of the indices, value"""

    def __init__(self, bs, cond, v):
        self.bs, self.cond, self.v = bs, cond, v

    def at(self, ix):
        m = dict(zip(self.bs, ix))
        return tm.subst(self.cond, m), C.inst(self.v, m)


def generic(nodes):
    out = []
    s = ctx()
    for bs, gs, v in leaves(nodes):
        m, cond = {}, []
        for d, (k, n) in enumerate(bs):
            cond += [tm.subst(c, m) for dd, c in gs if dd == d]
            n = tm.subst(tm.lift(n), m)
            m[k] = s.fresh_var("g", tm.I)
            cond += [tm.le(0, m[k]), tm.lt(m[k], n)]
        cond += [tm.subst(c, m) for dd, c in gs if dd == len(bs)]
        out.append(Leaf([m[k] for k, _ in bs], tm.and_(*cond), C.inst(v, m)))
    return out


class Checks:
    def __init__(self, w):
        self.w, self.V = w, w.V
        r = w.r
        self.corner = {i.id: (tm.const(0) if k == 0 else r, tm.const(0) if l == 0 else r) for i, (k, l) in zip(w.ix, ((0, 0), (1, 0), (0, 1)))}

    def kl(self, v):
        """place (k, l) of a point number"""
        v = tm.lift(v)
        if v.op == "app" and v.args[0] == "tv":
            return v.args[1], v.args[2]
        if v.id in self.corner:
            return self.corner[v.id]
        raise tm.Unsupported(f"point number {v}")

    def inside(self, p):
        return tm.and_(tm.le(0, p[0]), tm.le(0, p[1]), tm.le(tm.add(*p), self.w.r))

    def same(self, p, q):
        return tm.and_(tm.eq(p[0], q[0]), tm.eq(p[1], q[1]))

    def match(self, leaf, key, target):
        """index values at which key(value) has the places `target`: (range, equations) or None"""
        ps = [self.kl(x) for x in key(leaf.v)]
        eqs = [tm.sub(a, b) for p, q in zip(ps, target) for a, b in zip(p, q)]
        m = {}
        from ..lattice import solve
        for _ in range(len(leaf.bs) + 1):
            for b in leaf.bs:
                if b in m:
                    continue
                for e in eqs:
                    t = solve(b, tm.eq(tm.subst(e, m), 0))
                    if t is not None and not any(x.id in tm.fv(t) for x in leaf.bs):
                        m[b] = t
                        break
        if len(m) < len(leaf.bs):
            return None
        return tm.subst(leaf.cond, m), tm.and_(*[tm.eq(tm.subst(e, m), 0) for e in eqs]), C.inst(leaf.v, m)

    def covered(self, label, leafs, key, targets):
        """some element has one of the places; returns its value"""
        cands = [c for t in targets for f in leafs for c in [self.match(f, key, t)] if c is not None]
        if not cands:
            raise tm.Unsupported(f"{label}: no candidate")
        for cond, eqs, v in cands:
            g = tm.and_(cond, eqs)
            if self.V.c.entails(g):
                self.V.oblige(label, g)
                return v
        self.V.oblige(label, tm.or_(*[tm.and_(c, e) for c, e, _ in cands]))
        return None

    def distinct(self, label, leafs, key, variants):
        """different positions have different elements"""
        for a, x in enumerate(leafs):
            for b in range(a, len(leafs)):
                y = leafs[b]
                m = {k: self.V.c.fresh_var("d", tm.I) for k in y.bs}
                cond, v = y.at([m[k] for k in y.bs])
                p, q = [self.kl(z) for z in key(x.v)], [self.kl(z) for z in key(v)]
                for ren in variants:
                    e = tm.and_(*[self.same(p[i], q[j]) for i, j in enumerate(ren)])
                    same = tm.and_(*[tm.eq(s, t) for s, t in zip(x.bs, m.values())]) if a == b else tm.FALSE
                    self.V.oblige(label, tm.implies(tm.and_(x.cond, cond, e), same))


ROT = ((0, 1, 2), (1, 2, 0), (2, 0, 1))


def appended_to(nodes, before, what):
    if len(nodes) < len(before) or any(a is not b for a, b in zip(nodes, before)):
        raise tm.Unsupported(f"{what} changed otherwise than by additions")
    return nodes[len(before):]


def check_pieces(w, before, after):
    V, r = w.V, w.r
    K = Checks(w)
    tris = generic(appended_to(after["fine", "triangles"], before["fine", "triangles"], "triangles"))
    idn = lambda v: v
    d = lambda p, q: (tm.sub(q[0], p[0]), tm.sub(q[1], p[1]))
    req = generic(appended_to(after["requested"], before["requested"], "edges"))
    ends = {(g.id, h.id): (K.kl(g), K.kl(h)) for g, h in [tuple(map(tm.lift, s)) for s in w.sides]}
    for key in before:
        if key[0] == "coarse":
            V.oblige("the coarse grid is not modified", after[key] is before[key] or len(after[key]) == len(before[key]) and
                     all(a is b for a, b in zip(after[key], before[key])))
    if after["fine", "edges"] is not before["fine", "edges"]:
        raise tm.Unsupported("edges written directly")
    k, l, k2, l2 = (V.c.fresh_var(x, tm.I) for x in ("k", "l", "k2", "l2"))
    tr = w.tv
    with scope():
        V.requires(K.inside((k, l)), K.inside((k2, l2)), tm.eq(tr(k, l), tr(k2, l2)))
        for f in (lambda i: w.A(i), lambda i: w.B(i)):
            V.requires(tm.eq(f(tr(k, l)), f(tr(k2, l2))))
        for x, y in ((k, l), (k2, l2)):
            a, b = w.P(x, y)
            for f, c in ((w.A, a), (w.B, b)):
                e = tm.eq(f(tr(x, y)), c)
                V.oblige("lemma: place of a point", e)
                V.requires(e)
        V.oblige("lemma: different places have different numbers", K.same((k, l), (k2, l2)))
    # ---- triangles
    for f in tris:
        ps = [K.kl(x) for x in f.v]
        with scope():
            V.requires(f.cond)
            V.oblige("triangles: corners are points of the coarse triangle", tm.and_(*[K.inside(p) for p in ps]))
            shapes = []
            for rot in ROT:
                p, q, s = (ps[i] for i in rot)
                for t in (1, -1):
                    shapes.append(tm.and_(*[tm.eq(x, y) for x, y in zip(d(p, q) + d(p, s), (t, 0, 0, t))]))
            V.oblige("triangles: similar to the coarse one, same orientation, 1/r of its sides", tm.or_(*shapes))
    K.distinct("triangles: no triangle twice", tris, idn, ROT)
    rots = lambda t: [tuple(t[i] for i in rot) for rot in ROT]
    lower = lambda: ((k, l), (tm.add(k, 1), l), (k, tm.add(l, 1)))
    upper = lambda: ((k, tm.add(l, 1)), (tm.sub(k, 1), tm.add(l, 1)), (k, l))
    with scope():
        V.requires(tm.le(0, k), tm.le(0, l), tm.lt(tm.add(k, l), r))
        K.covered("triangles: every one with the orientation of the coarse triangle", tris, idn, rots(lower()))
        V.requires(tm.le(1, k))
        K.covered("triangles: every one turned by half a turn", tris, idn, rots(upper()))
    # ---- edges
    for f in req:
        p, q = (K.kl(x) for x in f.v)
        dx = d(p, q)
        with scope():
            V.requires(f.cond)
            V.oblige("edges: ends are points of the coarse triangle", tm.and_(K.inside(p), K.inside(q)))
            V.oblige("edges: side of a fine triangle", tm.or_(*[tm.and_(tm.eq(dx[0], t * a), tm.eq(dx[1], t * b)) for t in (1, -1) for a, b in ((1, 0), (0, 1), (1, -1))]))
    sides = (((k, l), (tm.add(k, 1), l)), ((tm.add(k, 1), l), (k, tm.add(l, 1))), ((k, tm.add(l, 1)), (k, l)))
    with scope():
        V.requires(tm.le(0, k), tm.le(0, l), tm.lt(tm.add(k, l), r))
        for s in sides:
            K.covered("edges: every side is added", req, idn, [s, s[::-1]])
    # ---- parts of the boundary
    calls = appended_to(after["parts"], before["parts"], "calls")
    if not C.allitems(calls):
        raise tm.Unsupported("boundary parts refined in a loop")
    seen = {}
    for c in calls:
        e, ev, P, Q = c.v
        name = [n for n in ("boundary", "dirichlet_boundary", "neumann_boundary") if getattr_(w.coarse, n) is P]
        e = tuple(tm.lift(x).id for x in e)
        V.oblige("boundary: a side as listed, a part and its refinement", len(name) == 1 and getattr_(w.fine, name[0]) is Q and e in ends)
        if not (name and e in ends):
            continue
        seen[e, name[0]] = seen.get((e, name[0]), 0) + 1
        n, get = C.view(C.nodes_of(ev))
        V.oblige("boundary: number of points on the side", tm.eq(tm.lift(n), tm.add(r, 1)))
        with scope():
            V.requires(tm.le(0, k), tm.le(k, r))
            V.oblige("boundary: points of the side in its direction", K.same(K.kl(get(k)), step(w, *ends[e], k)))
    for e in list(ends)[:2]:
        for n in ("boundary", "dirichlet_boundary", "neumann_boundary"):
            V.oblige("boundary: each part is refined once on the horizontal and the vertical side", seen.get((e, n), 0) == 1)
    V.oblige("boundary: nothing is refined twice", all(v == 1 for v in seen.values()))


def check_tables(w, before, after):
    V, r = w.V, w.r
    K = Checks(w)
    tris = generic(appended_to(after["fine", "triangles"], before["fine", "triangles"], "triangles"))
    idn = lambda v: v
    d = lambda p, q: (tm.sub(q[0], p[0]), tm.sub(q[1], p[1]))
    req = generic(appended_to(after["requested"], before["requested"], "edges"))
    ends = {(g.id, h.id): (K.kl(g), K.kl(h)) for g, h in [tuple(map(tm.lift, s)) for s in w.sides]}
    k, l, k2, l2 = (V.c.fresh_var(x, tm.I) for x in ("k", "l", "k2", "l2"))
    # ---- tables of triangles
    tabs = [generic(appended_to(after["dict", j], before["dict", j], "table")) for j in range(4)]
    for f in tabs[0]:
        with scope():
            V.requires(f.cond)
            V.oblige("coarse triangle of a fine one", tm.boolterm(C.eqv(tuple(f.v[1]), tuple(w.ix))))
    for f in tabs[1]:
        with scope():
            V.requires(f.cond)
            V.oblige("coordinates: one for each corner", len(f.v[1]) == 3)
            for x, q in zip(f.v[0], f.v[1]):
                a, b = K.kl(x)
                q = [num(getattr_(q, n)) for n in ("l1", "l2", "l3")]
                R = lambda t: tm.toreal(tm.lift(t))
                V.oblige("coordinates: first weight", tm.eq(q[0] * R(r), R(r) - R(a) - R(b)))
                V.oblige("coordinates: second weight", tm.eq(q[1] * R(r), R(a)))
                V.oblige("coordinates: third weight", tm.eq(q[2] * R(r), R(b)))
    for f in tris:
        with scope():
            V.requires(f.cond)
            for j in (0, 1):
                K.covered("tables: every fine triangle is entered", tabs[j], lambda v: v[0], [[K.kl(x) for x in f.v]])
    # ---- tables of edges
    for f in req:
        p, q = (K.kl(x) for x in f.v)
        with scope():
            V.requires(f.cond)
            for (g, h) in ends.values():
                on = tm.and_(online(w, g, h, p), online(w, g, h, q))
                V.oblige("edges: on a coarse edge in its direction", tm.implies(on, tm.lt(0, along(g, h, p, q))))
    first = lambda v: v[0]
    for f in tabs[2]:
        with scope():
            V.requires(f.cond)
            e = tuple(tm.lift(x).id for x in f.v[1])
            V.oblige("edge table: the coarse edge is a side as listed", e in ends)
            if e not in ends:
                continue
            g, h = ends[e]
            p = [K.kl(x) for x in f.v[0]]
            v = K.covered("edge table: coordinates entered for the same edges", tabs[3], first, [p])
            if v is None:
                continue
            R = lambda t: tm.toreal(tm.lift(t))
            V.oblige("edge table: two coordinates", len(v[1]) == 2)
            for x, s in zip(p, v[1]):
                s = num(s)
                for j in (0, 1):
                    V.oblige("edge table: coordinates denote the ends", tm.eq(s * R(g[j]) + (1 - s) * R(h[j]), R(x[j])))
    K.distinct("edge table: no edge twice", tabs[2], first, ((0, 1),))
    K.distinct("edge table: no coordinates twice", tabs[3], first, ((0, 1),))
    with scope():
        V.requires(tm.le(0, k), tm.lt(k, r))
        for g, h in ends.values():
            K.covered("edge table: every piece of a coarse edge is entered", tabs[2], first, [[step(w, g, h, k), step(w, g, h, tm.add(k, 1))]])
def step(w, g, h, i):
    """the i-th of the points 0, ..., r on the side from g to h (corners at 0 or r)"""
    out = []
    for a, b in zip(g, h):
        out.append(a if a is b else i if a.op == "const" else tm.sub(w.r, i))
    return tuple(out)


def online(w, g, h, p):
    """p is on the side from g to h"""
    t = {("0", "r"): 0}
    if g[1] is h[1]:
        return tm.eq(p[1], g[1])
    if g[0] is h[0]:
        return tm.eq(p[0], g[0])
    return tm.eq(tm.add(*p), w.r)


def along(g, h, p, q):
    """positive when p -> q has the direction g -> h (p, q on that side)"""
    j = 0 if g[0] is not h[0] else 1
    return tm.sub(q[j], p[j]) if g[j].op == "const" else tm.sub(p[j], q[j])


def triangle(sigma, flags, check):
    def fn(V):
        w = Triangle(V, sigma, flags)
        f = mod("domain")._refine_equilateral_triangle
        before = w.snapshot()

        def th():
            call(f, [tuple(map(C.pyint, w.ix)), w.coarse, C.pyint(w.r), w.fine, *w.dicts])
            return w.snapshot()
        V.returns("refinement of a triangle", th, lambda after: check(w, before, after))
    return fn


# ------------------------------------------------------------------ refine
class Coarse:
    """an arbitrary coarse grid"""

    def __init__(self, V):
        D = mod("domain")
        self.V = V
        self.N, self.M, self.E = V.int("N", "M", "E")
        V.requires(tm.le(1, self.N), tm.le(1, self.M), tm.le(1, self.E))
        t = tm.var("%t", tm.I)
        f = lambda x: tm.app(x, [t], tm.I)
        seq = lambda n, v: PList([For(t, n, [Item(v)])])
        parts = [Part(V, x).coarse for x in "bdn"]
        self.grid = call(D.Grid, [seq(self.N, t), lst([]), seq(self.M, (f("t0"), f("t1"), f("t2"))), *parts,
                                  seq(self.N, Vec(tm.app("px", [t]), tm.app("py", [t])))])
        interp.setattr_(self.grid, "edges", seq(self.E, (f("e0"), f("e1"))))
        V.cover("coarse grid")

    def lists(self):
        g = self.grid
        out = {n: getattr_(g, n) for n in ("vertices", "edges", "triangles", "points")}
        for n in PARTS:
            for k in ("vertices", "edges"):
                out[n, k] = getattr_(getattr_(g, n), k)
        return out


PARTS = ("boundary", "dirichlet_boundary", "neumann_boundary")


def bound(f, a, k):
    import inspect
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    return list(b.arguments.values())


def refine(V):
    D = mod("domain")
    w = Coarse(V)
    r, W, H = V.int("r"), *V.real("width", "height")
    calls, made = PList(), []
    calls.ghost = True
    tri, init = D._refine_equilateral_triangle, D.RefinedGrid.__init__

    def refine_triangle(a, k):
        t, g, f, fine, *dicts = bound(tri, a, k)
        ls = [getattr_(fine, n) for n in ("vertices", "edges", "triangles", "points")] + \
            [getattr_(getattr_(fine, n), x) for n in PARTS for x in ("vertices", "edges")]
        state = Opaque_((g, fine, tuple(dicts), tuple((x, x.nodes) for x in ls + dicts), getattr_(fine, "_mean_edge_length")))
        calls.set(calls.nodes + (Item((tuple(t), f, state)),))
    interp.CONTRACTS[tri] = refine_triangle
    interp.CONTRACTS[init] = lambda a, k: made.append(bound(init, a, k))
    dom = call(D.RectangleDomain, [W, H, None])
    before = {k: (v, v.nodes) for k, v in w.lists().items()}

    def unchanged():
        now = w.lists()
        V.oblige("the coarse grid is not modified", all(now[k] is v and v.nodes is n for k, (v, n) in before.items()))

    def th():
        made.clear()
        res = call(getattr_(dom, "refine"), [w.grid, C.pyint(r)])
        return res, list(made), calls.nodes

    def ens(x):
        res, made, cs = x
        if len(made) != 1 or made[0][0] is not res:
            raise tm.Unsupported("the refined grid is made in another way")
        _, vertices, edges, triangles, b0, b1, b2, points, coarse, *dicts = made[0]
        V.oblige("refines the given grid", coarse is w.grid)
        if len(cs) != 1 or not isinstance(cs[0], For) or not C.allitems(cs[0].nodes) or len(cs[0].nodes) != 1:
            raise tm.Unsupported("triangles are refined in another way")
        t, f, st = cs[0].nodes[0].v
        g, fine, ds, state, mean = st.v
        V.oblige("every triangle is refined once", tm.eq(tm.lift(cs[0].n), w.M))
        V.oblige("triangles of the coarse grid", tm.and_(*[tm.eq(tm.lift(x), tm.app(f"t{j}", [cs[0].k], tm.I)) for j, x in enumerate(t)]))
        V.oblige("by the given factor", tm.eq(tm.lift(f), r))
        V.oblige("of the given grid", g is w.grid)
        V.oblige("what was refined into is what is returned", all(a is b for a, b in zip(
            (vertices, edges, triangles, points, b0, b1, b2, *dicts),
            [getattr_(fine, n) for n in ("vertices", "edges", "triangles", "points") + PARTS] + list(ds))) and len(dicts) == 4 == len({id(d) for d in ds}))
        # the state before the first triangle
        ls = [x for x, _ in state]
        V.oblige("nothing of the coarse grid is shared", not {id(x) for x in ls} & {id(v) for v, _ in before.values()} and len({id(x) for x in ls}) == len(ls))
        nodes = dict(zip(("vertices", "edges", "triangles", "points") + tuple((n, x) for n in PARTS for x in ("vertices", "edges")) + tuple(range(4)),
                         [n for _, n in state]))
        for k, ns in nodes.items():
            if k in ("vertices", "points") or type(k) is tuple and k[1] == "vertices":
                n, get = C.view(ns)
                n0, get0 = C.view(before[k][1])
                V.oblige("initially those of the coarse grid: number", tm.eq(tm.lift(n), tm.lift(n0)))
                j = V.int("j")
                with scope():
                    V.requires(tm.le(0, j), tm.lt(j, n0))
                    a, b = get(j), get0(j)
                    a, b = ([num(entry(x, i)) for i in (0, 1)] if k == "points" else [tm.lift(x)] for x in (a, b))
                    V.oblige("initially those of the coarse grid", tm.and_(*[tm.eq(x, y) for x, y in zip(a, b)]))
            else:
                V.oblige("initially empty", ns == ())
        V.oblige("no edges, no mean length of edges", mean is None)
        unchanged()
    with scope():
        V.requires(tm.le(1, r))
        V.returns("refine", th, ens)
    with scope():
        V.requires(tm.lt(r, 1))
        V.raises("factor below one", th, ValueError)
        unchanged()


class Opaque_:
    """kept as it is inside collections"""

    def __init__(self, v):
        self.v = v

    def __inst__(self, m, ids):
        return self


def constructor(V):
    D = mod("domain")
    w = Coarse(V)
    g = w.grid
    ls = w.lists()
    parts = [getattr_(g, n) for n in PARTS]
    ds = [PDict([Barrier(lambda k: False)]) for _ in range(4)]
    coarse = Coarse(V).grid
    V.requires(*[tm.forall((tm.var("%t", tm.I),), tm.implies(tm.and_(tm.le(0, tm.var("%t", tm.I)), tm.lt(tm.var("%t", tm.I), w.E)),
                                                          tm.and_(tm.le(0, e), tm.lt(e, w.N)))) for e in (tm.app(x, [tm.var("%t", tm.I)], tm.I) for x in ("e0", "e1"))])

    def ens(f):
        for n in ("vertices", "edges", "triangles", "points"):
            V.oblige(f"keeps {n}", getattr_(f, n) is ls[n])
        for n, p in zip(PARTS, parts):
            V.oblige(f"keeps {n}", getattr_(f, n) is p)
        V.oblige("coarse()", call(getattr_(f, "coarse"), []) is coarse)
    V.returns("RefinedGrid", lambda: interp.construct(D.RefinedGrid, [ls["vertices"], ls["edges"], ls["triangles"], *parts, ls["points"], coarse, *ds], {}), ens)


# ------------------------------------------------------------------ the pieces of all triangles together
def tiling(V):
    """The r^2 triangles of each coarse triangle (a cell's lower one: sigma = 1, upper one: sigma = -1) are exactly the triangles of
    the r times finer lattice."""
    r, nx, ny = V.int("r", "nx", "ny")
    V.requires(tm.le(1, r), tm.le(1, nx), tm.le(1, ny))
    V.cover("lattice")

    def cell(a, b, s, k, l, t):
        """(x, y, lower?) of the piece (k, l, t) of a coarse triangle of cell (a, b)"""
        A, B = (tm.mul(r, a), tm.mul(r, b)) if s == 1 else (tm.mul(r, tm.add(a, 1)), tm.mul(r, tm.add(b, 1)))
        P = lambda k, l: (tm.add(A, tm.mul(s, tm.add(k, l))), tm.add(B, tm.mul(s, l)))
        c = [P(k, l), P(tm.add(k, 1), l), P(k, tm.add(l, 1))] if t == 1 else [P(k, tm.add(l, 1)), P(tm.sub(k, 1), tm.add(l, 1)), P(k, l)]
        return c

    def piece(k, l, t):
        return tm.and_(tm.le(0 if t == 1 else 1, k), tm.le(0, l), tm.lt(tm.add(k, l), r))

    def corners(x, y, lower):
        o, p, q, u = (x, y), (tm.add(x, 1), y), (tm.add(x, 1), tm.add(y, 1)), (x, tm.add(y, 1))
        return [o, p, q] if lower else [q, u, o]

    def same(c, d):
        return tm.and_(*[tm.eq(a, b) for p, q in zip(c, d) for a, b in zip(p, q)])

    def rot(c, d):
        return tm.or_(*[same([c[i] for i in ro], d) for ro in ROT])
    a, b, u, w, a2, b2, u2, w2, k, l, k2, l2 = V.int("a", "b", "u", "w", "a2", "b2", "u2", "w2", "k", "l", "k2", "l2")
    x, y = tm.add(tm.mul(r, a), u), tm.add(tm.mul(r, b), w)
    off = tm.and_(*[tm.and_(tm.le(0, z), tm.lt(z, r)) for z in (u, w)])
    V.oblige("lemma: quotient and remainder are unique", tm.implies(tm.and_(tm.le(0, u), tm.lt(u, r), tm.le(0, u2), tm.lt(u2, r), tm.eq(x, tm.add(tm.mul(r, a2), u2))),
                                                                  tm.and_(tm.eq(a, a2), tm.eq(u, u2))))
    for lower in (True, False):
        # every fine triangle is a piece
        want = corners(x, y, lower)
        first = tm.le(w, u) if lower else tm.lt(w, u)
        t1, t2 = (1, -1) if lower else (-1, 1)
        with scope():
            V.requires(off, first)
            kk, ll = tm.sub(u, w), w
            V.oblige("every fine triangle below the diagonal of a cell is a piece", tm.and_(piece(kk, ll, t1), rot(cell(a, b, 1, kk, ll, t1), want)))
        with scope():
            V.requires(off, tm.not_(first))
            kk, ll = tm.sub(w, u), tm.sub(tm.sub(r, w), 1)
            V.oblige("every fine triangle above the diagonal of a cell is a piece", tm.and_(piece(kk, ll, t2), rot(cell(a, b, -1, kk, ll, t2), want)))
    # each piece is a fine triangle of its cell; two pieces are different fine triangles
    fam = []
    for s in (1, -1):
        for t in (1, -1):
            lower = s == t
            uu, ww = (tm.add(k, l), l) if s == 1 else (tm.sub(tm.sub(r, tm.add(k, l)), 1), tm.sub(tm.sub(r, l), 1))
            with scope():
                V.requires(piece(k, l, t))
                V.oblige("a piece lies in the cell of its triangle", tm.and_(*[tm.and_(tm.le(0, z), tm.lt(z, r)) for z in (uu, ww)]))
                V.oblige("a piece is a fine triangle", rot(cell(a, b, s, k, l, t), corners(tm.add(tm.mul(r, a), uu), tm.add(tm.mul(r, b), ww), lower)))
            fam.append((s, t, lower, uu, ww))
    for i, (s, t, lower, uu, ww) in enumerate(fam):
        for s2, t2, lower2, vv, zz in fam[i:]:
            if lower != lower2:
                continue
            vv, zz = (tm.subst(q, {k: k2, l: l2}) for q in (vv, zz))
            same_ = tm.and_(tm.eq(k, k2), tm.eq(l, l2)) if (s, t) == (s2, t2) else tm.FALSE
            V.oblige("two pieces of the triangles of a cell are different", tm.implies(tm.and_(piece(k, l, t), piece(k2, l2, t2), tm.eq(uu, vv), tm.eq(ww, zz)), same_))
    # every fine point is a point of a coarse triangle of its cell
    with scope():
        V.requires(tm.le(0, u), tm.le(u, r), tm.le(0, w), tm.le(w, r))
        V.oblige("every fine point is one of a coarse triangle", tm.or_(
            tm.and_(tm.le(0, tm.sub(u, w)), tm.le(u, r)), tm.and_(tm.le(0, tm.sub(w, u)), tm.le(0, tm.sub(r, w)), tm.le(tm.sub(r, u), r))))
    # r^2 pieces, each with 1/r^2 of the area
    h = V.real("h")
    R = tm.toreal(r)
    V.oblige("area of a piece", tm.eq(R * R * (h * h / 2), (R * h) * (R * h) / 2))


def triangles(check, what=""):
    rect = ((1, (1, 1, 0)), (-1, (0, 0, 1)))
    out = []
    for s in (1, -1):
        for f in ((a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)):
            n = ", ".join(x for x, y in zip(("horizontal", "vertical", "diagonal"), f) if y) or "no"
            out.append(Case(f"_refine_equilateral_triangle{what}, {'lower' if s == 1 else 'upper'} triangle, {n} edge as in the triangle",
                            triangle(s, f, check), budget=300, thorough=(s, f) not in rect))
    return out


def cases():
    return triangles(check_pieces) + [Case("refine", refine, budget=100), Case("RefinedGrid", constructor, budget=100),
                                      Case("pieces of all triangles", tiling, budget=100)]
