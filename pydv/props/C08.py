"""RectangleDomain.grid: a conforming triangulation of the covered rectangle."""
from .. import terms as tm, containers as C
from ..framework import Case
from ..lib import *
from ..engine import ctx
from . import grids as gr
from .grids import G, each, distinct, nodes, edge_eq, member_edge, triangle_eq

STATEFUL = True
EXPLANATION = ("RectangleDomain.grid is executed once with symbolic width, height and scale; nx, ny >= 2 name the numbers of "
               "columns and rows.  Every produced collection is proved to consist of exactly the specified elements: a generic "
               "element satisfies the specification, every specified element is a member, and different positions hold "
               "different elements.")
ASSUMPTIONS = ["width/scale and height/scale are at least one and are divided and rounded down exactly (reals instead of floats)"]
SEEDS = 60
SECONDS = 40


def run_grid(V, label, fix, ensures):
    g = G(V)
    V.returns(label, lambda: call(getattr_(g.domain(fix), "grid"), [g.s]), lambda r: ensures(g, r))


def second(spec):
    """the same for a grid of a domain that was asked for a grid of another scale before"""
    def fn(V):
        g = G(V)
        V.returns("grid", g.second_grid, lambda r: spec(V, g, r))
    return fn


def spec_vertices(V, g, grid):
    nx, ny, s = g.nx, g.ny, g.s
    vs, ps = getattr_(grid, "vertices"), getattr_(grid, "points")
    V.oblige("number of vertices", tm.eq(vs.length(), nx * ny))
    V.oblige("number of points", tm.eq(ps.length(), nx * ny))
    i, j = V.int("i", "j")
    with gr.scope():
        V.requires(g.inside(i, j))
        k = g.v(i, j)
        for lo, hi, t in ((tm.le(0, k), tm.lt(k, nx * ny), "index in range"),):
            V.oblige("lemma: " + t, tm.and_(lo, hi))
            V.requires(tm.and_(lo, hi))
        V.oblige("vertex j*nx+i is numbered j*nx+i", C.eqv(vs.index(k), k))
        x, y = gr.pt(ps, k)
        V.oblige("vertex j*nx+i lies at column i", tm.eq(x, i * s))
        V.oblige("vertex j*nx+i lies at row j", tm.eq(y, j * s))


def spec_triangles(V, g, grid):
    tri = nodes(getattr_(grid, "triangles"))
    ps = getattr_(grid, "points")
    nx, ny, s = g.nx, g.ny, g.s

    def one(t, n):
        V.oblige(f"triangles[{n}] is a triple", len(t) == 3)
        co = [g.decode(v) for v in t]
        for q, (x, y) in enumerate(co):
            V.oblige(f"triangles[{n}]: corner {q} is a vertex", g.inside(x, y))
            V.requires(g.inside(x, y))
        (x1, y1), (x2, y2), (x3, y3) = co
        V.oblige(f"triangles[{n}]: first side horizontal", tm.eq(y1, y2))
        V.oblige(f"triangles[{n}]: second side vertical", tm.eq(x2, x3))
        dx, dy = tm.sub(x2, x1), tm.sub(y3, y2)
        V.oblige(f"triangles[{n}]: sides of length one in lattice units, positive orientation",
                 tm.or_(tm.and_(tm.eq(dx, 1), tm.eq(dy, 1)), tm.and_(tm.eq(dx, -1), tm.eq(dy, -1))))
        (a, b), (c, d), (e, f) = [(s * x, s * y) for x, y in co]
        V.oblige(f"triangles[{n}]: signed area is scale^2/2",
                 tm.eq((c - a) * (f - b) - (e - a) * (d - b), s * s))
    each(V, g, tri, one)
    i, j = V.int("i", "j")
    with gr.scope():
        V.requires(tm.le(0, i), tm.lt(i, nx - 1), tm.le(0, j), tm.lt(j, ny - 1))
        for nm, t in (("lower", (g.v(i, j), g.v(i + 1, j), g.v(i + 1, j + 1))),
                      ("upper", (g.v(i + 1, j + 1), g.v(i, j + 1), g.v(i, j)))):
            V.oblige(f"every cell has its {nm} triangle", C.member(t, tri))
    distinct(V, g, "triangles", tri, triangle_eq)


def spec_edges(V, g, grid):
    nx, ny = g.nx, g.ny
    es = nodes(getattr_(grid, "edges"))

    def one(e, n):
        V.oblige(f"edges[{n}] is a pair", len(e) == 2)
        (x1, y1), (x2, y2) = g.decode(e[0]), g.decode(e[1])
        for x, y in ((x1, y1), (x2, y2)):
            V.oblige(f"edges[{n}]: ends are vertices", g.inside(x, y))
            V.requires(g.inside(x, y))
        dx, dy = tm.sub(x2, x1), tm.sub(y2, y1)
        V.oblige(f"edges[{n}] is a side of a cell or its rising diagonal",
                 tm.or_(*[tm.and_(tm.eq(dx, a), tm.eq(dy, b)) for a, b in
                          ((1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, -1))]))
    each(V, g, es, one)
    i, j = V.int("i", "j")
    for nm, mi, mj, e in (("horizontal", nx - 1, ny, (g.v(i, j), g.v(i + 1, j))), ("vertical", nx, ny - 1, (g.v(i, j), g.v(i, j + 1))),
                          ("diagonal", nx - 1, ny - 1, (g.v(i, j), g.v(i + 1, j + 1)))):
        with gr.scope():
            V.requires(tm.le(0, i), tm.lt(i, mi), tm.le(0, j), tm.lt(j, mj))
            V.oblige(f"every {nm} side is an edge", member_edge(e, es))
    distinct(V, g, "edges", es, edge_eq)
    # the sides of the two triangles of every cell are exactly these edges
    sides(V, g, nodes(getattr_(grid, "triangles")), es)


def sides(V, g, tri, es):
    nx, ny = g.nx, g.ny

    def one(t, n):
        for a, b in ((0, 1), (1, 2), (2, 0)):
            V.oblige(f"side {a + 1} of triangles[{n}] is an edge", member_edge((t[a], t[b]), es))
    each(V, g, tri, one)

    def back(e, n):
        (x1, y1), (x2, y2) = g.decode(e[0]), g.decode(e[1])
        V.oblige(f"edges[{n}] is a side of some triangle", side_of(g, e, tri))
    each(V, g, es, back)


def side_of(g, e, tri):
    """e or its reverse is a side of some triangle: the triangle is sought in the cells next to the first end"""
    (x, y), _ = g.decode(e[0]), g.decode(e[1])
    out = []
    for i, j in ((x, y), (x - 1, y), (x, y - 1), (x - 1, y - 1)):
        for t in ((g.v(i, j), g.v(i + 1, j), g.v(i + 1, j + 1)), (g.v(i + 1, j + 1), g.v(i, j + 1), g.v(i, j))):
            inn = tm.and_(tm.le(0, i), tm.lt(i, g.nx - 1), tm.le(0, j), tm.lt(j, g.ny - 1))
            for a, b in ((0, 1), (1, 2), (2, 0)):
                # that this triangle is in the list was proved with the triangles
                same = tm.boolterm(edge_same(g, e, (t[a], t[b])))
                out.append(tm.and_(inn, same))
    return tm.or_(*out)


def edge_same(g, e, f):
    d = lambda u, v: tm.eq(tm.sub(u, v), 0)
    r = lambda p: ctx().lattice.simp(p)
    return tm.or_(tm.and_(r(d(e[0], f[0])), r(d(e[1], f[1]))), tm.and_(r(d(e[0], f[1])), r(d(e[1], f[0]))))


def spec_boundary(V, g, grid):
    nx, ny = g.nx, g.ny
    b = getattr_(grid, "boundary")
    bv, be = nodes(getattr_(b, "vertices")), nodes(getattr_(b, "edges"))
    es = nodes(getattr_(grid, "edges"))

    def one(e, n):
        (x1, y1), (x2, y2) = g.decode(e[0]), g.decode(e[1])
        for x, y in ((x1, y1), (x2, y2)):
            V.oblige(f"boundary.edges[{n}]: ends are vertices", g.inside(x, y))
            V.requires(g.inside(x, y))
        hor = lambda y: tm.and_(tm.eq(y1, y), tm.eq(y2, y), tm.or_(tm.eq(x2, x1 + 1), tm.eq(x1, x2 + 1)))
        ver = lambda x: tm.and_(tm.eq(x1, x), tm.eq(x2, x), tm.or_(tm.eq(y2, y1 + 1), tm.eq(y1, y2 + 1)))
        V.oblige(f"boundary.edges[{n}] is a side on the boundary of the rectangle",
                 tm.or_(hor(0), hor(ny - 1), ver(0), ver(nx - 1)))
        V.oblige(f"boundary.edges[{n}] is oriented as in edges", C.member(e, es))
        for v, nm in ((e[0], "first"), (e[1], "second")):
            V.oblige(f"the {nm} end of boundary.edges[{n}] is a boundary vertex", C.member(v, bv))
    each(V, g, be, one)
    i, j = V.int("i", "j")
    for nm, m, e in (("lower", nx - 1, (g.v(i, 0), g.v(i + 1, 0))), ("upper", nx - 1, (g.v(i, ny - 1), g.v(i + 1, ny - 1))),
                     ("left", ny - 1, (g.v(0, i), g.v(0, i + 1))), ("right", ny - 1, (g.v(nx - 1, i), g.v(nx - 1, i + 1)))):
        with gr.scope():
            V.requires(tm.le(0, i), tm.lt(i, m))
            V.oblige(f"every side on the {nm} boundary is a boundary edge", member_edge(e, be))
    distinct(V, g, "boundary.edges", be, edge_eq)

    def vert(v, n):
        x, y = g.decode(v)
        V.oblige(f"boundary.vertices[{n}] is a vertex on the boundary",
                 tm.and_(g.inside(x, y), tm.or_(tm.eq(x, 0), tm.eq(x, nx - 1), tm.eq(y, 0), tm.eq(y, ny - 1))))
    each(V, g, bv, vert)
    distinct(V, g, "boundary.vertices", bv, lambda a, b: C.eqv(a, b))
    # every boundary vertex is an end: for vertices (i, j) on the boundary one of the (at most four) lattice neighbours along it
    with gr.scope():
        V.requires(g.inside(i, j), tm.or_(tm.eq(i, 0), tm.eq(i, nx - 1), tm.eq(j, 0), tm.eq(j, ny - 1)))
        V.oblige("every vertex on the boundary is a boundary vertex", C.member(g.v(i, j), bv))


def geometry(V):
    """lemmas about one cell: its two triangles tile it, and every side belongs to one or two triangles"""
    u, v = V.real("u", "v")
    V.requires(tm.le(0, u), tm.le(u, 1), tm.le(0, v), tm.le(v, 1))
    # barycentric weights in the lower triangle (0,0),(1,0),(1,1) and the upper one (1,1),(0,1),(0,0)
    low, upp = (1 - u, u - v, v), (u, v - u, 1 - v)
    for nm, l, T in (("lower", low, ((0, 0), (1, 0), (1, 1))), ("upper", upp, ((1, 1), (0, 1), (0, 0)))):
        V.oblige(f"tiling lemma: {nm} weights reproduce the point",
                 tm.and_(tm.eq(sum(a * p[0] for a, p in zip(l, T)), u), tm.eq(sum(a * p[1] for a, p in zip(l, T)), v),
                         tm.eq(l[0] + l[1] + l[2], 1)))
    nonneg = lambda l: tm.and_(*[tm.le(0, a) for a in l])
    pos = lambda l: tm.and_(*[tm.lt(0, a) for a in l])
    V.oblige("tiling lemma: every point of a cell lies in one of its triangles", tm.or_(nonneg(low), nonneg(upp)))
    V.oblige("tiling lemma: the triangles of a cell have no common interior point", tm.not_(tm.and_(pos(low), pos(upp))))


def counting(V):
    """an edge belongs to exactly one triangle iff it lies on the boundary of the rectangle"""
    g = G(V)
    nx, ny = g.nx, g.ny
    i, j, a, b = V.int("i", "j", "a", "b")
    cell = tm.and_(tm.le(0, a), tm.lt(a, nx - 1), tm.le(0, b), tm.lt(b, ny - 1))
    # sides of the lower / upper triangle of cell (a, b): (kind, column, row) of the left or lower end
    low = {"h": (a, b), "v": (a + 1, b), "d": (a, b)}
    upp = {"h": (a, b + 1), "v": (a, b), "d": (a, b)}
    for kind, mi, mj in (("h", nx - 1, ny), ("v", nx, ny - 1), ("d", nx - 1, ny - 1)):
        with gr.scope():
            V.requires(tm.le(0, i), tm.lt(i, mi), tm.le(0, j), tm.lt(j, mj))
            on = lambda p: tm.and_(tm.eq(p[kind][0], i), tm.eq(p[kind][1], j))
            # the candidates are unique: which cell they are in
            cl = {"h": (i, j), "v": (i - 1, j), "d": (i, j)}[kind]
            cu = {"h": (i, j - 1), "v": (i, j), "d": (i, j)}[kind]
            V.oblige(f"lemma: only one lower triangle can have a given {kind} side",
                     tm.implies(on(low), tm.and_(tm.eq(a, cl[0]), tm.eq(b, cl[1]))))
            V.oblige(f"lemma: only one upper triangle can have a given {kind} side",
                     tm.implies(on(upp), tm.and_(tm.eq(a, cu[0]), tm.eq(b, cu[1]))))
            ex = lambda c: tm.and_(tm.le(0, c[0]), tm.lt(c[0], nx - 1), tm.le(0, c[1]), tm.lt(c[1], ny - 1))
            bd = {"h": tm.or_(tm.eq(j, 0), tm.eq(j, ny - 1)), "v": tm.or_(tm.eq(i, 0), tm.eq(i, nx - 1)), "d": tm.FALSE}[kind]
            one = tm.or_(tm.and_(ex(cl), tm.not_(ex(cu))), tm.and_(ex(cu), tm.not_(ex(cl))))
            V.oblige(f"lemma: a {kind} side is in at least one triangle", tm.or_(ex(cl), ex(cu)))
            V.oblige(f"lemma: a {kind} side is in exactly one triangle iff it is on the boundary", tm.iff(one, bd))


def mk(nm, spec):
    return Case(nm, lambda V: run_grid(V, "grid", None, lambda g, r: spec(V, g, r)), budget=150)


def cases():
    return [mk("vertices", spec_vertices), mk("triangles", spec_triangles), mk("edges", spec_edges), mk("boundary", spec_boundary),
            Case("triangles of a later grid", second(spec_triangles), budget=150),
            Case("boundary of a later grid", second(spec_boundary), budget=150),
            Case("one cell", geometry, budget=40), Case("sides", counting, budget=60)]


# ------------------------------------------------------------------ concrete
def gen(rng, tier):
    for _ in range(8):
        nx, ny = rng.randint(2, 7), rng.randint(2, 7)
        s = rng.choice([1.0, 0.5, 2.0, 0.25, 0.75]) * zoom(rng)
        yield {"w": (nx - 1) * s + rng.choice([0, 0.25, 0.5]) * s, "h": (ny - 1) * s + rng.choice([0, 0.25, 0.5]) * s, "s": s, "nx": nx, "ny": ny}


def check_grid(g, nx, ny, s):
    if list(g.vertices) != list(range(nx * ny)):
        return f"vertices {g.vertices}"
    if len(g.points) != nx * ny:
        return f"{len(g.points)} points for {nx}x{ny} vertices"
    P = [(p[0], p[1]) for p in g.points]
    for v, (x, y) in enumerate(P):
        if not (close(x / s, v % nx) and close(y / s, v // nx)):
            return f"vertex {v} lies at {(x, y)} instead of {(v % nx * s, v // nx * s)}"
    want = set()
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            want |= {(a, b, c), (c, d, a)}
    got = list(g.triangles)
    if len(got) != len(want) or {tuple(t) for t in got} != want:
        return f"triangles {got} instead of {sorted(want)}"
    cnt = {}
    for t in got:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e = frozenset((t[a], t[b]))
            cnt[e] = cnt.get(e, 0) + 1
    es = [frozenset(e) for e in g.edges]
    if len(set(es)) != len(es) or set(es) != set(cnt):
        return f"edges {g.edges} are not the sides of the triangles, each once"
    be = [frozenset(e) for e in g.boundary.edges]
    wb = {e for e, n in cnt.items() if n == 1}
    if len(set(be)) != len(be) or set(be) != wb:
        return f"boundary edges {g.boundary.edges} instead of {sorted(map(tuple, wb))}"
    if any(tuple(e) not in set(map(tuple, g.edges)) for e in g.boundary.edges):
        return "a boundary edge is oriented differently from the edge list"
    bv = list(g.boundary.vertices)
    if sorted(bv) != sorted({v for e in wb for v in e}):
        return f"boundary vertices {bv}"
    return None


def run(case):
    D = mod("domain")
    d = D.RectangleDomain(case["w"], case["h"])
    if case["nx"] % 2:
        # another grid first, and something done to it
        h = d.grid(min(case["w"], case["h"]))
        h.vertices.append(77)
        h.boundary.edges.clear()
        h.triangles.reverse()
    g = d.grid(case["s"])
    if case["ny"] % 2:
        d.grid(case["s"] / 2).points.clear()
    return check_grid(g, case["nx"], case["ny"], case["s"])
