"""RectangleDomain.grid: Dirichlet and Neumann parts of the boundary."""
import itertools
from .. import terms as tm, containers as C
from ..framework import Case
from ..lib import *
from ..engine import ctx
from . import grids as gr
from .grids import G, SIDES, each, distinct, nodes, edge_eq, member_edge

STATEFUL = True
EXPLANATION = ("RectangleDomain.grid is executed with symbolic width, height and scale for every subset of clamped sides (None, each "
               "single side as a string, all 15 lists, and lists with repetitions); the four produced collections are proved to "
               "consist of exactly the specified edges and vertices, each once.")
ASSUMPTIONS = ["width/scale and height/scale are at least one and are divided and rounded down exactly (reals instead of floats)",
               "lists of sides are considered in one order per subset, with and without one repeated side (the code first makes a set of them)"]
SEEDS = 60
SECONDS = 40


def on_side(g, side, x, y):
    return {"lower": tm.eq(y, 0), "upper": tm.eq(y, g.ny - 1), "left": tm.eq(x, 0), "right": tm.eq(x, g.nx - 1)}[side]


def edge_on(g, side, p, q):
    """the unit side between the lattice points p and q lies on this boundary side"""
    return tm.and_(on_side(g, side, *p), on_side(g, side, *q))


def spec(V, g, grid, fixed):
    nx, ny = g.nx, g.ny
    free = [s for s in SIDES if s not in fixed]
    i, j = V.int("i", "j")
    unit = {"lower": lambda k: (g.v(k, 0), g.v(k + 1, 0)), "upper": lambda k: (g.v(k, ny - 1), g.v(k + 1, ny - 1)),
            "left": lambda k: (g.v(0, k), g.v(0, k + 1)), "right": lambda k: (g.v(nx - 1, k), g.v(nx - 1, k + 1))}
    length = {"lower": nx - 1, "upper": nx - 1, "left": ny - 1, "right": ny - 1}
    be = nodes(getattr_(getattr_(grid, "boundary"), "edges"))
    for part, mine in (("dirichlet", list(fixed)), ("neumann", free)):
        b = getattr_(grid, part + "_boundary")
        bv, es = nodes(getattr_(b, "vertices")), nodes(getattr_(b, "edges"))

        def one(e, n):
            p, q = g.decode(e[0]), g.decode(e[1])
            for x, y in (p, q):
                V.oblige(f"{part}.edges[{n}]: ends are vertices", g.inside(x, y))
                V.requires(g.inside(x, y))
            V.oblige(f"{part}.edges[{n}] lies on one of the {part} sides", tm.or_(*[edge_on(g, s, p, q) for s in mine]))
            V.oblige(f"{part}.edges[{n}] is a boundary edge", C.member(e, be))
        each(V, g, es, one)
        for s in mine:
            with gr.scope():
                V.requires(tm.le(0, i), tm.lt(i, length[s]))
                V.oblige(f"every edge on the {s} side is a {part} edge", member_edge(unit[s](i), es))
        distinct(V, g, f"{part}.edges", es, edge_eq)

        def vert(v, n):
            x, y = g.decode(v)
            V.oblige(f"{part}.vertices[{n}] is a vertex", g.inside(x, y))
            V.oblige(f"{part}.vertices[{n}] lies on a {part} side", tm.or_(*[on_side(g, s, x, y) for s in mine]))
        each(V, g, bv, vert)
        with gr.scope():
            # the vertices on these sides are exactly the ends of the edges on them
            if mine:
                V.requires(g.inside(i, j), tm.or_(*[on_side(g, s, i, j) for s in mine]))
                V.oblige(f"every vertex on a {part} side is a {part} vertex", C.member(g.v(i, j), bv))
        distinct(V, g, f"{part}.vertices", bv, C.eqv)
        V.oblige(f"{part}: collections listed", True)


def one(fix):
    fixed = [] if fix is None else ([fix] if isinstance(fix, str) else sorted(set(fix), key=SIDES.index))

    def fn(V):
        g = G(V)
        V.returns("grid", lambda: call(getattr_(g.domain(fix), "grid"), [g.s]), lambda r: spec(V, g, r, fixed))
    return Case("fix=" + (str(fix) if not isinstance(fix, list) else "[" + ",".join(fix) + "]"), fn, budget=120)


def later(fix):
    """a grid of a domain that produced another one before"""
    def fn(V):
        g = G(V)
        V.returns("grid", lambda: g.second_grid(fix), lambda r: spec(V, g, r, sorted(set(fix), key=SIDES.index)))
    return Case("later grid, fix=[" + ",".join(fix) + "]", fn, budget=150)


def configurations():
    out = [None] + list(SIDES) + [[]]
    for n in (1, 2, 3, 4):
        out += [list(c) for c in itertools.combinations(SIDES, n)]
    return out + [["left", "lower", "left"], ["upper", "upper"], ["right", "left", "upper", "right"]]


def cases():
    return [one(f) for f in configurations()] + [later(["upper", "left"]), later(["right", "lower", "upper"])]


# ------------------------------------------------------------------ concrete
def gen(rng, tier):
    for _ in range(8):
        nx, ny = rng.randint(2, 6), rng.randint(2, 6)
        s = rng.choice([1.0, 0.5, 2.0])
        fix = rng.choice([None, rng.choice(SIDES), [rng.choice(SIDES) for _ in range(rng.randint(0, 6))]])
        yield {"w": (nx - 1) * s + rng.choice([0, 0.25]) * s, "h": (ny - 1) * s, "s": s, "nx": nx, "ny": ny, "fix": fix}


def check_parts(g, nx, ny, fix):
    fixed = [] if fix is None else [fix] if isinstance(fix, str) else sorted(set(fix))
    free = [s for s in SIDES if s not in fixed]
    for part, mine in (("dirichlet", fixed), ("neumann", free)):
        b = getattr(g, part + "_boundary")
        want = set().union(*[gr.side_edges(nx, ny, s) for s in mine]) if mine else set()
        es = [frozenset(e) for e in b.edges]
        if len(set(es)) != len(es) or set(es) != want:
            return f"{part} edges {b.edges} instead of {sorted(map(sorted, want))} for fix={fix} on {nx}x{ny} vertices"
        wv = set().union(*[gr.side_vertices(nx, ny, s) for s in mine]) if mine else set()
        if sorted(b.vertices) != sorted(wv):
            return f"{part} vertices {sorted(b.vertices)} instead of {sorted(wv)} for fix={fix} on {nx}x{ny} vertices"
    return None


def run(case):
    D = mod("domain")
    fix = case["fix"]
    mine = list(fix) if isinstance(fix, list) else fix
    d = D.RectangleDomain(case["w"], case["h"], mine)
    if case["nx"] % 2:
        # another grid first, and something done to it
        h = d.grid(min(case["w"], case["h"]))
        h.dirichlet_boundary.edges.clear()
        h.neumann_boundary.vertices.reverse()
        h.boundary.edges.clear()
    g = d.grid(case["s"])
    if case["ny"] % 2:
        d.grid(case["s"] / 2).neumann_boundary.edges.clear()
    if mine != fix:
        return f"the list of sides {fix} was changed to {mine}"
    return check_parts(g, case["nx"], case["ny"], fix)
