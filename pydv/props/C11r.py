"""Concrete side of C11: real refinements against the lattice they must be."""
import copy
from ..lib import mod, zoom

PARTS = ("boundary", "dirichlet_boundary", "neumann_boundary")


def gen(rng, tier):
    for _ in range(6):
        yield {"nx": rng.randint(1, 4), "ny": rng.randint(1, 3), "flip": rng.choice([0, rng.randint(1, 10 ** 6)]), "r": rng.choice([1, 1, 2, 2, 3, 4, 5, 0, -2]), "s": rng.choice([1.0, 0.5, 0.3, 7.0]) * zoom(rng),
               "fix": rng.choice([None, "left", "upper", ["lower", "right"], ["left", "right"], ["left", "lower", "upper", "right"]]),
               "earlier": rng.choice([[], [1], [2], [3, 1], [4]])}
    yield {"nx": 1, "ny": rng.randint(1, 2), "r": rng.randint(6, 10), "s": 1.0, "fix": rng.choice([None, "left"]), "earlier": []}


def flipped(D, g, seed):
    """the grid with every edge listed in either direction"""
    import random
    rng = random.Random(seed)
    turn = {frozenset(e): rng.random() < 0.5 for e in g.edges}
    to = lambda e: tuple(e[::-1]) if turn.get(frozenset(e)) else tuple(e)
    B = lambda b: D.Boundary(b.vertices, [to(e) for e in b.edges])
    return D.Grid(g.vertices, [to(e) for e in g.edges], g.triangles, B(g.boundary), B(g.dirichlet_boundary), B(g.neumann_boundary), g.points)


def snapshot(g):
    b = lambda x: (list(x.vertices), list(x.edges))
    return copy.deepcopy((g.vertices, g.edges, g.triangles, [[p[0], p[1]] for p in g.points], [b(getattr(g, n)) for n in PARTS]))


def run(case):
    D = mod("domain")
    s, r, nx, ny = case["s"], case["r"], case["nx"], case["ny"]
    d = D.RectangleDomain(s * (nx + 0.2), s * (ny + 0.2), case["fix"])
    g = d.grid(s)
    if case.get("flip"):
        g = flipped(D, g, case["flip"])
    before = snapshot(g)
    for r0 in case.get("earlier", []):
        # earlier refinements by other factors and of another grid
        d.refine(g, r0), d.refine(d.grid(s * 0.9), r0)
    try:
        f = d.refine(g, r)
        if r < 1:
            return f"factor {r} was accepted"
    except ValueError:
        if r >= 1:
            return f"factor {r} was rejected"
        return None if snapshot(g) == before else "the coarse grid was modified by a rejected refinement"
    if snapshot(g) != before:
        return "the coarse grid was modified"
    if f.coarse() is not g:
        return "coarse() is another grid"
    n, N = len(g.points), len(f.points)
    if list(f.vertices) != list(range(N)):
        return f"vertices {f.vertices} for {N} points"
    # positions on the fine lattice
    pos = []
    for p in f.points:
        q = tuple(float(p[k]) / s * r for k in (0, 1))
        z = tuple(round(x) for x in q)
        if max(abs(x - y) for x, y in zip(q, z)) > 1e-6:
            return f"point {p} is not on the fine lattice"
        pos.append(z)
    if [tuple(round(float(p[k]) / s) * r for k in (0, 1)) for p in g.points] != pos[:n]:
        return "the coarse vertices are not the first ones"
    W, H = nx * r, ny * r
    want = {(i, j) for i in range(W + 1) for j in range(H + 1)}
    if len(set(pos)) != N or set(pos) != want:
        return f"{N} fine points at {len(set(pos))} places of {len(want)}"
    rot = lambda t: min(t, t[1:] + t[:1], t[2:] + t[:2])
    tri = [rot(tuple(pos[i] for i in t)) for t in f.triangles]
    wt = {rot(t) for i in range(W) for j in range(H)
          for t in (((i, j), (i + 1, j), (i + 1, j + 1)), ((i + 1, j + 1), (i, j + 1), (i, j)))}
    if len(set(tri)) != len(tri) or set(tri) != wt:
        return f"{len(tri)} triangles, {len(set(tri) & wt)} of the {len(wt)} similar ones"
    es = [frozenset(pos[i] for i in e) for e in f.edges]
    we = {frozenset(e) for i in range(W + 1) for j in range(H + 1)
          for e in (((i, j), (i + 1, j)), ((i, j), (i, j + 1)), ((i, j), (i + 1, j + 1))) if e[1][0] <= W and e[1][1] <= H}
    if len(set(es)) != len(es) or set(es) != we:
        return f"{len(es)} edges, {len(set(es) & we)} of the {len(we)} sides"
    for nm in PARTS:
        cb, fb = getattr(g, nm), getattr(f, nm)
        edges, verts = set(), {pos[v] for v in cb.vertices}
        for a, b in cb.edges:
            (x, y), (z, w) = pos[a], pos[b]
            line = [(x + (z - x) // r * k, y + (w - y) // r * k) for k in range(r + 1)]
            edges |= {frozenset(e) for e in zip(line, line[1:])}
            verts |= set(line)
        fe = [frozenset(pos[i] for i in e) for e in fb.edges]
        if len(set(fe)) != len(fe) or set(fe) != edges:
            return f"{nm}: {len(fe)} edges, {len(set(fe) & edges)} of the {len(edges)} fine ones"
        fv = [pos[i] for i in fb.vertices]
        if len(set(fv)) != len(fv) or set(fv) != verts:
            return f"{nm}: vertices {sorted(fv)} instead of {sorted(verts)}"
        if any(tuple(e) not in set(map(tuple, f.edges)) and tuple(e)[::-1] not in set(map(tuple, f.edges)) for e in fb.edges):
            return f"{nm}: an edge is not one of the grid"
