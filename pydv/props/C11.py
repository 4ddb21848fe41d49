"""RectangleDomain.refine and everything below it."""
from .C11r import gen, run
from . import refine, refine2

EXPLANATION = ("Every function of the refinement is under contract: point_to_vertex (finds exactly the point at a place of the fine lattice), append_edge "
               "(adds an edge once, keeps the scale of the tolerance), _refine_boundary_edge (the pieces of an edge of a part, and nothing for other edges), "
               "_refine_equilateral_triangle (for any factor and any state of the fine grid: the loops that create points are verified with the invariant "
               "that points are numbered consecutively, lie on the fine lattice and are pairwise different; the triangles, edges and boundary calls "
               "it makes are proved to be exactly the r^2 pieces, their sides and the pieces of the sides), the constructor of "
               "RefinedGrid, and refine itself (each coarse triangle once, into copies of the coarse vertices and points, the coarse grid unchanged, "
               "factors below one rejected). That the pieces of all triangles of a rectangle grid are exactly the triangles of the r times finer lattice "
               "is proved as a lemma about the places established by those contracts.")
ASSUMPTIONS = ["the coarse grid is a lattice grid of right triangles (C08 for RectangleDomain.grid; the result of a refinement is one of the finer lattice)",
               "each side of a coarse triangle is listed once among the coarse edges, and a boundary edge is a horizontal or vertical side of one triangle (C08)",
               "fine mesh width above 1e-15 (absolute tolerance used before the first edge is known)"]
SEEDS = 20
SECONDS = 60


def cases():
    out = refine.cases() + refine2.cases()
    for c in out:
        # the others extend the grid they are given: their contracts say how
        c.pure = c.name in ("refine", "RefinedGrid")
    return out
