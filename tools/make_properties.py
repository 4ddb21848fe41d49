"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/tvemoves_rufbad/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]}})


BELL = "src/tvemoves_rufbad/bell_finite_element.py"
p("C01", "The Bell element reproduces every polynomial of degree at most four",
  "If the 18 nodal values (value, first and second derivatives at the three vertices) of a polynomial of total degree at most 4 are fed to the C1 interpolation on any nondegenerate triangle, the interpolation returns that polynomial at every point, and so do its gradient and Hessian.",
  ["inputs"], "all nondegenerate triangles of either orientation, all polynomials of degree <= 4, all evaluation points",
  "tests evaluate a few fixed polynomials on a few fixed triangles at sampled points; a wrong coefficient multiplying a term that vanishes there is invisible",
  ["bell_finite_element.py", "interpolation.py"], [("shape functions and their basis transformation", BELL), ("C1Interpolation.__call__/gradient/hessian", "src/tvemoves_rufbad/interpolation.py")])
p("C02", "The Bell interpolation attains its nodal values, gradients and Hessians",
  "At each vertex of any nondegenerate triangle the C1 interpolation has exactly the prescribed value, first derivatives and second derivatives, in the documented order u, u_x, u_y, u_xx, u_xy, u_yy; wrongly sized parameter vectors are rejected.",
  ["inputs"], "all nondegenerate triangles, all 18 nodal parameters", "tests use random samples with tolerance on selected triangles",
  ["bell_finite_element.py", "interpolation.py"], [("bell_interpolation and its gradient/Hessian", BELL)])
p("C03", "Piecewise Bell interpolations are C1 across shared edges",
  "On a side of a triangle the value and the full gradient of the C1 interpolation depend only on the data of the two end vertices and on their positions, so two triangles sharing an edge (in any vertex order) give the same value and gradient along it; the edge trace function agrees with both.",
  ["inputs"], "all pairs of nondegenerate triangles sharing an edge, all nodal data, all points of the edge",
  "tests sample two neighbouring triangles of one grid; conformity of arbitrary pairs and of the normal derivative needs the universal statement",
  ["bell_finite_element.py", "interpolation.py"], [("cubic normal derivative of the Bell space along sides", BELL), ("bell_interpolation_on_edge", BELL)])
p("C04", "Reported gradients and Hessians are the exact derivatives of the interpolation",
  "For any nondegenerate triangle, any nodal data and any point, the gradient and Hessian returned by the C1 interpolation are the Cartesian first and second derivatives of the function that its evaluation returns, and the Hessian is symmetric.",
  ["inputs"], "all triangles, all data, all points", "tests compare with finite samples of fixed polynomials only",
  ["bell_finite_element.py", "interpolation.py"], [("transform_gradient, transform_hessian", BELL), ("lambdified shape-function derivatives", BELL)])
p("C05", "P1 interpolation is the piecewise affine interpolant of its vertex values",
  "On every triangle of any grid the P1 interpolation is affine, takes the vertex values at the vertices, has the constant gradient determined by them, and restricts to the linear interpolant on edges (first end weighted by t); parameter lists of the wrong length are rejected.",
  ["inputs"], "all grids, all vertex values, all points and edges", "tests use one or two grids and sampled points",
  ["interpolation.py", "bell_finite_element.py"], [("P1Interpolation, P1BoundaryInterpolation", "src/tvemoves_rufbad/interpolation.py"), ("transform_gradient", BELL)])
p("C06", "Tensor algebra equals entrywise linear algebra in every dimension",
  "For vectors, matrices and 3-d tensors of every shape, sums, differences, negation, scaling, division, dot products, matrix-vector and matrix-matrix products, transpose, trace, reshape, flatten, stack, map, norms and scalar products have exactly the textbook entries, the determinant is the alternating sum over permutations, and no operation changes its operands.",
  ["inputs"], "all shapes, all entries", "tests check fixed small integer examples",
  ["tensors.py"], [("Vector, Matrix, Tensor3D operations", "src/tvemoves_rufbad/tensors.py")])
p("C07", "Tensor operations reject mismatched shapes and out-of-range indices",
  "Every index outside the shape of a vector, matrix, 3-d tensor or barycentric point raises IndexError and every index inside returns that entry; operations on incompatible shapes and ragged constructor data raise ValueError.",
  ["inputs"], "all shapes, all integer indices, all pairs of shapes", "tests try a handful of indices; the third tensor axis was in fact unchecked",
  ["tensors.py"], [("bounds checks in __getitem__, shape checks in operators and constructors", "src/tvemoves_rufbad/tensors.py")])
p("C08", "Rectangle grids are valid conforming right-triangle triangulations",
  "For every width and height of at least one scale, the grid's vertices are the lattice points in row order, its triangles all have positive orientation, area scale^2/2, a horizontal first and vertical second side, and together tile the covered rectangle; its edges are exactly the sides of the triangles, each once, and its boundary edges exactly those sides belonging to only one triangle, in the orientation of the edge list, with the boundary vertices being their ends.",
  ["inputs"], "all rectangle sizes and scales (all numbers of rows and columns)", "tests compare a few hand-listed grids",
  ["domain.py"], [("RectangleDomain.grid", "src/tvemoves_rufbad/domain.py")])
p("C09", "Dirichlet and Neumann parts split the boundary exactly as requested",
  "For every such grid and every choice of clamped sides (none, one, or any list of sides) the Dirichlet edges are exactly the boundary edges on clamped sides, the Neumann edges exactly the remaining ones, the Dirichlet vertices exactly the vertices on clamped sides, and the Neumann vertices exactly the ends of Neumann edges.",
  ["inputs", "configurations"], "all rectangle sizes, scales and subsets of clamped sides", "tests list a few combinations on small grids; the corner vertices between two Dirichlet sides were in fact wrong",
  ["domain.py"], [("boundary tagging in RectangleDomain.grid", "src/tvemoves_rufbad/domain.py")])
p("C10", "Point location returns a containing triangle and the right coordinates",
  "For every grid and point, the located triangle is a triangle of the grid and its vertices weighted with the returned coordinates give back the point, with weights nonnegative up to the location tolerance; a point is reported outside only if no triangle of the grid contains it.",
  ["inputs"], "all grids of nondegenerate triangles (either orientation, any number), all points", "tests locate sampled points in a couple of grids",
  ["domain.py"], [("Grid.to_barycentric_point", "src/tvemoves_rufbad/domain.py")])
p("C11", "Refinement subdivides every triangle without changing the geometry",
  "Refining a rectangle grid by a factor r keeps the coarse vertices (same indices and positions), replaces every coarse triangle by r^2 triangles similar to it with the same orientation and 1/r^2 of its area that tile it, shares the vertices and edges on common sides (conformity, no duplicates), and refines the boundary, Dirichlet and Neumann parts into exactly the fine edges and vertices on them; the coarse grid is not modified and factors below one are rejected.",
  ["inputs"], "all rectangle grids and refinement factors", "tests compare r=2,3 on tiny grids with hand-written results",
  ["domain.py"], [("RectangleDomain.refine, RefinedGrid", "src/tvemoves_rufbad/domain.py")])
p("C12", "Fine-to-coarse maps preserve the point they describe",
  "For every triangle of a refined grid (in any cyclic vertex order) and every barycentric point in it, the corresponding coarse barycentric point denotes the same Cartesian point; for every fine edge lying on a coarse edge and every parameter the coarse edge parameter denotes the same point; anything not in the grid is rejected.",
  ["inputs"], "all refined grids, triangles, rotations, points and edge parameters", "tests check some points for r=2,3; rotated triangles and diagonal edges were in fact wrong",
  ["domain.py"], [("RefinedGrid.to_coarse_barycentric_point, to_coarse_edge_point", "src/tvemoves_rufbad/domain.py")])
p("C13", "Refining an interpolation does not change the function",
  "A refined interpolation takes at every point of every fine triangle, and on every fine edge lying on a coarse edge, the same value, gradient and Hessian as the coarse interpolation at the corresponding coarse point.",
  ["inputs"], "all refined grids, all coarse interpolations, all points", "tests sample points for one grid and one factor",
  ["interpolation.py", "domain.py"], [("RefinedInterpolation", "src/tvemoves_rufbad/interpolation.py")])
p("C14", "Quadrature rules integrate polynomials up to their stated degree",
  "Each triangle rule has weights summing to one and points inside the triangle and integrates every polynomial up to its nominal degree exactly (up to the rounding of the tabulated constants), and the n-point Gauss rule on the unit segment does so up to degree 2n-1; invalid rules (points outside the triangle, weights not summing to one) are rejected.",
  ["inputs"], "all polynomials up to the degree (by linearity: all monomials), all rules", "tests check some monomials",
  ["quadrature_rules.py"], [("rule tables and TriangleQuadratureRule/GaussQuadratureRule constructors", "src/tvemoves_rufbad/quadrature_rules.py")])
p("C15", "Integrators compute the composite quadrature over exactly the given cells",
  "For every list of triangles (either orientation) and every integrand, the domain integrator returns the sum over the triangles of area times the weighted sum of integrand values at the quadrature points, and the boundary integrator the analogous sum with edge lengths; in particular it is linear and integrates constants to the total measure.",
  ["inputs"], "all cell lists, positions, rules and integrands", "no test covers the integrators",
  ["integrators.py"], [("Integrator, BoundaryIntegrator", "src/tvemoves_rufbad/integrators.py")])
p("C16", "Elastic potentials are frame indifferent, nonnegative and vanish at their wells",
  "For every deformation gradient with positive determinant the austenite, martensite and total elastic potentials are nonnegative and unchanged by rotations; the austenite potential vanishes exactly at rotations and the martensite potential vanishes at its two sheared wells; the strain-gradient potential is nonnegative and vanishes at zero.",
  ["inputs"], "all 2x2 matrices of positive determinant, all rotations, all temperatures >= 0", "no test covers the potentials",
  ["helpers.py"], [("austenite_potential, martensite_potential, total_elastic_potential, hyper_elastic_potential", "src/tvemoves_rufbad/helpers.py")])
p("C17", "Stress functions are the exact derivatives of their potentials",
  "The matrices returned as derivatives of the austenite, martensite and coupling potentials are, entry by entry and for every deformation gradient of positive determinant and every temperature, the partial derivatives of those potentials with respect to the deformation gradient.",
  ["inputs"], "all 2x2 matrices of positive determinant, all temperatures", "no test covers the derivatives",
  ["helpers.py"], [("derivative_austenite_potential, derivative_martensite_potential, strain_derivative_coupling_potential", "src/tvemoves_rufbad/helpers.py")])
p("C18", "Dissipation is a frame-indifferent nonnegative quadratic form of the strain rate",
  "The dissipation potential is half the squared norm of the symmetrised strain increment, is nonnegative, zero for an unchanged strain and for infinitesimal rotations, quadratic in the increment and invariant under a common rotation; the dissipation rate is fps^2 times twice the potential.",
  ["inputs"], "all pairs of strains, all frame rates", "no test covers dissipation",
  ["helpers.py"], [("symmetrized_strain_delta, dissipation_potential, dissipation_rate", "src/tvemoves_rufbad/helpers.py")])
p("C19", "The thermal constitutive functions are thermodynamically consistent",
  "The austenite percentage lies in [0,1), increases with temperature and vanishes at zero; the internal energy is the coupling energy minus temperature times its temperature derivative plus the entropy term, and its temperature antiderivative differentiates back to it and vanishes at zero temperature.",
  ["inputs"], "all temperatures >= 0, all deformation gradients of positive determinant", "no test covers these functions",
  ["helpers.py"], [("austenite_percentage, internal_energy*, antider_internal_energy_weight", "src/tvemoves_rufbad/helpers.py")])
p("C20", "Heat conductivity is pulled back to the reference configuration correctly",
  "For every invertible strain F the reference conductivity is det(F) F^-1 K F^-T; it is symmetric and, for positive determinant, positive definite, and the 2x2 inverse is a two-sided inverse and rejects other shapes.",
  ["inputs"], "all invertible 2x2 matrices", "only one inverse is tested, the conductivity not at all",
  ["helpers.py", "tensors.py"], [("heat_conductivity_reference", "src/tvemoves_rufbad/helpers.py"), ("inverse_2x2", "src/tvemoves_rufbad/tensors.py")])
p("C21", "The mechanical step minimises the documented incremental functional",
  "For every grid, previous deformation, temperature, frame rate and traction, the objective handed to the solver as a function of the unknown deformation is the integral of the elastic energy at the previous temperature plus fps times the dissipation potential minus the boundary traction work (unregularised), respectively plus the weighted strain-gradient energy with the C1 interpolation (regularised).",
  ["inputs", "configurations"], "all grids, states, parameters and loads, both model variants", "no test builds the mechanical step",
  ["mechanical_step.py"], [("model and objective construction behind mechanical_step()", "src/tvemoves_rufbad/mechanical_step.py")])
p("C22", "The thermal step minimises the documented incremental functional",
  "For every grid, deformation pair, previous temperature and frame rate the objective handed to the solver as a function of the unknown temperature is the documented sum of the internal-energy, dissipation, coupling-work, heat-diffusion and boundary heat-transfer terms, so that its temperature derivative is the discrete heat equation.",
  ["inputs", "configurations"], "all grids, states, parameters and external temperatures, both model variants", "no test builds the thermal step",
  ["thermal_step.py"], [("model and objective construction behind thermal_step()", "src/tvemoves_rufbad/thermal_step.py")])
p("C23", "Step updates set exactly the new state, starting guess and search box",
  "After an update of the previous deformation or temperature, the step returns exactly that array as previous state, uses it as starting guess, and restricts every unknown to the search radius around it; arrays of the wrong shape are rejected, and the arrays returned have the documented layout.",
  ["inputs", "histories"], "all grids, arrays, radii and update sequences", "no test covers the update methods",
  ["mechanical_step.py", "thermal_step.py"], [("update_prev_y, update_prev_theta, update_y, prev_y, y, prev_theta, theta", "src/tvemoves_rufbad/mechanical_step.py")])
p("C24", "Clamped boundary vertices stay at the identity",
  "In both variants of the mechanical step the unknowns at Dirichlet vertices are fixed so that the deformation there is the identity in every step of the scheme, whatever the solver returns for the other unknowns; all other unknowns are left free.",
  ["inputs", "histories", "configurations"], "all grids, sets of clamped sides and numbers of steps", "no test covers the boundary conditions",
  ["mechanical_step.py"], [("fixing of Dirichlet unknowns", "src/tvemoves_rufbad/mechanical_step.py")])
p("C25", "The simulation runs the staggered scheme and records its exact history",
  "For every number of steps, each step first solves the mechanical problem at the last recorded deformation and temperature and the current time, then the thermal problem with the new deformation, and appends exactly the resulting state; histories are only ever extended, the first entry is the initial state, and times advance by one over the frame rate.",
  ["histories", "inputs"], "all solver answers, all numbers of steps and ways of splitting a run", "no test runs a simulation",
  ["simulation.py"], [("Simulation.__init__, run and helpers", "src/tvemoves_rufbad/simulation.py")])
p("C26", "Invalid simulation parameters are rejected and valid ones kept",
  "Simulation parameters are accepted exactly when the initial temperature is nonnegative, search radius, frame rate, scale and (if given) refinement factor are positive, a given regularisation is nonnegative, and a regularised simulation has a refinement factor; accepted values are kept (the refinement factor is dropped without regularisation) and passed on unchanged to the two steps.",
  ["inputs", "configurations"], "all parameter values", "no test covers parameter validation; fps = 0 was in fact accepted",
  ["simulation.py"], [("SimulationParams.__post_init__, mechanical_step_params, thermal_step_params", "src/tvemoves_rufbad/simulation.py")])
p("C27", "Deformation wrappers evaluate both components consistently",
  "For every pair of component interpolations, a deformation's value, strain, hyper strain and edge trace are exactly the two components' values, gradients (as rows), Hessians (as slices) and edge values at the same point; the Euclidean wrappers evaluate the same functions at the located barycentric point and reject points outside the grid.",
  ["inputs"], "all component interpolations, grids and points", "tests sample a few affine and polynomial deformations",
  ["interpolation.py"], [("Deformation, EuclideanDeformation, EuclideanInterpolation", "src/tvemoves_rufbad/interpolation.py")])
p("C28", "Domain curves are the requested uniform families inside the rectangle",
  "For every rectangle and all curve counts, the curves are the requested numbers of horizontal followed by vertical lines, equally spaced and including the four sides, each with the requested number of equally spaced points running from one side of the rectangle to the opposite one.",
  ["inputs"], "all rectangles and counts", "tests check small counts",
  ["domain.py"], [("RectangleDomain.curves", "src/tvemoves_rufbad/domain.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
