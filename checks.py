"""The properties (single source of properties.jsonl and MANIFEST.json, see tools/gen.py) and how each one is run."""

ASSUMPTIONS = [
    "Generated surfaces are closed 2-manifolds (or documented flawed inputs where the property says so); the code runs with one OpenMP "
    "thread unless the property varies the number of threads.",
    "The reference models in /verif/harness (exact polyhedral clipping, winding numbers, Gauss rules, dictionary model ...) are "
    "independent of the code under test and trusted.",
]


def cpp(target, flavour="rel", sub=None, scale=1.0):
    return {"kind": "cpp", "target": target, "flavour": flavour, "sub": sub, "scale": scale}


def py(script, scale=1.0):
    return {"kind": "py", "script": script, "scale": scale}


PROPS = []
E_ = "queso/embedding/"
Q_ = "queso/quadrature/"
C_ = "queso/containers/"


def P(id, title, statement, over, text, why, files, mech, technique, runs, note="", assumptions=(), na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
        "mech": mech, "technique": technique, "runs": runs, "note": note, "assumptions": list(assumptions), "na": na})


P("Q01", "Cut-cell rules are positive, inside the material and small",
  "Every integration rule that a model provides for a cell cut by a closed surface has between one and (p+1)^3 points, all weights are positive and finite, and every point lies inside its own cell and inside the material domain.",
  ["inputs", "configurations"], "all closed surfaces, grids, polynomial orders 1..4, moment-fitting residuals, volume-ratio and triangulation settings",
  "Tests look at a handful of fixed STL files and sum the weights; whether one point leaves the material or a weight vanishes depends on the shape of the cut, of which there are infinitely many.",
  [Q_ + "trimmed_element.hpp", "queso/solvers/nnls.cpp", E_ + "element_builders.hpp", E_ + "octree.cpp"],
  [("octree candidate points inside the cut domain", E_ + "octree.cpp"), ("non-negative least squares and point elimination", Q_ + "trimmed_element.hpp")],
  "Random closed solids x random grids, whole model built; oracle: winding number of an independent mesh copy, cell bounds, point count.",
  [cpp("h_model")])

P("Q02", "Cut-cell rules reproduce the moments of the cut domain",
  "For every cut cell that a model keeps, the integration rule reproduces the integrals of all polynomials up to the chosen order per direction over the part of the cell inside the surface, within the requested residual for the orders that the surface quadrature integrates exactly, and otherwise to one per mille (one percent if fewer than 100 boundary triangles are requested); a cell in which the residual cannot be attained deviates by no more than the residual that the solver reports.",
  ["inputs", "configurations"], "all closed surfaces, grids, polynomial orders, residuals and triangulation settings",
  "Exact moments of a random polyhedral cut need an independent clipper; the tests compare with recorded reference numbers of a few models.",
  [Q_ + "trimmed_element.hpp", E_ + "trimmed_domain.cpp", "queso/utilities/triangle_utilities.hpp", "queso/utilities/polynomial_utilities.hpp"],
  [("moment fitting with the divergence theorem", Q_ + "trimmed_element.hpp"), ("closed boundary of the cut domain", E_ + "trimmed_domain.cpp")],
  "Random closed solids x random grids; oracle: exact moments of the clipped polyhedron from an independent half-space clipper.",
  [cpp("h_model")])

P("Q03", "Full cells get exact Gauss rules and lie entirely inside",
  "Every cell that a model treats as full lies completely inside the surface, and its Gauss or reduced Gauss rule has exactly the tensor-product number of positive points inside the cell and integrates all polynomials exactly that such a rule must integrate.",
  ["inputs", "configurations"], "all closed surfaces, grids, polynomial orders 1..8 and Gauss variants",
  "Every polynomial of every order on every cell geometry; the tests check sums of weights and single functions.",
  [Q_ + "single_element.hpp", "queso/embedded_model.cpp", C_ + "untrimmed_element.hpp"],
  [("tensor product of 1D tables", Q_ + "single_element.hpp"), ("classification before assembly", "queso/embedded_model.cpp")],
  "Random closed solids x grids x orders; oracle: orthogonality relations of Legendre polynomials, exact volume fraction of the cell.",
  [cpp("h_model")])

P("Q04", "One-dimensional rules are exact for their spline or polynomial space",
  "For every supported polynomial order, method and number of knot spans, the generalized Gaussian rule has the optimal number of ascending interior points with positive weights that sum to one, and integrates every spline of its target space exactly; every Gauss-Legendre rule is exact up to twice its size minus one.",
  ["configurations", "inputs"], "orders 2..4 x 3 methods x 1..400 knot spans, all Gauss tables, random functions of the space",
  "The tests cover a fixed list of span numbers, skip single spans for some rules and only use selected functions.",
  [Q_ + "integration_points_1d/integration_points_factory_1d.cpp", Q_ + "integration_points_1d/precomputed_ggq_rules_optimal.cpp", Q_ + "integration_points_1d/precomputed_ggq_rules_reduced1.cpp", Q_ + "integration_points_1d/precomputed_ggq_rules_reduced2.cpp", Q_ + "integration_points_1d/gauss_legendre_integration_points.cpp"],
  [("recursive composition from boundary, internal and centre nodes", Q_ + "integration_points_1d/integration_points_factory_1d.cpp")],
  "Random (order, method, spans) and random splines of the target space (de Boor evaluation); oracle: piecewise Gauss integration.",
  [cpp("h_quad")])

P("Q05", "Generalized Gaussian rules are exact on any arrangement of full cells",
  "For every arrangement of full cells in a B-spline grid, the generalized Gaussian rules give every full cell points inside that cell with positive weights, never more points in total than cell-wise Gauss rules, and together integrate every spline of the target space over the union of the full cells exactly, whatever the order in which cells were added.",
  ["inputs", "configurations", "histories"], "all subsets of full cells of grids up to 9x9x9, mixed orders, all insertion orders",
  "Exactness depends on how the cells merge into boxes, a combinatorial number of patterns; the tests use solid blocks.",
  [Q_ + "multiple_elements.hpp", C_ + "background_grid.hpp", C_ + "grid_indexer.hpp"],
  [("greedy expansion of boxes", Q_ + "multiple_elements.hpp"), ("traversal to neighbours", C_ + "background_grid.hpp")],
  "Random masks of full cells (random, ball, boxes, holes, missing layers) x orders x insertion orders; oracle: exact integrals of random tensor-product splines.",
  [cpp("h_quad")])

P("Q06", "A model accounts for every part of the enclosed volume",
  "Every cell whose enclosed volume fraction exceeds the minimum ratio is active exactly once, no other cell is active, the weights of each active cell sum to its enclosed volume, and the sum over all cells plus the neglected slivers equals the enclosed volume within the grid.",
  ["inputs", "configurations"], "all closed surfaces (multi-body, with voids, aligned with grid planes), grids and settings",
  "The loss of a single cell shows only for particular positions of a surface relative to the grid; the tests use few fixed models.",
  ["queso/embedded_model.cpp", E_ + "brep_operator.cpp", E_ + "flood_fill.cpp", E_ + "element_builders.hpp"],
  [("classification and element construction loop", "queso/embedded_model.cpp")],
  "Random closed solids x random grids; oracle: exact volume of each clipped cell.",
  [cpp("h_model")])

P("Q07", "Cells are classified as inside, outside or cut correctly",
  "For every closed surface, grid and number of threads, each grid cell that the surface cuts is classified as cut, each cell that it does not touch is classified as inside or outside exactly as its centre lies inside or outside the surface, and cells only touched by the surface are never given the wrong side.",
  ["inputs", "configurations", "schedules"], "all closed surfaces, grids (centred, partial, far larger) and thread counts 1..8",
  "Flood filling propagates one wrong decision over whole regions, depending on partition sizes and the number of threads; the tests use few grids.",
  [E_ + "flood_fill.cpp", E_ + "flood_fill.h", E_ + "brep_operator.cpp", E_ + "geometry_query.cpp"],
  [("partitioned flood fill and merging of groups", E_ + "flood_fill.cpp")],
  "Random closed solids and axis-aligned voxel solids x grids x threads; oracle: triangle-box distance and winding number.",
  [cpp("h_model")])

P("Q31", "The non-negative least-squares solver returns an optimal solution",
  "For every matrix and right-hand side, the solver returns non-negative coefficients that satisfy the optimality conditions of the non-negative least-squares problem, at most as many positive ones as there are equations, and the reported residual is the norm of the remaining error.",
  ["inputs"], "matrices up to 20 x 30, random, integer, rank-deficient, consistent and inconsistent",
  "The tests solve recorded systems; optimality must hold for every system that moment fitting produces.",
  ["queso/solvers/nnls.cpp", "queso/solvers/nnls.h"], [("active-set method", "queso/solvers/nnls.cpp")],
  "Random dense systems; oracle: the Karush-Kuhn-Tucker conditions.",
  [cpp("h_quad")])

P("Q32", "The polynomial basis and its antiderivatives are consistent",
  "On every interval, the basis polynomials of order 0 to 8 are the shifted Legendre polynomials, the provided antiderivatives increase by the integral of the polynomial between any two points, and all of positive order integrate to zero.",
  ["inputs"], "orders 0..8, intervals of length 1e-3..1e3, points inside and outside",
  "The tests evaluate the basis at fixed points of fixed intervals.",
  ["queso/utilities/polynomial_utilities.hpp"], [("closed-form evaluation", "queso/utilities/polynomial_utilities.hpp")],
  "Random intervals and points; oracle: three-term recurrence in extended precision.",
  [cpp("h_quad")])

P("Q33", "Triangle quadrature rules are exact, inside the triangle and correctly oriented",
  "For every non-degenerate triangle and every rule, the points lie on the triangle, the weights sum to its area, the normals are its unit normal, and all polynomials up to the degree of the rule are integrated exactly.",
  ["inputs"], "all triangles of size 1e-2..1e2, all five rules",
  "The tests use particular triangles and compare with recorded values.",
  ["queso/utilities/triangle_utilities.hpp", "queso/utilities/triangle_gauss_legendre_integration_points.hpp"],
  [("tabulated barycentric rules", "queso/utilities/triangle_gauss_legendre_integration_points.hpp")],
  "Random triangles and all monomials; oracle: collapsed tensor Gauss rule.",
  [cpp("h_quad")])

from props_more import add_more  # noqa: E402
add_more(P, cpp, py)
PROPS.sort(key=lambda p: p["id"])
CHECKS = {p["id"]: p for p in PROPS if p["runs"]}
