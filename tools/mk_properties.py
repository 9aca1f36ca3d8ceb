#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = "puncturedfem/"
M, L, S = P + "mesh/", P + "locfun/", P + "solver/"
props = []
def add(id, title, statement, over, qtext, why, files, state, mech, observe):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

add("C01", "Edge geometry is exact under every history of transformations",
    "After any sequence of translations, rotations, reflections, nonzero dilations (either sign), orthogonal maps and point joins, applied to an edge before or after it is sampled, the sampled points are the image of the reference curve under the composed map, and the unit tangent, unit normal (tangent turned clockwise), speed and signed curvature are those of the transformed curve. "
    "The transformations recorded on an edge survive sampling: sampling it again (same or finer quadrature) gives the same curve, and joining an edge to two points makes them its endpoints. Invalid transformations (zero dilation, coincident join points, non-orthogonal matrices) are rejected and leave the edge unchanged.",
    ["histories", "inputs"], "all sequences of transformations and (re)samplings, all curve types",
    "tests/test_edge.py applies each transformation once to one curve and checks norms; composition order, re-sampling after a transformation, negative dilations and reflections composed with joins are never exercised.",
    [M + "edge.py", M + "edgelib"],
    [("diary", "recorded transformations", M + "edge.py Edge.diary"), ("x, unit_tangent, unit_normal, dx_norm, curvature", "sampled geometry", M + "edge.py")],
    [("parameterize + run_transform_diary", M + "edge.py"), ("apply_orthogonal_transformation, translate, dilate, join_points", M + "edge.py")],
    ["sampled arrays of an edge"])

add("C02", "Sampling lifecycle of edges: repeatable, reversible, never stale",
    "Sampling an edge depends only on its definition and the quadrature: parameterize, reverse and deparameterize in any order and number of times never change what the next parameterize produces, reversing twice restores the samples, and a reversal traces the same curve backwards with tangent, normal and curvature negated. "
    "An edge sampled with parameter n carries exactly 2n+1 points from anchor to endpoint, and every query that needs samples raises the not-parameterized error on an unsampled edge or cell. Sampling a cell orients its shared edges along its own boundary, whichever neighbours were sampled before it.",
    ["histories", "schedules"], "all interleavings of parameterize/deparameterize/reverse on edges and on cells sharing edges",
    "The tests parameterize one cell once; the orientation of a shared edge depends on which cell sampled it last, so only histories over several cells show a stale or double-reversed edge.",
    [M + "edge.py", M + "closed_contour.py", M + "cell.py"],
    [("is_parameterized", "edge has samples", M + "edge.py"), ("edge_orients", "orientation of each edge in the cell", M + "cell.py, " + M + "closed_contour.py")],
    [("parameterize / deparameterize / reverse_orientation", M + "edge.py"), ("ClosedContour.parameterize", M + "closed_contour.py")],
    ["sampled arrays of shared edges and of the cell boundary"])

add("C03", "Splitting an edge preserves the curve and its mesh topology",
    "Splitting an edge at any parameters inside its bounds, or into a number of pieces, returns pieces in order from the anchor to the endpoint whose union is exactly the original transformed curve, consecutive pieces sharing their endpoint. "
    "Every piece lies between the same two cells, keeps the curve type and options, and covers its own subinterval, so a cell rebuilt from the pieces has the same shape, perimeter and area. Invalid requests are rejected, and the original edge and the caller's arguments are unchanged.",
    ["inputs", "histories"], "all curve types, transformation histories, split parameters and repeated splits",
    "tests/test_split_edge.py splits untransformed library curves at a few points and compares lengths.",
    [M + "split_edge.py", M + "transform.py"],
    [("t_bounds", "parameter interval of the piece", M + "edge.py"), ("pos/neg cell index", "adjacent cells", M + "edge.py")],
    [("_split_edge_single", M + "split_edge.py")], ["edges returned by split_edge"])

add("C04", "Cell boundary is decomposed into oriented closed contours, any edge order",
    "Given the edges of a cell in any order and direction, the cell finds its boundary contours: each edge belongs to exactly one contour, consecutive edges of a contour meet head to tail along the cell's orientation, the number of holes is the number of contours minus one, and after sampling the first contour is the outer boundary and the others are the holes. "
    "Edges that do not form disjoint simple closed contours, or are not adjacent to the cell, are rejected.",
    ["inputs"], "all edge orders, edge directions, numbers of edges and holes, including single-edge contours",
    "The tests always list edges head to tail, outer boundary first; order-dependence of the contour search cannot be seen from one order.",
    [M + "cell.py", M + "closed_contour.py"],
    [("components", "contours, outer first after sampling", M + "cell.py"), ("num_holes, num_edges", "counts", M + "cell.py")],
    [("get_edge_endpoint_incidence, find_boundary_components, _find_outer_boundary", M + "cell.py")], ["components of a cell", "exceptions"])

add("C05", "Boundary sampling, indexing and integration over cells are consistent",
    "On a sampled cell (with any holes) every boundary array uses one common index: the contours in order, edges in order, each edge without its endpoint; counts, contour start indices, vertex indices and closest-vertex indices all refer to that index, and evaluating, dotting with tangent or normal, weighting and integrating agree between edge, contour and cell. "
    "The outer boundary is traversed counterclockwise and holes clockwise so the unit normal points out of the cell, and boundary integrals of polynomial fields satisfy the divergence theorem with the cell's exact area. Arrays of the wrong length are rejected.",
    ["inputs", "configurations"], "all cell shapes (lattice polygons with polygonal or circular holes), edge orders and directions, sampling parameters",
    "Existing tests check two shapes with one sampling; an off-by-one in the shared index is invisible where all edges carry equal data.",
    [M + "cell.py", M + "closed_contour.py", M + "edge.py"],
    [("component_start_idx, vert_idx, closest_vert_idx, num_pts", "boundary index bookkeeping", M + "cell.py")],
    [("evaluate/dot/integrate on edge, contour, cell", M + "closed_contour.py")], ["boundary arrays and integrals"])

add("C06", "Interior points of a cell are inside it and away from its boundary",
    "A point is classified as interior exactly when it is inside the outer boundary and outside every hole; the interior sample grid of a cell (of any requested rows and columns) is exactly the set of bounding-box grid points that are interior and at least the requested tolerance from the boundary samples, and each contour's representative point lies strictly inside that contour. "
    "The drawing triangulation covers only the cell: no unmasked triangle fills a hole or the outside, together they fill the cell, and the triangles touching the boundary are known.",
    ["inputs", "configurations"], "all cells with holes, grid sizes and tolerances",
    "Tests use square grids on one domain and only compare function values at whatever points were kept.",
    [M + "cell.py", M + "closed_contour.py"],
    [("int_x1, int_x2", "interior sample points", M + "cell.py"), ("interior_point", "representative point", M + "closed_contour.py")],
    [("generate_interior_points, is_in_interior, find_interior_point, _build_triangulation", M + "cell.py")], ["interior points", "is_in_interior"])

add("C07", "Planar mesh bookkeeping reflects exactly the edges it was given",
    "A mesh numbers its edges by position (duplicates dropped), lists every nonnegative cell index and every vertex index of its non-loop edges exactly once in increasing order, and its counts, cell lookups, index lookups and boundary queries follow from that edge list alone. "
    "The edges of a cell are exactly those having that cell on either side, an edge or vertex is on the boundary exactly when a cell is missing beside it or beside an incident edge, and unknown cells, non-edges and edges beside no cell are rejected.",
    ["inputs", "histories"], "all edge lists, orders, index numberings (gaps, loops, unnumbered vertices)",
    "Tests build one library mesh; numbering gaps, repeated edges and loop-only cells do not occur there.",
    [M + "planar_mesh.py"],
    [("vert_idx_list, cell_idx_list, edges", "mesh tables", M + "planar_mesh.py")],
    [("_build_vert_idx_list, _build_cell_idx_list, get_cell, *_is_on_boundary", M + "planar_mesh.py")], ["mesh tables and queries"])

add("C08", "Every library mesh is a valid planar subdivision of its domain",
    "For every parameter choice, each mesh the library builds is a valid subdivision: every interior edge has one cell on each side, every cell is bounded by disjoint closed contours oriented positively with its hole count, cells do not overlap, their areas add up to the area of the domain, and Euler's relation holds. "
    "Neighbouring cells sample their shared edges at the same points, and the mesh boundary is exactly the domain boundary.",
    ["configurations"], "all library meshes and all pegboard sizes and radii (including none)",
    "No test builds a pegboard other than through the examples; areas and cell adjacency are never checked.",
    [M + "meshlib"], [("edges", "edge list with cell indices", M + "meshlib")],
    [("mesh builders", M + "meshlib/__builder__.py")], ["PlanarMesh returned by the builders"])

add("C09", "Quadrature rules sample and weight the parameter interval correctly",
    "For every admissible n and p the trapezoid rule has the 2n+1 equispaced nodes with unit weights, and the Kress rule has increasing nodes fixing both ends and the midpoint, symmetric nodes and weights, weights that are the derivative of the node map (so they vanish at the ends and integrate to the interval length). "
    "Smooth integrands over smooth closed curves and over edges between corners are integrated to high accuracy by either rule, and inadmissible n or p are rejected.",
    ["inputs"], "all n >= 4 and p >= 2",
    "Tests use n = 16..64 with p = 7 only, at loose tolerances.",
    [M + "quad.py"], [("t, wgt, n, h", "nodes and weights", M + "quad.py")], [("Quad.kress/trap, get_quad_dict", M + "quad.py")], ["Quad objects"])

add("C10", "Polynomial arithmetic obeys the ring laws in canonical form",
    "Sums, differences, scalar and polynomial products, powers, negation and in-place addition of bivariate polynomials equal the exact ones for all coefficients, also when an operand is used twice or added to itself; equal polynomials compare equal however they were built. "
    "Results are always canonical (no repeated or zero terms, sorted by multi-index), the multi-index numbering is a bijection in graded order, and no operation other than an in-place one changes its operands.",
    ["inputs", "histories"], "all polynomials and all sequences of operations, including aliased operands",
    "tests/test_poly.py checks a few fixed polynomials and never reuses an operand after an operation.",
    [L + "poly/poly.py", L + "poly/monomial.py", L + "poly/multi_index.py"],
    [("monos", "terms of the polynomial", L + "poly/poly.py")], [("add_monomial(s), consolidate, sort, operators", L + "poly/poly.py")], ["terms of results and operands"])

add("C11", "Polynomial calculus is exact",
    "Evaluation, partial derivatives, gradient, Laplacian, composition with polynomials and the anti-Laplacian of every bivariate polynomial are exact: the derivative of each term is its textbook derivative, the Laplacian of the anti-Laplacian is the original polynomial, and evaluation at any point or array equals the sum of its terms. "
    "Special polynomials (barycentric coordinates of a segment or triangle, products and Legendre bases on edges) have their defining values.",
    ["inputs"], "all polynomials up to the degrees used by the discrete spaces and beyond",
    "Tests check one polynomial per operation; anti-Laplacian and composition have per-degree branches.",
    [L + "poly/poly.py", L + "poly/barycentric.py", L + "poly/legendre.py"],
    [("monos", "terms", L + "poly/poly.py")], [("anti_laplacian, grad, laplacian, compose", L + "poly/poly.py")], ["terms and values of results"])

add("C12", "Polynomials are integrated exactly over every cell",
    "Integrating a bivariate polynomial over a cell through its boundary gives the exact integral over the cell (with its holes removed) up to quadrature accuracy, for every shape, edge order and direction. The result is linear in the polynomial and additive when a cell is cut in two or a hole is filled.",
    ["inputs"], "all polynomials, lattice polygons with polygonal and circular holes, all edge orders and directions",
    "Tests integrate a few monomials over two domains.",
    [L + "poly/integrate_poly.py"], [("cell boundary", "sampled boundary", M + "cell.py")], [("integrate_poly_over_mesh_cell", L + "poly/integrate_poly.py")], ["returned integral"])

add("C13", "Dirichlet traces form a vector space with values bound to their edges",
    "A trace built from a constant, an array, functions or polynomials, whole or edge by edge and overwritten in any order, has exactly the values of the last assignment at each boundary sample in the cell's index, and sums, differences, scalar products and quotients of traces are pointwise and leave the operands unchanged. "
    "Invalid data (wrong length, wrong number of functions, out-of-range edge, wrong type) is rejected.",
    ["histories", "inputs"], "all sequences of assignments and arithmetic on cells with several edges and holes",
    "Tests set one trace from one list of functions.",
    [L + "trace.py"], [("values, funcs", "boundary values and their defining functions", L + "trace.py")],
    [("set_trace_values, set_funcs, set_trace_values_on_edge, operators", L + "trace.py")], ["trace values"])

add("C14", "Tangential and normal derivatives of traces are those of the function",
    "The tangential derivative of a trace is the derivative of its values along the oriented boundary: exact for trigonometric polynomials below the sampling limit on closed smooth contours, linear, zero on constants, with zero mean on every contour, and its antiderivative undoes it up to a constant. "
    "For a known harmonic function on a cell with any number of holes, the computed weighted normal derivative is its outward normal derivative, and the boundary-to-boundary map is linear and kills constants.",
    ["inputs"], "all trigonometric polynomials below the sampling limit, all harmonic polynomials and logarithmic potentials on cells with holes",
    "Tests check one function on one domain.",
    [L + "fft_deriv.py", L + "trace.py", L + "nystrom.py"], [("w_tang_deriv, w_norm_deriv", "weighted derivatives", L + "trace.py")],
    [("fft_derivative, get_tangential_derivative, NystromSolver", L + "fft_deriv.py, " + L + "nystrom.py")], ["derivative arrays"])

add("C15", "Local Poisson problems reproduce the function that defines them",
    "A local function given by its polynomial Laplacian and Dirichlet trace is the solution of that Poisson problem: whenever trace and Laplacian are those of a known function (polynomial, harmonic, logarithmic around a hole, or any combination), its polynomial and harmonic parts, interior values, interior gradients and boundary derivatives are those of that function, for every cell with holes, edge order and solver option. "
    "Requesting values without gradients never yields wrong gradients.",
    ["inputs", "configurations"], "all combinations of polynomial and logarithmic generators, cells with 0..3 holes, solver options",
    "Tests use two or three fixed functions on two domains with one solver configuration.",
    [L + "local_poisson.py", L + "local_harmonic.py", L + "local_polynomial.py", L + "nystrom.py", L + "antilap.py"],
    [("harm, poly, int_vals, int_grad", "parts of a local function", L + "local_poisson.py")],
    [("LocalPoissonFunction construction, compute_interior_values", L + "local_poisson.py")], ["parts, interior values and gradients"])

add("C16", "Inner products of local functions are exact, symmetric and bilinear",
    "The L2 inner product and H1 semi-inner product of two local functions on a cell equal the integrals of the product and of the dot product of gradients, and are symmetric, bilinear and positive; the H1 semi-inner product vanishes against constants. This holds for every pair of polynomial, harmonic and mixed functions on cells with or without holes.",
    ["inputs"], "all pairs from the function algebra on lattice polygons with polygonal/circular holes and annuli",
    "Tests compare a handful of precomputed integrals; mixed harmonic/polynomial pairs in both argument orders are not covered.",
    [L + "inner_prod.py", L + "local_poisson.py", L + "local_harmonic.py", L + "local_polynomial.py", L + "antilap.py"],
    [("antilap", "anti-Laplacian data", L + "antilap.py")], [("get_h1_semi_inner_prod, get_l2_inner_prod", L + "local_poisson.py")], ["inner products"])

add("C17", "Arithmetic of local functions is that of the functions they represent",
    "Adding, subtracting, scaling and dividing local functions (polynomial, harmonic, Poisson) gives the local function of the corresponding combination: traces, Laplacians, polynomial and harmonic parts, logarithmic coefficients, interior values, gradients and derivative data all combine linearly. Operands are never modified and results share no mutable data with them; the operations commute, associate and distribute; and operands of an unsupported type are rejected.",
    ["histories", "inputs"], "all expression histories over a pool of functions, with operands reused",
    "Tests never combine functions after using them, so aliasing and forgotten components are invisible.",
    [L + "local_poisson.py", L + "local_harmonic.py", L + "local_polynomial.py"],
    [("all component arrays", "linear data", L + "local_poisson.py")], [("operators", L + "local_poisson.py")], ["components of results and operands"])

add("C18", "Local function spaces have the right dimension and a conforming basis",
    "On each edge (at any position and size, where the polynomials of that degree are well conditioned on the samples) the polynomial trace space of degree p has its full dimension on that curve, its vertex functions are one at their vertex and zero at the other, the rest vanish at both ends, and together they span all degree-p polynomials restricted to the edge. "
    "The local space of a cell has one function per non-loop vertex, per edge function and per bubble p(p-1)/2; vertex functions sum to one on straight edges, bubbles vanish on the boundary, and two cells of a global space sharing an edge use identical trace functions on it, so global functions are continuous.",
    ["configurations", "inputs"], "all degrees, edge types (line, arc, loop, general), cells, and orders in which cells are visited",
    "Only dimensions on one mesh are tested; agreement between neighbouring cells is never checked.",
    [L + "edge_space.py", L + "local_space.py"],
    [("vert_fun_traces, edge_fun_traces", "edge basis", L + "edge_space.py"), ("vert_funs, edge_funs, bubb_funs", "cell basis", L + "local_space.py")],
    [("EdgeSpace construction, LocalPoissonSpace builders", L + "edge_space.py, " + L + "local_space.py")], ["basis traces"])

add("C19", "Global degrees of freedom are numbered consistently and completely",
    "Every bubble, vertex function and edge function of a mesh has exactly one global index, the indices are exactly 0..N-1 with N the sum of the three counts, two cells see the same index for the same shared function and different indices otherwise, and the order of a cell's keys matches the order of its local basis. "
    "A function is flagged as boundary exactly when its vertex or edge lies on the mesh boundary; numbering does not depend on the order or number of times cells are visited.",
    ["configurations", "histories"], "all meshes (numbering gaps, loops, holes), degrees and visit histories",
    "One mesh and degree is tested, and only the total.",
    [S + "globfunsp.py", S + "globkey.py"], [("cell_dofs, edge_fun_cumsum, num_funs", "numbering tables", S + "globfunsp.py")],
    [("build_local_function_space, get_global_idx, GlobalKey", S + "globfunsp.py")], ["keys and indices of every cell"])

add("C20", "Assembly adds every local contribution once, to the right entries",
    "The assembled system is the exact sum over cells of the bilinear form and right-hand side evaluated on all pairs of local basis functions, each once, scattered by global index; stiffness and mass matrices likewise (these two symmetric), and repeating the assembly gives the same system. "
    "Rows of boundary functions are replaced by decoupled rows (only a positive diagonal entry) with zero data, other rows are untouched, and sizes equal the number of global functions.",
    ["configurations", "histories"], "all meshes, degrees, coefficient choices and repeated assemblies",
    "The solver tests fail or are skipped at baseline, so nothing checks a single entry.",
    [S + "solver.py", S + "bilinear_form.py"], [("row/col/val triples, glob_mat, glob_rhs, stiff_mat, mass_mat", "system", S + "solver.py")],
    [("assemble, build_values_and_indices, build_matrix_and_rhs", S + "solver.py")], ["assembled matrices and right-hand side"])

add("C21", "The discrete solution solves the Galerkin system and evaluates consistently",
    "Solving returns the coefficient vector satisfying the assembled system, zero at boundary functions; polynomial combinations in the space have exactly their exact energy and mass under the assembled matrices, constants having none. "
    "The coefficients and the linear combination on a cell are those of its global functions, so evaluating any coefficient vector on a cell gives the same function as summing its basis, also on shared edges. A solution that is asked for always belongs to the system as last assembled; evaluation where the local functions were not kept, or on a cell that does not exist, is refused.",
    ["inputs", "histories"], "all meshes, degrees, right-hand sides, coefficient vectors and call orders",
    "No passing test solves a problem.",
    [S + "solver.py"], [("soln", "solution vector", S + "solver.py")], [("solve, get_solution, compute_linear_combo_on_mesh_cell, get_coef_on_mesh_cell", S + "solver.py")], ["solution, combos"])

add("C22", "Bilinear forms evaluate diffusion, reaction and load exactly",
    "A bilinear form with diffusion D, reaction R and load f evaluates to D times the H1 semi-inner product plus R times the L2 inner product, and the right-hand side to the L2 product with f; the variants taking or returning the separate parts agree with it for all constants (including zero) and functions, and its description reports the constants given.",
    ["inputs"], "all constants and function pairs", "No test calls it.",
    [S + "bilinear_form.py"], [("diffusion_constant, reaction_constant, rhs_poly", "coefficients", S + "bilinear_form.py")], [("eval*", S + "bilinear_form.py")], ["returned values"])

add("C23", "Plots show the data they are given and never change it",
    "Drawing a mesh, traces, a local function or a global solution makes one figure that shows exactly the current data as the options ask: every edge once (arrows along its direction when requested); every trace once against the parameter of the boundary, with its own format and label, ticks at the parameters their labels state; the values or gradient components of a function at the cell's own interior and boundary points, on the triangles that make up the cell (those away from the boundary without interpolation); every cell of the mesh with one color range and one colormap. "
    "Titles, axes, grids, colorbars and scales appear exactly when requested; the figure is shown or written to the given path (missing directories are created) exactly when requested, and closed unless kept open. Calls with data that do not fit (formats, labels, traces, coefficients of another number or type) are refused and leave the plot as it was. No draw changes meshes, edges, traces, functions, coefficients or the defaults of later plots.",
    ["configurations", "histories"], "all plot options, meshes and traces, before or after other operations",
    "No test covers plotting.",
    [P + "plot/mesh_plot.py", P + "plot/trace_plot.py", P + "plot/locfun_plot.py", P + "plot/globfun_plot.py", P + "plot/plot_util.py"],
    [("traces, edges", "plotted data", P + "plot")], [("set_traces, draw", P + "plot")], ["artists in the figure", "data before and after"])

add("C24", "Interfaces kept for older programs give the results of those that replaced them",
    "Every deprecated interface that is still exported works, says that it is deprecated, and agrees with its replacement: a LocalFunction has the interior values, gradients, normal derivatives, logarithmic coefficients and inner products of the local Poisson function with the same Laplacian and trace, at every interior point of its cell, for cells with any holes and edges sampled by different rules; a LocalFunctionSpace is the local Poisson space. "
    "Evaluating a piecewise polynomial gives, edge after edge of the list or cell it is asked for, the values of that edge's polynomial at all current samples of the edge, whatever was set before, and refuses a list of another number of edges; lists of polynomials are evaluated row by row. Data that was not asked for is not pretended to be there: the L2 product without the data for it is refused.",
    ["configurations", "histories"], "all cells, functions, lists of edges, and orders of setting, sampling and evaluating",
    "No test calls a deprecated interface.",
    [L + "locfun.py", L + "poly/piecewise_poly.py", L + "poly/poly_eval.py", L + "local_space.py"],
    [("polys, num_polys", "assignment of polynomials to edges", L + "poly/piecewise_poly.py"), ("biharmonic_trace, int_vals, int_grad1, int_grad2", "data computed so far", L + "locfun.py")],
    [("eval_on_edges, eval_on_mesh_boundary", L + "poly/piecewise_poly.py"), ("compute_interior_values, get_l2_inner_prod, get_h1_semi_inner_prod", L + "locfun.py")],
    ["returned arrays and products", "warnings"])

add("C25", "Vertices and monomials behave as mathematical values",
    "Adding, subtracting, multiplying and dividing vertices (by vertices or numbers, from either side where it makes sense) gives new vertices with the componentwise results as floats and no index; norms and coordinate arrays are those of the coordinates; two vertices are equal exactly when they are the same point up to rounding (1e-12), whatever their index. "
    "Sums (of equal exponents), products, scalar multiples, negatives, copies and derivatives of monomials are the exact ones, their multi-index number and order follow the graded numbering, and they evaluate at numbers and arrays alike. Operators never change their operands, setters change exactly the object they are called on, and division by zero, sums of different exponents, unknown variables and operands of another type are refused, leaving everything as it was.",
    ["inputs", "histories"], "all coordinates, coefficients, exponents and orders of operators and setters, with shared objects",
    "No test touches the arithmetic of vertices, and few that of monomials.",
    [M + "vert.py", L + "poly/monomial.py", L + "poly/multi_index.py"],
    [("x, y, idx", "point", M + "vert.py"), ("coef, alpha", "term", L + "poly/monomial.py")],
    [("operators and setters", M + "vert.py"), ("operators, partial_deriv, eval", L + "poly/monomial.py")], ["results, operands, exceptions"])

add("C26", "Options that only report or ask for more data change nothing else",
    "Turning progress messages and diagnostics on or off at any stage (mesh, function space, cell solver, local space, assembly), or asking for interior values or gradients, never changes anything that is computed otherwise: numbering, edge functions, matrices and operators, traces, conjugates, logarithmic coefficients, inner products, assembled systems and solutions are the same. What is asked for is there and is the same whatever else is asked for; "
    "a silent run writes nothing, and the counts that messages and descriptions state are the true ones.",
    ["configurations", "histories"], "all combinations of options at the stages of a program, repeated assemblies included",
    "The tests run with one choice of options.",
    [L + "nystrom.py", L + "local_space.py", L + "local_poisson.py", S + "globfunsp.py", S + "solver.py", M + "planar_mesh.py"],
    [("verbose, debug, compute_interior_values, compute_interior_gradient", "options", S + "solver.py")],
    [("__init__, assemble, build_local_function_space", S + "solver.py")], ["everything computed", "standard output"])

add("C27", "Requests are granted with their stated effect or refused without any",
    "A request to set data (numbers, parameter intervals, curve types and tolerances of edges, cells, contours, vertices, keys; sampling an edge; building a mesh, space, cell solver, local function, form, system or plot) is refused with an error exactly when its arguments are ill-typed, out of range or incomplete; otherwise it has exactly its stated effect on that object and no other. "
    "A refused request leaves every object as it was, and everything computed afterwards is what it would have been without the request, at whatever stage of the computation it was made.",
    ["histories", "inputs", "fault_sequences"], "all sequences of proper and improper requests, at every stage between mesh and solution",
    "The tests make few improper requests and never look at the objects afterwards.",
    [M + "edge.py", M + "cell.py", M + "closed_contour.py", M + "vert.py", S + "globkey.py", S + "globfunsp.py", S + "solver.py", L + "local_poisson.py"],
    [("setters and constructors", "requests", M + "edge.py")],
    [("set_idx, set_t_bounds, set_curve_type, set_interior_point_tolerance, add_edge, set_*_idx, set_deg", M + "edge.py")], ["attributes", "exceptions", "everything computed"])

add("C28", "Named curves are the curves their parameters describe",
    "For every named curve type, every admissible choice of its parameters and every part of its parameter interval, the sampled edge is the stated curve: it passes through the points the curve is known to pass through at the stated parameter values, in the stated directions, with the stated speed and curvature, placed by the similarity that takes its ends to the vertices given. Optional parameters left out have their stated defaults; "
    "parameters that are required and missing, or out of range, unknown curve types and unknown rules are refused, leaving the edge unsampled and able to be given another curve. Options given are not altered.",
    ["inputs"], "all named curves, option sets including incomplete and out-of-range ones, parts of the interval, rules and placements",
    "The tests sample a few curves with one choice of parameters and no part of the interval.",
    [M + "edge.py", M + "edgelib/"],
    [("curve_type, curve_opts, t_bounds, quad_type", "curve", M + "edge.py")],
    [("parameterize, set_curve_type", M + "edge.py")], ["x, unit_tangent, unit_normal, dx_norm, curvature", "exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
