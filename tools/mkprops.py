#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))))
I = ["inputs"]; IC = ["inputs", "configurations"]; IH = ["inputs", "histories"]
prop("C01", "Curve evaluation equals the B-spline / NURBS definition",
     "Evaluating a polynomial or rational B-spline curve at any parameter of its domain returns the point given by the Cox-de Boor definition for its degree, knots, poles and weights, including at knots of any multiplicity and at both ends. Clamped curves start and end on their first and last pole, basis functions are non-negative and sum to one, and evaluating a list of parameters gives the pointwise results in order.",
     IC, "every parameter in the closed domain, every pole, weight and knot position, every degree and multiplicity layout within the bounds",
     "tests evaluate a few curves at sampled parameters against stored numbers or OCCT; span selection and recursion errors hide at particular knots, multiplicities and degrees",
     ["gbs/basisfunctions.ixx", "gbs/bscurve.h", "gbs/execution.h"],
     [("span search", "gbs/basisfunctions.ixx find_span"), ("basis recurrences", "gbs/basisfunctions.ixx basis_funcs / basis_function"), ("curve evaluators", "gbs/basisfunctions.ixx eval_value_decasteljau, eval_rational_value_simple")], ["curve value", "bulk values"])
prop("C02", "Curve derivatives of every order are the true derivatives",
     "The derivative of any order returned by a polynomial or rational curve is the mathematical derivative of the curve itself, right-sided at interior knots, zero above the degree for polynomial curves, and the all-orders call agrees order by order with the single-order call. Derivatives with respect to arc length follow from them by the chain rule.",
     IC, "every parameter, pole, weight, derivative order 0..degree+2 within the bounds",
     "tests compare first and second derivatives at a few points; errors in high orders, at repeated knots or in the rational quotient rule escape",
     ["gbs/basisfunctions.ixx", "gbs/bscurve.h"],
     [("one-pass basis derivatives", "gbs/basisfunctions.ixx ders_basis_funs"), ("rational quotient rule", "gbs/basisfunctions.ixx eval_rational_ders"), ("curve derivative entry points", "gbs/bscurve.h value / derivatives / d_dm / d_dm2")])
prop("C03", "Surface evaluation and partials equal the tensor-product definition",
     "Evaluating a polynomial or rational B-spline surface, or any mixed partial derivative of it, at any parameter pair of its domain returns the value given by the tensor-product definition for its degrees, knots, poles and weights. The all-partials call and the bulk call agree with the single evaluation.",
     IC, "every (u,v) in the closed domain, every pole and weight, degree pair, knot layout and derivative order within the bounds",
     "tests sample a few surfaces and low orders; transposed indices, unequal degrees and mixed rational partials escape",
     ["gbs/basisfunctions.ixx", "gbs/bssurf.h"],
     [("surface evaluators", "gbs/basisfunctions.ixx surface eval_value_decasteljau / eval_ders"), ("rational partials", "gbs/bssurf.h BSSurfaceRational::value")])
prop("C04", "Invalid parameters and inconsistent definitions are rejected",
     "Evaluating a curve or surface outside its parameter domain raises the library's out-of-bounds error, and never succeeds or reads outside the control net; evaluating inside it, ends included, never raises. Building a curve or surface from unordered knots, or from counts of poles, knots, weights and degree that do not fit together, raises an error, as does replacing poles, knots or accessing a pole with a wrong size or index.",
     IC, "every parameter in a range around the domain, every count combination within the bounds",
     "tests try one or two invalid inputs; acceptance boundaries and count relations need every value",
     ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/exceptions.h"],
     [("domain guards", "gbs/bscurve.h value, gbs/bssurf.h value"), ("definition checks", "gbs/bscurve.h check_curve, gbs/bssurf.h constructors")])
prop("C05", "Knot insertion, knot removal and degree elevation keep the curve",
     "Inserting knots at any place with any admissible multiplicity, elevating the degree by any amount, or removing a knot within tolerance leaves the curve's point at every parameter unchanged (up to the given tolerance for removal), for polynomial and rational curves, and the resulting poles, knots and degree stay consistent. Inserted knots get the requested multiplicity, elevated curves keep their continuity, and an inserted knot can be removed again exactly.",
     IC, "every pole and weight, every insertion parameter of the domain, multiplicity and elevation step within the bounds; then every evaluation parameter",
     "tests insert one or two knots in a few fixed curves and compare at samples",
     ["gbs/knotsfunctions.ixx", "gbs/bscurve.h"],
     [("Boehm insertion", "gbs/knotsfunctions.ixx insert_knot / insert_knots"), ("removal", "gbs/knotsfunctions.ixx remove_knot"), ("elevation", "gbs/knotsfunctions.ixx increase_degree")])
prop("C06", "Trim, reverse, rebound, split and join keep the curve's geometry",
     "Trimming a curve to a sub-range keeps every point of that range and ends exactly there, reversing maps a parameter to its mirror in the domain, changing the bounds re-parametrises affinely, splitting yields pieces that together are the original, and joining or unifying curves keeps each operand's geometry and order. All hold for polynomial and rational curves and compose with each other.",
     ["inputs", "histories"], "every pole and weight, every trim / split parameter in the domain, every evaluation parameter, short sequences of operations within the bounds",
     "tests use one curve, one trim range and sampled parameters",
     ["gbs/knotsfunctions.ixx", "gbs/bscurve.h", "gbs/bsctools.h"],
     [("trim", "gbs/knotsfunctions.ixx trim"), ("reverse / changeBounds", "gbs/bscurve.h"), ("unify, join, split", "gbs/bsctools.h")])
prop("C07", "Surface refinement and re-parametrisation keep the surface",
     "Inserting knots, elevating degrees, trimming, reversing, swapping the parameters and changing the bounds of a surface, in either direction, keep every surface point under the corresponding parameter map, for polynomial and rational surfaces, and iso-parametric curves extracted from a surface lie on it with the right parametrisation.",
     ["inputs", "histories"], "every pole and weight, parameter of insertion or trim, every (u,v) within the bounds",
     "tests apply each operation to one surface and compare at samples",
     ["gbs/bssurf.h", "gbs/knotsfunctions.ixx", "gbs/bsstools.h"],
     [("surface edits", "gbs/bssurf.h insertKnotU/V, increaseDegreeU/V, trimU/V, reverseU/V, invertUV, changeUBounds/VBounds"), ("iso curves", "gbs/bssurf.h isoU / isoV")])
prop("C08", "Interpolated curves satisfy every imposed point and derivative",
     "A curve interpolating given points, points with derivatives, or arbitrary located value and derivative constraints takes exactly the imposed values at the imposed parameters, in order, with the requested degree and parametrisation, whatever solver path the problem size selects. Batch building gives the same curves as building one by one, and ill-posed requests are refused instead of giving a curve that misses a constraint.",
     IC, "every value of the imposed points and derivatives, every admissible count, degree, derivative order and problem size on both sides of the size thresholds within the bounds",
     "tests interpolate fixed point sets of a few sizes; row layout errors for particular degrees, derivative orders or sizes escape",
     ["gbs/bscinterp.h", "gbs/knotsfunctions.ixx", "gbs/execution.h"],
     [("collocation assembly and band / dense / sparse solve", "gbs/bscinterp.h build_poles"), ("knot choice", "gbs/knotsfunctions.ixx build_simple_mult_flat_knots / build_mult_flat_knots"), ("batch", "gbs/execution.h build_batch")])
prop("C09", "Interpolated surfaces satisfy every imposed constraint",
     "A surface interpolating a grid of points, or points with derivatives, or located constraints takes the imposed values at the imposed parameter pairs for any grid size and degree pair; rows and columns of unequal counts keep their roles, and requests that do not determine a surface are refused.",
     IC, "every value of the imposed points, every grid size and degree pair within the bounds",
     "tests use a few fixed grids", ["gbs/bssinterp.h", "gbs/bscinterp.h"],
     [("separable and constraint interpolation", "gbs/bssinterp.h interpolate")])
prop("C10", "Least-squares approximations are optimal and pass through fixed ends",
     "Fitting a curve or surface with a given basis to given points minimises the sum of squared distances over all poles (those left free when end points are fixed), reproduces data that already lies on such a curve or surface, and fixed-end fits pass exactly through the end points. Requests with more poles than points are refused.",
     IC, "every data point, number of points, poles, degree within the bounds, sizes on both sides of the dense/sparse threshold",
     "tests check a deviation bound on a few data sets, which a non-optimal fit can meet",
     ["gbs/bscapprox.h", "gbs/bssapprox.h"],
     [("normal equations", "gbs/bscapprox.h approx_bound_fixed / approx_bound_free"), ("surface fit", "gbs/bssapprox.h approx")])
prop("C11", "Derived curves: exact derivative and integral relations",
     "The derivative curve and anti-derivative operators return a curve whose values are the derivative of the original at every parameter; computed curve lengths, curvature-type quantities and analytic quadratures agree with the defining integral for curves where it is exact, and length is additive and non-negative.",
     IC, "every pole, parameter and sub-range within the bounds",
     "tests use fixed curves and compare sampled numbers", ["gbs/bscanalysis.h", "gbs/bsctools.h", "gbs/maths.ixx"],
     [("quadrature and length", "gbs/bscanalysis.h length"), ("derived curves", "gbs/bsctools.h")])
prop("C12", "Transforms commute with evaluation",
     "Translating, rotating, scaling or applying an affine matrix to points, curves and surfaces gives the object whose every point is the transformed point of the original, for polynomial and rational objects; rotations preserve lengths, act about the given axis and origin by the given angle, and matrix products and inverses compose accordingly.",
     IC, "every pole, weight, translation, angle, axis, scale factor and parameter within the bounds",
     "tests transform a few objects by fixed amounts", ["gbs/transform.h", "gbs/transformpoints.h", "gbs/vecop.ixx"],
     [("pole transforms", "gbs/transform.h"), ("point transforms", "gbs/transformpoints.h")])
prop("C13", "Analytic primitives and revolutions are exact",
     "Segments, lines, circles, ellipses and surfaces of revolution produced by the builders lie exactly on the intended locus at every parameter, with the intended centre, radii, plane, start point and orientation, and analytic circle and line objects and their derivatives agree with their definitions.",
     IC, "every radius, centre, end point and parameter within the bounds",
     "tests compare a handful of points", ["gbs/bscbuild.h", "gbs/bssbuild.h", "gbs/curvecircle.h", "gbs/curveline.h", "gbs/surfaceofrevolution.h"],
     [("builders", "gbs/bscbuild.h build_segment / build_circle / build_ellipse"), ("revolution", "gbs/surfaceofrevolution.h value")])
prop("C14", "Wrapped curves follow the chain rule of their base curve",
     "Reversed, trimmed, extended, composite, re-parametrised, offset and on-surface curves return at every parameter the value implied by their base objects, and their first and second derivatives are the derivatives of that value; their bounds are those of the parametrisation they expose. A curve extended in clamped mode keeps the boundary's value and derivatives beyond its base curve.",
     IC, "every parameter, pole of base curve and surface, reparametrisation and offset law, derivative order 0..2 within the bounds",
     "tests check values and at most first derivatives on one example each",
     ["gbs/curveReversed.h", "gbs/curvetrimmed.h", "gbs/curveextended.h", "gbs/curvecomposite.h", "gbs/curvereparametrized.h", "gbs/curveoffset.h", "gbs/curveonsurface.h"],
     [("wrapper value()", "gbs/curve*.h")])
prop("C15", "Lofted and Gordon surfaces contain their curves",
     "A loft of curves contains every section as an iso-parametric curve at its imposed or computed parameter, a loft of two curves of degree one is the ruled surface between them, and a Gordon surface contains every curve of a network whose curves meet at the given crossings, for sections of any mix of degrees and knots, polynomial or rational.",
     IC, "every pole of the sections, number of sections, degrees and knot layouts within the bounds",
     "tests loft a few fixed sections and check samples", ["gbs/bssbuild.h", "gbs/loft/loftBase.h", "gbs/loft/loftCurves.h", "gbs/loft/loftGeneric.h", "gbs/bsctools.h"],
     [("section unification", "gbs/bsctools.h unify_curves_*"), ("loft pole solve", "gbs/loft, gbs/bssbuild.h"), ("Gordon sum", "gbs/bssbuild.h gordon")])
prop("C16", "Curve and surface shaping hits its targets and stays local",
     "Moving a point, or a set of located value and derivative constraints, of a curve or surface to given targets yields a curve or surface that meets the targets exactly, with the same degree, knots and bounds, changing only the poles that act at the constrained parameters and, among the solutions, moving the poles least.",
     IC, "every target, constrained parameter and original pole within the bounds",
     "tests move one point in one curve", ["gbs/bscshaping.h", "gbs/bssshaping.h"],
     [("constraint systems", "gbs/bscshaping.h, gbs/bssshaping.h")])
prop("C17", "Transfinite meshes reproduce their boundaries and constraints",
     "A transfinite interpolation mesh of curves or a surface patch takes at every boundary, and at every interior constraint line, the points of the given curves, the blending functions are one on their own line and zero on the others, mesh edges lie on their curve between its ends with the requested spacings and growth at both ends, and mesh smoothing leaves boundary points fixed.",
     IC, "every pole of the boundary curves, mesh size and number of constraint lines within the bounds",
     "tests build a few meshes and only check sizes or samples", ["gbs-mesh/tfi.h", "gbs-mesh/smoothing.h", "gbs-mesh/mshedge.h"],
     [("blending and boolean sum", "gbs-mesh/tfi.h"), ("smoothing", "gbs-mesh/smoothing.h")])
prop("C18", "Half-edge meshes stay structurally valid under every edit",
     "After any sequence of building faces, adding faces or vertices, splitting edges or faces and flipping edges, half-edge links are mutually consistent: face loops close and belong to their face, opposite links are symmetric and join the same two vertices, vertex and face entry links are valid, and edge flips and splits keep the covered area and orientation.",
     ["inputs", "histories"], "every vertex position keeping faces non-degenerate, sequences of edits within the bounds",
     "tests edit a couple of fixed meshes", ["inc/topology/halfEdgeMeshData.h", "inc/topology/halfEdgeMeshEditors.h", "inc/topology/halfEdgeMeshGetters.h"],
     [("link maintenance", "inc/topology/halfEdgeMeshEditors.h")])
prop("C19", "Triangulations are valid, cover the domain and are Delaunay",
     "Delaunay triangulation of a point set, with or without boundary, yields non-overlapping counter-clockwise triangles over exactly the given vertices that cover the convex hull or the domain inside the boundary, with no vertex strictly inside a triangle's circumcircle, and edge recovery makes the requested segment an edge while keeping coverage.",
     IC, "every position of the points in general position within the bounds, every insertion order",
     "tests triangulate fixed point sets and check counts", ["inc/topology/tessellations.h", "inc/topology/halfEdgeMeshEditors.h", "inc/topology/edgeRecovery.h"],
     [("Boyer-Watson insertion", "inc/topology/tessellations.h"), ("edge flips", "inc/topology/halfEdgeMeshQuality.h"), ("edge recovery", "inc/topology/edgeRecovery.h")])
prop("C20", "Geometric predicates and measures agree with exact geometry",
     "Orientation, in-circle, in-triangle, on-segment, segment intersection and polygon-containment predicates, areas, centres, barycentric coordinates and mesh quality measures give the answer of exact geometry for every non-degenerate input, are invariant under rotation of their arguments and change sign under reversal.",
     I, "every coordinate of the arguments within the bounds",
     "tests use a few hand-picked triangles and segments", ["inc/topology/baseGeom.h", "inc/topology/baseIntersection.h", "inc/topology/robustPredicates.h", "inc/topology/halfEdgeMeshGeomTests.h"],
     [("determinant predicates", "inc/topology/baseGeom.h, robustPredicates.h"), ("intersections", "inc/topology/baseIntersection.h")])
prop("C21", "Saved curves and surfaces read back identical",
     "Writing a curve or surface to the library's JSON form and reading it back gives an object of the same kind, dimension and degree with equal poles, weights, knots and multiplicities, hence equal value everywhere; JSON readers accept every form of definition they document and refuse inconsistent ones.",
     IC, "every pole, weight and knot value, degree and dimension within the bounds",
     "tests round-trip one or two objects", ["gbs-io/tojson.h", "gbs-io/fromjson.h"],
     [("writer", "gbs-io/tojson.h make_json"), ("reader", "gbs-io/fromjson.h")])
prop("C22", "Knot vectors and parametrisations are well formed and convert losslessly",
     "Flattening and unflattening knots are inverse to each other, multiplicities and sums are exact, generated knot vectors are non-decreasing, clamped, of the right length for the degree and number of points, and point parametrisations are strictly increasing over the requested range for distinct points; refinement keeps existing values in order and inserting a unique value keeps the list sorted.",
     IC, "every knot value, multiplicity, number of points and point position within the bounds",
     "tests check a few hand-made vectors", ["gbs/knotsfunctions.ixx"],
     [("flat_knots / unflat_knots / knots_and_mults", "gbs/knotsfunctions.ixx"), ("curve_parametrization", "gbs/knotsfunctions.ixx")])
prop("C23", "Discretisation is ordered, on the curve and within its bounds",
     "Discretising a curve or surface returns the requested number of points, in increasing parameter order without repetition, including both ends, each equal to the object's value (or requested derivative) at its reported parameter; surfaces are sampled on the regular grid, u fastest. Uniform discretisation of a curve spaces points equally along its length. Deviation driven discretisation keeps the requested initial points and the interior knots, never exceeds the requested maximum of points, and below that maximum leaves no interval whose middle deviates from the chord by more than the requested sine, closed arcs included. The arc-length law reports the length at each of its parameters. Fewer than two points are refused.",
     IC, "every position, pole, deviation limit, number of points and range within the bounds", "tests discretise fixed curves",
     ["gbs/bscanalysis.h", "gbs/bssanalysis.h"], [("discretize / deviation_based_params / uniform_distrib_params / abs_curv_adaptive_discretzation", "gbs/bscanalysis.h"), ("discretize / deviation_based_u_params", "gbs/bssanalysis.h")])
prop("C24", "Wires and edges keep geometric connectivity",
     "An edge's bounds are the parameters of its vertices on its curve, and a vertex further from the curve than the tolerance is refused. Adding an edge to a wire succeeds exactly when the edge meets one of the wire's ends within tolerance and the wire is not closed; afterwards consecutive edges share their vertex, the edges run end to begin in order, and a wire is reported closed exactly when its first and last vertex are shared. Closing an open wire adds one edge joining its ends, and a closed wire refuses further edges.",
     ["inputs", "histories"], "every vertex position, edge orientation and order of additions within the bounds", "tests build fixed wires",
     ["inc/topology/edge.h", "inc/topology/wire.h", "inc/topology/vertex.h"], [("edge insertion and closing", "inc/topology/wire.h")])
prop("C25", "Projections and extrema report consistent results",
     "Projecting a point on a curve or surface, and searching the extrema between curves and surfaces, starts from the best of the requested bracketing samples, hands the optimiser a feasible start and the true gradient of the distance objective, honours the chosen solver and sampling, and returns parameters inside both objects' bounds together with the distance of the points at exactly these parameters; two lines are intersected exactly, coordinate solving returns a parameter in bounds whose coordinate is the requested one, extreme-coordinate search returns the extreme coordinate, and the closest of several curves is the closest. (extrema_curve_point reports the squared distance: recorded finding.)",
     I, "every point, relative position, guess, number of samples and optimiser answer within the bounds", "tests project points lying on fixed objects, where distance and squared distance are both 0", ["gbs/extrema.h", "gbs/solvers.h", "gbs/bscanalysis.h"], [("extrema_* / solve_coordinate / max_coordinate", "gbs/extrema.h"), ("dev_from_points / closest_curve", "gbs/bscanalysis.h")])
prop("C26", "Parallel evaluation is race free and equal to serial evaluation",
     "Bulk evaluations, transforms, batch builds and searches that run under a parallel execution policy give the same results as serial execution whatever the order and the grain in which their elements are executed, and on both sides of the parallel size gate; no two elements of one parallel region touch the same memory when one of them writes it; and an element's failure reaches the caller as an exception, a batch reporting the first failure in input order, instead of ending the program.",
     ["schedules"], "every order of the elements of every parallel region within the bounds, and every pair of elements for conflicting accesses", "tests run one schedule and cannot see a race that happens not to strike", ["gbs/execution.h"], [("distinct output slots", "gbs/execution.h transform_threshold / build_batch")])
prop("C27", "Orientation predicate is exact under floating-point rounding",
     "The sign returned by the robust orientation predicate is the exact sign of the determinant of the given floating-point coordinates, including nearly collinear points.",
     I, "every triple of finite double coordinate pairs", "tests try a few near-degenerate triples", ["inc/topology/robustPredicates.h"], [("adaptive expansion arithmetic", "inc/topology/robustPredicates.h")])
prop("C28", "Connections and extensions keep contact with what they continue",
     "A curve connecting the end of one curve to the start of another has, at both ends, their points and the promised number of their derivatives (two for c2, three for c3, n for cn, over the requested parameter range; run-backwards sides count as the reversed curve). An extension of a curve to a point starts with the value and derivatives of the curve at the chosen parameter, up to the requested continuity, ends at the point, and advances the parameter by the distance over the speed; the extended curve reproduces the original over its unchanged domain, also when extended at its start, reaches the point or the given length along the end tangent, and keeps the requested derivatives continuous across the joint, so that a straight line continues as the same line. Extending a surface to a curve or by a length likewise keeps the surface, its derivatives across the border and, rational or not, ends on the target; a target curve of another spline space is refused.",
     IC, "every pole, end position, target and continuity order within the bounds", "tests only build connections and extensions for display", ["gbs/bsctools.h", "gbs/bsstools.h"],
     [("c2_connect / c3_connect / cn_connect / extention_to_point / extended", "gbs/bsctools.h"), ("extention_to_curve / extended", "gbs/bsstools.h")])
prop("C29", "Vector algebra, ranges and scalar helpers follow their definitions",
     "The point and vector operations every other result is computed with (sums, differences, scaling, division, dot and cross products, norms, distances, signed angles, normalisation, polyline length, list differences, blending) equal their definitions for every vector of any dimension; make_range gives exactly the requested ends, evenly spaced and in order, and its grid forms run the last direction fastest, fewer than two points being refused; binomials and factorials are exact over the orders the derivatives use; newton_solve stops only when its step is small, whichever side it starts from, or when its steps are used up.",
     IC, "every vector, range and start within the bounds", "tests use single numbers", ["gbs/vecop.ixx", "gbs/math.ixx"],
     [("vector operators, norms and lists", "gbs/vecop.ixx"), ("make_range / binomial_law / newton_solve", "gbs/math.ixx")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
