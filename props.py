PROPS = {
    "C01": dict(tus=["c01_eval"], bounds="degrees 1-5 (single cases 6..26); knot layouts with up to 3 interior knots of any multiplicity up to the degree; symbolic: the parameter over the whole closed domain, all pole coordinates in [-10,10], weights in [0.5,2] (degree<=3), up to 2 interior knots and both end knots"),
    "C02": dict(tus=["c02_ders"], bounds="orders 0..degree+2; degrees 1-5 (6, 9 in single cases); knot layouts with up to 3 interior knots of any multiplicity up to the degree; symbolic: parameter, all poles in [-10,10], weights in [0.5,2], two interior knots"),
    "C03": dict(tus=["c03_surf"], bounds="degree pairs 1-3 x 1-3, single cases up to 5; up to 3 interior knots per direction of any multiplicity; mixed partial orders up to degree+1 (4); symbolic: both parameters over the closed domain, every pole coordinate, weights (small nets), one knot per direction"),
    "C04": dict(tus=["c04_reject"], bounds="curves of degree 1-4 and surfaces of degree (1-3)x(1-2), polynomial and rational, also after trim / bound changes / knot replacement; symbolic: the parameter over the domain widened by 3 on each side, domain ends, three interior knots in any order; all pole counts 0-16, knot counts 0-12, weight counts 0-8 and indices 0-8 by exhaustive choice"),
    "C05": dict(tus=["c05_refine"], bounds="degrees 1-4 elevated by 0-3, up to 3 interior knots of any multiplicity up to the degree, insertion multiplicity 1..degree+1, removal counts 0..degree+2; symbolic: inserted knot value(s) over the domain, evaluation parameter, every pole, weights (degree 2)"),
    "C06": dict(tus=["c06_reshape"], bounds="degrees 1-3, up to 3 interior knots of any multiplicity up to the degree, polynomial and rational (concrete weights); joins of degree pairs up to 3/3 and kinds; unification of 3 curves; symbolic: trim ends, new bounds, cut parameter, one knot, evaluation parameter, every pole"),
    "C07": dict(tus=["c07_surfrefine"], bounds="degree pairs (1-3)x(1-3), up to 1 interior knot per direction of any multiplicity up to the degree, polynomial and rational (concrete weights); symbolic: inserted knot, trim ends, split and iso parameter, new bounds, both evaluation parameters, every pole"),
    "C08": dict(tus=["c08_interp"], bounds="degrees 1-5 and 9 (12 thorough), 2-40 points (120 thorough, both sides of the band/sparse thresholds), Hermite orders 1-4 for 2-7 points, located constraints in sorted and shuffled order; symbolic: every imposed point and derivative (concrete points in chord-length modes, which have no linear encoding), one parameter in small cases; the set of parameters otherwise is a fixed non-uniform sequence, on several ranges; degrees above 24, where the basis takes an exponential recursive branch, are outside"),
    "C09": dict(tus=["c09_surfinterp"], bounds="grids from 2x2 to 8x6, degree pairs up to 4 x 3, located constraints with derivative orders up to 2, knot multiplicities 1-2; symbolic: every imposed value (concrete points in the chord-length modes); refusals over all grid counts 1-9 x 1-4 and degrees 1-3"),
    "C10": dict(tus=["c10_approx"], bounds="degrees 1-5, 2-9 poles, 3-120 points (both sides of the dense/sparse threshold), surfaces up to 5x4 poles on 8x6 points, free and fixed ends, parameter ranges starting at, below and above 0, refinement up to 4 knots; symbolic: every data point (concrete data in refinement and chord-length modes, there the tolerances are symbolic); refusals over all small counts"),
    "C11": dict(tus=["c11_derived"], bounds="derivative and integral curves: degrees 1-5, up to 3 interior knots of any multiplicity up to the degree, symbolic poles, parameter, knots and domain; length: segments and monotone scalar curves of degree 1-3 with symbolic end points (where the quadrature is exact), its first and second derivative for symbolic poles and parameter; directions and arc-length derivatives: degrees 2-3 in 2-D and 3-D, two symbolic pole coordinates per pole for surfaces"),
    "C12": dict(tus=["c12_transform"], bounds="curves of degree 1-3 with up to 3 interior knots, surfaces of degree (1-3)x(1-2), polynomial and rational; symbolic: every pole, translation, scale factor and centre, rotation angle in [-7,7], parameters, frame origins and axis lengths, weights in one case; rotation axes: six concrete directions and one fully symbolic direction at right angles; 49 frame pairs"),
    "C13": dict(tus=["c13_primitives"], bounds="dimensions 1-3; symbolic: end points, radii, centres, parameters, angle in [-13,13], angle span, profile poles (degree 1-3), axis origin and axis vector lengths; axis directions: seven concrete frames (and their negatives), one symbolic direction for circles; derivative orders 0-5 for circles, (0-2)x(0-4) for revolutions"),
    "C14": dict(tus=["c14_wrappers"], bounds="base curves of degree 1-3 with up to 3 interior knots of any multiplicity up to the degree, polynomial and rational (concrete weights), 1-4 composite parts, reparametrisation and offset functions of degree 1-2; derivative orders 0-3; symbolic: base poles and parameter, trim ends, function values (offset: poles at one parameter, or parameter and offset values for concrete poles; on surface: either the surface poles or the curve poles); offset approximation of plane patches of degree (1-3)x(1-2): symbolic offset function and position"),
    "C15": dict(tus=["c15_loft"], bounds="2-6 sections of degree 1-3 with up to 2 interior knots, mixed degrees, knots and domains, polynomial and rational (concrete weights), v degrees 1-3; spine lofts with symbolic spine; Gordon networks of 2-4 x 2-4 curves of degree 1-3 with symbolic crossings and free poles; symbolic: every pole (concrete sections where the parameters are computed by chord length) and the section parameter; the crossing parameters found by NLopt are replaced by their contract"),
    "C16": dict(tus=["c16_shaping"], bounds="curves of degree 1-4 with up to 5 interior knots of any multiplicity up to the degree, 1-4 constraints of order 0-2; surfaces of degree (1-3)x(1-3), 1-3 constraints with mixed orders up to (1,1); free and fixed ends; symbolic: every pole (or the parameter), every target; constraint parameters otherwise from a fixed set including knots and both ends"),
    "C17": dict(tus=["c17_tfi"], bounds="2-5 lines per direction, 0-2 cross derivatives, meshes up to 6x6; symbolic: every boundary, constraint-line and crossing datum of the core mesh (up to 56 coordinates), blending parameter (and line positions for two lines), rigid shift of the curves or surface where arc lengths are computed; smoothing windows with up to 8 symbolic coordinates, 1-3 iterations; curve lattices of 2-3 x 2-3 lines with symbolic crossings or symbolic gap"),
    "C20": dict(tus=["c20_predicates"], bounds="predicates of 2-4 points with every coordinate in [-10,10] (in-circle: [-3,3]; centre of a 3-D circle and segment/ray tests: one side taken from 3-4 concrete positions); 5 polygons of 3-8 sides, both orientations, symbolic query point in [-2,8]^2; polygon orientation up to 6 symbolic vertices; exact-real semantics, so the floating-point filter of orient2d always decides at its first stage (its rounding behaviour is C27, not claimed)"),
    "C18": dict(tus=["c18_halfedge"], bounds="meshes of 1-8 triangles (open and closed fans, grid, ring) with every vertex moving by +-0.25 on a 4-unit mesh (one vertex +-0.75 for the cut-outs); every history of 1 edit with moving vertices, every history of 2 edits (moving for 1-2 triangles) and 3 edits from one triangle (two triangles in thorough) drawn from split, flip, add face, add vertex; flip also for two triangles with all 8 coordinates free in [-5,5]; every subset of faces for boundary extraction; edge queries on every edge of the meshes"),
    "C19": dict(tus=["c19_delaunay"], total=330, bounds="base meshes of 2-8 triangles, one or two insertions of a symbolic point (any position in [-1,10]^2, along 6 lines, or along any edge); point sets of 4-7 points with one symbolic point (quick: along 4 lines near and 4 lines far in [-6,14]^2; thorough: anywhere); polygons of 3-8 vertices with 0-1 hole, one vertex moving up to 1.5 units (quick: along 2 lines; thorough: anywhere) while the polygon stays simple; edge recovery between every two vertices; refinement 1-2 steps; brute-force mesh of 3-5 points; exact-real semantics"),
    "C21": dict(tus=["c21_json"], bounds="curves and rational curves of degree 1-3, dimension 1-3, 4 knot layouts with symbolic interior knots, all poles in [-10,10] and weights in [0.25,4] symbolic; surfaces up to degree 3x2; surface of revolution (symbolic axis origin, angles, generatrix), curve on surface; legacy flat-knot form; interpolation definitions of 4 symbolic points in every documented form; 14+9+8 kinds of inconsistent definition; JSON values in memory are symbolic, the text conversion of numbers (rapidjson) only runs on 10 concrete objects"),
    "C22": dict(tus=["c22_knots"], bounds="up to 8 parameters (24 thorough), degrees 1-5 (9), multiplicities 1-3 or up to the degree; symbolic: every knot and parameter (at least 1/64 apart; one pair symbolically close to the merge tolerance), domain ends, inserted value and tolerance, points along a line for centripetal and chord-length parametrisations plus one free plane point; all counts 0-6 in refusals"),
    "C23": dict(tus=["c23_discretize"], bounds="grids up to 6x5 (41x33 past the parallel threshold) of surfaces of degree (1-3)x(1-2) with every pole symbolic; points at two symbolic parameters of curves of degree 1-3, orders 0-2; deviation driven lists on 6 plane curves (arc, wave, corner, closed, loop, line), one rational, one trimmed and one space curve with symbolic position and symbolic deviation limit in [1/32,15/16], 2-5 initial and up to 6-20 points, one arc with symbolic height; arc-length laws on 6 curves with symbolic position, straight segment with symbolic length; all counts 0-5 in refusals"),
    "C24": dict(tus=["c24_wires"], bounds="chains and rings of 2-4 straight edges in 2-D (3 in 3-D) added in every order (4 edges: first edge 0 or 1), separate or sharing vertices, one edge start or end (both for 3 edges) displaced by a symbolic gap in [-1/4,1/4]^2 around the tolerance 1/8; vertices set at any point within 1/2 of a segment; closed curve with symbolic position and end gap; closing chains of 1-4 edges with a symbolic end; the projection on the edge (NLopt) answers with the true projection, or with any parameter in one case"),
    "C25": dict(tus=["c25_extrema"], bounds="curves of degree 1-3 (single poles cases 4) with up to 2 interior knots, polynomial and rational, dimension 1-3; surfaces of degree (1-2)x(1-2); 2-5 bracketing samples per direction; symbolic: the projected point or the relative position of the two objects, the guess, NLopt's answer (any point of the box), all poles at 5 parameters; NLopt itself is a binary library and is replaced by its contract, so how close its answer is to the true optimum is outside; coordinate solving on linear coordinates, extreme coordinate of one translated arch; rolling ball between two lines with different bounds, symbolic rigid position"),
    "C26": dict(tus=["c26_schedules"], race=True, bounds="every parallel call site reachable without a GUI (values of 8 curve and 5 surface kinds, arc-length derivatives, discretisations, weights, transforms, add_dimension, offsets, interpolation and approximation batches, surface interpolation, lofts, aligned poles, extrema of curve lists, point projections, transfinite interpolation, tangents, intersections, mesh quality) with 3-9 elements and the gates lowered to 1; symbolic: which of 6 schedules (orders and grains) runs the elements, up to 6 pole coordinates in [-4,4], which element fails; every memory access of the region is instrumented and an access by two elements one of which writes is a violation"),
    "C28": dict(tus=["c28_connect"], bounds="curves of degree 1-4 with one interior knot (two or three in the speed cases), dimension 2-3, polynomial and rational with fixed weights, all poles in [-4,4] symbolic except that poles deciding a chord length, a speed or a collocation matrix keep their shape and move rigidly by a symbolic translation in [-8,8]; continuity limits none, 0..degree; natural end on and off; two distances; surfaces of degree (1-3)x(1-2), rational included, with a symbolic position and one free row of poles; ellipse-like connections with facing ends, factors 1 and 2; parameters of evaluation symbolic over the whole domain"),
    "C29": dict(tus=["c29_helpers"], bounds="vectors of dimension 1-4 with all components symbolic in [-10,10]; lists of 2, 3 and 5 elements; ranges of 2-11 values and grids up to 4x3x4 with symbolic ends; binomials up to order 12; newton_solve on affine functions with exact and 25% overestimated slopes and symbolic start and target; weighted poles, basis evaluators and bounds tests for degrees 1-3, dimension 1-3, symbolic poles, weights in [0.5,2] and parameter"),
}
NA = {
    "C27": "a statement about rounding of doubles: the exact-real encoding makes every rounding-error term zero, and bit-precise queries of the expansion arithmetic (several hundred 53-bit operations) do not finish; nor do they on a model of the same template reduced to 4-5 bit mantissas and six coordinates of absolute value below 32 (LLVM IR of orient2d<_Float16> translated to C for CBMC: 2.2 million variables, 8.4 million clauses, no answer from kissat, CaDiCaL or MiniSat in 5-7 minutes, also with two of the three points fixed)",
}
