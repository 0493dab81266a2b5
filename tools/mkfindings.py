#!/usr/bin/env python3
"""Writes known_findings.json: defects of the pinned tree, repaired ("fixed", suppress nothing) or recorded ("open")."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.split("|") for l in """
C04|c6d10dc|curve constructors read past the end of an empty knot vector
C04|3aa6df4|surface constructor accepted knot vectors shorter than the degree and read out of bounds
C04|30097d9|merge_weights with a number of weights different from the number of poles read out of bounds
C04|139a6a0|BSSurface::pole(i,j) mixed up its indices and accepted an index out of range
C04|313aeec|isoU/isoV with a parameter accepted by the tolerance read outside the knots
C05|cbc1879|remove_knot removed end knots and removed a knot more often than it occurs
C05|f095e03|inserting or removing a knot within knot_eps of an existing one broke the knot vector
C06|1303732|BSCurve::trim(u2,u1) with u1<u2 reversed the bounds and produced an invalid curve
C06|8518c98|reverse, changeBounds and copies ignored a non permanent trim
C07|0767596|surface trimU/trimV with swapped ends produced an invalid surface
C08|3eb2df2|interpolation with non-unique requests (repeated parameters, too few points) wrote out of bounds
C08|5a16931|three point tangents at the ends used the wrong divided differences
C08|b0f11a3|band factorisation accepted NaN pivots and returned NaN poles
C09|73bdffd|surface interpolation with too few points for the degrees read out of bounds
C10|cde4c7d|approximation with inconsistent counts read out of bounds
C12|56ad402|transformation between two frames was not the one mapping the first on the second
C12|1c47f8f|add_dimension of a rational curve lost its weights
C12|afaae03|vector / integer divided nothing or truncated
C13|032550d|surface of revolution ignored its axis origin and its u derivatives were translated
C13|0948dc4|circle from an axis lay in the wrong plane; setR did not resize
C13|60c9441|a line was bounded on one side only
C13|b1e65bf|default axis of a 3D circle was degenerate
C14|812055a|second derivative of a curve on surface
C14|29ffa73|derivatives of the offset of a 3D curve
C14|d12b68d|composite curve evaluated below its first parameter read out of bounds
C04|aef2388|an error raised inside a parallel evaluation terminated the process instead of reaching the caller
C15|a217056|adimension did not map knots to [0,1] when they did not start at 0
C15|dd6a5b3|loft along a spine used knots unrelated to the section parameters
C16|e3ccccc|moved_to_constraints of a curve moved by the target value instead of the deviation
C16|8c41c67|move_to_constraints of a surface ignored derivative orders
C20|1b71140|sphere_center was not the centre of the circle through its three points
C20|8f71b02|triangle getters ignored the face orientation (DeviationMeshSurface gave 2 on a plane)
C19|ccdea39|edge recovery tested convexity the wrong way round and recovered nothing
C18|7853f32|splitHalfEdge left half edges without opposite or face
C18|2391107|getNeighboringVertices returned the vertex itself
C18|e2f6360|is_boundary was inverted
C19|d945b84|constrained triangulation lost the parts of the polygon next to its hull
C19|e012594|mesh refinement dereferenced a null vertex, inverted faces by smoothing and flipped Delaunay edges
C21|cebdeb2|JSON readers accepted a definition without a type name and constraints of different sizes
C22|8a4d2d7|knot builders read out of bounds with too few points; unique insertion missed a close knot on one side
C25|5c6fe5f|extrema reported squared distances, minimised with wrong gradients and started from permuted guesses
C25|f5d19fb|closest_curve and closest_p_curve did not compile
C23|2f28bb9|deviation based lists exceeded their maximum, repeated knots, left a closed arc unrefined and accepted fewer than two points
C23|68c2c78|abs_curv_adaptive_discretzation used an invalidated iterator after inserting a parameter
C24|45e1967|edges accepted vertices up to the square root of the tolerance away, bounds of a far-end vertex, wires did not close when one end shared a vertex, Wire::close did not compile
C12|4446b55|add_dimension of a rational surface lost its weights
C28|d181f69|extensions advanced the parameter by distance squared over speed, measured from the curve's end whatever the start; rational surface extensions left the border and its tangent plane; a curve of another spline space was read out of bounds; c2_connect flipped the second derivative on reversed sides
C29|9ff9aff|newton_solve stopped at once when it started on the side where the step is negative (it tested the signed step)
C10|08ac5d5|approximation of a curve between two of its parameters put its parameters and knots on the range of the whole curve
C05|9ba7898|removing one knot given by its value removed another one, or read past the knots, for values that occur several times
C18|57f0453|getEdgePoint and edge_direction did not compile
C29|764bd66|scaled_weights ignored the requested mean value
C29|50d8287|eval_value_deboor_cox compiled only for dimension 3 and more
C25|cec740f|compute_rolling_ball started the search on the second curve from the first curve's parameter and threw when their bounds differ
C19|dc4b5ee|meshSurfaceBoundary appended two points at the origin, so the base mesh of a surface whose parameter range excludes (0,0) covered more than its rectangle
C10|9b84a6b|adaptive approximation stopped without refining when the worst point had a negative parameter (u_max{-1} as a "none found" mark): a curve over [-3.5,-1.5] was fitted 0.53 off with a tolerance of 1e-3
C17|11a8c0d|tfi_mesh_2d on a surface built its iso lines over [0,length] but evaluated them at the hard parameters: wrong points, or an exception, when those do not start at 0
""".strip().splitlines()]
OPEN = [
    dict(id="K1", property="C19", status="open", case=r"hull\.pocket", label="^label=covers the hull",
         what="delaunay2DBoyerWatson loses hull triangles whose circle contains a corner of the 10% encompassing box, e.g. points (0,0),(10,0),(5,1),(5,10): area 45 instead of 50"),
    dict(id="K2", property="C25", status="open", case=r"known\.distance", label="^label=reported distance",
         what="extrema_curve_point reports the squared distance, e.g. 4 for the point (2,2) and the segment (0,0)-(4,0); the existing tests tests_bscapprox.approx_curve and others compare that number, so it is not repaired"),
    dict(id="K3", property="C25", status="open", case=r"known\.dev", label="^label=largest distance",
         what="dev_from_points, built on it, reports squared largest and mean distances"),
]
out = {"findings": OPEN + [dict(id="F%d" % (i + 1), property=p, status="fixed", commit=c, what=w, record=f"fixed: property={p} {c} {w}") for i, (p, c, w) in enumerate(FIXED)]}
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
