import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["PathLib/"+f for f in files],
        "state":[{"name":a,"meaning":b,"where":"PathLib/"+c} for a,b,c in state],
        "mechanism":[{"name":a,"where":"PathLib/"+b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})

p("C01","Transforms compose left to right and act point by point",
 "Applying a transform built from any sequence of one or more 3x3 matrices to a point gives the same point as applying each matrix in turn, left to right, under the homogeneous row-vector rule (multiply [x, y, 1] by the matrix, then divide by the resulting weight). Applying a transform to a segment, a contour or a list of contours transforms every point and preserves number, order and nesting. None of these operations alters its inputs or the transform.",
 ["inputs"],"all matrices and sequences of matrices, all points with non-zero weight, all segments/contours/contour lists of any length",
 "The one transform test composes three particular matrices and moves one point; it never applies a transform to a segment or contour, has no non-affine weight, and cannot speak for all matrices.",
 ["Transform.py"],[("multiplyRowByMatrix / multiplyMatrixByMatrix / concatenateMatrices","Transform.py: Transform"),("applyToPoint / applyToSegment / applyToContour / applyToContours","Transform.py: Transform")],
 obs=["Transform(*matrices).applyToPoint","Transform.applyToSegment/Contour/Contours"])

p("C02","Each named transform does exactly what its name says",
 "For all arguments: translate moves every point by (to - from); scale, shear and mirror map (x, y) to (sx*x, sy*y), (x + sx*y, y + sy*x) and the reflection in the named axis or axes; perspective divides (x, y) by p*x + q*y + s. Mirroring around a centre reflects each point in the axis line(s) through that centre parallel to the named axis, so it fixes the centre and is its own inverse; perspective from a centre acts as the same perspective on coordinates relative to that centre. Omitted arguments mean the identity in that respect.",
 ["inputs"],"all argument values (including defaults) and all points",
 "Tests look at two translations and one rotation matrix; scale, shear, mirror, mirror-around and both perspective constructors are never called.",
 ["Transform.py"],[("_matrix and the _xxxMatrix builders","Transform.py: Transform"),("translate/scale/shear/mirror/perspective/mirrorAround/perspectiveFrom","Transform.py: Transform")])

p("C03","Rotations are rigid, fix their centre and turn the right way",
 "Rotating points, segments, contours or lists of contours by any angle about any centre fixes the centre and turns every vector from it by exactly that angle, counter-clockwise by default and clockwise on request, so distances and orientation are preserved and the two directions undo each other. Moving a point to a target and rotating about the origin, then rotating back and moving back, returns every point to where it was. Multiples of 90 degrees are exact.",
 ["inputs"],"all angles, centres, directions and shapes",
 "Only one 90 degree counter-clockwise rotation of one point is tested; no test covers clockwise rotation, other angles, or the segment/contour helpers.",
 ["Transform.py","PathUtilities.py"],[("sin/cos rounding, _rotationMatrix, rotationAbout, moveAndRotate, rotateAndMove","Transform.py: Transform"),("rotatePointAbout / rotateSegmentAbout / rotateContourAbout / rotateContoursAbout","PathUtilities.py")])

p("C04","Bounds rectangles are the tightest enclosing rectangles",
 "The bounds rectangle of any non-empty collection of points, a contour or a list of contours encloses every one of the points and each of its four edges is touched by one of them, whatever the coordinates' size and however many empty segments or contours are mixed in. An empty collection gives an empty rectangle, which encloses no point.",
 ["inputs"],"all finite collections of points, nested as segments, contours or contour lists, including empty ones, all coordinates",
 "Bounds are only used indirectly in two line tests with small non-negative coordinates; negative, huge or empty inputs and the contour forms are never exercised.",
 ["PathUtilities.py"],[("BoundsRectangle.__init__ min/max fold","PathUtilities.py: BoundsRectangle"),("fromContour / fromCoutours fold of union","PathUtilities.py: BoundsRectangle")],
 state=[("left/bottom/right/top","rectangle edges; left > right when empty","PathUtilities.py: BoundsRectangle")])

p("C05","Bounds rectangle algebra is exact",
 "The union of two rectangles is the smallest rectangle enclosing both, with the empty rectangle as its identity, and the intersection contains exactly the points both contain, being absent exactly when they share no point. Enclosure and crossing tests agree with point membership (edges included), and the reported relation is 'encloses', 'enclosed', 'intersects' or 'separate' in that order of precedence. Width, height, area, centre, diagonal, corner contour and percentage positions are those of the edges, and no operation changes its operands.",
 ["inputs"],"all pairs of rectangles and all points/percentages",
 "No test constructs a union, an intersection or a relation.",
 ["PathUtilities.py"],[("union, intersection, encloses, enclosesPoint, crossesX/Y, relationTo, width/height/area/centerPoint/contour/points/xFromLeft/yFromBottom","PathUtilities.py: BoundsRectangle")])

p("C06","Segment measurements agree with the segment's end points",
 "For every segment the deltas, end points, length, midpoint, slope (infinite exactly for vertical), slope angle from the vertical in [0, 90] degrees and signed slope angle are those of the straight line from its first to its last point. A segment is classified vertical, horizontal or diagonal exactly when it is a two-point line with that geometry, and reversing it negates the deltas while leaving length, midpoint, slope and classification unchanged. Flattening contours, ordering a pair of values and converting font units to thousandths of an em keep exactly their inputs' content.",
 ["inputs"],"all segments with any number of points, all contour lists, all values",
 "A few fixed integer lines are tested; angles, classifications, curved segments, degenerate lines and the other helpers are not.",
 ["PathUtilities.py"],[("endPoints, getDeltas, length, slope, slopeAngle, rawSlopeAngle, midpoint, isVerticalLine/isHorizontalLine/isDiagonalLine, minMax, flatten, toMicros","PathUtilities.py")])

p("C07","Line intersection and point-on-line tests are sound and complete",
 "The intersection of two non-parallel infinite lines is the unique point on both, and is absent exactly for parallel lines; for two line segments it is reported exactly when that point lies on both segments, end points included. A point is reported to be on a line segment exactly when it lies between its end points on the straight line through them, end points included.",
 ["inputs"],"all pairs of lines and all points, including end points, vertical, horizontal, parallel and degenerate lines",
 "Five fixed intersections and two fixed points are tested; completeness and soundness range over all lines.",
 ["BezierUtilities.py","PathUtilities.py"],[("lli8 / lli4 / lli","BezierUtilities.py"),("intersectionPoint, pointOnLine","PathUtilities.py")])

p("C08","Curve evaluation is the Bernstein polynomial of the control points",
 "For every curve of every degree and every parameter t, evaluation gives the Bernstein polynomial of its control points at t; in particular t = 0 and t = 1 give the first and last control points, as the start and end accessors do. The hull at t lists the control points followed by every level of linear interpolations, ending with the point at t. A lookup table of n >= 2 samples holds exactly n points at equally spaced parameters from 0 to 1, no matter which tables were requested before.",
 ["inputs","histories"],"all degrees >= 1, all control points, all t, all table sizes >= 2 and all orders of table requests",
 "No test imports the curve module at all.",
 ["Bezier.py","BezierUtilities.py"],[("_compute shortcuts, closed forms and de Casteljau loop","Bezier.py: Bezier._compute/get"),("hull","Bezier.py: Bezier.hull"),("getLUT cache","Bezier.py: Bezier.getLUT"),("lerp, map","BezierUtilities.py")],
 state=[("_lut","cached lookup table","Bezier.py: Bezier")])

p("C09","Derivative, tangent and normal are those of the curve",
 "For every line, quadratic or cubic curve and every t, the derivative is the exact parametric derivative of the evaluated point, and the derived control points are the hodographs of each order. Where the derivative is non-zero the normal is the unit vector obtained by rotating the unit tangent by +90 degrees.",
 ["inputs"],"all curves of degree 1 to 3, all t (float or Decimal)",
 "No test evaluates a derivative, tangent or normal.",
 ["Bezier.py"],[("dcPoints","Bezier.py: Bezier.dcPoints"),("_derivative, normal, _normal, _tangent","Bezier.py: Bezier")],
 state=[("_dcPoints","cached hodograph control points","Bezier.py: Bezier")])

p("C10","Splitting a curve reproduces the curve on the sub-interval",
 "Splitting a line, quadratic or cubic at t yields two curves which, re-parameterised linearly, are exactly the original on [0, t] and [t, 1] and meet at the point at t; splitting between t1 < t2 yields exactly the original on [t1, t2]. Each piece records the parameter interval it covers on the curve that was originally split, however many times pieces are split again. The original curve is unchanged.",
 ["inputs","histories"],"all curves of degree 1 to 3, all 0 <= t1 < t2 <= 1, all nested sequences of splits",
 "No test splits a curve; the claim is an identity of polynomials for all curves and parameters.",
 ["Bezier.py","BezierUtilities.py"],[("split (shortcuts, de Casteljau indices, _t1/_t2 bookkeeping)","Bezier.py: Bezier.split"),("hull","Bezier.py: Bezier.hull"),("map","BezierUtilities.py: map")],
 state=[("_t1/_t2","interval of the original curve that this piece covers","Bezier.py: Bezier")])

p("C11","Degree elevation and alignment preserve the curve",
 "Raising the order of any curve yields a curve of degree exactly one higher that traces the same point at every parameter. Aligning a curve to a segment moves it rigidly so that the segment's start goes to the origin and its end onto the non-negative x axis; aligned to itself, a curve starts at the origin and ends on the x axis.",
 ["inputs"],"all curves, all parameters, all alignment segments",
 "No test raises or aligns a curve.",
 ["Bezier.py","Transform.py"],[("raiseOrder","Bezier.py: Bezier.raiseOrder"),("_align / align","Bezier.py: Bezier"),("moveAndRotate","Transform.py: Transform.moveAndRotate")])

p("C12","Curve bounding boxes contain the whole curve and are tight",
 "The bounding box of every line, quadratic and cubic curve contains the curve's point at every parameter in [0, 1], and each of its four edges is attained by some point of the curve. The reported extrema all lie in [0, 1], are listed sorted without duplicates in the combined list, and include every interior parameter at which x or y has an isolated critical point and, for a cubic, an isolated zero of its second derivative. The tight bounding box is a rectangle aligned with the curve's baseline that contains every point of the curve, and the skeleton bounds enclose its control points; two curves are reported to overlap exactly when their bounding boxes share a point.",
 ["inputs"],"all curves of degree 1 to 3 with coordinates within +/-(2^53-1) and all parameters in [0, 1]",
 "No test computes a curve's box; containment quantifies over every curve and every point on it.",
 ["Bezier.py","BezierUtilities.py","PathUtilities.py"],[("extrema, _getminmax, bbox, boundsRectangle, tightbbox, overlaps","Bezier.py: Bezier"),("droots, removeDuplicates","BezierUtilities.py"),("BoundsRectangle","PathUtilities.py")],
 state=[("_extrema/_bbox/_boundsRectangle","cached query results","Bezier.py: Bezier")])

p("C13","Curve queries are pure: order and repetition never matter",
 "Every query on a curve (control points, order, evaluation, extrema, bounding boxes, lookup table, length, direction, reduction, roots, splitting, offsetting) returns a value that depends only on the curve's control points and the query's own arguments. In particular no query changes what any other query, or the same query asked again, returns, and curves do not influence each other.",
 ["histories","inputs"],"all curves and all finite sequences of queries on one or several curves",
 "Needs every interleaving of queries on a lazily caching object; no test touches the class.",
 ["Bezier.py","BezierUtilities.py"],[("lazy caches filled by dcPoints/extrema/bbox/boundsRectangle/getLUT/length","Bezier.py: Bezier"),("_getminmax and reduce extending the list of extrema","Bezier.py: Bezier"),("length changing the decimal context","Bezier.py: Bezier.length")],
 state=[("_dcPoints,_extrema,_bbox,_boundsRectangle,_lut,_length","caches","Bezier.py: Bezier.__slots__"),("decimal context precision","process-wide state touched by length","Bezier.py: Bezier.length")])

p("C14","Line-curve intersection is sound and complete",
 "For quadratic and cubic curves, every parameter reported as a crossing of a given line (or of the x axis when none is given) lies in [0, 1] up to 1e-6 and is a parameter at which the curve meets the line up to a small tolerance, and every transversal crossing in [0, 1] is reported. Restricting to a line segment keeps exactly the crossings within the segment's bounding box (give or take a millionth, so that rounding loses none on a horizontal or vertical segment), and intersecting with a line curve returns a point of the curve on that line, or nothing when there is no crossing. Roots of a linear or quadratic Bernstein polynomial are likewise exactly its real roots.",
 ["inputs"],"all quadratic and cubic curves and all lines, outside near-tangent configurations closer than the solver's 1e-6 tolerance; real arithmetic (badly conditioned cubics in floating point left out)",
 "No test finds a root; completeness quantifies over all curves, lines and crossings.",
 ["Bezier.py","BezierUtilities.py"],[("roots (quadratic, degenerate and trigonometric/Cardano cubic cases)","Bezier.py: Bezier.roots"),("lineIntersects, intersectWithLine","Bezier.py: Bezier"),("droots, sqrt, crt, approximately, between","BezierUtilities.py")])

p("C15","Reduction partitions the curve into consecutive pieces",
 "Reducing a curve either reports failure with an empty list (only when some piece a hundredth of a section between neighbouring extrema long is not simple) or returns pieces whose recorded parameter intervals are consecutive, start at 0, end at 1 and neither overlap nor leave gaps, each piece being exactly the original curve on its interval. Every interval boundary list includes each extremum, so x and y are monotonic on each piece, and every piece that does not end its section is simple. A piece is judged simple exactly when its control points lie on one side of its baseline (a cubic's; control points exactly on the baseline aside) and its end normals differ by less than 60 degrees.",
 ["inputs"],"all quadratic and cubic curves with non-vanishing end derivatives",
 "No test reduces a curve; the partition holds for every curve or not at all.",
 ["Bezier.py","BezierUtilities.py"],[("reduce (two passes), simple","Bezier.py: Bezier"),("split, extrema","Bezier.py: Bezier"),("map, angle","BezierUtilities.py")],
 state=[("_t1/_t2","interval recorded on every piece","Bezier.py: Bezier")])

p("C16","Curve-curve intersection is sound and complete to its threshold",
 "Every parameter pair reported for two curves (or for a curve with itself) identifies points on the two curves that are closer than twice the intersection threshold in each coordinate. Conversely, whenever two pieces that are compared do meet at some pair of parameters, a reported pair covers it: its parameters lie in sub-intervals whose pieces are both smaller than the threshold and contain the meeting point. No pair is reported for curves whose bounding boxes are disjoint, and the result contains no duplicates per compared pair.",
 ["inputs"],"all pairs of quadratic/cubic curves and all positive thresholds for which the search terminates",
 "No test intersects curves; recursion depth and pairing depend on the curves.",
 ["Bezier.py","BezierUtilities.py"],[("pairiteration recursion, curveIntersects, intersects, selfIntersects","Bezier.py: Bezier"),("overlaps, split","Bezier.py: Bezier"),("removeDuplicates","BezierUtilities.py")])

p("C17","Offset curves run at the requested distance",
 "The offset of a point of a curve by any distance d (zero included) is that point moved by d along the unit normal. Offsetting a straight curve translates all of it by d along its normal; scaling a simple curve by a distance d moves both end points by d along their normals and keeps the end tangents (of a quadratic: the start's tangent) parallel to the original's. Offsetting a general curve offsets each reduced piece, in order.",
 ["inputs"],"all curves of degree 1 to 3 with non-vanishing end derivatives, all parameters and distances; scaling is meant for curves whose end normals meet away from the curve's ends, and whose end tangents are not at right angles to the chord",
 "No test offsets or scales a curve.",
 ["Bezier.py","BezierUtilities.py"],[("offset, scale, normal","Bezier.py: Bezier"),("lli4","BezierUtilities.py")])

p("C18","Arc length is the 24-point Gauss-Legendre length",
 "A curve's length is the 24-point Gauss-Legendre quadrature of its speed over [0, 1], exact for straight uniformly parameterised curves, never negative, and independent of translation and direction of travel; the quadrature table itself integrates every polynomial of degree up to 47 exactly. Computing a length leaves the decimal arithmetic context as it was, whether it succeeds or fails.",
 ["inputs","histories"],"all curves of degree 1 to 3 and all decimal contexts",
 "No test computes a length; one wrong digit in one of 48 table entries would only show as a tiny error.",
 ["Bezier.py","BezierUtilities.py"],[("length, _arcfun","Bezier.py: Bezier"),("tValues, cValues","BezierUtilities.py")],
 state=[("decimal context precision","temporarily raised while summing","Bezier.py: Bezier.length")])

p("C19","Direction, straightness and turning are those of the curve",
 "A curve reported as going up (down) has non-decreasing (non-increasing) y over its whole parameter range, a line reported flat has constant y, and a curve is reported mixed only if its control points' y values are not monotonic. A curve is judged straight exactly when every control point lies within 0.0001 of its baseline, and clockwise exactly when its first control point turns to the positive side of its baseline (no claim is made when it lies on the baseline's line at or behind the start).",
 ["inputs"],"all curves of degree 1 to 3",
 "No test constructs a curve.",
 ["Bezier.py","BezierUtilities.py"],[("_computeDirection, __init__ (linear, clockwise)","Bezier.py: Bezier"),("angle","BezierUtilities.py")])

p("C20","ABC projection satisfies the ABC identities",
 "For every quadratic and cubic curve and every t strictly between 0 and 1 for which they exist, the ABC points satisfy: B is the curve's point at t, A is the hull's projection point, C lies on the baseline, the three are collinear, and |BC| equals the reported ratio times |AB|. The ratio depends only on the degree and t.",
 ["inputs"],"all quadratic/cubic curves and 0 < t < 1",
 "No test computes ABC points or ratios.",
 ["Bezier.py","BezierUtilities.py"],[("getABC","Bezier.py: Bezier.getABC"),("quadraticRatio, cubicRatio, lli4","BezierUtilities.py")])

p("C21","Contours and outlines always describe their current segments",
 "After any sequence of constructing, replacing and deleting segments and of queries, a contour's segments, start, end, bounds and lookup tables are those of its current segments: the bounds are the union of the segments' boxes, and a table of n samples per segment is the segments' own tables joined with shared end points listed once. Outlines hold one contour per input contour in order, with bounds the union of theirs, and converting segments to points or paths and back preserves them.",
 ["histories","inputs"],"all non-empty contours of any number of lines and curves, all edit/query histories that leave at least one segment, all table sizes >= 2",
 "No test builds a contour; stale caches only show after particular histories.",
 ["Bezier.py","PathUtilities.py"],[("BContour.__init__/__setitem__/__delitem__/getLUT/boundsRectangle/start/end","Bezier.py: BContour"),("BOutline.__init__/unzipPoints/pathFromSegments/segmentFromPoints","Bezier.py: BOutline")],
 state=[("_beziers,_bounds,_lut,_start,_end","segments and values derived from them","Bezier.py: BContour")])

p("C22","Closest-point search never does worse than its samples",
 "For every contour, query point and number of samples per segment (n >= 2), the closest-point search returns a point of the contour together with its exact distance from the query point, and that distance does not exceed the query point's distance to any sampled point of the contour.",
 ["inputs"],"all contours and query points (coordinates up to 2^51 in size) and sample counts >= 2",
 "No test searches; the failing cases depend on which sample wins and on the sample count.",
 ["Bezier.py"],[("findClosestPoint, _findClosest, _refineBinary","Bezier.py: BContour"),("getLUT","Bezier.py: BContour / Bezier")])

p("C23","SVG path data draws exactly the given path",
 "For every connected contour of lines, quadratics and cubics, the path data string, read by the SVG path grammar (relative order of commands, implicit command repetition, H and V shorthands), draws exactly the contour's segments in order, omitting only zero-length lines. The plotter's contour, path and point drawings do the same for every list of contours, filled or stroked, closed or open, in compact or verbose form and whatever was drawn before, points drawn as circles give one circle of the asked radius and colour at each point, a skeleton is the control polygon with a circle at each control point and a hull drawing adds every level of interpolations but the last, and all of them leave the plotter's fill and stroke settings as they were; a popped fill or stroke setting is what it was at the matching push.",
 ["inputs","histories"],"all lists of connected contours, all drawing modes and drawing histories",
 "No test emits path data, and the plotter cannot even be imported by the tests because its base library is absent.",
 ["Bezier.py","ContourPlotter.py"],[("d, pointToString","Bezier.py: BContour"),("drawContours, drawPaths, drawPointsAsSegments, getCommand, push/pop attributes","ContourPlotter.py: ContourPlotter")],
 state=[("_lastCommand, _pen","last command and pen position, the context for the next one","ContourPlotter.py: ContourPlotter")])

p("C24","The segment pen yields closed, connected contours",
 "For every sequence of pen calls a glyph may make (move, then lines, cubic curves and quadratic splines, then close, any number of times), each resulting contour is a chain in which every segment starts where the previous one ended and the last ends where the first began, zero-length lines are dropped, and contours appear in drawing order. A quadratic spline with n >= 2 off-curve points becomes n quadratics joined at the midpoints of consecutive off-curve points. A component contributes its glyph's contours mapped by exactly its affine transformation.",
 ["histories","inputs"],"all pen-call sequences, all points, all spline lengths, all component transformations",
 "No test uses the pen; chains depend on the whole call history.",
 ["SegmentPen.py","Transform.py"],[("moveTo/lineTo/curveTo/qCurveTo/closePath/addComponent","SegmentPen.py: SegmentPen")],
 state=[("_contour,_contours,_lastOnCurve","contour under construction, finished contours, pen position","SegmentPen.py: SegmentPen")])

p("C25","Matrix inversion returns the inverse or nothing",
 "For every square matrix the inversion returns a matrix whose product with the original, on either side, is the identity if the matrix is invertible, and nothing if it is singular; for a non-square matrix it returns nothing. The argument is never modified.",
 ["inputs"],"all rectangular matrices of any size with exact arithmetic",
 "One 3x3 integer matrix without pivoting is tested; row swaps, singular and larger matrices are not.",
 ["MatrixInversion.py"],[("matrixInvert (Gauss-Jordan with row swaps)","MatrixInversion.py")])

p("C26","Matrix algebra and the Bernstein basis matrix are exact",
 "For all conforming matrices, multiplication gives the matrix product and transposition swaps rows and columns, leaving their arguments unchanged; the power matrix of n parameters holds each parameter's powers 0 to n-1 together with its transpose. The binomial coefficients and the basis matrix are exact for every size, in whatever order sizes are requested: row r of the basis matrix expresses t^r's coefficients of the Bernstein polynomials of degree n-1.",
 ["inputs","histories"],"all conforming matrices, all n >= 1 and 0 <= k <= n, all orders of requests",
 "Two fixed products and one fixed transpose are tested; the growing binomial table and basis matrix never are.",
 ["CurveFitting.py"],[("multiply, transpose, row, col, formTMatrix, raiseRowPower","CurveFitting.py"),("binomial with its growing table, basisMatrix","CurveFitting.py")],
 state=[("binomialCoefficients","table extended on demand","CurveFitting.py")])

p("C27","Curve fitting passes through the data at the chosen parameters",
 "Fitting n points with pairwise distinct parameters yields control points of a curve of degree n-1 that passes through every given point at that point's parameter. The parameters start at 0, end at 1 and never decrease, being proportional to accumulated distance along the points, or equally spaced on request; with fewer basis functions than points the control points are a least-squares solution.",
 ["inputs"],"all lists of n >= 2 points with distinct consecutive points",
 "No test fits a curve.",
 ["CurveFitting.py","MatrixInversion.py"],[("fit, bestFit, computeTimeValues, getPointValuesColumn","CurveFitting.py"),("matrixInvert","MatrixInversion.py")])

p("C28","Colour names and generated colours are right",
 "Every CSS3 colour keyword, in any mixture of upper and lower case, gives its CSS3 colour; any other alphabetic name is rejected with an error and a non-alphabetic one gives no colour. Successive generated hues advance by 73 degrees modulo 360 from the hue that was set, with half saturation and lightness, and every generated component lies in 0 to 255.",
 ["inputs","histories"],"all strings; all starting hues and numbers of calls",
 "The colour module cannot be imported by the tests because its base library is absent.",
 ["Color.py"],[("_keywords, _forKeyword, fromName","Color.py: Color"),("setCurrentHue, randomHSLColor, randomRGBColor","Color.py: Color")],
 state=[("_current_hue","last hue handed out","Color.py: Color")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80; 
print(len(P))
