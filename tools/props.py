prop("C01", "Curve evaluation is the rational B-spline the curve's data define",
     "For every curve built from control points, a degree from 1 to 8 and a valid clamped (or automatically generated) knot vector, evaluating at any parameter of the domain returns the point of the rational B-spline with those homogeneous control points (weighted coordinates, weight), knots and degree, up to rounding. The first and last control points are interpolated, a translated/scaled/sheared control polygon gives the transformed point, and the point lies inside the control points' convex hull (positive weights).",
     "all degrees 1..8, control point counts, clamped knot vectors with any interior multiplicity up to the degree, weights, parameters including the domain ends and the knots themselves",
     "The tests print a few points of one uniform cubic and compare nothing; no test uses repeated interior knots, weights other than 1 or degrees other than 2 and 3.",
     ["nurbs.h", "nurbs_utils.h", "vec.h"],
     [("span search", "nurbs_utils.h find_span"), ("basis functions", "nurbs_utils.h basis_funs"), ("rational sum", "nurbs_utils.h curve_point"), ("default knots", "nurbs.h generate_knots")])
prop("C02", "Curve derivatives equal the derivatives of the curve they belong to",
     "Wherever the curve is smooth, the analytic first derivative, the list of derivatives of increasing order and the derivative curve (for curves with equal weights) of a curve of degree 1..8 equal the exact derivatives of the rational B-spline; the finite-difference derivatives approximate them. Orders above the degree of a polynomial curve are zero, never garbage.",
     "all clamped curves of degree 1..8 and parameters inside knot spans, rational and not, all requested orders",
     "The tests print derivatives of one cubic without comparing them with anything.",
     ["nurbs.h", "nurbs_utils.h"],
     [("basis function derivatives", "nurbs_utils.h ders_basis_funs"), ("derivative sum", "nurbs_utils.h curve_derivs_alg1"), ("derivative curve", "nurbs_utils.h get_nurbs_derivative"), ("finite differences", "nurbs.h derivatives / derivative_fdm / second_derivative_fdm")])
prop("C03", "Inserting knots into a curve never changes its shape",
     "Inserting a knot any number of times (as long as its multiplicity stays within the degree), repeatedly and at any interior parameter, leaves every point of the curve and its domain unchanged, adds exactly that many control points and knots, and keeps the knot vector sorted with the requested multiplicity.",
     "all clamped curves and sequences of insertions, including at existing knots, rational and not",
     "No test inserts a knot and compares the curve before and after.",
     ["nurbs.h", "nurbs_utils.h"],
     [("Boehm insertion", "nurbs_utils.h knot_insertion"), ("knot vector update", "nurbs_utils.h knot_insertion_kv"), ("multiplicity", "nurbs_utils.h find_multiplicity")], over=("inputs", "histories"))
prop("C04", "Splitting a curve yields two curves that together are the curve",
     "Splitting at any parameter strictly inside the domain yields two valid clamped curves of the same degree whose domains meet at that parameter and which equal the original curve everywhere on their domains; with normalisation each piece traces the same points over [0,1]. A parameter on or outside the ends of the domain is rejected with an exception and the original curve is never modified.",
     "all clamped curves, split parameters anywhere including at knots of any multiplicity and outside the domain, repeated splits of pieces",
     "No test splits a curve and compares the pieces with the original.",
     ["nurbs.h", "nurbs_utils.h"],
     [("split", "nurbs.h NURBSCurve::split"), ("knot normalisation", "nurbs.h normalize_knots")], over=("inputs", "histories"))
prop("C05", "Decomposing a curve gives its Bezier segments in order",
     "Decomposition returns, in order of increasing parameter, exactly one segment per non-empty knot span; each segment is a Bezier curve of the same degree (degree+1 control points, no interior knots) on that span and equals the original curve there.",
     "all clamped curves, any interior knot multiplicities",
     "No test decomposes a curve.",
     ["nurbs.h", "nurbs_utils.h"],
     [("decomposition by splitting", "nurbs.h NURBSCurve::decompose"), ("distinct knots", "nurbs_utils.h uniqueKnots")])
prop("C06", "Arc length is the length of the curve and inverts consistently",
     "The length reported for a curve or a part of it matches the true arc length within a small multiple of the requested tolerance (as far as the adaptive rule resolves the speed), is zero on an empty interval, adds up over adjacent intervals, and does not depend on knot insertion or rigid motion. From a start close to the answer, the parameter returned for a given arc length has that arc length.",
     "regular polynomial and rational curves of degree 1..5 with smooth speed, sub-intervals, tolerances",
     "The integration test prints the length of one curve.",
     ["nurbs.h", "integrate.h"],
     [("adaptive Simpson rule", "integrate.h integrate"), ("length inversion", "integrate.h find_t1_newton"), ("length", "nurbs.h NURBSCurve::length / lengthAt")])
prop("C07", "A curve's bounding box always contains the curve",
     "After construction, copying, moving, splitting, decomposition, knot insertion or replacing the control points, the bounding box obtained from the curve contains every point of the curve and is exactly the box of its (projected) control points. Copies and moved-to curves are equal to the source in every respect.",
     "all clamped curves and sequences of operations on them",
     "No test looks at a curve's bounding box.",
     ["nurbs.h", "aabb.h"],
     [("box of control points", "nurbs.h rebuildAABB / bbox / aabb"), ("copy and move", "nurbs.h NURBSCurve(const NURBSCurve&) / NURBSCurve(NURBSCurve&&)")], over=("inputs", "histories"))
prop("C08", "Periodic curves close smoothly",
     "A curve made periodic from any control polygon is closed and matches itself with continuous derivatives across the seam, reports itself as periodic, repeats the first degree control points at its end, and making it periodic twice changes nothing; a curve that is not periodic is not reported as periodic.",
     "all control polygons with more points than the degree, degrees 1..8",
     "No test builds a periodic curve and checks closure.",
     ["nurbs.h"],
     [("periodic control points", "nurbs.h make_periodic"), ("periodic knots", "nurbs.h generate_knots_periodic"), ("test", "nurbs.h is_periodic")])
prop("C09", "Surface evaluation is the rational tensor-product B-spline",
     "For every surface built from a control grid, two degrees from 1 to 8 and valid clamped (or automatically generated) knot vectors, evaluating at any parameter pair of the domain returns the point of the rational tensor-product B-spline with that data; the four corner control points are interpolated.",
     "all degrees, rectangular grids of different sizes in u and v, interior multiplicities, weights, parameters including boundaries and knots",
     "The tests print a few points of one or two surfaces.",
     ["nurbs.h", "nurbs_utils.h"],
     [("surface sum", "nurbs_utils.h surface_point"), ("default knots", "nurbs.h generate_knots_u / generate_knots_v")])
prop("C10", "Inserting knots into a surface never changes its shape",
     "Inserting knots in either direction, any number of times within the degree and in any order, leaves every point of the surface and its domain unchanged and adds exactly that many rows or columns and knots in that direction only.",
     "all clamped surfaces with different sizes, degrees and knots in u and v and sequences of insertions",
     "No test compares a surface before and after insertion.",
     ["nurbs.h", "nurbs_utils.h"],
     [("insertion in u", "nurbs.h NURBSSurface::insert_knot"), ("insertion in v", "nurbs.h insert_knot_v")], over=("inputs", "histories"))
prop("C11", "Splitting, subdividing and decomposing a surface preserves it",
     "Splitting in u or v, subdividing into four and decomposing into patches yield surfaces whose domains tile the original domain and which equal the original wherever they are defined; decomposition yields one Bezier patch per non-empty knot cell. Split parameters on or outside the domain boundary are rejected with an exception and the source surface is not modified.",
     "all clamped surfaces, parameters anywhere including knots and outside the domain",
     "No test compares pieces with the original surface.",
     ["nurbs.h"],
     [("split", "nurbs.h split_surface_u / split_surface_v"), ("subdivision", "nurbs.h subdivide"), ("decomposition", "nurbs.h NURBSSurface::decompose")], over=("inputs", "histories"))
prop("C12", "Surface partial derivatives and normals match the surface",
     "At every parameter of the domain, its ends and the knots at which the surface is smooth included, the partial derivatives of a surface equal those of the rational tensor-product B-spline up to rounding, the derivative surfaces of a polynomial surface equal the exact partial derivatives, and the normal is a unit vector perpendicular to both partial derivatives and oriented as their cross product.",
     "all clamped surfaces, rational and not, all parameters; derivative surfaces for equal weights",
     "The tests print derivatives of one surface.",
     ["nurbs.h"],
     [("finite differences", "nurbs.h derivative_u / derivative_v"), ("normal", "nurbs.h NURBSSurface::normal"), ("derivative surface", "nurbs.h NURBSSurface::get_derivative")])
prop("C13", "Iso-parametric and boundary curves lie exactly on the surface",
     "The curve extracted from a surface at a fixed parameter equals the surface along that parameter line over the whole domain of the other parameter, for either direction, and the four boundary curves are the four edges of the surface in the documented order (u-min, u-max, v-min, v-max).",
     "all clamped surfaces with arbitrary knot vectors and weights, both directions, any fixed parameter including the ends and knots",
     "The boundary test only prints intersection results of two fixed surfaces.",
     ["nurbs.h", "boundary_intersection.h"],
     [("member extraction", "nurbs.h extract_isocurve / extract_surface_boundaries"), ("free functions", "boundary_intersection.h extract_isocurve / extract_surface_boundaries")])
prop("C14", "A surface's bounding box contains the surface",
     "The bounding box of a surface contains every point of the surface and is exactly the box of its projected control points, after construction and after any sequence of insertions, splits, copies and moves; the exported flat and grid control points are the projected control points in row order.",
     "all clamped surfaces and operation sequences",
     "No test checks a surface box.",
     ["nurbs.h", "aabb.h"],
     [("box", "nurbs.h NURBSSurface::bbox"), ("projected control points", "nurbs.h control_points_flat3d / control_points3d / control_points_flat")], over=("inputs", "histories"))
prop("C15", "Knot-vector utilities agree with their definitions",
     "For every valid knot vector the span search returns the span that contains the parameter, the basis functions are non-negative, sum to one and equal the Cox-de Boor functions, multiplicities and distinct knots are exact, and refining a knot vector yields control points and knots of the same curve. The control points of derivatives are those of the derivative curves and surfaces. Removing knots that were just inserted restores the curve.",
     "knot vectors of degree 1..8 with any multiplicities, all parameters of the domain; refinement and removal of knots",
     "The span test checks a handful of values of one vector; refinement and removal are untested.",
     ["nurbs_utils.h"],
     [("span", "nurbs_utils.h find_span"), ("basis", "nurbs_utils.h basis_funs"), ("multiplicity", "nurbs_utils.h find_multiplicity / getKnotMultiplicities / uniqueKnots"), ("refinement", "nurbs_utils.h knot_refinement"), ("removal", "nurbs_utils.h knot_removal")])
prop("C16", "Curve-curve intersection is sound and finds every crossing",
     "Every parameter pair reported for two curves denotes points of both curves that agree within a small multiple of the tolerance, and every isolated transversal crossing inside the domains is represented by a reported pair close to it; the same pair is not reported twice in a row. Curves that are farther apart than the tolerance produce no result.",
     "pairs of clamped curves of degree 1..5 with zero, one or several constructed crossings, tolerances",
     "One test prints the result for one pair of curves.",
     ["ccx.h", "nurbs.h", "aabb.h"],
     [("recursive subdivision on boxes", "ccx.h ccx")])
prop("C17", "Curve-surface intersections lie on both the curve and the surface",
     "Every intersection reported between a curve and a surface consists of a point and parameters inside both domains such that curve and surface evaluated there agree with each other and with the point within the tolerance; the operands are not modified. A curve and a surface farther apart than the tolerance give no result, and an isolated transversal crossing of a curve with a surface patch is reported.",
     "pairs of clamped curves and well-shaped patches, with constructed crossings (25 degrees or more, away from knots of the curve) or separated; curves that run along the surface are left out",
     "One test prints results for one pair.",
     ["csx.h", "separability.h"],
     [("subdivision and Newton refinement", "csx.h csx"), ("separation test", "separability.h")])
prop("C18", "Boundary intersections of two surfaces lie on both surfaces",
     "Every boundary intersection reported for two surfaces is a point of the edge it names, at the reported edge parameter, and lies on the other surface at the reported parameters within the tolerance; the parameters reported for each surface are those of that surface. An isolated transversal crossing of an edge with the other surface is reported, and no two reported points are closer than the tolerance. Surfaces that are apart have no boundary intersections. Pairing the points uses every point exactly once, joins each with the nearest of those left, and leaves at most one alone.",
     "pairs of well-shaped clamped patches, rational or not, with a constructed crossing of an edge or separated, in either order",
     "One test prints results for one pair of surfaces.",
     ["boundary_intersection.h", "csx.h", "cm_hash.h"],
     [("edges of one surface against the other", "boundary_intersection.h find_boundary_intersections"), ("duplicate removal", "cm_hash.h Vec3Set")])
prop("C19", "Surface intersection reports common points only and misses no crossing",
     "The search for start points of the intersection of two surfaces reports branches whose ends, and points which, lie on both surfaces at the reported parameters within (a small multiple of) the tolerance; it terminates, reports nothing for surfaces that are apart, and reports at least one branch or point for surfaces that cross transversally, flat or curved and of any size.",
     "pairs of well-shaped clamped patches, crossing at 25 degrees or more inside pieces of both, or apart",
     "Two tests print results for two pairs.",
     ["ssx.h", "gauss_map.h", "separability.h"],
     [("loop detection and boundary intersections", "ssx.h ssx"), ("uv refinement", "ssx.h improve_uv")])
prop("C20", "Point inversion returns the parameter of the closest point",
     "Inverting a point that lies on a curve or surface, or off it along a normal by less than the radius of curvature, from a start close enough for Newton's method, returns parameters that evaluate to the closest point within the tolerances, the ends of the domain included. From any start the returned parameters are in the domain and the search terminates. A step in the tangent plane is found whenever the tangents are independent.",
     "regular clamped curves and well-shaped surfaces, points on them or offset along the normal, nearby starting parameters; arbitrary starts, points and iteration limits for the safety part",
     "No test inverts a point.",
     ["point_inversion.h"],
     [("Newton iteration", "point_inversion.h point_inversion_curve / point_inversion_surface")])
prop("C21", "Bounding boxes obey the algebra of boxes",
     "Intersection tests, intersections, unions, expansion, volume and the box of a set of points agree with their set definitions for all axis-aligned boxes, including touching, nested, degenerate, empty and disjoint ones; results are symmetric where the definition is and operands are not modified by queries.",
     "all pairs of boxes with finite corners, including zero-extent boxes and touching faces",
     "Boxes are only exercised indirectly.",
     ["aabb.h"],
     [("box operations", "aabb.h AABB")])
prop("C22", "BVH queries return exactly the boxes a brute-force scan returns",
     "A hierarchy built over any collection of boxes finds exactly the objects whose boxes overlap the query, or contain the query point, and pairwise traversal of two hierarchies reports exactly the overlapping pairs, with no object lost or duplicated. Every node's box contains its children.",
     "collections of 1..200 boxes, including identical, nested, degenerate and far-apart ones, and all queries",
     "No test builds a hierarchy.",
     ["bvh.hpp", "aabb.h"],
     [("construction", "bvh.hpp build_bvh"), ("queries", "bvh.hpp traverse_bvh / contains_point / intersect_bvh_iterative")])
prop("C23", "The k-d tree answers like a plain list of its points",
     "After any interleaving of bulk construction and insertions, the tree's size, range queries and nearest-neighbour queries agree with a linear scan over the points it was given, including duplicate points, points on the query boundary and any dimension order of insertion. Queries never change the answers of later queries.",
     "operation histories over grids (many ties) and arbitrary points",
     "One test runs one small fixed point set.",
     ["kdtree.h"],
     [("construction", "kdtree.h build"), ("insertion", "kdtree.h insert"), ("range search", "kdtree.h rangeSearch"), ("nearest neighbour", "kdtree.h nearestNeighbor")], over=("inputs", "histories"))
prop("C24", "The planar convex hull is the convex hull",
     "For any set of planar points that are not all collinear, the hull returned consists of input points only, is a strictly convex counter-clockwise polygon without repeated vertices, and contains every input point. Points are told apart to a billionth of the extent. The result as a polygon does not depend on the order or repetition of the input points. Points on a line have the two ends as their hull, one point itself, and the hull function that classifies its result says which of these it is and leaves its input as it was.",
     "planar point sets of up to 60 points with duplicates and collinear runs",
     "One test prints the hull of one fixed set.",
     ["_convexhull/convexhull2d.h"],
     [("Graham scan", "_convexhull/convexhull2d.h convex_hull2d"), ("classified hull", "convexhull.h convex_hull")])
prop("C25", "The spatial convex hull contains all points and only input vertices",
     "For any set of spatial points, the returned hull vertices are input points, every input point lies inside their convex hull (the support in every direction is unchanged), and, for points in general position, no returned vertex is interior. No points, one point and points on a line are reported as such.",
     "spatial point sets of up to 60 points, in general position, on lattices, and coplanar",
     "Only exercised through two fixed separability tests.",
     ["_convexhull/quickhull.hpp", "convexhull.h"],
     [("quickhull", "_convexhull/quickhull.hpp convex_hull3d"), ("dispatch for flat sets", "convexhull.h convex_hull")])
prop("C26", "Separation tests never separate sets that intersect",
     "A separation verdict from the spatial or planar separating-axis tests, the convex-hull distance test or the box test is only given for point sets whose convex hulls really are disjoint, the distance test reports intersection for hulls that overlap substantially and separation for hulls that are clearly apart, the distance between hulls is right within the tolerance, and verdicts are symmetric and unaffected by moving or scaling both sets together. A polygon without vertices is refused.",
     "pairs of point sets with hulls overlapping, nested, touching, close and far apart",
     "One test evaluates a few fixed pairs.",
     ["separability.h", "gjk.h"],
     [("GJK", "gjk.h GJK"), ("planar SAT", "separability.h SAT2D"), ("spatial SAT", "separability.h SAT3D"), ("boxes", "separability.h AABBTest")])
prop("C27", "Spherical separability verdicts are witnessed by a separating plane",
     "When two sets of directions are reported as separable by a plane through the centre (or about a given centre), such a plane exists; sets that share a direction or whose cones overlap are never reported separable, and clearly separated cones are; the wedge test finds every pair of sets in disjoint wedges, narrower than a half-plane, about a coordinate axis.",
     "pairs of direction sets inside cones of varying aperture and distance",
     "One test evaluates one fixed pair.",
     ["separability.h", "gauss_map.h"],
     [("spherical test", "separability.h SphericalSeparabilityTest / SphericalCentralProjectionTest")])
prop("C28", "Point-in-polygon and polygon relations agree with exact geometry",
     "For any simple polygon, the point-in-polygon test agrees with the exact winding answer for points off the boundary regardless of vertex order or starting vertex, and the relation reported for two convex polygons is the true one (disjoint, touching, intersecting).",
     "simple polygons with integer coordinates in either orientation, convex and not; convex pairs",
     "One test evaluates fixed polygons.",
     ["polygon.h"],
     [("ray casting", "polygon.h pointInPolygon2D"), ("separating axes", "polygon.h polygonRelationship2D")])
prop("C29", "Closest points on lines, rays, segments and triangles are closest",
     "The closest point returned for a line, ray, segment, triangle or the surface of a tetrahedron lies on that object and no other point of the object is nearer, for any position of the query point and any non-degenerate object; of a triangle without area, the side nearest to the query counts.",
     "all objects with finite coordinates and all query points, including projections on every feature",
     "No test calls these functions.",
     ["closest_point.h"],
     [("projections", "closest_point.h")])
prop("C30", "Plane constructions and intersections satisfy their defining equations",
     "Planes built from points, a normal and an origin, or coefficients contain the points that define them; signed distances, projections and the intersections of planes with (infinite) lines, segments, planes and triples of planes satisfy the equations of every object involved, and non-intersecting or degenerate configurations are reported as such.",
     "planes, rays, segments with finite coordinates in general position and parallel ones",
     "No test touches planes.",
     ["plane.h"],
     [("constructors", "plane.h plane"), ("intersections", "plane.h planePlaneIntersection / planePlanePlaneIntersection / planeRayIntersection / planeLineIntersection")])
prop("C31", "Matrix algebra and small linear solves are exact up to rounding",
     "Products, transposes, determinants, inverses and solutions of linear systems agree with their definitions: a matrix times its inverse is the identity, a solved system satisfies its equations, products are associative and transposes reverse them; singular systems are reported, never silently answered.",
     "well-conditioned and singular matrices of size 1..8",
     "Matrices are only exercised indirectly.",
     ["matrix.h", "newthon2.h", "utils.h"],
     [("2x2", "matrix.h Matrix2x2 / solve2x2"), ("dense", "matrix.h MatrixD"), ("Cholesky", "newthon2.h cholesky / solveLinearSystem")])
prop("C32", "Binomial coefficients are exact over the whole table",
     "For every pair 0 <= k <= n <= 30 the tabulated binomial coefficient is exact; it is zero for k outside 0..n, and n outside the table is rejected.",
     "all pairs of the finite table, enumerated completely",
     "Only used indirectly with small arguments.",
     ["binom.h"],
     [("table", "binom.h binomial_coefficient")])
prop("C33", "Monomial and Bezier forms of a patch describe the same surface",
     "Converting a Bezier patch to the monomial form and back reproduces its control points, evaluating the monomial form reproduces the patch, and partial derivatives and normal fields computed in monomial form equal those of the patch.",
     "polynomial Bezier patches with degrees 1..6 in each direction",
     "One test prints a conversion of one patch.",
     ["monomial.h", "binom.h"],
     [("basis change", "monomial.h bpmat"), ("conversion", "monomial.h Monomial2D / to_bezier"), ("derivatives", "monomial.h computePartialDerivative")])
prop("C34", "The Gauss map of a patch is its normal field",
     "The Gauss map computed for a polynomial Bezier patch evaluates, at every parameter, to a vector parallel to and oriented as the cross product of the patch's partial derivatives, the maps of the four quarters of a patch are its Gauss map on those quarters, and its separability verdicts are only positive when the normals of the two patches really are separated.",
     "polynomial Bezier patches with degrees 1..4",
     "One test prints the Gauss map of one patch.",
     ["gauss_map.h", "monomial.h"],
     [("Gauss map", "gauss_map.h gaussMap"), ("separability", "gauss_map.h gaussMapSeparability")])
prop("C35", "Adaptive integration meets its tolerance",
     "The number of evaluations is bounded by the depth limit. Integrating a smooth function over any finite interval returns its integral within a small multiple of the requested tolerance and reports an error estimate below the tolerance unless the depth limit was reached; the result is exact for cubics, zero over an empty interval, changes sign with the orientation of the interval and is additive, and the inversion returns an upper limit whose integral is the requested value.",
     "polynomials, trigonometric and exponential integrands with known antiderivatives, intervals and tolerances",
     "One test integrates one curve.",
     ["integrate.h"],
     [("adaptive Simpson", "integrate.h integrate"), ("inversion", "integrate.h find_t1_newton")])
prop("C36", "Bounded minimisation stays in bounds and finds the minimum",
     "The bounded minimiser returns a point within the bounds and the function's value at that point, evaluates the function only inside the bounds and at most the permitted number of times, and for unimodal functions lands within the requested tolerance of the minimiser; success flag, status and message agree; invalid bounds are rejected.",
     "unimodal functions with known minimisers (inside or at an end), multimodal functions for the safety part, bounds and tolerances",
     "One test minimises one fixed function.",
     ["minimize_scalar.h"],
     [("golden section and parabolic steps", "minimize_scalar.h")])
prop("C37", "Multivariate Newton minimisation converges on convex problems",
     "On strictly convex quadratic (and smooth strictly convex) functions of 1 to 4 variables the Newton minimiser converges to the minimiser from any start at moderate distance, it reaches the least value of sums of squares whose minimisers fill a line or a plane, never returns a point with a larger value than its start, and numerical gradients and Hessians approximate the true ones; it terminates on every input, values that are not numbers included.",
     "random convex functions and starts",
     "Two tests minimise fixed functions.",
     ["newthon2.h"],
     [("Newton with line search", "newthon2.h newtonsMethod"), ("derivatives", "newthon2.h")])
prop("C38", "Serialising curves and reading them back loses nothing",
     "Any curve or list of curves that is serialised and read back, from memory or from a file, has bit-identical degree, control points, knots and periodicity, hence the same points; serialisation is deterministic and re-serialising yields the same bytes. A write that cannot be completed is reported.",
     "all curves (clamped and periodic, rational or not, any finite doubles) and lists of them, including the empty list",
     "No test serialises a curve.",
     ["serialization.h", "nurbs.h"],
     [("curve format", "serialization.h serializeNURBSCurve / deserializeNURBSCurve"), ("lists and files", "serialization.h")])
prop("C39", "Array views index, slice and reshape like n-dimensional arrays",
     "Any chain of slices, index selections and reshapes of an array view reads and writes exactly the elements that the same operations select in an n-dimensional array, views share the underlying data, and out-of-range or malformed requests (and reshapes that would need a copy) are rejected with an exception instead of touching other memory.",
     "shapes of 1..4 dimensions and chains of operations with positive and negative steps",
     "One test slices one fixed array.",
     ["memoryview.h"],
     [("slicing", "memoryview.h slice"), ("reshape", "memoryview.h reshape"), ("element access", "memoryview.h operator()")], over=("inputs", "histories"))
prop("C40", "Array serialisation round-trips and rejects malformed bytes",
     "Serialising an array view and reading it back with the same element type reproduces shape and elements; any other byte string, including every truncation and corruption of a valid one, is either rejected with an exception or read without touching memory outside the given bytes.",
     "views of several element types and shapes, contiguous or sliced; mutated and arbitrary byte strings",
     "One test writes one array to a file and reads it back.",
     ["memoryview.h"],
     [("format", "memoryview.h serialize / deserialize")], tech="property-based testing and coverage-guided fuzzing")
prop("C41", "Polyline assembly uses every segment once and joins what can be joined",
     "Assembling segments into polylines uses every segment exactly once, consecutive vertices of a polyline are the end points of input segments, branches that form a single chain or a single loop come out as one polyline (marked closed for a loop, without repeating its first point) whatever the order and direction of the segments.",
     "random sets of segments from open chains, loops and disjoint unions, shuffled and flipped",
     "No test includes the header.",
     ["polyline.h"],
     [("assembly", "polyline.h assemble_polylines")])
prop("C42", "STEP export describes the exported geometry",
     "The entities written for a curve or surface carry unique increasing ids, the edges of a face run along their curves between their vertices and form a closed loop, every referenced geometric id of the curve, surface and topology entities is defined, and reading the control points, weights, degrees, multiplicities and knots back gives the exported geometry within the printed precision.",
     "clamped curves and surfaces, rational and not",
     "One test writes one file and never reads it.",
     ["nurbs.h", "utils.h"],
     [("curve export", "nurbs.h NURBSCurve::toSTEP"), ("surface export", "nurbs.h NURBSSurface::toSTEP / writeSTEPFile")])
prop("C43", "Vector operations obey the laws of vector algebra",
     "Addition, scaling, dot and cross products, lengths, distances, normalisation, projection, component access and spherical coordinates of 2-, 3- and 4-component vectors (normalisation of the first two only) agree with their definitions to double precision for all finite inputs, and batch operations equal the element-wise ones; three-component vectors are ordered by x, then y, then z.",
     "vectors of moderate magnitude in all sign and size combinations",
     "Only exercised indirectly.",
     ["vec.h"],
     [("vector types", "vec.h vec2 / vec3 / vec4")])
prop("C44", "Segment distance and central projection satisfy their definitions",
     "The parameters reported for two segments lie in [0,1], no other pair of points of the two segments is closer than the points at those parameters, and the reported distance is the distance between them, parallel, crossing and degenerate segments included. Central projection maps a point to the intersection of the line from the centre with the plane z=0.",
     "pairs of skew, crossing, collinear and parallel segments; centres and points off the plane of the centre",
     "No test calls these functions.",
     ["numeric_utils.h"],
     [("closest points of lines", "numeric_utils.h segmentsDistance")])
prop("C45", "Joining two curves gives a curve through both",
     "Joining two open curves of equal degree that share one end point yields one clamped curve of that degree that traces all points of both, one after the other and at the pace of each, whichever ends touch and whatever their knots and weights; curves that share no end point or differ in degree are not joined, and the operands are not modified.",
     "pairs of clamped curves with coinciding ends in all four combinations, or none",
     "No test joins curves.",
     ["nurbs.h"],
     [("join", "nurbs.h NURBSCurve::join")])
prop("C46", "Hash containers keyed by vectors tell different keys apart",
     "Any history of insertions, updates, look-ups and removals on a hash set or map keyed by plane vectors, space vectors or parameter pairs answers like an ordered container keyed by the coordinates: keys with equal coordinates (zeros of either sign included) are one key, keys that differ by more than the decimals of a double are different keys, whatever their magnitude. Equal keys have equal hashes and equality is symmetric.",
     "histories of up to 80 operations over pools of keys that are equal, nearly equal, far apart, of magnitude up to 1e9",
     "No test uses the containers directly.",
     ["cm_hash.h", "vec.h", "separability.h"],
     [("quantisation", "cm_hash.h quantize"), ("vectors", "vec.h Vec2Hash / Vec3Hash / Vec2Equal / Vec3Equal"), ("parameter pairs", "cm_hash.h PairDoubleHash")], over=("inputs", "histories"))
prop("C47", "Operations have no hidden state and may run in several threads",
     "Evaluating, intersecting, splitting, inverting, querying or exporting leaves the objects it is given as they were, gives the same result (bit by bit) whenever it is repeated, whatever other operations ran in between, and gives that same result when several threads run operations on the same objects at once, without data races.",
     "sets of shared objects, sequences of 2 to 8 operations of 40 kinds on them, repeated in other orders and from 2 to 4 threads at once",
     "Every test is one thread that calls each operation once on its own objects; neither repetition nor interleaving is exercised, and a data race does not show in a result that is printed.",
     ["nurbs.h", "nurbs_utils.h", "ccx.h", "csx.h", "ssx.h", "kdtree.h", "bvh.hpp", "point_inversion.h", "newthon2.h", "monomial.h", "gauss_map.h"],
     [("step counter", "ssx.h counter"), ("const evaluation", "nurbs.h evaluate / derivative / split / decompose"), ("queries", "kdtree.h rangeSearch / nearestNeighbor, bvh.hpp traverse_bvh"), ("work on copies", "csx.h NURBSCurveSurfaceIntersector")],
     over=("inputs", "histories", "schedules"), tech="property-based testing, threads under the thread sanitizer",
     note="Threads are scheduled by the operating system; the thread sanitizer reports unordered conflicting accesses of the schedules that ran, whether or not they collided. Writes to the standard error stream are not judged.")
prop("C48", "Curves and surfaces with unclamped knots keep their shape",
     "For curves and surfaces whose knots are not clamped at one or both ends, periodic curves included, evaluation and derivatives on the range where the basis functions add up to one are those of the rational B-spline, inserting knots does not change the shape, splitting yields two pieces that equal the original on their sides of the parameter, isocurves lie on the surface, and the box contains it.",
     "curves of degree 1..6 and surfaces of degrees 1..4 with uniform or uneven unclamped knots, with repeated knots, or made periodic; histories of insertions and splits",
     "No test uses knots that are not clamped, other than to print a periodic knot vector.",
     ["nurbs.h", "nurbs_utils.h"],
     [("span search", "nurbs_utils.h find_span"), ("insertion", "nurbs_utils.h knot_insertion"), ("splitting", "nurbs.h NURBSCurve::split / split_surface_u / split_surface_v"), ("periodic knots", "nurbs.h generate_knots_periodic")], over=("inputs", "histories"))
prop("C49", "Table columns, texts of numbers and lists, and random vectors are what they say",
     "A column taken from a table has one entry per row, the one at that index, whatever the vector held before, and an index that some row does not have is refused; a number written for exchange reads back to fourteen digits and a list as its entries in order separated by commas; random vectors lie in the range asked for and are as many as asked for.",
     "tables up to 12 by 9 with rows of unequal length, finite numbers of all magnitudes, lists of up to 12 entries",
     "No test calls these helpers.",
     ["utils.h"],
     [("columns", "utils.h vectorColumn"), ("texts", "utils.h formatReal / vectorToString"), ("random vectors", "utils.h random_vectors3"), ("spacing", "utils.h calc_epsilon")])
prop("C50", "Operations give back the memory they take, failing calls included",
     "Evaluating, cutting, converting, intersecting and querying objects, building, copying, assigning and destroying trees, hierarchies, array views, curves and surfaces, and calls that end in an exception leave as much memory in use as before when they are repeated; what a result owns is freed with it, and nothing is freed twice. (The data of a deserialised view belong to the caller.)",
     "the operations of C47, lives of owning objects with assignment over one another, failing calls",
     "Tests do not measure memory.",
     ["kdtree.h", "bvh.hpp", "memoryview.h", "nurbs.h", "_convexhull/quickhull.hpp"],
     [("tree nodes", "kdtree.h KDTree::~KDTree / build"), ("owned data of a view", "memoryview.h MemoryView::operator= / ~MemoryView"), ("boxes", "bvh.hpp BVHNode::operator=")])
