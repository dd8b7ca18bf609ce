#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

I = "src/math/interval.rs"; G = "src/math/interval_as_gfloat.rs"; S = "src/math/scalar.rs"
T = "src/math/transform.rs"; TI = "src/math/transform_inverse_impl.rs"; V = "src/math/vector.rs"
VT = "src/math/vector_traits.rs"; VI = "src/math/vectori.rs"; B = "src/geometry/bbox.rs"
PR = "src/geometry/primitive.rs"; R = "src/geometry/ray.rs"; SP = "src/geometry/sphere.rs"
C = "src/cameras/camera.rs"; TL = "src/cameras/thin_lens.rs"

prop("C01", "Interval arithmetic always encloses the exact real result",
 "For every pair of valid finite f32/f64 intervals (and every interval/scalar mix), negation, addition, subtraction, multiplication, division, reciprocal, squaring, square root and absolute value, in operator and assigning form, return a valid interval (lower <= upper, no NaN) containing the exact real result for every choice of real numbers from the operands. This is preserved through every sequence of such operations as long as no bound becomes infinite. Dividing by an interval that contains zero yields the whole real line, and the square root of an interval dipping below zero encloses the roots of its nonnegative part.",
 ["inputs","histories"], "all operand intervals over a value alphabet spanning zeros, subnormals, every magnitude, non-dyadic numbers and the largest finite values; all operation histories of a two-register interval machine up to a depth",
 "The three interval tests iterate one fixed CGAL recurrence each and only compare iteration counts; none of them multiplies two sign-straddling intervals or looks at subnormals or huge magnitudes.",
 [I, G], [("one-ulp outward widening by next_up/next_down", I), ("sign-case analysis in Mul/Div", I)],
 ["Interval operators, square(), sqrt(), abs(), recip()"])
prop("C02", "Interval arithmetic is tight: bounds within a few ulps of the exact range",
 "The bounds returned by interval negation, addition, subtraction, multiplication, division by an interval or scalar not containing zero, squaring and square root exceed the exact range of results by at most four representable numbers on each side (negation is exact), so a point interval stays a few ulps wide after one operation. A square never has a lower bound more than a few ulps below zero. Absolute value never returns a bound larger in magnitude than those of its operand.",
 ["inputs"], "all pairs of operand intervals over the same alphabet as C01, f32 and f64",
 "The existing tests pin three aggregate iteration counts on moderate positive values; a result widened to the whole line in some sign case would not change them.",
 [I], [("exactly one next_up/next_down per bound", I)], ["Interval operators, square(), sqrt(), abs()"])
prop("C03", "Interval sin, cos and tan enclose every value over the interval",
 "For every finite f32/f64 interval, of any width and position, the interval sine, cosine (separately or together) and tangent contain the function value at every point of the interval; in particular an interval containing a crest or trough of the sine or cosine has 1 or -1 in its result. The sine and cosine bounds stay within one ulp of [-1, 1] and, for intervals narrower than pi, within a few ulps of the exact range; the tangent of a point interval away from the poles is a few ulps wide.",
 ["inputs"], "all intervals with endpoints on a lattice of multiples of pi/k with ulp neighbours plus a magnitude ladder; every f32 as a point interval (thorough)",
 "The test samples random intervals no wider than pi from one seed; intervals between pi and 2*pi wide and endpoints exactly at 0 are never exercised.",
 [G, S], [("endpoint sign test of the derivative and width test", G)], ["GFloat::sin/cos/sin_cos/tan for Interval"])
prop("C04", "Interval inverse trigonometry encloses every value over the interval",
 "For every f32/f64 interval inside [-1, 1] the interval arcsine and arccosine, for every finite interval the arctangent, and for every pair of finite intervals (y, x) the two-argument arctangent are valid intervals containing the function value at every point (pair of points) of the operands, except that (0, 0) need not be covered and a zero y counts as positive zero. The results never extend more than an ulp beyond the principal range of the function, and for point operands away from the branch cut and the axes they are at most a few ulps wide.",
 ["inputs"], "all intervals over a lattice of [-1,1] including endpoints and neighbours; all pairs of y/x intervals over a signed magnitude ladder including zero-touching and straddling ones",
 "Only atan2 is tested and only at random point intervals off the axes; arcsine and arccosine are never tested.",
 [G, S], [("monotone map plus ulp widening plus clipping to the principal range", G), ("quadrant case split of atan2", G)],
 ["GFloat::asin/acos/atan/atan2 for Interval"])
prop("C05", "Interval comparisons are certain; set and lattice operations are exact",
 "A strict interval or interval/scalar comparison and the sign predicates report true only if the relation holds for all members, equality only for identical point intervals, and every such certain strict relation is reported. Membership, sameness, range tests, union, intersection of overlapping intervals, minimum and maximum of intervals are exact with respect to the sets they denote, and ordering a pair, clamping to point limits (without leaving them) and taking the sign each enclose the result for every choice of members.",
 ["inputs"], "all pairs and triples of intervals over an alphabet with touching, nested, overlapping, disjoint and point intervals, both widths",
 "No existing test compares intervals, takes their union/intersection or uses min/max/clamp/sign on them.",
 [I, S], [("partial_cmp on disjointness", I), ("componentwise min/max", I)], ["PartialOrd/PartialEq, contains, union, intersect, min, max, min_max, clamp, signum, is_* predicates"])
prop("C06", "Interval constants and conversions enclose the value they stand for",
 "The interval constants for pi, 2*pi, pi/2 and pi/4 contain the true mathematical constants and are at most two ulps wide, and the lower/upper constants of each float width bracket them. Converting a scalar into an interval (from either float width or a 64-bit integer) gives an interval containing the exact value, exact when representable; collapsing an interval with finite bounds to a scalar gives a number inside it.",
 ["inputs"], "all constants; all values of a dense f32/f64/i64 alphabet; all intervals over it",
 "No test reads these constants or converts in either direction except for exact doubles.",
 [S, G, I, VI], [("pi_lower/pi_upper tables", S), ("From/approx", I)], ["Interval::pi() etc., from_f32/from_f64/from_i64, From, approx(), to_f32/to_f64/to_i64"])
prop("C07", "Stepping a float up or down gives exactly the adjacent float",
 "For every f32 and f64, stepping up returns the least representable number strictly greater than it (from the largest finite value: positive infinity; from negative infinity: the lowest finite value; from either zero: the smallest subnormal), stepping down is its mirror image, the far infinity and NaN are fixed points. Stepping an interval steps both bounds.",
 ["inputs"], "all 2^32 f32 bit patterns; all f64 bit patterns of every exponent with boundary and lattice mantissas",
 "Only used indirectly by tests, with a few normal magnitudes.",
 [S, G], [("integer increments of the bit pattern", S)], ["GFloat::next_up/next_down"])
prop("C08", "Scalar classification, ordering helpers, casts and limits are faithful",
 "For every float, exactly one of NaN, finite and infinite classification is reported and it is the right one, also for intervals of floats (an interval is infinite only if both bounds are the same infinity, finite only if both are finite). For every scalar type, minimum, maximum, ordered pair, clamp, range test, square, absolute value, sign and sign predicates agree with their mathematical definition on ordered values, the type limits and unit constants are the true ones, casts between floats and 64-bit integers agree with the native casts, and the elementary functions (reciprocal, square root, sine, cosine, tangent and their inverses) are accurate to a few ulps.",
 ["inputs"], "all f32 bit patterns for unary facts (thorough; a dense subset in quick), all u8/i8 pairs and triples, boundary lattices for the wider types",
 "No test calls these helpers directly.",
 [S, G], [("trait default methods", S)], ["Scalar, SignedScalar, GFloat methods"])
prop("C09", "Approximate equality is symmetric and honours both tolerances",
 "Two finite floats compare approximately equal exactly when they differ by less than the absolute tolerance (1e-6) or by less than the relative tolerance (1e-4 for f32, 1e-6 for f64) times the larger magnitude; the comparison is reflexive and symmetric, and integers compare approximately equal only when equal. A vector, point, normal, matrix or transform is approximately equal to another exactly when every component (both the matrix and the stored inverse for a transform) is; an interval equals another when both bounds are and equals a scalar only when it also contains it.",
 ["inputs"], "all pairs over a magnitude/offset lattice around both tolerance thresholds; every single-component perturbation of every aggregate type",
 "Tests use approximate equality as their own oracle and never test it, so a weakened comparison silently weakens them.",
 [S, I, V, T], [("fequals", S), ("componentwise almost_eq", V)], ["GFloat::fequals, AlmostEqual::almost_eq"])
prop("C10", "Vector, point and normal algebra acts componentwise on every dimension",
 "For 2-, 3- and 4-component vectors, points and normals over integers and floats: construction, named access, indexing and mutation address the same component; addition, subtraction, negation, products and quotients by scalars and component vectors, minimum and maximum, in plain and assigning form, act on each component independently; dot product, squared norm and squared distance are the sums of products; the cross product follows the right-hand rule. Conversions and mixed point/vector arithmetic (point - point, point +- vector, vector + point) preserve components, and the default is the zero vector.",
 ["inputs"], "all pairs of component tuples over small exact alphabets, for every dimension, marker type and scalar type",
 "Tests cover one f64 subtraction, basis-vector cross/dot products and two dot products in dimension 3 only.",
 [V, VT], [("generic loops over components", V)], ["GenericVector operators and methods"])
prop("C11", "Norms, distances and normalization are Euclidean",
 "For every vector whose squared length neither overflows nor underflows, the norm is the Euclidean length, the distance between two vectors is the norm of their difference, and normalizing yields a vector of norm one, parallel to and pointing the same way as the original, up to a few ulps. The cross product is perpendicular to both operands, antisymmetric, and its squared norm satisfies Lagrange's identity.",
 ["inputs"], "all component tuples over a signed magnitude ladder for dimensions 2-4, f32 and f64, vectors, points and normals",
 "Tests normalize three f64 vectors with all-positive components of similar size.",
 [V, VT], [("square_norm/sqrt/divide", VT)], ["norm, square_norm, distance, square_distance, normalize, cross"])
prop("C12", "4x4 matrix products, transposes and accessors are exact linear algebra",
 "Matrix multiplication, scaling by a scalar, transposition, identity, zero, row/column extraction and indexing agree with the mathematical definitions for every integer and float matrix (exactly when the arithmetic is exact): products are associative, the identity is neutral, the transpose reverses products. Reading and writing through any accessor addresses the same entry.",
 ["inputs"], "all products of single-entry and structured matrices, all pairs of permutation/signed/shear matrices, dense matrices over small integer alphabets",
 "Tests multiply one pair of integer matrices and transpose one matrix.",
 [T], [("triple loop product", T)], ["Matrix4x4 operators and accessors"])
prop("C13", "Matrix inverse is the two-sided inverse of every invertible matrix",
 "For every well-conditioned invertible 4x4 float matrix whose determinant and cofactors stay in range, multiplying it with its computed inverse on either side gives the identity up to rounding. Inverting twice returns the original, and the inverse of a product is the reversed product of the inverses.",
 ["inputs"], "all signed permutation matrices, all products of elementary matrices up to a depth, all dense matrices over a small alphabet of entries with nonzero determinant",
 "No test inverts a matrix directly; perspective projection inverts one sparse pattern and its inverse is never inspected.",
 [TI, T], [("adjugate / determinant", TI)], ["Matrix4x4::inverse"])
prop("C14", "A transform always carries the inverse of its own matrix",
 "For every transform built from translations, non-zero scales, rotations about any axis, look-at and perspective constructors, and by any sequence of composition and inversion, the stored inverse matrix times the matrix is the identity up to rounding, inversion swaps the two, and inverting twice gives back the same transform. Mapping a point, vector, normal, ray or (for axis-preserving transforms) box forward and then backward returns the original up to rounding.",
 ["histories"], "all words over a generator alphabet of transforms with composition and inversion up to a depth (explicit-state search), f32 and f64",
 "One test checks rotate(a)*rotate(-a) for one angle; inverses of translations, scales, look-at, perspective and compositions are never checked.",
 [T, TI, R], [("paired m/minv construction", T), ("Mul composes inverses in reverse order", T)], ["Transform::matrix/inverse_matrix/inverse/map/map_inverse"],
 state=[{"name":"Transform{m,minv}","meaning":"matrix and its inverse kept in step","where":T}])
prop("C15", "Composing transforms maps exactly like applying them one after another",
 "For every sequence of transforms, mapping a point (and, for affine transforms, a vector, normal or ray) by the composition equals mapping it by the right operand first and then by the left, and composition is associative with the identity neutral, up to rounding. Mapping a ray maps its origin as a point and its direction as a vector and keeps its maximum parameter, so evaluating an affinely mapped ray at a parameter equals mapping the evaluated point; vectors ignore translation and a point minus a point maps like a vector.",
 ["histories","inputs"], "all words over the generator alphabet up to a depth, applied to an alphabet of points, vectors, normals and rays",
 "Composition is only tested as rotate(a)*rotate(-a); rays are never mapped in a test.",
 [T, R], [("Mul for Transform", T), ("map_point/map_vector/map_normal", T)], ["Transform * Transform, Transform::map, Ray::eval"])
prop("C16", "Transform constructors realise the geometry they are named after",
 "Translation adds its vector to points and leaves vectors alone; scaling multiplies components; rotation about x, y, z or any non-zero axis turns vectors counter-clockwise (right-handed) by the angle, keeping lengths and the axis. Look-at maps the eye to the origin, the target onto the negative z axis at its distance, keeps lengths and handedness, and puts the up vector in the upper half of the y-z plane; perspective maps the frustum of the field of view between the near and far planes onto [-1,1] x [-1,1] x [0,1] with near to 0 and far to 1, keeping left/right and up/down.",
 ["inputs"], "all angles on a lattice of pi/12 multiples and irregular values, all axes/eye/target/up over small coordinate alphabets, all fov/near/far over a ladder; f32 and f64",
 "Tests sample 20 random cases of rotation, look-at and perspective in f64 with one seed; translation and scale are never tested and f32 never is.",
 [T], [("constructor matrices", T)], ["Transform::translate/scale/rotate*/look_at/perspective"])
prop("C17", "Normals stay perpendicular to the surfaces they belong to under transforms",
 "For every affine transform and every normal and tangent vector, the inner product of the mapped normal with the mapped vector equals that of the originals up to rounding, for both forward and inverse mapping. Hence a mapped normal is perpendicular to the mapped surface, and mapping normals is linear.",
 ["inputs","histories"], "all affine words over the generator alphabet up to a depth (including non-uniform scale and mirrored ones), all normal/vector pairs over a component alphabet",
 "No test maps a normal.",
 [T], [("map by the inverse transpose", T)], ["Transform::map/map_inverse on Normal3"])
prop("C18", "Bounding boxes form the lattice of axis-aligned closed boxes",
 "A box built from any two corners contains exactly the points between them componentwise (faces included); the union of two boxes is the smallest box containing both, the intersection contains exactly the common points, and overlap is reported exactly when two boxes of positive volume share interior volume, never with the default box. The default box is empty and neutral for union, in operator and assigning form; diagonal, center, extreme coordinates and the largest extent (axis and range) describe the same box as long as sums and differences of its coordinates stay in range.",
 ["inputs"], "all pairs of boxes over a coordinate alphabet with equal, touching, nested, flat and disjoint cases, all points of a finer lattice, all union histories up to length 3",
 "The single box test only tests ray intersection.",
 [B, PR], [("componentwise min/max", B)], ["Bbox3::new/union/intersect/overlaps/inside/diagonal/center/max_extent, +, +="])
prop("C19", "Transforming a box gives the tight bounding box of the transformed box",
 "For every affine transform and every box, the mapped box contains the image of every point of the box and touches the images of its corners on all six sides, up to rounding; the same holds for inverse mapping, and an empty box stays empty. Bounds of transformed objects therefore always enclose them.",
 ["inputs","histories"], "all affine words over the generator alphabet up to a depth, all boxes over a coordinate alphabet, forward and inverse",
 "No test maps a box.",
 [B, PR], [("Arvo's method per matrix entry", B)], ["Transform::map/map_inverse on Bbox3"])
prop("C20", "Ray/box intersection reports exactly the parameters inside the box",
 "For every ray with a non-zero direction (components may be zero) and every box, an intersection is reported exactly when some parameter in [0, tmax] puts the ray inside the closed box, and the reported pair is the first and last such parameter, up to rounding; the yes/no query agrees. Rays running inside a face or edge count as hits, and an empty box is never hit.",
 ["inputs"], "all origins over a lattice covering inside, face, edge, corner and outside positions, all direction sign/zero/slope patterns, boxes including flat ones and the empty one, all tmax classes",
 "The test shoots 600 random rays with all direction components non-zero, so parallel, grazing and face-coplanar rays are never exercised.",
 [B], [("slab method", B)], ["Bbox3::intersect_ray, do_intersect"])
prop("C21", "A box hit reports the entry point, its face and a consistent frame",
 "For every ray that hits a non-empty box, the reported point lies on the ray at the reported parameter and on a face of the box, the normal is the unit outward normal of that face, and the two tangents are unit and perpendicular to each other and to the normal. For a ray starting outside, the parameter is the entry parameter and the normal opposes the ray direction unless the point lies on more than one face. A hit is reported exactly when the yes/no query reports one.",
 ["inputs"], "all rays of the C20 lattice against all boxes",
 "No test looks at the surface data of a box hit.",
 [B, PR], [("nearest-face search", B)], ["IntersectsRay::intersect for Bbox3"])
prop("C22", "Ray/sphere intersection returns the first unclipped hit and nothing else",
 "For every sphere, optionally clipped to a z range and a maximum azimuth, and every ray, the hit reported is the smallest parameter in [0, tmax] at which the ray meets the kept part of the surface, and no hit is reported when there is none, up to rounding at grazing and clip-boundary rays; the yes/no query agrees. This includes rays starting inside, rays not of unit length, rays through the poles of a sphere that is not clipped, and hits whose near intersection is clipped away while the far one is kept.",
 ["inputs"], "all origins/targets over lattices inside, on and outside the sphere, radii, z-range and azimuth alphabets, direction lengths and tmax classes",
 "The test samples 1000 random spheres, but all with z range in the upper half and none unclipped.",
 [SP], [("stable quadratic, root ordering, clip tests", SP)], ["IntersectsRay::intersect/do_intersect for Sphere"])
prop("C23", "A sphere hit reports a consistent surface frame and parameterization",
 "For every sphere hit the reported point is the ray at the reported parameter and lies on the sphere, the normal is finite, unit and points outward, and both surface coordinates lie in [0, 1] with u running with azimuth from -pi to the maximum azimuth and v with polar angle from the lower to the upper z limit. The two tangents are the derivatives of the point with respect to u and v. The bounding box contains every hit, and the area equals that of the kept surface.",
 ["inputs"], "all hits of the C22 lattice, including both hemispheres, poles and clipped spheres",
 "The test only looks at the hit parameter.",
 [SP, PR], [("spherical parameterization", SP)], ["IntersectionResult of Sphere::intersect, Sphere::bbox, Sphere::area"])
prop("C24", "A list of primitives reports the closest hit regardless of order",
 "For every list of primitives (spheres, boxes, transformed primitives, nested lists) added in any order, intersecting a ray returns the hit of the primitive with the smallest parameter among all that are hit, and nothing exactly when none is hit; the yes/no query reports true exactly when some member does. The list's bounding box is the union of its members' boxes (empty when the list is), and intersecting never changes the list.",
 ["histories","inputs"], "all insertion sequences over a primitive alphabet up to a length, nested lists included, against an alphabet of rays and tmax values",
 "No test builds a primitive list.",
 [PR], [("running tmax while scanning members", PR)], ["PrimitiveList::add_primitive/intersect/do_intersect/bbox"],
 state=[{"name":"PrimitiveList.primitives","meaning":"members in insertion order","where":PR}])
prop("C25", "A transformed primitive behaves like the primitive placed in the world",
 "For every primitive and affine transform, a ray hits the transformed primitive exactly when the ray taken to object space hits the primitive, at the same parameter; the reported point lies on the world-space ray, the normal is unit and perpendicular to the world-space surface on its outer side, and tangents and surface coordinates correspond. Nesting transformed primitives equals transforming once by the composition, the identity transform changes nothing, and the bounding box encloses every reported point.",
 ["inputs","histories"], "all affine words over the generator alphabet up to a depth as transform, over a primitive alphabet, against an alphabet of rays; nested wrappers up to depth 2",
 "No test builds a transformed primitive.",
 [PR, T, B], [("world/object mapping around the inner query", PR)], ["TransformedPrimitive::intersect/do_intersect/bbox"])
prop("C26", "Thin-lens camera rays start on the lens and converge on the focal plane",
 "For every film and lens sample in the unit square, the camera ray starts on the lens disk (its radius around the camera position, in the lens plane) at the disk point of the lens sample, has unit direction for rigid views and unbounded length, and passes through a point of the plane at the focal distance in front of the camera that depends on the film sample only. That point covers the field of view linearly: film coordinates 0 and 1 are the left/bottom and right/top edges at the half field-of-view angle horizontally, divided by the aspect ratio vertically; rays are given in world space through the inverse of the view transform.",
 ["inputs","configurations"], "all film x lens sample grids, over alphabets of view transforms, focal distances, lengths, fields of view, lens radii and aspect ratios",
 "No test exists for cameras.",
 [TL, C], [("Gaussian lens equation, refraction through the focal-plane point", TL)], ["Camera::generate_ray"])
prop("C27", "Disk sampling maps the unit square onto the unit disk, preserving area",
 "For every sample in the unit square both disk mappings return a point of the unit disk (up to rounding). The concentric mapping sends concentric squares to circles of the proportional radius, angle proportional to the position along the square within each quadrant (the square's centre going to the disk's centre), continuously across the diagonals, which fixes it up to a reflection through the centre; the polar mapping has radius the square root of the second coordinate and angle 2*pi times the first. Both preserve relative areas.",
 ["inputs"], "all samples on a dense grid of the unit square including edges, diagonals and centre, and all grid cells for the area law",
 "No test exists for sampling.",
 [C], [("concentric and polar maps", C)], ["concentric_sample_disk, uniform_sample_disk"])
prop("C28", "Interval-valued vectors, rays and transforms enclose their exact counterparts",
 "For every vector, point, normal or ray with interval components, adding, subtracting, scaling, dividing, dot and cross products, taking norms and distances and normalizing (non-zero vectors), evaluating the ray, mapping points by any transform and vectors, normals and rays by any affine transform all succeed and return interval components containing the exact result for every choice of members. Converting an exact vector to an interval vector and back returns it unchanged.",
 ["inputs"], "all component intervals over an alphabet, all affine and perspective words over the generator alphabet, exact witnesses at all member corners",
 "No test uses interval vectors, interval rays or transforms of intervals.",
 [VI, V, T, R, I], [("generic code instantiated with Interval", VI)], ["GenericVector<Interval<T>,..>, Ray<Interval<T>>, Transform::map on interval operands"])

prop("C29", "Ray evaluation and surface interactions are geometrically consistent",
 "For every scalar type, evaluating a ray at any parameter (negative, zero or beyond its maximum included) gives the origin plus the parameter times the direction. A surface interaction built from a point, surface coordinates and two non-parallel tangents keeps them unchanged and gets the unit normal along the cross product of the first tangent with the second. Mapping an interaction by an affine transform, forward or inverse, maps its point as a point and its tangents as vectors, keeps the surface coordinates and maps its normal as a normal scaled to unit length, so that it stays perpendicular to the mapped tangents and on the same side of the mapped surface, up to rounding.",
 ["inputs","histories"], "all pairs of origin, direction and parameter values over each type's alphabet, all pairs and triples of tangent components, all affine words over the generator alphabet and all constructors applied to an alphabet of interactions",
 "No test builds or maps a surface interaction, and rays are only evaluated through hits.",
 [R, PR], [("origin + t * direction", R), ("SurfaceInteraction::new and its mapping", PR)], ["Ray::eval, SurfaceInteraction::new, Transform::map/map_inverse on SurfaceInteraction"])

out = os.path.join(HERE, "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
