NOT_APPLICABLE = []
PROPS = [
dict(id="C01", title="Orientation predicates are exact for every fixed-width integer input",
 statement="For points and vectors with coordinates of any fixed-width signed integer type, including the extreme values of the type, the orientation of three points, of two points along a direction vector, and of two points along that vector rotated by 90 degrees counterclockwise equals the sign of the exact mathematical cross product. None of these calls panics, overflows or truncates.",
 quant="every combination of coordinates of i8, i16, i32, i64 and isize (up to 2^384 inputs per predicate)",
 why="The tests sample a few hundred random coordinate sextuples per type; the sign-and-magnitude arithmetic must be right at every corner of the range, where differences do not fit the type and products need the full double width.",
 files=["src/lib.rs", "src/orientation.rs"], mech=[("cmp_slope / cmp_vector_slope / cmp_perp_vector_slope", "src/lib.rs macro fixed_precision"), ("Orientation::new, along_vector, along_perp_vector", "src/orientation.rs")],
 note="Proved for all inputs, per type, with the types' macro expanded from the source: the code computes the sign of the exact cross product and no arithmetic step overflows. Trusts Verus/Z3 and the vstd/assumed specifications of overflowing_add, wrapping_sub and unsigned_abs."),
dict(id="C02", title="Distance comparison is exact for every fixed-width integer input",
 statement="For points with coordinates of any fixed-width signed integer type, comparing the distances from one point to two others gives the order of the exact squared Euclidean distances, including distances whose square exceeds every machine integer the computation uses. The call never panics or overflows.",
 quant="every combination of coordinates of i8, i16, i32, i64 and isize",
 why="Overflow of the squared distance only shows when points are almost opposite corners of the coordinate range; the tests sample few such triples.",
 files=["src/lib.rs", "src/data/point.rs"], mech=[("cmp_dist with overflow flags", "src/lib.rs macro fixed_precision"), ("Point::cmp_distance_to", "src/data/point.rs")],
 note="Proved for all inputs per type. Trusts Verus/Z3 and the assumed specifications of overflowing_add, wrapping_sub."),
dict(id="C03", title="Predicates agree with exact arithmetic for big numbers and floats",
 statement="For arbitrary-precision integers and rationals, and for finite floating-point coordinates (bare or in an ordered/not-NaN wrapper), orientation of three points, orientation along a direction and along its counterclockwise perpendicular, and distance comparison give the result of exact rational arithmetic on the exact values of the coordinates. The results therefore agree between coordinate types that represent the same values.",
 quant="every finite coordinate value of BigInt, BigRational, f32, f64, OrderedFloat, NotNan and (optional feature) rug::Integer",
 why="Rounding errors only change the answer for nearly degenerate inputs, which random tests essentially never hit.",
 files=["src/lib.rs"], mech=[("arbitrary_precision!, floating_precision!, wrapped_floating_precision!, rug::Integer impl", "src/lib.rs"), ("float_to_rational", "src/lib.rs")],
 note="Proved relative to assumed contracts of the number libraries (exact big arithmetic, exact float-to-rational conversion, exact sign of geometry_predicates::orient2d). The rug::Integer implementation is proved from source; only the others are also executed."),
dict(id="C04", title="Orientations form a consistent algebra and ties are broken consistently",
 statement="Orientation is invariant under rotating its three points, flips under swapping two of them, and is colinear exactly when the points lie on one line; combining, reversing and tie-breaking orientations behaves accordingly. Breaking a tie by three distinct indices is total, and equals the orientation of three points at those indices on a strictly convex curve; a list of points is reported all-colinear exactly when one line contains all of them, duplicates included.",
 quant="all point triples, all triples of distinct u32 indices, all point lists",
 why="Consistency is a relation between several calls over all inputs; tests check single calls.",
 files=["src/orientation.rs", "src/data/point.rs"], mech=[("Orientation::{then,break_ties,sos,reverse}", "src/orientation.rs"), ("SoS::{new,orient,reverse}", "src/orientation.rs"), ("Point::all_colinear", "src/data/point.rs")],
 note="Every function is proved against its mathematical specification for any coordinate type that satisfies the scalar contract (C01-C03 prove that contract per type)."),
dict(id="C05", title="Angular order around a point is exact and a total preorder",
 statement="Comparing two points counterclockwise around a centre, starting from any reference direction, gives the order of their exact angles (equal directions compare equal), for every position of the points including exactly ahead of and exactly behind the centre. The comparison is reflexive, antisymmetric and transitive, so sorting by it yields points in non-decreasing angle.",
 quant="every reference direction, centre and pair or triple of points",
 why="Transitivity quantifies over triples and the colinear cases are measure-zero for random tests.",
 files=["src/orientation.rs", "src/data/point.rs", "src/data/vector.rs"], mech=[("Orientation::ccw_cmp_around_with", "src/orientation.rs"), ("Point::ccw_cmp_around(_with)", "src/data/point.rs"), ("Vector::ccw_cmp_around, sort_around, cmp_along", "src/data/vector.rs")],
 note="The comparison function is proved equal to a mathematical angular order, and that order is proved to be a total preorder (Plucker identity)."),
dict(id="C06", title="Points are totally ordered by their exact coordinates",
 statement="Comparing two points of the same dimension gives the lexicographic order of their coordinate values, first coordinate first. Equality, partial comparison and total comparison agree with one another, a tagged point compares by its tag first and then like its point, and the order is reflexive, antisymmetric and transitive in every dimension and for every coordinate type.",
 quant="all pairs and triples of points, in every dimension and coordinate type",
 why="Order laws quantify over triples and dimensions; sorting, binary searches and tree lookups all rely on them, while tests only compare a few two-dimensional points.",
 files=["src/data/point.rs", "src/lib.rs"], mech=[("TotalOrd/PartialEq/PartialOrd/Ord for Point and PointSoS", "src/data/point.rs"), ("TotalOrd for &A, (A, B), total_min, total_max", "src/lib.rs")],
 note="Proved for every dimension and every coordinate type satisfying the order contract. Conversions between coordinate types are only evaluated (bounded)."),
dict(id="C07", title="Segment membership and intersection agree with the point sets",
 statement="A segment reports that it contains a point exactly when the point lies on the closed, half-open or open set of points between its ends. Intersecting two segments reports nothing exactly when they have no common point, a crossing exactly when they meet in a point and are not parallel, and otherwise an overlap whose point set is exactly the common point set.",
 quant="all pairs of segments, with every combination of included and excluded ends, including colinear, touching and zero-length ones",
 why="There are dozens of degenerate configurations (four end inclusions times touching, colinear, nested, zero-length), each a measure-zero event for random tests.",
 files=["src/data/line_segment.rs"], mech=[("LineSegment(View)::{new, contains}", "src/data/line_segment.rs"), ("Intersects for LineSegmentView", "src/data/line_segment.rs"), ("EndPoint::{inner, leftmost, rightmost, inner_between, ..}", "src/data/line_segment.rs")],
 note="Proved: the code's answer equals the intersection of the two parameterised point sets over the reals, for any coordinate type satisfying the scalar contract. Conversions from ranges and tuples are only evaluated (bounded)."),
dict(id="C08", title="Lines, half-lines and ring edges meet segments where they should",
 statement="A half-line reports a proper crossing of a segment exactly when it passes strictly between the two ends, ahead of its origin; it reports a leaning crossing exactly when it passes through one end ahead of its origin and the other end lies on the reported side; and nothing otherwise, whichever way the segment is given. A line reports a crossing exactly when the two ends lie on different sides, points on the line counting as left. A directed ring edge contains its source, excludes its destination, and meets another edge exactly as the two half-open point sets do. The meeting point of two lines given by exact points lies on both lines, and is missing exactly when their directions are parallel.",
 quant="all half-lines, lines, directions, segments and edges, including degenerate and colinear ones",
 why="Ray-shooting and triangulation depend on the rare cases where the line passes exactly through an end point, which random tests do not produce.",
 files=["src/data/line.rs", "src/data/directed_edge.rs"], mech=[("Intersects for &LineSoS, &HalfLineSoS", "src/data/line.rs"), ("DirectedEdge::contains, Intersects for DirectedEdge", "src/data/directed_edge.rs"), ("Line::intersection_point", "src/data/line.rs")],
 note="Proved for every coordinate type satisfying the scalar contract, owned edges included; the meeting point of lines for every type whose operators, division included, are exact (rationals)."),
dict(id="C09", title="Triangles classify points and report area and bounds exactly",
 statement="A triangle can be built exactly when its corners turn counterclockwise, and it classifies a point as inside, on the boundary or outside exactly according to the point's barycentric weights. Reordering constructors keep the three corners and make them counterclockwise; the signed area (in any exact number type) is half the exact cross product; the bounding box is the exact range of the corners, and sampled points are never outside.",
 quant="all corner triples, query points and coordinate types",
 why="Points exactly on an edge, on an edge's extension or at a corner are measure-zero for random tests, and large coordinates overflow naive code.",
 files=["src/data/triangle.rs"], mech=[("Triangle/TriangleView::{new, new_ccw, validate, locate, orientation}", "src/data/triangle.rs"), ("signed_area, signed_area_2x, bounding_box", "src/data/triangle.rs")],
 note="Proved, the area for any number type with exact operators. A sampled point is proved covered whenever sampling returns; that it returns is not proved. Number types that round are out of the area contract."),
dict(id="C10", title="Polygons are accepted exactly when they are simple",
 statement="Building a polygon from a list of points succeeds exactly when there are at least three points, all different, and no two edges (each with its source and without its destination) have a common point; the list may wind either way. The resulting polygon has the same points, turns counterclockwise and validates, and a rejected list is rejected with an error, never a panic. Validating an existing polygon accepts it exactly under the same conditions plus counterclockwise winding, and names the condition that fails.",
 quant="every list of points, of every length and coordinate type",
 why="Self-touching, spikes, colinear overlaps and vertices on other edges are degenerate configurations random tests do not produce, and acceptance is an if-and-only-if over all of them.",
 files=["src/data/polygon.rs", "src/algorithms/intersection/naive.rs"], mech=[("Polygon::new, validate, validate_weakly, ensure_ccw", "src/data/polygon.rs"), ("segment_intersections", "src/algorithms/intersection/naive.rs")],
 note="Proved: acceptance is equivalent to simplicity over the real point sets of the edges. The pair enumeration iterator (slice flat_map/enumerate) and BTreeSet::insert are assumed by contract; the former is evaluated (bounded). Bare floating-point rings with both 0.0 and -0.0 are out of scope."),
dict(id="C11", title="A polygon's indices, cursors and traversals describe one cyclic ring",
 statement="In every polygon the ring, position and point indices stay consistent: each cursor and identifier leads to the point it names, moving forwards and backwards are inverse and cyclic, and walking a range of vertices yields exactly those between its ends, with the right length, from either end. Reversing the winding reverses the vertex order and nothing else; two polygons are equal exactly when one ring is a rotation of the other; and a vertex is an ear exactly when it is convex and no other vertex lies in its triangle. Converting coordinates or point types keeps the structure.",
 quant="all polygons (valid or not), positions, ranges and interleavings of forward and backward steps",
 why="Off-by-one errors at the wrap-around only show at particular positions, ring lengths or step interleavings, and every algorithm above relies on them.",
 files=["src/data/polygon.rs", "src/data/polygon/iter.rs"], mech=[("Cursor, CursorIter, EdgeIter", "src/data/polygon.rs, src/data/polygon/iter.rs"), ("Polygon::{ensure_ccw, vertices_reverse, vertices_join, equals, direct, ..}", "src/data/polygon.rs")],
 note="Proved for all ring lengths and positions, with the index consistency as an invariant. Mapping and casting points and the by-reference iterators are proved too; float is only evaluated (bounded)."),
dict(id="C12", title="Area, winding, bounding box and centroid of polygons are exact",
 statement="The signed area of a polygon equals half the shoelace sum of its vertices and twice that is reported by the doubled form, positive exactly for counterclockwise rings when exact numbers are used. The bounding box is the exact range of the vertices. The winding test reports the turn at an extreme vertex. The centroid in exact arithmetic is the area-weighted centre, and normalising a polygon puts it in the unit square around the same shape.",
 quant="every ring (simple or not) and coordinate type, for number types with exact arithmetic",
 why="Overflow and wrap-around terms (the last edge, the closing vertex) only matter for particular coordinates.",
 files=["src/data/polygon.rs"], mech=[("signed_area, signed_area_2x, bounding_box, orientation", "src/data/polygon.rs"), ("centroid, normalize", "src/data/polygon.rs")],
 note="Signed area, bounding box and winding proved for every ring and exact number type, the centroid for exact fields and non-zero area. normalize (floating point) is only evaluated (bounded)."),
dict(id="C13", title="Point-in-polygon is exact",
 statement="Locating a point in a simple polygon answers on-boundary exactly when the point lies on an edge or vertex, inside exactly when the boundary winds around it, and outside otherwise. This includes points level with vertices, with horizontal edges and on the extensions of edges.",
 quant="all simple polygons and query points, for every coordinate type",
 why="The hard cases (the query level with a vertex or a horizontal edge) have measure zero for random tests.",
 files=["src/data/polygon.rs", "src/data/line.rs"], mech=[("Polygon::locate", "src/data/polygon.rs"), ("half-line/segment intersection", "src/data/line.rs")],
 note="Proved: the answer is boundary membership and otherwise the parity of exact ray crossings. That the parity equals insideness for simple polygons is the Jordan curve theorem (not mechanised; evaluated against winding numbers)."),
dict(id="C14", title="Convex polygons validate and locate points correctly",
 statement="A convex polygon validates only if every vertex is strictly convex and the ring is simple. Locating a point in a strictly convex polygon answers outside exactly when the point is strictly to the right of some edge, inside exactly when it is strictly to the left of all of them, and on-boundary otherwise, in agreement with the general point-in-polygon test.",
 quant="all strictly convex rings of every size and rotation, and all query points",
 why="The binary search over the fan of triangles goes wrong only for particular relations between the query, the first vertex and the diagonals.",
 files=["src/data/polygon/convex.rs"], mech=[("PolygonConvex::{locate, validate}", "src/data/polygon/convex.rs")],
 note="Proved for rings in which every three vertices in order turn counterclockwise (rings of more than 2^63 vertices excluded). That a validated ring has this property is a theorem about curves that is not mechanised; it is evaluated."),
dict(id="C19", title="Z-order hashes interleave, invert and preserve order",
 statement="Hashing a pair of 32-bit numbers puts the first on the even and the second on the odd bits; unhashing recovers both numbers, and every 64-bit hash is the hash of exactly one pair. For points inside a bounding box, the hash with that box's key never decreases when a coordinate increases, so every point of a rectangle hashes between its lower and its upper corner. No box and no covered point makes hashing overflow or panic.",
 quant="all pairs of 32-bit numbers, boxes, covered points and coordinate types",
 why="The carry and shift cases at the ends of the number ranges are rare events for random tests, and a hash that is not monotone makes the hashed triangulation silently miss points.",
 files=["src/algorithms/zhash.rs"], mech=[("zhash_pair, zunhash_pair", "src/algorithms/zhash.rs"), ("ZHashable::{zhash_key, zhash_fn}", "src/algorithms/zhash.rs")],
 note="Proved with bit-vector reasoning for all integer types; f64 keys (rounding division) are only evaluated (bounded)."),
dict(id="C15", title="Convex hulls are the exact convex hulls",
 statement="The convex hull of a list of points is a valid, strictly convex, counterclockwise polygon whose vertices are points of the list, with no point of the list outside it. Hulling fails exactly when all the points lie on one line or there are fewer than three of them. Graham scan and gift wrapping return the same vertices for every order and multiplicity of the input points, always finish, and never panic; Melkman's algorithm gives the hull of a simple polygon's vertices.",
 quant="all finite lists of points (with duplicates and colinear points), in every order and coordinate type",
 why="Duplicates, colinear runs and ties in angle are measure-zero for random tests, and the guarantee covers every list length.",
 files=["src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/gift_wrapping.rs", "src/algorithms/convex_hull/melkman.rs"], mech=[("graham_scan::convex_hull, smallest_point", "src/algorithms/convex_hull/graham_scan.rs"), ("gift_wrapping::convex_hull", "src/algorithms/convex_hull/gift_wrapping.rs"), ("melkman::convex_hull", "src/algorithms/convex_hull/melkman.rs")],
 note="Graham scan and gift wrapping are proved in full, for every input length: they finish, the result is strictly convex, validates, is drawn from the input and encloses it, and they fail exactly on colinear input. A lemma shows that a set of points has only one such cycle of vertices, so the order of the input and the algorithm do not matter. Melkman is evaluated against an exact hull (bounded)."),
dict(id="C16", title="Ear clipping triangulates every simple polygon",
 statement="Ear clipping a simple counterclockwise polygon with n boundary vertices, plain or hashed, for every random source, finishes without panicking and yields exactly n-2 triples of boundary vertices. Every triple is an ear of what remains at that moment: three neighbouring remaining vertices that turn counterclockwise, with no other remaining vertex inside or on the triangle. The triangles do not overlap and their areas add up to the area of the polygon.",
 quant="all simple polygons (with colinear vertices), all sequences of random choices, all coordinate types with z-order hashes",
 why="Which corner is tried next is random and the hashed variant looks only at a slice of the z-order, so the tests see one path per polygon; a wrong link update or a missed obstruction only shows for particular shapes and choices.",
 files=["src/algorithms/triangulation/earclip.rs", "src/algorithms/zhash.rs"], mech=[("triangulate_list, triangulate_list_hashed", "src/algorithms/triangulation/earclip.rs"), ("is_ear, is_ear_hashed, zbox_slice", "src/algorithms/triangulation/earclip.rs"), ("List, Cursor, EarStore, IntSet", "src/algorithms/triangulation/earclip.rs")],
 note="Proved for every ring and every choice of the random source: each step either reports that two vertices remain or cuts an ear of the remaining ring and leaves the ring without it; the hashed ear test is equivalent to the plain one; a whole run gives n-2 triangles of positive area adding up to the ring's. That a simple polygon always has an ear left (so the random source is never asked for an element of an empty list) is the two-ears theorem, not mechanised, and non-overlap is evaluated, not proved (bounded)."),
dict(id="C22", title="The intersection set of edges is an exact multiset",
 statement="The set of intersecting edge pairs, under any history of insertions, removals and draws, holds exactly the pairs inserted and not removed since. Removing all the intersections of an edge removes the pairs with that edge and no other. A random draw returns a pair in the set, and nothing exactly when the set is empty. Iterating yields each pair held once. No operation panics, for any number of vertices.",
 quant="all histories of operations, all numbers of vertices, all random sources",
 why="The set threads a doubly linked list per edge through reused slots; a wrong link only shows after particular sequences of insertions and removals.",
 files=["src/data/intersection_set.rs", "src/utils.rs"], mech=[("IndexIntersectionSet::{push, remove, remove_all, random, iter}", "src/data/intersection_set.rs"), ("SparseVec, DenseCollection", "src/utils.rs")],
 note="Proved in full, with the per-edge linked lists as the invariant. Edges must have their ends among the vertices and a pair two different edges; fewer than 2^64-1 slots."),
dict(id="C20", title="Affine maps and vector arithmetic act componentwise",
 statement="Adding, subtracting, negating and scaling points and vectors act on each component, in every dimension. Translating adds the vector, scaling multiplies each component, and the product of two maps acts as the second followed by the first, for any chain of maps. Applying a map to a polygon applies it to every vertex and keeps the ring.",
 quant="all dimensions, all number types with exact + and * (each operator for every number type), all vectors, points and chains of maps",
 why="The maps are stored as flat matrices of dimension N+1; an index mistake shows only for some dimension, some order of composition or an off-diagonal entry, while the tests have none for them.",
 files=["src/transformation.rs", "src/matrix.rs", "src/data/point/add.rs", "src/data/point/sub.rs", "src/data/vector.rs", "src/data/vector/add.rs", "src/data/vector/sub.rs", "src/data/vector/mul.rs", "src/data/vector/div.rs"], mech=[("Transform::{translate, scale, uniform_scale}, Mul", "src/transformation.rs"), ("Matrix: Index, Mul", "src/matrix.rs"), ("operators on Point and Vector", "src/data/vector/add.rs")],
 note="Proved for every dimension: the operators relative to the number type's own operators, the matrix product, the affine form of every map that can be built, composition and application. Applying a map to a polygon, normalizing a polygon, sums of vectors and distances are evaluated (bounded)."),
dict(id="C18", title="Monotone and star polygons are what their names say",
 statement="A polygon is reported monotone along a direction exactly when its ring splits into one chain that never falls and one that never rises along it, whatever the winding and for equal heights. Building a monotone polygon from any list of points succeeds unless all of them are on one line, and gives a simple counterclockwise polygon, monotone along the direction, whose vertices are exactly the given points without repeats. A star polygon is simple and counterclockwise, with exactly the given points as vertices, visited in angular order around the centre.",
 quant="all simple polygons, all point lists with duplicates and colinear points, all directions and centres, all number types",
 why="The chains depend on how ties in height, points on the line between the extremes and one-sided sets are placed; random samples almost never hit those.",
 files=["src/algorithms/polygonization/monotone.rs", "src/algorithms/polygonization/star.rs", "src/data/polygon.rs"], mech=[("is_monotone, new_monotone_polygon", "src/algorithms/polygonization/monotone.rs"), ("new_star_polygon", "src/algorithms/polygonization/star.rs"), ("Polygon::is_monotone", "src/data/polygon.rs")],
 note="Proved in full on the real functions; sort_by, dedup and Vec::from(VecDeque) by assumed contracts. That a star polygon can be built from points all around the centre is evaluated only (bounded); an error is proved to mean that an angular arrangement of the points is not simple."),
dict(id="C17", title="Two-opt turns any points into a simple polygon",
 statement="For any list of points, two-opt either returns a polygon with exactly those points, in one ring, whose edges do not touch except at shared vertices and which runs counter-clockwise, or it reports why there is none: DuplicatePoints only if two points are equal, InsufficientVertices only if there are fewer than three points or all lie on one line. Untangling an existing ring of distinct points gives the same guarantees. It always returns.",
 quant="all point lists (duplicates and colinear points included), all starting rings, all random sources, all exact number types",
 why="Each move rewires the ring and the set of crossing edges together; a pair missed after a particular sequence of moves leaves a crossing in the result, and the tests sample a few rings of a few points.",
 files=["src/algorithms/polygonization/two_opt.rs", "src/data/intersection_set.rs", "src/data/polygon.rs", "src/utils.rs"], mech=[("two_opt_moves, resolve_self_intersections, untangle", "src/algorithms/polygonization/two_opt.rs"), ("IndexIntersectionSet", "src/data/intersection_set.rs"), ("Polygon::{vertices_reverse, vertices_join, ensure_ccw}", "src/data/polygon.rs")],
 note="Proved: the set holds exactly the touching pairs of edges after every move, so an empty set means a simple ring; orientation; the errors. Not proved, evaluated only: that the loop ends, and that overlapping edges always have a vertex to move (otherwise it panics)."),
]
