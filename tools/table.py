K = "src/kernel/"
A = "src/algorithm/"
I = A + "intersection/"
L = A + "location/"
D = "src/data_structure/"

prop("C01", "Number types carry the documented constants, tolerance and functions",
     "For f32 and f64, the default, zero, pi and tolerance constants have their documented values; two numbers are equal exactly when their difference is smaller in magnitude than the tolerance. Every elementary function of the number interface is the mathematical function of that name, with the arguments in their usual order.",
     ["inputs"], "every pair of numbers, for both number types",
     "Tests use a handful of numbers, only of f64, and none near the tolerance; every other guarantee of the library is stated through these operations.",
     [K + "number_type.rs"], [("NumberType / DefaultNumberValueTrait implementations", K + "number_type.rs")])
prop("C02", "Vector algebra is exact",
     "Sum, difference, scaling, division, dot and cross product, length and normalisation of vectors are those of the plane, and the angle from one vector to another is the counter-clockwise one in [0, 2 pi). Normalising a vector shorter than the tolerance leaves it unchanged and never divides by zero.",
     ["inputs"], "all vectors and scalars",
     "Tests sample a few vectors; the laws (antisymmetry, cancellation, the zero vector, the angle's range) quantify over all of them.",
     [K + "vector_2.rs"], [("Vector2 operators, dot, cross, length, normalize, radian_to", K + "vector_2.rs")])
prop("C03", "Point and vertex operations mean what they say",
     "Points and vertices keep their coordinates, distances are Euclidean and symmetric, adding and subtracting points gives the coordinate sums and differences, and equality is coordinate-wise tolerance equality (reflexive and symmetric).",
     ["inputs"], "all pairs of points or vertices",
     "Tests compare a few concrete points; equality within the tolerance and symmetry quantify over pairs at any distance.",
     [K + "point_2.rs", K + "vertex_2.rs"], [("Point2 accessors, distance, equals, operators", K + "point_2.rs"), ("Vertex2 accessors and equality", K + "vertex_2.rs")])
prop("C04", "The turn of three points is their orientation sign",
     "The turn of three points is Left, Right or Collinear according to the sign of their orientation determinant, with the tolerance band counting as Collinear. It is invariant under cyclic shifts and translation, and reversing the points exchanges Left and Right.",
     ["inputs"], "all triples of points",
     "The existing test checks three triples; symmetry and the tolerance band quantify over all triples.",
     [K + "point_2.rs", K + "util_enum.rs"], [("Point2::turn", K + "point_2.rs")])
prop("C05", "Equality and ordering of points and vertices agree",
     "Comparing two points (or vertices) in the opposite order gives the opposite result, the partial order is the total one, and two points are equal exactly when the order calls them equal. The order is the sweep order: abscissa first, then ordinate, smaller first in the queue.",
     ["inputs"], "all pairs of points or vertices, including pairs within the tolerance of each other",
     "No test compares points whose distance is near the tolerance, where ordered containers (event queues, hulls) lose elements when equality and order disagree.",
     [K + "point_2.rs", K + "vertex_2.rs"], [("Ord / PartialOrd / PartialEq of Point2 and Vertex2", K + "point_2.rs")])
prop("C06", "A line through two points contains both",
     "The line built from two distinct points has a non-zero normal and contains both points within the tolerance; points on a common vertical or horizontal give an exactly vertical or horizontal line. Two lines are equal exactly when their equations are proportional within the tolerance.",
     ["inputs"], "all pairs of distinct points, all coefficient triples",
     "Tests build a few lines; incidence and scaling invariance quantify over all point pairs and all scalings.",
     [K + "line_2.rs"], [("Line2::from_points and equality", K + "line_2.rs")])
prop("C07", "A triangle's edges, orientation and area are consistent",
     "A triangle's vertices and edges are the ones given, in order; its orientation is the sign of its area, and its area is half the cross product carrying the sign of the orientation. Reversing the orientation flips both and keeps the vertex set; reversing twice restores the triangle. Two triangles are equal exactly when their vertices, in order, and their orientations agree.",
     ["inputs", "histories"], "all triangles and any number of reversals",
     "Tests use one or two triangles; the relation between orientation, area and reversal quantifies over all of them.",
     [K + "triangle_2.rs"], [("Triangle2", K + "triangle_2.rs")])
prop("C08", "A polygon's edges, area and convexity follow from its vertices",
     "A polygon of n vertices has exactly the n edges joining consecutive vertices and closing at the first; its area is the signed shoelace area (zero below three vertices); it counts as convex exactly when no two of its consecutive vertex triples turn opposite ways.",
     ["inputs"], "vertex lists of every length",
     "Tests use polygons of three to six vertices; wrap-around and empty or tiny polygons are not covered.",
     [K + "polygon_2.rs"], [("Polygon2::edges, area, is_convex", K + "polygon_2.rs")])
prop("C09", "Circles and arcs: end points, normalisation and monotone pieces",
     "An arc's end points lie on its circle at its start and end angles, over-full angles are reduced by whole turns and equal angles mean the full circle. Splitting a circle or an arc at the horizontal extremes gives pieces that start and end where the arc does, cut exactly at the multiples of pi in between, each recognised as upper or lower according to the half turn it lies in.",
     ["inputs"], "all circles and all arcs with angles in [0, 4 pi] (and above, for normalisation)",
     "Tests split two or three arcs; partial arcs, arcs across the zero angle and angles above one turn are not covered (three defects were found there).",
     [K + "circle_segment_2.rs", K + "arc_segment_2.rs"], [("CircleSegment2::monotone", K + "circle_segment_2.rs"), ("ArcSegment2::new, monotone, is_top, source, target", K + "arc_segment_2.rs")])
prop("C10", "Segments and rays keep their data and refuse data they lack",
     "A segment of each kind reports its own kind and returns exactly the data it was built from; asking a segment for data its kind does not have aborts instead of returning an invented value. Line segments are equal exactly when their end points are, and a ray keeps its origin and its normalised direction.",
     ["inputs"], "all segments of the three kinds and all rays",
     "Tests read back a few literals; the kind tags steer every intersection, and the aborting operations are never exercised.",
     [K + "segment_2.rs", K + "line_segment_2.rs", K + "circle_segment_2.rs", K + "arc_segment_2.rs", K + "ray_2.rs"], [("Segment2 implementations", K + "segment_2.rs"), ("Ray2", K + "ray_2.rs")],
     technique="value-graph abstract interpretation of MIR; panic-reachability of the missing accessors")
prop("C11", "Half-edge links: constructors and setters change exactly their link",
     "A new edge has the given end vertices, its kind and no other link; each setter replaces exactly its own link and leaves all others alone. An edge's segment joins its end vertices' positions, adding an edge to a vertex appends exactly that edge and keeps everything else, and removing an edge keeps exactly the edges unequal to it, in order. Two segment edges are equal exactly when their ends are at the same positions; edges of different kinds are never equal.",
     ["inputs", "histories"], "all edges, all vertices and any sequence of link updates",
     "There is no test of the half-edge structure at all; a frame condition quantifies over every previous state.",
     [K + "edge_2.rs", K + "vertex_2.rs"], [("Edge2 constructors, getters, setters, to_segment", K + "edge_2.rs"), ("Vertex2::add_edge, remove_edge", K + "vertex_2.rs"), ("Edge2 equality", K + "edge_2.rs")],
     technique="frame-condition analysis: abstract interpretation of MIR with a symbolic heap, before/after states compared")
prop("C12", "Location on a line, segment or ray is side and extent",
     "A point is on a line exactly when the line's equation vanishes there within the tolerance; relative to a directed segment or ray it is Left or Right by the sign of the cross product, On when collinear and within the extent (end points included), Collinear otherwise. Reversing the segment swaps Left and Right, translation changes nothing, and each is-on predicate says exactly that the location is On.",
     ["inputs"], "all points, lines, segments and rays",
     "Tests locate a handful of points around one segment; end points, reversal, translation and degenerate segments quantify over all inputs.",
     [L + "point_2_line_2.rs", L + "point_2_line_segment_2.rs", L + "point_2_ray_2.rs"], [("locate_point_2_* and is_point_2_on_*", L + "point_2_line_segment_2.rs")])
prop("C13", "Location on a circle or an arc is distance and angle",
     "A point is On, Inside or Outside a circle exactly as its distance from the centre compares with the radius, within the tolerance. It is on an arc exactly when it is on the arc's circle and its angle lies between the arc's end angles, modulo whole turns and end points included; an arc's own end points are on it, and each is-on predicate says exactly that the location is On.",
     ["inputs"], "all points, circles and arcs whose angles lie in [0, 4 pi]",
     "Tests locate points on one quarter arc; arcs across the zero angle and their end points quantify over all angles.",
     [L + "point_2_circle_segment_2.rs", L + "point_2_arc_segment_2.rs"], [("locate_point_2_circle_segment_2", L + "point_2_circle_segment_2.rs"), ("locate_point_2_arc_segment_2", L + "point_2_arc_segment_2.rs")])
prop("C14", "Location in a triangle or a polygon is edge incidence and crossing parity",
     "A point on an edge is On; otherwise it is Inside a polygon exactly when the edges cross the ray from it an odd number of times (convex or not), and Inside a triangle exactly when it is on the same side of all three edges. The result does not depend on a triangle's orientation, and the three predicates are the three outcomes.",
     ["inputs"], "all points, triangles and polygons with any number of vertices",
     "Tests locate points in one triangle and one square; parity quantifies over every vertex list (non-convex polygons were wrong).",
     [L + "point_2_triangle_2.rs", L + "point_2_polygon_2.rs"], [("locate_point_2_triangle_2", L + "point_2_triangle_2.rs"), ("locate_point_2_polygon_2", L + "point_2_polygon_2.rs")])
prop("C15", "Projections are the nearest point, when it exists",
     "The projection of a point on a line lies on the line and the connecting vector is perpendicular to it. The projection on a segment is the projection on its line and exists exactly when that foot lies within the segment.",
     ["inputs"], "all points, lines with a non-zero normal and segments of positive length",
     "Tests project on one diagonal line, where swapped coefficients give the same foot; orthogonality quantifies over all lines.",
     [A + "projection/point_2_line_2.rs", A + "projection/point_2_line_segment_2.rs"], [("point_2_project_line_2", A + "projection/point_2_line_2.rs"), ("point_2_project_line_segment_2", A + "projection/point_2_line_segment_2.rs")])
prop("C16", "Lines meet lines and rays exactly where both equations hold",
     "Two lines have an intersection exactly when they are not parallel within the tolerance; it satisfies both equations and does not depend on their order. A line meets a ray in the point of the ray's line that lies on its forward side, and each predicate says exactly that an intersection exists.",
     ["inputs"], "all pairs of lines, all lines and rays",
     "Tests intersect a couple of axis-parallel lines; incidence, order and direction quantify over all of them.",
     [I + "line_2_line_2.rs", I + "line_2_ray_2.rs"], [("line_2_line_2_intersection", I + "line_2_line_2.rs"), ("line_2_ray_2_intersection", I + "line_2_ray_2.rs")])
prop("C17", "Segments meet segments and rays exactly in their common points",
     "Two line segments intersect exactly when they share a point, crossing, touching or overlapping; the intersection is the crossing point, or the end points lying on the other segment, each once. A segment and a ray meet where the segment crosses the ray ahead of its origin or touches it with an end point, and the predicate agrees.",
     ["inputs"], "all pairs of segments, all segments and rays",
     "Tests use crossing pairs mostly; touching, overlapping, disjoint collinear and short segments quantify over all positions (two defects were found there).",
     [I + "line_segment_2_line_segment_2.rs", I + "line_segment_2_ray_2.rs"], [("line_segment_2_line_segment_2_intersection", I + "line_segment_2_line_segment_2.rs"), ("line_segment_2_ray_2_intersection", I + "line_segment_2_ray_2.rs")])
prop("C18", "A segment meets a circle exactly in its points at radius distance",
     "The intersection of a line segment and a circle is the set of the segment's points whose distance from the centre is the radius: on-circle end points, the exit when the ends are on different sides, the tangent point, or both chord points. The predicate holds exactly when that set is not empty.",
     ["inputs"], "all segments and circles",
     "Tests use one chord and one tangent; one end inside, end points on the circle and near misses quantify over all positions (one defect was found there).",
     [I + "line_segment_2_circle_segment_2.rs"], [("line_segment_2_circle_segment_2_intersection", I + "line_segment_2_circle_segment_2.rs")])
prop("C19", "Two circles meet exactly at the points at both radius distances",
     "Two circles have two common points when the distance of the centres lies strictly between the difference and the sum of the radii, one when it equals either, and none otherwise (concentric circles included); the returned points lie on both circles. The predicate holds exactly when there is a common point.",
     ["inputs"], "all pairs of circles",
     "Tests use one crossing pair and one tangent pair on the x axis; internal tangency, nested and rotated pairs quantify over all positions.",
     [I + "circle_segment_2_circle_segment_2.rs"], [("circle_segment_2_circle_segment_2_intersection", I + "circle_segment_2_circle_segment_2.rs")])
prop("C20", "Arcs meet other segments in the circle's common points lying on the arc",
     "The common points of an arc and a line segment or circle are exactly the common points of the arc's circle and the other that lie on the arc. Two arcs of different circles meet in the circles' common points lying on both arcs; two arcs of one circle meet in the end points of either lying on the other, each once. Each predicate says exactly that a common point exists.",
     ["inputs"], "all arcs with all segments, circles and arcs",
     "Tests intersect half circles at one or two positions; whether a crossing lies on the arc quantifies over all angles of both.",
     [I + "line_segment_2_arc_segment_2.rs", I + "circle_segment_2_arc_segment_2.rs", I + "arc_segment_2_arc_segment_2.rs"], [("line_segment_2_arc_segment_2_intersection", I + "line_segment_2_arc_segment_2.rs"), ("circle_segment_2_arc_segment_2_intersection", I + "circle_segment_2_arc_segment_2.rs"), ("arc_segment_2_arc_segment_2_intersection", I + "arc_segment_2_arc_segment_2.rs")],
     technique="compositional value-graph abstract interpretation of MIR (callees by their own summaries), normal forms compared with the specification")
prop("C21", "Intersecting any two segments is the operation for their kinds",
     "For every ordered pair of segment kinds, the general intersection and its predicate yield what the operation for these two kinds yields, in either argument order. No combination of kinds aborts or asks a segment for data it does not have.",
     ["inputs"], "all nine ordered pairs of kinds, all segments of each",
     "Tests never call the general predicate with an arc first and a circle second, where it aborted.",
     [I + "segment_2_segment_2.rs"], [("is_segment_2_segment_2_intersected, segment_2_segment_2_intersection", I + "segment_2_segment_2.rs")],
     technique="compositional value-graph abstract interpretation of MIR per kind pair; panic summaries of the callees")
prop("C22", "The AVL tree is a balanced sorted container with the chosen duplicate rule",
     "After any sequence of insertions and deletions the in-order traversal is the sorted sequence of the elements held: an equal element is refused or placed after its equals as the tree's option says, and a deletion removes exactly one equal element or nothing. Every node stays height-balanced with its stored height right, and no operation panics. A copy of a tree holds the same elements and is independent of it.",
     ["inputs", "histories"], "every history of insertions, deletions, copies and clears, both options, all elements",
     "There is no test of the tree; rotations happen only for particular shapes, and balance, order and borrow conflicts quantify over every history (a deletion among equal elements panicked).",
     [D + "avl_tree.rs"], [("AVLTree::insert, delete, clear, clone, mid_order_traversal and the rotations", D + "avl_tree.rs")],
     technique="inductive shape analysis on MIR: symbolic heap, recursive calls replaced by their contract, all balance situations of the neighbourhood",
     note="Induction over the tree: one operation on a node with arbitrary sub-trees, for every combination of heights; the successor search is analysed for left spines of length 0 to 2.")
prop("C23", "The circular list stays a consistent ring",
     "After any sequence of insertions and deletions, following next visits every node once and returns to the start, following prev visits them in the opposite order, and head, tail and length describe that ring. An insertion puts a new node with the given datum right after the given one, a deletion removes exactly the given node, nothing else changes and no operation panics.",
     ["inputs", "histories"], "every history of insertions after, and deletions of, nodes of the list",
     "There is no test of the list; the ends, rings of one and two nodes and the frame condition quantify over every history (deleting the only node left dangling ends).",
     [D + "circular_doubly_linked_list.rs"], [("CircularDoubleLinkedList::insert, delete, head, tail, len", D + "circular_doubly_linked_list.rs")],
     technique="shape analysis on MIR: symbolic heap with an arbitrary untouched context, links and frame compared before and after")
prop("C24", "The priority queue yields its elements greatest first",
     "Popping yields the greatest of the elements currently held and removes exactly it; every pushed element comes out exactly once, unless the queue is cleared. The queue is empty exactly when as many elements were popped as pushed since it was created or cleared, and an empty queue yields nothing.",
     ["histories"], "every sequence of pushes, pops and clears",
     "There is no test of the queue; the sweep is correct only if events come out in order after any interleaving of pushes and pops.",
     [D + "priority_queue.rs"], [("PriorityQueue", D + "priority_queue.rs")],
     technique="abstract interpretation of MIR over an abstract heap (contents as a bag), for arbitrary contents and for every order of up to four elements")
prop("C25", "The convex hull is the set's strict hull, counter-clockwise",
     "The hull of distinct points is the sequence of its corners, counter-clockwise from the least point in sweep order, without points inside or on an edge; it does not depend on the order of the input. Fewer than three points are their own hull, and a repeated point changes nothing.",
     ["inputs"], "every set of up to five points in every position, in representative orders",
     "Tests use two small sets; collinear points, ties of abscissae and the stack's behaviour quantify over all positions and orders (the hull of one point was empty).",
     [A + "convex_hull/convex_hull_2.rs"], [("ConvexHull2::convex_hull", A + "convex_hull/convex_hull_2.rs")],
     technique="value-graph abstract interpretation of MIR with the stack loops unrolled on explicit stacks, all branches kept")
prop("C26", "Ear clipping triangulates every simple polygon",
     "For a simple polygon given counter-clockwise, the result is a triangulation: one triangle less two than there are vertices, each an increasing triple of vertex indices, every edge in one and every diagonal in two of them, none outside. A polygon that is not simple is refused, and triangulating prints nothing.",
     ["inputs"], "every order type of simple polygons with up to five vertices, sampled order types of six to eight, collinear corners included",
     "Tests triangulate two polygons; which corners are ears and what happens to their neighbours depends on the order type (three defects were found).",
     [A + "triangulation/earcut_2.rs"], [("earcut_2", A + "triangulation/earcut_2.rs")],
     technique="abstract interpretation of MIR per order type: coordinates stay symbolic, geometric predicates are decided by the order type's signs, ring and queues on an abstract heap",
     note="Polygon2::is_simple and the point-in-triangle location are used through their results (the latter decided by C14).")
prop("C27", "The sweep reports every common point of line segments, once",
     "For any set of line segments — sharing ends, ending on one another, vertical, overlapping or repeated — the sweep reports exactly the points that lie on two or more of them (for overlapping ones the ends of the common part), each once, in point order. Asking again, or having asked before the last one was added, changes nothing.",
     ["inputs", "histories"], "every arrangement type of two segments on a 3 x 3 grid, sampled arrangement types of three to five, inserted in any order",
     "Tests sweep two sets of segments; which neighbours are compared depends on ties at the event points (three defects were found with three to five segments).",
     [I + "sweep_segment_2_intersection.rs"], [("SweepSegment2Intersection", I + "sweep_segment_2_intersection.rs")],
     technique="abstract interpretation of MIR per arrangement type: coordinates stay symbolic, comparisons are decided by the type's signs, event queue on an abstract heap, status through the sorted-tree contract",
     note="The pairwise intersection and the point-on-segment location are used through their contracts (C17, C12), the status tree as a sorted sequence (C22).")
prop("C28", "The sweep reports every common point of arcs, circles and lines",
     "For any set of line segments, circles and arcs on different circles — tangent, sharing ends, or meeting where a circle is vertical — the sweep reports exactly the points that lie on two or more of the curves, each once, in point order. Asking again, or having asked before the last one was added, changes nothing.",
     ["inputs", "histories"], "sampled arrangement types of two and three curves, those with most coincidences first",
     "Tests sweep two arrangements of circles; tangencies, half-circle ends and neighbours on the same tangent need particular positions (six defects were found).",
     [I + "sweep_segment_2_intersection.rs", K + "arc_segment_2.rs"], [("SweepSegment2Intersection on curved segments", I + "sweep_segment_2_intersection.rs")],
     technique="abstract interpretation of MIR per arrangement type: coordinates, radii and angles stay symbolic, comparisons are decided by the type's signs, event queue on an abstract heap, status through the sorted-tree contract",
     note="The pairwise intersections and the point-on-curve locations are used through their contracts (C17 to C21, C12, C13), the status tree as a sorted sequence (C22).")
prop("C29", "The JavaScript interface does what the kernel does",
     "Every operation exposed to JavaScript yields exactly what the kernel operation of the same name yields on the wrapped values, with arguments in the same order, and mutating operations change the wrapped value as the kernel's do. A segment of either kind is used as the kind it was declared with, for every pair of kinds.",
     ["inputs", "configs"], "all wrapped values, every pair of segment kinds, all collections",
     "The wrappers are only compiled for wasm32, where no test runs.",
     ["src/wasm/kernel/point_2.rs", "src/wasm/kernel/vector_2.rs", "src/wasm/kernel/segment_2.rs", "src/wasm/kernel/line_segment_2.rs", "src/wasm/kernel/circle_segment_2.rs", "src/wasm/kernel/arc_segment_2.rs", "src/wasm/kernel/triangle_2.rs", "src/wasm/kernel/polygon_2.rs", "src/wasm/algorithm/intersection/segment_2_segment_2.rs", "src/wasm/algorithm/intersection/sweep_segment_2_intersection.rs", "src/wasm/algorithm/convex_hull/convex_hull_2.rs", "src/wasm/algorithm/triangulation/earcut_2.rs", "src/wasm/algorithm/projection/point_2_line_segment_2.rs", "src/wasm/algorithm/location/point_2_polygon_2.rs", "src/wasm/algorithm/location/point_2_triangle_2.rs", "src/wasm/algorithm/location/point_2_arc_segment_2.rs", "src/wasm/algorithm/location/point_2_circle_segment_2.rs", "src/wasm/algorithm/location/point_2_line_segment_2.rs"],
     [("wrapper types and functions", "src/wasm")],
     technique="abstract interpretation of the wasm32 configuration's MIR: wrapper summaries compared with the kernel's on the wrapped values, kernel algorithms uninterpreted")
prop("C30", "No computation leaves the domain of the real functions",
     "For proper figures (distinct ends, non-zero directions and normals, positive radii) every square root is taken of a number that is not negative on that path, every division is made by a number that is not zero, and every arc cosine stays within [-1, 1]: no operation produces a NaN or an infinity from finite input. In the sweep this holds also where rounding puts the sweep line just beyond the end of a curve.",
     ["inputs"], "all proper figures, every path of the operations that divide or take roots",
     "A NaN only appears at tangencies, at vertical or parallel figures and at ends of curves; every comparison with it is false, so wrong answers follow silently.",
     [K + "vector_2.rs", K + "line_2.rs", A + "projection/point_2_line_2.rs", A + "projection/point_2_line_segment_2.rs", I + "line_2_line_2.rs", I + "line_segment_2_line_segment_2.rs", I + "line_segment_2_ray_2.rs", I + "line_segment_2_circle_segment_2.rs", I + "circle_segment_2_circle_segment_2.rs", I + "sweep_segment_2_intersection.rs"],
     [("divisions and square roots", "src"), ("calculate_segment_value, calculate_slope, calculate_tangent_slope", I + "sweep_segment_2_intersection.rs")],
     technique="effect analysis of MIR: each partial operation is recorded with its path condition and argument; discharged by sums of squares and the guards on the path")
prop("C31", "A polygon is simple exactly when its edges only meet at its vertices",
     "A polygon counts as simple exactly when consecutive edges share only their common vertex and no other two edges share a point: one that crosses itself, touches itself with a vertex, repeats a vertex or folds back on itself is not simple. The answer does not depend on the orientation or on whether the polygon is convex.",
     ["inputs"], "polygons with any number of vertices in any position",
     "Tests ask it of a square and of one crossing quadrangle; polygons that touch or repeat themselves quantify over all vertex lists (they were called simple).",
     [K + "polygon_2.rs"], [("Polygon2::is_simple", K + "polygon_2.rs")],
     technique="abstract interpretation of MIR per arrangement type of the edges: coordinates stay symbolic, comparisons are decided by the type's signs",
     note="The pairwise intersection and the point-on-segment location are used through their contracts (C17, C12), the status tree through the sorted-tree contract (C22).")
prop("C34", "Operations depend on their arguments alone and do nothing else",
     "No operation keeps or consults anything outside the values it is given: its result does not depend on earlier calls, on the thread, the time or the environment, and it prints nothing and touches no file. An operation that takes its values by shared reference changes nothing reachable from them.",
     ["inputs", "histories"], "every public operation, every path of its call graph",
     "A cache, a counter or a message in a rare branch shows in no single call's result; tests call each operation once or twice in a fresh process.",
     [K + "arc_segment_2.rs", K + "polygon_2.rs", K + "edge_2.rs", A + "triangulation/earcut_2.rs", I + "sweep_segment_2_intersection.rs", D + "avl_tree.rs"],
     [("every public function", "src")],
     technique="effect analysis of MIR over the call graph: statics, thread-locals, addresses, external calls and writes to cells",
     note="Calls into core and alloc are taken to be free of such effects, calls through type parameters go to every implementation in the crate.")
NA_ROUND = ("The error of each result depends on the magnitudes of the inputs at run time; the abstraction here is the exact reals, and no sound static bound in reach survives the cancellations in the determinants and square roots for unbounded inputs.")
prop("C32", "Results are accurate to the tolerance under floating-point rounding",
     "For inputs of ordinary magnitude, every computed point lies within the tolerance of the exact one, and no predicate differs from the exact answer for inputs further than the tolerance from its boundary.",
     ["inputs"], "all floating-point inputs of bounded magnitude",
     "Rounding errors depend on every bit of the inputs; tests compare exactly representable numbers.",
     [K + "number_type.rs"], [("NumberType for f32 and f64", K + "number_type.rs")], claim=False, na=NA_ROUND)
prop("C33", "The sweep takes O((n + k) log n) steps",
     "For n segments with k common points the sweep handles each event point once and makes a number of status updates bounded by a constant times n + k, each in logarithmic time.",
     ["inputs"], "any number of segments",
     "Tests use at most a dozen segments, where a quadratic sweep cannot be told from the promised one.",
     [I + "sweep_segment_2_intersection.rs"], [("SweepSegment2Intersection::intersection", I + "sweep_segment_2_intersection.rs")], claim=False,
     na="The number of steps is a run-time quantity (each update traverses the whole status in the current code, and event repetitions depend on rounding); no static cost bound in reach. Termination and each-point-once are decided for the enumerated arrangement types under C27 and C28.")
