NOTYET = "Addressable by this family; its check is still being built."

prop("C01", "Every hull algorithm returns exactly the convex hull of any finite points",
 "For every finite list of points with finite coordinates, each convex hull function (gift wrapping, Graham scan with and without angles, their index based versions, and the line string method) terminates and returns the strictly convex hull of exactly those points as a closed counter-clockwise loop whose corners are input points, whatever the order, repetition or collinearity of the input. One or two distinct points give a result containing just those points, no points give an empty one. The index based versions only return indices from the given list and describe the hull of only the listed vertices.",
 ["inputs"], "every point sequence (order, repetition, collinear and degenerate inputs), every index list, every vector type",
 "The tests compare a few dozen fixed point sets and one random set; repeated start points, all points on a line, three points and index lists with repetitions are not reached.",
 [CH], [("gift_wrap / indexed_gift_wrap", CH), ("graham_scan, graham_scan_wo_atan2, indexed_graham_scan", CH), ("rejection of points inside of or on the current hull edge", CH)],
 "exhaustive bounded enumeration of point sequences against an exact hull model",
 BOUND, ["returned corner lists"])

prop("C02", "The parallel hull is the same for every schedule and chunk size",
 "For every finite list of points, every chunk size of at least two and every number of worker threads, the parallel convex hull terminates and returns exactly the convex hull of the points, under every possible interleaving and work distribution of its tasks. The result never depends on which thread ran which part.",
 ["schedules", "inputs", "configurations"], "all steal decisions and resumption orders of the fork-join pool, preemptions inside tasks, chunk sizes, point lists",
 "A test runs one schedule of the pool per execution and cannot choose it; only a couple of chunk sizes and one data set are tried.",
 [CH], [("convex_hull_par and the combination of partial hulls", CH), ("parallel tangent search between two hulls", CH)],
 "stateless model checking of the real fork-join code under a controlled scheduler (all steals, bounded preemptions)",
 "Bounded as stated in the evidence. The real code and the real rayon iterators run; only the thread pool is replaced by a scheduler that enumerates every steal and resume decision.", ["returned corner lists"])

prop("C03", "Point-in-hull tests agree with the exact geometry of the hull",
 "For every convex hull given as a closed counter-clockwise loop, starting at any corner, the inclusive test of a point answers true exactly for the points inside of or on the outline, and the exclusive test exactly for the points strictly inside. An open line string of three or more points contains nothing.",
 ["inputs"], "every convex polygon, starting corner and query point, including points on edges, corners and internal diagonals",
 "The tests query a handful of points in one or two fixed hulls.",
 [CH, L2], [("binary search for the wedge containing the point", CH), ("contains_point_inclusive / contains_point_exclusive", CH)],
 "exhaustive bounded enumeration of hulls and query points against an exact model",
 BOUND, ["returned truth values"])

prop("C04", "Hull-in-hull tests agree with geometry and with each other on every schedule",
 "For every two convex hulls, the sequential and the parallel test whether one contains the other (inclusive and exclusive) give the same answer, which is true exactly when every corner of the inner hull passes the corresponding point test. The parallel answers do not depend on how the work is distributed or interleaved.",
 ["schedules", "inputs"], "every pair of hulls, every schedule of the parallel search",
 "The tests run one schedule on a few hull pairs.",
 [CH], [("contains_convex_hull and contains_convex_hull_par", CH)],
 "stateless model checking of the real parallel search under a controlled scheduler, on all hull pairs of a grid",
 "Bounded as stated in the evidence; real code, controlled thread pool.", ["returned truth values"])

prop("C05", "Segment intersection classifies every pair exactly and symmetrically",
 "For every two segments, either of which may be a single point, the intersection is reported as nothing, as one point or as an overlap exactly as the geometry says, with the right position or the right overlap ends. The classification does not depend on the order of the two segments or on their directions.",
 ["inputs"], "every pair of segments and points, in every order and direction, every vector type",
 "The tests use a few dozen pairs, mostly in one order and direction; parallel, collinear, touching and point-like pairs are only touched on.",
 [L2], [("Line2::intersection_point, bounding box rejection, parallel and collinear branch", L2), ("intersect_line_point", L2), ("Intersection::single / closest", L2)],
 "exhaustive bounded enumeration of segment pairs against an exact rational model",
 BOUND, ["returned classification and coordinates"])

prop("C06", "The sweep over a set of segments finds exactly all intersections",
 "For every set of segments with finite coordinates, the sweep-line search terminates and reports each place where two segments meet exactly once, together with exactly the segments passing through it, in every order and direction of the input. When asked to ignore meetings of end points, it leaves out exactly the places where segments only touch with their ends; when asked to stop early it reports one intersection if and only if there is any.",
 ["inputs", "histories", "configurations"], "every set of segments (event histories of the sweep), order, direction, option combination and hash seed",
 "The tests use some fixed sets; the order in which the active segments are visited depends on a random hash seed, which a test cannot vary or repeat.",
 [IS], [("event queue ordered by position", IS), ("active segments and their ranking next to the sweep point", IS), ("find_new_events", IS), ("report of the segments through a point", IS)],
 "explicit-state exploration: all segment sets of a grid x options x hash seeds, against an exact all-pairs model",
 BOUND + " The hash seed of the set of active segments is controlled and enumerated.", ["reported places and segment lists"])

prop("C07", "The indexed sweep finds exactly all intersections and keeps the vertices",
 "For every vertex list and every set of edges between the vertices, the index based sweep reports each place where two edges meet exactly once, together with exactly the edges passing through it, with the same rules for ignored end points and early stops as the sweep over plain segments. The returned vertex list starts with the given vertices unchanged, and every reported index refers to a vertex at the intersection.",
 ["inputs", "histories", "configurations"], "every vertex list, edge set, order, direction, option combination and hash seed",
 "The tests use some fixed graphs and check the number of results on the large one.",
 [II], [("event queue ordered by position", II), ("new vertices appended to the table", II), ("active edges and their ranking next to the sweep point", II)],
 "explicit-state exploration: all edge sets of a grid x options x hash seeds, against an exact all-pairs model",
 BOUND + " The hash seed of the set of active edges is controlled and enumerated.", ["returned vertices", "reported indices and edge lists"])

prop("C08", "Self-intersection of a line string is answered exactly, at every length",
 "For every line string, the self-intersection question is answered yes exactly when two of its segments share a point that lies in the interior of at least one of them (a crossing, an end touching another segment's inside, or an overlap). Segments that only meet with their end points, closed line strings and repeated points do not count as intersections. The answer follows the same rule for short and for long line strings, although they are decided by different algorithms.",
 ["inputs"], "every line string, on both sides of the length where the algorithm changes",
 "The tests ask about a handful of shapes; straight continuations, reversals and repeated points are missing, and no shape is asked on both sides of the switch.",
 [L2, IS], [("brute force over all pairs below ten points", L2), ("sweep with ignored end points and early stop from ten points on", L2), ("intersection of neighbours", L2)],
 "exhaustive bounded enumeration of line strings against an exact all-pairs model",
 BOUND, ["returned truth value"])

prop("C09", "Ramer-Douglas-Peucker keeps exactly the points the algorithm keeps",
 "For every line string in the plane or in space and every tolerance of zero or more, simplification keeps the first and the last point, only removes points, and keeps exactly the points of the Ramer-Douglas-Peucker recursion: between two kept points the farthest point from their segment is kept whenever it is more than the tolerance away, so that no removed point is farther than the tolerance from the segment that replaces it. The index based versions return indices of the given list only and choose the same points as the point based ones.",
 ["inputs", "configurations"], "every line string, index list and tolerance, including repeated points, points behind the ends of a segment and closed line strings",
 "The tests simplify a few fixed line strings with one or two tolerances; points beyond the ends of a segment in space, short index lists and repeated points are missing.",
 [S2, S3, L2, L3], [("simplify_rdp_recursive", S2), ("indexed_simplify_rdp", S2), ("simplify_rdp and indexed_simplify_rdp in space", S3), ("distance_to_line_squared_safe", L3)],
 "exhaustive bounded enumeration of line strings and tolerances against a nondeterministic reference model",
 BOUND + " Where several points are equally far away, every choice is accepted.", ["returned points and indices"])

prop("C10", "Visvalingam-Whyatt removes exactly the points of smallest area, in order",
 "For every line string in the plane or in space and every number of points to delete, simplification removes only inner points, each time one whose triangle with its current neighbours has the smallest area at that moment, until the wanted number is removed or the line cannot become shorter. The order of the remaining points and the first and last point of an open line string stay as they were. A closed line string in the plane is treated as a loop, where the repeated point counts as a point like the others.",
 ["inputs", "histories", "configurations"], "every line string, every number of deletions, every order of deletions among equal areas",
 "The tests delete from a few fixed line strings; the areas that change after a deletion and ties between them are not explored.",
 [S2, S3], [("areas kept in a heap, outdated entries skipped", S2), ("linked neighbours of the remaining points", S2), ("simplify_vw in space", S3)],
 "exhaustive exploration of all deletion orders of a reference model, compared with the real code on every line string of a grid",
 BOUND + " Where several points have the same area, every order is accepted.", ["returned points"])

prop("C11", "Edges are divided into shapes so that every edge is used exactly once",
 "For every list of edges, given as pairs of vertex indices in any order and direction, with repetitions, the division into shapes terminates and uses every different edge exactly once and no other edge. Shapes run through vertices where exactly two edges meet and end where one edge or more than two edges meet, or else form a closed loop. The returned flags mark exactly the vertices where two edges meet.",
 ["inputs"], "every edge list: graphs of all forms, orders, directions, repeated edges, loops and separate parts",
 "The tests divide a handful of fixed edge lists; loops at a crossing, several separate loops and repeated edges are missing.",
 [SH], [("adjacency_map", SH), ("following lines between crossings and ends, then the remaining loops", SH), ("termination_candidate_nodes", SH)],
 "explicit-state enumeration of all graphs up to a size, in several orders, against the definition",
 BOUND, ["returned shapes and flags"])

prop("C12", "Bounding boxes are exactly the smallest box of everything added",
 "After any history of adding points, lists of points and other boxes, and of applying order-preserving functions to its corners, a bounding box in the plane or in space spans exactly the smallest and largest coordinates of everything added. Its low and high corner, side lengths, center, outline, containment tests and comparison follow from that. An empty box contains nothing and is contained in nothing, and adding nothing changes nothing.",
 ["histories", "inputs"], "every history of operations on a box, and every pair of boxes and point",
 "The tests build a few boxes in one order; empty boxes, touching boxes and later additions after transformations are missing.",
 [L2, L3], [("Aabb2: update_with_point, update_with_aabb, update_with_points", L2), ("Aabb3: update_with_point, update_with_aabb", L3), ("contains_aabb_inclusive, contains_point_inclusive", L2)],
 "explicit-state exploration of operation histories on the real boxes, against an exact min/max model",
 BOUND, ["returned corners, sides, centers and truth values"])

prop("C13", "The affine transformation maps one box into another and back",
 "For every two boxes, the affine transformation maps the center of the source box to the center of the target box and scales all axes alike by the smallest side of the target over the largest side of the source, where a side counts as at least one. The source box then lies inside the target box when the target's sides are at least one long. Transforming forth and back returns the original point, the list versions agree with the single versions, and an error is returned exactly when a box is empty or the transformation is not finite. The default transformation is the identity, and a transformation made from its parts applies each offset and scale to its own axis.",
 ["inputs"], "every pair of source and target box, degenerate boxes included, and every point",
 "The tests transform a few points between two fixed boxes.",
 [L2], [("SimpleAffine::new", L2), ("transform_ab, transform_ba and their list versions", L2)],
 "exhaustive bounded enumeration of box pairs and points against a reference model",
 BOUND, ["returned points and errors"])

prop("C14", "Planes are recognised and dimensions copied without mixing up axes",
 "The plane of a box, line string or group of line strings in space is found exactly when precisely one of its axes is flat compared with its longest side, and it names that pair of axes. Copying points, lines and line strings to the plane keeps the two coordinates of that plane in the documented order, copying back puts them in the same place, and a point of the plane survives the round trip unchanged.",
 ["inputs"], "every set of points in space, every plane, every type that can be copied",
 "The tests copy single points; flatness limits, single points, and the copies of whole line strings are hardly tested.",
 [L3, L2], [("Plane::get_plane and get_plane_relaxed", L3), ("copy_to_2d for points, lines and line strings", L3), ("copy_to_3d for points, lines and line strings", L2)],
 "exhaustive bounded enumeration of point sets and planes against a reference model",
 BOUND, ["returned planes and coordinates"])

prop("C15", "Discretization divides evenly and never loses an original point",
 "For every line string in the plane or in space and every positive distance, infinity included, discretization returns every given point unchanged and in order, and divides each segment evenly into the smallest number of steps that are no longer than the distance. A segment without length counts as one step.",
 ["inputs", "configurations"], "every line string and every positive distance",
 "The tests discretize one line string with one or two distances.",
 [L2, L3], [("LineString2::discretize", L2), ("LineString3::discretize", L3)],
 "exhaustive bounded enumeration of line strings and distances against an exact step model",
 BOUND, ["returned points"])

prop("C16", "Parabolic arcs are sampled on the parabola and within the limit",
 "For every point and segment with finite coordinates and every positive limit, the samples of the parabolic arc start and end exactly at the given ends, every sample is equally far from the point and from the line of the segment, and the arc is never farther than the limit from the line through neighbouring samples. A piece of the arc is only divided where that is needed. In space the height of a sample is minus that distance. Sampling terminates for arcs without an extent as well.",
 ["inputs", "configurations"], "every point, segment, range of the arc and limit",
 "The tests sample a few fixed arcs and look at the number of samples.",
 [L2, L3], [("VoronoiParabolicArc::discretize_2d", L2), ("VoronoiParabolicArc::discretize_3d", L2)],
 "exhaustive bounded enumeration of arcs and limits against a reference model of the subdivision",
 BOUND, ["returned samples"])

prop("C17", "Intersecting a line string with a segment or a ray finds every hit",
 "For every line string and every segment, all intersections are returned, one per segment of the line string and in its order; asking for the first returns the first of them; asking for two finds both places where the segment crosses the outline of a convex loop. For every ray, the intersection with a segment is the nearest place on the ray at a distance of zero or more, and the closest hit of a line string is the nearest of all its segments, leaving out those that go through the origin of the ray. Nothing behind the origin is ever reported.",
 ["inputs"], "every line string, segment and ray in every relative position",
 "The tests use a few fixed shapes; touching, collinear and opposite directions are missing.",
 [L2], [("intersection queries of LineString2 and LineStringSet2", L2), ("ray_edge_intersection", L2), ("closest_ray_intersection", L2)],
 "exhaustive bounded enumeration of line strings, segments and rays against an exact rational model",
 BOUND, ["returned points and intersections"])

prop("C19", "Iterating and transforming line strings visits every part exactly once",
 "For every line string in the plane or in space, open or closed, the connectedness answer and the number of points (a closing point is not counted) are as documented, the window iterator yields exactly the lines between consecutive points, in order, the chunk iterator takes the points in separate pairs and hands out an odd last point as the remainder, both always know how many lines are left, and applying a function changes every point exactly once. Lines made from numbers or points have exactly these coordinates in that order.",
 ["inputs", "histories"], "every line string of every length, open or closed, and every position of the iterators",
 "The tests iterate over a few fixed line strings; short lists, chunk borders and closed lists of minimal length are missing.",
 [L2, L3, I2, I3], [("window_iter, chunk_iter, is_connected, point_count", L2), ("the same in space", L3), ("From and Into implementations", I2), ("From and Into implementations in space", I3)],
 "exhaustive bounded enumeration of line strings and operations against a reference model",
 BOUND, ["returned lines, chunks and coordinates"])

prop("C20", "Distances to segments are exact, clamped to the ends of the segment",
 "For every segment and point in the plane and in space, the squared distance from the point to the segment is the squared distance to the nearest point of the segment, ends included, in the fast as well as in the safe version. For the safe version a segment without length counts as a point. Moving a point along a vector by a multiple gives exactly that point.",
 ["inputs"], "every segment, including points, and every query point, in every vector type",
 "The tests measure a few distances; points beyond the ends and segments without length are missing.",
 [L2, L3], [("distance_to_line_squared and distance_to_line_squared_safe", L2), ("the same in space", L3), ("scale_to_coordinate", L2)],
 "exhaustive bounded enumeration of segments and points against an exact rational model",
 BOUND, ["returned distances and points"])

prop("C23", "Approximate comparison follows the coordinates and the documented rules",
 "For every two lines in the plane, equality compares both ends in order, while the approximate comparisons by absolute difference and by units in the last place accept the lines in either direction and answer true exactly when all ends agree within the limit. The approximate comparison of line strings holds exactly when they have as many points and all points agree in order. All comparisons are symmetric, and every value with finite coordinates is approximately equal to itself.",
 ["inputs"], "every pair of lines and line strings, differing in one or more coordinates by less or more than the limit",
 "The tests compare a few equal or clearly different lines.",
 [I2, L2], [("AbsDiffEq and UlpsEq of Line2", I2), ("AbsDiffEq and UlpsEq of LineString2", I2)],
 "exhaustive bounded enumeration of pairs against the definition",
 BOUND, ["returned truth values"])

prop("C18", "A saved .obj file contains exactly the given lines, or an error is returned",
 "For every list of groups of lines in space, the saved .obj file carries the given object name and contains every different point once and every line once, in the given order, and reading the numbers back gives exactly the saved coordinates. An older file of any length is replaced completely, and saving the same lines again gives the same file. Whenever the file can't be created or any part of it can't be written, down to the last byte, an error is returned.",
 ["inputs", "fault_sequences"], "every list of lines and grouping, every coordinate value, every byte at which the device is full, every kind of unusable path",
 "One test saves one file and looks at nothing but the success; write errors can't be provoked by it.",
 [L3], [("save_to_obj_file: table of different points", L3), ("save_to_obj_file: buffered writing and final flush", L3)],
 "exhaustive fault injection (device full after every byte) and enumeration of line lists, read back and compared",
 "Bounded as stated in the evidence. The real function writes real files in a scratch directory; the device that fills up is a file size limit of the process.", ["the saved file", "returned errors"])

prop("C22", "Coordinates that are not finite are refused, never turned into a result",
 "Whenever one of three or more different points has a coordinate that is NaN or infinite, every convex hull function returns an error, sequential or parallel under every schedule, whatever the position of that point; the index based functions do so when it is listed and ignore it when it is not. Both sweep-line searches return an error exactly when a line has such a coordinate, and so does the self-intersection question of long line strings. All of these calls return, and none of them panics. Finite coordinates are not refused by the sweeps and the hulls in use (all but the deprecated one), however large they are.",
 ["inputs", "schedules"], "every position and kind of a bad coordinate, every order of points, every schedule of the parallel hull",
 "The tests have a few examples with one NaN at one place.",
 [CH, IS, II], [("find_lowest_x, indexed_find_lowest_x and ensure_finite", CH), ("with_lines", IS), ("with_edges", II)],
 "exhaustive bounded enumeration of inputs with bad coordinates, with all schedules of the parallel hull",
 "Bounded as stated in the evidence; real code, controlled thread pool.", ["returned errors"])

prop("C24", "Sweeps built step by step give the same as when built at once",
 "Whatever the order in which options are set, changed and lines or edges are added to a sweep-line search, in one or several batches, empty ones included, the result is that of all added lines together, numbered in the order in which they were added, with the last value given for each option. The search lists exactly the lines that were added, and its number of results is the announced one.",
 ["histories"], "every history of builder calls",
 "The tests always set the options first and add one batch of lines.",
 [IS, II], [("with_lines and the options of the search", IS), ("with_edges and the options of the search", II)],
 "explicit-state exploration of builder histories on the real searches, against an exact all-pairs model",
 BOUND, ["reported places and line numbers", "get_lines"])

prop("C25", "Orientation tests agree with the exact geometry",
 "For every three points whose coordinates and cross product are exactly representable, the cross product is exactly twice the signed area of their triangle, positive when the third point is to the left of the line from the first to the second. The orientation is left, right or collinear exactly as that sign says, in every order of the points, for thin triangles and for repeated points as well. The tests that allow collinear points also accept points on the line, in front of, behind and between the two points; the other ones never do.",
 ["inputs"], "every point triple, in every order and vector type, at every scale",
 "The tests and examples look at one or two triangles; points behind the line's start, repeated points and thin triangles are missing.",
 [CH], [("cross_2d", CH), ("point_orientation, is_point_left, is_point_left_allow_collinear", CH), ("Orientation::is_left and is_left_or_collinear", CH)],
 "exhaustive bounded enumeration of point triples against exact integer arithmetic",
 BOUND, ["returned orientations and cross products"])

prop("C26", "Printed lines and boxes read back as exactly the same values",
 "The printed form of every line in the plane and in space, of an overlap and of every bounding box in the plane with finite coordinates shows all of its coordinates, in order, start before end and low before high corner, each as a decimal number with at least one decimal. Reading a number back gives exactly the coordinate, whatever its size or sign. An empty box is printed without coordinates.",
 ["inputs"], "every combination of coordinates, every 32 bit float, every exponent of a 64 bit float",
 "The tests never look at printed values.",
 [LIB, I2, I3], [("format_float", LIB), ("Debug of Line2, Intersection and Aabb2", I2), ("Debug of Line3", I3)],
 "exhaustive bounded enumeration of coordinate values, printed and read back",
 BOUND, ["printed text"])
