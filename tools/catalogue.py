#!/usr/bin/env python3
"""The list of properties and checks; writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "capi/src/implementation/visibility_graphs/code/"
PYI = "capi/src/implementation/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or [], thorough=thorough))


VIS = [C + "visgraph/visgraph_generator.cpp", C + "visgraph/vistree_generator.cpp", C + "datastructures/open_edges/open_edges.cpp",
       C + "geom/angle_sorter/angle_sorter.cpp", C + "types/polyline/three_vertex_polyline.cpp",
       C + "types/line_segment/line_segment.cpp", C + "coordinate_periodicity/coordinate_periodicity.cpp"]
SPC = [C + "shortest_path/shortest_path_computer.cpp", C + "datastructures/modified_graph/modified_graph.cpp",
       C + "datastructures/spatial_segment_index/spatial_segment_index.cpp", C + "visgraph/vistree_generator.cpp"]
DISJ = "polygons are simple and pairwise disjoint, as coast lines are"
ORACLE = ("Trusts a brute-force oracle of its own, in exact 128-bit integer arithmetic, and the generators' reach; legs which "
          "run along or within three microdegrees of a coast line are left undecided (below the resolution of a coordinate).")

prop("C01", "No edge of a visibility graph crosses land",
     "For every set of disjoint coast line polygons, every edge of the generated visibility graph joins two corners between which a "
     "straight line, drawn on the longitude/latitude plane, does not pass through the inside of any polygon. An edge that is not "
     "flagged as crossing the antimeridian is such a line drawn directly; one that is flagged is such a line drawn over the antimeridian.",
     ["inputs"], "every set of simple, pairwise disjoint polygons, anywhere on the globe, including at the antimeridian, and every pair of their corners",
     "The tests draw about a dozen small scenes; a sweep goes wrong only for particular orders of corners and coast lines.",
     VIS, [("rotational sweep with open edges", C + "visgraph/vistree_generator.cpp:44"), ("copies of the land shifted by one turn", C + "coordinate_periodicity/coordinate_periodicity.cpp:44")],
     "property-based testing: generated coast lines against an exact brute-force visibility oracle", ORACLE)
prop("C02", "A visibility graph has an edge wherever two corners see each other",
     "For every set of disjoint coast line polygons, two corners whose straight connection on the longitude/latitude plane, directly or "
     "over the antimeridian, touches no land are joined by an edge in both directions. The edge is flagged as crossing the antimeridian exactly "
     "when the direct connection is blocked. The graph has exactly the corners of the polygons as vertices, and keeps the polygons.",
     ["inputs"], "every set of simple, pairwise disjoint polygons, anywhere on the globe, including at the antimeridian, and every pair of their corners",
     "The tests compare a dozen small scenes with hand-written edge lists; a missing edge elsewhere is invisible to them.",
     VIS, [("rotational sweep with open edges", C + "visgraph/vistree_generator.cpp:44"), ("half scan plus symmetric edges", C + "visgraph/visgraph_generator.cpp:60")],
     "property-based testing: generated coast lines against an exact brute-force visibility oracle", ORACLE)
prop("C03", "An observer anywhere sees exactly the visible corners",
     "An observer at sea, on a corner or on a coast line sees a corner if the straight line to it touches no land, and does not see it if that line "
     "passes through land; each corner is reported at most once per way (directly, or over the antimeridian eastwards or westwards), never the observer itself. "
     "A half scan reports the same for the corners north of, or level with, the observer, and no corner south of it.",
     ["inputs"], "every set of simple, pairwise disjoint polygons and every observer that is not inside land",
     "The tests place about ten observers by hand, most of them at sea in general position.",
     VIS, [("sweep around the observer", C + "visgraph/vistree_generator.cpp:44"), ("barrier at the observer's own corner", C + "types/polyline/three_vertex_polyline.cpp:12")],
     "property-based testing: generated scenes and observers against an exact brute-force visibility oracle", ORACLE)
prop("C04", "A returned route joins its ends and never crosses land",
     "Every route that is returned for two points at sea starts at the first, ends at the second, and each of its legs joins points that see each other, directly or over "
     "the antimeridian; all points in between are corners of coast lines, none visited twice. A route is the two points alone exactly when the great circle arc between them meets no coast line. "
     "If a route exists, one is returned; otherwise an error is raised.",
     ["inputs"], "every set of disjoint polygons, every pair of points at sea, every search limit and weighting",
     "The tests ask for some twenty routes in fixed scenes.",
     SPC, [("A* over the visibility graph with both ends added", C + "shortest_path/shortest_path_computer.cpp:80"), ("great circle shortcut", C + "shortest_path/shortest_path_computer.cpp:40")],
     "property-based testing: generated scenes and queries; each leg checked by an exact brute-force oracle, shortcut by a brute-force spherical one", ORACLE)
prop("C05", "A returned route is as short as possible",
     "With a greediness weighting of at most one and no search limit, no sequence of legs over corners of coast lines from the source to the destination is shorter than the returned route, whose "
     "length is measured on the longitude/latitude plane, over the antimeridian where a leg crosses it.",
     ["inputs"], "every set of disjoint polygons and every pair of points at sea or corners that are not joined by a free great circle arc",
     "The tests compare a few routes with hand-written ones; an A* that stops early or an inconsistent heuristic errs only on particular graphs.",
     SPC, [("A* with an admissible heuristic", C + "shortest_path/shortest_path_computer.cpp:80"), ("distance over the antimeridian", C + "shortest_path/shortest_path_computer.cpp:183")],
     "property-based testing: route lengths against Dijkstra on a visibility graph built by definition", ORACLE)
prop("C06", "A greedy route is longer by at most the weighting",
     "With a greediness weighting w of at least one and no search limit, the returned route is at most w times as long as the shortest route; with a weighting of zero to one it is a shortest route. "
     "A weighting never makes a query fail that succeeds without it, and never changes whether the route is the direct one.",
     ["inputs"], "every scene, pair of points and weighting",
     "The tests use the weighting in one or two calls, without comparing lengths.",
     SPC, [("weighted heuristic in the queue order", C + "shortest_path/shortest_path_computer.cpp:66")],
     "property-based testing: bounded suboptimality against Dijkstra, and metamorphic comparison between weightings", ORACLE)
prop("C07", "A search limit confines the search and nothing else",
     "With a limit on the distance from the source (where the route starts, should an end on land have been moved to the coast), a route that goes over corners visits only points (the destination included) whose distance from the source, taken the shorter way around the globe, is at most the limit, and "
     "it is a shortest one among those; an error is raised only if there is none. A limit that no point of the unlimited route exceeds gives a route of the same length.",
     ["inputs"], "every scene, pair of points and limit, including limits exactly at a corner's distance",
     "The tests try one or two limits.",
     SPC, [("distance filter on neighbours", C + "shortest_path/shortest_path_computer.cpp:95")],
     "property-based testing: limits drawn around corner distances, against Dijkstra on the confined graph", ORACLE)
prop("C08", "Ends on land are refused, or moved to the nearest coast",
     "Without land correction a query fails exactly when an end lies inside land (or no route exists); with it, an end inside land is replaced by the nearest point of the coast, to within a few microdegrees, while an end at sea stays as it is. "
     "The corrected route leaves each corrected end on the sea side, does not cut through land, and is no longer than the best one over the corners which the corrected ends see.",
     ["inputs"], "every scene and every pair of points of which one, both or none are inside land, with correction on or off",
     "The tests correct a handful of points in fixed scenes.",
     SPC + [C + "types/line_segment/line_segment.cpp"], [("containment and closest edge queries", C + "shortest_path/shortest_path_computer.cpp:196"), ("projection onto the edge", C + "types/line_segment/line_segment.cpp:108")],
     "property-based testing: generated points on land against brute-force spherical containment and distance, and exact planar leg checks", ORACLE)
prop("C09", "A batch answers each query as if it were asked alone",
     "The result of a batch has one entry per query, in order; each entry is the route which the same query gives on its own or, where that raises an error, no route and that error's message. "
     "This does not depend on the number of threads, on the other queries of the batch, or on repeated queries.",
     ["inputs", "schedules"], "every scene, list of queries (empty, repeated, failing, on land) and thread count from 1 to 16",
     "The tests batch a few queries once, with the default threads.",
     SPC, [("parallel loop with one slot per query", C + "shortest_path/shortest_path_computer.cpp:148")],
     "property-based testing: differential, batch against single queries, over thread counts", "Differential against the single-query call, which C04-C08 decide; schedules are those the machine happens to run.")
prop("C10", "A saved graph loads back unchanged",
     "Loading a file to which a visibility graph was saved yields an equal graph: the same polygons in the same order, the same edges with the same antimeridian flags, the same routes. This holds for any number of vertices, edges and polygons, "
     "also when the file existed before with other, longer or shorter content; saving the loaded graph again writes the same bytes.",
     ["inputs", "histories"], "every set of polygons, set of edges and flags, and sequence of saves to the same path",
     "The tests save a handful of graphs to fresh files.",
     [C + "serialization/graph_serializer.cpp", C + "datastructures/graph/graph.cpp"], [("bit-packed triangular matrix", C + "serialization/graph_serializer.cpp:104"), ("list of antimeridian edges", C + "serialization/graph_serializer.cpp:134")],
     "property-based testing: round trip of generated graphs and histories of overwrites, against a set-based model", "Trusts the model of a graph (sets of pairs) and the file system of the sandbox; graphs up to a few hundred vertices.")
prop("C11", "A truncated or damaged graph file is refused safely",
     "Loading a path that does not exist, is empty, or is a saved graph cut short at any byte raises an error, unless the whole graph is still there (a file ends in some padding). Loading a file of arbitrary bytes either raises an error or "
     "yields a usable graph; it never crashes, reads outside the file, hangs, or takes memory out of proportion to the file.",
     ["inputs", "fault_sequences"], "every file content: every truncation of a saved graph, byte and field edits of one, arbitrary bytes",
     "No test loads anything but intact files.",
     [C + "serialization/graph_serializer.cpp"], [("bounds checks on reading", C + "serialization/graph_serializer.cpp:307")],
     "fuzzing: structured mutation of saved graphs under AddressSanitizer/UBSan with exhaustive truncation; coverage-guided libFuzzer in the thorough tier", "Memory errors are those the sanitizers see; a corruption that still describes a graph cannot be told from one.")
prop("C12", "Graphs of split vertex ranges merge to the whole graph",
     "For every set of polygons, seed and division of the shuffled vertex range into parts, merging the graphs generated for the parts yields a graph equal to the one generated at once; each part has a subset of its edges (one over the antimeridian in the whole is so in every part), and an empty part has none. "
     "A range outside the vertices or with its ends swapped is refused.",
     ["inputs", "configurations"], "every set of polygons, seed, number of parts and cut points",
     "The tests split two scenes in one way each.",
     [C + "visgraph/visgraph_generator.cpp", C + "datastructures/graph/graph.cpp"], [("seeded shuffle", C + "visgraph/visgraph_generator.cpp:88"), ("merge", C + "datastructures/graph/graph.cpp")],
     "property-based testing: metamorphic, split and merge against whole generation", "Whole generation is itself decided by C01 and C02.")
prop("C13", "Merging graphs gives the union, in any order",
     "The merge of graphs has the union of their polygons, each once, the union of their vertices (those which belong to no polygon too), and the union of their edges; an edge which any of them has as direct is direct, otherwise it crosses the antimeridian. The result does not depend on the order, "
     "repetition or grouping of the graphs or on the number of threads, the merge of one graph equals it, and the merged graphs are left as they were.",
     ["inputs", "schedules"], "every list of graphs over overlapping or disjoint sets of polygons, every order and grouping, 1 to 16 threads",
     "The tests merge two or three fixed graphs.",
     [C + "datastructures/graph/graph.cpp"], [("union under per-vertex locks", C + "datastructures/graph/graph.cpp")],
     "property-based testing: merge against a set-based reference model, plus algebraic laws", "Trusts the set model; schedules are those the machine happens to run.")
prop("C14", "A graph answers as the set of edges put into it",
     "After any sequence of adding and removing edges and directed edges and adding vertices, a graph's vertices, neighbours, edge and antimeridian queries answer as a plain map from ordered vertex pairs to flags would; a pair that has been added "
     "both ways is not antimeridian crossing until it is removed; self-edges are ignored; operations on unknown vertices fail and change nothing.",
     ["histories"], "every sequence of operations on graphs of any size",
     "The tests run a few fixed sequences.",
     [C + "datastructures/graph/graph.cpp"], [("flat adjacency array", C + "datastructures/graph/graph.cpp")],
     "stateful property-based testing against a reference model", "Trusts the model; up to a few hundred vertices and operations per history.")
prop("C15", "A graph overlay equals editing a copy, and leaves its base alone",
     "After any sequence of adding and removing edges and adding vertices, an overlay over a graph (which route queries use for their end points) answers every vertex, neighbour, edge and antimeridian query as the same edits on a copy of the graph would. "
     "The base graph is never changed, so a route query never influences another.",
     ["histories"], "every base graph and sequence of operations on overlays of it, nested or side by side",
     "The tests run a few fixed sequences.",
     [C + "datastructures/modified_graph/modified_graph.cpp", C + "shortest_path/shortest_path_computer.cpp"], [("overlay of present and removed edges", C + "datastructures/modified_graph/modified_graph.cpp")],
     "stateful property-based testing against a reference model and the plain graph", "Trusts the model.")
prop("C16", "Concurrent edge updates of a graph lose nothing",
     "When several threads add and remove edges of one graph and query it at the same time, there is no data race or deadlock, every query sees a state between the updates, and once the threads have finished the graph has exactly the edges which the updates leave, as if they had run one after another.",
     ["schedules"], "every assignment of operations on shared vertices to threads, and every interleaving of them",
     "The tests use a graph from several threads only through the generator, and cannot see a race that does not corrupt the result.",
     [C + "datastructures/graph/graph.cpp"], [("per-vertex shared mutexes in index order", C + "datastructures/graph/graph.cpp")],
     "property-based testing of generated concurrent histories, under ThreadSanitizer, against a sequential model", "Interleavings are sampled (ThreadSanitizer's happens-before check generalises over those with the same synchronisation); the model needs commuting updates or disjoint pairs.")
prop("C17", "Generation and routing do not depend on threads or chance",
     "Generating the visibility graph of the same polygons gives an equal graph whatever the number of threads and however often it is repeated, and the result does not depend on the polygons' order. "
     "Asking the same route of the same graph again gives the same route.",
     ["schedules", "configurations"], "every scene and thread counts from 1 to 16",
     "The tests generate each scene once, with the machine's thread count.",
     [C + "visgraph/visgraph_generator.cpp", C + "datastructures/graph/graph.cpp", C + "shortest_path/shortest_path_computer.cpp"], [("parallel loop with locked edge additions", C + "visgraph/visgraph_generator.cpp:48")],
     "property-based testing: repetition under varied thread counts, compared with single-threaded generation", "Schedules are those the machine happens to run.")
prop("C18", "A polygon is its outline, however it is written down",
     "A polygon made from a simple outline has exactly the outline's corners, counter-clockwise, in the outline's cyclic order: points within a straight stretch and repeated points (the closing one too) are dropped, a clockwise outline is reversed, and making a polygon from its own corners changes nothing. "
     "Polygons are equal exactly if their corners are the same, in the same order from the same start, and equal ones have equal hashes.",
     ["inputs"], "every simple outline, its direction, start, and extra collinear or repeated points",
     "The tests normalise a few outlines.",
     [C + "types/polygon/polygon.cpp"], [("collinear filter and orientation by winding sum", C + "types/polygon/polygon.cpp")],
     "property-based testing: generated outlines with known corners, rewritten in equivalent ways, against an exact canonical form", "Coordinates are whole microdegrees on the globe; outlines from one microdegree up.")
prop("C19", "Coordinates are exact microdegrees",
     "A coordinate keeps whole microdegrees exactly and degrees to within one microdegree; equality and hash agree with the microdegrees, sums, differences and negations are exact, products and quotients by a number are within one microdegree. "
     "Cross and dot products, turn direction, collinearity and squared length in microdegrees are exact for all coordinates of the extended globe.",
     ["inputs"], "all coordinates with longitudes within 540 and latitudes within 90 degrees and all vectors between them",
     "The tests evaluate some fixed vectors.",
     [C + "types/coordinate/coordinate.cpp"], [("int32 storage, 64-bit products", C + "types/coordinate/coordinate.cpp")],
     "property-based testing: arithmetic against 128-bit integer references, boundary-biased", "Trusts 128-bit integer and long double arithmetic.")
prop("C20", "Longitudes wrap around the antimeridian consistently",
     "Bringing a coordinate back into range shifts it by whole turns, keeps the latitude, yields a longitude within plus or minus 180 degrees, leaves a coordinate in range alone and is undone by nothing (idempotent); it inverts each of the three copies of a coordinate. "
     "A coordinate is over the meridian exactly if it is out of that range; copies of polygons and segments are congruent, and a route query gives the same answer for an end given one turn further east or west.",
     ["inputs"], "all coordinates up to several turns away, polygons, segments and route queries",
     "The tests wrap a few coordinates.",
     [C + "coordinate_periodicity/coordinate_periodicity.cpp", C + "constants/constants.hpp", C + "shortest_path/shortest_path_computer.cpp"], [("one turn is 360000001 microdegrees", C + "constants/constants.hpp")],
     "property-based testing: algebraic laws and metamorphic route queries", "The length of a turn (one microdegree over 360 degrees, so that +180 and -180 stay distinct) is taken from the project's constants.")
prop("C21", "Moving or mirroring the world moves or mirrors the results",
     "Shifting all land in latitude or longitude (clear of the antimeridian), mirroring it north-south or east-west, or writing its polygons down in another order, direction or from another corner, changes a visibility graph only by the same transformation. "
     "Route lengths between corresponding corners follow, and the route back is as long as the route there.",
     ["inputs"], "every scene, transformation and pair of corners",
     "No test compares a scene with a transformed one.",
     VIS + [C + "shortest_path/shortest_path_computer.cpp"], [("sweep, barrier and distance arithmetic", C + "visgraph/vistree_generator.cpp:44")],
     "metamorphic property-based testing", "Edges which run along or within three microdegrees of a coast line are left out (a half scan may settle them either way).")
prop("C22", "Segment geometry agrees with exact arithmetic",
     "For two segments the intersection is reported exactly when they meet and are not parallel, or are parallel and share an end, and it lies within one microdegree of the exact point. The side of a point, whether it lies on a segment, equality (in either direction), the hash and the other end agree with exact arithmetic, "
     "and the projection of a point onto a segment is on the segment and nearest to the point, within a few microdegrees.",
     ["inputs"], "all segments between coordinates of the extended globe (projection: of the globe), with shared ends, touching, collinear and nearly parallel ones",
     "The tests intersect about twenty fixed pairs.",
     [C + "types/line_segment/line_segment.cpp"], [("integer determinant test", C + "types/line_segment/line_segment.cpp:27"), ("S2 projection", C + "types/line_segment/line_segment.cpp:108")],
     "property-based testing: against 128-bit integer references, degenerate-biased", "Trusts 128-bit integer arithmetic and S2's point-to-edge distance.")
prop("C23", "Spatial queries find what a look at every coast line finds",
     "For every set of polygons, the coast lines crossed by a segment, those within a distance of a point, the closest one, and whether a point is inside land are those which examining every coast line and polygon on the sphere gives; crossed coast lines come in order of their distance from the segment's start.",
     ["inputs"], "every set of disjoint polygons, query point, segment and distance",
     "The tests query a few small scenes, where any traversal of the index works.",
     [C + "datastructures/spatial_segment_index/spatial_segment_index.cpp", C + "types/polygon/polygon.cpp"], [("S2 shape index queries", C + "datastructures/spatial_segment_index/spatial_segment_index.cpp")],
     "property-based testing: indexed queries against brute force with S2's exact predicates", "Trusts S2's predicates on single edges and loops.")
prop("C24", "Shapefile polygons are read as they were written",
     "Reading a shapefile yields one polygon per polygon record, in order, with the points of the record's outer ring exactly, without the closing point; further rings, records of other kinds, empty records and rings with fewer than three corners contribute nothing. "
     "Polygons given as sequences of coordinates keep them, refuse fewer than three, and compare by them.",
     ["inputs"], "every shapefile of polygon and null records with one or more rings of any length, and polygon lists",
     "The tests read one or two shipped files.",
     [PYI + "shapefiles/shapefile_reader.py", PYI + "datastructures/polygon.py", PYI + "dtos/coordinate.py"], [("first part of each record", PYI + "shapefiles/shapefile_reader.py")],
     "property-based testing (Hypothesis): write generated shapefiles, read back", "Trusts pyshp's writer.")
prop("C25", "From shapefile to route, the stages agree",
     "The graph stored for a shapefile is the visibility graph of the polygons in it; graphs stored for all parts of a split, merged in any order, are equal to it; and routes interpolated from the stored graph are those computed on the graph in memory, "
     "with longitude and latitude kept apart. Generating or merging into an existing folder fails and leaves what is there unchanged.",
     ["inputs", "configurations", "histories"], "every shapefile, number of parts, seed and query",
     "The tests run the pipeline on one shipped file; the path interpolator's own tests are not among the reliable ones.",
     [PYI + "graph_generator.py", PYI + "graph_merger.py", PYI + "path_interpolator.py", PYI + "datastructures/graph_file_paths.py", PYI + "visibility_graphs/bindings.cpp"],
     [("split arithmetic", PYI + "graph_generator.py:40"), ("conversion to microdegrees", PYI + "visibility_graphs/bindings.cpp")],
     "property-based testing (Hypothesis) of the whole Python pipeline, differential between its stages and against the in-memory API", "The in-memory API is decided by C01-C13.")
prop("C26", "Interpolated batches mark failures and keep the rest",
     "Interpolating a batch gives one entry per pair, in order: the path which interpolating the pair alone gives, or None together with a warning that names the error. Limits, land correction and weighting have the same meaning as for a single pair, and a single pair that fails raises.",
     ["inputs", "configurations"], "every scene, list of pairs, and combination of options",
     "No reliable test calls the path interpolator.",
     [PYI + "path_interpolator.py", PYI + "visibility_graphs/bindings.cpp"], [("conversion of batch results", PYI + "path_interpolator.py:85")],
     "property-based testing (Hypothesis): batch against single calls, options on and off", "Differential against the single call.")
prop("C27", "Graphs are equal exactly if their vertices and edges are",
     "Two graphs compare equal exactly if they have the same vertices and the same edges with the same antimeridian flags, whatever the order in which polygons, vertices and edges were added; adding, removing or re-flagging one edge makes them unequal. Equal graphs print the same.",
     ["inputs", "histories"], "every pair of graphs, including with vertices whose hashes collide",
     "The tests compare a few small graphs.",
     [C + "datastructures/graph/graph.cpp"], [("canonical text of sorted vertices", C + "datastructures/graph/graph.cpp")],
     "property-based testing: pairs of graphs built by different histories, against set equality; hash collisions constructed", "Trusts the set model.")
prop("C28", "Corners are swept counter-clockwise, nearest first",
     "Sorting points around an observer puts them in the order of their angle, counter-clockwise from due east, and points in the same direction by distance; it permutes its input, accepts any start order with the same result, and tolerates repeated points and the observer among the points, also repeatedly.",
     ["inputs"], "every observer and list of points, with many in the same or opposite directions",
     "The tests sort three short lists.",
     [C + "geom/angle_sorter/angle_sorter.cpp", C + "types/coordinate/coordinate.cpp"], [("angle comparison with a collinear tie-break", C + "geom/angle_sorter/angle_sorter.cpp")],
     "property-based testing: against an exact half-plane/cross-product order", "Directions that differ by less than 1e-14 radians (possible only for points thousands of kilometres away) are not generated apart.")
prop("C29", "No valid use causes undefined behaviour or a hang",
     "Generating graphs, asking for visible corners and routes, saving, loading and merging, for any polygons on the globe (touching the antimeridian or the poles, tiny or world-spanning, hundreds of corners, none at all) and any query options, finishes without memory errors, integer overflow or other undefined behaviour, and fails only by raising an error.",
     ["inputs"], "every scene, query, weighting (zero and large), limit (zero, negative, infinite) and option; polygons may also be degenerate, touching or overlapping",
     "The tests run without sanitizers on well-behaved scenes.",
     VIS + SPC + [C + "serialization/graph_serializer.cpp"], [("64-bit products, locks, checked lookups", C + "types/coordinate/coordinate.cpp")],
     "fuzzing of whole sessions over the API under AddressSanitizer and UndefinedBehaviorSanitizer", "Errors are those the sanitizers and a CPU-time limit see.")

prop("C30", "The open coast lines of a sweep are a set that knows its closest",
     "The coast lines which a sweep keeps open form a set: after any sequence of additions and removals, one is in it exactly if it has been added and not removed since, in whichever direction it is written; the closest one is one that was opened at the smallest distance "
     "of those still open, also when distances are equal; removing one that is not open changes nothing.",
     ["histories"], "every sequence of additions and removals of coast lines, with equal, small and very large distances",
     "The tests add and remove a few coast lines.",
     [C + "datastructures/open_edges/open_edges.cpp", C + "types/line_segment/line_segment.cpp"], [("map ordered by distance and map by coast line", C + "datastructures/open_edges/open_edges.cpp")],
     "stateful property-based testing against a reference model", "Trusts the model, a map from coast line to distance. Whether the open coast lines obstruct a view is decided by C01 to C03.")

prop("C31", "The extension module does in Python what its classes promise",
     "From Python, coordinates take longitude before latitude and are vectors in degrees; polygons have their outline's corners; a graph answers as the set of edges added to it, what it hands out are copies, and it comes back from a file and a merge with its edges; "
     "observers see the corners in sight, half scans no corner to the south; routes join their ends over corners without crossing land and as short as possible; options mean the same by name, by position and in a batch; failures are raised as RuntimeError with a message and change nothing.",
     ["inputs", "histories"], "every scene, vector, history of added edges, observer, query and option given from Python",
     "The tests of the Python layer generate and merge the graph of two shipped files, and nothing else of the module.",
     [PYI + "visibility_graphs/bindings.cpp", PYI + "visibility_graphs/__init__.py"], [("pybind11 definitions of the classes and functions", PYI + "visibility_graphs/bindings.cpp:25")],
     "property-based testing (Hypothesis): the module against models in Python integers, brute-force visibility and Dijkstra",
     "Trusts models of its own in Python integers; islands are small and lie on a lattice of 1/64 degree, the geometry in depth is decided by C01 to C08.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    have = {os.path.basename(x)[:3] for x in os.listdir(os.path.join(V, "checks"))}
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "CAPI_VERIF_HOOKS", "enable": "tools/vbuild.py passes -DCAPI_VERIF_HOOKS; no hook has been needed so far, so no commit in /repo uses it",
                  "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                    "level_note": p["note"]} for p in P if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": p["technique"]} for p in P if p["id"] not in have],
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
