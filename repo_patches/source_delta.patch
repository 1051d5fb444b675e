From 129db4829085d59d32df2b72dac2e0079c8223ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/19] fix: visibility scan must test every open edge, not
 only the one that was closest when it was opened

Open edges were kept in a map keyed by their distance at the moment they were
opened: of two edges opened at the same distance (both edges of one corner)
only the first was kept, and the order went stale as the scan line turned, so
a vertex behind land could be reported as visible.
---
 .../datastructures/open_edges/open_edges.cpp     | 16 ++++++++++++++++
 .../datastructures/open_edges/open_edges.hpp     |  5 ++++-
 .../code/visgraph/vistree_generator.cpp          | 11 +----------
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..190f4bf 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -2,9 +2,15 @@
 // Created by James.Balajan on 3/06/2021.
 //
 
+#include <algorithm>
+
 #include "open_edges.hpp"
 
 void OpenEdges::add_edge(int64_t distance, const LineSegment &segment) {
+    if (_edge_to_distance_mapping.find(segment) != _edge_to_distance_mapping.end()) {
+        return;
+    }
+
     _edges_sorted_by_distance.emplace(distance, segment);
     _edge_to_distance_mapping[segment] = distance;
 }
@@ -29,3 +35,13 @@ void OpenEdges::remove_edge(const LineSegment &segment) {
 LineSegment OpenEdges::closest_edge() const { return _edges_sorted_by_distance.begin()->second; }
 
 bool OpenEdges::empty() const { return _edges_sorted_by_distance.empty(); }
+
+bool OpenEdges::any_edge_obstructs(const LineSegment &segment) const {
+    // The distances are those at which the edges were opened, so the edges which open closest to the observer come
+    // first, but any of the edges may by now be the closest one along the segment
+    return std::any_of(_edges_sorted_by_distance.begin(), _edges_sorted_by_distance.end(),
+                       [&segment](const auto &distance_and_edge) {
+                           const auto intersection = distance_and_edge.second.intersection_with_segment(segment);
+                           return intersection.has_value() && intersection.value() != segment.get_endpoint_2();
+                       });
+}
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..74280a8 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -19,8 +19,11 @@ class OpenEdges {
     [[nodiscard]] LineSegment closest_edge() const;
     [[nodiscard]] bool empty() const;
 
+    // Whether any of the open edges meets the segment at a point other than the segment's second endpoint
+    [[nodiscard]] bool any_edge_obstructs(const LineSegment &segment) const;
+
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
+    std::multimap<int64_t, const LineSegment> _edges_sorted_by_distance;
     std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
 };
 
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..d9fc4ab 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -213,16 +213,7 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         }
     }
 
-    if (!open_edges.empty()) {
-        const auto &closest_edge = open_edges.closest_edge();
-        const auto intersection =
-            closest_edge.intersection_with_segment(LineSegment(observer_coordinate, vertex_in_question));
-        if (intersection.has_value() && intersection.value() != vertex_in_question) {
-            return false;
-        }
-    }
-
-    return true;
+    return !open_edges.any_edge_obstructs(LineSegment(observer_coordinate, vertex_in_question));
 }
 
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-- 
2.43.0


From c9df0b8d350082ddda0fe5c73fa2c5da2871b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 02/19] fix: overlay graph must answer for vertices its base
 graph does not have

Adding a meridian crossing edge at an added vertex, or asking for an edge of
one, threw because the base graph rejects unknown coordinates; an edge that
was removed and added again lost its meridian flag; edges and vertices that
are in both graphs were listed twice.
---
 .../modified_graph/modified_graph.cpp         | 22 ++++++++++++++-----
 .../modified_graph/modified_graph.hpp         |  2 ++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..0d14520 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -22,14 +22,15 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!has_base_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing = meridian_crossing && (curr_neighbor.is_meridian_crossing ||
+                                                          curr_neighbor.relationship == NeighborRelationship::EDGE_REMOVED),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -63,15 +64,20 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return has_base_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
 }
 
+bool ModifiedGraph::has_base_edge(const Coordinate &a, const Coordinate &b) const {
+    // The base graph rejects coordinates it does not have, such as the vertices which were added to this graph
+    return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+}
+
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return has_base_edge(a, b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
@@ -86,7 +92,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
-            neighbors.push_back(neighbor.first);
+            if (!has_base_edge(vertex, neighbor.first)) {
+                neighbors.push_back(neighbor.first);
+            }
         } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
             neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
@@ -100,7 +108,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
index ad5cbfb..7c3f1f3 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
@@ -46,6 +46,8 @@ class ModifiedGraph : public IGraph {
         [[nodiscard]] std::vector<Coordinate> get_vertices() const override;
         [[nodiscard]] std::vector<Polygon> get_polygons() const override;
     private:
+        [[nodiscard]] bool has_base_edge(const Coordinate &a, const Coordinate &b) const;
+
         std::shared_ptr<IGraph> _graph;
         std::unordered_map<Coordinate, std::unordered_map<Coordinate, NeighborInfo>> _neighbors;
 };
-- 
2.43.0


From 55e1dca233f8a603c7ee66bf14db52f26b01c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 03/19] fix: neighbors of a vertex are those its directed edges
 lead to

has_edge(a, b) read the entry that get_neighbors(b) listed, so a directed edge
showed up as a neighbor at the wrong end.
---
 .../visibility_graphs/code/datastructures/graph/graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..4cae108 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -64,7 +64,7 @@ void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool mer
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = static_cast<EdgeState>(
             _neighbors[index] |
             ((meridian_crossing) ? EdgeState::CONNECTED_OVER_MERIDIAN : EdgeState::CONNECTED));
@@ -98,7 +98,7 @@ void Graph::remove_directed_edge(const Coordinate &a, const Coordinate &b) {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = EdgeState::DISCONNECTED;
 }
 
@@ -125,7 +125,7 @@ bool Graph::has_edge(const Coordinate &a, const Coordinate &b) const {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] != EdgeState::DISCONNECTED;
 }
 
@@ -156,7 +156,7 @@ bool Graph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b)
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] == EdgeState::CONNECTED_OVER_MERIDIAN;
 }
 
-- 
2.43.0


From 99dc89c4b80fce0ca6cd5bbd326ea3f9b9a062b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 04/19] fix: adding a vertex to a graph must keep its edges

The adjacency matrix was resized without moving its rows, so existing edges
ended up between other vertices; adding a vertex twice duplicated it.
---
 .../code/datastructures/graph/graph.cpp           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 4cae108..69da456 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,22 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
-    ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
+    const auto old_num_coords = _num_coords++;
+    auto neighbors = std::vector<EdgeState>(_num_coords * _num_coords, EdgeState::DISCONNECTED);
+    for (size_t i = 0; i < old_num_coords; ++i) {
+        // Each row becomes one entry longer
+        std::copy_n(_neighbors.begin() + static_cast<long>(i * old_num_coords), old_num_coords,
+                    neighbors.begin() + static_cast<long>(i * _num_coords));
+    }
+    _neighbors = std::move(neighbors);
+
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From fbbe11d5643f8192d1079f9f7cdcdff923503ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/19] fix: graph equality must not depend on the order of
 vertices with equal hashes

---
 .../code/datastructures/graph/graph.cpp                  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 69da456..2a11b30 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -164,7 +164,14 @@ std::string Graph::to_string_representation() const {
     auto outs = std::stringstream();
 
     const auto coord_sorter = [](const Coordinate &lhs, const Coordinate &rhs) {
-        return std::hash<Coordinate>()(lhs) < std::hash<Coordinate>()(rhs);
+        const auto lhs_hash = std::hash<Coordinate>()(lhs);
+        const auto rhs_hash = std::hash<Coordinate>()(rhs);
+        if (lhs_hash != rhs_hash) {
+            return lhs_hash < rhs_hash;
+        }
+
+        return std::make_pair(lhs.get_longitude_microdegrees(), lhs.get_latitude_microdegrees()) <
+               std::make_pair(rhs.get_longitude_microdegrees(), rhs.get_latitude_microdegrees());
     };
 
     auto vertices = get_vertices();
-- 
2.43.0


From 58a3d68c29b1e9971cda03d0896821efc092baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 06/19] fix: routes must start and end over the antimeridian
 like they pass it

The visibility graph is built on periodic coast lines, but the source and the
destination of a route were connected to it on the plain ones: neither saw a
vertex over the antimeridian, so routes near it came out the long way round or
not at all.
---
 .../code/shortest_path/shortest_path_computer.cpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5fb11bc..3cdc147 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -20,7 +20,7 @@ struct AStarHeapElement {
 };
 
 ShortestPathComputer::ShortestPathComputer(const std::shared_ptr<IGraph> &graph) :
-    _graph(graph), _index(graph->get_polygons()), _vistree_gen(graph->get_polygons()) {}
+    _graph(graph), _index(graph->get_polygons()), _vistree_gen(make_polygons_periodic(graph->get_polygons())) {}
 
 std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &source, const Coordinate &destination,
                                                             double maximum_distance_to_search_from_source,
@@ -224,8 +224,16 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
             const auto reachable_vertices = _vistree_gen.get_visible_vertices(vertices_to_process[i]);
 
             for (const auto &point : reachable_vertices) {
+                auto point_as_seen = point.coord;
+                if (point.is_visible_across_meridian) {
+                    const auto periodic_points = periodic_coordinates_from_coordinate(point.coord);
+                    point_as_seen = (periodic_points[1] - vertices_to_process[i]).magnitude() <
+                                    (periodic_points[2] - vertices_to_process[i]).magnitude()
+                        ? periodic_points[1] : periodic_points[2];
+                }
+
                 if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point.coord) != Orientation::COUNTER_CLOCKWISE) {
+                    blocking_edges[i].value().orientation_of_point_to_segment(point_as_seen) != Orientation::COUNTER_CLOCKWISE) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
-- 
2.43.0


From af86c6911713629131818dc5ba9eec2f638524c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 07/19] fix: a route between two corrected points must not cut
 through their polygon

Points on land are moved to the closest coast line, and crossings of those
coast lines are not counted, so two points moved to different edges of one
polygon were joined straight through it.
---
 .../code/shortest_path/shortest_path_computer.cpp      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 3cdc147..86282ef 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -43,7 +43,15 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
         }
     }
 
-    if (num_intersections_excluding_corrections == 0) {
+    // Two points which were moved to different edges of one polygon may have nothing but that polygon between them
+    auto is_land_between_corrections = false;
+    if (land_corrections.corrected_source_edge.has_value() && land_corrections.corrected_dest_edge.has_value() &&
+        land_corrections.corrected_source_edge.value() != land_corrections.corrected_dest_edge.value()) {
+        const auto midpoint = (corrected_source.to_s2_point() + corrected_dest.to_s2_point()).Normalize();
+        is_land_between_corrections = _index.is_point_contained(Coordinate(midpoint));
+    }
+
+    if (num_intersections_excluding_corrections == 0 && !is_land_between_corrections) {
         return std::vector<Coordinate>{corrected_source, corrected_dest};
     }
 
-- 
2.43.0


From ad549a4622feb5a6c4bdaec9997c87edb7277c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 08/19] fix: a point on a coast line must not see through the
 land behind it

An observer inside an edge of a polygon was not kept from looking inwards when
that edge is horizontal, and past either end of the edge, in line with it,
land does not always begin with an edge that the scan opens.
---
 .../code/shortest_path/shortest_path_computer.cpp |  5 ++++-
 .../code/visgraph/vistree_generator.cpp           | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 86282ef..7aca72b 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -240,8 +240,11 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
                         ? periodic_points[1] : periodic_points[2];
                 }
 
+                // Past either end of the edge, in line with it, there may be land
                 if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point_as_seen) != Orientation::COUNTER_CLOCKWISE) {
+                    blocking_edges[i].value().orientation_of_point_to_segment(point_as_seen) == Orientation::CLOCKWISE ||
+                    point_as_seen == blocking_edges[i].value().get_endpoint_1() ||
+                    point_as_seen == blocking_edges[i].value().get_endpoint_2()) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index d9fc4ab..10f3914 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -58,10 +58,15 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
     const auto initial_scanline_segment =
         LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));
     const auto initial_scanline_vector = initial_scanline_segment.get_tangent_vector();
+    std::shared_ptr<LineSegment> segment_under_observer = nullptr;
     for (const auto &line_segment : candidate_segments) {
         if (observer == line_segment->get_endpoint_1() || observer == line_segment->get_endpoint_2()) {
             continue;
         }
+        if (line_segment->on_segment(observer)) {
+            segment_under_observer = line_segment;
+            continue;
+        }
 
         const auto intersection = line_segment->intersection_with_segment(initial_scanline_segment);
         if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&
@@ -90,7 +95,15 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
 
         VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);
 
-        const auto curr_vertex_visible = VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
+        // From a coast line the sea is on its right (polygons are counter clockwise), and in line with it there may be
+        // land past either end
+        const auto is_behind_segment_under_observer =
+            segment_under_observer != nullptr && current_vertex != segment_under_observer->get_endpoint_1() &&
+            current_vertex != segment_under_observer->get_endpoint_2() &&
+            segment_under_observer->orientation_of_point_to_segment(current_vertex) != Orientation::CLOCKWISE;
+
+        const auto curr_vertex_visible = !is_behind_segment_under_observer &&
+                                         VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
         if (curr_vertex_visible) {
             visible_vertices.push_back(VisibleVertex{
                     .coord = coordinate_from_periodic_coordinate(current_vertex),
-- 
2.43.0


From 5eea6e03a3e239bb0a9cf040d4492d30d70e2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 09/19] fix: repeated vertices of a polygon must not remove its
 corners

---
 .../code/types/polygon/polygon.cpp              | 17 ++++++++++++++++-
 .../code/types/polygon/polygon.hpp              |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..3b6959a 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <iterator>
 #include <sstream>
 #include <utility>
 #include <vector>
@@ -39,7 +40,8 @@ bool Polygon::operator==(const Polygon &other) const { return (*_vertices == *ot
 bool Polygon::operator!=(const Polygon &other) const { return !(*this == other); }
 
 std::shared_ptr<std::vector<Coordinate>> Polygon::preprocess_vertices(const std::vector<Coordinate> &vertices) {
-    return normalize_vertex_orientation_to_counter_clockwise(remove_collinear_vertices(vertices));
+    return normalize_vertex_orientation_to_counter_clockwise(
+        remove_collinear_vertices(remove_repeated_vertices(vertices)));
 }
 
 std::shared_ptr<std::vector<Coordinate>>
@@ -78,6 +80,19 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
+std::vector<Coordinate> Polygon::remove_repeated_vertices(const std::vector<Coordinate> &vertices) {
+    auto filtered_vertices = std::vector<Coordinate>();
+    filtered_vertices.reserve(vertices.size());
+    std::unique_copy(vertices.begin(), vertices.end(), std::back_inserter(filtered_vertices));
+
+    // The last vertex is followed by the first one
+    while (filtered_vertices.size() > 1 && filtered_vertices.front() == filtered_vertices.back()) {
+        filtered_vertices.pop_back();
+    }
+
+    return filtered_vertices;
+}
+
 std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
index 16d29b4..17313b4 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
@@ -39,6 +39,7 @@ class Polygon {
     static std::shared_ptr<std::vector<Coordinate>> preprocess_vertices(const std::vector<Coordinate> &vertices);
     static std::shared_ptr<std::vector<Coordinate>>
     normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coordinate> &vertices);
+    static std::vector<Coordinate> remove_repeated_vertices(const std::vector<Coordinate> &vertices);
     static std::vector<Coordinate> remove_collinear_vertices(const std::vector<Coordinate> &vertices);
 };
 
-- 
2.43.0


From 3d8a11070aa4915013e82028fcb70d652f4d1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 10/19] fix: saving over an existing file must not keep bytes
 of its old content

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..28a8fde 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -305,7 +305,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From 5f2d601e493f9363546c403b2449729f7d42d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 11/19] fix: a truncated or corrupt graph file must be refused,
 not read out of bounds

---
 .../code/serialization/graph_serializer.cpp   | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 28a8fde..c63f024 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -26,6 +26,8 @@ uint32_t deserialize_4_bytes_from_mmap(const mio::mmap_source &mmap, size_t offs
 int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 
+void verify_items_fit_in_mmap(const mio::mmap_source &mmap, uint64_t num_items, size_t item_size, size_t offset);
+
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
 
@@ -149,13 +151,16 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    verify_items_fit_in_mmap(mmap, num_polygons, sizeof(uint64_t), offset);
     auto polygons = std::vector<Polygon>(num_polygons);
 
     size_t curr_offset = offset;
+    uint64_t num_vertices_of_polygons = 0;
     for (size_t i = 0; i < num_polygons; ++i) {
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        verify_items_fit_in_mmap(mmap, num_vertices, 2 * sizeof(int32_t), curr_offset);
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
@@ -168,8 +173,12 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         curr_offset += (num_vertices * 2 * sizeof(int32_t));
 
         polygons[i] = Polygon(vertices);
+        num_vertices_of_polygons += polygons[i].get_vertices().size();
     }
 
+    // The adjacency matrix has at least a bit for each pair of vertices
+    const auto num_vertex_pairs = (num_vertices_of_polygons * num_vertices_of_polygons - num_vertices_of_polygons) / 2;
+    verify_items_fit_in_mmap(mmap, num_vertex_pairs / BITS_IN_A_BYTE, sizeof(uint8_t), curr_offset);
     graph = std::make_shared<Graph>(polygons);
 
     return curr_offset;
@@ -187,6 +196,8 @@ size_t GraphSerializer::deserialize_adjacency_matrix_from_mmap(const mio::mmap_s
 
     std::unordered_set<uint64_t> meridian_spanning_edge_indices;
     const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());
+    verify_items_fit_in_mmap(mmap, num_meridian_spanning_edges, sizeof(uint64_t),
+                             adjacency_matrix_byte_offsets.back() + sizeof(uint64_t));
     for (size_t i = 0; i < num_meridian_spanning_edges; ++i) {
         meridian_spanning_edge_indices.insert(
             deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back() + (i + 1) * sizeof(uint64_t)));
@@ -293,7 +304,21 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        throw std::runtime_error("Error reading graph from file: the file is truncated or not a graph");
+    }
+
+    return mmap[offset];
+}
+
+// Counts come before the items which they count, so they are checked before anything is allocated for those items
+inline void verify_items_fit_in_mmap(const mio::mmap_source &mmap, uint64_t num_items, size_t item_size,
+                                     size_t offset) {
+    if (offset > mmap.size() || num_items > (mmap.size() - offset) / item_size) {
+        throw std::runtime_error("Error reading graph from file: the file is truncated or not a graph");
+    }
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From 0ebed1c55d78fd192d4a8967e756b49f1bf19a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 12/19] fix: land that is invalid on the sphere must not end
 the process

---
 .../visibility_graphs/code/types/polygon/polygon.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index 3b6959a..959704f 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -123,13 +123,14 @@ std::unique_ptr<S2Loop> Polygon::to_s2_loop() const {
         verts.push_back(vertex.to_s2_point());
     }
 
-    return std::make_unique<S2Loop>(verts);
+    // Land which is wide enough may be invalid on the sphere, where S2 would end the process if it was left to check
+    return std::make_unique<S2Loop>(verts, S2Debug::DISABLE);
 }
 
 std::unique_ptr<const S2Polygon> Polygon::to_s2_polygon() const {
     auto loops = std::vector<std::unique_ptr<S2Loop>>();
     loops.push_back(to_s2_loop());
-    return std::make_unique<const S2Polygon>(std::move(loops));
+    return std::make_unique<const S2Polygon>(std::move(loops), S2Debug::DISABLE);
 }
 
 std::string Polygon::to_string_representation() const {
-- 
2.43.0


From 58191edddde51fadfd6348a30512c0b0bf3fdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 13/19] fix: a corrected point rounded into land must not see
 through that land

A point on land is moved to the closest coast line and rounded to whole
microdegrees. Where that left it on the land's side of the coast line, it was
joined to corners it only sees through the land.
---
 .../code/shortest_path/shortest_path_computer.cpp           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 7aca72b..5b93b7f 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -240,9 +240,11 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
                         ? periodic_points[1] : periodic_points[2];
                 }
 
-                // Past either end of the edge, in line with it, there may be land
+                // Past either end of the edge, in line with it, there may be land. And from a point which was rounded to
+                // the land's side of the edge, all but its ends is seen through the land
                 if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point_as_seen) == Orientation::CLOCKWISE ||
+                    (blocking_edges[i].value().orientation_of_point_to_segment(point_as_seen) == Orientation::CLOCKWISE &&
+                     blocking_edges[i].value().orientation_of_point_to_segment(vertices_to_process[i]) != Orientation::COUNTER_CLOCKWISE) ||
                     point_as_seen == blocking_edges[i].value().get_endpoint_1() ||
                     point_as_seen == blocking_edges[i].value().get_endpoint_2()) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
-- 
2.43.0


From cac544602ea89ee8cc2c328638e09de1cd1cc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 14/19] fix: the direction of thin polygons must be found
 exactly

---
 .../visibility_graphs/code/types/polygon/polygon.cpp       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index 959704f..0751365 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -62,13 +62,12 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    __int128 winding_sum = 0; // Exact, as thin polygons have little area compared to the terms of the sum
     long num_vertices = vertices.size();
-#pragma omp simd reduction(+ : winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        winding_sum += (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+                       (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long());
     }
 
     if (winding_sum < 0) {
-- 
2.43.0


From 664c7e04edb9254128d20d6d954a33517e738fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/19] fix: equal line segments must have equal hashes

---
 .../visibility_graphs/code/types/line_segment/line_segment.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..d3d95f0 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -138,5 +138,5 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
     const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
     const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
-    return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
+    return coord_1_hash + coord_2_hash; // Segments are equal in either direction, so their hashes must be as well
 }
-- 
2.43.0


From 487eba9cd5cb4ee7f0365ded95cd548aefcec83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 16/19] fix: whether a corner is reflex must be decided exactly

---
 .../code/types/polyline/three_vertex_polyline.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..b25a197 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.vector_orientation(t) == Orientation::CLOCKWISE;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From aefe0824c437046a2fcac471cacc1116482aa1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 17/19] fix: sorting around an observer that is repeated must
 not read out of bounds

---
 .../visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..689d55d 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -14,7 +14,7 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
 
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
-            return true;
+            return c2 != observer;
         } else if (c2 == observer) {
             return false;
         }
-- 
2.43.0


From 053f0ca4b501c71111d4d3095b328ea5873ba5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 18/19] fix: merged graphs keep vertices which belong to no
 polygon

---
 .../visibility_graphs/code/datastructures/graph/graph.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 2a11b30..b0bc03d 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -262,6 +262,13 @@ std::shared_ptr<Graph> merge_graphs(const std::vector<std::shared_ptr<Graph>> &g
 
     auto merged_graph = std::make_shared<Graph>(std::vector<Polygon>(polygons.begin(), polygons.end()));
 
+    // Not all vertices need to belong to a polygon
+    for (const auto &graph : graphs) {
+        for (const auto &vertex : graph->get_vertices()) {
+            merged_graph->add_vertex(vertex);
+        }
+    }
+
     #pragma omp parallel for shared(graphs, merged_graph) default(none) schedule(static)
     for (size_t i = 0; i < graphs.size(); ++i) { // NOLINT
         const auto graph = graphs[i];
-- 
2.43.0


From e70a7f13aa1c9a6f5c82c215917b95ec02584529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 19/19] fix: a part of the graph of no polygons must be
 generated like the whole

---
 capi/src/implementation/graph_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..ecae211 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -61,7 +61,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons), 0)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0

