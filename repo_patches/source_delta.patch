From 64723c06e0181218ad17263b7e59c559a6ef367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 01/16] fix: compare ring parent by identity in
 `find_intersect_loop`

The port tested the truthiness of both rings where the original
algorithm tests whether they are the same ring, so it could connect
chains of rings that do not share a parent.
---
 wagyu/ring_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 7689882..5acc401 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -780,7 +780,7 @@ class RingManager:
                 nodes_pairs_indices_to_remove.add(index)
                 continue
             if (it_ring2 is ring_origin
-                    and (ring_parent and it_ring2
+                    and (ring_parent is it_ring2
                          or ring_parent is it_ring2.parent)
                     and prev_pt != op2 and orig_pt != op2):
                 iList.appendleft((ring_search, (op1, op2)))
-- 
2.43.0


From f5c602403a901022cdc9bd4b1964a0c8d7351914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 02/16] fix: honour stop nodes in second collinear edges search

`first` is a boolean flag, `first is None` never holds, so the backward
search did not stop at the nodes found by the forward one.
---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..ec8787e 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -309,7 +309,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From 1231fa2218df0b62ef32291711247650d4d1eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 03/16] fix: detect duplicated bottom nodes not adjacent to
 current one

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index ec8787e..cb43261 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -75,7 +75,7 @@ class PointNode:
                     dups = None
                     node = cursor
                 else:
-                    if cursor.next is not node and cursor.prev is node:
+                    if cursor.next is not node and cursor.prev is not node:
                         dups = cursor
             cursor = cursor.next
         if dups is not None:
-- 
2.43.0


From 101a0551acb2f60035116008ce0c2ff7d04423e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 04/16] fix: infinite recursion in `LocalMinimumList.insert`

---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From 4f1fbd592b5713fc5e8b5d895303c0663b5c6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 05/16] fix: do not modify stored edges when calculating
 `Wagyu.bounds`

---
 wagyu/wagyu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..a333c3f 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,8 +38,10 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
+                    minimum = Point(left_bound.edges[0].top.x,
+                                    left_bound.edges[0].top.y)
+                    maximum = Point(left_bound.edges[-1].bottom.x,
+                                    left_bound.edges[-1].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
@@ -52,8 +54,10 @@ class Wagyu:
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
+                    minimum = Point(right_bound.edges[0].top.x,
+                                    right_bound.edges[0].top.y)
+                    maximum = Point(right_bound.edges[-1].bottom.x,
+                                    right_bound.edges[-1].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-- 
2.43.0


From f33c240ebb34102fea06f874b4a65d83695e2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 06/16] fix: calculate vertical extent of `Wagyu.bounds` from
 all edges

Edges of a bound go from the bottom to the top, so its lowest ordinate is at the
top of the last edge and its highest one is at the bottom of the first.
---
 include/mapbox/geometry/wagyu/wagyu.hpp | 20 ++++++++++++--------
 wagyu/wagyu.py                          | 16 ++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index 908b3e3..759f601 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -69,12 +69,14 @@ class wagyu {
     for (auto const& lm : minima_list) {
       if (!lm.left_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.left_bound.edges.front().top;
-          max = lm.left_bound.edges.back().bot;
+          min = {lm.left_bound.edges.front().top.x,
+                 lm.left_bound.edges.back().top.y};
+          max = {lm.left_bound.edges.back().bot.x,
+                 lm.left_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.left_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.left_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.left_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.left_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.left_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.left_bound.edges.back().top.x);
         }
@@ -85,12 +87,14 @@ class wagyu {
       }
       if (!lm.right_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.right_bound.edges.front().top;
-          max = lm.right_bound.edges.back().bot;
+          min = {lm.right_bound.edges.front().top.x,
+                 lm.right_bound.edges.back().top.y};
+          max = {lm.right_bound.edges.back().bot.x,
+                 lm.right_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.right_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.right_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.right_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.right_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.right_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.right_bound.edges.back().top.x);
         }
diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index a333c3f..bf44a52 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -39,15 +39,15 @@ class Wagyu:
             if left_bound.edges:
                 if not first_set:
                     minimum = Point(left_bound.edges[0].top.x,
-                                    left_bound.edges[0].top.y)
+                                    left_bound.edges[-1].top.y)
                     maximum = Point(left_bound.edges[-1].bottom.x,
-                                    left_bound.edges[-1].bottom.y)
+                                    left_bound.edges[0].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, left_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, left_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, left_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, left_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, left_bound.edges[0].bottom.y)
                 for edge in left_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
@@ -55,15 +55,15 @@ class Wagyu:
             if right_bound.edges:
                 if not first_set:
                     minimum = Point(right_bound.edges[0].top.x,
-                                    right_bound.edges[0].top.y)
+                                    right_bound.edges[-1].top.y)
                     maximum = Point(right_bound.edges[-1].bottom.x,
-                                    right_bound.edges[-1].bottom.y)
+                                    right_bound.edges[0].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, right_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, right_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, right_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, right_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, right_bound.edges[0].bottom.y)
                 for edge in right_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
-- 
2.43.0


From a68122f005f93343fd05e99beaba8f88858ec328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 07/16] fix: keep list of local minima alive while its items
 are used

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index c85de40..159bc45 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -744,7 +744,7 @@ PYBIND11_MODULE(MODULE_NAME, m) {
       .def("__contains__", contains<LocalMinimumList>)
       .def("__len__", to_size<LocalMinimumList>)
       .def("__getitem__", to_item<LocalMinimumList>, py::arg("index"),
-           py::return_value_policy::reference)
+           py::return_value_policy::reference_internal)
       .def("__iter__", to_iterator<LocalMinimumList>, py::keep_alive<0, 1>())
       .def("add_linear_ring",
            [](LocalMinimumList& self, const LinearRing& ring,
-- 
2.43.0


From 01290cd8d2b051ce1c67bd1c8de388e51360d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 08/16] fix: do not crash when sorting points of ring without
 points

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 159bc45..915afdd 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -591,9 +591,10 @@ PYBIND11_MODULE(MODULE_NAME, m) {
       .def_property_readonly(
           "sorted_points",
           [](RingPtr self) {
+            std::vector<Point> result;
+            if (self->points == nullptr) return result;
             auto nodes =
                 mapbox::geometry::wagyu::sort_ring_points<coordinate_t>(self);
-            std::vector<Point> result;
             result.reserve(nodes.size());
             for (const auto* node : nodes)
               result.push_back(point_node_to_point(node));
-- 
2.43.0


From 911614b96e9dbd5078fdca945ba83e40486b9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 09/16] fix: do not overflow narrow coordinates when
 intersecting edges

---
 include/mapbox/geometry/wagyu/intersect_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mapbox/geometry/wagyu/intersect_util.hpp b/include/mapbox/geometry/wagyu/intersect_util.hpp
index a5586d2..d9eb78e 100644
--- a/include/mapbox/geometry/wagyu/intersect_util.hpp
+++ b/include/mapbox/geometry/wagyu/intersect_util.hpp
@@ -64,7 +64,7 @@ bool get_edge_intersection(edge<T1> const& e1, edge<T1> const& e2,
   s2_x = p3_x - p2_x;
   s2_y = p3_y - p2_y;
 
-  T1 denominator = (-s2_x * s1_y + s1_x * s2_y);
+  T2 denominator = (-s2_x * s1_y + s1_x * s2_y);
   if (!denominator) return false;
   T2 s = (-s1_y * (p0_x - p2_x) + s1_x * (p0_y - p2_y)) / denominator;
   T2 t = (s2_x * (p0_y - p2_y) - s2_y * (p0_x - p2_x)) / denominator;
-- 
2.43.0


From 42ffbb6058ffb8848f870583912eed9045068290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 10/16] fix: do not overflow narrow coordinates when testing
 convexity

---
 include/mapbox/geometry/wagyu/ring_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/ring_util.hpp b/include/mapbox/geometry/wagyu/ring_util.hpp
index bd5acc5..050dac9 100644
--- a/include/mapbox/geometry/wagyu/ring_util.hpp
+++ b/include/mapbox/geometry/wagyu/ring_util.hpp
@@ -773,11 +773,11 @@ template <typename T>
 bool is_convex(point_ptr<T> edge) {
   point_ptr<T> prev = edge->prev;
   point_ptr<T> next = edge->next;
-  T v1x = edge->x - prev->x;
-  T v1y = edge->y - prev->y;
-  T v2x = next->x - edge->x;
-  T v2y = next->y - edge->y;
-  T cross = v1x * v2y - v2x * v1y;
+  double v1x = static_cast<double>(edge->x - prev->x);
+  double v1y = static_cast<double>(edge->y - prev->y);
+  double v2x = static_cast<double>(next->x - edge->x);
+  double v2y = static_cast<double>(next->y - edge->y);
+  double cross = v1x * v2y - v2x * v1y;
   if (cross < 0 && edge->ring->area() > 0) {
     return true;
   } else if (cross > 0 && edge->ring->area() < 0) {
-- 
2.43.0


From dc0f3cfb8650ffc557c1f3326bae2d2cea367d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 11/16] fix: do not let the decimal context of the caller
 affect rounding

---
 wagyu/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/utils.py b/wagyu/utils.py
index bef80df..f010658 100644
--- a/wagyu/utils.py
+++ b/wagyu/utils.py
@@ -95,7 +95,7 @@ def round_half_up(number: Coordinate) -> int:
     """
     Equivalent of C++'s ``std::llround``.
     """
-    return int(Decimal(number).quantize(0, ROUND_HALF_UP))
+    return int(Decimal.from_float(number).to_integral_value(ROUND_HALF_UP))
 
 
 def is_odd(number: int) -> bool:
-- 
2.43.0


From 1cd69cd76085b962387ced22053818ea436831ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 12/16] fix: follow chains of touching rings of any length

---
 wagyu/ring_manager.py | 89 ++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 5acc401..72ef514 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -768,45 +768,56 @@ class RingManager:
                             visited: Set[int],
                             orig_pt: PointNode,
                             prev_pt: PointNode) -> bool:
-        # Check for direct connection
-        nodes_pairs = connection_map[id(ring_search)]
-        nodes_pairs_indices_to_remove = set()
-        for index, (op1, op2) in enumerate(nodes_pairs):
-            it_ring1 = op1.ring
-            it_ring2 = op2.ring
-            if (it_ring1 is None or it_ring2 is None
-                    or it_ring1 is not ring_search
-                    or not it_ring1.is_hole and not it_ring2.is_hole):
-                nodes_pairs_indices_to_remove.add(index)
-                continue
-            if (it_ring2 is ring_origin
-                    and (ring_parent is it_ring2
-                         or ring_parent is it_ring2.parent)
-                    and prev_pt != op2 and orig_pt != op2):
-                iList.appendleft((ring_search, (op1, op2)))
-                return True
-        if nodes_pairs_indices_to_remove:
-            nodes_pairs[:] = [nodes_pair
-                              for index, nodes_pair in enumerate(nodes_pairs)
-                              if index not in nodes_pairs_indices_to_remove]
-        nodes_pairs = connection_map[id(ring_search)]
-        visited.add(id(ring_search))
-        # Check for connection through chain of other intersections
-        for op1, op2 in nodes_pairs:
-            it_ring = op2.ring
-            if (id(it_ring) in visited
-                    or it_ring is None
-                    or ring_parent is not it_ring
-                    and ring_parent is not it_ring.parent
-                    or is_float_almost_zero(it_ring.area)
-                    or prev_pt == op2):
-                continue
-            if (self.find_intersect_loop(connection_map, iList, ring_parent,
-                                         ring_origin, it_ring,
-                                         visited, orig_pt, op2)):
-                iList.appendleft((ring_search, (op1, op2)))
-                return True
-        return False
+        # a chain may consist of any number of connections,
+        # so we keep track of it ourselves instead of using recursion
+        chain = []
+        while True:
+            # Check for direct connection
+            nodes_pairs = connection_map[id(ring_search)]
+            nodes_pairs_indices_to_remove = set()
+            for index, (op1, op2) in enumerate(nodes_pairs):
+                it_ring1 = op1.ring
+                it_ring2 = op2.ring
+                if (it_ring1 is None or it_ring2 is None
+                        or it_ring1 is not ring_search
+                        or not it_ring1.is_hole and not it_ring2.is_hole):
+                    nodes_pairs_indices_to_remove.add(index)
+                    continue
+                if (it_ring2 is ring_origin
+                        and (ring_parent is it_ring2
+                             or ring_parent is it_ring2.parent)
+                        and prev_pt != op2 and orig_pt != op2):
+                    iList.appendleft((ring_search, (op1, op2)))
+                    for ring, _, _, nodes_pair in reversed(chain):
+                        iList.appendleft((ring, nodes_pair))
+                    return True
+            if nodes_pairs_indices_to_remove:
+                nodes_pairs[:] = [
+                    nodes_pair
+                    for index, nodes_pair in enumerate(nodes_pairs)
+                    if index not in nodes_pairs_indices_to_remove]
+            visited.add(id(ring_search))
+            rest_nodes_pairs = iter(nodes_pairs)
+            # Check for connection through chain of other intersections
+            while True:
+                for op1, op2 in rest_nodes_pairs:
+                    it_ring = op2.ring
+                    if not (id(it_ring) in visited
+                            or it_ring is None
+                            or ring_parent is not it_ring
+                            and ring_parent is not it_ring.parent
+                            or is_float_almost_zero(it_ring.area)
+                            or prev_pt == op2):
+                        break
+                else:
+                    if not chain:
+                        return False
+                    ring_search, prev_pt, rest_nodes_pairs, _ = chain.pop()
+                    continue
+                chain.append((ring_search, prev_pt, rest_nodes_pairs,
+                              (op1, op2)))
+                ring_search, prev_pt = it_ring, op2
+                break
 
     def find_parent_in_tree(self, ring: Ring, possible_parent: Ring) -> bool:
         # before starting this we are assuming that possible parent
-- 
2.43.0


From 85346be2039f83af05a32a30311cd84bfc618812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 13/16] fix: process nested rings of any depth

---
 wagyu/polygon.py      | 14 ++++++++------
 wagyu/ring.py         |  9 ++++++++-
 wagyu/ring_manager.py | 26 ++++++++++++++------------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/wagyu/polygon.py b/wagyu/polygon.py
index 14d883c..2af9786 100644
--- a/wagyu/polygon.py
+++ b/wagyu/polygon.py
@@ -8,7 +8,8 @@ from reprit.base import generate_repr
 from .linear_ring import LinearRing
 from .point_node import (PointNode,
                          point_node_to_point)
-from .ring import Ring
+from .ring import (Ring,
+                   to_grand_children)
 
 
 class Polygon(abc.Sequence):
@@ -72,8 +73,12 @@ class Multipolygon(abc.Sequence):
 
 def rings_to_polygons(rings: Iterable[Optional[Ring]],
                       reverse_output: bool) -> Iterable[Polygon]:
-    for ring in rings:
+    # rings may be nested to any depth, so we do not use recursion
+    stack = [(ring for ring in rings if ring is not None)]
+    while stack:
+        ring = next(stack[-1], None)
         if ring is None:
+            stack.pop()
             continue
         polygon = Polygon.from_ring(ring, reverse_output)
         yield polygon
@@ -81,10 +86,7 @@ def rings_to_polygons(rings: Iterable[Optional[Ring]],
             if child is None:
                 continue
             polygon.append(child, reverse_output)
-        for child in ring.children:
-            if child is None:
-                continue
-            yield from rings_to_polygons(child.children, reverse_output)
+        stack.append(to_grand_children(ring))
 
 
 def point_node_to_linear_ring(node: PointNode,
diff --git a/wagyu/ring.py b/wagyu/ring.py
index b75c225..7966ef4 100644
--- a/wagyu/ring.py
+++ b/wagyu/ring.py
@@ -1,5 +1,6 @@
 import math
-from typing import (List,
+from typing import (Iterator,
+                    List,
                     Optional)
 
 from reprit.base import generate_repr
@@ -191,3 +192,9 @@ def set_to_children(ring: Ring, children: List[Optional[Ring]]) -> None:
             children[index] = ring
             return
     children.append(ring)
+
+
+def to_grand_children(ring: Ring) -> Iterator[Ring]:
+    return (grand_child
+            for child in ring.children if child is not None
+            for grand_child in child.children if grand_child is not None)
diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 72ef514..a9cf51d 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -36,7 +36,8 @@ from .point_node import (PointNode,
 from .polygon import Multipolygon
 from .ring import (Ring,
                    remove_from_children,
-                   set_to_children)
+                   set_to_children,
+                   to_grand_children)
 from .utils import (are_floats_greater_than,
                     are_floats_less_than,
                     find,
@@ -823,18 +824,19 @@ class RingManager:
         # before starting this we are assuming that possible parent
         # and ring have opposite signs of their areas
 
-        # first we must search all grandchildren
-        for child in possible_parent.children:
-            if child is None:
+        # first we must search all grandchildren,
+        # trees may be of any depth, so we do not use recursion
+        stack = [(possible_parent, to_grand_children(possible_parent))]
+        while stack:
+            candidate, rest_grand_children = stack[-1]
+            grand_child = next(rest_grand_children, None)
+            if grand_child is not None:
+                stack.append((grand_child, to_grand_children(grand_child)))
                 continue
-            for grand_child in child.children:
-                if grand_child is None:
-                    continue
-                if self.find_parent_in_tree(ring, grand_child):
-                    return True
-        if ring.inside_of(possible_parent):
-            self.reassign_as_child(ring, possible_parent)
-            return True
+            stack.pop()
+            if ring.inside_of(candidate):
+                self.reassign_as_child(ring, candidate)
+                return True
         return False
 
     def horizontals_at_top_scanbeam(self,
-- 
2.43.0


From b5c9ad3ade9f6f8e099f42d4b8482385cc930248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 14/16] fix: follow chains of touching rings without native
 recursion

---
 .../geometry/wagyu/topology_correction.hpp    | 60 +++++++++++++------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/topology_correction.hpp b/include/mapbox/geometry/wagyu/topology_correction.hpp
index dd205d0..61e1773 100644
--- a/include/mapbox/geometry/wagyu/topology_correction.hpp
+++ b/include/mapbox/geometry/wagyu/topology_correction.hpp
@@ -11,6 +11,7 @@
 #include <set>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 #ifdef DEBUG
 #include <iostream>
@@ -101,7 +102,18 @@ bool find_intersect_loop(
     ring_ptr<T> ring_parent, ring_ptr<T> ring_origin, ring_ptr<T> ring_search,
     std::set<ring_ptr<T>>& visited, point_ptr<T> orig_pt, point_ptr<T> prev_pt,
     ring_manager<T>& rings) {
-  {
+  using connection_itr =
+      typename std::unordered_multimap<ring_ptr<T>,
+                                       point_ptr_pair<T>>::iterator;
+  struct link {
+    ring_ptr<T> ring;
+    point_ptr<T> prev_pt;
+    connection_itr connection;
+  };
+  // A chain may consist of any number of connections,
+  // so we keep track of it ourselves instead of using recursion
+  std::vector<link> chain;
+  while (true) {
     auto range = dupe_ring.equal_range(ring_search);
     // Check for direct connection
     for (auto& it = range.first; it != range.second;) {
@@ -116,30 +128,40 @@ bool find_intersect_loop(
           (ring_parent == it_ring2 || ring_parent == it_ring2->parent) &&
           *prev_pt != *it->second.op2 && *orig_pt != *it->second.op2) {
         iList.emplace_front(ring_search, it->second);
+        for (auto l = chain.rbegin(); l != chain.rend(); ++l) {
+          iList.emplace_front(l->ring, l->connection->second);
+        }
         return true;
       }
       ++it;
     }
-  }
-  auto range = dupe_ring.equal_range(ring_search);
-  visited.insert(ring_search);
-  // Check for connection through chain of other intersections
-  for (auto& it = range.first;
-       it != range.second && it != dupe_ring.end() && it->first == ring_search;
-       ++it) {
-    ring_ptr<T> it_ring = it->second.op2->ring;
-    if (visited.count(it_ring) > 0 || it_ring == nullptr ||
-        (ring_parent != it_ring && ring_parent != it_ring->parent) ||
-        value_is_zero(it_ring->area()) || *prev_pt == *it->second.op2) {
-      continue;
-    }
-    if (find_intersect_loop(dupe_ring, iList, ring_parent, ring_origin, it_ring,
-                            visited, orig_pt, it->second.op2, rings)) {
-      iList.emplace_front(ring_search, it->second);
-      return true;
+    visited.insert(ring_search);
+    connection_itr it = dupe_ring.equal_range(ring_search).first;
+    // Check for connection through chain of other intersections
+    while (true) {
+      for (; it != dupe_ring.end() && it->first == ring_search; ++it) {
+        ring_ptr<T> it_ring = it->second.op2->ring;
+        if (visited.count(it_ring) == 0 && it_ring != nullptr &&
+            (ring_parent == it_ring || ring_parent == it_ring->parent) &&
+            !value_is_zero(it_ring->area()) && *prev_pt != *it->second.op2) {
+          break;
+        }
+      }
+      if (it != dupe_ring.end() && it->first == ring_search) {
+        chain.push_back({ring_search, prev_pt, it});
+        prev_pt = it->second.op2;
+        ring_search = prev_pt->ring;
+        break;
+      }
+      if (chain.empty()) {
+        return false;
+      }
+      ring_search = chain.back().ring;
+      prev_pt = chain.back().prev_pt;
+      it = std::next(chain.back().connection);
+      chain.pop_back();
     }
   }
-  return false;
 }
 
 template <typename T>
-- 
2.43.0


From 0ade71df9938d5b3cbeede410b30895b027d502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 15/16] fix: do not share points with rings passed in

---
 wagyu/linear_ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wagyu/linear_ring.py b/wagyu/linear_ring.py
index 4684d23..c32a97f 100644
--- a/wagyu/linear_ring.py
+++ b/wagyu/linear_ring.py
@@ -82,7 +82,8 @@ class LinearRing(abc.Sequence):
 
             if not result:
                 front_pt = pt2
-            result.append(Edge(pt2, pt3))
+            # edges should not change along with points of the ring
+            result.append(Edge(Point(pt2.x, pt2.y), Point(pt3.x, pt3.y)))
             back_pt = pt2
             if index == last_reversed_index:
                 break
-- 
2.43.0


From 3f8d2015f97a540aba7b1f9d20aad10cff97b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 16/16] fix: resolve edges a ring shares with itself before
 those it shares with others

Rings with several coincident edges were joined with other rings by the edge
of a spike first, leaving rings that cross each other, and exact inputs failed
with "Could not properly place hole to a parent."
---
 .../geometry/wagyu/topology_correction.hpp    | 21 +++++++++++++++----
 wagyu/ring_manager.py                         | 17 ++++++++++++---
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/topology_correction.hpp b/include/mapbox/geometry/wagyu/topology_correction.hpp
index 61e1773..2963f2d 100644
--- a/include/mapbox/geometry/wagyu/topology_correction.hpp
+++ b/include/mapbox/geometry/wagyu/topology_correction.hpp
@@ -1248,7 +1248,8 @@ bool process_collinear_edges(point_ptr<T> pt_a, point_ptr<T> pt_b,
 template <typename T>
 void correct_collinear_repeats(ring_manager<T>& manager,
                                point_vector_itr<T> const& begin,
-                               point_vector_itr<T> const& end) {
+                               point_vector_itr<T> const& end,
+                               bool same_ring) {
   for (auto itr1 = begin; itr1 != end; ++itr1) {
     if ((*itr1)->ring == nullptr) {
       continue;
@@ -1257,7 +1258,9 @@ void correct_collinear_repeats(ring_manager<T>& manager,
       if ((*itr1)->ring == nullptr) {
         break;
       }
-      if ((*itr2)->ring == nullptr || *itr2 == *itr1) {
+      if ((*itr2)->ring == nullptr || *itr2 == *itr1 ||
+          (same_ring && ((*itr1)->ring != (*itr2)->ring ||
+                         !has_collinear_edge(*itr1, *itr2)))) {
         ++itr2;
         continue;
       }
@@ -1271,7 +1274,8 @@ void correct_collinear_repeats(ring_manager<T>& manager,
 }
 
 template <typename T>
-void correct_collinear_edges(ring_manager<T>& manager) {
+void correct_collinear_edges_of_rings(ring_manager<T>& manager,
+                                      bool same_ring) {
   if (manager.all_points.size() < 2) {
     return;
   }
@@ -1297,11 +1301,20 @@ void correct_collinear_edges(ring_manager<T>& manager) {
     }
     auto first = prev_itr;
     std::advance(first, -(static_cast<int>(count) + 1));
-    correct_collinear_repeats(manager, first, prev_itr);
+    correct_collinear_repeats(manager, first, prev_itr, same_ring);
     count = 0;
   }
 }
 
+template <typename T>
+void correct_collinear_edges(ring_manager<T>& manager) {
+  // Edges that a ring shares with itself go first:
+  // when one of them gets joined with an edge of another ring,
+  // rings that cross each other may be left.
+  correct_collinear_edges_of_rings(manager, true);
+  correct_collinear_edges_of_rings(manager, false);
+}
+
 template <typename T>
 void correct_tree(ring_manager<T>& manager) {
   // It is possible that vatti resulted in some parent child
diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index a9cf51d..081e85d 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -464,6 +464,13 @@ class RingManager:
             count = 0
 
     def correct_collinear_edges(self) -> None:
+        # edges that a ring shares with itself go first:
+        # when one of them gets joined with an edge of another ring,
+        # rings that cross each other may be left
+        self.correct_collinear_edges_of_rings(True)
+        self.correct_collinear_edges_of_rings(False)
+
+    def correct_collinear_edges_of_rings(self, same_ring: bool) -> None:
         if len(self.all_nodes) < 2:
             return
         count = 0
@@ -487,13 +494,14 @@ class RingManager:
                 continue
             first_index = prev_index - (count + 1)
             self.correct_collinear_repeats(self.all_nodes, first_index,
-                                           prev_index)
+                                           prev_index, same_ring)
             count = 0
 
     def correct_collinear_repeats(self,
                                   nodes: List[PointNode],
                                   start: int,
-                                  stop: int) -> None:
+                                  stop: int,
+                                  same_ring: bool) -> None:
         for index in range(start, stop):
             node = nodes[index]
             if node.ring is None:
@@ -503,7 +511,10 @@ class RingManager:
                 if node.ring is None:
                     break
                 other_node = nodes[other_index]
-                if other_node.ring is None or node is other_node:
+                if (other_node.ring is None or node is other_node
+                        or same_ring
+                        and (node.ring is not other_node.ring
+                             or not has_collinear_edge(node, other_node))):
                     other_index += 1
                     continue
                 if self.process_collinear_edges(node, other_node):
-- 
2.43.0

