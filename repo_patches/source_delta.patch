From 6edb9a70b20291fa9738c2e3d71e8e11c39af2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/19] fix: do not duplicate segments in difference of linear
 with shaped

Both left and right events of a sweep line segment were passed to the
reduction, so every resulting segment was reported twice (once in each
direction) and a single segment was wrapped into a multisegment.
---
 rene/_clipping/difference.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..e5b6d91 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From 7fbf8163dce389f3e77be5c22186a2f6696d3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 02/19] fix: subtract shaped from linear lying on side of its
 bounding box

A linear minuend whose bounding box only touches that of the shaped
subtrahend still may overlap its border by a segment, so it is boxes
having no common continuum that makes it possible to return early.
---
 rene/_clipping/difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index e5b6d91..176e837 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -340,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -646,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -779,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From 840a7677a4f8bfae78857c2bbda01160e3948188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 03/19] fix: remove processed events from sweep line when
 relating linear with shaped

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 9fe517bb45fd121a88dff9b3d9b8f93cd8e599eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 04/19] fix: relate shaped geometries regardless of their
 contours orientation

---
 rene/_relating/utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..08a31cb 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
@@ -13,10 +15,23 @@ def polygon_to_segments(
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        _to_oriented_segments(polygon.border, Orientation.COUNTERCLOCKWISE),
         chain.from_iterable(
-            hole.segments
+            _to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
     )
+
+
+def _to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], target_orientation: Orientation, /
+) -> t.Sequence[hints.Segment[hints.ScalarT]]:
+    segments = contour.segments
+    return (
+        segments
+        if contour.orientation is target_orientation
+        else [
+            type(segment)(segment.end, segment.start) for segment in segments
+        ]
+    )
-- 
2.43.0


From 295d7c9956970dc0ac4a01d655609c2f47ee77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 05/19] fix: relate multisegmental with polygon regardless of
 its holes orientation

---
 rene/_relating/multisegmental.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..6506699 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -289,16 +289,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
-- 
2.43.0


From 18031a81ab545fa4f0685f3545994b4682085e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 06/19] fix: relate multisegmental with multipolygon when none
 of their parts are close

---
 rene/_relating/multipolygon.py   | 8 ++++++--
 rene/_relating/multisegmental.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..3701448 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
@@ -264,13 +266,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 6506699..37d2491 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
-- 
2.43.0


From d52362976d5ac804cd78f526b294fde308beee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 07/19] fix: complement relation when relating shaped with
 linear

---
 rene/_relating/mixed.py        | 12 ++++++++++++
 rene/_relating/multipolygon.py |  6 +++---
 rene/_relating/polygon.py      |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..0c76293 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -564,6 +564,18 @@ class ShapedLinearOperation(Operation[hints.ScalarT]):
             self._to_left_event(event)
         )
 
+    def to_relation(
+        self, /, *, linear_is_subset_of_shaped: bool, min_max_x: hints.ScalarT
+    ) -> Relation:
+        return (
+            super()
+            .to_relation(
+                linear_is_subset_of_shaped=linear_is_subset_of_shaped,
+                min_max_x=min_max_x,
+            )
+            .complement
+        )
+
 
 class RelationState(Generic[hints.ScalarT]):
     def update(
diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 3701448..1237ea0 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -232,12 +232,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.COVER
+                    or relation is Relation.ENCLOSES
                 )
                 else relation
             )
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..3bc5de4 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -168,12 +168,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.COVER
+                    or relation is Relation.ENCLOSES
                 )
                 else relation
             )
-- 
2.43.0


From 5434df8ab603b79989f0930e894bca3e8b9e2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 08/19] fix: relate segment with polygon by sweeping over its
 oriented edges

---
 rene/_relating/segment.py | 41 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..0f24eab 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -127,36 +127,19 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
+    polygon_bounding_box, segment_bounding_box = (
+        polygon.bounding_box,
+        segment.bounding_box,
     )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
+    if segment_bounding_box.disjoint_with(polygon_bounding_box):
+        return Relation.DISJOINT
+    min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
 def relate_to_region(
-- 
2.43.0


From bcf8202b0dcadc14424d0928b52fbd383c6a07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 09/19] fix: group equal events when relating linear with
 linear

---
 rene/_relating/linear.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..f97f18f 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import chain, groupby
+from itertools import groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -579,11 +579,14 @@ class RelationState(Generic[hints.ScalarT]):
         same_start_events: Sequence[Event],
         operation: Operation[hints.ScalarT],
     ) -> None:
-        for _, group in chain(
-            groupby(
+        # events pushed while processing the events with the same start
+        # may be separated from the ones they are equal to
+        for _, group in groupby(
+            sorted(
                 filter(is_event_left, same_start_events),
                 key=operation.to_event_end,
-            )
+            ),
+            key=operation.to_event_end,
         ):
             event = next(group)
             if next(group, None) is not None:
-- 
2.43.0


From 84b52f4c89c005bbdae76cf52db0147dbf6f283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 10/19] fix: detect crossing of linear at vertex with more than
 two rays

---
 rene/_relating/linear.py | 69 ++++++++++------------------------------
 1 file changed, 16 insertions(+), 53 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index f97f18f..cc4ba23 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import groupby
+from itertools import combinations, groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,31 +68,21 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
-                start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
+        return any(
+            not all_same(
+                is_point_in_angle(
+                    self.to_event_end(event),
+                    start,
+                    first_ray_point,
+                    second_ray_point,
+                    self._orienteer(start, first_ray_point, second_ray_point),
+                    self._orienteer,
+                )
+                for event in from_first_events
+            )
+            for first_ray_point, second_ray_point in combinations(
+                map(self.to_event_end, from_second_events), 2
             )
-            for event in from_first_events
         )
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
@@ -477,27 +467,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +504,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From f1db52213e89a71f171fe9a396701c17eddbceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 11/19] fix: relate multisegmental equal to part of another one

---
 rene/_relating/multisegmental.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 37d2491..228c32f 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -145,8 +145,10 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE if relation is Relation.EQUAL else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -180,7 +182,11 @@ def relate_to_multisegmental(
                     )
                 )
             )
-            else relation.complement
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
+            )
         )
     max_min_x = max(
         min(
-- 
2.43.0


From 2387e1534618da1865018ef7c74499f2e1f3d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 12/19] fix: correct interior side of contour closing edge in
 trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From 257d6b9187cf80235bfd08f595cf2ad0767e869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 13/19] fix: trapezoidation of edges passing through endpoints
 of other ones

---
 rene/_seidel/trapezoidation.py | 59 +++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 32b239a..7da4f65 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -581,30 +581,57 @@ def _find_intersecting_trapezoids(
     result = [trapezoid]
     right = endpoints[edge.right_point_index]
     while endpoints[trapezoid.right_point_index] < right:
-        candidate_index = (
-            (
-                trapezoid.upper_right_node_index
-                or trapezoid.lower_right_node_index
+        point = endpoints[trapezoid.right_point_index]
+        point_orientation = edge.orientation_of(point, endpoints)
+        if point_orientation is Orientation.COLLINEAR:
+            # edge passes through an endpoint of other ones
+            trapezoid = _find_trapezoid_after_point(
+                point, edge, edges, endpoints, nodes
             )
-            if (
-                edge.orientation_of(
-                    endpoints[trapezoid.right_point_index], endpoints
+        else:
+            candidate_index = (
+                (
+                    trapezoid.upper_right_node_index
+                    or trapezoid.lower_right_node_index
+                )
+                if point_orientation is Orientation.CLOCKWISE
+                else (
+                    trapezoid.lower_right_node_index
+                    or trapezoid.upper_right_node_index
                 )
-                is Orientation.CLOCKWISE
             )
-            else (
-                trapezoid.lower_right_node_index
-                or trapezoid.upper_right_node_index
+            assert candidate_index is not None, (
+                'Expected neighbour trapezoid, but none found.'
             )
-        )
-        assert candidate_index is not None, (
-            'Expected neighbour trapezoid, but none found.'
-        )
-        trapezoid = _get_trapezoid(candidate_index, nodes)
+            trapezoid = _get_trapezoid(candidate_index, nodes)
         result.append(trapezoid)
     return result
 
 
+def _find_trapezoid_after_point(
+    point: hints.Point[hints.ScalarT],
+    edge: Edge[hints.ScalarT],
+    edges: Sequence[Edge[hints.ScalarT]],
+    endpoints: Sequence[hints.Point[hints.ScalarT]],
+    nodes: Sequence[Node[hints.ScalarT]],
+    /,
+) -> Trapezoid:
+    cursor = nodes[0]
+    while not isinstance(cursor, Leaf):
+        cursor = (
+            nodes[
+                (
+                    cursor.left_node_index
+                    if point < endpoints[cursor.point_index]
+                    else cursor.right_node_index
+                )
+            ]
+            if isinstance(cursor, XNode)
+            else cursor.search_edge_node(edge, edges, endpoints, nodes)
+        )
+    return cursor.trapezoid
+
+
 def _get_trapezoid(
     index: int, nodes: Sequence[Node[hints.ScalarT]], /
 ) -> Trapezoid:
-- 
2.43.0


From 1f1d6dcdeeefaf2e3bfac8c51572c2f9c998099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 14/19] fix: constrained Delaunay triangulation regardless of
 holes orientation

---
 rene/_triangulation/constrained_delaunay.py | 32 +++++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..f9735aa 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -9,7 +9,12 @@ from typing_extensions import Self
 
 from rene import hints
 from rene._relating import segment_endpoints
-from rene._utils import locate_point_in_point_point_point_circle
+from rene._utils import (
+    locate_point_in_point_point_point_circle,
+    rotate_sequence,
+    to_arg_min,
+    to_contour_orientation,
+)
 from rene.enums import Location, Orientation, Relation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
@@ -32,9 +37,14 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
         orienteer: Orienteer[hints.ScalarT],
         /,
     ) -> Self:
-        contours_vertices = [
+        contours_vertices: list[Sequence[hints.Point[hints.ScalarT]]] = [
             polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            *[
+                to_oriented_vertices(
+                    hole.vertices, Orientation.CLOCKWISE, orienteer
+                )
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
@@ -770,3 +780,19 @@ def to_constraint_index(
         if abs(second_vertex_index - first_vertex_index) == 1
         else 0
     )
+
+
+def to_oriented_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    target_orientation: Orientation,
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    return (
+        vertices
+        if (
+            to_contour_orientation(vertices, to_arg_min(vertices), orienteer)
+            is target_orientation
+        )
+        else rotate_sequence(vertices)
+    )
-- 
2.43.0


From e61b0901a4794143390065b277d65579a5655da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 15/19] fix: constrained Delaunay triangulation of polygon with
 holes touching edges

---
 rene/_triangulation/constrained_delaunay.py | 51 ++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index f9735aa..dfd6406 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from collections import deque
 from itertools import chain, groupby
 from operator import attrgetter
@@ -10,10 +11,12 @@ from typing_extensions import Self
 from rene import hints
 from rene._relating import segment_endpoints
 from rene._utils import (
+    deduplicate,
     locate_point_in_point_point_point_circle,
     rotate_sequence,
     to_arg_min,
     to_contour_orientation,
+    to_sorted_pair,
 )
 from rene.enums import Location, Orientation, Relation
 
@@ -46,6 +49,16 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
                 for hole in polygon.holes
             ],
         ]
+        contours_vertices = [
+            split_touched_edges(
+                vertices,
+                chain.from_iterable(
+                    contours_vertices[:index] + contours_vertices[index + 1 :]
+                ),
+                orienteer,
+            )
+            for index, vertices in enumerate(contours_vertices)
+        ]
         vertices = list(
             chain.from_iterable(
                 (
@@ -339,7 +352,12 @@ def angle_contains_point(
     orienteer: Orienteer[hints.ScalarT],
     /,
 ) -> bool:
-    assert angle_orientation is not Orientation.COLLINEAR
+    if angle_orientation is Orientation.COLLINEAR:
+        # straight angle to the outside of clockwise oriented hole
+        return (
+            orienteer(first_ray_point, second_ray_point, point)
+            is not Orientation.CLOCKWISE
+        )
     first_half_orientation = orienteer(vertex, first_ray_point, point)
     second_half_orientation = orienteer(second_ray_point, vertex, point)
     return (
@@ -796,3 +814,34 @@ def to_oriented_vertices(
         )
         else rotate_sequence(vertices)
     )
+
+
+def split_touched_edges(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    others: Iterable[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    candidates = sorted(others)
+    if not candidates:
+        return vertices
+    result = []
+    for index, start in enumerate(vertices):
+        end = vertices[(index + 1) % len(vertices)]
+        result.append(start)
+        min_endpoint, max_endpoint = to_sorted_pair(start, end)
+        touches = deduplicate(
+            [
+                candidate
+                for candidate in candidates[
+                    bisect_right(candidates, min_endpoint) : bisect_left(
+                        candidates, max_endpoint
+                    )
+                ]
+                if (
+                    orienteer(start, end, candidate) is Orientation.COLLINEAR
+                )
+            ]
+        )
+        result.extend(touches if start < end else reversed(touches))
+    return result
-- 
2.43.0


From 2ce5f432cbfabb77326d13a4e6212572fe8dc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 16/19] fix: Restore Delaunay criterion fully after setting a
 constraint

---
 rene/_triangulation/constrained_delaunay.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index dfd6406..7fb4f2f 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -730,19 +730,13 @@ def restore_delaunay_criterion(
     /,
 ) -> None:
     while True:
-        next_target_edges: list[QuadEdge] = []
-        edges_to_swap: list[QuadEdge] = []
+        has_swapped_edges = False
         for edge in candidates:
-            (
-                edges_to_swap
-                if edge_should_be_swapped(mesh, edge, orienteer)
-                else next_target_edges
-            ).append(edge)
-        if not edges_to_swap:
+            if edge_should_be_swapped(mesh, edge, orienteer):
+                mesh.swap_diagonal(edge)
+                has_swapped_edges = True
+        if not has_swapped_edges:
             break
-        for edge in edges_to_swap:
-            mesh.swap_diagonal(edge)
-        candidates = next_target_edges
 
 
 def set_constraint(
-- 
2.43.0


From 0415865eb27963512e178140a88e15793f79edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 17/19] fix: Relate multisegments to multipolygons counting
 only segments considered

Segments to the right of the area in common were left out of the sweep but
counted as subset of the multipolygon, so that the relation was e.g. ENCLOSED
instead of CROSS.
---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 1237ea0..82fc7d1 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -284,7 +284,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 228c32f..11e2d0e 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -110,7 +110,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From dce630d725720a721743ebc3db3b043e759d80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 18/19] fix: Track collinear segments with properly linked
 disjoint sets

Multisegment.is_valid raised AssertionError when several segments overlap.
---
 rene/_bentley_ottmann/events_registry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rene/_bentley_ottmann/events_registry.py b/rene/_bentley_ottmann/events_registry.py
index 02401da..7fe3038 100644
--- a/rene/_bentley_ottmann/events_registry.py
+++ b/rene/_bentley_ottmann/events_registry.py
@@ -399,12 +399,12 @@ class EventsRegistry(Generic[hints.ScalarT]):
     ) -> None:
         first_segment_id = self._to_left_event_segment_id(first)
         second_segment_id = self._to_left_event_segment_id(second)
-        first_min_collinear_segment_id = self._min_collinear_segments_ids[
+        first_min_collinear_segment_id = self._to_min_collinear_segment_id(
             first_segment_id
-        ]
-        second_min_collinear_segment_id = self._min_collinear_segments_ids[
+        )
+        second_min_collinear_segment_id = self._to_min_collinear_segment_id(
             second_segment_id
-        ]
+        )
         min_collinear_segment_id = min(
             first_min_collinear_segment_id, second_min_collinear_segment_id
         )
@@ -437,11 +437,8 @@ class EventsRegistry(Generic[hints.ScalarT]):
 
     def _to_min_collinear_segment_id(self, segment_id: int, /) -> int:
         candidate = segment_id
-        iterations_count = 0
         while self._min_collinear_segments_ids[candidate] != candidate:
             candidate = self._min_collinear_segments_ids[candidate]
-            iterations_count += 1
-        assert iterations_count < 3
         return candidate
 
     def _to_opposite_event(self, event: Event, /) -> Event:
-- 
2.43.0


From 8129617ce8c116b94d8b5df829b287bf9cb6ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:18 +0000
Subject: [PATCH 19/19] fix: locating in and height of trapezoidations deeper
 than the stack

---
 rene/_seidel/leaf.py           |  8 ++++++--
 rene/_seidel/node.py           | 11 +++++++----
 rene/_seidel/trapezoidation.py | 31 +++++++++++++++++++++++--------
 rene/_seidel/x_node.py         | 22 +++++++++-------------
 rene/_seidel/y_node.py         | 22 +++++++++-------------
 5 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/rene/_seidel/leaf.py b/rene/_seidel/leaf.py
index 4fec80f..a950108 100644
--- a/rene/_seidel/leaf.py
+++ b/rene/_seidel/leaf.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from collections.abc import Sequence
 
 from typing_extensions import Self, override
@@ -38,8 +40,10 @@ class Leaf(Node[hints.ScalarT]):
         return self
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return 0
+    def to_children(
+        self, nodes: Sequence[Node[hints.ScalarT]], /
+    ) -> Sequence[Node[hints.ScalarT]]:
+        return ()
 
     trapezoid: Trapezoid
 
diff --git a/rene/_seidel/node.py b/rene/_seidel/node.py
index 9f8eae4..084985c 100644
--- a/rene/_seidel/node.py
+++ b/rene/_seidel/node.py
@@ -21,9 +21,10 @@ class Node(ABC, Generic[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         """
-        Finds location of given point relative to the contour.
+        Finds location of given point relative to the contour
+        or the child node to continue the search with.
         """
 
     @abstractmethod
@@ -41,7 +42,9 @@ class Node(ABC, Generic[hints.ScalarT]):
         """
 
     @abstractmethod
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
+    def to_children(
+        self, nodes: Sequence[Node[hints.ScalarT]], /
+    ) -> Sequence[Node[hints.ScalarT]]:
         """
-        Returns height of the node.
+        Returns child nodes of the node.
         """
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 7da4f65..d753c20 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -87,12 +87,30 @@ class Trapezoidation(Generic[hints.ScalarT]):
 
     @property
     def height(self, /) -> int:
-        return self._root.to_height(self._nodes)
+        heights: dict[int, int] = {}
+        stack = [self._root]
+        while stack:
+            node = stack[-1]
+            children = node.to_children(self._nodes)
+            unvisited_children = [
+                child for child in children if id(child) not in heights
+            ]
+            if unvisited_children:
+                stack.extend(unvisited_children)
+            else:
+                heights[id(node)] = max(
+                    (heights[id(child)] + 1 for child in children), default=0
+                )
+                stack.pop()
+        return heights[id(self._root)]
 
     def locate(self, point: hints.Point[hints.ScalarT], /) -> Location:
-        return self._root.locate(
-            point, self._edges, self._endpoints, self._nodes
-        )
+        result: Location | Node[hints.ScalarT] = self._root
+        while not isinstance(result, Location):
+            result = result.locate(
+                point, self._edges, self._endpoints, self._nodes
+            )
+        return result
 
     @classmethod
     def _from_box(
@@ -138,10 +156,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
         return self
 
     def __contains__(self, point: hints.Point[hints.ScalarT]) -> bool:
-        return (
-            self._root.locate(point, self._edges, self._endpoints, self._nodes)
-            is not Location.EXTERIOR
-        )
+        return self.locate(point) is not Location.EXTERIOR
 
 
 def _add_edge(
diff --git a/rene/_seidel/x_node.py b/rene/_seidel/x_node.py
index f7985c0..2fba158 100644
--- a/rene/_seidel/x_node.py
+++ b/rene/_seidel/x_node.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from collections.abc import Sequence
 
 from typing_extensions import Self, override
@@ -22,14 +24,12 @@ class XNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         return (
-            nodes[self.left_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.left_node_index]
             if point < endpoints[self.point_index]
             else (
-                nodes[self.right_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.right_node_index]
                 if endpoints[self.point_index] < point
                 else Location.BOUNDARY
             )
@@ -56,14 +56,10 @@ class XNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.left_node_index].to_height(nodes),
-                nodes[self.right_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children(
+        self, nodes: Sequence[Node[hints.ScalarT]], /
+    ) -> Sequence[Node[hints.ScalarT]]:
+        return (nodes[self.left_node_index], nodes[self.right_node_index])
 
     __slots__ = 'left_node_index', 'point_index', 'right_node_index'
 
diff --git a/rene/_seidel/y_node.py b/rene/_seidel/y_node.py
index 7fdd0a6..1e4a323 100644
--- a/rene/_seidel/y_node.py
+++ b/rene/_seidel/y_node.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from collections.abc import Sequence
 
 from typing_extensions import Self, override
@@ -22,17 +24,15 @@ class YNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         point_orientation = edges[self.edge_index].orientation_of(
             point, endpoints
         )
         return (
-            nodes[self.above_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.above_node_index]
             if point_orientation is Orientation.COUNTERCLOCKWISE
             else (
-                nodes[self.below_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.below_node_index]
                 if point_orientation is Orientation.CLOCKWISE
                 else Location.BOUNDARY
             )
@@ -56,14 +56,10 @@ class YNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.below_node_index].to_height(nodes),
-                nodes[self.above_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children(
+        self, nodes: Sequence[Node[hints.ScalarT]], /
+    ) -> Sequence[Node[hints.ScalarT]]:
+        return (nodes[self.below_node_index], nodes[self.above_node_index])
 
     __slots__ = 'above_node_index', 'below_node_index', 'edge_index'
 
-- 
2.43.0

