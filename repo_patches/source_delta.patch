From e2ae953b115503315981aa642e2a5610f2807d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 01/10] fix: intersect a degenerate segment as a position
 instead of dividing by zero

---
 src/planar/primitives/segment.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..e96a1b2 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -89,6 +89,15 @@ impl<C: Coordinate> Segment<C> {
      * NB: This does not do an initial check with Envelopes; the caller should do that.
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
+        // A degenerate segment is just a position; it has no direction to work with.
+        if self.start == self.end {
+            return if other.contains(self.start) {
+                SegmentIntersection::Position(self.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+
         // check intersection
         if self == &other {
             return SegmentIntersection::Segment(*self);
-- 
2.43.0


From 9a1f1c8bb211684814be3db79551642e75ee2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 02/10] fix: report segment intersections at an endpoint as
 exactly that endpoint

---
 src/planar/primitives/segment.rs | 43 ++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index e96a1b2..16b1602 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -127,9 +127,22 @@ impl<C: Coordinate> Segment<C> {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // Else, they intersect, from one of their endpoints to another.
+                    let (other_min, other_max) = if t0 <= t1 {
+                        (other.start, other.end)
+                    } else {
+                        (other.end, other.start)
+                    };
+                    let start = if t_min > C::zero() {
+                        other_min
+                    } else {
+                        self.start
+                    };
+                    let end = if t_max < C::one() {
+                        other_max
+                    } else {
+                        self.end
+                    };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
@@ -138,13 +151,33 @@ impl<C: Coordinate> Segment<C> {
                 }
             }
         } else {
-            // The segments are not parallel, so they are disjoint or intersect at a point
+            // The segments are not parallel, so they are disjoint or intersect at a point.
+            // If they share an endpoint, that is the point.
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                // If an endpoint of one segment lies on the other, return exactly that endpoint;
+                // the calculated position might be slightly off.
+                let position = if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                };
+                return SegmentIntersection::Position(position);
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From 35ad5f7cf973627f5c9916014cc986880cf09d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 03/10] fix: reject open linestrings that end on their own
 first position's segment

---
 src/planar/validation/line_string.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..605d191 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,9 +58,12 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
-                    {
+                    let adjacent = high_id == low_id + 1 && p == first_segment.end;
+                    let wraparound = low_id == 0
+                        && high_id == num_segments - 1
+                        && p == first_segment.start
+                        && p == second_segment.end;
+                    if adjacent || wraparound {
                         continue;
                     } else {
                         return intersection_err;
-- 
2.43.0


From ff6614dfd0c13460828dafd10b373b85cf47fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 04/10] fix: do not panic building an rtree whose items span
 zero width or height

---
 src/flatbush/hilbert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..11f1667 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -64,7 +64,12 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // If the rectangle has no width (or height), the scale is infinite and x (or y) is NaN.
+        // All positions are then at the same x (or y).
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From 7088920c03c83d6c435814cd5a27a49af00c3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 05/10] fix: leave straight-angle positions out of the convex
 hull's starting triangle

---
 src/planar/algorithms/convex_hull.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..ed1dcaa 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,18 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // Positions in the middle of a straight run are not part of the hull.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(pos) => {
+                b = c;
+                c = pos;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0


From ee014570468d5d24b4dde86f21b2588f042d3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 06/10] fix: return an error for unsupported WKT geometry types

---
 src/serde/wkt.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..24d3deb 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    Ok(match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,8 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        _ => return Err("Unsupported geometry type."),
+    })
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 32e45529a618c10e27caf1986bf13f5b9b041b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 07/10] fix: find loops that cross each other only at vertices

---
 src/planar/algorithms/loop_relation.rs | 46 ++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..d8b297b 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -1,4 +1,5 @@
 use crate::Coordinate;
+use std::cmp::Ordering;
 use std::collections::{HashMap, HashSet};
 
 use crate::flatbush::{Flatbush, FlatbushNode, FLATBUSH_DEFAULT_DEGREE};
@@ -59,6 +60,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     let mut winding_numbers_1: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut winding_numbers_2: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut boundary_positions: HashSet<SafePosition<C>> = HashSet::new();
+    // The positions of each segment that are on the other loop.
+    let mut touches_1: Vec<Vec<Position<C>>> = vec![Vec::new(); segments_1.len()];
+    let mut touches_2: Vec<Vec<Position<C>>> = vec![Vec::new(); segments_2.len()];
 
     while let Some((node1, node2)) = stack.pop() {
         if node1.level == 0 && node2.level == 0 {
@@ -75,6 +79,8 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                     } else {
                         intersecting_position = Some(p);
                         boundary_positions.insert(p.to_hashable().unwrap());
+                        touches_1[node1.sibling_index].push(p);
+                        touches_2[node2.sibling_index].push(p);
                     }
                 }
                 SegmentIntersection::None => (),
@@ -105,6 +111,19 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         }
     }
 
+    _add_winding_numbers_between_touches(
+        &segments_1,
+        touches_1,
+        &segments_2,
+        &mut winding_numbers_1,
+    );
+    _add_winding_numbers_between_touches(
+        &segments_2,
+        touches_2,
+        &segments_1,
+        &mut winding_numbers_2,
+    );
+
     let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
     if loop_1_relation == LoopRelation::Crosses {
         return LoopLoopRelation::Crosses;
@@ -154,6 +173,33 @@ fn _maybe_push_other_isxn<C: Coordinate>(
     }
 }
 
+/**
+ * Find the winding numbers between successive touches on the same segment.
+ *
+ * A loop that touches the other loop can go from outside to inside (or back)
+ * without having a vertex there, so these parts need a position of their own.
+ */
+fn _add_winding_numbers_between_touches<C: Coordinate>(
+    segments: &[Segment<C>],
+    touches: Vec<Vec<Position<C>>>,
+    other_segments: &[Segment<C>],
+    winding_numbers: &mut HashMap<SafePosition<C>, i32>,
+) {
+    let two = C::one() + C::one();
+    for (seg, mut positions) in segments.iter().zip(touches) {
+        let along = |p: &Position<C>| Position::dot(*p - seg.start, seg.end - seg.start);
+        positions.sort_by(|p, q| along(p).partial_cmp(&along(q)).unwrap_or(Ordering::Equal));
+        for pair in positions.windows(2).filter(|pair| pair[0] != pair[1]) {
+            let middle = (pair[0] + pair[1]) / two;
+            let wn = other_segments
+                .iter()
+                .map(|other| Segment::find_winding_number(middle, *other))
+                .sum();
+            winding_numbers.insert(middle.to_hashable().unwrap(), wn);
+        }
+    }
+}
+
 fn _get_loop_relation<C: Coordinate>(
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-- 
2.43.0


From bce9fc1ad7e4e307acbfa8d083fe7a72724700b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 08/10] fix: find the overlap of collinear segments by
 comparing positions, not rounded ratios

---
 src/planar/primitives/segment.rs | 52 ++++++++++++++------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 16b1602..40c7c25 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -117,37 +117,31 @@ impl<C: Coordinate> Segment<C> {
                 return SegmentIntersection::None;
             } else {
                 // If the offset is also parallel, check for overlap.
-                let da_2 = Position::dot(da, da);
-                // Offset, in units of da.
-                let t0 = Position::dot(offset, da) / da_2;
-                // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
-                let (t_min, t_max) = t0.min_max(t1);
-                if t_min > C::one() || t_max < C::zero() {
-                    // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
+                // Positions on a common line can be ordered by comparing them; orient both
+                // segments along self, and find where the overlap starts and ends.
+                let forward = self.start < self.end;
+                let before = |p: Position<C>, q: Position<C>| if forward { p < q } else { q < p };
+                let (other_min, other_max) = if before(other.end, other.start) {
+                    (other.end, other.start)
+                } else {
+                    (other.start, other.end)
+                };
+                let start = if before(self.start, other_min) {
+                    other_min
+                } else {
+                    self.start
+                };
+                let end = if before(other_max, self.end) {
+                    other_max
+                } else {
+                    self.end
+                };
+                if before(end, start) {
                     return SegmentIntersection::None;
+                } else if start == end {
+                    return SegmentIntersection::Position(start);
                 } else {
-                    // Else, they intersect, from one of their endpoints to another.
-                    let (other_min, other_max) = if t0 <= t1 {
-                        (other.start, other.end)
-                    } else {
-                        (other.end, other.start)
-                    };
-                    let start = if t_min > C::zero() {
-                        other_min
-                    } else {
-                        self.start
-                    };
-                    let end = if t_max < C::one() {
-                        other_max
-                    } else {
-                        self.end
-                    };
-                    if start == end {
-                        return SegmentIntersection::Position(start);
-                    } else {
-                        return SegmentIntersection::Segment(Segment::new(start, end));
-                    }
+                    return SegmentIntersection::Segment(Segment::new(start, end));
                 }
             }
         } else {
-- 
2.43.0


From 3e42015079a879312a95d760ccb8264c321f7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 09/10] fix: reject WKT text that does not start with a
 readable token

The tokenizer of the wkt crate ends silently at text it cannot read, such as
a malformed number, so parse_wkt answered "1x" or "--" with an empty list of
geometries instead of an error.
---
 src/serde/wkt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index 24d3deb..02cb083 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,6 +6,10 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
+    // The tokenizer stops silently at text it cannot read (eg, a malformed number).
+    if wkt_geoms.items.is_empty() && !wkt_str.trim().is_empty() {
+        return Err("Invalid WKT format");
+    }
     wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-- 
2.43.0


From 7392001e1071763274ae4be32a35d8e13f17153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 10/10] fix: do not panic when rounding or overflow makes two
 loops look inside each other

---
 src/planar/algorithms/loop_relation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index d8b297b..8a0ee91 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -137,9 +137,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         (LoopRelation::Outside, LoopRelation::Outside) => LoopLoopRelation::Separate,
         (LoopRelation::Inside, LoopRelation::Outside) => LoopLoopRelation::Within,
         (LoopRelation::Outside, LoopRelation::Inside) => LoopLoopRelation::Contains,
-        (LoopRelation::Inside, LoopRelation::Inside) => {
-            panic!("BUG: Two loops found inside each other.")
-        }
+        // Two loops can only look as if they were inside each other if the calculations
+        // overflowed or were rounded.  They are not known to be separate or nested.
+        (LoopRelation::Inside, LoopRelation::Inside) => LoopLoopRelation::Crosses,
         (LoopRelation::Crosses, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
         (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => {
             panic!("BUG: One loop found Crossing but not the other")
-- 
2.43.0

