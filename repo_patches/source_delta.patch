From 45137b33bd435cf8348e5a7afe731661590eb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 1/8] fix: Hilbert index must not panic when the total envelope
 is degenerate along an axis

---
 src/flatbush/hilbert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..37a91d8 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -64,7 +64,12 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // The scaling is meaningless along an axis in which the rectangle is flat, or
+        // too small or large to be scaled; such an axis does not affect the index.
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From 369e5cc7afa34e91cb3d094251dc1fe980203857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 2/8] fix: a LineString whose first point touches the inside of
 its last segment is not simple

---
 src/planar/validation/line_string.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..3f25f31 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -57,9 +57,15 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::None => continue,
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
-                    // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
+                    // adjacent segments.  In loops this includes the wraparound, where
+                    // the shared point is the start of the first segment and the end
+                    // of the last one.
+                    if (high_id == low_id + 1
+                        && (p == first_segment.end || p == first_segment.start))
+                        || (low_id == 0
+                            && high_id == num_segments - 1
+                            && p == first_segment.start
+                            && p == second_segment.end)
                     {
                         continue;
                     } else {
-- 
2.43.0


From c648041c751771c136a549a9b4ce98d8d10b9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 3/8] fix: colinear segments that only share their end must not
 be reported as overlapping

---
 src/planar/primitives/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..5737323 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -112,7 +112,7 @@ impl<C: Coordinate> Segment<C> {
                 // Offset, in units of da.
                 let t0 = Position::dot(offset, da) / da_2;
                 // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
+                let t1 = Position::dot(other.end - self.start, da) / da_2;
                 let (t_min, t_max) = t0.min_max(t1);
                 if t_min > C::one() || t_max < C::zero() {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
-- 
2.43.0


From de74b8842f3cf79cd55186bcfc306232b9c313bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 4/8] fix: a degenerate segment only intersects the segments
 that contain it

---
 src/planar/primitives/segment.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 5737323..d663e0c 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -94,6 +94,15 @@ impl<C: Coordinate> Segment<C> {
             return SegmentIntersection::Segment(*self);
         }
 
+        if self.start == self.end {
+            // A degenerate segment is just a position, and has no direction.
+            return if other.contains(self.start) {
+                SegmentIntersection::Position(self.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+
         let da = self.end - self.start; // The vector for the segment
         let db = other.end - other.start; // The vector for the other segment
         let offset = other.start - self.start; // The offset between segments (starts)
-- 
2.43.0


From 9911495e6fd582b38ca079643961c33d90d754d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 5/8] fix: segments that touch at an end must intersect exactly
 at that end

---
 src/planar/primitives/segment.rs | 35 ++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index d663e0c..14237f9 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -127,9 +127,23 @@ impl<C: Coordinate> Segment<C> {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // Else, the intersect.  The ends of the intersection are ends of
+                    // the segments; use these exactly, instead of rounded positions.
+                    let (other_min, other_max) = if t0 <= t1 {
+                        (other.start, other.end)
+                    } else {
+                        (other.end, other.start)
+                    };
+                    let start = if t_min > C::zero() {
+                        other_min
+                    } else {
+                        self.start
+                    };
+                    let end = if t_max < C::one() {
+                        other_max
+                    } else {
+                        self.end
+                    };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
@@ -144,7 +158,20 @@ impl<C: Coordinate> Segment<C> {
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                // If the intersection is at the end of a segment, use that position
+                // exactly, instead of a rounded one.
+                let position = if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                };
+                return SegmentIntersection::Position(position);
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From 0cb4e7c39d6b6f4c7febb7e855373941a1eee334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 6/8] fix: parse_wkt must return an error for unsupported
 geometry types, not panic

---
 src/serde/wkt.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..24d3deb 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    Ok(match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,8 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        _ => return Err("Unsupported geometry type."),
+    })
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 422a6d3932d451f4cde2c0ecaff439ad01df0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 7/8] fix: classify loops by the positions between touches when
 their vertices are on the other loop

---
 src/planar/algorithms/loop_relation.rs | 33 ++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..12fd6f8 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -59,6 +59,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     let mut winding_numbers_1: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut winding_numbers_2: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut boundary_positions: HashSet<SafePosition<C>> = HashSet::new();
+    // The positions where the segments of one loop touch the other loop, by segment id.
+    let mut touches_1: HashMap<usize, Vec<Position<C>>> = HashMap::new();
+    let mut touches_2: HashMap<usize, Vec<Position<C>>> = HashMap::new();
 
     while let Some((node1, node2)) = stack.pop() {
         if node1.level == 0 && node2.level == 0 {
@@ -75,6 +78,8 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                     } else {
                         intersecting_position = Some(p);
                         boundary_positions.insert(p.to_hashable().unwrap());
+                        touches_1.entry(node1.sibling_index).or_default().push(p);
+                        touches_2.entry(node2.sibling_index).or_default().push(p);
                     }
                 }
                 SegmentIntersection::None => (),
@@ -105,6 +110,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         }
     }
 
+    _add_positions_between_touches(touches_1, &segments_2, &mut winding_numbers_1);
+    _add_positions_between_touches(touches_2, &segments_1, &mut winding_numbers_2);
+
     let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
     if loop_1_relation == LoopRelation::Crosses {
         return LoopLoopRelation::Crosses;
@@ -154,6 +162,31 @@ fn _maybe_push_other_isxn<C: Coordinate>(
     }
 }
 
+/**
+ * Add a position between each two successive touches of a segment with the other loop.
+ *
+ * The ends of such a segment may both be on the other loop, in which case only
+ * these positions tell on which side of the other loop the segment is.
+ */
+fn _add_positions_between_touches<C: Coordinate>(
+    touches: HashMap<usize, Vec<Position<C>>>,
+    other_segments: &[Segment<C>],
+    winding_numbers: &mut HashMap<SafePosition<C>, i32>,
+) {
+    for (_, mut positions) in touches {
+        // The touches are all on the segment, so this orders them along it.
+        positions.sort_by(|p1, p2| p1.partial_cmp(p2).unwrap());
+        for touch_pair in positions.windows(2).filter(|pair| pair[0] != pair[1]) {
+            let middle = (touch_pair[0] + touch_pair[1]) / (C::one() + C::one());
+            let wn = other_segments
+                .iter()
+                .map(|&seg| Segment::find_winding_number(middle, seg))
+                .sum();
+            winding_numbers.insert(middle.to_hashable().unwrap(), wn);
+        }
+    }
+}
+
 fn _get_loop_relation<C: Coordinate>(
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-- 
2.43.0


From 26b6e0be27d518d40bc40b5fed4f680580ea717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 8/8] fix: convex hull of a loop that starts with colinear
 positions

---
 src/planar/algorithms/convex_hull.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..bf683db 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,19 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // The deque must start with a proper triangle.  In a simple loop, if b is
+    // colinear with a and c it is between them, so it is not in the hull.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(next) => {
+                b = c;
+                c = next;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0

