From a596266896601a3dc16beb817601c083a71993c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 1/5] fix: euclidean rect-rect distance is the gap between
 facing edges, never negative

---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..67531da 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the y-difference between the facing
+        // edges (the only positive one), and similarly for y-overlaps
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From e33589fcabc7f426de82da42e8aa444f01fa90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 2/5] fix: knn returns no results when k is zero

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..21ceba0 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -31,6 +31,11 @@ where
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
     let mut results = vec![];
 
+    // Nothing to search for
+    if k == 0 {
+        return Ok(results);
+    }
+
     // Traverse the work stack in distance sorted order
     loop {
         // 1. Sort the stack in distance-descending order
-- 
2.43.0


From 21e554d7cb6480a1f69cb0d1b25e168cae7aeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 3/5] fix: find_r does not skip nodes whose edge is exactly at
 the search radius

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From e0224aba0f87e14a678a8c4244e2c1a093f3639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 4/5] fix: haversine distance from a LineString to a Point
 mirrors Point to LineString

---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86bcdb3 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -70,7 +70,7 @@ where
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
         match rhs {
-            GeometryRef::Point(_) => Err(Error::InvalidDistance),
+            GeometryRef::Point(d) => Ok(dist_pt_linestring(d, self)),
             GeometryRef::Line(_) => Err(Error::InvalidDistance),
             GeometryRef::LineString(_) => Err(Error::InvalidDistance),
             GeometryRef::Polygon(_) => Err(Error::InvalidDistance),
-- 
2.43.0


From 61460e073922a828a66bcd822c1a89d0a59371e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 5/5] fix: haversine point-rect distance never exceeds the
 distance to a point in the rect

---
 src/geom/spherical/math.rs | 59 +++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..66cfe82 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -1,4 +1,4 @@
-use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect, coord};
+use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect};
 use std::f64::consts::PI;
 use std::ops::{Add, Sub};
 
@@ -11,13 +11,6 @@ macro_rules! p {
     };
 }
 
-/// Helper macro to make a line
-macro_rules! l {
-    ($x1:expr, $y1:expr, $x2:expr, $y2:expr) => {
-        Line::new(coord!(x: $x1, y: $y1), coord!(x: $x2, y: $y2))
-    };
-}
-
 /// Internal struct for ensuring Lng wrapping math works correctly.
 #[derive(Debug, Clone, Copy)]
 struct Lng<T>(T)
@@ -181,25 +174,39 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
-        // smallest y-value
-        l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
-    } else {
-        // largest y-value as final case
-        l!(rect.min().x, rect.max().y, rect.max().x, rect.max().y)
-    };
+    // Some part of the rect is on the same meridian, so the closest point is
+    // straight up or down it, and latitude math maps directly to radians
+    if x >= rect.min().x && x <= rect.max().x {
+        return if y < rect.min().y {
+            rect.min().y - y
+        } else {
+            y - rect.max().y
+        };
+    }
+
+    // Otherwise the closest point is on one of the vertical edges. Which one
+    // depends on lng wrapping, so take the smallest.
+    let (min, max) = (rect.min(), rect.max());
+    dist_pt_meridian(pt, min.x, min.y, max.y).min(dist_pt_meridian(pt, max.x, min.y, max.y))
+}
 
-    dist_pt_line(pt, &line)
+/// Calculate the great circle distance between a [`Point`] and the section of
+/// the meridian at `lng` that runs from `min_lat` to `max_lat`.
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, min_lat: T, max_lat: T) -> T
+where
+    T: GeoFloat,
+{
+    let (x, y) = pt.x_y();
+    let d = dist_pt_pt(pt, &p!(lng, min_lat)).min(dist_pt_pt(pt, &p!(lng, max_lat)));
+
+    // The closest point of the entire meridian is where the perpendicular from
+    // the point meets it, which is at a higher lat than the point
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
+    if lat > min_lat && lat < max_lat {
+        d.min(dist_pt_pt(pt, &p!(lng, lat)))
+    } else {
+        d
+    }
 }
 
 // Calculate Spherical bounds distances.
-- 
2.43.0

