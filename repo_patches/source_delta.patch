From da7d166d46103e194de6d3a699739ec4275274e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 01/10] fix: rotate the vector counterclockwise in
 cmp_perp_vector_slope for rug::Integer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From 50bd645669a7027560b744ca73c8011471f3ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 02/10] fix: CursorIter::next_back must walk backwards

---
 src/data/polygon/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..53d58a2 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -116,7 +116,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From f653d8884e865506cf0c6ec15964ba43e5181d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 03/10] fix: an exhausted CursorIter has length 0

---
 src/data/polygon/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 53d58a2..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
-- 
2.43.0


From 15e444f3d12d8d4a3c1a3d852267e7e4c64a8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 04/10] fix: all_colinear must not be fooled by duplicates of
 the first point

---
 src/data/point.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..f453a90 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -303,12 +303,13 @@ impl<T: PolygonScalar> Point<T> {
   }
 
   pub fn all_colinear(pts: &[Point<T>]) -> bool {
-    if pts.len() < 3 {
-      return true;
+    // Duplicates of the first point do not define a line.
+    match pts.iter().find(|pt| **pt != pts[0]) {
+      Some(other) => pts
+        .iter()
+        .all(|pt| Point::orient(&pts[0], other, pt).is_colinear()),
+      None => true,
     }
-    pts
-      .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
   }
 
   /// Docs?
-- 
2.43.0


From 32ca7438054ec9fc4104d54b44b68221d273fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 05/10] fix: zero-length line segments only intersect segments
 that contain them

---
 src/data/line_segment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..e7318f9 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,9 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    // If 'self' is a single point then every point is colinear with it and it is
+    // the orientation relative to 'other' that matters.
+    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear && l2_to_a1 == CoLinear {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From 669faa52926b329dacfb7b47945208888f127b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 06/10] fix: PolygonConvex::locate must not report interior
 diagonals as boundary

---
 src/data/polygon/convex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..01b5d16 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,18 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    match triangle.locate(pt) {
+      // The side from `p2` to `p0` is an interior diagonal unless `p2` is the last vertex.
+      PointLocation::OnBoundary
+        if upper + 1 < vertices.len()
+          && pt != p0
+          && pt != p2
+          && Point::orient(p0, p2, pt) == Orientation::CoLinear =>
+      {
+        PointLocation::Inside
+      }
+      location => location,
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From 49443684ad0c7d1525d42b9eadc108e57dd959e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 07/10] fix: every vertex of a triangle is an ear

---
 src/data/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..4956832 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -718,7 +718,7 @@ impl<'a, T> Cursor<'a, T> {
     let trig =
       TriangleView::new_unchecked([self.prev().point(), self.point(), self.next().point()]);
     if trig.orientation() == Orientation::CounterClockWise {
-      for pt in self.next().next().to(Excluded(self.prev())) {
+      for pt in self.next().to(Excluded(self.prev())).skip(1) {
         if trig.locate(pt.point()) != PointLocation::Outside {
           return false;
         }
-- 
2.43.0


From ffad83dcd3f1d267379d2891325a9067a4007cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 08/10] fix: gift wrapping terminates when the input contains
 duplicates of the starting point

The walk around the hull stopped only on returning to the index of the
starting point. A duplicate of that point under another index made it run
forever (growing the hull without bound), and a list of identical points
gave a degenerate hull instead of InsufficientVertices.
---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..e799b5c 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare the points rather than the indices: the input may contain duplicates.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From 07209ccd980484a5687c3f471c2e1e7a2159db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 09/10] fix: IndexIntersectionSet::new(0) no longer underflows

---
 src/data/intersection_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/intersection_set.rs b/src/data/intersection_set.rs
index a84666d..c9e14de 100644
--- a/src/data/intersection_set.rs
+++ b/src/data/intersection_set.rs
@@ -47,7 +47,7 @@ pub struct IndexIntersectionSet {
 impl IndexIntersectionSet {
   /// O(n^2)
   pub fn new(vertices: usize) -> IndexIntersectionSet {
-    let size = vertices * (vertices - 1);
+    let size = vertices * vertices.saturating_sub(1);
     let by_edge = vec![None; size];
     IndexIntersectionSet {
       vertices,
-- 
2.43.0


From ea9a911f2f8b46db104188a73dfcf713fabb3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 10/10] fix: monotone polygon from points on one side of, and
 on, the line between the extremes

---
 src/algorithms/polygonization/monotone.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..75dfcb5 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -75,11 +75,18 @@ where
     points.last().unwrap().clone(),
   );
 
+  // The line between the extremes belongs to one chain only: the right chain if there are no points
+  // to the right of the line, and the left chain otherwise.
+  let has_right = points
+    .iter()
+    .any(|pt| Orientation::new(&min_point, &max_point, pt) == Orientation::ClockWise);
+
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if !has_right => polygon_points.push_front(curr),
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0

