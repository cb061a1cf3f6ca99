From 097115cc1ebc8bbfa38b4e435af1b1138e56c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/46] fix: convex hull of three points was not closed and
 kept collinear points

---
 src/linestring_2d/convex_hull.rs | 60 --------------------------------
 1 file changed, 60 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..b8d6c90 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -277,13 +277,6 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.len() <= 2 {
         return Ok(vertices.to_vec());
     }
-    if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
-        };
-    }
 
     let starting_point = find_lowest_x(vertices)?.0;
 
@@ -419,19 +412,6 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
     let mut hull = Vec::with_capacity(indices.len() / 4);
@@ -535,13 +515,6 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.len() <= 2 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let mut input_points = input_points.to_vec();
 
@@ -630,13 +603,6 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.len() <= 2 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
     //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
@@ -763,19 +729,6 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
     } else {
@@ -1136,19 +1089,6 @@ pub fn convex_hull_par<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
 
     // Create chunks of indices
     let chunks: Vec<_> = indices.chunks(per_thread_chunk_size).collect();
-- 
2.43.0


From 69ea66b846cdf8fddd675d75dda55cf609872b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/46] fix: gift wrapping did not terminate or lost hull
 points on repeated points

---
 src/linestring_2d/convex_hull.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index b8d6c90..46242bb 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -316,7 +316,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_point {
+                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     //println!("coll marking {:?}:{} as visited", input_points[j], j);
                     let _ = visited.set(j, true);
@@ -325,7 +325,8 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        // compare by position, the starting point may occur more than once
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -452,7 +453,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_index {
+                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     let _ = visited.set(j, true);
                 }
@@ -460,7 +461,8 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        // compare by position, the starting point may occur more than once
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
-- 
2.43.0


From ea2d4d30afead78d9e97b1b52b4a0b6d731fa12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 03/46] fix: indexed graham scan lost hull points when the
 starting point is repeated

---
 src/linestring_2d/convex_hull.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 46242bb..10df8e8 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -759,10 +759,10 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if *i == start_index || p == start_point {
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From 4a85534346d14ddabced8a19c5e3049f142b5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 04/46] fix: parallel convex hull lost hull points or did not
 terminate when combining partial hulls

---
 src/linestring_2d/convex_hull.rs | 33 ++++++--------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 10df8e8..ecdb449 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -824,8 +824,8 @@ struct VertexIndex {
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
 /// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// find a better `end_point`. All of `ìndices_b` must be visited, the candidates are not sorted by
+/// angle as seen from `point_on_hull`.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -909,13 +909,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
-                if j == point_on_hull.index || j == end_point.index
+                if j == end_point.index || vertices[j] == vertices[point_on_hull.index]
                 /*|| visited.contains(&j)*/
                 {
                     continue;
@@ -931,7 +928,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -944,27 +940,17 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
-                if j == point_on_hull.index || j == end_point.index
+                if j == end_point.index || vertices[j] == vertices[point_on_hull.index]
                 /*|| visited.contains(&j)*/
                 {
                     continue;
@@ -980,7 +966,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -993,17 +978,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
@@ -1014,7 +992,8 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        // compare by position, the starting point may occur more than once
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From fb3c29a90d4e5e0abf73deebd85fe28bf82a3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 05/46] fix: graham_scan_wo_atan2 did not order equal points
 consistently

---
 src/linestring_2d/convex_hull.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index ecdb449..a2a8ad5 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -531,11 +531,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
                 // Collinear, pick the furthest node
                 let dist_sb = starting_point.distance_sq(*b);
                 let dist_sc = starting_point.distance_sq(*c);
-                if dist_sb > dist_sc {
-                    Ordering::Greater
-                } else {
-                    Ordering::Less
-                }
+                dist_sb.partial_cmp(&dist_sc).unwrap_or(Ordering::Equal)
             }
             _ => panic!(),
         }
-- 
2.43.0


From a9b519cf6f8181d9e2386b1e64947a7048ae7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 06/46] fix: convex hull did not report points with a NaN or
 infinite component as errors

---
 src/linestring_2d/convex_hull.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index a2a8ad5..6db3699 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -48,7 +48,7 @@ use crate::{linestring_2d::LineString2, LinestringError};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::real::Real, GenericScalar, GenericVector2};
+use vector_traits::{approx::ulps_eq, num_traits::Float, GenericScalar, GenericVector2};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -69,6 +69,20 @@ impl Orientation {
     }
 }
 
+/// returns an error if any component of `point` is NaN or infinite
+#[inline(always)]
+fn ensure_finite<T: GenericVector2>(point: T) -> Result<(), LinestringError> {
+    if point.x().is_finite() && point.y().is_finite() {
+        Ok(())
+    } else {
+        Err(LinestringError::InvalidData(format!(
+            "Point is not finite ({},{})",
+            point.x(),
+            point.y()
+        )))
+    }
+}
+
 /// finds the point with lowest x, if x is equal -> find the point with lowest y value
 fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), LinestringError> {
     if vertices.is_empty() {
@@ -79,8 +93,10 @@ fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), Linest
 
     let mut min_idx = 0;
     let mut min_val = vertices[0];
+    ensure_finite(min_val)?;
 
     for (idx, point) in vertices.iter().enumerate().skip(1) {
+        ensure_finite(*point)?;
         match point.x().partial_cmp(&min_val.x()) {
             Some(Ordering::Less) => {
                 min_idx = idx;
@@ -126,9 +142,11 @@ fn indexed_find_lowest_x<T: GenericVector2>(
 
     let mut min_idx_idx = 0;
     let mut min_val = vertices[indices[min_idx_idx]];
+    ensure_finite(min_val)?;
 
     for (index_index, index) in indices.iter().enumerate().skip(1) {
         let point = vertices[*index];
+        ensure_finite(point)?;
         match point.x().partial_cmp(&min_val.x()) {
             Some(Ordering::Less) => {
                 min_idx_idx = index_index;
-- 
2.43.0


From d4e6c127f5fad4b50d0686d3412c286c0ca738a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 07/46] fix: point containment on internal diagonals and in
 degenerated hulls

---
 src/linestring_2d/convex_hull.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 6db3699..3c49640 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1299,8 +1299,24 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
 
     //println!("{:?}", slice );
     // Check the final slice (triangle)
+    let origin = input[input_offset];
+    if p == origin {
+        return false;
+    }
+    // The edges of the triangle that connects to `origin` are internal diagonals unless they are the
+    // first or last edge of the hull. A point on an internal diagonal is still inside of the hull.
+    let is_inside = |a: T, b: T, hull_edge: bool| {
+        if hull_edge {
+            is_point_left(a, b, p)
+        } else {
+            is_point_left_allow_collinear(a, b, p)
+        }
+    };
+    let last_point = slice[slice.len() - 1];
+    let last_is_hull_edge = last_point == input[input.len() - 1];
+
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        if !is_inside(origin, slice[0], slice[0] == input[input_offset + 1]) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
@@ -1310,7 +1326,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
                 return false;
             }
         }
-        if !is_point_left(slice[slice.len() - 1], input[input_offset], p) {
+        if !is_inside(last_point, origin, last_is_hull_edge) {
             //println!("return false 3.3 slice:0+{:?}", slice);
             return false;
         }
@@ -1322,7 +1338,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
                 return false;
             }
         }
-        if !is_point_left(slice[slice.len() - 1], slice[0], p) {
+        if !is_inside(last_point, origin, last_is_hull_edge) {
             //println!("return false 4 slice:{:?}", slice);
             return false;
         }
@@ -1410,6 +1426,13 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         }
     }
 
+    if !retain_index_0 && slice.len() <= 2 {
+        // a degenerated hull, i.e. a single point or a single line
+        let (a, b) = (slice[0], slice[slice.len() - 1]);
+        return point_orientation(a, b, p) == Orientation::Collinear
+            && (a - p).dot(b - p) <= T::Scalar::ZERO;
+    }
+
     //println!("{:?}", slice );
     // Check the final slice (triangle)
     if retain_index_0 {
-- 
2.43.0


From fd6ae5523d405400337ec38dd9d7a414a8d363d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 08/46] fix: convex hull of a single point was empty

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 3c49640..2d20055 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -288,7 +288,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
@@ -528,7 +528,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
@@ -612,7 +612,7 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-- 
2.43.0


From fac0cdf99ee28b7a56e6ac81577d93036d30593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 09/46] fix: sweep-line missed intersections with lines touched
 by an endpoint and with wrongly ranked neighbours

---
 src/linestring_2d/intersection.rs | 67 ++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..9a2c164 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -362,31 +362,38 @@ impl SiteEvent {
     }
 }
 
-/// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
-fn sweepline_intersection<T: GenericVector2>(
+/// Returns the x coordinate of the point of intersection between the `sweepline` and `other`
+/// Second return value ranks lines that intersect the sweepline at the same point: of the lines left
+/// of the pivot point, the one leaning the most towards it has the lowest value. Of the lines to the
+/// right of it, the one leaning the most towards it has the highest value.
+/// Horizontal lines never have a well-defined point of intersection with the sweepline.
+pub(crate) fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
     let x2 = other.end.x();
     if approx::ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        return None;
     }
+    Some((
+        x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
+        (x1 - x2) / (y2 - y1),
+    ))
+}
 
-    if approx::ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
+/// Returns true if a line, known to be intersecting the sweepline, passes through the pivot point
+pub(crate) fn passes_through<T: GenericVector2>(pivot: T, line: &linestring_2d::Line2<T>) -> bool {
+    let delta = line.end - line.start;
+    if delta.x().abs() > delta.y().abs() {
+        let y = line.start.y() + (pivot.x() - line.start.x()) * delta.y() / delta.x();
+        approx::ulps_eq!(&y, &pivot.y())
+    } else {
+        let x = line.start.x() + (pivot.y() - line.start.y()) * delta.x() / delta.y();
+        approx::ulps_eq!(&x, &pivot.x())
     }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
@@ -628,9 +635,21 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) -> Result<(), LinestringError> {
         self.sweepline_pos = key.pos;
 
+        // The lines passing through this point: the intersections already detected, and the lines
+        // touched by an endpoint located at this point.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+        for line_index in active_lines.iter() {
+            if !event.drop.iter().flatten().any(|i| i == line_index)
+                && !intersections.contains(line_index)
+                && passes_through(self.sweepline_pos, &self.lines[*line_index])
+            {
+                intersections.push(*line_index);
+            }
+        }
+
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -655,7 +674,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -678,7 +697,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
@@ -694,7 +713,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -736,7 +755,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(*l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
 
@@ -788,15 +807,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                         )));
                     }
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
-                    {
+                    if SiteEventKey::new(intersection_p) > SiteEventKey::new(self.sweepline_pos) {
                         self.add_intersection_event(
                             site_events,
                             &SiteEventKey {
-- 
2.43.0


From 26ecf78bafcba018014fe9a018e4242d732a8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 10/46] fix: indexed sweep-line missed intersections with lines
 touched by an endpoint and with wrongly ranked neighbours

---
 src/linestring_2d/indexed_intersection.rs | 88 ++++++++++-------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..e3aa9a4 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -44,6 +44,7 @@ limitations under the License.
 #[cfg(test)]
 mod tests;
 
+use super::intersection::{passes_through, sweepline_intersection};
 use crate::{linestring_2d::Line2, LinestringError};
 use ahash::AHashSet;
 use smallvec::{smallvec, SmallVec};
@@ -368,37 +369,6 @@ impl SiteEvent {
     }
 }
 
-/// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
-fn sweepline_intersection<T: GenericVector2>(
-    vertices: &[T],
-    sweepline: T,
-    other: (usize, usize),
-) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
-    let other_start = vertices[other.0];
-    let other_end = vertices[other.1];
-
-    let y1 = other_start.y();
-    let y2 = other_end.y();
-    let x1 = other_start.x();
-    let x2 = other_end.x();
-    if ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
-    }
-
-    if ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
-    }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
-}
-
 /// Contains the data the sweep-line intersection algorithm needs to operate.
 /// Some of these containers are stored inside an Option. This makes it possible
 /// to take() them and make the borrow-checker happy.
@@ -708,9 +678,22 @@ impl<T: GenericVector2> IntersectionTester<T> {
         self.sweepline_pos = key.pos;
         self.sweepline_pos_index = key.index;
 
+        // The lines passing through this point: the intersections already detected, and the lines
+        // touched by an endpoint located at this point.
+        let mut intersections: SmallVec<[usize; 1]> =
+            event.intersection.iter().flatten().copied().collect();
+        for line_index in active_lines.iter() {
+            if !event.drop.iter().flatten().any(|i| i == line_index)
+                && !intersections.contains(line_index)
+                && passes_through(self.sweepline_pos, &self.line(*line_index))
+            {
+                intersections.push(*line_index);
+            }
+        }
+
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -738,7 +721,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         println!("self.sweepline_pos:{:?}", self.sweepline_pos);
                         panic!();
                     }),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -761,7 +744,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos_index.unwrap(),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
@@ -777,7 +760,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -785,11 +768,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) = sweepline_intersection(
-                &self.vertices,
-                self.sweepline_pos,
-                *self.lines.get(*line_index).unwrap(),
-            ) {
+            if let Some((intersection_x, intersection_slope)) =
+                sweepline_intersection(self.sweepline_pos, &self.line(*line_index))
+            {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
@@ -821,7 +802,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
 
@@ -843,6 +824,13 @@ impl<T: GenericVector2> IntersectionTester<T> {
         Ok(())
     }
 
+    /// returns the geometry of an edge
+    #[inline(always)]
+    fn line(&self, line_index: usize) -> Line2<T> {
+        let (start, end) = self.lines[line_index];
+        Line2::new(self.vertices[start], self.vertices[end])
+    }
+
     fn find_new_events(
         &mut self,
         left: &[usize],
@@ -878,15 +866,15 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         )));
                     }
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
-                    {
+                    let sweepline_key = SiteEventKey {
+                        pos: self.sweepline_pos,
+                        index: None,
+                    };
+                    let intersection_key = SiteEventKey {
+                        pos: intersection_p,
+                        index: None,
+                    };
+                    if intersection_key > sweepline_key {
                         let intersection_p_index = self.vertices.len();
                         self.vertices.push(intersection_p);
                         self.add_intersection_event(
-- 
2.43.0


From f918c807a1c372194f95c6538f06d9c072297475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 11/46] fix: sweep-line reported a line of zero length as
 intersecting itself

---
 src/linestring_2d/intersection.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 9a2c164..b8fb7f2 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -647,8 +647,16 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
         }
 
+        // a line of zero length is both added and dropped here, it only counts once.
+        let added: Vec<usize> = event
+            .add
+            .iter()
+            .flatten()
+            .filter(|i| !event.drop.iter().flatten().any(|d| d == *i))
+            .copied()
+            .collect();
         let removed_active_lines = event.drop.iter().flatten().count();
-        let added_active_lines = event.add.iter().flatten().count();
+        let added_active_lines = added.len();
         let intersections_found = intersections.len();
 
         // Handle points converging at this point:
@@ -665,11 +673,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                     );
                 }
                 if added_active_lines > 0 {
-                    self.report_intersections_to_result(
-                        result,
-                        self.sweepline_pos,
-                        event.add.iter().flatten(),
-                    );
+                    self.report_intersections_to_result(result, self.sweepline_pos, added.iter());
                 }
                 self.report_intersections_to_result(
                     result,
@@ -687,11 +691,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 );
             }
             if added_active_lines > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos,
-                    event.add.iter().flatten(),
-                );
+                self.report_intersections_to_result(result, self.sweepline_pos, added.iter());
             }
             if intersections_found > 0 {
                 self.report_intersections_to_result(
@@ -735,7 +735,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         }
 
         // add the newly found lines
-        for l in event.add.iter().flatten() {
+        for l in added.iter() {
             let _ = active_lines.insert(*l);
         }
 
@@ -752,7 +752,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
         } else {
             connected_priority.clear();
-            for l in event.add.iter().flatten() {
+            for l in added.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
             for l in intersections.iter() {
-- 
2.43.0


From 6b7752d65b8442eccbb2e0d9c981f5b829064493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 12/46] fix: indexed sweep-line reported a line of zero length
 as intersecting itself

---
 src/linestring_2d/indexed_intersection.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index e3aa9a4..3615916 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -691,8 +691,16 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
         }
 
+        // a line of zero length is both added and dropped here, it only counts once.
+        let added: SmallVec<[usize; 1]> = event
+            .add
+            .iter()
+            .flatten()
+            .filter(|i| !event.drop.iter().flatten().any(|d| d == *i))
+            .copied()
+            .collect();
         let removed_active_lines = event.drop.iter().flatten().count();
-        let added_active_lines = event.add.iter().flatten().count();
+        let added_active_lines = added.len();
         let intersections_found = intersections.len();
 
         // Handle points converging at this point:
@@ -712,7 +720,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                     self.report_intersections_to_result(
                         result,
                         self.sweepline_pos_index.unwrap(),
-                        event.add.iter().flatten(),
+                        added.iter(),
                     );
                 }
                 self.report_intersections_to_result(
@@ -737,7 +745,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos_index.unwrap(),
-                    event.add.iter().flatten(),
+                    added.iter(),
                 );
             }
             if intersections_found > 0 {
@@ -782,7 +790,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         }
 
         // add the newly found lines
-        for l in event.add.iter().flatten() {
+        for l in added.iter() {
             let _ = active_lines.insert(*l);
         }
 
@@ -799,7 +807,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
         } else {
             connected_priority.clear();
-            for l in event.add.iter().flatten() {
+            for l in added.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
             for l in intersections.iter() {
-- 
2.43.0


From f1aca00ae685968863439c6b7f26ab2ab6e706cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 13/46] fix: sweep-line missed identical lines when end point
 intersections are ignored

---
 src/linestring_2d/intersection.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index b8fb7f2..07d2fd2 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -43,6 +43,7 @@ limitations under the License.
 
 use crate::{linestring_2d, LinestringError};
 use ahash::AHashSet;
+use itertools::Itertools;
 use std::{cmp::Ordering, collections::BTreeMap, convert::identity};
 use vector_traits::{
     approx,
@@ -662,9 +663,15 @@ impl<T: GenericVector2> IntersectionData<T> {
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
         if self.ignore_end_point_intersections {
+            // identical lines overlap, they don't just share their end points
+            let identical_lines = added
+                .iter()
+                .tuple_combinations()
+                .any(|(a, b)| approx::ulps_eq!(self.lines[*a], self.lines[*b]));
+
             // only report end point intersections if they collide with
             // a calculated intersection point
-            if intersections_found > 0 {
+            if intersections_found > 0 || identical_lines {
                 if removed_active_lines > 0 {
                     self.report_intersections_to_result(
                         result,
-- 
2.43.0


From 5ea5b6c6def1579445e578802ecd810173c74d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 14/46] fix: indexed sweep-line missed identical lines when end
 point intersections are ignored

---
 src/linestring_2d/indexed_intersection.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 3615916..e7e3b4a 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -47,6 +47,7 @@ mod tests;
 use super::intersection::{passes_through, sweepline_intersection};
 use crate::{linestring_2d::Line2, LinestringError};
 use ahash::AHashSet;
+use itertools::Itertools;
 use smallvec::{smallvec, SmallVec};
 use std::{cmp::Ordering, collections::BTreeMap, convert::identity, fmt, fmt::Debug};
 use vector_traits::{approx::*, num_traits::float::FloatCore, GenericScalar, GenericVector2};
@@ -706,9 +707,15 @@ impl<T: GenericVector2> IntersectionTester<T> {
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
         if self.ignore_end_point_intersections {
+            // identical lines overlap, they don't just share their end points
+            let identical_lines = added
+                .iter()
+                .tuple_combinations()
+                .any(|(a, b)| ulps_eq!(self.line(*a), self.line(*b)));
+
             // only report end point intersections if they collide with
             // a calculated intersection point
-            if intersections_found > 0 {
+            if intersections_found > 0 || identical_lines {
                 if removed_active_lines > 0 {
                     self.report_intersections_to_result(
                         result,
-- 
2.43.0


From 7b1e49afbd8316e23e7b15e6782f469129d19f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 15/46] fix: straight or vertical continuations were reported
 as self-intersections of short line strings

---
 src/linestring_2d.rs | 42 ++++++++----------------------------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..3d9d695 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -322,49 +322,23 @@ impl<T: GenericVector2> Line2<T> {
 
     /// Intersection test for lines known to be connected by a middle point.
     /// This function will *not* report the middle-point as an intersection.
-    /// Todo: how to handle start==middle||middle==end
+    /// A line of zero length (start==middle||middle==end) does not intersect its neighbour.
     fn intersection_point3(
         start: T,
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
-        let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
-        let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
-        let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
-
-        if start_is_vertical && end_is_vertical {
-            // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
-            {
-                // opposite direction
-                Ok(None)
-            } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
-            };
-        } else if start_is_vertical || end_is_vertical {
-            return Ok(None);
-        }
+        let middle_sub_start = middle - start;
+        let middle_sub_end = middle - end;
 
-        // both lines should now be non-vertical, we can compare their slope
-        let start_slope = middle_sub_start.x() / middle_sub_start.y();
-        let end_slope = middle_sub_end.x() / middle_sub_end.y();
-
-        if !ulps_eq!(&start_slope, &end_slope) {
+        // The lines only overlap if they leave the middle point in the same direction
+        if !ulps_eq!(middle_sub_start.perp_dot(middle_sub_end), T::Scalar::ZERO)
+            || middle_sub_start.dot(middle_sub_end) <= T::Scalar::ZERO
+        {
             return Ok(None);
         }
 
-        // Slope identical, pick the shortest vector for overlap point
+        // Same direction, pick the shortest vector for overlap point
         if (middle_sub_start.x() * middle_sub_start.x()
             + middle_sub_start.y() * middle_sub_start.y())
             < (middle_sub_end.x() * middle_sub_end.x() + middle_sub_end.y() * middle_sub_end.y())
-- 
2.43.0


From 69edb19d5bd305d95e37fe19617cb158b2107193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 16/46] fix: overlapping lines that share an end point were not
 reported as self-intersection of short line strings

---
 src/linestring_2d.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 3d9d695..058e619 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -705,8 +705,12 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                         if Line2::intersection_point3(l0.1.start, l0.1.end, l1.1.end)?.is_some() {
                             return Ok(true);
                         }
-                    } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
+                    } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
+                        let point = match intersection {
+                            Intersection::Intersection(point) => point,
+                            // more than a single point in common
+                            Intersection::Overlap(_) => return Ok(true),
+                        };
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 2cdced094f7e17dbcc24603f155d1cf317a2bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 17/46] fix: sweep-line reported a crossing twice when it was
 calculated in both orders of the lines

---
 src/linestring_2d/intersection.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 07d2fd2..c8100b2 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -804,7 +804,13 @@ impl<T: GenericVector2> IntersectionData<T> {
                     continue;
                 }
 
-                if let Some(intersection_p) = left_l.intersection_point(right_l) {
+                // always in the same order, or the rounding would move an already visited position
+                let intersection_p = if left_i < right_i {
+                    left_l.intersection_point(right_l)
+                } else {
+                    right_l.intersection_point(left_l)
+                };
+                if let Some(intersection_p) = intersection_p {
                     let intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
-- 
2.43.0


From ab2770fa6683d062de3927656c243f764d325080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 18/46] fix: 3D distance to a line ignored the ends of the
 line, 3D rdp dropped points beyond the ends

---
 src/linestring_3d.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..df35c65 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -625,11 +625,19 @@ fn cross_abs_squared<T: GenericVector3>(a: T, b: T) -> T::Scalar {
 /// This function returns the distance²
 pub fn distance_to_line_squared<T: GenericVector3>(l0: T, l1: T, p: T) -> T::Scalar {
     let l0_sub_l1 = l0 - l1;
+    let l0_sub_l1_sq_mag = l0_sub_l1.magnitude_sq();
     let l0_sub_p = l0 - p;
-    cross_abs_squared(l0_sub_p, l0_sub_l1)
-        / (l0_sub_l1.x() * l0_sub_l1.x()
-            + l0_sub_l1.y() * l0_sub_l1.y()
-            + l0_sub_l1.z() * l0_sub_l1.z())
+
+    // dot product normalized by the magnitude squared of l0_sub_l1
+    let dot = l0_sub_p.dot(l0_sub_l1) / l0_sub_l1_sq_mag;
+
+    if dot < T::Scalar::ZERO {
+        l0_sub_p.magnitude_sq()
+    } else if dot > T::Scalar::ONE {
+        (l1 - p).magnitude_sq()
+    } else {
+        cross_abs_squared(l0_sub_p, l0_sub_l1) / l0_sub_l1_sq_mag
+    }
 }
 
 /// Same as `distance_to_line_squared<T>` but it can be called when a-b might be 0.
@@ -644,12 +652,7 @@ pub fn distance_to_line_squared_safe<T: GenericVector3>(l0: T, l1: T, p: T) -> T
         // give the point-to-point answer if the segment is a point
         l0.distance_sq(p)
     } else {
-        let l0_sub_l1 = l0 - l1;
-        let l0_sub_p = l0 - p;
-        cross_abs_squared(l0_sub_p, l0_sub_l1)
-            / (l0_sub_l1.x() * l0_sub_l1.x()
-                + l0_sub_l1.y() * l0_sub_l1.y()
-                + l0_sub_l1.z() * l0_sub_l1.z())
+        distance_to_line_squared(l0, l1, p)
     }
 }
 
-- 
2.43.0


From ce214b4e7b9776e6bfa82012e50909ecd3b3deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 19/46] fix: indexed_simplify_rdp_2d panicked on an empty index
 list and repeated a single index

---
 src/linestring_2d/simplify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..b8386dc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 420da7c126f70b4b286e2e4324ebab52e454893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 20/46] fix: indexed_simplify_rdp_3d panicked on an empty index
 list and repeated a single index

---
 src/linestring_3d/simplify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 55b8a9f02e0924e99f96746c334aaf96decab54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 21/46] fix: divide_into_shapes invented edges when an edge
 connected a vertex to itself

---
 src/shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shape.rs b/src/shape.rs
index 97804ab..5d4e707 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -206,6 +206,10 @@ fn adjacency_map(indices: &[usize]) -> (usize, AHashMap<usize, SmallVec<[usize;
         let i0 = chunk[0];
         let i1 = chunk[1];
         max_index = max_index.max(i0).max(i1);
+        if i0 == i1 {
+            // an edge from a vertex to itself does not connect anything
+            return;
+        }
         let entry = adjacency_map.entry(i0).or_default();
         if !entry.contains(&i1) {
             entry.push(i1);
-- 
2.43.0


From d8bfe92ab3fe1533a7613abdf820adf7c33ae980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 22/46] fix: ray_edge_intersection reported edges behind the
 origin of a collinear ray

---
 src/linestring_2d.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 058e619..798cf2c 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -820,12 +820,14 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
             let q_minus_p = p0.sub(origin);
             let q_minus_p_cross_r = q_minus_p.perp_dot(ray_dir);
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()).then(|| {
-                let r_dot_r = ray_dir.dot(ray_dir);
-                let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
-                let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
-                t0.min(t1)
-            })
+            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
+                return None;
+            }
+            let r_dot_r = ray_dir.dot(ray_dir);
+            let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
+            let t1 = p1.sub(origin).dot(ray_dir) / r_dot_r;
+            // the part of the edge behind the origin is not on the ray
+            (t0.max(t1) >= T::Scalar::ZERO).then(|| t0.min(t1).max(T::Scalar::ZERO))
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-- 
2.43.0


From eac240a13df6bec55c92a34018e8677b0018d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 23/46] fix: discretize omitted the original points when the
 distance was infinite

---
 src/linestring_2d.rs | 5 ++++-
 src/linestring_3d.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 798cf2c..172f044 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1583,7 +1583,10 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // at least one step, even if distance is infinite
+            let num_substeps = (segment_length / self.distance)
+                .ceil()
+                .max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index df35c65..51c9806 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -731,7 +731,10 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // at least one step, even if distance is infinite
+            let num_substeps = (segment_length / self.distance)
+                .ceil()
+                .max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From 81fd28a84c6c1cc68e3f0868469b9795eb287d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 24/46] fix: discretization of parabolic arcs did not terminate
 for arcs without an extent

---
 src/linestring_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 172f044..9fc3c61 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -452,7 +452,8 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // (dist is NaN if there is no parabola between the two points)
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -566,7 +567,8 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // (dist is NaN if there is no parabola between the two points)
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 12f104475c134192c4bc03a33d1f4808b89b8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 25/46] fix: lines added by a second call of with_lines were
 reported with the indices of the first lines

---
 src/linestring_2d/intersection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index c8100b2..db72957 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -463,7 +463,8 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        // continue after the lines that were already added
+        for (index, mut aline) in (self.lines.len()..).zip(input_iter) {
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0


From df3409950ebca564fd511aa45d10bf0ee325cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 26/46] fix: edges added by a second call of with_edges were
 reported with the indices of the first edges

---
 src/linestring_2d/indexed_intersection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index e7e3b4a..47a2aab 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -476,7 +476,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        // continue after the edges that were already added
+        for (index, aline) in (self.lines.len()..).zip(input_iter) {
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
-- 
2.43.0


From b21aec8c0817ce4cbf55c17750dcf1da68991ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 27/46] fix: size_hint of WindowIterator did not return the
 exact length its ExactSizeIterator promises

---
 src/linestring_2d/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linestring_2d/impls.rs b/src/linestring_2d/impls.rs
index b451748..95a4d14 100644
--- a/src/linestring_2d/impls.rs
+++ b/src/linestring_2d/impls.rs
@@ -161,6 +161,10 @@ impl<'a, T: GenericVector2> Iterator for WindowIterator<'a, T> {
             end: window[1],
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a, T: GenericVector2> Iterator for ChunkIterator<'a, T> {
-- 
2.43.0


From cc0df1c523f90e1c38663699687a8e06c263ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 28/46] fix: approximate comparison of Line2 must try both
 directions

When the limit is longer than the distance between the ends of a line, the starts may agree
although the lines only agree as a whole when one of them is reversed.
---
 src/linestring_2d/impls.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/linestring_2d/impls.rs b/src/linestring_2d/impls.rs
index 95a4d14..54f93ac 100644
--- a/src/linestring_2d/impls.rs
+++ b/src/linestring_2d/impls.rs
@@ -205,17 +205,14 @@ impl<T: GenericVector2> AbsDiffEq for Line2<T> {
     }
 
     fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
-        if T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
+        (T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
             && T::Scalar::abs_diff_eq(&self.start.y(), &other.start.y(), epsilon)
-        {
-            T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon)
-        } else {
-            T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon))
+            || (T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.start.y(), &other.end.y(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.end.x(), &other.start.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon)
-        }
+                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon))
     }
 }
 
@@ -225,17 +222,14 @@ impl<T: GenericVector2> UlpsEq for Line2<T> {
     }
 
     fn ulps_eq(&self, other: &Self, epsilon: Self::Epsilon, max_ulps: u32) -> bool {
-        if T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
+        (T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
             && T::Scalar::ulps_eq(&self.start.y(), &other.start.y(), epsilon, max_ulps)
-        {
-            T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps)
-        } else {
-            T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps))
+            || (T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.start.y(), &other.end.y(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.end.x(), &other.start.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps)
-        }
+                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps))
     }
 }
 
-- 
2.43.0


From 9c25a55de59e61c40c9c82bf348017fc2cccf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 29/46] fix: parabolic arcs of long segments are sampled
 instead of never ending

The deviation was calculated as the square of a fourth power of the segment's length, which is infinite
for f32 segments longer than about 65536, so the arc was divided for ever.
---
 src/linestring_2d.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 9fc3c61..8066420 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -434,7 +434,7 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
         let mut cur_y = Self::parabola_y(cur_x, rot_x, rot_y);
 
         // Adjust max_dist parameter in the transformed space.
-        let max_dist_transformed = max_dist * max_dist * sqr_segment_length;
+        let max_dist_transformed = max_dist * sqr_segment_length.sqrt();
         while !point_stack.is_empty() {
             let new_x = point_stack[point_stack.len() - 1]; // was .top();
             let new_y = Self::parabola_y(new_x, rot_x, rot_y);
@@ -449,11 +449,14 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
             #[allow(clippy::suspicious_operation_groupings)]
             {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
+                // (not squared: that would overflow already for a f32 segment of length 65536)
+                dist = dist.abs()
+                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x))
+                        .sqrt();
             }
-            // (dist is NaN if there is no parabola between the two points)
-            if dist <= max_dist_transformed || dist.is_nan() {
+            // (dist is NaN if there is no parabola between the two points, and not finite if the
+            // numbers are out of range)
+            if dist <= max_dist_transformed || !dist.is_finite() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -549,7 +552,7 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
         let mut cur_y = Self::parabola_y(cur_x, rot_x, rot_y);
 
         // Adjust max_dist parameter in the transformed space.
-        let max_dist_transformed = max_dist * max_dist * sqr_segment_length;
+        let max_dist_transformed = max_dist * sqr_segment_length.sqrt();
         while !point_stack.is_empty() {
             let new_x = point_stack[point_stack.len() - 1]; // was .top();
             let new_y = Self::parabola_y(new_x, rot_x, rot_y);
@@ -564,11 +567,14 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
             #[allow(clippy::suspicious_operation_groupings)]
             {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
+                // (not squared: that would overflow already for a f32 segment of length 65536)
+                dist = dist.abs()
+                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x))
+                        .sqrt();
             }
-            // (dist is NaN if there is no parabola between the two points)
-            if dist <= max_dist_transformed || dist.is_nan() {
+            // (dist is NaN if there is no parabola between the two points, and not finite if the
+            // numbers are out of range)
+            if dist <= max_dist_transformed || !dist.is_finite() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 757ba890c38d13d635f226892f177b342e1e5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 30/46] fix: Ramer-Douglas-Peucker of long line strings must
 not overflow the stack

---
 src/linestring_2d/simplify.rs | 58 +++++++++++++++++++++++++----------
 src/linestring_3d/simplify.rs | 58 +++++++++++++++++++++++++----------
 2 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index b8386dc..235c8a7 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -52,9 +52,25 @@ pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
     points: &[T],
     distance_predicate_sq: T::Scalar,
 ) {
+    // Use stack to avoid recursion, the nesting can be as deep as the line is long.
+    let mut stack = vec![points];
+    while let Some(points) = stack.pop() {
+        if let Some(index) = simplify_rdp_split(rv, points, distance_predicate_sq) {
+            stack.push(&points[index..]);
+            stack.push(&points[..index + 1]);
+        }
+    }
+}
+
+/// Returns the index to split `points` at, or `None` if `points` is done
+fn simplify_rdp_split<T: GenericVector2>(
+    rv: &mut Vec<T>,
+    points: &[T],
+    distance_predicate_sq: T::Scalar,
+) -> Option<usize> {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
-        return;
+        return None;
     }
 
     let start_point = points[0];
@@ -80,9 +96,9 @@ pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
 
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
+        None
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        Some(index)
     }
 }
 
@@ -157,10 +173,29 @@ fn indexed_simplify_rdp_recursive<T: GenericVector2>(
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
 ) {
+    // Use stack to avoid recursion, the nesting can be as deep as the line is long.
+    let mut stack = vec![indices];
+    while let Some(indices) = stack.pop() {
+        if let Some(index_index) =
+            indexed_simplify_rdp_split(simplified_indices, vertices, indices, distance_predicate_sq)
+        {
+            stack.push(&indices[index_index..]);
+            stack.push(&indices[..=index_index]);
+        }
+    }
+}
+
+/// Returns the position to split `indices` at, or `None` if `indices` is done
+fn indexed_simplify_rdp_split<T: GenericVector2>(
+    simplified_indices: &mut Vec<usize>,
+    vertices: &[T],
+    indices: &[usize],
+    distance_predicate_sq: T::Scalar,
+) -> Option<usize> {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
         simplified_indices.push(*indices.last().unwrap());
-        return;
+        return None;
     }
 
     let start_index = indices[0];
@@ -191,21 +226,10 @@ fn indexed_simplify_rdp_recursive<T: GenericVector2>(
                                           //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
+        None
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        Some(index_index)
     }
-    //println!("<");
 }
 
 /// Simplify using Visvalingam–Whyatt algorithm. This algorithm will delete 'points_to_delete'
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index 687602a..4c6ffdd 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -22,9 +22,25 @@ fn simplify_rdp_recursive<T: GenericVector3>(
     points: &[T],
     distance_predicate_sq: T::Scalar,
 ) {
+    // Use stack to avoid recursion, the nesting can be as deep as the line is long.
+    let mut stack = vec![points];
+    while let Some(points) = stack.pop() {
+        if let Some(index) = simplify_rdp_split(rv, points, distance_predicate_sq) {
+            stack.push(&points[index..]);
+            stack.push(&points[..index + 1]);
+        }
+    }
+}
+
+/// Returns the index to split `points` at, or `None` if `points` is done
+fn simplify_rdp_split<T: GenericVector3>(
+    rv: &mut Vec<T>,
+    points: &[T],
+    distance_predicate_sq: T::Scalar,
+) -> Option<usize> {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
-        return;
+        return None;
     }
 
     let start_point = points[0];
@@ -50,9 +66,9 @@ fn simplify_rdp_recursive<T: GenericVector3>(
 
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
+        None
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        Some(index)
     }
 }
 
@@ -262,10 +278,29 @@ fn indexed_simplify_rdp_recursive<T: GenericVector3>(
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
 ) {
+    // Use stack to avoid recursion, the nesting can be as deep as the line is long.
+    let mut stack = vec![indices];
+    while let Some(indices) = stack.pop() {
+        if let Some(index_index) =
+            indexed_simplify_rdp_split(simplified_indices, vertices, indices, distance_predicate_sq)
+        {
+            stack.push(&indices[index_index..]);
+            stack.push(&indices[..=index_index]);
+        }
+    }
+}
+
+/// Returns the position to split `indices` at, or `None` if `indices` is done
+fn indexed_simplify_rdp_split<T: GenericVector3>(
+    simplified_indices: &mut Vec<usize>,
+    vertices: &[T],
+    indices: &[usize],
+    distance_predicate_sq: T::Scalar,
+) -> Option<usize> {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
         simplified_indices.push(*indices.last().unwrap());
-        return;
+        return None;
     }
 
     let start_index = indices[0];
@@ -296,19 +331,8 @@ fn indexed_simplify_rdp_recursive<T: GenericVector3>(
                                           //println!("max dist:{:?}, index_index:{}, simplified_indices:{:?}", max_dist_sq, index_index, simplified_indices);
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
+        None
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        Some(index_index)
     }
-    //println!("<");
 }
-- 
2.43.0


From 2db8a1a985e622c320e212bc8a38a64ddb2f60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 31/46] fix: Graham scan must not lose corners where rounded
 angles tie

The points were sorted by atan2 of the direction from the lowest point. Two
directions that differ by less than the rounding of the angle were sorted by
distance or even in the wrong order, and a corner between them was lost, e.g.
(3,3070) of (0,0),(3,3070),(1,1023),(4,4093) with f32.
Sort by the coordinates instead and build the lower and the upper side.
---
 src/linestring_2d/convex_hull.rs | 152 ++++++++++++++-----------------
 1 file changed, 69 insertions(+), 83 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 2d20055..8f1448e 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -493,6 +493,39 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     Ok(hull)
 }
 
+/// orders points by their x coordinate, and by their y coordinate where those are equal
+#[inline(always)]
+fn compare_xy<T: GenericVector2>(a: &T, b: &T) -> Ordering {
+    a.x()
+        .partial_cmp(&b.x())
+        .unwrap_or(Ordering::Equal)
+        .then_with(|| a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
+}
+
+/// Adds a point to one side of the hull, which begins at `side`, and removes the previous points
+/// of that side that are not to the right of it.
+#[inline(always)]
+fn push_hull_point<T: GenericVector2, I>(
+    hull: &mut Vec<I>,
+    side: usize,
+    item: I,
+    point: impl Fn(&I) -> T,
+) {
+    let p = point(&item);
+    while hull.len() > side + 1 {
+        let last = hull.len() - 1;
+        let cross = cross_2d(point(&hull[last - 1]), point(&hull[last]), p);
+        if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
+            let _ = hull.pop();
+        } else {
+            break;
+        }
+    }
+    if hull.last().map_or(true, |last| point(last) != p) {
+        hull.push(item);
+    }
+}
+
 /// finds the convex hull using Grahams scan
 /// <https://en.wikipedia.org/wiki/Graham_scan>
 /// This is an experimental implementation that should not be used.
@@ -620,52 +653,23 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
         return Ok(input_points.to_vec());
     }
 
-    let (_, starting_point) = find_lowest_x(input_points)?;
-    //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
-    let mut input_points: Vec<(T, T::Scalar, T::Scalar)> = input_points
-        .iter()
-        .map(|&p| {
-            let diff = p - starting_point;
-            let angle = diff.y().atan2(diff.x());
-            let distance = starting_point.distance_sq(p);
-            (p, angle, distance)
-        })
-        .collect();
+    // also makes sure that all the points are finite
+    let _ = find_lowest_x(input_points)?;
+    // The points are sorted by their coordinates, not by the angle seen from the lowest of them:
+    // angles are rounded, and that would put points in nearly the same direction into the wrong order.
+    let mut input_points = input_points.to_vec();
+    input_points.sort_unstable_by(compare_xy);
 
-    //println!("unsorted:{:?}", input_points);
-    input_points.sort_unstable_by(|a, b| {
-        a.1.partial_cmp(&b.1)
-            .unwrap_or(Ordering::Equal)
-            .then_with(|| a.2.partial_cmp(&b.2).unwrap_or(Ordering::Equal))
-    });
-
-    //println!("starting_point:{:?}", starting_point);
-    //println!("sorted:{:?}", input_points);
-    let mut hull = Vec::<T>::with_capacity(input_points.len());
-    hull.push(starting_point);
-
-    for (p, _, _) in input_points.iter() {
-        if *p == starting_point {
-            continue;
-        }
-        while hull.len() > 1 {
-            let last = hull.len() - 1;
-            let cross = cross_2d(hull[last - 1], hull[last], *p);
-            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
-                let _ = hull.pop();
-            } else {
-                break;
-            }
-        }
-        //println!("pushing p:{:?}", p);
-        hull.push(*p);
+    let mut hull = Vec::<T>::with_capacity(input_points.len() + 1);
+    // the lower side from left to right
+    for p in input_points.iter() {
+        push_hull_point(&mut hull, 0, *p, |p| *p);
     }
-    //println!("result {:?}", rv);
-
-    // complete the loop, `hull` now represents a closed loop of points.
+    // the upper side back to the first point, `hull` then represents a closed loop of points.
     // Each edge can be iterated over by `rv.points.iter().window(2)`
-    if hull.len() > 1 {
-        hull.push(*hull.first().unwrap());
+    let lower_side = hull.len() - 1;
+    for p in input_points.iter().rev() {
+        push_hull_point(&mut hull, lower_side, *p, |p| *p);
     }
     Ok(hull)
 }
@@ -745,52 +749,34 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    let (start_index, start_point) = if let Some(start_index) = start_index {
-        (start_index, vertices[start_index])
-    } else {
-        let (start_index_index, start_point) = indexed_find_lowest_x(vertices, indices)?;
-        (indices[start_index_index], start_point)
-    };
-    // sort all indices with regard to the angle to starting_point
+    // also makes sure that all the points are finite
+    let _ = indexed_find_lowest_x(vertices, indices)?;
+    // sorted by the coordinates, see graham_scan()
     let sorted_indices: Vec<usize> = indices
         .iter()
-        .map(|i| {
-            let p = vertices[*i];
-            let diff = p - start_point;
-            let angle = diff.y().atan2(diff.x());
-            let distance = start_point.distance_sq(p);
-            (*i, angle, distance)
-        })
-        .sorted_unstable_by(|a, b| {
-            a.1.partial_cmp(&b.1)
-                .unwrap_or(Ordering::Equal)
-                .then_with(|| a.2.partial_cmp(&b.2).unwrap_or(Ordering::Equal))
-        })
-        .map(|a| a.0)
+        .chain(start_index.iter())
+        .copied()
+        .sorted_by(|a, b| compare_xy(&vertices[*a], &vertices[*b]))
         .collect();
 
-    let mut hull = Vec::<usize>::with_capacity(vertices.len());
-    hull.push(start_index);
-
+    let mut hull = Vec::<usize>::with_capacity(sorted_indices.len() + 1);
     for i in sorted_indices.iter() {
-        let p = vertices[*i];
-        if *i == start_index || p == start_point {
-            continue;
-        }
-        while hull.len() > 1 {
-            let last_in_hull = hull.len() - 1;
-            let cross = cross_2d(
-                vertices[hull[last_in_hull - 1]],
-                vertices[hull[last_in_hull]],
-                p,
-            );
-            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
-                let _ = hull.pop();
-            } else {
-                break;
-            }
+        push_hull_point(&mut hull, 0, *i, |i| vertices[*i]);
+    }
+    let lower_side = hull.len() - 1;
+    for i in sorted_indices.iter().rev() {
+        push_hull_point(&mut hull, lower_side, *i, |i| vertices[*i]);
+    }
+    // leave the loop open
+    if hull.len() > 1 {
+        let _ = hull.pop();
+    }
+    if let Some(start_index) = start_index {
+        let start_point = vertices[start_index];
+        if let Some(position) = hull.iter().position(|i| vertices[*i] == start_point) {
+            hull.rotate_left(position);
+            hull[0] = start_index;
         }
-        hull.push(*i);
     }
 
     Ok(hull)
-- 
2.43.0


From 267c0e6ab2be758f7c71bfab5d7391642c4bd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 32/46] fix: gift wrapping must end when nearly collinear
 points are rounded

Gift wrapping of 20 rounded points of a line did not end, and points that are
collinear only but for rounding could end it half-way: points on both sides of
the current one look collinear or even to the right of each other.
Only consider the points that lie ahead on the way to the highest point and
back. The combination of partial hulls in convex_hull_par() uses the same.
---
 src/linestring_2d/convex_hull.rs       | 353 ++++---------------------
 src/linestring_2d/convex_hull/impls.rs |  55 ----
 2 files changed, 58 insertions(+), 350 deletions(-)
 delete mode 100644 src/linestring_2d/convex_hull/impls.rs

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 8f1448e..047025e 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -40,7 +40,6 @@ WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 See the License for the specific language governing permissions and
 limitations under the License.
 */
-mod impls;
 #[cfg(test)]
 mod tests;
 
@@ -255,8 +254,6 @@ pub fn cross_2d<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
 
 /// finds the convex hull using Gift wrapping algorithm
 /// <https://en.wikipedia.org/wiki/Gift_wrapping_algorithm>
-/// This implementation had a problem with never reaching the end condition under certain situations
-/// so i fixed it with a `visited` set.
 ///```
 /// # use linestring::linestring_2d;
 /// # use linestring::linestring_2d::convex_hull;
@@ -297,67 +294,67 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     }
 
     let starting_point = find_lowest_x(vertices)?.0;
+    let indices: Vec<usize> = (0..vertices.len()).collect();
 
-    let mut hull = Vec::with_capacity(vertices.len() / 2);
-    // To track visited points
-    let mut visited: vob::Vob<u32> = vob::Vob::new_with_storage_type(vertices.len());
-    visited.resize(vertices.len(), false);
-
-    let mut point_on_hull = starting_point;
-    //println!("starting point {:?}:{}", input_points[starting_point], starting_point);
-    loop {
-        hull.push(vertices[point_on_hull]);
-        if point_on_hull != starting_point {
-            // don't mark the starting_point or we won't know where to stop
-            //println!("hull marking {:?}:{} as visited", input_points[point_on_hull], point_on_hull);
-            let _ = visited.set(point_on_hull, true);
-        }
-        let mut end_point = (point_on_hull + 1) % vertices.len();
+    let mut hull: Vec<T> = wrap_indices(vertices, &indices, starting_point)
+        .into_iter()
+        .map(|index| vertices[index])
+        .collect();
+    // complete the loop, `hull` now represents a closed loop of points.
+    // Each edge can be iterated over by `hull.iter().window(2)`
+    hull.push(hull[0]);
 
-        for j in 0..vertices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
-                continue;
-            }
+    Ok(hull)
+}
 
-            let orient =
-                point_orientation(vertices[point_on_hull], vertices[end_point], vertices[j]);
-            if orient == Orientation::Right {
-                // replace end_point with the candidate if candidate is to the right,
-                end_point = j;
-            } else if orient == Orientation::Collinear {
-                //println!("the points {:?}:{},{:?}:{},{:?}:{} were collinear", input_points[point_on_hull],point_on_hull, input_points[end_point], end_point, input_points[j],j );
-                let distance_sq_candidate = vertices[point_on_hull].distance_sq(vertices[j]);
-                let distance_sq_end_point =
-                    vertices[point_on_hull].distance_sq(vertices[end_point]);
-
-                if distance_sq_candidate > distance_sq_end_point {
-                    // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                    // the distance to the collinear is greater we also update end_point
-                    end_point = j;
-                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
-                    // This is a collinear point that is closer to the current point, mark it as visited
-                    //println!("coll marking {:?}:{} as visited", input_points[j], j);
-                    let _ = visited.set(j, true);
+/// The gift wrapping of `indices`, the loop is not closed.
+/// `starting_index` is the lowest point, in the order of `compare_xy()`. From there the hull leads
+/// forwards in that order up to the highest point and then backwards. Candidates are only the
+/// points that lie ahead, so the end is always reached and rounding errors can't turn the hull
+/// around half-way.
+fn wrap_indices<T: GenericVector2>(
+    vertices: &[T],
+    indices: &[usize],
+    starting_index: usize,
+) -> Vec<usize> {
+    let mut hull = vec![starting_index];
+    for direction in [Ordering::Greater, Ordering::Less] {
+        let mut point_on_hull = vertices[hull[hull.len() - 1]];
+        loop {
+            let mut end_point: Option<usize> = None;
+
+            for j in indices.iter().copied() {
+                let candidate = vertices[j];
+                if compare_xy(&candidate, &point_on_hull) != direction {
+                    continue;
+                }
+                let Some(end) = end_point.map(|end_point| vertices[end_point]) else {
+                    end_point = Some(j);
+                    continue;
+                };
+                let orient = point_orientation(point_on_hull, end, candidate);
+                // replace end_point with the candidate if candidate is to the right, or if
+                // they are collinear and the candidate is further away
+                if orient == Orientation::Right
+                    || (orient == Orientation::Collinear
+                        && point_on_hull.distance_sq(candidate) > point_on_hull.distance_sq(end))
+                {
+                    end_point = Some(j);
                 }
             }
-        }
-
-        point_on_hull = end_point;
-        // compare by position, the starting point may occur more than once
-        if vertices[end_point] == vertices[starting_point] {
-            // complete the loop, `hull` now represents a closed loop of points.
-            // Each edge can be iterated over by `hull.iter().window(2)`
-            hull.push(vertices[end_point]);
-            break;
+            let Some(end_point) = end_point else { break };
+            hull.push(end_point);
+            point_on_hull = vertices[end_point];
         }
     }
-
-    Ok(hull)
+    // the way back ends at the starting point
+    if hull.len() > 1 {
+        let _ = hull.pop();
+    }
+    hull
 }
 
 /// finds the convex hull using the [Gift wrapping algorithm](https://en.wikipedia.org/wiki/Gift_wrapping_algorithm)
-/// This implementation had a problem with never reaching the end condition under certain situations
-/// so i fixed it with a `visited` set.
 /// # Arguments
 ///
 /// * `vertices` - The input vertices.
@@ -433,64 +430,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
-    let mut hull = Vec::with_capacity(indices.len() / 4);
-    // To track visited points
-    let mut visited: vob::Vob<u32> = vob::Vob::new_with_storage_type(indices.len());
-    visited.resize(indices.len(), false);
-
-    let mut point_on_hull = starting_index;
-    //println!("starting point {:?}:{}", input_points[starting_point], starting_point);
-    loop {
-        hull.push(indices[point_on_hull]);
-        if point_on_hull != starting_index {
-            // don't mark the starting_point or we won't know where to stop
-            let _ = visited.set(point_on_hull, true);
-        }
-        let mut end_point = (point_on_hull + 1) % indices.len();
-
-        for j in 0..indices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
-                continue;
-            }
-
-            let orient = point_orientation(
-                vertices[indices[point_on_hull]],
-                vertices[indices[end_point]],
-                vertices[indices[j]],
-            );
-            if orient == Orientation::Right {
-                // replace end_point with the candidate if candidate is to the right,
-                end_point = j;
-            } else if orient == Orientation::Collinear {
-                let distance_sq_candidate =
-                    vertices[indices[point_on_hull]].distance_sq(vertices[indices[j]]);
-                let distance_sq_end_point =
-                    vertices[indices[point_on_hull]].distance_sq(vertices[indices[end_point]]);
-
-                if distance_sq_candidate > distance_sq_end_point {
-                    // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                    // the distance to the collinear is greater we also update end_point
-                    end_point = j;
-                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
-                    // This is a collinear point that is closer to the current point, mark it as visited
-                    let _ = visited.set(j, true);
-                }
-            }
-        }
-
-        point_on_hull = end_point;
-        // compare by position, the starting point may occur more than once
-        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
-            break;
-        }
-    }
-    /*println!("indexed_gift_wrap:");
-    println!("starting_index {:?}", input_indices[starting_index]);
-    println!("input {:?}", input_vertices);
-    println!("input indices {:?}", input_indices);
-    println!("result {:?}", hull);*/
-
-    Ok(hull)
+    Ok(wrap_indices(vertices, indices, indices[starting_index]))
 }
 
 /// orders points by their x coordinate, and by their y coordinate where those are equal
@@ -807,31 +747,14 @@ fn combine_indexed_convex_hull_lazy<T: GenericVector2>(
     indexed_graham_scan_no_loop(vertices, &indices_a, None)
 }*/
 
-/// a structure trying to keep track of from what list indices came from.
-#[derive(Clone)]
-struct VertexIndex {
-    /// `index_index` was from `indices_a` if true, else `indices_b`
-    from_a: bool,
-    /// the 'real' index into `vertices`
-    index: usize,
-    /// the index into `indices_a` or `indices_a`
-    index_index: usize,
-}
-
-/// Combines two convex hulls together using a modified gift wrapping algorithm.
-/// The algorithm goes like this.
-/// We keep track of from what list the start_point, point_on_hull and endpoint comes from.
-/// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
-/// though a list of `j` candidates to try to find a better end-point.
-/// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. All of `ìndices_b` must be visited, the candidates are not sorted by
-/// angle as seen from `point_on_hull`.
+/// Combines two convex hulls together using gift wrapping of all their points.
+/// The first of `indices_a` must be the lowest point.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
     indices_b: Result<Vec<usize>, LinestringError>,
 ) -> Result<Vec<usize>, LinestringError> {
-    let indices_a = indices_a?;
+    let mut indices_a = indices_a?;
     let indices_b = indices_b?;
 
     if indices_a.is_empty() {
@@ -841,170 +764,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         return Ok(indices_a);
     }
 
-    let starting_index = VertexIndex {
-        from_a: true,
-        index: indices_a[0],
-        index_index: 0,
-    };
-
-    let mut hull = Vec::with_capacity((indices_a.len() + indices_b.len()) / 4);
-    // To track visited points, it contain index, not index_index
-    //let mut visited = AHashSet::with_capacity(indices_a.len() + indices_b.len());
-    let mut point_on_hull = starting_index.clone();
-    /*println!(
-        "starting point {:?}:{:?}",
-        vertices[point_on_hull.index], point_on_hull
-    );*/
-    loop {
-        /*println!(
-            "loop: point_on_hull {:?}:{:?}",
-            vertices[point_on_hull.index], point_on_hull
-        );*/
-
-        hull.push(point_on_hull.index);
-        if point_on_hull.index != starting_index.index {
-            // don't mark the starting_point or we won't know where to stop
-            //let _ = visited.insert(point_on_hull.index);
-        }
-        let mut end_point = {
-            if point_on_hull.from_a {
-                let index_index = (point_on_hull.index_index + 1) % indices_a.len();
-                let index = indices_a[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull B
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[0],
-                        index_index: 0,
-                    }
-                }
-            } else {
-                let index_index = (point_on_hull.index_index + 1) % indices_b.len();
-                let index = indices_b[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull A
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[0],
-                        index_index: 0,
-                    }
-                }
-            }
-        };
-        /*println!(
-            "loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );*/
-
-        if point_on_hull.from_a {
-            for (jj, j) in indices_b.iter().enumerate() {
-                let j = *j;
-
-                if j == end_point.index || vertices[j] == vertices[point_on_hull.index]
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = false;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = false;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                }
-            }
-        } else {
-            for (jj, j) in indices_a.iter().enumerate() {
-                let j = *j;
-
-                if j == end_point.index || vertices[j] == vertices[point_on_hull.index]
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = true;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = true;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                }
-            }
-        }
-        /*println!(
-            "end of loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );
-        println!();
-         */
-        point_on_hull = end_point.clone();
-        // compare by position, the starting point may occur more than once
-        if vertices[end_point.index] == vertices[starting_index.index] {
-            break;
-        }
-    }
-    //println!("visited:{:?}", visited);
-    /*println!("indexed_gift_wrap:");
-    println!("starting_index {:?}", input_indices[starting_index]);
-    println!("input {:?}", input_vertices);
-    println!("input indices {:?}", input_indices);
-    println!("result {:?}", hull);*/
+    let starting_index = indices_a[0];
+    indices_a.extend(indices_b);
 
-    Ok(hull)
+    Ok(wrap_indices(vertices, &indices_a, starting_index))
 }
 
 /// Finds the convex hull using a parallel version of Graham's scan, similar to Chan's
diff --git a/src/linestring_2d/convex_hull/impls.rs b/src/linestring_2d/convex_hull/impls.rs
deleted file mode 100644
index f235a1d..0000000
--- a/src/linestring_2d/convex_hull/impls.rs
+++ /dev/null
@@ -1,55 +0,0 @@
-// SPDX-License-Identifier: MIT OR Apache-2.0
-// Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-// This file is part of the linestring crate.
-
-/*
-Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-
-or
-
-Copyright 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Licensed under the Apache License, Version 2.0 (the "License");
-you may not use this file except in compliance with the License.
-You may obtain a copy of the License at
-
-    http://www.apache.org/licenses/LICENSE-2.0
-
-Unless required by applicable law or agreed to in writing, software
-distributed under the License is distributed on an "AS IS" BASIS,
-WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-See the License for the specific language governing permissions and
-limitations under the License.
-*/
-//! A module containing boiler-plate implementations of standard traits such as Default, From etc etc
-
-use crate::linestring_2d::convex_hull::VertexIndex;
-use std::{fmt, fmt::Debug};
-
-impl Debug for VertexIndex {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        match self.from_a {
-            true => write!(f, "{}A{}", self.index, self.index_index),
-            false => write!(f, "{}B{}", self.index, self.index_index),
-        }
-    }
-}
-- 
2.43.0


From de5bf5a34e26e2dee178a4dae4bcfae47c8bde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 33/46] fix: points inside of a convex hull on one of its
 diagonals must be found with rounded coordinates

The binary search asks for the side of a diagonal first with one and then with
the other direction of it. Both can be negative when the point lies on the
diagonal but for rounding, and a point deep inside was reported as outside.
---
 src/linestring_2d/convex_hull.rs | 93 ++++++++++++--------------------
 1 file changed, 34 insertions(+), 59 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 047025e..76ddb7e 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1052,46 +1052,28 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     if p == origin {
         return false;
     }
-    // The edges of the triangle that connects to `origin` are internal diagonals unless they are the
-    // first or last edge of the hull. A point on an internal diagonal is still inside of the hull.
-    let is_inside = |a: T, b: T, hull_edge: bool| {
-        if hull_edge {
-            is_point_left(a, b, p)
-        } else {
-            is_point_left_allow_collinear(a, b, p)
-        }
-    };
+    // The edges of the triangle that connect to `origin` are internal diagonals unless they are the
+    // first or last edge of the hull. The search has already decided on which side of a diagonal the
+    // point lies, rounding could give another answer if that was asked once more.
     let last_point = slice[slice.len() - 1];
+    let first_is_hull_edge = retain_index_0 && slice[0] == input[input_offset + 1];
     let last_is_hull_edge = last_point == input[input.len() - 1];
 
-    if retain_index_0 {
-        if !is_inside(origin, slice[0], slice[0] == input[input_offset + 1]) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_inside(last_point, origin, last_is_hull_edge) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
-            return false;
-        }
-    } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_inside(last_point, origin, last_is_hull_edge) {
-            //println!("return false 4 slice:{:?}", slice);
+    if first_is_hull_edge && !is_point_left(origin, slice[0], p) {
+        //println!("return false 3.1 for slice: 0+{:?}", slice);
+        return false;
+    }
+    for window in slice.windows(2) {
+        //println!("testing {:?} {:?}", window[0], window[1]);
+        if !is_point_left(window[0], window[1], p) {
+            //println!("return false 3");
             return false;
         }
     }
+    if last_is_hull_edge && !is_point_left(last_point, origin, p) {
+        //println!("return false 4 slice:{:?}", slice);
+        return false;
+    }
     true
 }
 
@@ -1184,33 +1166,26 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
 
     //println!("{:?}", slice );
     // Check the final slice (triangle)
-    if retain_index_0 {
-        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], input[input_offset], p) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
-            return false;
-        }
-    } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], slice[0], p) {
-            //println!("return false 4 slice:{:?}", slice);
+    // See contains_point_exclusive() for the edges that connect to `origin`
+    let origin = input[input_offset];
+    let last_point = slice[slice.len() - 1];
+    let first_is_hull_edge = retain_index_0 && slice[0] == input[input_offset + 1];
+    let last_is_hull_edge = last_point == input[input.len() - 1];
+
+    if first_is_hull_edge && !is_point_left_allow_collinear(origin, slice[0], p) {
+        //println!("return false 3.1 for slice: 0+{:?}", slice);
+        return false;
+    }
+    for window in slice.windows(2) {
+        //println!("testing {:?} {:?}", window[0], window[1]);
+        if !is_point_left_allow_collinear(window[0], window[1], p) {
+            //println!("return false 3");
             return false;
         }
     }
+    if last_is_hull_edge && !is_point_left_allow_collinear(last_point, origin, p) {
+        //println!("return false 4 slice:{:?}", slice);
+        return false;
+    }
     true
 }
-- 
2.43.0


From 854063971fa32f0d24e1828e0873baaaf6bea0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 34/46] fix: a shared end point of two segments must be
 reported in spite of rounding

The parameters t and u are rounded and could be slightly above one, e.g. for
(0.06,0.08000000000000002)-(0,0) and (-0.08000000000000002,0.06)-(0,0) there
was no intersection at all. For nearly collinear segments the calculated
point could be far away from the shared end.
---
 src/linestring_2d.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 8066420..d96a2ce 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -296,6 +296,15 @@ impl<T: GenericVector2> Line2<T> {
                 }
             })
         } else {
+            // These lines have no more than one point in common. If that is an end point of both of
+            // them then it must be found, and at the right place, but t and u are rounded.
+            let shared_end = [self.start, self.end]
+                .into_iter()
+                .find(|end| *end == other.start || *end == other.end);
+            if let Some(shared_end) = shared_end {
+                return Some(Intersection::Intersection(shared_end));
+            }
+
             let q_minus_p = q - p;
             let t = q_minus_p.perp_dot(s) / r_cross_s;
             let u = q_minus_p.perp_dot(r) / r_cross_s;
-- 
2.43.0


From 917314765376c816c84198e684ef083ca8355a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:20 +0000
Subject: [PATCH 35/46] fix: Visvalingam-Whyatt must compare the areas of
 triangles far from the origin

The products of absolute coordinates cancelled each other, and what was left
of the areas was rounding: other points than the ones with the smallest areas
were deleted. The area is calculated relative to one corner, as in 3D.
---
 src/linestring_2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index d96a2ce..fb1ae34 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -361,10 +361,8 @@ impl<T: GenericVector2> Line2<T> {
     /// returns (area of a triangle)²*4
     /// <https://en.wikipedia.org/wiki/Visvalingam–Whyatt_algorithm#Algorithm>
     fn triangle_area_squared_times_4(p1: T, p2: T, p3: T) -> T::Scalar {
-        let area = p1.x() * p2.y() + p2.x() * p3.y() + p3.x() * p1.y()
-            - p1.x() * p3.y()
-            - p2.x() * p1.y()
-            - p3.x() * p2.y();
+        // relative to one corner, far from the origin the products would hide the area
+        let area = (p2 - p1).perp_dot(p3 - p1);
         area * area
     }
 
-- 
2.43.0


From 689b8560857a53dcb16fad9303e3b19117148422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 36/46] fix: overlaps and end points shared by parallel
 segments must be the exact end points

They were calculated as p + r * t. A shared end point that was off by one bit
made find_two_intersections report the same corner twice, instead of the corner
and the other intersection.
---
 src/linestring_2d.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index fb1ae34..025f408 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -268,13 +268,14 @@ impl<T: GenericVector2> Line2<T> {
 
         // If r × s = 0 then the two lines are parallel
         if ulps_eq!(r_cross_s, T::Scalar::ZERO) {
+            let (mut p_end, mut q_end) = (self.end, other.end);
             // sort the edge start and end points
             if Self::precedes(self.start, self.end) {
-                p = self.end;
+                std::mem::swap(&mut p, &mut p_end);
                 r = -r;
             }
             if Self::precedes(other.start, other.end) {
-                q = other.end;
+                std::mem::swap(&mut q, &mut q_end);
                 s = -s;
             }
 
@@ -286,8 +287,9 @@ impl<T: GenericVector2> Line2<T> {
                 let t0 = q_minus_p.dot(r) / r_dot_r;
                 let t1 = t0 + s.dot(r) / r_dot_r;
 
-                let overlap_start = p + r * t0.max(T::Scalar::ZERO);
-                let overlap_end = p + r * t1.min(T::Scalar::ONE);
+                // end points of the lines, not rounded points close to them
+                let overlap_start = if t0 > T::Scalar::ZERO { q } else { p };
+                let overlap_end = if t1 < T::Scalar::ONE { q_end } else { p_end };
 
                 if overlap_start == overlap_end {
                     Intersection::Intersection(overlap_start)
-- 
2.43.0


From c1baed0077423c5b5b75c9f4b7561e9cf1dac481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 37/46] fix: the intersection point of nearly parallel segments
 must be on both of them

t and u are mostly rounding for segments that are collinear but for their
rounded coordinates, the reported point could be beyond the end of the other
segment.
---
 src/linestring_2d.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 025f408..7d22876 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -314,7 +314,19 @@ impl<T: GenericVector2> Line2<T> {
             if (T::Scalar::ZERO..=T::Scalar::ONE).contains(&t)
                 && (T::Scalar::ZERO..=T::Scalar::ONE).contains(&u)
             {
-                Some(Intersection::Intersection(p + r * t))
+                // the point is inside of both bounding boxes, t is mostly rounding if the lines are
+                // nearly parallel
+                let point = p + r * t;
+                Some(Intersection::Intersection(T::new_2d(
+                    point
+                        .x()
+                        .max(self_min_x.max(other_min_x))
+                        .min(self_max_x.min(other_max_x)),
+                    point
+                        .y()
+                        .max(self_min_y.max(other_min_y))
+                        .min(self_max_y.min(other_max_y)),
+                )))
             } else {
                 None
             }
-- 
2.43.0


From a501484f047335b2e09c7857d2a4aea50fa0ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 38/46] fix: the place where a ray meets a nearly parallel edge
 must be on the edge

t is mostly rounding if the ray and the edge are collinear but for their
rounded coordinates.
---
 src/linestring_2d.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 7d22876..a2690dc 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -845,6 +845,11 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         let s = p1.sub(p0);
         let r_cross_s = ray_dir.perp_dot(s);
 
+        // where the ray passes the end points of the edge
+        let r_dot_r = ray_dir.dot(ray_dir);
+        let t0 = p0.sub(origin).dot(ray_dir) / r_dot_r;
+        let t1 = p1.sub(origin).dot(ray_dir) / r_dot_r;
+
         // If r × s = 0 then the two lines are parallel
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
             let q_minus_p = p0.sub(origin);
@@ -852,9 +857,6 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
             if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
                 return None;
             }
-            let r_dot_r = ray_dir.dot(ray_dir);
-            let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
-            let t1 = p1.sub(origin).dot(ray_dir) / r_dot_r;
             // the part of the edge behind the origin is not on the ray
             (t0.max(t1) >= T::Scalar::ZERO).then(|| t0.min(t1).max(T::Scalar::ZERO))
         } else {
@@ -862,7 +864,12 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
             let t = q_minus_p.perp_dot(s) / r_cross_s;
             let u = q_minus_p.perp_dot(ray_dir) / r_cross_s;
 
-            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u)).then_some(t)
+            // t is mostly rounding if the ray and the edge are nearly parallel
+            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u)).then(|| {
+                t.max(t0.min(t1))
+                    .min(t0.max(t1))
+                    .max(T::Scalar::ZERO)
+            })
         }
     }
 
-- 
2.43.0


From c62d7693f5ff63c3f048198b015bd6bd082e0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 39/46] fix: a segment must not pass between two segments that
 share an end point

The parameters t and u of a segment through the corner of a line string are
rounded, so that both segments of the corner could be missed, or both reported
at slightly different places: find_two_intersections did not find the place
where the segment leaves a convex polygon. Decide by the sides of the end
points, which are the same values for both segments of the corner.
---
 src/linestring_2d.rs | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index a2690dc..47ba52f 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -307,16 +307,30 @@ impl<T: GenericVector2> Line2<T> {
                 return Some(Intersection::Intersection(shared_end));
             }
 
-            let q_minus_p = q - p;
-            let t = q_minus_p.perp_dot(s) / r_cross_s;
-            let u = q_minus_p.perp_dot(r) / r_cross_s;
-
-            if (T::Scalar::ZERO..=T::Scalar::ONE).contains(&t)
-                && (T::Scalar::ZERO..=T::Scalar::ONE).contains(&u)
-            {
-                // the point is inside of both bounding boxes, t is mostly rounding if the lines are
-                // nearly parallel
-                let point = p + r * t;
+            // The sides of the other line that the end points are on. These are the same values for
+            // every line that has this end point, so that nothing can pass between two lines.
+            let p_side = (q - p).perp_dot(s);
+            let p_end_side = (q - self.end).perp_dot(s);
+            let q_side = (q - p).perp_dot(r);
+            let q_end_side = (other.end - p).perp_dot(r);
+            let zero = T::Scalar::ZERO;
+            let same_side =
+                |a: T::Scalar, b: T::Scalar| (a > zero && b > zero) || (a < zero && b < zero);
+
+            if !same_side(p_side, p_end_side) && !same_side(q_side, q_end_side) {
+                let point = if p_side == zero {
+                    p
+                } else if p_end_side == zero {
+                    self.end
+                } else if q_side == zero {
+                    q
+                } else if q_end_side == zero {
+                    other.end
+                } else {
+                    p + r * (p_side / r_cross_s)
+                };
+                // the point is inside of both bounding boxes, it may be mostly rounding if the lines
+                // are nearly parallel
                 Some(Intersection::Intersection(T::new_2d(
                     point
                         .x()
@@ -865,11 +879,8 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
             let u = q_minus_p.perp_dot(ray_dir) / r_cross_s;
 
             // t is mostly rounding if the ray and the edge are nearly parallel
-            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u)).then(|| {
-                t.max(t0.min(t1))
-                    .min(t0.max(t1))
-                    .max(T::Scalar::ZERO)
-            })
+            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u))
+                .then(|| t.max(t0.min(t1)).min(t0.max(t1)).max(T::Scalar::ZERO))
         }
     }
 
@@ -1620,9 +1631,7 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
             // at least one step, even if distance is infinite
-            let num_substeps = (segment_length / self.distance)
-                .ceil()
-                .max(T::Scalar::ONE);
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From 0a76a568e547ee0cc7b47f0f492a9c5c57f0667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 40/46] fix: a ray must not pass between two edges that share
 an end point

The parameter u of a ray through the corner of a line string is rounded, so
that both edges of the corner could be missed. Decide by the sides of the ray
that the end points are on, like intersection_point.
---
 src/linestring_2d.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 47ba52f..d0e23b9 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -45,7 +45,7 @@ use crate::{linestring_3d, linestring_3d::Plane, LinestringError};
 use std::fmt::Debug;
 use vector_traits::{
     approx::*,
-    num_traits::{AsPrimitive, Float, One, Zero},
+    num_traits::{AsPrimitive, Float, Zero},
     GenericScalar, GenericVector2, HasXY, HasXYZ,
 };
 
@@ -876,10 +876,15 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-            let u = q_minus_p.perp_dot(ray_dir) / r_cross_s;
+            // The sides of the ray that the end points are on. These are the same values for every
+            // edge that has this end point, so that nothing can pass between two edges.
+            let p0_side = q_minus_p.perp_dot(ray_dir);
+            let p1_side = p1.sub(origin).perp_dot(ray_dir);
+            let same_side = (p0_side > T::Scalar::ZERO && p1_side > T::Scalar::ZERO)
+                || (p0_side < T::Scalar::ZERO && p1_side < T::Scalar::ZERO);
 
             // t is mostly rounding if the ray and the edge are nearly parallel
-            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u))
+            (t >= T::Scalar::ZERO && t0.max(t1) >= T::Scalar::ZERO && !same_side)
                 .then(|| t.max(t0.min(t1)).min(t0.max(t1)).max(T::Scalar::ZERO))
         }
     }
@@ -1631,7 +1636,9 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
             // at least one step, even if distance is infinite
-            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
+            let num_substeps = (segment_length / self.distance)
+                .ceil()
+                .max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From 54cfc7b641846aa4273af21fd66f4a95b7951f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:09 +0000
Subject: [PATCH 41/46] fix: a line at the position of an event is no neighbour
 of it, the crossings of its real neighbours were lost

---
 src/linestring_2d/intersection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index db72957..ee70156 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -387,6 +387,12 @@ pub(crate) fn sweepline_intersection<T: GenericVector2>(
 
 /// Returns true if a line, known to be intersecting the sweepline, passes through the pivot point
 pub(crate) fn passes_through<T: GenericVector2>(pivot: T, line: &linestring_2d::Line2<T>) -> bool {
+    // the sweepline status is based on x, a line at the position of the pivot is no neighbour of it
+    if let Some((x, _)) = sweepline_intersection(pivot, line) {
+        if approx::ulps_eq!(&x, &pivot.x()) {
+            return true;
+        }
+    }
     let delta = line.end - line.start;
     if delta.x().abs() > delta.y().abs() {
         let y = line.start.y() + (pivot.x() - line.start.x()) * delta.y() / delta.x();
-- 
2.43.0


From 9b8042168bd993fccbfe5214b29beb2a885cc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:15 +0000
Subject: [PATCH 42/46] fix: the place where a ray meets an edge must not
 depend on the squared length of the ray

---
 src/linestring_2d.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index d0e23b9..6a79881 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -859,10 +859,18 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         let s = p1.sub(p0);
         let r_cross_s = ray_dir.perp_dot(s);
 
-        // where the ray passes the end points of the edge
-        let r_dot_r = ray_dir.dot(ray_dir);
-        let t0 = p0.sub(origin).dot(ray_dir) / r_dot_r;
-        let t1 = p1.sub(origin).dot(ray_dir) / r_dot_r;
+        // where the ray passes the end points of the edge, on its main axis (the squared length of
+        // the ray could be out of range)
+        let passes = |p: T| {
+            let q = p.sub(origin);
+            if ray_dir.x().abs() > ray_dir.y().abs() {
+                q.x() / ray_dir.x()
+            } else {
+                q.y() / ray_dir.y()
+            }
+        };
+        let t0 = passes(p0);
+        let t1 = passes(p1);
 
         // If r × s = 0 then the two lines are parallel
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
-- 
2.43.0


From 45c6272a2a44767f3a0fdac965f7e6b86004412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 43/46] fix: a single point beside a long line must not be
 reported as an intersection

---
 src/linestring_2d.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 6a79881..80a5403 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1405,7 +1405,16 @@ pub fn intersect_line_point<T: GenericVector2>(
     let pb = ((l1x - px) * (l1x - px) + (l1y - py) * (l1y - py)).sqrt();
 
     if ulps_eq!(&ab, &(ap + pb)) {
-        return Some(Intersection::Intersection(point));
+        // The lengths hardly differ when the point is beside a long line, then the distance to
+        // the line has to be small as well: a few times the rounding of the largest coordinate.
+        let distance_times_ab = ((l1x - l0x) * (py - l0y) - (l1y - l0y) * (px - l0x)).abs();
+        let largest = [l0x, l0y, l1x, l1y]
+            .into_iter()
+            .fold(T::Scalar::ZERO, |largest, c| largest.max(c.abs()));
+        let rounding = largest * T::Scalar::EPSILON * T::Scalar::TWO;
+        if distance_times_ab <= ab * rounding {
+            return Some(Intersection::Intersection(point));
+        }
     }
     None
 }
-- 
2.43.0


From 3bdf04d9cb56c812c1f4c908474f0d79105dc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:55 +0000
Subject: [PATCH 44/46] fix: small figures must not count as collinear or
 parallel because their cross products are small

---
 src/linestring_2d.rs             | 26 ++++++++++++++++++++------
 src/linestring_2d/convex_hull.rs | 21 +++++++++++++--------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 80a5403..bcf61e1 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -45,7 +45,7 @@ use crate::{linestring_3d, linestring_3d::Plane, LinestringError};
 use std::fmt::Debug;
 use vector_traits::{
     approx::*,
-    num_traits::{AsPrimitive, Float, Zero},
+    num_traits::{AsPrimitive, Float},
     GenericScalar, GenericVector2, HasXY, HasXYZ,
 };
 
@@ -267,7 +267,7 @@ impl<T: GenericVector2> Line2<T> {
         let r_cross_s = r.perp_dot(s);
 
         // If r × s = 0 then the two lines are parallel
-        if ulps_eq!(r_cross_s, T::Scalar::ZERO) {
+        if cross_is_zero(r_cross_s, self.start, self.end, other.start, other.end) {
             let (mut p_end, mut q_end) = (self.end, other.end);
             // sort the edge start and end points
             if Self::precedes(self.start, self.end) {
@@ -282,7 +282,7 @@ impl<T: GenericVector2> Line2<T> {
             let q_minus_p = q - p;
             let q_minus_p_cross_r = q_minus_p.perp_dot(r);
 
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::ZERO).then(|| {
+            cross_is_zero(q_minus_p_cross_r, p, q, p, p_end).then(|| {
                 let r_dot_r = r.dot(r);
                 let t0 = q_minus_p.dot(r) / r_dot_r;
                 let t1 = t0 + s.dot(r) / r_dot_r;
@@ -369,7 +369,8 @@ impl<T: GenericVector2> Line2<T> {
         let middle_sub_end = middle - end;
 
         // The lines only overlap if they leave the middle point in the same direction
-        if !ulps_eq!(middle_sub_start.perp_dot(middle_sub_end), T::Scalar::ZERO)
+        let cross = middle_sub_start.perp_dot(middle_sub_end);
+        if !cross_is_zero(cross, start, middle, end, middle)
             || middle_sub_start.dot(middle_sub_end) <= T::Scalar::ZERO
         {
             return Ok(None);
@@ -873,10 +874,11 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         let t1 = passes(p1);
 
         // If r × s = 0 then the two lines are parallel
-        if ulps_eq!(r_cross_s, T::Scalar::zero()) {
+        let zero = T::new_2d(T::Scalar::ZERO, T::Scalar::ZERO);
+        if cross_is_zero(r_cross_s, zero, ray_dir, p0, p1) {
             let q_minus_p = p0.sub(origin);
             let q_minus_p_cross_r = q_minus_p.perp_dot(ray_dir);
-            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
+            if !cross_is_zero(q_minus_p_cross_r, origin, p0, zero, ray_dir) {
                 return None;
             }
             // the part of the edge behind the origin is not on the ray
@@ -1379,6 +1381,18 @@ impl<T: HasXY> Aabb2<T> {
     }
 }
 
+/// Returns true if the cross product of a->b and c->d is zero, or too small to be told from zero.
+#[inline(always)]
+pub(crate) fn cross_is_zero<T: GenericVector2>(cross: T::Scalar, a: T, b: T, c: T, d: T) -> bool {
+    if cross == T::Scalar::ZERO || !ulps_eq!(cross, T::Scalar::ZERO) {
+        return cross == T::Scalar::ZERO;
+    }
+    // the cross products of short vectors are small as well, compare with the rounding of the points
+    let size = |v: T| v.x().abs().max(v.y().abs());
+    let largest = size(a).max(size(b)).max(size(c)).max(size(d));
+    cross.abs() <= (size(b - a) + size(d - c)) * largest * T::Scalar::EPSILON
+}
+
 /// Get any intersection point between line segment and point.
 /// Inspired by <https://stackoverflow.com/a/17590923>
 pub fn intersect_line_point<T: GenericVector2>(
diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 76ddb7e..e67b6a6 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -43,11 +43,14 @@ limitations under the License.
 #[cfg(test)]
 mod tests;
 
-use crate::{linestring_2d::LineString2, LinestringError};
+use crate::{
+    linestring_2d::{cross_is_zero, LineString2},
+    LinestringError,
+};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::Float, GenericScalar, GenericVector2};
+use vector_traits::{num_traits::Float, GenericScalar, GenericVector2};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -191,7 +194,7 @@ fn indexed_find_lowest_x<T: GenericVector2>(
 #[inline(always)]
 pub fn point_orientation<T: GenericVector2>(a: T, b: T, c: T) -> Orientation {
     let value = cross_2d(a, b, c);
-    if value == T::Scalar::ZERO || ulps_eq!(value, T::Scalar::ZERO) {
+    if cross_is_zero(value, a, b, a, c) {
         Orientation::Collinear
     } else if value > T::Scalar::ZERO {
         Orientation::Left
@@ -230,7 +233,7 @@ pub fn is_point_left<T: GenericVector2>(a: T, b: T, c: T) -> bool {
 #[inline(always)]
 pub fn is_point_left_allow_collinear<T: GenericVector2>(a: T, b: T, c: T) -> bool {
     let result = cross_2d(a, b, c);
-    result >= T::Scalar::ZERO || ulps_eq!(result, T::Scalar::ZERO)
+    result >= T::Scalar::ZERO || cross_is_zero(result, a, b, a, c)
 }
 
 /// calculate the cross product of two 2d vectors defined by the points a,b,c as: a->b & a->c
@@ -454,8 +457,9 @@ fn push_hull_point<T: GenericVector2, I>(
     let p = point(&item);
     while hull.len() > side + 1 {
         let last = hull.len() - 1;
-        let cross = cross_2d(point(&hull[last - 1]), point(&hull[last]), p);
-        if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
+        let (a, b) = (point(&hull[last - 1]), point(&hull[last]));
+        let cross = cross_2d(a, b, p);
+        if T::Scalar::ZERO > cross || cross_is_zero(cross, a, b, a, p) {
             let _ = hull.pop();
         } else {
             break;
@@ -536,8 +540,9 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     for p in input_points.iter() {
         while rv.len() > 1 {
             let last = rv.len() - 1;
-            let cross = cross_2d(rv[last - 1], rv[last], *p);
-            if cross < T::Scalar::ZERO || ulps_eq!(cross, T::Scalar::ZERO) {
+            let (a, b) = (rv[last - 1], rv[last]);
+            let cross = cross_2d(a, b, *p);
+            if cross < T::Scalar::ZERO || cross_is_zero(cross, a, b, a, *p) {
                 let _ = rv.pop();
             } else {
                 break;
-- 
2.43.0


From a8c04a699017be34bce2ee2252b81c00faaaaeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:22 +0000
Subject: [PATCH 45/46] fix: a line that starts on another one by rounding must
 not lose its crossings far from the origin

---
 src/linestring_2d/intersection.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index ee70156..f0348e7 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -387,19 +387,26 @@ pub(crate) fn sweepline_intersection<T: GenericVector2>(
 
 /// Returns true if a line, known to be intersecting the sweepline, passes through the pivot point
 pub(crate) fn passes_through<T: GenericVector2>(pivot: T, line: &linestring_2d::Line2<T>) -> bool {
+    // what is calculated is rounded like the ends of the line are, which may be far from the pivot
+    let is_at = |calculated: T::Scalar, pivot: T::Scalar, start: T::Scalar, end: T::Scalar| {
+        approx::ulps_eq!(&calculated, &pivot)
+            || (calculated - pivot).abs()
+                <= start.abs().max(end.abs()) * T::Scalar::EPSILON * T::Scalar::TWO
+    };
+    let (start, end) = (line.start, line.end);
     // the sweepline status is based on x, a line at the position of the pivot is no neighbour of it
     if let Some((x, _)) = sweepline_intersection(pivot, line) {
-        if approx::ulps_eq!(&x, &pivot.x()) {
+        if is_at(x, pivot.x(), start.x(), end.x()) {
             return true;
         }
     }
-    let delta = line.end - line.start;
+    let delta = end - start;
     if delta.x().abs() > delta.y().abs() {
-        let y = line.start.y() + (pivot.x() - line.start.x()) * delta.y() / delta.x();
-        approx::ulps_eq!(&y, &pivot.y())
+        let y = start.y() + (pivot.x() - start.x()) * delta.y() / delta.x();
+        is_at(y, pivot.y(), start.y(), end.y())
     } else {
-        let x = line.start.x() + (pivot.y() - line.start.y()) * delta.x() / delta.y();
-        approx::ulps_eq!(&x, &pivot.x())
+        let x = start.x() + (pivot.y() - start.y()) * delta.x() / delta.y();
+        is_at(x, pivot.x(), start.x(), end.x())
     }
 }
 
-- 
2.43.0


From 91127b65849d68314dee9e8a106b315cd776ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:33 +0000
Subject: [PATCH 46/46] fix: the sweeps lost crossings of lines that are
 equally close to a point, when their distances were rounded differently

Of the active lines left and right of an event only the closest one was tested
against the lines of the event (or each other). Which one is the closest was decided
by x coordinates compared within 4 ulps of their values, while their rounding errors
depend on the coordinates of the lines. With four lines of coordinates -3 to 3 this
was enough to lose a crossing:
(-2,2)-(1,-1), (2,-3)-(-2,3), (-1,1)-(0,2), (-2,0)-(0,3)
Now all the lines that could be the closest ones are tested.
---
 src/linestring_2d/indexed_intersection.rs | 137 +++++++++-----------
 src/linestring_2d/intersection.rs         | 146 ++++++++++------------
 2 files changed, 127 insertions(+), 156 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 47a2aab..e3a563d 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -110,12 +110,19 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 
 /// A container struct that keeps track of the lines around a pivot point.
 /// It only stores the lines with highest x value left of pivot point, and lines with lowest x
-/// value right of the point. Secondarily it prioritizes according to slope of the line, lines
-/// leaning towards pivot point have priority.
+/// value right of the point. The x values are rounded: lines that can't be told apart by them are
+/// all stored, lines that can't be told apart from the pivot point are stored on both sides.
 struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
-    slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    // (the highest possible x value, line index)
+    left: Vec<(T::Scalar, usize)>,
+    // (the lowest possible x value, line index)
+    right: Vec<(T::Scalar, usize)>,
+    candidates_left: Vec<usize>,
+    candidates_right: Vec<usize>,
+    // the highest of the lowest possible x values to the left of the pivot point
+    best_left: T::Scalar,
+    // the lowest of the highest possible x values to the right of the pivot point
+    best_right: T::Scalar,
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -124,9 +131,12 @@ where
 {
     fn new() -> Self {
         Self {
-            best_left: None,
-            best_right: None,
-            slope: MinMaxSlope::new(),
+            left: Vec::new(),
+            right: Vec::new(),
+            candidates_left: Vec::new(),
+            candidates_right: Vec::new(),
+            best_left: T::Scalar::NEG_INFINITY,
+            best_right: T::Scalar::INFINITY,
         }
     }
 
@@ -135,71 +145,44 @@ where
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
-        candidate_slope: T::Scalar,
+        tolerance: T::Scalar,
         candidate_index: usize,
     ) {
-        if candidate_x < pivot_x {
-            /*println!(
-                "Left:looking at {} candidate_x:{} candidate_slope:{}",
-                candidate_index, candidate_x, candidate_slope
-            );*/
-            // handle left side
-            if let Some(current_min) = self.best_left {
-                if ulps_eq!(&current_min, &candidate_x) {
-                    self.slope
-                        .update_left(false, candidate_slope, candidate_index);
-                } else if current_min < candidate_x {
-                    // this candidate is better.
-                    self.slope
-                        .update_left(true, candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
-                } else {
-                    /*println!(
-                        "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
-                        candidate_index, candidate_x, current_min, candidate_slope, self.slope.best_left.unwrap()
-                    )*/
-                }
-            } else {
-                // First sample
-                self.best_left = Some(candidate_x);
-                self.slope
-                    .update_left(false, candidate_slope, candidate_index);
+        let (lowest_x, highest_x) = (candidate_x - tolerance, candidate_x + tolerance);
+        if lowest_x < pivot_x {
+            self.left.push((highest_x, candidate_index));
+            if highest_x < pivot_x {
+                self.best_left = self.best_left.max(lowest_x);
             }
-        } else if candidate_x > pivot_x {
-            /*println!(
-                "Right:looking at {} candidate_x:{} candidate_slope:{}",
-                candidate_index, candidate_x, candidate_slope
-            );*/
-            // handle right side
-            if let Some(current_max) = self.best_right {
-                if ulps_eq!(&current_max, &candidate_x) {
-                    self.slope
-                        .update_right(false, candidate_slope, candidate_index);
-                } else if current_max > candidate_x {
-                    // this candidate is better.
-                    self.slope
-                        .update_right(true, candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
-                } else {
-                    /*println!(
-                        "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
-                        candidate_index, candidate_x, current_max, candidate_slope, self.slope.best_right.unwrap()
-                    )*/
-                }
-            } else {
-                // First sample
-                self.best_right = Some(candidate_x);
-                self.slope
-                    .update_right(false, candidate_slope, candidate_index);
+        }
+        if highest_x > pivot_x {
+            self.right.push((lowest_x, candidate_index));
+            if lowest_x > pivot_x {
+                self.best_right = self.best_right.min(highest_x);
             }
         }
     }
 
+    /// pick the candidates that could be the closest ones
+    fn select(&mut self) {
+        let best = self.best_left;
+        let closest = self.left.iter().filter(|(x, _)| *x >= best);
+        self.candidates_left
+            .extend(closest.map(|(_, index)| *index));
+        let best = self.best_right;
+        let closest = self.right.iter().filter(|(x, _)| *x <= best);
+        self.candidates_right
+            .extend(closest.map(|(_, index)| *index));
+    }
+
     /// clear all data
     fn clear(&mut self) {
-        self.best_left = None;
-        self.best_right = None;
-        self.slope.clear();
+        self.left.clear();
+        self.right.clear();
+        self.candidates_left.clear();
+        self.candidates_right.clear();
+        self.best_left = T::Scalar::NEG_INFINITY;
+        self.best_right = T::Scalar::INFINITY;
     }
 }
 
@@ -784,18 +767,20 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) =
-                sweepline_intersection(self.sweepline_pos, &self.line(*line_index))
+            let line = &self.line(*line_index);
+            if let Some((intersection_x, tolerance)) =
+                sweepline_intersection(self.sweepline_pos, line)
             {
-                //println!(" @{}^{})", intersection_x, intersection_slope);
+                //println!(" @{}^{})", intersection_x, tolerance);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
-                    intersection_slope,
+                    tolerance,
                     *line_index,
                 );
             }
         }
+        neighbour_priority.select();
 
         // add the newly found lines
         for l in added.iter() {
@@ -804,12 +789,12 @@ impl<T: GenericVector2> IntersectionTester<T> {
 
         if intersections_found + added_active_lines == 0 {
             // this event didn't spawn off new events, check neighbours
-            if !neighbour_priority.slope.candidates_left.is_empty()
-                && !neighbour_priority.slope.candidates_right.is_empty()
+            if !neighbour_priority.candidates_left.is_empty()
+                && !neighbour_priority.candidates_right.is_empty()
             {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_left,
-                    &neighbour_priority.slope.candidates_right,
+                    &neighbour_priority.candidates_left,
+                    &neighbour_priority.candidates_right,
                     site_events,
                 )?;
             }
@@ -822,16 +807,16 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
 
-            if !neighbour_priority.slope.candidates_left.is_empty() {
+            if !neighbour_priority.candidates_left.is_empty() {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_left,
+                    &neighbour_priority.candidates_left,
                     &connected_priority.candidates_left,
                     site_events,
                 )?;
             }
-            if !neighbour_priority.slope.candidates_right.is_empty() {
+            if !neighbour_priority.candidates_right.is_empty() {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_right,
+                    &neighbour_priority.candidates_right,
                     &connected_priority.candidates_right,
                     site_events,
                 )?;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index f0348e7..62c4a3d 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -106,12 +106,19 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 
 /// A container struct that keeps track of the lines around a pivot point.
 /// It only stores the lines with highest x value left of pivot point, and lines with lowest x
-/// value right of the point. Secondarily it prioritizes according to slope of the line, lines
-/// leaning towards pivot point have priority.
+/// value right of the point. The x values are rounded: lines that can't be told apart by them are
+/// all stored, lines that can't be told apart from the pivot point are stored on both sides.
 pub(crate) struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
-    slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    // (the highest possible x value, line index)
+    left: Vec<(T::Scalar, usize)>,
+    // (the lowest possible x value, line index)
+    right: Vec<(T::Scalar, usize)>,
+    candidates_left: Vec<usize>,
+    candidates_right: Vec<usize>,
+    // the highest of the lowest possible x values to the left of the pivot point
+    best_left: T::Scalar,
+    // the lowest of the highest possible x values to the right of the pivot point
+    best_right: T::Scalar,
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -120,9 +127,12 @@ where
 {
     pub(crate) fn new() -> Self {
         Self {
-            best_left: None,
-            best_right: None,
-            slope: MinMaxSlope::new(),
+            left: Vec::new(),
+            right: Vec::new(),
+            candidates_left: Vec::new(),
+            candidates_right: Vec::new(),
+            best_left: T::Scalar::NEG_INFINITY,
+            best_right: T::Scalar::INFINITY,
         }
     }
 
@@ -131,71 +141,44 @@ where
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
-        candidate_slope: T::Scalar,
+        tolerance: T::Scalar,
         candidate_index: usize,
     ) {
-        if candidate_x < pivot_x {
-            /*println!(
-                "Left:looking at {} candidate_x:{} candidate_slope:{}",
-                candidate_index, candidate_x, candidate_slope
-            );*/
-            // handle left side
-            if let Some(current_min) = self.best_left {
-                if approx::ulps_eq!(&current_min, &candidate_x) {
-                    self.slope
-                        .update_left(false, candidate_slope, candidate_index);
-                } else if current_min < candidate_x {
-                    // this candidate is better.
-                    self.slope
-                        .update_left(true, candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
-                } else {
-                    /*println!(
-                        "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
-                        candidate_index, candidate_x, current_min, candidate_slope, self.slope.best_left.unwrap()
-                    )*/
-                }
-            } else {
-                // First sample
-                self.best_left = Some(candidate_x);
-                self.slope
-                    .update_left(false, candidate_slope, candidate_index);
+        let (lowest_x, highest_x) = (candidate_x - tolerance, candidate_x + tolerance);
+        if lowest_x < pivot_x {
+            self.left.push((highest_x, candidate_index));
+            if highest_x < pivot_x {
+                self.best_left = self.best_left.max(lowest_x);
             }
-        } else if candidate_x > pivot_x {
-            /*println!(
-                "Right:looking at {} candidate_x:{} candidate_slope:{}",
-                candidate_index, candidate_x, candidate_slope
-            );*/
-            // handle right side
-            if let Some(current_max) = self.best_right {
-                if approx::ulps_eq!(&current_max, &candidate_x) {
-                    self.slope
-                        .update_right(false, candidate_slope, candidate_index);
-                } else if current_max > candidate_x {
-                    // this candidate is better.
-                    self.slope
-                        .update_right(true, candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
-                } else {
-                    /*println!(
-                        "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
-                        candidate_index, candidate_x, current_max, candidate_slope, self.slope.best_right.unwrap()
-                    )*/
-                }
-            } else {
-                // First sample
-                self.best_right = Some(candidate_x);
-                self.slope
-                    .update_right(false, candidate_slope, candidate_index);
+        }
+        if highest_x > pivot_x {
+            self.right.push((lowest_x, candidate_index));
+            if lowest_x > pivot_x {
+                self.best_right = self.best_right.min(highest_x);
             }
         }
     }
 
+    /// pick the candidates that could be the closest ones
+    pub(crate) fn select(&mut self) {
+        let best = self.best_left;
+        let closest = self.left.iter().filter(|(x, _)| *x >= best);
+        self.candidates_left
+            .extend(closest.map(|(_, index)| *index));
+        let best = self.best_right;
+        let closest = self.right.iter().filter(|(x, _)| *x <= best);
+        self.candidates_right
+            .extend(closest.map(|(_, index)| *index));
+    }
+
     /// clear all data
     pub(crate) fn clear(&mut self) {
-        self.best_left = None;
-        self.best_right = None;
-        self.slope.clear();
+        self.left.clear();
+        self.right.clear();
+        self.candidates_left.clear();
+        self.candidates_right.clear();
+        self.best_left = T::Scalar::NEG_INFINITY;
+        self.best_right = T::Scalar::INFINITY;
     }
 }
 
@@ -364,9 +347,8 @@ impl SiteEvent {
 }
 
 /// Returns the x coordinate of the point of intersection between the `sweepline` and `other`
-/// Second return value ranks lines that intersect the sweepline at the same point: of the lines left
-/// of the pivot point, the one leaning the most towards it has the lowest value. Of the lines to the
-/// right of it, the one leaning the most towards it has the highest value.
+/// Second return value is how far off that x coordinate could be, the position of the sweepline is
+/// rounded too.
 /// Horizontal lines never have a well-defined point of intersection with the sweepline.
 pub(crate) fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
@@ -379,9 +361,11 @@ pub(crate) fn sweepline_intersection<T: GenericVector2>(
     if approx::ulps_eq!(&y1, &y2) {
         return None;
     }
+    let slope = ((x2 - x1) / (y2 - y1)).abs();
+    let rounding = T::Scalar::EPSILON * T::Scalar::TWO * T::Scalar::TWO;
     Some((
         x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
-        (x1 - x2) / (y2 - y1),
+        (x1.abs().max(x2.abs()) + slope * y1.abs().max(y2.abs())) * rounding,
     ))
 }
 
@@ -742,18 +726,20 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) =
-                sweepline_intersection(self.sweepline_pos, self.lines.get(*line_index).unwrap())
+            let line = &self.lines[*line_index];
+            if let Some((intersection_x, tolerance)) =
+                sweepline_intersection(self.sweepline_pos, line)
             {
-                //println!(" @{}^{})", intersection_x, intersection_slope);
+                //println!(" @{}^{})", intersection_x, tolerance);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
-                    intersection_slope,
+                    tolerance,
                     *line_index,
                 );
             }
         }
+        neighbour_priority.select();
 
         // add the newly found lines
         for l in added.iter() {
@@ -762,12 +748,12 @@ impl<T: GenericVector2> IntersectionData<T> {
 
         if intersections_found + added_active_lines == 0 {
             // this event didn't spawn off new events, check neighbours
-            if !neighbour_priority.slope.candidates_left.is_empty()
-                && !neighbour_priority.slope.candidates_right.is_empty()
+            if !neighbour_priority.candidates_left.is_empty()
+                && !neighbour_priority.candidates_right.is_empty()
             {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_left,
-                    &neighbour_priority.slope.candidates_right,
+                    &neighbour_priority.candidates_left,
+                    &neighbour_priority.candidates_right,
                     site_events,
                 )?;
             }
@@ -780,16 +766,16 @@ impl<T: GenericVector2> IntersectionData<T> {
                 connected_priority.update_both(*l, &self.lines);
             }
 
-            if !neighbour_priority.slope.candidates_left.is_empty() {
+            if !neighbour_priority.candidates_left.is_empty() {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_left,
+                    &neighbour_priority.candidates_left,
                     &connected_priority.candidates_left,
                     site_events,
                 )?;
             }
-            if !neighbour_priority.slope.candidates_right.is_empty() {
+            if !neighbour_priority.candidates_right.is_empty() {
                 self.find_new_events(
-                    &neighbour_priority.slope.candidates_right,
+                    &neighbour_priority.candidates_right,
                     &connected_priority.candidates_right,
                     site_events,
                 )?;
-- 
2.43.0

