From 0da8125ac5efc70872e990b550cb1434934a1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 01/27] fix: make Point2/Vertex2 equality agree with their
 ordering

equals() compared the Euclidean distance with the tolerance while Ord::cmp
compares coordinate by coordinate, so two points could compare Equal without
being ==, which breaks the Eq/Ord contract the containers rely on.
---
 src/kernel/point_2.rs  | 4 +---
 src/kernel/vertex_2.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/kernel/point_2.rs b/src/kernel/point_2.rs
index b2faf58..2430481 100644
--- a/src/kernel/point_2.rs
+++ b/src/kernel/point_2.rs
@@ -37,9 +37,7 @@ impl<T: NumberType> Point2<T> {
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-        let eps = T::default_eps();
-        ((self.x - other.x) * (self.x - other.x) + (self.y - other.y) * (self.y - other.y)).sqrt()
-            < eps
+        self.x.equals(other.x) && self.y.equals(other.y)
     }
 
     pub fn get_vector(&self) -> Vector2<T> {
diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index 3897545..167c719 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -39,9 +39,7 @@ impl<T: NumberType> Vertex2<T> {
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-        let eps = T::default_eps();
-        ((self.x - other.x) * (self.x - other.x) + (self.y - other.y) * (self.y - other.y)).sqrt()
-            < eps
+        self.x.equals(other.x) && self.y.equals(other.y)
     }
 
     pub fn to_point(&self) -> Point2<T> {
-- 
2.43.0


From 8490dcb734cb105d619db483fd73cf0b74cdab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 02/27] fix: split arcs only at multiples of pi inside their
 own range

ArcSegment2::monotone() started the first piece at the multiple of pi below
the arc's source angle (covering points that are not on the arc) and returned
no piece at all for an arc lying strictly between two multiples of pi.
---
 src/kernel/arc_segment_2.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..0435f3b 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -42,18 +42,9 @@ impl<T: NumberType> ArcSegment2<T> {
         let pi = T::pi();
         let mut radians = Vec::new();
         let mut end_pi = T::zero();
-        let mut min_flag = false;
+        radians.push(self.source_radian.clone());
         while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
+            if !end_pi.equals(self.source_radian) && end_pi > self.source_radian {
                 radians.push(end_pi.clone());
             }
             end_pi = end_pi + pi;
-- 
2.43.0


From 492d602e003fc5b1894bb2bc2c51f807febed923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 03/27] fix: recognise upper arcs whose angles exceed 2*pi

ArcSegment2::is_top() compared the raw angles with pi, so the upper half
[2*pi, 3*pi] (a piece of any arc that crosses angle zero) counted as lower.
---
 src/kernel/arc_segment_2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index 0435f3b..40805d6 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -34,7 +34,14 @@ impl<T: NumberType> ArcSegment2<T> {
 
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
-        self.source_radian < pi && (self.target_radian.equals(pi) || self.target_radian < pi)
+        let two_pi = pi * T::from_f64(2.0);
+        let mut source_radian = self.source_radian;
+        let mut target_radian = self.target_radian;
+        while source_radian.equals(two_pi) || source_radian > two_pi {
+            source_radian = source_radian - two_pi;
+            target_radian = target_radian - two_pi;
+        }
+        source_radian < pi && (target_radian.equals(pi) || target_radian < pi)
     }
 
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
-- 
2.43.0


From c6fe2f604a73f5bd5608e655425fb3cdc43ddf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 04/27] fix: test arc against circle with the circle-arc
 predicate

is_segment_2_segment_2_intersected(arc, circle) called the arc-arc predicate,
which asks the circle for its end points and panics.
---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 705274b49c611e8cab26f4fa230c9e1762fb3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 05/27] fix: do not print from earcut_2

---
 src/algorithm/triangulation/earcut_2.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..d2a2ecb 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -64,7 +64,6 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
         vertices.delete(Some(ear));
-        println!("{:?}", ear_index);
         if vertices.len() > 3 {
             let (prev_vertex_type, index) = get_vertex_type(&ears, &reflexes, prev.clone());
             match prev_vertex_type {
-- 
2.43.0


From 5d2fa54aa304bb2d9132379decce125bb53cbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 06/27] fix: a segment with one end inside the circle
 intersects it

The predicate only looked at the foot of the perpendicular, so it answered
false when the foot fell off the segment although one end is inside the
circle and the other outside.
---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..04090d3 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -24,6 +24,7 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         return false;
     } else if source_relation == Point2Circle2Location::On
         || target_relation == Point2Circle2Location::On
+        || source_relation != target_relation
     {
         return true;
     } else {
-- 
2.43.0


From e14c7e8a4fb96d8b1bb05e5ac90f02763d76e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 07/27] fix: disjoint collinear or short segments do not
 intersect

The predicate compared the product of two side values with the tolerance, so
collinear disjoint segments and short segments on one side of each other were
reported as intersecting, at a NaN or far away point.
---
 .../intersection/line_segment_2_line_segment_2.rs   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..879ca32 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -14,7 +14,18 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
     let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    let same_side = |p: T, q: T| (p > eps && q > eps) || (p < -eps && q < -eps);
+    if same_side(ab.cross(&ac), ab.cross(&ad)) || same_side(cd.cross(&ca), cd.cross(&cb)) {
+        return false;
+    }
+    if ab.cross(&cd).equals(T::zero()) {
+        // Parallel segments can only meet in an end point of one of them.
+        return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+            || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
+    }
+    true
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From 143bd40e2c56eb48c9a4e26332ca2dd4de89ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 08/27] fix: intersect a ray with a segment where they cross

Two side values that are always equal were compared, so only the middle of
the segment was ever reported, and the predicate did not look at the ray's
direction.
---
 .../intersection/line_segment_2_ray_2.rs      | 29 ++++---------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..9ce508d 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,8 +1,5 @@
 use crate::{
-    algorithm::location::{
-        location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
-    },
+    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
         segment_2::Segment2,
@@ -13,12 +10,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -59,20 +51,9 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                     }
                     _ => {
                         let v1 = target - source;
-                        let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
+                        let v2 = source - ray_segment.origin();
+                        let t = v2.cross(&v1) / ray_segment.direction().cross(&v1);
+                        if t >= T::zero() {
                             let point =
                                 ray_segment.origin().get_vector() + ray_segment.direction() * t;
                             result.push(Point2::new(point.x(), point.y()));
-- 
2.43.0


From e3f482ef820d8fb6db2e32d1f97181be3f43193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 09/27] fix: locate points in non-convex polygons

The location required the point to be on one side of every edge, so points
inside a non-convex polygon were reported outside. Count ray crossings.
---
 src/algorithm/location/point_2_polygon_2.rs | 46 ++++++++-------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..f113f15 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +42,24 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
+    let mut inside = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
-        match edge_location {
-            Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
-            _ => {}
+        if edge_location == Point2Segment2Location::On {
+            return Point2Polygon2Location::On;
         }
-    }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
+        // Count the edges that cross the horizontal ray from the point to the right.
+        let upward = edge.source().y() <= point.y() && point.y() < edge.target().y();
+        let downward = edge.target().y() <= point.y() && point.y() < edge.source().y();
+        if (upward && edge_location == Point2Segment2Location::Left)
+            || (downward && edge_location == Point2Segment2Location::Right)
+        {
+            inside = !inside;
         }
     }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
+    }
 }
-- 
2.43.0


From a50053d05a1877c6b93a86f2667d5add09f25157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 10/27] fix: the convex hull of a single point is that point

---
 src/algorithm/convex_hull/convex_hull_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..a6724c3 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,6 +17,9 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        if self.points.len() < 2 {
+            return self.points.clone();
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
         for p in self.points.iter() {
-- 
2.43.0


From 95020afcce8c8da1bf4c17e0fc1da4710cf9169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 11/27] fix: deleting the only node empties the circular list

---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From f53c9740d9b56c3abff3b03159d7c1e49f9ec432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 12/27] fix: drop a former ear from the queue when it stops
 being one

get_vertex_type did not return the queue position of a vertex that became
plain convex, so earcut_2 later clipped it although a reflex vertex lay
inside its triangle.
---
 src/algorithm/triangulation/earcut_2.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index d2a2ecb..0e80bb3 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -217,7 +217,15 @@ fn get_vertex_type<T: NumberType>(
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
                     Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                        let queue = match vertex.borrow().data.vertex_type {
+                            VertexType::Reflex => reflexes,
+                            VertexType::Ear => ears,
+                            VertexType::Convex => return (VertexType::Convex, None),
+                        };
+                        let queue_index = queue
+                            .iter()
+                            .position(|x| x.borrow().data.point == cur.borrow().data.point);
+                        return (VertexType::Convex, queue_index);
                     }
                     _ => {
                         continue;
-- 
2.43.0


From 499e1c321d0207019f8941807e7a84780bc4a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 13/27] fix: a vertex on the cut blocks an ear

earcut_2 accepted an ear whose cutting diagonal passes through another vertex,
so polygons with collinear vertices lost triangles or were covered twice.
---
 src/algorithm/triangulation/earcut_2.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index 0e80bb3..6e339de 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -210,13 +210,13 @@ fn get_vertex_type<T: NumberType>(
         Orientation::CounterClockwise => {
             for i in 0..reflexes.len() {
                 let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+                if points.iter().any(|x| x.index == reflex.borrow().data.index) {
                     continue;
                 }
                 let point = reflex.borrow().data.point;
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         let queue = match vertex.borrow().data.vertex_type {
                             VertexType::Reflex => reflexes,
                             VertexType::Ear => ears,
@@ -269,7 +269,7 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         return VertexType::Convex;
                     }
                     _ => {
-- 
2.43.0


From aab2a698def849aa71951b15a66b3dedc496167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 14/27] fix: deleting from an AVL tree with equal values does
 not panic

The successor stayed borrowed while it was removed, so a rotation that touched
it (possible when equal values are stored) panicked with BorrowMutError.
---
 src/data_structure/avl_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..132b831 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,8 +89,9 @@ where
                         temp = temp_left.unwrap();
                     }
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let successor = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete(right, successor);
+                    node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
-- 
2.43.0


From 17a46c27071f9f48710474f8e174a8d8cebc6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 15/27] fix: project points on lines along the normal

---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From 15ef20b95ef02b73ec1baae98cd9ec3465585479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 16/27] fix: handle each sweep event point once

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..091d003 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -118,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +138,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            if self
+                .last_event_point
+                .is_some_and(|last| last.equals(&event_point))
+            {
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
-- 
2.43.0


From 468cc7987a34725aa50c8431710a67da720ef002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 17/27] fix: look right of the last of several equal segments
 in the sweep

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 091d003..15d3266 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -496,7 +496,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment: &StatusNodeSegment<T>,
         mid_order_traversal: &Vec<StatusNode<T>>,
     ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
+        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {
             let mut status_node_segment = status_node.segment.clone();
             match status_node_segment {
                 StatusNodeSegment::LineSegment2(line_segment) => match segment {
-- 
2.43.0


From 3f2b9c0057df0df5f6680c261b17c2b37dc678a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 18/27] fix: take segments out of the sweep status by identity,
 not by order

---
 .../sweep_segment_2_intersection.rs           | 50 ++++---------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 15d3266..c0c4353 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -187,52 +187,22 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
-        for segment in &target_is_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
-        for segment in &contain_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
         for status_node in old_status_nodes {
+            let is_same = |segment: &StatusNodeSegment<T>| {
+                status_node
+                    == StatusNode {
+                        segment: segment.clone(),
+                        ..status_node
+                    }
+            };
+            if target_is_p.iter().any(is_same) || contain_p.iter().any(is_same) {
+                continue;
+            }
             reinserted_segments.push(status_node.segment.clone());
         }
         for segment in &source_is_p {
-- 
2.43.0


From 6cacbfb3cb7a85fdb5dccb96e0591127b10baf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 19/27] fix: segments through one sweep event point can meet
 again

---
 .../sweep_segment_2_intersection.rs           | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index c0c4353..4579b6f 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -257,6 +257,17 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 None => {}
             }
         } else {
+            for nodes in mid_order_traversal.windows(2) {
+                if is_point_2_on_status_node(event_point, &nodes[0])
+                    && is_point_2_on_status_node(event_point, &nodes[1])
+                {
+                    self.find_intersection_points(
+                        &nodes[0].segment,
+                        &nodes[1].segment,
+                        event_point,
+                    );
+                }
+            }
             let segment_left = self
                 .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
                 .0;
@@ -538,6 +549,20 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
     }
 }
 
+fn is_point_2_on_status_node<T: NumberType>(
+    point: &Point2<T>,
+    status_node: &StatusNode<T>,
+) -> bool {
+    match status_node.segment {
+        StatusNodeSegment::LineSegment2(line_segment) => {
+            is_point_2_on_line_segment_2(point, &line_segment)
+        }
+        StatusNodeSegment::ArcSegment2(arc_segment) => {
+            is_point_2_on_arc_segment_2(point, &arc_segment)
+        }
+    }
+}
+
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
-- 
2.43.0


From 8f99b67eccd54252ee0fc3a4683b6250f7c0af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 20/27] fix: a lower arc leaves its left end downwards

---
 .../sweep_segment_2_intersection.rs             | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4579b6f..2b732ff 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -631,6 +631,18 @@ fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T>
     }
 }
 
+fn is_lower_arc<T: NumberType>(segment: &impl Segment2<T>) -> bool {
+    match segment.segment_type() {
+        Segment2Type::LineSegment2 => false,
+        _ => !ArcSegment2::new(
+            CircleSegment2::new(segment.center(), segment.radius()),
+            segment.source_radian(),
+            segment.target_radian(),
+        )
+        .is_top(),
+    }
+}
+
 fn calculate_mid_value<T: NumberType>(
     segment_a: &impl Segment2<T>,
     segment_b: &impl Segment2<T>,
@@ -682,6 +694,11 @@ fn compare_segments<T: NumberType>(
             Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
             _ => calculate_tangent_slope(&segment_b.center(), event_point),
         };
+        let is_a_downward = segment_a_slope.is_none() && is_lower_arc(segment_a);
+        let is_b_downward = segment_b_slope.is_none() && is_lower_arc(segment_b);
+        if is_a_downward != is_b_downward {
+            return is_b_downward.cmp(&is_a_downward);
+        }
         match segment_a_slope {
             Some(a_slope) => match segment_b_slope {
                 Some(b_slope) => {
-- 
2.43.0


From 27d220d516a23759650c1f5119fcf00ac0d574cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 21/27] fix: order tangent segments before the nearer of their
 ends

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 2b732ff..ad526b9 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -650,7 +650,7 @@ fn calculate_mid_value<T: NumberType>(
 ) -> (T, T) {
     let target_a = get_target_of_segment(segment_a);
     let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
+    let target = if target_a > target_b {
         target_a
     } else {
         target_b
-- 
2.43.0


From d875b01402ad4009acd9f9d4aa84edb8f1e7d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 22/27] fix: take the tangent of an arc at its own point on the
 sweep line

---
 .../intersection/sweep_segment_2_intersection.rs       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index ad526b9..5aa6e3b 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -688,11 +688,17 @@ fn compare_segments<T: NumberType>(
     if segment_a_value.equals(segment_b_value) {
         let segment_a_slope = match segment_a.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_a.center(),
+                &Point2::new(event_point.x(), segment_a_value),
+            ),
         };
         let segment_b_slope = match segment_b.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_b.center(),
+                &Point2::new(event_point.x(), segment_b_value),
+            ),
         };
         let is_a_downward = segment_a_slope.is_none() && is_lower_arc(segment_a);
         let is_b_downward = segment_b_slope.is_none() && is_lower_arc(segment_b);
-- 
2.43.0


From 1edf0285179f876683b338c1860135832550ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 23/27] fix: arcs reach the sweep line at their ends

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 5aa6e3b..c12522d 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -597,7 +597,11 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             let radius = segment.radius();
             let center = segment.center();
             let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
+            let y = if y > T::zero() {
+                y.sqrt()
+            } else {
+                T::zero()
+            };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
-- 
2.43.0


From cd2af0f0bf5b7e1c05ea917ab7e889e91ef0b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 24/27] fix: accept both ends of a segment with the same
 tolerance

---
 src/algorithm/location/point_2_line_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..3726d7c 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -29,7 +29,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 5df8fbff40ea8c49341991e2c9599995faf7d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 25/27] fix: Polygon2::is_simple counted polygons touching or
 repeating themselves as simple

---
 src/kernel/polygon_2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..7cf869b 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,5 @@
 use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::location::point_2_line_segment_2::is_point_2_on_line_segment_2;
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -45,6 +46,15 @@ impl<T: NumberType> Polygon2<T> {
 
     pub fn is_simple(&self) -> bool {
         let edges = self.edges();
+        // a vertex lies on no edge but the two that meet in it
+        for (i, vertex) in self.vertices.iter().enumerate() {
+            for (j, edge) in edges.iter().enumerate() {
+                let incident = j == i || (j + 1) % edges.len() == i;
+                if !incident && is_point_2_on_line_segment_2(vertex, edge) {
+                    return false;
+                }
+            }
+        }
         let mut sweep = SweepSegment2Intersection::new();
         for edge in edges.iter() {
             sweep.push_segment(edge);
-- 
2.43.0


From dea3012450aa3dc5d5a3e5ea2a285497f589d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 26/27] fix: copies of an AVL tree shared its nodes

---
 src/data_structure/avl_tree.rs | 35 ++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 132b831..6fcbe3a 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -2,7 +2,7 @@ use std::{cell::RefCell, rc::Rc};
 
 type OptionNodeRc<T> = Option<Rc<RefCell<AVLTreeNode<T>>>>;
 
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct AVLTreeNode<T: Ord + Clone + Copy> {
     value: T,
     height: i32,
@@ -10,6 +10,20 @@ pub struct AVLTreeNode<T: Ord + Clone + Copy> {
     right: OptionNodeRc<T>,
 }
 
+impl<T> Clone for AVLTreeNode<T>
+where
+    T: Ord + Clone + Copy,
+{
+    fn clone(&self) -> Self {
+        Self {
+            value: self.value,
+            height: self.height,
+            left: Self::copy(&self.left),
+            right: Self::copy(&self.right),
+        }
+    }
+}
+
 impl<T> AVLTreeNode<T>
 where
     T: Ord + Clone + Copy,
@@ -23,6 +37,11 @@ where
         }
     }
 
+    fn copy(node: &OptionNodeRc<T>) -> OptionNodeRc<T> {
+        node.as_ref()
+            .map(|node| Rc::new(RefCell::new(node.borrow().clone())))
+    }
+
     pub fn height(node: OptionNodeRc<T>) -> i32 {
         match node {
             Some(node) => node.borrow().height,
@@ -188,12 +207,24 @@ pub enum AVLTreeOption {
     SameNodeInsertRight,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct AVLTree<T: Ord + Clone + Copy> {
     root: OptionNodeRc<T>,
     option: AVLTreeOption,
 }
 
+impl<T> Clone for AVLTree<T>
+where
+    T: Ord + Clone + Copy,
+{
+    fn clone(&self) -> Self {
+        Self {
+            root: AVLTreeNode::copy(&self.root),
+            option: self.option.clone(),
+        }
+    }
+}
+
 impl<T> AVLTree<T>
 where
     T: Ord + Clone + Copy,
-- 
2.43.0


From 25de5ae60c37b2642f3d46e96b8f318ebe2cf4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 27/27] fix: the convex hull of coinciding points repeated the
 point

---
 src/algorithm/convex_hull/convex_hull_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index a6724c3..ed40349 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -20,6 +20,9 @@ impl<T: NumberType> ConvexHull2<T> {
         if self.points.len() < 2 {
             return self.points.clone();
         }
+        if self.points[0] == self.points[self.points.len() - 1] {
+            return vec![self.points[0].clone()];
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
         for p in self.points.iter() {
-- 
2.43.0

