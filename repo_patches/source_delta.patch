From 1af0fa99ed04564a23e2a628f404c3ef5ae7678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 01/12] fix: export coordinates in the order the triangle
 indices refer to

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From 57874bc03d83c6831b343ab2f860330e3f99591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 02/12] fix: a triangle must be outside every hole, not only
 the last one visited

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..8b0646c 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -296,7 +296,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From bb52dac4aa443e9beb038604f334a132eb78bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 03/12] fix: a segment is not split at its own end vertices

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..df32cea 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 0d969721f0e2d8fe914855e3be986b6548f692b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 04/12] fix: inserting a hole removes the vertices it covers

---
 src/planar/triangulator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index df32cea..8da7834 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -246,6 +246,9 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices
+            .retain(|vertex| hole.contains(vertex) == Some(Continence::Outside));
+
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From c92ccd739d0a7f2affc63deea1ddc5a39cc16c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 05/12] fix: unencroach reports the triangles it included, not
 those it removed

---
 src/planar/refine_procedures/encroachment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..cc8d6a0 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -50,7 +50,7 @@ pub fn unencroach(
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
+            .filter(|&t| !old_triangles.contains(t))
             .cloned()
             .collect();
 
-- 
2.43.0


From ea60b4b7d817c024cb254dc7305915e6ea60ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 06/12] fix: sort vertices by x before y

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 7666bfafd91e8a629e11a4ad8d14ca62b87758fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 07/12] fix: minifying an opened polyline keeps it opened

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..5a2086b 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -139,6 +139,7 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From dd9c90560113d162fa3983df86d6fc4df1557cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 08/12] fix: a removal united with an existing hole is not also
 kept on its own

---
 src/triangulator_interface/domain_evaluator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..bfd71e3 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,19 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
+        let mut was_united = false;
         for existing_hole in holes.iter().cloned() {
             if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
+                was_united = true;
                 break;
             }
         }
 
-        holes.insert(possible_removal);
+        if !was_united {
+            holes.insert(possible_removal);
+        }
     }
 
     return holes;
-- 
2.43.0


From adbee171d7d8c03f756b36a312efad53268c5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 09/12] fix: a polyline or circle with too few vertices is an
 error, not a panic

---
 src/triangulator_interface/interpreter/circle_parser.rs   | 2 +-
 src/triangulator_interface/interpreter/polyline_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..d910baf 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -23,7 +23,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             vertices.push(Rc::new(vertex));
         }
 
-        return Ok(Polyline::new_closed(vertices).unwrap());
+        return Polyline::new_closed(vertices).ok_or(());
     }
     return Err(());
 }
diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..734b681 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -25,7 +25,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
-    return Ok(Polyline::new_closed(vertices).unwrap());
+    return Polyline::new_closed(vertices).ok_or(());
 } /* end - parse */
 
 fn point_to_vertex(point: &Point) -> Vertex {
-- 
2.43.0


From 16a9d4f9fc191e60e199b15c5fd265ad1b31f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 10/12] fix: a segment that refers to a missing point is an
 error, not a panic

---
 src/triangulator_interface/interpreter/segments_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triangulator_interface/interpreter/segments_parser.rs b/src/triangulator_interface/interpreter/segments_parser.rs
index bd26c42..c1f720b 100644
--- a/src/triangulator_interface/interpreter/segments_parser.rs
+++ b/src/triangulator_interface/interpreter/segments_parser.rs
@@ -16,8 +16,8 @@ pub fn parse(action: &Action) -> Result<HashSet<Rc<Edge>>, ()> {
             let p1_index: usize = *set.get(0).unwrap();
             let p2_index: usize = *set.get(1).unwrap();
 
-            let p1 = action.points.get(p1_index).unwrap();
-            let p2 = action.points.get(p2_index).unwrap();
+            let p1 = action.points.get(p1_index).ok_or(())?;
+            let p2 = action.points.get(p2_index).ok_or(())?;
 
             let v1 = Rc::new(point_to_vertex(p1));
             let v2 = Rc::new(point_to_vertex(p2));
-- 
2.43.0


From 7495e17e00270952eb0c321a34702ebc8b66fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 11/12] fix: rotations of a triangle are equal and must have
 the same hash

---
 src/elements/triangle.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..f78660a 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -4,10 +4,11 @@ use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, or
 use std::cmp::Eq;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::collections::hash_map::DefaultHasher;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
@@ -24,6 +25,21 @@ impl PartialEq for Triangle {
 
 impl Eq for Triangle {}
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* rotations of the vertices are equal, hence must share their hash */
+        let digest = |vertex: &Vertex| {
+            let mut hasher = DefaultHasher::new();
+            vertex.hash(&mut hasher);
+            return hasher.finish();
+        };
+        digest(&self.v1)
+            .wrapping_add(digest(&self.v2))
+            .wrapping_add(digest(&self.v3))
+            .hash(state);
+    }
+}
+
 impl fmt::Display for Triangle {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         return write!(f, "({} - {} - {})", self.v1, self.v2, self.v3);
-- 
2.43.0


From 9ef8c176cf8c03aa4129f38350569e71213facc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 12/12] fix: the last vertex of an open outline is examined
 like the others

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 5a2086b..2294ebc 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -711,6 +711,7 @@ impl Polyline {
             .iter()
             .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
             .flatten()
+            .chain(p2.tail())
         {
             let continence = p1.contains(&critial_vertex).unwrap();
             if continence == Continence::Boundary {
-- 
2.43.0

