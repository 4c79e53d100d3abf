From 5fc7ee59cd9146a1a03224fb816e7ced4203eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 01/30] fix: allow splitting disjoint subset producers at their
 end

---
 fenris-paradis/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..1f8b7f3 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,8 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        // Splitting off an empty producer at the end is allowed (used by e.g. `take` and `skip`)
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From b0ae9532b45232cc5f5146cfd430798b09715175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 02/30] fix: do not reject collections that consist of empty
 subsets only

---
 fenris-paradis/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 1f8b7f3..b96f4ae 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,11 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then all subsets must be empty
+        debug_assert_eq!(
+            self.max_index.is_none(),
+            self.subsets.iter().all(|subset| subset.is_empty())
+        );
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From 0b764f0fbc3076a9d0a2bafb9262b2d7f87a15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 03/30] fix: reset the CG stopping criterion at the start of
 every solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..0bdfc04 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -379,6 +379,9 @@ where
             marker: PhantomData,
         };
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         let Buffers { r, z, p, Ap } = self.workspace.prepare_buffers(x.len());
 
         // r = b - Ax
-- 
2.43.0


From 42b5fcf509e9c086a860d7329b026ad6f9e3b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 04/30] fix: never put zeros on the diagonal when applying
 Dirichlet conditions to dense matrices

---
 src/assembly/global.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..0b3d806 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -465,6 +465,8 @@ where
         .map(|x| x.abs())
         .fold(T::zero(), |a, b| a + b)
         / T::from_usize(matrix.nrows()).unwrap();
+    // Make sure that the scale is non-zero even if the matrix only has zeros on the diagonal
+    let scale = if scale == T::zero() { T::one() } else { scale };
 
     for node in nodes {
         for i in 0..d {
-- 
2.43.0


From 652e87279decd805ec78c4c284b8feefae9338c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 05/30] fix: scale the tolerance of
 project_physical_coordinates and stop after 1000 iterations

---
 src/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..ec54499 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -428,8 +428,8 @@ where
     let mut jT = j.transpose();
 
     let mut iter = 0;
-    // TODO: Do we need to alter the tolerance due to the jT term?
-    while (&jT * (&f - x)).norm() > tolerance {
+    // The residual is scaled by the Jacobian, so the tolerance must be scaled accordingly
+    while (&jT * (&f - x)).norm() > tolerance * jT.norm() {
         let jTj = &jT * j;
         let lu = jTj.full_piv_lu();
         let rhs = -jT * (&f - x);
@@ -450,7 +450,7 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from("Exceeded 1000 iterations for project_physical_coordinates"));
         }
     }
 
-- 
2.43.0


From 3df92f3bafc15b8516a367b28ee70a08effbd41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 06/30] fix: build a FixedInterpolator for several points and a
 space without elements

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..6a359d4 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // there are no elements in the space, so no nodes are supported on this point
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // there are no elements in the space, so no nodes are supported on this point
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From d9f1ad81576490b01e48ffe3a7a60c70f29167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 07/30] fix: compute log det F of one-dimensional deformation
 gradients from 1 + du/dX

---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..bb492ad 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + u11
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From 900d5bb7e9b50990587b74dd2ea10f2868ba0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 08/30] fix: detect concave corners of quadrilaterals

---
 fenris-geometry/src/primitives/quad.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..a19bfc9 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -50,18 +50,22 @@ where
     T: Real,
 {
     /// Returns the index of a concave corner of the quadrilateral, if there is any.
+    ///
+    /// The vertices may be ordered either clockwise or counter-clockwise.
     pub fn concave_corner(&self) -> Option<usize> {
+        // The cross product of the diagonals is twice the signed area
+        let signed_area = (self.0[2] - self.0[0]).perp(&(self.0[3] - self.0[1]));
         for i in 0..4 {
             let x_next = self.0[(i + 2) % 4];
             let x_curr = self.0[(i + 1) % 4];
-            let x_prev = self.0[(i + 1) % 4];
+            let x_prev = self.0[i];
 
             let a = x_next - x_curr;
             let b = x_prev - x_curr;
-            // perp gives "2d cross product", which when negative means that the interior angle
-            // is creater than 180 degrees, and so the corner must be concave
-            if a.perp(&b) < T::zero() {
-                return Some(i + 1);
+            // perp gives "2d cross product", and if its sign is opposite to that of the area, the interior angle
+            // is greater than 180 degrees, and so the corner must be concave
+            if a.perp(&b) * signed_area < T::zero() {
+                return Some((i + 1) % 4);
             }
         }
 
-- 
2.43.0


From 505f962650081dd189034eae7a574c6ed619a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 09/30] fix: return an empty hexahedral mesh for zero units in
 the third direction

---
 src/mesh/procedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..58c57d4 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -223,7 +223,7 @@ pub fn create_rectangular_uniform_hex_mesh<T>(
 where
     T: Real,
 {
-    if cells_per_unit == 0 || units_x == 0 || units_y == 0 {
+    if cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 {
         HexMesh::from_vertices_and_connectivity(Vec::new(), Vec::new())
     } else {
         let mut vertices = Vec::new();
-- 
2.43.0


From 3fe46a211b87994a02743ff90d77a2b682241712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 10/30] fix: build spheres from half spaces with outward
 normals

---
 src/mesh/procedural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 58c57d4..b8ad5e9 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -421,8 +421,8 @@ pub fn create_simple_stupid_sphere(center: &Point3<f64>, radius: f64, num_sweeps
             let z = r * theta.cos();
 
             let x = Point3::new(x, y, z);
-            // Normal must point inwards
-            let n = -x.coords.normalize();
+            // Half spaces are described by their outward normal
+            let n = x.coords.normalize();
             let half_space = HalfSpace::from_point_and_normal(x, Unit::new_normalize(n));
             mesh = mesh.intersect_half_space(&half_space);
         }
-- 
2.43.0


From 1888c4752ef63ae1e7723ba1c1e955bb1eb361e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 11/30] fix: compute the volume of polyhedral meshes
 independently of face orientations

---
 fenris-geometry/src/polymesh.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..50363f3 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -553,12 +553,29 @@ where
 
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
+        // Faces may be shared by two cells, and faces created by clipping have an arbitrary orientation, so
+        // we can not rely on the orientation of faces. Since all cells are convex, we can instead
+        // add up the volumes of the pyramids that connect the faces of each cell to a point inside of the cell.
+        let mut volume = T::zero();
+        for cell in self.cell_connectivity_iter() {
+            let mut center = Vector3::zeros();
+            let mut num_vertices = T::zero();
+            for vertex in cell.iter().flat_map(|face_idx| self.face_vertices(*face_idx)) {
+                center += &vertex.coords;
+                num_vertices += T::one();
+            }
+            center /= num_vertices;
 
-        compute_polyhedron_volume_from_faces(face_iter)
+            for face_idx in cell {
+                let face = self.get_face(*face_idx).unwrap();
+                // Ignore degenerate faces
+                if face.num_vertices() > 2 {
+                    let x0 = face.get_vertex(0).unwrap();
+                    volume += face.compute_area_vector().dot(&(x0.coords - center)).abs() / 3.0;
+                }
+            }
+        }
+        volume
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From 4366eab101b4cc8934071f339b0941d2062cce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 12/30] fix: reject permutations with indices out of bounds
 instead of panicking

---
 src/mesh/reorder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..56bc64a 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,10 +119,9 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
-                return Err(InvalidPermutation { marker: PhantomData });
-            } else {
-                visited[index] = true;
+            match visited.get_mut(index) {
+                Some(visited) if !*visited => *visited = true,
+                _ => return Err(InvalidPermutation { marker: PhantomData }),
             }
         }
         Ok(Self { perm })
-- 
2.43.0


From 7c40fb8a1645b420640c6618adb4cf1ae9c5c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 13/30] fix: do not intersect segments with disks that only
 meet their line

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..5dc411c 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only outside of the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From 7fb4572a863cb577ebc59d8305c407e56ebf350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 14/30] fix: keep the vertices of clipped polygons on the edges
 they are cut from

---
 fenris-geometry/src/polytope.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 2cc654b..1091d48 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,4 +1,4 @@
-use crate::{HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
 use nalgebra::{Point2, Scalar, Unit, Vector2};
@@ -129,18 +129,13 @@ where
                 }
 
                 if (v1_contained && !v2_contained) || (!v1_contained && v2_contained) {
-                    // Edge is intersected, add vertex at intersection point
-                    let dir = (v2 - v1).normalize();
-                    let intersection_point = half_plane
-                        .surface()
-                        .intersect(&Line2d::from_point_and_dir(v1.clone(), dir))
-                        .expect(
-                            "We already know that the line must intersect the edge, \
-                             so this should work unless we have some ugly numerical \
-                             artifacts.",
-                        );
-
-                    new_vertices.push(intersection_point);
+                    // Edge is intersected, add vertex at intersection point. The signed distances of the
+                    // end points differ, because exactly one of them is contained, so that the intersection point
+                    // is always located on the edge, also if the edge is (almost) parallel to the half plane
+                    let d1 = half_plane.signed_distance_to_point(v1);
+                    let d2 = half_plane.signed_distance_to_point(v2);
+                    let edge = LineSegment2d::from_end_points(v1.clone(), v2.clone());
+                    new_vertices.push(edge.point_from_parameter(d1 / (d1 - d2)));
                 }
             }
         }
-- 
2.43.0


From 4ac588545bd4e68be2df1cd6daa9fc24ecdcc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 15/30] fix: treat polygons without vertices as empty sets, and
 bound degenerate ones

---
 fenris-geometry/src/polytope.rs        | 22 +++++++++++++---------
 fenris-geometry/src/primitives/line.rs |  3 +++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 1091d48..1d18540 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,4 +1,4 @@
-use crate::{HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{AxisAlignedBoundingBox, HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
 use nalgebra::{Point2, Scalar, Unit, Vector2};
@@ -96,14 +96,16 @@ where
 
     /// Determines if the (closed) convex polygon contains the given point.
     pub fn contains_point(&self, point: &Point2<T>) -> bool {
-        if self.is_point() {
-            self.vertices.first().unwrap() == point
-        } else if self.is_line_segment() {
-            unimplemented!()
-        } else {
-            self.half_planes()
+        // The half planes alone do not suffice to describe empty and degenerate polygons, e.g. those that remain
+        // if a half plane only touches a polygon. Together with the bounding box they do
+        let in_bounding_box = AxisAlignedBoundingBox::from_points(self.vertices())
+            .map(|bounding_box| bounding_box.contains_point(point))
+            .unwrap_or(false);
+
+        in_bounding_box
+            && self
+                .half_planes()
                 .all(|half_plane| half_plane.contains_point(point))
-        }
     }
 
     /// Computes the intersection with the current polygon and the given half plane,
@@ -146,7 +148,9 @@ where
     /// Computes the intersection of this polygon and the given convex polygon.
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Self {
         // TODO: Deal with degeneracies
-        if self.is_point() || other.is_point() {
+        if self.is_empty() || other.is_empty() {
+            ConvexPolygon::from_vertices(Vec::new())
+        } else if self.is_point() || other.is_point() {
             unimplemented!()
         } else if self.is_line_segment() {
             let segment = LineSegment2d::from_end_points(self.vertices[0], self.vertices[1]);
diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 5dc411c..03a068b 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -260,6 +260,9 @@ where
     }
 
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Option<LineSegment2d<T>> {
+        if other.is_empty() {
+            return None;
+        }
         let mut result = self.clone();
         for half_plane in other.half_planes() {
             result = result.intersect_half_plane(&half_plane)?;
-- 
2.43.0


From 15de2bd844a8683b642a492ac8f9f266c050ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 16/30] fix: refuse to convert polyhedral cells that are not
 tetrahedra

---
 src/mesh_convert.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mesh_convert.rs b/src/mesh_convert.rs
index 7942fbe..750ac78 100644
--- a/src/mesh_convert.rs
+++ b/src/mesh_convert.rs
@@ -591,6 +591,12 @@ where
                 // finding the remaining apex vertex which is not referenced by the other faces,
                 // and finally connecting the base vertices to the apex.
                 let mut base_vertices = [0; 3];
+                if cell.iter().any(|idx| get_face(*idx).len() != 3) {
+                    return Err(Box::from(format!(
+                        "Failure to convert: Cell {} has faces that are not triangles.",
+                        cell_idx
+                    )));
+                }
                 let base_face = get_face(cell[0]);
                 base_vertices.clone_from_slice(base_face);
 
@@ -613,8 +619,9 @@ where
                     let has_no_extra_vertices = face
                         .iter()
                         .all(|idx| base_vertices.contains(idx) || apex == idx);
+                    let is_duplicate = (0..i).any(|j| face.iter().all(|idx| get_face(cell[j]).contains(idx)));
 
-                    if !has_no_extra_vertices {
+                    if !has_no_extra_vertices || is_duplicate {
                         return Err(Box::from(format!(
                             "Failure to convert: The faces of cell {} do not form a \
                              tetrahedral cell.",
-- 
2.43.0


From eefca6d04546f742a8cde2592527e4d8628bab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 17/30] fix: report segments that cross the edges of a polygon
 as intersecting

---
 fenris-geometry/src/polygon.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..0256b38 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -124,7 +124,11 @@ where
         let mut intersects = false;
 
         self.for_each_edge(|edge_idx, edge| {
-            if edge.intersect_segment_parametric(segment).is_some() {
+            // The intersection parameters are unreliable for segments that are (numerically) on the same line
+            let bounds_intersect = AxisAlignedBoundingBox::from_points([edge.start(), edge.end()])
+                .zip(AxisAlignedBoundingBox::from_points(&endpoints))
+                .map_or(false, |(edge_bounds, segment_bounds)| edge_bounds.intersects(&segment_bounds));
+            if bounds_intersect && edge.intersect_segment_parametric(segment).is_some() {
                 intersects = true;
             } else {
                 for (endpoint, closest_edge, smallest_dist2) in
@@ -140,6 +144,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From b9405c447cef793c1c8bff22649a1c654293ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 18/30] fix: compute solid angles larger than pi correctly

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..a447724 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // The denominator is negative for solid angles larger than pi, so that the quadrant must be taken into account
+        2.0 * T::atan2(abc_matrix.determinant(), denominator)
     }
 }
 
-- 
2.43.0


From 961a28fd75f8383dcf8871ffc804726ab2b67c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 19/30] fix: report no gradient at the center of an
 axis-aligned box

---
 fenris-geometry/src/sdf.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fenris-geometry/src/sdf.rs b/fenris-geometry/src/sdf.rs
index bd535d3..66dfe46 100644
--- a/fenris-geometry/src/sdf.rs
+++ b/fenris-geometry/src/sdf.rs
@@ -165,7 +165,6 @@ where
             dx[i] = h;
             gradient[i] = (self.eval(&(x + dx)) - self.eval(&(x - dx))) / (2.0 * h)
         }
-        gradient.normalize_mut();
-        Some(gradient)
+        gradient.try_normalize(T::zero())
     }
 }
-- 
2.43.0


From fe7802ad528ab9593e5c9a017277d3ca84e7c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 20/30] fix: do not report success of Newton's method for a
 residual that is not a number

---
 fenris-optimize/src/newton.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..8f2b857 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -97,7 +97,8 @@ where
 
     let mut iter = 0;
 
-    while f.norm() > settings.tolerance {
+    // Note: a residual that is not a number has not converged
+    while !(f.norm() <= settings.tolerance) {
         if settings
             .max_iterations
             .map(|max_iter| iter == max_iter)
@@ -126,6 +127,13 @@ where
             .map_err(|err| NewtonError::LineSearchError(err))?;
         debug!("Newton step length at iter {}: {}", iter, step_length);
         iter += 1;
+
+        let residual = f.norm();
+        if residual.partial_cmp(&residual).is_none() {
+            return Err(NewtonError::LineSearchError(Box::from(
+                "The residual is not a number after the step.",
+            )));
+        }
     }
 
     Ok(iter)
-- 
2.43.0


From baea45c3eb1d36adfce318d0d6e46035eed318f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 21/30] fix: refuse Gmsh files with unsupported or dangling
 node tags

---
 src/io/msh.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..43074dd 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -96,9 +96,18 @@ where
         ));
     }
 
+    // Vertices are indexed by their position in the file, which only corresponds to the
+    // node tags used by the elements if the numbering of the nodes starts at 1
+    if msh_nodes.min_node_tag != 1 {
+        return Err(eyre!(
+            "node tags start at {} in msh file (only node tags starting at 1 are supported)",
+            msh_nodes.min_node_tag
+        ));
+    }
+
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity = connectivity_from_element_block(element_block, vertices.len())?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +163,10 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    num_vertices: usize,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,6 +191,15 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
+            for node_tag in &element.nodes {
+                if *node_tag < 1 || *node_tag > num_vertices as u64 {
+                    return Err(eyre!(
+                        "element refers to node {}, but the msh file only contains {} nodes",
+                        node_tag,
+                        num_vertices
+                    ));
+                }
+            }
             connectivity.push(C::try_connectivity_from_msh_element(element)?);
         }
 
@@ -193,11 +214,7 @@ where
     I: mshio::MshIntT,
 {
     element_block.element_type == C::msh_element_type()
-        && element_block
-            .entity_dim
-            .to_usize()
-            .expect("failed to convert element block dimension to usize")
-            == C::reference_dim()
+        && element_block.entity_dim.to_usize() == Some(C::reference_dim())
 }
 
 macro_rules! f_to_t {
-- 
2.43.0


From f4028bc8d333f4455115a421ee369d01f3f57e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 22/30] fix: export Quad9 cells as biquadratic quads to VTK

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From aaf553f1c5bcbbfa0617ae788af1c14c258a838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 23/30] fix: do not panic when dumping matrices without columns

---
 src/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..22d3900 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -333,9 +333,11 @@ pub fn dump_matrix_to_file<'a, T: Scalar + Display>(
 
     let matrix = matrix.into();
     for i in 0..matrix.nrows() {
-        write!(writer, "{}", matrix[(i, 0)])?;
-        for j in 1..matrix.ncols() {
-            write!(writer, " {}", matrix[(i, j)])?;
+        for j in 0..matrix.ncols() {
+            if j > 0 {
+                write!(writer, " ")?;
+            }
+            write!(writer, "{}", matrix[(i, j)])?;
         }
         writeln!(writer)?;
     }
-- 
2.43.0


From b1a0f90f7b6121cea7488c46ffaefe03865ae9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 24/30] fix: correct signs of the Hessian in analytic polar
 decomposition

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 22d3900..da49d3d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -196,9 +196,9 @@ pub fn apd<T: Real>(
         let h00 = B1[1] + B2[2];
         let h11 = B0[0] + B2[2];
         let h22 = B0[0] + B1[1];
-        let h01 = (B1[0] + B0[1]) * 0.5;
-        let h02 = (B2[0] + B0[2]) * 0.5;
-        let h12 = (B2[1] + B1[2]) * 0.5;
+        let h01 = (B1[0] + B0[1]) * -0.5;
+        let h02 = (B2[0] + B0[2]) * -0.5;
+        let h12 = (B2[1] + B1[2]) * -0.5;
 
         let detH =
             -(h02 * h02 * h11) + (h01 * h02 * h12) * 2.0 - (h00 * h12 * h12) - (h01 * h01 * h22) + (h00 * h11 * h22);
-- 
2.43.0


From 128bac88415b3e3efe574151836bdabba1fe256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 25/30] fix: condition number of matrices with negative
 eigenvalues

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index da49d3d..61dbd0b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -469,15 +469,16 @@ where
         Allocator<T, D, D> + Allocator<T, DimDiff<D, U1>> + Allocator<T, D> + Allocator<T, DimDiff<D, U1>>,
 {
     use std::cmp::Ordering;
+    // The eigenvalues may be negative, so we need to compare their magnitudes
     let (min, max) = matrix
         .symmetric_eigenvalues()
         .into_iter()
-        .cloned()
+        .map(|eigenvalue| eigenvalue.abs())
         .minmax_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less))
         .into_option()
         .expect("Currently don't support empty matrices");
 
-    max.abs() / min.abs()
+    max / min
 }
 
 /*
-- 
2.43.0


From e186f13c8d7fa5da0930468e04883334c7b03dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 26/30] fix: assert_approx_matrix_eq rejects matrices that
 differ in a NaN

---
 util/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/src/lib.rs b/util/src/lib.rs
index 405c67c..6b1095f 100644
--- a/util/src/lib.rs
+++ b/util/src/lib.rs
@@ -9,8 +9,8 @@ macro_rules! assert_approx_matrix_eq {
     ($x:expr, $y:expr, abstol = $tol:expr) => {{
         let diff = $x - $y;
 
-        let max_absdiff = diff.abs().max();
-        let approx_eq = max_absdiff <= $tol;
+        // Compare each entry separately, since the maximum ignores NaNs
+        let approx_eq = diff.abs().iter().all(|absdiff| *absdiff <= $tol);
 
         if !approx_eq {
             println!("abstol: {:e}", $tol);
-- 
2.43.0


From 125b5b84284d21b65384b630e75bbb6d9d7b7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 27/30] fix: generated non-degenerate segments stay
 non-degenerate when simplified

---
 fenris-geometry/src/proptest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-geometry/src/proptest.rs b/fenris-geometry/src/proptest.rs
index c2b5174..d615aa4 100644
--- a/fenris-geometry/src/proptest.rs
+++ b/fenris-geometry/src/proptest.rs
@@ -157,7 +157,7 @@ pub fn clockwise_triangle2d_strategy_f64() -> impl Strategy<Value = Triangle2d<f
 
 pub fn nondegenerate_line_segment2d_strategy_f64() -> impl Strategy<Value = LineSegment2d<f64>> {
     // Make sure to construct the second point from non-zero components
-    let gen = prop_oneof![0.5..3.5, -0.5..3.5, 1e-6..10.0, -10.0..-1e-6];
+    let gen = prop_oneof![0.5..3.5, -3.5..-0.5, 1e-6..10.0, -10.0..-1e-6];
     (point2(), gen.clone(), gen).prop_map(|(a, x, y)| {
         let d = Vector2::new(x, y);
         let b = a + d;
-- 
2.43.0


From 08e9cc855a5f13f3689c39311d1c0ee6d38ffdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 28/30] fix: clear old output contents when applying sparse
 operators

---
 fenris-sparse/src/cg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 0bdfc04..d49801a 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -45,6 +45,8 @@ where
     T: Scalar + Zero + One + ClosedMul + ClosedAdd,
 {
     fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
+        // spmm_csr_dense multiplies y by beta even if beta is zero, so that NaN or infinite entries would persist
+        y.fill(T::zero());
         spmm_csr_dense(T::zero(), &mut y, T::one(), Op::NoOp(self), Op::NoOp(&x));
         Ok(())
     }
-- 
2.43.0


From ba8aa7f959ad1d3b1a79d30b4d686d1c1768fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 29/30] fix: compute the gradient of the distance to a box
 independently of its size

---
 fenris-geometry/src/sdf.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/fenris-geometry/src/sdf.rs b/fenris-geometry/src/sdf.rs
index 66dfe46..a8f7973 100644
--- a/fenris-geometry/src/sdf.rs
+++ b/fenris-geometry/src/sdf.rs
@@ -156,15 +156,21 @@ where
 
     #[replace_float_literals(T::from_f64(literal).expect("Literal must fit in T"))]
     fn gradient(&self, x: &Point2<T>) -> Option<Vector2<T>> {
-        // TODO: Replace finite differences with "proper" gradient
-        // Note: arbitrary "step"/resolution h
-        let h = 1e-4;
-        let mut gradient = Vector2::zeros();
-        for i in 0..2 {
-            let mut dx = Vector2::zeros();
-            dx[i] = h;
-            gradient[i] = (self.eval(&(x + dx)) - self.eval(&(x - dx))) / (2.0 * h)
-        }
-        gradient.try_normalize(T::zero())
+        let b = self.aabb.extents() / 2.0;
+        let p = x - self.aabb.center();
+        let d = p.abs() - b;
+        let i = d.imax();
+        let gradient = if d[i] > 0.0 {
+            // Outside: away from the closest point of the box
+            p.zip_map(&d, |p_i, d_i| p_i.signum() * d_i.max(0.0))
+        } else {
+            // Inside: towards the closest side
+            let mut gradient = Vector2::zeros();
+            if p[i] != 0.0 {
+                gradient[i] = p[i].signum();
+            }
+            gradient
+        };
+        gradient.try_normalize(0.0)
     }
 }
-- 
2.43.0


From aea951fc80007766ee468d96e8d5183752357270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 30/30] fix: make analytic polar decomposition independent of
 the scale of the matrix

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 61dbd0b..daaf052 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -219,7 +219,8 @@ pub fn apd<T: Real>(
         omega *= factor;
 
         // if det(H) = 0 use gradient descent, never happened in our tests, could also be removed
-        if detH.abs() < 1.0e-9 {
+        // (relative to the size of F, since det(H) is cubic in F)
+        if detH.abs() <= 1.0e-9 * F.norm().powi(3) {
             omega = -gradient;
         }
 
-- 
2.43.0

