From ea2cb7e08184c55361019f87e4930d65a8602d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 01/57] fix: refuse impossible block counts instead of looping
 forever

---
 src/mesh/Mesh.cc            | 13 ++++++++++---
 src/mesh/block_partition.cc |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..38d62f4 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3384,9 +3384,16 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   std::array<double, 6> iarray0 = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
   std::vector<std::array<double, 6>> blocklimits(num_parts, iarray0);
 
-  block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
-                               &(num_cells_in_dir[0]), num_parts,
-                               &block_start_indices, &block_num_cells);
+  int ok = block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
+                                        &(num_cells_in_dir[0]), num_parts,
+                                        &block_start_indices,
+                                        &block_num_cells);
+  if (!ok) {
+    std::cerr << "Cannot divide the mesh into " << num_parts << " blocks. " <<
+        "Partitioning by entity IDs\n";
+    get_partitioning_by_index_space(num_parts, partitions);
+    return;
+  }
   
   std::array<double, 3> szdelta;
   for (int d = 0; d < space_dim_; d++)
diff --git a/src/mesh/block_partition.cc b/src/mesh/block_partition.cc
index e4e3bc6..ef8bf49 100644
--- a/src/mesh/block_partition.cc
+++ b/src/mesh/block_partition.cc
@@ -89,7 +89,8 @@ int block_partition_regular_mesh(int const dim,
   int ncells_total = 1;
   for (int i = 0; i < dim; i++)
     ncells_total *= num_cells_in_dir[i];
-  assert (num_blocks_requested <= ncells_total);
+  if (num_blocks_requested < 1 || num_blocks_requested > ncells_total)
+    return 0;  // no such partitioning exists
     
   
   if (num_blocks_requested > 1) {
-- 
2.43.0


From 69a0585a6ad3b6bce6f7fe526708492ab1f4efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 02/57] fix: compute 1D cylindrical volumes and areas

---
 src/geometry/Geometry.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..9e54e0c 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -464,6 +464,9 @@
     if (my_geom_type == Geom_type::CARTESIAN) {
       *volume = norm(ccoords[1]-ccoords[0]);
       *centroid = 0.5*(ccoords[1]+ccoords[0]);
+    } else if (my_geom_type == Geom_type::CYLINDRICAL) {
+      *volume = M_PI*(pow(ccoords[1].x(), 2) - pow(ccoords[0].x(), 2));
+      *centroid = 0.5*(ccoords[1]+ccoords[0]);
     } else if (my_geom_type == Geom_type::SPHERICAL) {
       *volume = 4.0*M_PI*(pow(ccoords[1].x(), 3) -
                           pow(ccoords[0].x(), 3)) / 3.0;
@@ -476,6 +479,8 @@
                        double *area) {
     if (my_geom_type == Geom_type::CARTESIAN) {
       *area = 1.0;
+    } else if (my_geom_type == Geom_type::CYLINDRICAL) {
+      *area = 2.0*M_PI*fcoords[0].x();
     } else if (my_geom_type == Geom_type::SPHERICAL) {
       *area = 4.0*M_PI*pow(fcoords[0].x(), 2);
     }
-- 
2.43.0


From 598531c89eea4bd353aa57e7fd7376de049753c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 03/57] fix: sign of a tetrahedron's volume follows its faces,
 not the vertex order

---
 src/geometry/Geometry.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 9e54e0c..92a5a7a 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -99,10 +99,13 @@
       if (np == 4) {  // is a tetrahedron
 
         *centroid = (ccoords[0]+ccoords[1]+ccoords[2]+ccoords[3])/4.0;
-        v1 = ccoords[1]-ccoords[0];
-        v2 = ccoords[2]-ccoords[0];
-        v3 = ccoords[3]-ccoords[0];
-        *volume = (v1^v2)*v3;
+        // the sign must come from the orientation of the faces because
+        // the vertices are in no particular order; the tet formed by any
+        // face and the centroid has a quarter of the volume
+        v1 = fcoords[0]-(*centroid);
+        v2 = fcoords[1]-(*centroid);
+        v3 = fcoords[2]-(*centroid);
+        *volume = 4.0*((v1^v2)*v3);
 
       } else {  // if (np > 4), polyhedron with possibly curved faces
 
-- 
2.43.0


From 11ec479c46c4bc7483731957a716bbc9be74df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 04/57] fix: label the area of an inverted 2D triangle negative
 like other polygons

---
 src/geometry/Geometry.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 92a5a7a..a37a084 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -315,6 +315,11 @@
 
         (*normal) = 0.5*v1^v2;
 
+        // As for other polygons, a 2D triangle is inverted if the
+        // cross-product is negative
+        if (dim == 2 && (*normal)[0] <= 0.0)
+          negvol = true;
+
         (*area) = norm(*normal);
         (*centroid) = center;
       } else {
-- 
2.43.0


From d214672af3ce81a0c6d273d6388567430d54dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 05/57] fix: step over triangular faces in point_in_polyhed

---
 src/geometry/Geometry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index a37a084..f11b5d0 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -259,9 +259,9 @@
 
           }  // for each edge of face
 
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
       }  // for each face
 
       return true;
-- 
2.43.0


From 33b9de0788a74c1a3770099f085224066424cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 06/57] fix: project a polygon region along its dominant normal
 component whatever its sign

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..bad2d77 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -144,8 +144,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From e3d1c9ac637f161e6693e2821133faaaa3382ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 07/57] fix: end points of a 2D polygon region belong to it in
 spite of rounding

---
 src/geometry/PolygonRegion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index bad2d77..0e92d48 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -206,7 +206,8 @@ PolygonRegion::inside(const Point& p) const
     double dp = vec0*vec1;
 
     // projection of vec0 along segment lies inside the segment
-    if (dp >= 0 && dp <= slen) {
+    // (up to the tolerance used for the distance below)
+    if (dp >= -1.0e-08 && dp <= slen + 1.0e-08) {
 
       // projected point along line segment
       Point p1 = points_[0] + dp*vec1;
-- 
2.43.0


From b3b8ad6779dc16b98c46bec3df2d365ce3d904c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 08/57] fix: normal of a polygon region that starts with
 collinear points

---
 src/geometry/PolygonRegion.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 0e92d48..c169414 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -118,6 +118,9 @@ void PolygonRegion::init() {
     Point vec0 = points_[2]-points_[1];
     Point vec1 = points_[0]-points_[1];
     normal_ = vec0^vec1;
+    // add the other corners since the first three points may be collinear
+    for (int i = 3; i < num_points_; i++)
+      normal_ += (points_[i-1]-points_[0])^(points_[i]-points_[0]);
     normal_ /= norm(normal_);
 
 #ifdef DEBUG
-- 
2.43.0


From 8a19ee0c4930b803a8af8e9d88a5921ce17ef2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 09/57] fix: allow building a Domain from lists of models and
 regions

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From ecb91dabbb3bb4e3ffdf3da4c0c0b0b90c32978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 10/57] fix: copies of logical and labeled set regions keep
 their parameters

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 src/geometry/LogicalRegion.cc    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From d6d729eb64a34e18927ec027010c390a21cc0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 11/57] fix: one exception behavior for the whole program
 instead of one per source file

---
 src/error_handling/exceptions.cc | 5 +++++
 src/error_handling/exceptions.hh | 7 +------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..d8d99b0 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -50,6 +50,11 @@
 
 #include <sstream>
 
+namespace {
+// The one behavior in effect throughout the program
+Exceptions::Exception_action behavior = Exceptions::RAISE;
+}
+
 namespace Exceptions {
 
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..9d76980 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -74,18 +74,13 @@ template <typename E> void Jali_throw(const E& exception);
 }  // namespace Exceptions
 
 
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
 namespace Exceptions {
 
 // Either raise the given exception or abort, depending on the value of behavior.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (exception_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From 407668e27b193a6c4f66733dc4eef7efe629db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 12/57] fix: names and validity of entity types were off by one

---
 src/mesh/MeshDefs.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..14203f8 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -174,7 +174,7 @@ const int NUM_ENTITY_TYPES = 6;
 inline
 bool valid_entity_type(const Entity_type type) {
   int itype = static_cast<int>(type);
-  return (itype >= 0 && itype < NUM_ENTITY_TYPES);
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES-1);  // TYPE_UNKNOWN is -1
 }
 
 // Return a string describing the entity kind that can be printed out
@@ -186,7 +186,8 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
   int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  return (itype >= -1 && itype < NUM_ENTITY_TYPES-1) ?
+      type_str[itype+1] : "";  // TYPE_UNKNOWN is -1
 }
 
 
-- 
2.43.0


From 7aafdb9681e8deea3cd56791746392792dfb9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 13/57] fix: scaling a point in place by one of its own
 coordinates

---
 src/geometry/Point.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Point.hh b/src/geometry/Point.hh
index 75e323f..e161c29 100644
--- a/src/geometry/Point.hh
+++ b/src/geometry/Point.hh
@@ -156,11 +156,11 @@ class Point {
     for (int i = 0; i < d; i++) xyz[i] -= p[i];
     return *this;
   }
-  Point& operator*=(const double& c) {
+  Point& operator*=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] *= c;
     return *this;
   }
-  Point& operator/=(const double& c) {
+  Point& operator/=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] /= c;
     return *this;
   }
-- 
2.43.0


From e1407c5a297212cc910c2727f27c0bbfa19ba3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 14/57] fix: faces of a node of a generated block name the xz
 and yz faces

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..8e2c0ee 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From 128371c9abf367681b31b829227a50c7c2e9a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 15/57] fix: generated meshes return no entities when ghosts
 are asked for

---
 src/mesh/mesh_simple/Mesh_simple.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 8e2c0ee..57a834f 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -793,6 +793,8 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
   unsigned int ncells = node_to_cell_[offset];
 
   cellids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
@@ -807,6 +809,8 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
   unsigned int nfaces = node_to_face_[offset];
 
   faceids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
@@ -823,6 +827,8 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
   unsigned int offset = (unsigned int) faces_per_cell_*cellid;
 
   faceids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
@@ -848,6 +854,8 @@ void Mesh_simple::face_get_cells_internal(const Jali::Entity_ID faceid,
   unsigned int offset = (unsigned int) 2*faceid;
 
   cellids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   if (face_to_cell_[offset] != -1)
     cellids->push_back(face_to_cell_[offset]);
@@ -874,6 +882,8 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
   unsigned int offset = (unsigned int) faces_per_cell_*cellid;
 
   fadj_cellids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
@@ -904,6 +914,8 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
   unsigned int offset = (unsigned int) nodes_per_cell_*cellid;
 
   nadj_cellids->clear();
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;  // a serial mesh has no ghosts
 
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
-- 
2.43.0


From 3f5728926c14860d08887e7cbdef36356807b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 16/57] fix: edge normals of surface meshes use the cell centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 38d62f4..3566555 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1335,7 +1335,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
 
         assert(found);
 
-        JaliGeometry::Point cellcen;
+        JaliGeometry::Point cellcen(space_dim_);
         std::vector<JaliGeometry::Point> ccoords;
         cell_get_coordinates(cellids[i], &ccoords);
 
-- 
2.43.0


From b8921d07897b9c3769e5675e0788c0c405d39418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 17/57] fix: the centroid of a face of a 1D mesh is its node

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3566555..5d3ab97 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1365,6 +1365,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From 36adf900e3c81e86a3ebd616f2dd9c046f83d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 18/57] fix: define Mesh::wedge_get_side

---
 src/mesh/Mesh.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..54f3f39 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2074,6 +2074,12 @@ Entity_ID Mesh::wedge_get_cell(const Entity_ID wedgeid) const {
   return side_get_cell(sideid);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(wedges_requested);
+  return static_cast<Entity_ID>(wedgeid/2);
+}
+
 inline
 Entity_ID Mesh::wedge_get_face(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From ee41c406503152f284e86d43e271268e4b3219f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 19/57] fix: sides of 1D meshes have positive volumes and
 outward normals in every geometry

---
 src/mesh/Mesh.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 5d3ab97..f394a40 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1520,6 +1520,13 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       // should point out of zone and have area of face
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0) *
           4.0 * M_PI * pow(scoords[0][0], 2);
+    } else if (geomtype == JaliGeometry::Geom_type::CYLINDRICAL) {
+      *side_volume = M_PI * fabs(pow(scoords[1][0], 2) -
+                                 pow(scoords[0][0], 2));
+
+      // should point out of zone and have area of face
+      *outward_facet_normal = -vec0/JaliGeometry::norm(vec0) *
+          2.0 * M_PI * scoords[0][0];
     } else if (geomtype == JaliGeometry::Geom_type::CARTESIAN) {
       *side_volume = JaliGeometry::norm(vec0);
 
@@ -1527,19 +1534,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
     
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
-
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
   }
-- 
2.43.0


From f4f19d08bcc8507d1eaa0e6dd73ca214b20a3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 20/57] fix: order the coordinates of 1D wedges by the end of
 the cell they are at

---
 src/mesh/Mesh.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index f394a40..65a8e23 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1939,13 +1939,17 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // they will give a +ve volume, we have to reverse the coordinate
   // order for odd numbered wedges. This follows by the convention
   // used for retrieving side coordinates and for the numbering of
-  // wedges.
-
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
-      std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
+  // wedges. In 1D, it depends on which end of the cell the wedge is at.
+
+  if (posvol_order) {
+    if (manifold_dim_ == 1) {
+      Entity_ID_List cnodes;
+      cell_get_nodes(c, &cnodes);
+      if (n == cnodes[1])
+        std::swap((*wcoords)[0], (*wcoords)[1]);
+    } else if (wedgeid%2) {
       std::swap((*wcoords)[1], (*wcoords)[2]);
+    }
   }
 }  // wedge_get_coordinates
 
-- 
2.43.0


From 74ac865ba793eb668e03c2c8a50c04c2ad5708aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 21/57] fix: clear the facets of a 1D corner before filling
 them

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 65a8e23..4ffd5b6 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2195,6 +2195,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
+  facetpoints->clear();
   facetpoints->push_back({{0}});
   facetpoints->push_back({{1}});
 }
-- 
2.43.0


From b71d39b214589fb3b6269b06fd834e7896df856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 22/57] fix: coordinates of a 2D corner at a reflex node

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 4ffd5b6..aa7b1a9 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2238,7 +2238,7 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
     // Make sure we got the coordinates in the right orientation
 
     JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
+    JaliGeometry::Point vec1 = (*pointcoords)[2] - (*pointcoords)[0];
     JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
 
     // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-- 
2.43.0


From 16e08a99dbb3d0d7f3388495f7d47f23519670d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 23/57] fix: the common facet of 2D wedges runs from the edge
 centre to the cell centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index aa7b1a9..82e0f0b 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1500,7 +1500,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From f84acb53b02d2399eda9051d39541a03e2e551fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 24/57] fix: recompute the facet normals of sides when the
 geometry is updated

---
 src/mesh/Mesh.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 82e0f0b..1b0a4db 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1101,17 +1101,9 @@ int Mesh::compute_edge_geometric_quantities() const {
 int Mesh::compute_side_geometric_quantities() const {
   side_volumes.resize(num_sides());
 
-  // Cannot use resize for the facet normals because we cannot tell
-  // the initialization operator what the dimensionality of the points
-  // will be, unless we can write a statement like this
-  //
-  //  wedge_facet_normals0.resize(nwedges, Point(3));
-  //
-  // It is also unclear that this is good to do because it will cause
-  // a copy operator to be triggered for each element (?)
-
-  side_outward_facet_normal.reserve(num_sides());
-  side_mid_facet_normal.reserve(num_sides());
+  side_outward_facet_normal.resize(num_sides(),
+                                   JaliGeometry::Point(space_dim_));
+  side_mid_facet_normal.resize(num_sides(), JaliGeometry::Point(space_dim_));
 
   JaliGeometry::Point outward_facet_normal(space_dim_);
   JaliGeometry::Point mid_facet_normal(space_dim_);
@@ -1125,8 +1117,8 @@ int Mesh::compute_side_geometric_quantities() const {
                             &(outward_facet_normal),
                             &(mid_facet_normal));
     }
-    side_outward_facet_normal.push_back(outward_facet_normal);
-    side_mid_facet_normal.push_back(mid_facet_normal);
+    side_outward_facet_normal[s] = outward_facet_normal;
+    side_mid_facet_normal[s] = mid_facet_normal;
   }
 
   side_geometry_precomputed = true;
-- 
2.43.0


From 9edb21ab57f08cb76833110f0f63e224e145512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 25/57] fix: keep the lists and the index map of a mesh set
 consistent when entities are added or removed

---
 src/mesh/MeshSet.cc | 175 ++++++++++----------------------------------
 src/mesh/MeshSet.hh |   5 ++
 2 files changed, 44 insertions(+), 136 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..417885e 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -104,164 +104,67 @@ MeshSet::MeshSet(std::string const& name,
 // Add entity to meshset (no check for duplicates)
 
 void MeshSet::add_entity(Entity_ID const& mesh_entity) {
-  Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-
-  if (etype == Entity_type::PARALLEL_OWNED) {
-    int nowned_old = entityids_owned_.size();
-
-    entityids_owned_.push_back(mesh_entity);
-    entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
-
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
-
-  } else if (etype == Entity_type::PARALLEL_GHOST) {
-
-    entityids_ghost_.push_back(mesh_entity);
-
-    entityids_all_.push_back(mesh_entity);
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = entityids_all_.size()-1;
-
-  } else
-    return;  // Doesn't make sense to add any other type like BOUNDARY_GHOST
-
+  add_entities(std::vector<Entity_ID>(1, mesh_entity));
 }
 
 
 // Remove entity from meshset (PREFERABLY USE rem_entities)
 
 void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
-  Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    int size;
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      size = entityids_owned_.size();
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-1];  // replace mesh_entity with last entry
-        entityids_owned_.resize(size-1);
-      }
-    } else if (etype == Entity_type::PARALLEL_GHOST) {
-      size = entityids_ghost_.size();
-      auto const& it = std::find(entityids_ghost_.begin(),
-                                 entityids_ghost_.end(), mesh_entity);
-      if (it != entityids_ghost_.end()) {
-        *it = entityids_ghost_[size-1];  // replace mesh_entity with last entry
-        entityids_ghost_.resize(size-1);
-      }
-    }
-    else
-      return;  // No other type like BOUNDARY_GHOST can be part of set
-
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
-
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
-  }
+  rem_entities(std::vector<Entity_ID>(1, mesh_entity));
+}
 
 
 // Add a group of entities to meshset (no check for duplicates)
 
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
-  int nowned_old = entityids_owned_.size();
-  int nghost_old = entityids_ghost_.size();
-  int nall = in_entities.size();
-  int nowned = 0;
-  int nghost = 0;
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED)
-      nowned++;
+      entityids_owned_.push_back(mesh_entity);
     else if (etype == Entity_type::PARALLEL_GHOST)
-      nghost++;
-  }
-  if (nall == nowned)
-    entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
-                            in_entities.end());
-  else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
-                            in_entities.end());
-  else
-    for (auto const& mesh_entity : in_entities)
-      add_entity(mesh_entity);
-  
-  // entityids_all should always have owned entities first and ghost
-  // entities last - so we can't just put in entities at the end -
-  // we have to make a new list with the updated owned and ghost
-  // entities and concatenate them (if there are any ghosts)
-  
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
-
-  if (have_reverse_map_) {  // have to update mesh to subset map
-    // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
-      mesh2subset_[entityids_all_[i]] = i;
+      entityids_ghost_.push_back(mesh_entity);
+    // Doesn't make sense to add any other type like BOUNDARY_GHOST
   }
+
+  update_all_entities();
 }
 
 
 // Remove a group of entities from a subset
 
 void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
-  // Replace each to-be-removed entry with an entry from the end of
-  // the list.  Then shrink the lists.
-  
-  int size = entityids_owned_.size();
-  int ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-ndel-1];
-        ndel++;
-      }
-    }
-  }
-  entityids_owned_.resize(size-ndel);
-  
-  size = entityids_ghost_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
-      *it = entityids_ghost_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_ghost_.resize(size-ndel);
-  
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  auto to_be_removed = [&in_entities](Entity_ID const& ent) {
+    return std::find(in_entities.begin(), in_entities.end(), ent) !=
+        in_entities.end();
+  };
+
+  entityids_owned_.erase(std::remove_if(entityids_owned_.begin(),
+                                        entityids_owned_.end(),
+                                        to_be_removed),
+                         entityids_owned_.end());
+  entityids_ghost_.erase(std::remove_if(entityids_ghost_.begin(),
+                                        entityids_ghost_.end(),
+                                        to_be_removed),
+                         entityids_ghost_.end());
+
+  update_all_entities();
+}
+
+
+// Make the list of all entities (owned entities first, ghost entities
+// last) and the map from mesh entities to set entities (if there is
+// one) consistent with the lists of owned and ghost entities
+
+void MeshSet::update_all_entities() {
+  // Entities that are no longer in the set have no index in it
+  if (have_reverse_map_)
+    for (auto const& mesh_entity : entityids_all_)
+      mesh2subset_[mesh_entity] = -1;
+
+  entityids_all_ = entityids_owned_;
+  entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                        entityids_ghost_.end());
 
   if (have_reverse_map_) {
     int nall = entityids_all_.size();
diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index f64991f..055fff4 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -298,6 +298,11 @@ class MeshSet {
              bool temporary);
  private:
 
+  /// @brief Rebuild list of all entities and the map from mesh entities
+  /// to set entities after a change to the owned or ghost entities
+
+  void update_all_entities();
+
   // Data
 
   std::string name_;
-- 
2.43.0


From 6bff2aaab32918b0aed4515fe8897c57c49044e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 26/57] fix: complement of mesh sets takes its ghost members
 from the ghost entities of the mesh

---
 src/mesh/MeshSet.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 417885e..597edac 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -408,22 +408,24 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
 
   std::shared_ptr<MeshSet> setunion = merge(inpsets, true);
 
-  Entity_ID_List owned_list;
+  Entity_ID_List owned_list, ghost_list;
   owned_list.reserve(nent_owned - setunion->entityids_owned_.size());
-  for (int ent = 0; ent < nent_owned; ent++)
-    if (std::find(setunion->entityids_owned_.begin(),
-                  setunion->entityids_owned_.end(),
-                  ent) == setunion->entityids_owned_.end())
-      owned_list.push_back(ent);
-  
-  Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
-    if (std::find(setunion->entityids_ghost_.begin(),
-                  setunion->entityids_ghost_.end(),
-                  ent) == setunion->entityids_ghost_.end())
+
+  int nent_all = set0->mesh_.num_entities(set0->kind_, Entity_type::ALL);
+  for (int ent = 0; ent < nent_all; ent++) {
+    if (std::find(setunion->entityids_all_.begin(),
+                  setunion->entityids_all_.end(),
+                  ent) != setunion->entityids_all_.end())
+      continue;
+
+    Entity_type etype = set0->mesh_.entity_get_type(set0->kind_, ent);
+    if (etype == Entity_type::PARALLEL_OWNED)
+      owned_list.push_back(ent);
+    else if (etype == Entity_type::PARALLEL_GHOST)
       ghost_list.push_back(ent);
-  
+  }
+
   std::string newname = "NOT_(" + setunion->name_ + ")";
   
   // If this set has the reverse map, then the result has it too
-- 
2.43.0


From 8b7d322f14a35dfbd37b34535a29be81322c77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 27/57] fix: subtract mesh sets when the list of sets to
 subtract is empty or repeats the first set

---
 src/mesh/Mesh.cc    |  7 +++----
 src/mesh/MeshSet.cc | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 1b0a4db..097cad9 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2997,10 +2997,9 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
-      mset = subtract(msets[0], msets1, temporary);      
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
+      mset = subtract(msets[0], msets1, temporary);
     }
 
     // While building logical meshsets, the resulting meshset name reflects
diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 597edac..30ffcfe 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -283,6 +283,21 @@ subtract(std::shared_ptr<MeshSet> const& set0,
     assert(set0->kind_ == set->kind_);
   }
 
+  // Nothing to subtract
+  if (subtractsets.empty()) {
+    bool build_reverse_map = set0->mesh2subset_.size() ? true : false;
+    std::string newname = "(" + set0->name_ + ")";
+    if (temporary)
+      return std::make_shared<MeshSet>(newname, set0->mesh_, set0->kind_,
+                                       set0->entityids_owned_,
+                                       set0->entityids_ghost_,
+                                       build_reverse_map);
+    else
+      return make_meshset(newname, set0->mesh_, set0->kind_,
+                          set0->entityids_owned_, set0->entityids_ghost_,
+                          build_reverse_map);
+  }
+
   // Make a temporary union of all the sets to be subtracted
   std::shared_ptr<MeshSet> setunion = merge(subtractsets, true);
 
-- 
2.43.0


From 17fc4d9994b8b70286e698437811aeb35cd490b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 28/57] fix: a union of one region must not rename the set of
 that region

---
 src/mesh/Mesh.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 097cad9..f3a7fb9 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2992,8 +2992,15 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
 
     if (boolregion->operation() == JaliGeometry::Bool_type::COMPLEMENT)
       mset = complement(msets, temporary);
-    else if (boolregion->operation() == JaliGeometry::Bool_type::UNION)
-      mset = merge(msets, temporary);
+    else if (boolregion->operation() == JaliGeometry::Bool_type::UNION) {
+      if (msets.size() == 1) {
+        // the union of one set is that very set - make a copy so that
+        // the set of the component region keeps its own name
+        mset = std::make_shared<MeshSet>(*(msets[0]));
+        if (!temporary) add_set(mset);
+      } else
+        mset = merge(msets, temporary);
+    }
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-- 
2.43.0


From 6d4535ba3334092290128c8f5defcfd520e47557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 29/57] fix: look in all cells, not just those of the closest
 node, for a point region

---
 src/mesh/Mesh.cc | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index f3a7fb9..2f49835 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2686,34 +2686,12 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
-
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
-
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        int ncells = Mesh::num_entities(Entity_kind::CELL, Entity_type::ALL);
+        for (int icell = 0; icell < ncells; icell++) {
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-- 
2.43.0


From c2bbd6ab949cbbe19add1e925b95769cc38b987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 30/57] fix: recognise scoped entity kinds of labeled set
 regions in valid_region_name

---
 src/mesh/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 2f49835..7040c90 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2513,6 +2513,11 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        // The type may be given with its scope (e.g. "Entity_kind::CELL")
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos)
+          entity_type = entity_type.substr(pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0


From 6f7fd5ab72193ad077669371321389aff4e922fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 31/57] fix: build the missing sets of a region of which the
 set of cells exists already

---
 src/mesh/Mesh.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 7040c90..84fea33 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2395,10 +2395,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2439,8 +2435,12 @@ void Mesh::init_sets_from_geometric_model(
         }
       }
 
+      // Some or all of the sets may already be there (e.g. because they
+      // were needed for the set of a logical region)
+
       for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+        if (!find_meshset(rgn->name(), entity_kind))
+          build_set_from_region(rgn->name(), entity_kind, false);
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From 80cde2a42ca1cbfb3476881e093aeb3df114d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 32/57] fix: honour the entity kind of labeled sets nested in
 logical regions

---
 src/mesh/Mesh.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 84fea33..12e77bd 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2415,9 +2415,19 @@ void Mesh::init_sets_from_geometric_model(
             (JaliGeometry::LogicalRegionPtr) rgn;
         std::vector<std::string> region_names = boolregion->component_regions();
 
-        for (std::string & regname : region_names) {
-          JaliGeometry::RegionPtr rgn1 = geometric_model_->FindRegion(regname);
+        // component regions may be logical regions in turn, so the list
+        // of regions to look at can grow along the way
+
+        for (std::size_t r = 0; r < region_names.size(); ++r) {
+          JaliGeometry::RegionPtr rgn1 =
+              geometric_model_->FindRegion(region_names[r]);
           assert(rgn1);
+          if (rgn1->type() == JaliGeometry::Region_type::LOGICAL) {
+            std::vector<std::string> names1 =
+                ((JaliGeometry::LogicalRegionPtr) rgn1)->component_regions();
+            region_names.insert(region_names.end(), names1.begin(),
+                                names1.end());
+          }
           if (rgn1->type() == JaliGeometry::Region_type::LABELEDSET) {
             entity_kinds.clear();
             
-- 
2.43.0


From cd4d2bd257d19e892eaef91d0fb9e21481d2ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 33/57] fix: build cell sets of logical regions in
 two-dimensional models

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 12e77bd..2912b22 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2400,7 +2400,7 @@ void Mesh::init_sets_from_geometric_model(
       if (it != region_to_entity_kinds_map.end())
         entity_kinds = it->second;
       else {
-        if (rgn->dimension() == gdim)
+        if (rgn->dimension() >= gdim)
           entity_kinds.push_back(Entity_kind::CELL);
         if (faces_requested && rgn->dimension() >= gdim-1)
           entity_kinds.push_back(Entity_kind::FACE);
-- 
2.43.0


From 61e8fb251380d333c99e0252aee6a95654efed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 34/57] fix: tile ghosts of a set are not only those that are
 ghosts of the compute node

---
 src/mesh/MeshTile.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..d346258 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -347,6 +347,8 @@ std::shared_ptr<MeshTile> make_meshtile(Mesh& parent_mesh,
 
 
 //! Get list of tile entities of type 'kind' and 'type' in set ('setname')
+//! The type is that of the entity in the tile - a ghost entity of the
+//! tile may well be owned on this compute node
 
 void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
                                 const Entity_type type,
@@ -382,7 +384,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +409,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +434,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +459,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +484,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +510,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +535,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From 27666d66713f964a3134923bff7559c1d5fefad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 35/57] fix: list the sides of a tile when sides but no wedges
 are requested

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index d346258..f6af49e 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides || request_wedges) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From 5842defe2141ac227699b2a0adedac158d6900bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 36/57] fix: partition irregular meshes by index space when
 blocks do not cover them

---
 src/mesh/Mesh.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 2912b22..61be864 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3297,7 +3297,8 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   }
   if (!found) {
     std::cerr << "This is not a regular mesh - cannot partition using " <<
-        "Partitioner_type::BLOCK\n";
+        "Partitioner_type::BLOCK. Partitioning by entity IDs\n";
+    get_partitioning_by_index_space(num_parts, partitions);
     return;
   }
 
@@ -3349,7 +3350,9 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
             } else {
               std::cerr << "Reached a boundary but it does not match the " <<
                   "high boundary of the domain in this direction! " <<
-                  "Mesh may not be a regular mesh\n";
+                  "Mesh may not be a regular mesh. " <<
+                  "Partitioning by entity IDs\n";
+              get_partitioning_by_index_space(num_parts, partitions);
               return;
             }
           }
@@ -3358,7 +3361,9 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
 
       if (!next_face_found && !done) {
         std::cerr << "Could not find the next face and cell along direction " <<
-            d << ". Mesh may not be a regular mesh\n";
+            d << ". Mesh may not be a regular mesh. " <<
+            "Partitioning by entity IDs\n";
+        get_partitioning_by_index_space(num_parts, partitions);
         return;
       }
     }
@@ -3399,6 +3404,7 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   
   for (auto const& c : cells<Entity_type::PARALLEL_OWNED>()) {
     JaliGeometry::Point ccen = cell_centroid(c);
+    bool found_block = false;
     for (int i = 0; i < num_parts; i++) {
       bool inside = true;
       for (int d = 0; d < space_dim_; d++) {
@@ -3408,9 +3414,19 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
       }
       if (inside) {
         ((*partitions)[i]).push_back(c);
+        found_block = true;
         break;
       }
     }
+    if (!found_block) {
+      // cells are not regularly spaced
+      std::cerr << "Could not find the block of a cell. Mesh may not be a " <<
+          "regular mesh. Partitioning by entity IDs\n";
+      for (int i = 0; i < num_parts; i++)
+        (*partitions)[i].clear();
+      get_partitioning_by_index_space(num_parts, partitions);
+      return;
+    }
   }
 
   // Sanity check - make sure each block got the number of cells it
-- 
2.43.0


From f1d421ecad36a33b4e57fa9165a8fcde6ce9e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 37/57] fix: default sets of a region are only of the kinds its
 type supports

---
 src/mesh/Mesh.cc | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 61be864..59f9269 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2343,6 +2343,24 @@ Entity_type Mesh::entity_get_type(const Entity_kind kind,
   }
 }
 
+// Can build_set_from_region make a set of entities of this kind for a
+// region of this type?  (labeled sets have an entity kind of their own and
+// the sets of logical regions depend on those of their components)
+
+static bool region_type_supports_kind(JaliGeometry::Region_type const rtype,
+                                      Entity_kind const kind) {
+  switch (rtype) {
+    case JaliGeometry::Region_type::COLORFUNCTION:
+      return (kind == Entity_kind::CELL);
+    case JaliGeometry::Region_type::POINT:
+      return (kind != Entity_kind::FACE);
+    case JaliGeometry::Region_type::POLYGON:
+      return (kind != Entity_kind::CELL);
+    default:
+      return true;
+  }
+}
+
 // Initialize mesh sets from regions (default behavior for all cells)
 
 void Mesh::init_sets_from_geometric_model() {
@@ -2406,6 +2424,21 @@ void Mesh::init_sets_from_geometric_model(
           entity_kinds.push_back(Entity_kind::FACE);
         entity_kinds.push_back(Entity_kind::NODE);
       }
+      bool default_kinds = (it == region_to_entity_kinds_map.end());
+
+      // Of the default kinds, keep only those that make sense for a region
+
+      auto drop_unsupported_kinds = [&](JaliGeometry::RegionPtr r) {
+        entity_kinds.erase(
+            std::remove_if(entity_kinds.begin(), entity_kinds.end(),
+                           [&r](Entity_kind const& kind) {
+                             return !region_type_supports_kind(r->type(), kind);
+                           }),
+            entity_kinds.end());
+      };
+
+      if (default_kinds)
+        drop_unsupported_kinds(rgn);
 
       if (rgn->type() == JaliGeometry::Region_type::LOGICAL) {
         // If the logical region combines a labeled set, then we can only
@@ -2442,6 +2475,8 @@ void Mesh::init_sets_from_geometric_model(
 
             break;
           }
+          if (default_kinds)
+            drop_unsupported_kinds(rgn1);
         }
       }
 
-- 
2.43.0


From a77382cc20f3a8daf3b9b9c135859536ffe00213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 38/57] fix: geometry of 3D cells when the faces of the mesh
 are not requested

---
 src/mesh/Mesh.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 59f9269..5de82c2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1155,7 +1155,11 @@ int Mesh::compute_cell_geometry(const Entity_ID cellid, double *volume,
     std::vector<dir_t> fdirs;
     std::vector<JaliGeometry::Point> ccoords, cfcoords, fcoords;
 
-    cell_get_faces_and_dirs(cellid, &cfaces, &fdirs);
+    // (also if the faces of the mesh have not been requested)
+    if (cell2face_info_cached)
+      cell_get_faces_and_dirs(cellid, &cfaces, &fdirs);
+    else
+      cell_get_faces_and_dirs_internal(cellid, &cfaces, &fdirs, false);
 
     int nf = cfaces.size();
     nfnodes.resize(nf);
-- 
2.43.0


From 7dc1d06ca793e4debcddfeac6213b3d36e6a53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 39/57] fix: size the graph handed to METIS by its edges, not
 by the faces of the mesh (which may not be there)

---
 src/mesh/Mesh.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 5de82c2..c1cc49f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3216,24 +3216,18 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
   int ncells_all = num_cells<Entity_type::ALL>();
-  int nfaces_all = num_faces<Entity_type::ALL>();
   idx_t *xadj = new idx_t[ncells_all+1];  // offset indicator into adjacency
   //                                      // array - overallocate
-  idx_t *adjncy = new idx_t[2*nfaces_all];  // adjacency array (nbrs of a cell)
-  //                                        // - overallocate
+  std::vector<idx_t> adjncy;  // adjacency array (nbrs of a cell)
   xadj[0] = 0;  // starting offset
-  int ipos = 0;
   int i = 0;
   Entity_ID_List nbrcells;
   for (auto const& c : cells<Entity_type::PARALLEL_OWNED>()) {
     cell_get_face_adj_cells(c, Entity_type::PARALLEL_OWNED, &nbrcells);
     for (auto const& nbr : nbrcells)
-      adjncy[ipos++] = nbr;
-    xadj[++i] = ipos;
+      adjncy.push_back(nbr);
+    xadj[++i] = adjncy.size();
   }
-  if (ipos > 2*nfaces_all)
-    std::cerr << "Mesh::get_partitioning - Wrote past end of adjncy array" <<
-        "Expand adjncy array or expect crashes\n";
 
   // Partition the graph
 
@@ -3256,11 +3250,11 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   metisopts[METIS_OPTION_NUMBERING] = 0;   // Indicate C style numbering
 
   if (num_parts <= 8)
-    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
+    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy.data(), vwt, vsize,
                              adjwt, &nparts, tpwts, ubvec,
                              metisopts, &nedgecut, idxpart);
   else
-    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
+    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj, adjncy.data(), vwt, vsize,
                         adjwt, &nparts, tpwts, ubvec, metisopts,
                         &nedgecut, idxpart);
 
@@ -3270,7 +3264,6 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   }
 
   delete [] xadj;
-  delete [] adjncy;
   delete [] idxpart;
 }
 
-- 
2.43.0


From 071e5da42816d9a1d11c02eca4ff2ca16731029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 40/57] fix: do not walk across faces that were not requested
 when partitioning by blocks

---
 src/mesh/Mesh.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c1cc49f..6fdf0bd 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3284,6 +3284,15 @@ void Mesh::get_partitioning_with_zoltan(int const num_parts,
 
 void Mesh::get_partitioning_by_blocks(int const num_parts,
                                       std::vector<std::vector<int>> *partitions) {
+  // The blocks are found by walking from cell to cell across faces
+
+  if (!faces_requested) {
+    std::cerr << "Faces are needed to partition using " <<
+        "Partitioner_type::BLOCK. Partitioning by entity IDs\n";
+    get_partitioning_by_index_space(num_parts, partitions);
+    return;
+  }
+
   // Figure out the domain limits
 
   std::vector<double> domainlimits(2*space_dim_);
-- 
2.43.0


From b06dceb0716da393f9304a407f09fcfafc08d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 41/57] fix: index under which state vectors are listed by
 entity kind (was one too small)

---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..ac21aeb 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From 9bbdf7a318ea45bbd3ff9c1b913633a66b000878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 42/57] fix: find the index of an entity in mesh sets that have
 no reverse map (sets made from regions)

---
 src/mesh/MeshSet.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index 055fff4..939def3 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -223,7 +223,12 @@ class MeshSet {
   /// @brief check if mesh entity index is in meshset
 
   Entity_ID index_in_set(Entity_ID const& mesh_entity) const {
-    return (mesh2subset_.size() ? mesh2subset_[mesh_entity] : -1);
+    if (mesh2subset_.size()) return mesh2subset_[mesh_entity];
+
+    // No map from mesh entities to set entities - have to search
+    auto it = std::find(entityids_all_.begin(), entityids_all_.end(),
+                        mesh_entity);
+    return (it != entityids_all_.end()) ? it - entityids_all_.begin() : -1;
   }
   
   /// @brief add entity to meshset (no check for duplicates)
-- 
2.43.0


From 7e8e93a9b36929154b38453b96e2cca9f903311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 43/57] fix: renumber the materials of cells when a material is
 removed

---
 src/statemanager/JaliState.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..e617550 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -104,12 +105,15 @@ void State::rem_material(int m) {
   if (!matset) return;
 
   for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+    std::vector<int>& cmats = cell_materials_[c];
+    cmats.erase(std::remove(cmats.begin(), cmats.end(), m), cmats.end());
   }
 
+  // Materials after the one being removed move up by one
+  for (auto & cmats : cell_materials_)
+    for (auto & cm : cmats)
+      if (cm > m) --cm;
+
   material_cellsets_.erase(material_cellsets_.begin()+m);
 
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
-- 
2.43.0


From dd96229aeb5fee703e67a2aea4197d9bc40df04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 44/57] fix: keep cells, material lists and multi-material
 vectors together when cells are added to materials

Cells that a material already has (or that are given twice) were added
again, cells of an existing mesh set were left out of the material lists of
the cells, values of ghost cells were shifted to other cells and vectors on
mesh tiles were not updated (or made the program crash).
---
 src/statemanager/JaliState.cc      | 106 ++++++++++++++++++++++-------
 src/statemanager/JaliStateVector.h |  10 +++
 2 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index e617550..f44597c 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -49,12 +49,67 @@
 #include <algorithm>
 #include <cassert>
 #include <memory>
+#include <set>
+#include <vector>
 
 #include "JaliState.h"
 #include "JaliStateVector.h"
 
 namespace Jali {
 
+namespace {
+
+// Apply an operation to each multi-material vector (defined on a mesh
+// or a mesh tile) in a list of state vectors
+
+template <class Operation>
+void for_each_multi(std::vector<std::shared_ptr<StateVectorBase>> const& vecs,
+                    Operation const& op) {
+  for (auto const& sv : vecs) {
+    if (sv->type() != StateVector_type::MULTIVAL) continue;
+
+    auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
+    auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+    if (mv)
+      op(mv.get());
+    else if (tv)
+      op(tv.get());
+  }
+}
+
+struct AddMaterial {
+  int ncells;
+  template <class V> void operator()(V *mv) const { mv->add_material(ncells); }
+};
+
+struct RemMaterial {
+  int m;
+  template <class V> void operator()(V *mv) const { mv->rem_material(m); }
+};
+
+struct AddEntries {
+  int m;
+  size_t pos;
+  size_t num;
+  template <class V> void operator()(V *mv) const {
+    mv->add_entries(m, pos, num);
+  }
+};
+
+// The cells in the list (without repetitions) that are not in the set
+
+std::vector<int> cells_not_in_set(std::vector<int> const& cells,
+                                  MeshSet const& set) {
+  std::set<int> known(set.entities().begin(), set.entities().end());
+  std::vector<int> newcells;
+  for (auto const& c : cells)
+    if (known.insert(c).second) newcells.push_back(c);
+  return newcells;
+}
+
+}  // namespace
+
+
 // Add new material to the state
 
 void State::add_material(std::string const& matname,
@@ -76,7 +131,8 @@ void State::add_material(std::string const& matname,
                           owned_entities, ghost_entities, with_reverse_map);
   }
 
-  matset->add_entities(matcells);
+  // The set may already have some of these cells
+  matset->add_entities(cells_not_in_set(matcells, *matset));
 
   material_cellsets_.push_back(matset);
 
@@ -84,16 +140,12 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
-  for (auto &sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
-    }
-  }
+  int ncells = matset->entities().size();
+  for_each_multi(state_vectors_, AddMaterial{ncells});
 }
 
 // Remove material from the state -- EXPENSIVE (CAN JUST MAKE SET EMPTY)
@@ -117,30 +169,36 @@ void State::rem_material(int m) {
   material_cellsets_.erase(material_cellsets_.begin()+m);
 
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
-  for (auto &sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->rem_material(m);
-    }
-  }
+  for_each_multi(state_vectors_, RemMaterial{m});
 }
 
 /// Add cells to a material
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
+  MeshSet& matset = *(material_cellsets_[m]);
 
-  for (auto const& c : cells)
-    cell_materials_[c].push_back(m);
+  size_t nowned_old = matset.entities<Entity_type::PARALLEL_OWNED>().size();
+  size_t nall_old = matset.entities().size();
 
-  for (auto & sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
-    }
-  }
+  matset.add_entities(cells_not_in_set(cells, matset));
+
+  size_t nowned = matset.entities<Entity_type::PARALLEL_OWNED>().size();
+  size_t nall = matset.entities().size();
+  size_t nnew_owned = nowned - nowned_old;
+  size_t nnew_ghost = nall - nall_old - nnew_owned;
+  if (nall == nall_old) return;
+
+  // The new owned cells are behind the old owned cells and the new
+  // ghost cells are behind the old ghost cells of the material
+
+  for (size_t i = nowned_old; i < nowned; i++)
+    cell_materials_[matset.entities()[i]].push_back(m);
+  for (size_t i = nall_old + nnew_owned; i < nall; i++)
+    cell_materials_[matset.entities()[i]].push_back(m);
+
+  for_each_multi(state_vectors_, AddEntries{m, nall_old, nnew_ghost});
+  for_each_multi(state_vectors_, AddEntries{m, nowned_old, nnew_owned});
 }
 
 /// Remove cells from a material
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..d9405c9 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -566,6 +566,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Clear out data for a material
   virtual void clear(int m) = 0;
 
+  /// Add a number of entries to a particular material array at a position
+  virtual void add_entries(int m, size_t pos, size_t num) = 0;
+
   /// Add a material and its entries to the vector
   virtual void add_material(int ncells) = 0;
 
@@ -942,6 +945,13 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[m].resize(newsize, val);
   }
 
+  /// Add a number of entries to a particular material array at a position
+  void add_entries(int m, size_t pos, size_t num) {
+    std::vector<T>& matdata = (*mydata_)[m];
+    if (pos > matdata.size()) pos = matdata.size();
+    matdata.insert(matdata.begin()+pos, num, T());
+  }
+
   /// Clear out all the data
   void clear() { mydata_->clear(); }
 
-- 
2.43.0


From 5996bef456950d2f0ecf805b8014f7a9e42f493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 45/57] fix: do not export vectors to the mesh that do not have
 a value for each of its entities

Vectors on mesh tiles made the program crash and the mesh read past the end
of vectors that are only on some types of entities.
---
 src/statemanager/JaliState.cc | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index f44597c..11a7fbf 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -280,6 +280,19 @@ void State::init_from_mesh() {
 }  // init_from_mesh
 
 
+// Fields on a mesh have a value for every entity of a kind, so vectors
+// on some other domain (which cannot be cast to vectors on a mesh) and
+// vectors on only some of the entities cannot be stored with the mesh
+
+template <class T>
+static bool can_store(std::shared_ptr<Mesh> const& mesh,
+                      std::shared_ptr<UniStateVector<T>> const& vec) {
+  return (vec && vec->domain() == mesh &&
+          vec->size() == mesh->num_entities(vec->entity_kind(),
+                                            Entity_type::ALL));
+}
+
+
 //! \brief Export field data to mesh
 //! Export data from state vectors to mesh fields - Since the statevector is
 //! templated, we have to go through case by case to see if the type matches
@@ -299,22 +312,27 @@ void State::export_to_mesh() {
     if (vec->type() == StateVector_type::UNIVAL) {
       if (vec->data_type() == typeid(double)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (can_store(mymesh_, svec))
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(int)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<int>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (can_store(mymesh_, svec))
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 2>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 2>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (can_store(mymesh_, svec))
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 3>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 3>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (can_store(mymesh_, svec))
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 6>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 6>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (can_store(mymesh_, svec))
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       }
     }
 
-- 
2.43.0


From 942475feecc845475330aba9a7d93f9d3757b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 46/57] fix: recognize that a vector copied from another mesh
 is already in the state

---
 src/statemanager/JaliState.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index ac21aeb..9e47642 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1350,9 +1350,12 @@ class State : public std::enable_shared_from_this<State> {
     Entity_kind kind = in_vec.entity_kind();
     Entity_type type = in_vec.entity_type();
 
-    iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
-                                                    type);
+    // Vectors from another mesh are copied to a vector on our mesh
+    std::shared_ptr<DomainType> domain = in_vec.domain();
+    if (mymesh_.get() != &(in_vec.mesh())) domain = mymesh_;
+
+    iterator it = find<T, DomainType, StateVecType>(in_vec.name(), domain,
+                                                    kind, type);
     if (it == end()) {
 
       std::shared_ptr<StateVecType<T, DomainType>> vector_copy;
-- 
2.43.0


From 663b84983689dfc07ca31c5dda67bb74a80cf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 47/57] fix: default constructor of multi-material vectors and
 type of the shared data of vectors (did not compile)

---
 src/statemanager/JaliStateVector.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index d9405c9..6bb4269 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -392,7 +392,7 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get a shared pointer to the data
 
-  std::shared_ptr<T> get_data() { return mydata_; }
+  std::shared_ptr<std::vector<T>> get_data() { return mydata_; }
 
   /// Type of data
 
@@ -632,11 +632,7 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
 
   //! Default constructor
   MultiStateVector() :
-      MultiStateVectorBase<DomainType>("UninitializedVector",
-                                       nullptr,
-                                       nullptr,
-                                       Entity_kind::UNKNOWN_KIND,
-                                       Entity_type::TYPE_UNKNOWN) {}
+      MultiStateVectorBase<DomainType>() {}
 
   /*!
     @brief Meaningful constructor with data
-- 
2.43.0


From 547168f256dc29263bc494f59687756cd80ee62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 48/57] fix: reset the request for sides with the other options
 of the mesh factory

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 950e0713c1bc0c72abcc7a3827ade0eb3751d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 49/57] fix: report that a framework cannot generate 2D meshes
 instead of returning no mesh

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..472f062 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -429,6 +429,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From 44435cc29a2981468eb22a039439dd055a8d1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 50/57] fix: make 1D meshes with the number of cells and the
 extent requested (last cell was missing)

---
 src/mesh/mesh_factory/MeshFactory.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..bd2b32d 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -338,7 +338,9 @@ class MeshFactory {
     double dX = (x1-x0)/((double)nx);
     double myX = x0;
 
-    std::vector<double> x(nx);
+    // nodes at the ends of the cells (no nodes, which gets refused, if
+    // no cells were requested)
+    std::vector<double> x(nx > 0 ? nx+1 : 0);
     for (auto it = x.begin(); it != x.end(); it++) {
       *it = myX;
       myX += dX;
-- 
2.43.0


From 0bf0a5a14e3db9deb3103c342685769622ba207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 51/57] fix: refuse 1D meshes with node coordinates that do not
 increase

---
 src/mesh/mesh_factory/MeshFactory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 472f062..32edf87 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include "MeshFactory.hh"
 #include "Geometry.hh"
 
@@ -477,6 +478,8 @@ MeshFactory::create(std::vector<double> const& x) {
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
   double delta = x.back() - x.front();
+  for (int i = 1; i < x.size(); i++)
+    delta = std::min(delta, x[i] - x[i-1]);
   if (delta <= 0.0) {
     ierr = 1;
     std::stringstream mesgstream;
-- 
2.43.0


From 0e97324eb5de0e85f263703b7ec86fbf2b604418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 52/57] fix: keep the geometric model given for a 1D mesh

---
 src/mesh/mesh_simple/Mesh_simple.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 57a834f..d5b12e0 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -148,6 +148,8 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
        partitioner, geom_type, mycomm) {
   set_space_dimension(1);
   set_manifold_dimension(1);
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
 
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
-- 
2.43.0


From 9e20ecf98a45eaff96c648433d94f0dfa828696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 53/57] fix: refuse boundary ghosts in the simple mesh in all
 build types

---
 src/mesh/mesh_simple/Mesh_simple.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index d5b12e0..c2ab6de 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -82,7 +82,10 @@ Mesh_simple::Mesh_simple(double x0, double y0, double z0,
        num_ghost_layers_distmesh, boundary_ghosts_requested,
        partitioner, JaliGeometry::Geom_type::CARTESIAN, mycomm) {
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested) {  // Cannot yet make boundary ghosts
+    Errors::Message mesg("Simple mesh cannot make boundary ghosts");
+    Exceptions::Jali_throw(mesg);
+  }
 
   Mesh::set_mesh_type(Mesh_type::RECTANGULAR);
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
@@ -151,7 +154,10 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
     Mesh::set_geometric_model(gm);
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested) {  // Cannot yet make boundary ghosts
+    Errors::Message mesg("Simple mesh cannot make boundary ghosts");
+    Exceptions::Jali_throw(mesg);
+  }
 
   clear_internals_1d_();
   update_internals_1d_();
-- 
2.43.0


From 9042f1c0fe3a1e4e931a776f7fee6ee20f3970e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 54/57] fix: do not report MSTK as available in builds without
 it

---
 src/mesh/mesh_factory/MeshFactory.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 32edf87..31a43e8 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -91,10 +91,16 @@ std::string framework_name(MeshFramework_t const& f) {
 
 /// Check if a framework is available for use
 bool framework_available(MeshFramework_t const& f) {
-  if (f == Simple || f == MSTK)
-    return true;
-  else
-    return false;
+  switch (f) {
+    case Simple:
+      return true;
+#ifdef HAVE_MSTK_MESH
+    case MSTK:
+      return true;
+#endif
+    default:
+      return false;
+  }
 }
 
 /// Check if a framework can generate a mesh
-- 
2.43.0


From d9f2a42cc9e53c555ad15121fa5137e7de08a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:07 +0000
Subject: [PATCH 55/57] fix: recompute volumes and normals of sides, wedges and
 corners from current node positions

---
 src/mesh/Mesh.cc | 38 ++++++++++++++++++++++----------------
 src/mesh/Mesh.hh |  9 ++++++---
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6fdf0bd..79d7f23 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1425,7 +1425,8 @@ int Mesh::compute_edge_geometry(const Entity_ID edgeid, double *edge_length,
 void Mesh::compute_side_geometry(Entity_ID const sideid,
                                  double *side_volume,
                                  JaliGeometry::Point *outward_facet_normal,
-                                 JaliGeometry::Point *mid_facet_normal) const {
+                                 JaliGeometry::Point *mid_facet_normal,
+                                 const bool recompute) const {
   if (manifold_dim_ == 3) {
     std::vector<JaliGeometry::Point> scoords;
 
@@ -1436,7 +1437,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // node 1, the triangle formed by node 0, node 1 and face center
     // will have a normal point inward.
 
-    side_get_coordinates(sideid, &scoords);
+    side_get_coordinates(sideid, &scoords, false, recompute);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1] - scoords[0];
@@ -1475,7 +1476,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     //
     // These are always - node coordinate, edge/face center, cell center
 
-    side_get_coordinates(sideid, &scoords);
+    side_get_coordinates(sideid, &scoords, false, recompute);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1505,7 +1506,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     //
     // These are always - node coordinate and cell center
 
-    side_get_coordinates(sideid, &scoords);
+    side_get_coordinates(sideid, &scoords, false, recompute);
 
     // vector from node to cell center
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1537,7 +1538,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
 
 void Mesh::compute_corner_geometry(const Entity_ID cornerid,
-                                   double *volume) const {
+                                   double *volume,
+                                   const bool recompute) const {
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
 
@@ -1545,7 +1547,7 @@ void Mesh::compute_corner_geometry(const Entity_ID cornerid,
   Entity_ID_List::iterator itw = cwedges.begin();
   while (itw != cwedges.end()) {
     Entity_ID w = *itw;
-    *volume += wedge_volume(w);
+    *volume += wedge_volume(w, recompute);
     ++itw;
   }
 }  // compute corner geometry
@@ -1606,7 +1608,7 @@ double Mesh::side_volume(const Entity_ID sideid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return side_volume;
   } else {
     return side_volumes[sideid];
@@ -1625,7 +1627,7 @@ double Mesh::wedge_volume(const Entity_ID wedgeid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return side_volume/2.0;
   } else {
     return side_volumes[sideid]/2.0;
@@ -1641,7 +1643,7 @@ double Mesh::corner_volume(const Entity_ID cornerid,
 
   if (recompute) {
     double volume;
-    compute_corner_geometry(cornerid, &volume);
+    compute_corner_geometry(cornerid, &volume, recompute);
     return volume;
   } else {
     return corner_volumes[cornerid];
@@ -1836,10 +1838,14 @@ JaliGeometry::Point Mesh::edge_centroid(const Entity_ID edgeid) const {
 //
 // By default the coordinates are returned in fixed order
 // (posvol_order = false)
+//
+// If recompute is TRUE, then the face and cell centers are recalculated
+// using current node coordinates
 
 void Mesh::side_get_coordinates(const Entity_ID sideid,
                                 std::vector<JaliGeometry::Point> *scoords,
-                                bool posvol_order) const {
+                                bool posvol_order,
+                                const bool recompute) const {
   assert(sides_requested);
 
   if (manifold_dim_ == 3) {
@@ -1851,10 +1857,10 @@ void Mesh::side_get_coordinates(const Entity_ID sideid,
     node_get_coordinates(n1, &((*scoords)[1]));
 
     Entity_ID f = side_get_face(sideid);
-    (*scoords)[2] = face_centroid(f);
+    (*scoords)[2] = face_centroid(f, recompute);
 
     Entity_ID c = side_get_cell(sideid);
-    (*scoords)[3] = cell_centroid(c);
+    (*scoords)[3] = cell_centroid(c, recompute);
 
   } else if (manifold_dim_ == 2) {
 
@@ -1866,7 +1872,7 @@ void Mesh::side_get_coordinates(const Entity_ID sideid,
     node_get_coordinates(n1, &((*scoords)[1]));
 
     Entity_ID c = side_get_cell(sideid);
-    (*scoords)[2] = cell_centroid(c);
+    (*scoords)[2] = cell_centroid(c, recompute);
 
   } else if (manifold_dim_ == 1) {
 
@@ -1875,7 +1881,7 @@ void Mesh::side_get_coordinates(const Entity_ID sideid,
     node_get_coordinates(n0, &((*scoords)[0]));
 
     Entity_ID c = side_get_cell(sideid);
-    (*scoords)[1] = cell_centroid(c);
+    (*scoords)[1] = cell_centroid(c, recompute);
   }
 
   // In 2D and 3D, the natural order of coordinates of a side will
@@ -1969,7 +1975,7 @@ JaliGeometry::Point Mesh::side_facet_normal(const int sideid,
         mid_facet_normal(space_dim_);
     
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return outward_facet_normal;
   } else {
     return side_outward_facet_normal[sideid];
@@ -2003,7 +2009,7 @@ JaliGeometry::Point Mesh::wedge_facet_normal(const int wedgeid,
         mid_facet_normal(space_dim_);
         
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     if (which_facet == 0)
       return outward_facet_normal/2.0;  // wedge facet area = 1/2 side facet
     else
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 54f3f39..721139f 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -791,7 +791,8 @@ class Mesh {
 
   void side_get_coordinates(const Entity_ID sideid,
                             std::vector<JaliGeometry::Point> *scoords,
-                            bool posvol_order = false) const;
+                            bool posvol_order = false,
+                            const bool recompute = false) const;
 
   //! Coordinates of wedge
   //!
@@ -1293,10 +1294,12 @@ class Mesh {
   void compute_side_geometry(const Entity_ID sideid,
                              double *volume,
                              JaliGeometry::Point *outward_facet_normal,
-                             JaliGeometry::Point *mid_facet_normal) const;
+                             JaliGeometry::Point *mid_facet_normal,
+                             const bool recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
-                              double *volume) const;
+                              double *volume,
+                              const bool recompute = false) const;
 
   void cache_type_info() const;
   void cache_cell2face_info() const;
-- 
2.43.0


From 29564b89e1a7ad3788e802f731d277edfd82d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 56/57] fix: report a missing region instead of crashing when a
 mesh has no geometric model

---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 79d7f23..97532aa 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2709,9 +2709,9 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
   // Is there an appropriate region by this name?
 
   JaliGeometry::GeometricModelPtr gm = Mesh::geometric_model();
-  JaliGeometry::RegionPtr region = gm->FindRegion(setname);
+  JaliGeometry::RegionPtr region = gm ? gm->FindRegion(setname) : NULL;
 
-  // Did not find the region
+  // Did not find the region (or there is no geometric model to find it in)
 
   if (region == NULL) {
     std::stringstream mesg_stream;
-- 
2.43.0


From 261c2786a7f685a37fd795103ce10de7c0cc8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 57/57] fix: refuse a logical region of sets that cannot be
 built instead of using a missing set

---
 src/mesh/Mesh.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 97532aa..f97634a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3008,7 +3008,10 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
           Mesh::find_meshset(region_names[r], kind);
       if (!mset1)
         mset1 = build_set_from_region(region_names[r], kind, with_reverse_map);
-      assert(mset1);
+      if (!mset1) {
+        Errors::Message mesg("Cannot build a set of the requested kind of entity from region " + region_names[r]);
+        Exceptions::Jali_throw(mesg);
+      }
       msets.push_back(mset1);
     }
 
-- 
2.43.0

