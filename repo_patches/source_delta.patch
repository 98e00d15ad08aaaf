From d12556a6ad1dd50349b2c608f0d5349a9662fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 01/57] fix: shell::resize allocates one contact output per rib

---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From ea7c4d6003c5897a2b7ffe260119835d7324af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 02/57] fix: shell::setup on flat ground reports contact of any
 rib, not only of the last one

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..37c6bcd 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..37c6bcd 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From 4be3d1544d4722cb5c7f4037cab0ca295c7b3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 03/57] fix: mesh box queries map boxes to triangles by
 position, not by user identifier

---
 src/mesh.cc         | 7 ++++---
 toolbox/src/mesh.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..7541d13 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -517,9 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // The box carries the position of the triangle, not its identifier
+        std::shared_ptr<aabb> bbox = std::make_shared<aabb>(this->m_triangles[i]->bbox());
+        bbox->id() = integer(i);
+        this->m_bboxes.push_back(bbox);
       }
     }
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..7541d13 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -517,9 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // The box carries the position of the triangle, not its identifier
+        std::shared_ptr<aabb> bbox = std::make_shared<aabb>(this->m_triangles[i]->bbox());
+        bbox->id() = integer(i);
+        this->m_bboxes.push_back(bbox);
       }
     }
 
-- 
2.43.0


From b12a18652cd7914cad9535c9cde7039992c7948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 04/57] fix: shell bounding box encloses the tyre shoulders in
 every attitude

---
 src/shell.cc         | 3 ++-
 toolbox/src/shell.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 37c6bcd..ba145e7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // Half diagonal of the shell, which encloses its shoulders in every attitude
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 37c6bcd..ba145e7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // Half diagonal of the shell, which encloses its shoulders in every attitude
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
-- 
2.43.0


From b4c2b695d309af841558f7a934dcf3f541153691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 05/57] fix: chord of a disk is found whatever the length of
 the line, ray or segment direction

---
 toolbox/src/intersection.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..0198bb5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2011,11 +2011,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       return false;
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       point int_point(line_origin - (a1 * inv) * line_direction);
       segment_out.vertex(0) = int_point;
@@ -2087,11 +2087,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = 1 / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0))
@@ -2218,11 +2218,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0) || t > real(1.0))
-- 
2.43.0


From 6b685bf2b44b66c25e5eb3779939b452c833f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 06/57] fix: geometric enveloping of a chord crossing the rear
 of the rib's reference frame

---
 src/rib.cc         | 5 ++++-
 toolbox/src/rib.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..a959a97 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -261,9 +261,12 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        // The sector of a chord is never larger than a straight angle
+        if(t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..a959a97 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -261,9 +261,12 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        // The sector of a chord is never larger than a straight angle
+        if(t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
-- 
2.43.0


From 61eb35c9e1cfe6292a2b05a7e4cbb639d48e033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 07/57] fix: geometric enveloping never divides by a null
 contact volume

---
 src/rib.cc         | 4 +++-
 toolbox/src/rib.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index a959a97..ddd5e65 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -308,7 +308,9 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    // (pieces pointing to the rib center enclose no volume to weight the results with)
+    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE) &&
+        segment_volume_tot > real(1000.0) * EPSILON_MACHINE * radius * radius * width)
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index a959a97..ddd5e65 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -308,7 +308,9 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    // (pieces pointing to the rib center enclose no volume to weight the results with)
+    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE) &&
+        segment_volume_tot > real(1000.0) * EPSILON_MACHINE * radius * radius * width)
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From 2bf247f38f9e171edfa7c966b244e9f4598078d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 08/57] fix: a degenerate piece no longer hides the following
 triangles from a rib

---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index ddd5e65..b0c7039 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -274,7 +274,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index ddd5e65..b0c7039 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -274,7 +274,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 2e8378e5047d15263650f8217a7591ce8ed5ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 09/57] fix: line through a triangle vertex is clipped instead
 of throwing

---
 toolbox/src/intersection.cc | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0198bb5..e754fa5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1959,28 +1959,15 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
-      {
-        segment_out.vertex(0) = point1;
-        segment_out.vertex(1) = point2;
-        return true;
-      }
-      else if (point1.isApprox(point2, tolerance))
-      {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
-      }
-      else if (point0.isApprox(point2, tolerance))
-      {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
-      }
-      else
-      {
-        ACME_ERROR(CMD "exception not handled.")
-      }
+      // The line passes through a vertex, which is hit twice: keep the two distinct points
+      real distance01 = (point0 - point1).norm();
+      real distance12 = (point1 - point2).norm();
+      real distance02 = (point0 - point2).norm();
+      segment_out.vertex(0) = point0;
+      segment_out.vertex(1) = point1;
+      if (distance01 <= distance12 && distance01 <= distance02)
+        {segment_out.vertex(0) = point2;}
+      return true;
     }
     else
     {
-- 
2.43.0


From 9745ae610704b36a2ddd730475d57811de437276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 10/57] fix: flat contact normal is well defined when the rib
 center lies on the ground

---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index b0c7039..9df0ef7 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -359,7 +359,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
+      normal_tmp   = (normal_grd.cross(ground.normal())).normalized();
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index b0c7039..9df0ef7 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -359,7 +359,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
+      normal_tmp   = (normal_grd.cross(ground.normal())).normalized();
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
-- 
2.43.0


From c693c0d2c98ac5ace2ccd866c812befb877bf4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 11/57] fix: shell contact area sums rib areas instead of rib
 frictions

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index ba145e7..331d768 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -732,7 +732,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index ba145e7..331d768 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -732,7 +732,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From be621a8b6af828fc636542084028a55f27882ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 12/57] fix: vector forms of contact frames and relative angles
 return one entry per rib

---
 src/shell.cc         | 8 ++++++--
 toolbox/src/shell.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 331d768..466372a 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -843,7 +843,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -885,7 +887,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 331d768..466372a 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -843,7 +843,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -885,7 +887,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
-- 
2.43.0


From b3026eb9b5c970d1d08e362fcf0ecd25d3afdf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 13/57] fix: intersecting an empty AABB tree finds nothing
 instead of dereferencing null

---
 toolbox/src/AABBtree.cc       | 3 +++
 toolbox/src/acme/AABBtree.hxx | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..5fae5ea 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,9 @@ namespace acme
   )
     const
   {
+    // An empty tree intersects nothing
+    if (!tree.m_ptrbox || !this->m_ptrbox)
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
diff --git a/toolbox/src/acme/AABBtree.hxx b/toolbox/src/acme/AABBtree.hxx
index 5a0dae1..8f2f5d5 100644
--- a/toolbox/src/acme/AABBtree.hxx
+++ b/toolbox/src/acme/AABBtree.hxx
@@ -106,6 +106,10 @@ namespace acme
       const
     {
 
+      // An empty tree intersects nothing
+      if (!tree.m_ptrbox || !this->m_ptrbox)
+        {return false;}
+
       // check aabb with
       if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
         {return false;}
-- 
2.43.0


From b8cd88fd79085b9532ad68cdc3b71c83ce0026e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 14/57] fix: flat ground comparison applies the given tolerance
 to the plane too

---
 src/flat.cc         | 2 +-
 toolbox/src/flat.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
-- 
2.43.0


From cb270fa751e723c74ef576d5fa45a1001b277de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 15/57] fix: ground triangle copy keeps the identifier and
 comparison applies the tolerance to the vertices

---
 src/triangleground.cc         | 3 ++-
 toolbox/src/triangleground.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
@@ -162,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
@@ -162,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From f352f513940d1d225565f0daab38d5524f69e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 16/57] fix: mesh copy rebuilds the boxes and the AABB tree of
 the copy

---
 src/mesh.cc         | 1 +
 toolbox/src/mesh.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 7541d13..3c3c91f 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 7541d13..3c3c91f 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 20302fb31cff94b57b68ed7fdcb84d77ec0c162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 17/57] fix: mesh clear drops the boxes and the AABB tree too

---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 3c3c91f..0728e8e 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -121,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 3c3c91f..0728e8e 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -121,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From be6eaf04ca69bcb4e48eaaa7f01bbc90e663b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 18/57] fix: loading a mesh replaces its previous content, and
 a failed load leaves it unchanged

---
 src/mesh.cc         | 20 ++++++++++++--------
 toolbox/src/mesh.cc | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 0728e8e..219e485 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -242,7 +242,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -315,7 +316,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -328,11 +329,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -342,6 +343,7 @@ namespace enve
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
+        this->m_triangles.swap(triangles);
         this->buildAABBtree();
         std::cout
           << "Done" << std::endl
@@ -386,7 +388,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -429,7 +432,7 @@ namespace enve
             CMD "element 2 index cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -447,11 +450,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -460,6 +463,7 @@ namespace enve
       {
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
+        this->m_triangles.swap(triangles);
         this->buildAABBtree();
         std::cout
           << "Done" << std::endl
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 0728e8e..219e485 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -242,7 +242,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -315,7 +316,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -328,11 +329,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -342,6 +343,7 @@ namespace enve
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
+        this->m_triangles.swap(triangles);
         this->buildAABBtree();
         std::cout
           << "Done" << std::endl
@@ -386,7 +388,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -429,7 +432,7 @@ namespace enve
             CMD "element 2 index cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -447,11 +450,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -460,6 +463,7 @@ namespace enve
       {
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
+        this->m_triangles.swap(triangles);
         this->buildAABBtree();
         std::cout
           << "Done" << std::endl
-- 
2.43.0


From d5b47722646a38a2f9de3351848c07a9f8836906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 19/57] fix: mesh files may hold blank lines, tabs and trailing
 blanks

---
 src/mesh.cc         | 39 +++++++++++----------------------------
 toolbox/src/mesh.cc | 39 +++++++++++----------------------------
 2 files changed, 22 insertions(+), 56 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 219e485..770b393 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -277,7 +277,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -286,7 +286,7 @@ namespace enve
         // Generate a vertex position
         if (nodes_parse)
         {
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           p_node[0] = real(std::stod(s_node[0]));
@@ -299,7 +299,7 @@ namespace enve
         if (elements_parse)
         {
           // Generate the triangle vertices from the element
-          this->split(curline, s_node, " ");
+          this->split(curline, s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(4),
             CMD "wrong numbder of elements detected.");
           i_element[0] = integer(std::stoi(s_node[0]));
@@ -405,7 +405,7 @@ namespace enve
         if (token == "v")
         {
           // Generate a vertex position
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           p_node[0] = std::stod(s_node[0]);
@@ -418,7 +418,7 @@ namespace enve
         else if (token == "f")
         {
           // Generate the triangle vertices from the element
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           i_element[0] = std::stoi(s_node[0]) - 1;
@@ -440,7 +440,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -541,30 +541,13 @@ namespace enve
     )
       const
     {
-      std::string tmp, test;
       out.clear();
-      for (size_t i = 0; i < in.size(); ++i)
+      size_t start = in.find_first_not_of(token);
+      while (start != std::string::npos)
       {
-        test = in.substr(i, token.size());
-        if (test == token)
-        {
-          if (!tmp.empty())
-          {
-            out.push_back(tmp);
-            tmp.clear();
-            i += token.size() - 1;
-          }
-        }
-        else if (i + token.size() >= in.size())
-        {
-          tmp += in.substr(i, token.size());
-          out.push_back(tmp);
-          break;
-        }
-        else
-        {
-          tmp += in[i];
-        }
+        size_t end = in.find_first_of(token, start);
+        out.push_back(in.substr(start, end - start));
+        start = in.find_first_not_of(token, end);
       }
     }
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 219e485..770b393 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -277,7 +277,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -286,7 +286,7 @@ namespace enve
         // Generate a vertex position
         if (nodes_parse)
         {
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           p_node[0] = real(std::stod(s_node[0]));
@@ -299,7 +299,7 @@ namespace enve
         if (elements_parse)
         {
           // Generate the triangle vertices from the element
-          this->split(curline, s_node, " ");
+          this->split(curline, s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(4),
             CMD "wrong numbder of elements detected.");
           i_element[0] = integer(std::stoi(s_node[0]));
@@ -405,7 +405,7 @@ namespace enve
         if (token == "v")
         {
           // Generate a vertex position
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           p_node[0] = std::stod(s_node[0]);
@@ -418,7 +418,7 @@ namespace enve
         else if (token == "f")
         {
           // Generate the triangle vertices from the element
-          this->split(this->tail(curline), s_node, " ");
+          this->split(this->tail(curline), s_node, " \t\r");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
           i_element[0] = std::stoi(s_node[0]) - 1;
@@ -440,7 +440,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -541,30 +541,13 @@ namespace enve
     )
       const
     {
-      std::string tmp, test;
       out.clear();
-      for (size_t i = 0; i < in.size(); ++i)
+      size_t start = in.find_first_not_of(token);
+      while (start != std::string::npos)
       {
-        test = in.substr(i, token.size());
-        if (test == token)
-        {
-          if (!tmp.empty())
-          {
-            out.push_back(tmp);
-            tmp.clear();
-            i += token.size() - 1;
-          }
-        }
-        else if (i + token.size() >= in.size())
-        {
-          tmp += in.substr(i, token.size());
-          out.push_back(tmp);
-          break;
-        }
-        else
-        {
-          tmp += in[i];
-        }
+        size_t end = in.find_first_of(token, start);
+        out.push_back(in.substr(start, end - start));
+        start = in.find_first_not_of(token, end);
       }
     }
 
-- 
2.43.0


From 523e20f08e1cb3421c8cf734bcb8239cf897676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 20/57] fix: mesh files naming nodes that do not exist are
 rejected

---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 770b393..28e6a8c 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -312,6 +312,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -430,6 +434,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 770b393..28e6a8c 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -312,6 +312,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -430,6 +434,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
-- 
2.43.0


From bb3d81bd6da3cf9c994c5c6dd64b2fa802645a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 21/57] fix: line common to two planes with non-unit normals

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index e754fa5..d466868 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2271,8 +2271,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = plane0_in.origin().dot(normal0);
+    real d1 = plane1_in.origin().dot(normal1);
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From daaae91e1d75826541d5d1437955331402d0627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 22/57] fix: part of a segment inside a ball

---
 toolbox/src/intersection.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index d466868..a82ef88 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2772,7 +2772,8 @@ namespace acme
   )
   {
     vec3 origin(segment_in.vertex(0));
-    vec3 direction(segment_in.toVector());
+    vec3 direction(segment_in.toUnitVector());
+    real length = segment_in.length();
     vec3 diff(origin - ball_in.center());
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
@@ -2782,12 +2783,12 @@ namespace acme
       real root = std::sqrt(discr);
       real t0   = -a1 - root;
       real t1   = -a1 + root;
-      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
+      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > length && t1 > length))
         {return false;}
       t0 = std::max(t0, real(0.0));
-      t0 = std::min(t0, real(1.0));
+      t0 = std::min(t0, length);
       t1 = std::max(t1, real(0.0));
-      t1 = std::min(t1, real(1.0));
+      t1 = std::min(t1, length);
       segment_out.vertex(0) = origin + t0 * direction;
       segment_out.vertex(1) = origin + t1 * direction;
       return true;
-- 
2.43.0


From 4a57c532e38ec3dba5be295fc35cf3d9ceaefb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 23/57] fix: lines and rays contain the points next to their
 origin, whatever the length of the direction

---
 toolbox/src/line.cc | 3 ++-
 toolbox/src/ray.cc  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/line.cc b/toolbox/src/line.cc
index 94f748d..0d1e104 100644
--- a/toolbox/src/line.cc
+++ b/toolbox/src/line.cc
@@ -188,7 +188,8 @@ namespace acme
   )
     const
   {
-    return IsApprox(((point_in - this->m_origin).normalized().cross(this->m_direction)).norm(), real(0.0), tolerance);
+    vec3 diff(point_in - this->m_origin);
+    return IsApprox(diff.cross(this->m_direction.normalized()).norm(), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/ray.cc b/toolbox/src/ray.cc
index c25a634..8412be7 100644
--- a/toolbox/src/ray.cc
+++ b/toolbox/src/ray.cc
@@ -188,8 +188,9 @@ namespace acme
   )
     const
   {
-    vec3 p = (point_in - this->m_origin).normalized();
-    return IsApprox(p.cross(this->m_direction).norm(), real(0.0), tolerance) and p.dot(this->m_direction) >= 0;
+    vec3 diff(point_in - this->m_origin);
+    vec3 direction(this->m_direction.normalized());
+    return IsApprox(diff.cross(direction).norm(), real(0.0), tolerance) && diff.dot(direction) > -tolerance;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From eee7afa73b013ba18b4a92f179b5119b8b01f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 24/57] fix: distance to a plane whose normal is not of unit
 length

---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..71dda6e 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->m_normal.normalized());
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 09dd5bff0cb039e153c85a5afacfbad74ff3e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 25/57] fix: coplanarity of objects whose origins nearly
 coincide

---
 toolbox/src/coplanar.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/toolbox/src/coplanar.cc b/toolbox/src/coplanar.cc
index 0b96d2b..2df983c 100644
--- a/toolbox/src/coplanar.cc
+++ b/toolbox/src/coplanar.cc
@@ -344,7 +344,7 @@ namespace acme
     real         tolerance
   )
   {
-    return (line0_in.origin() - line1_in.origin()).isOrthogonal(line0_in.direction().cross(line1_in.direction()), tolerance);
+    return IsApprox((line0_in.origin() - line1_in.origin()).dot(line0_in.toUnitVector().cross(line1_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -356,7 +356,7 @@ namespace acme
     real        tolerance
   )
   {
-    return (ray0_in.origin() - ray1_in.origin()).isOrthogonal(ray0_in.direction().cross(ray1_in.direction()), tolerance);
+    return IsApprox((ray0_in.origin() - ray1_in.origin()).dot(ray0_in.toUnitVector().cross(ray1_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -381,7 +381,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (segment0_in.vertex(0) - segment1_in.vertex(0)).isOrthogonal(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
+    return IsApprox((segment0_in.vertex(0) - segment1_in.vertex(0)).dot(segment0_in.toUnitVector().cross(segment1_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -417,7 +417,7 @@ namespace acme
     real         tolerance
   )
   {
-    return (line_in.origin() - ray_in.origin()).isOrthogonal(line_in.direction().cross(ray_in.direction()), tolerance);
+    return IsApprox((line_in.origin() - ray_in.origin()).dot(line_in.toUnitVector().cross(ray_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -430,7 +430,7 @@ namespace acme
   )
   {
     return line_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(line_in.origin() - plane_in.origin(), tolerance);
+           plane_in.isInside(line_in.origin(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -442,7 +442,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (line_in.origin() - segment_in.vertex(0)).isOrthogonal(line_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsApprox((line_in.origin() - segment_in.vertex(0)).dot(line_in.toUnitVector().cross(segment_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -479,7 +479,7 @@ namespace acme
   )
   {
     return ray_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(ray_in.origin() - plane_in.origin(), tolerance);
+           plane_in.isInside(ray_in.origin(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -491,7 +491,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (ray_in.origin() - segment_in.vertex(0)).isOrthogonal(ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsApprox((ray_in.origin() - segment_in.vertex(0)).dot(ray_in.toUnitVector().cross(segment_in.toUnitVector())), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -528,7 +528,7 @@ namespace acme
   )
   {
     return segment_in.toUnitVector().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(segment_in.vertex(0)-plane_in.origin(), tolerance);
+           plane_in.isInside(segment_in.vertex(0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3c2833155141facbeb6ac72f7e876d82dee7cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 26/57] fix: removing entities from a collection shrinks it

---
 toolbox/src/collection.cc | 81 +++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..a602d94 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +890,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +959,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 400f67f334c275146dcb3c23914bda57acc73f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 27/57] fix: collection counts its non-clampable entities

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index a602d94..1d23f54 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -978,7 +978,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From 34ee0c4aab94264dc6f27da165a4722cb34a6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 28/57] fix: distance to a box that is flat along an axis

---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..5431631 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - std::abs(point_max_centered.x()));
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - std::abs(point_max_centered.y()));
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - std::abs(point_max_centered.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 68e2c680e8ceafb25949dd55bdfe1bc602d9c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 29/57] fix: collection contains a degenerated entity when one
 is, not when all are

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 1d23f54..b272134 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -781,10 +781,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 150db995454afcf0e00dab17f94e49a3eb2da1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 30/57] fix: removing degenerated entities from a collection
 shrinks it

---
 toolbox/src/collection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index b272134..40e5ad6 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -822,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From c3df3f8762d5665c3bf8cd660ef054bbb008bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 31/57] fix: collection tests whether all its entities are
 segments

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 40e5ad6..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -517,7 +517,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From 55b8519fb220096cdfa93b1894f6e662bba2f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 32/57] fix: rays are collinear only when their directions are
 parallel

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From eb4a4518e2a890f6a9c7ca6aa766e8fecb626331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 33/57] fix: perimeter and area of a disk were exchanged

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From c3e98fea63de487e075bb240994de18163f9e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 34/57] fix: angle between parallel vectors is a number

---
 toolbox/src/math.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/math.cc b/toolbox/src/math.cc
index 81640e2..3c29a6e 100644
--- a/toolbox/src/math.cc
+++ b/toolbox/src/math.cc
@@ -76,7 +76,8 @@ namespace acme
     vec3 const & vector1_in
   )
   {
-    return std::acos(vector0_in.dot(vector1_in)/(vector0_in.norm()*vector1_in.norm()));
+    real cosine = vector0_in.dot(vector1_in)/(vector0_in.norm()*vector1_in.norm());
+    return std::acos(std::max(real(-1.0), std::min(cosine, real(1.0))));
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From fd09798731e8b5e60884f39054b27ac2a79875e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 35/57] fix: a line is orthogonal to a plane when it is
 parallel to its normal

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6d4ea93a937868a55426ed99a66929e91d10a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 36/57] fix: coplanar triangle and plane meet in the triangle
 in either order

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index a82ef88..17107d1 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From ee797964a9fe83190b73c2a6b07b864be1db1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 37/57] fix: plane and disk section is stored in a segment

---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 17107d1..0899374 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,7 +837,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From 0c88091a2cfbec1f073c2451a6f3142b32072a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 38/57] fix: skew lines, rays and segments have no common
 entity

---
 toolbox/src/intersection.cc | 72 +++++--------------------------------
 1 file changed, 9 insertions(+), 63 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0899374..e7ac286 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -661,22 +661,10 @@ namespace acme
 
         // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
 
-      case 303:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 303: // skew
         break;
 
-      case 304:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 304: // skew
         break;
 
       case 305:
@@ -688,13 +676,7 @@ namespace acme
           tolerance);
         break;
 
-      case 306:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 306: // skew
         break;
 
       case 307:
@@ -726,22 +708,10 @@ namespace acme
 
         // - - - - - - - - - - - - - - RAY - - - - - - - - - - - - - -
 
-      case 403:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 403: // skew
         break;
 
-      case 404:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 404: // skew
         break;
 
       case 405:
@@ -753,13 +723,7 @@ namespace acme
           tolerance);
         break;
 
-      case 406:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 406: // skew
         break;
 
       case 407:
@@ -856,22 +820,10 @@ namespace acme
 
         // - - - - - - - - - - - - - - SEGMENT - - - - - - - - - - - - - -
 
-      case 603:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 603: // skew
         break;
 
-      case 604:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 604: // skew
         break;
 
       case 605:
@@ -883,13 +835,7 @@ namespace acme
           tolerance);
         break;
 
-      case 606:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 606: // skew
         break;
 
       case 607:
-- 
2.43.0


From 4075fd20220af4a494e580e57198d58ee3828079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 39/57] fix: diverging collinear rays have no common entity

---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index e7ac286..916959a 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From 3528e4c681268c0f72449e63f5c7ca5a5ed3b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 40/57] fix: rib copy keeps the lateral coordinate

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index 9df0ef7..142a278 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 9df0ef7..142a278 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 99fddc269045648b2c8b7d416366ea98bc67c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 41/57] fix: mex_shell gives the rotation matrix column by
 column

---
 toolbox/src_mex/mex_shell.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 79df100..048a8eb 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -462,13 +462,13 @@ do_rotation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   acme::mat3   outmat(self->rotation());
   output[0] = outmat(0,0);
-  output[1] = outmat(0,1);
-  output[2] = outmat(0,2);
-  output[3] = outmat(1,0);
+  output[1] = outmat(1,0);
+  output[2] = outmat(2,0);
+  output[3] = outmat(0,1);
   output[4] = outmat(1,1);
-  output[5] = outmat(1,2);
-  output[6] = outmat(2,0);
-  output[7] = outmat(2,1);
+  output[5] = outmat(2,1);
+  output[6] = outmat(0,2);
+  output[7] = outmat(1,2);
   output[8] = outmat(2,2);
 #undef CMD
 }
-- 
2.43.0


From 562b64e31dd0989946102bf061342fc49630ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 42/57] fix: mex_shell checkTransformation takes the matrix it
 reads

---
 toolbox/src_mex/mex_shell.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 048a8eb..9507ad9 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -532,8 +532,8 @@ do_transformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 static void
 do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
-#define CMD "mex_shell( 'checkTransformation', OBJ ): "
-  UTILS_MEX_ASSERT(nrhs == 2, CMD "expected 2 inputs, nrhs = " << nrhs << "\n");
+#define CMD "mex_shell( 'checkTransformation', OBJ, MATRIX ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-- 
2.43.0


From 5c6190d37c8780fc970f7fbfb8767cb0e7de992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 43/57] fix: mex_mesh load has no output

---
 toolbox/src_mex/mex_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 23b77bc..6b056df 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -285,7 +285,7 @@ do_load(int nlhs, mxArray *plhs[],
 {
 #define CMD "mex_mesh( 'load', OBJ, PATH, [, FRICTION] ): "
   UTILS_MEX_ASSERT(nrhs == 3 || nrhs == 4, CMD "expected 3 or 4 inputs, nrhs = " << nrhs << "\n");
-  UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   string path = mxArrayToString(arg_in_2);
-- 
2.43.0


From ad27783eb0c2bcfd52184f9d393c8bf7f674e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 44/57] fix: mex gateways check both dimensions of their
 matrices

---
 toolbox/src_mex/mex_flat.cc           |  8 ++++----
 toolbox/src_mex/mex_mesh.cc           |  2 +-
 toolbox/src_mex/mex_shell.cc          | 12 ++++++------
 toolbox/src_mex/mex_triangleground.cc |  6 +++---
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 86c4b53..81344ee 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -146,14 +146,14 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_2, rows1, cols1, CMD "error in first input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     ox = matrix1_ptr[0];
     oy = matrix1_ptr[1];
     oz = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_3, rows2, cols2, CMD "error in second input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     nx = matrix2_ptr[0];
     ny = matrix2_ptr[1];
     nz = matrix2_ptr[2];
@@ -203,7 +203,7 @@ do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->origin() = acme::point(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
@@ -239,7 +239,7 @@ do_setNormal(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->normal() = acme::vec3(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 6b056df..e9139a3 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -148,7 +148,7 @@ do_new(int nlhs, mxArray *plhs[],
       mwSize rows, cols;
       real_type const *matrix_ptr;
       matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-      UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+      UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
       acme::affine pose;
       pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                        matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 9507ad9..5754cd9 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -403,7 +403,7 @@ do_translate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   real_type x = matrix_ptr[0];
   real_type y = matrix_ptr[1];
   real_type z = matrix_ptr[2];
@@ -443,7 +443,7 @@ do_rotate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *vector_ptr;
   mwSize           rows, cols;
   vector_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading axis vector");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::vec3 vector(vector_ptr[0], vector_ptr[1], vector_ptr[2]);
   self->rotate(angle, vector);
 #undef CMD
@@ -486,7 +486,7 @@ do_transform(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -540,7 +540,7 @@ do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -638,7 +638,7 @@ do_setupFlat(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -664,7 +664,7 @@ do_setupMesh(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7ed1d99..b5abb94 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -169,21 +169,21 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_3, rows1, cols1, CMD "error in reading 3rd input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     x1 = matrix1_ptr[0];
     y1 = matrix1_ptr[1];
     z1 = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_4, rows2, cols2, CMD "error in reading 4th input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     x2 = matrix2_ptr[0];
     y2 = matrix2_ptr[1];
     z2 = matrix2_ptr[2];
     real_type const *matrix3_ptr;
     mwSize           rows3, cols3;
     matrix3_ptr = utils::mex_matrix_pointer(arg_in_5, rows3, cols3, CMD "error in reading 5th input matrix");
-    UTILS_MEX_ASSERT(rows3 == 3 || cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
+    UTILS_MEX_ASSERT(rows3 == 3 && cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
     x3 = matrix3_ptr[0];
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
-- 
2.43.0


From 4860850d58ffc950c6d47936fa9a38def5d2e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 45/57] fix: mex int8 arguments keep their sign

---
 toolbox/src_mex/mex_utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index f1aa19a..ce5937f 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -199,7 +199,7 @@ namespace utils {
     int64_t res = 0;
     void *ptr = mxGetData(arg);
     switch (category)  {
-      case mxINT8_CLASS:   res = *static_cast<uint8_t*>(ptr); break;
+      case mxINT8_CLASS:   res = *static_cast<int8_t*>(ptr);   break;
       case mxUINT8_CLASS:  res = *static_cast<uint8_t*>(ptr);  break;
       case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;
       case mxUINT16_CLASS: res = *static_cast<uint16_t*>(ptr); break;
-- 
2.43.0


From f3e25359352929b63621c6b49f715904859add93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 46/57] fix: mex_flat setOrigin checks the number of its
 arguments

---
 toolbox/src_mex/mex_flat.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 81344ee..c8ec18b 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -199,6 +199,9 @@ static void
 do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'setOrigin', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
   enve::ground::flat *self = DATA_GET(arg_in_1);
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
-- 
2.43.0


From f631fa9240f73fe691c40491acc969986abd9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 47/57] fix: mex_flat setPlane reads a plane

---
 toolbox/src_mex/mex_flat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index c8ec18b..40afe9a 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -272,7 +272,7 @@ do_setPlane(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::flat *self  = DATA_GET(arg_in_1);
-  acme::plane        *other = DATA_GET(arg_in_2);
+  acme::plane        *other = utils::mex_convert_mx_to_ptr<acme::plane>(arg_in_2);
   self->layingPlane()       = *other;
 #undef CMD
 }
-- 
2.43.0


From 51322cd597a2a5b056c03190ef7358338ab2d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 48/57] fix: mex_flat new without arguments gives a default
 flat

---
 toolbox/src_mex/mex_flat.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 40afe9a..0a9b380 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -125,7 +125,7 @@ static void
 do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'new', [, args] ): "
-  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4 || nrhs == 8, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   UTILS_MEX_ASSERT(
@@ -159,7 +159,7 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     nz = matrix2_ptr[2];
   }
 
-  enve::ground::flat *self = new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz);
+  enve::ground::flat *self = nrhs == 4 ? new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz) : new enve::ground::flat();
 
   DATA_NEW(arg_out_0, self);
 #undef CMD
-- 
2.43.0


From e455a7c0bcd9e472af9b219b40a1a603bc9a980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 49/57] fix: refused entity intersections release their output

---
 toolbox/src/intersection.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 916959a..b42c120 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -59,6 +59,14 @@ namespace acme
     integer slide      = entity0_in->level() * 100 + entity1_in->level();
     bool    collide    = false;
     entity *entity_out = nullptr;
+
+    // Release the output entity if the pair is refused with an error
+    struct cleaner {
+      entity * & entity_ref;
+      bool       refused;
+      ~cleaner() {if (refused) {delete entity_ref;}}
+    } entity_cleaner = {entity_out, true};
+
     if (entity0_in->isPoint() || entity1_in->isPoint())
     {
       switch (slide)
@@ -1061,6 +1069,7 @@ namespace acme
         break;
       }
     }
+    entity_cleaner.refused = false;
     if (!collide)
     {
       delete entity_out;
-- 
2.43.0


From e8cec1cf17d6b630944a763db22189b5674acc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 50/57] fix: collection copies do not share a rebuilt tree,
 clear drops the tree

---
 toolbox/src/collection.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f857470..da57f5f 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -68,6 +68,7 @@ namespace acme
   collection::clear(void)
   {
     this->m_entities.clear();
+    this->m_AABBtree = std::make_shared<AABBtree>();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -1052,6 +1053,7 @@ namespace acme
   {
     aabb::vecptr ptrVecbox;
     this->clamp(ptrVecbox);
+    this->m_AABBtree = std::make_shared<AABBtree>(); // Copies may share the previous tree
     this->m_AABBtree->build(ptrVecbox);
   }
 
-- 
2.43.0


From 76bd1d717710a03f492a6601ba277c68641cba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 51/57] fix: rib volume keeps its accuracy in shallow contacts
 and is never negative

---
 src/rib.cc         | 21 +++++++++++++++------
 toolbox/src/rib.cc | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 142a278..3b21c29 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -38,6 +38,18 @@ using namespace acme;
 namespace enve
 {
 
+  //! Area of the circular segment of the given depth (accurate for small depths as well)
+  static real
+  segmentArea(
+    real radius, //!< Circle radius
+    real depth   //!< Segment depth
+  )
+  {
+    real side = radius - depth;
+    real half = std::sqrt(depth * (real(2.0) * radius - depth));
+    return std::max(real(0.0), radius * radius * std::atan2(half, side) - side * half);
+  }
+
   /*\
    |        _ _
    |   _ __(_) |__
@@ -365,8 +377,7 @@ namespace enve
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
@@ -435,8 +446,7 @@ namespace enve
     {
       out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[3]) / real(4.0);
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
@@ -505,8 +515,7 @@ namespace enve
     {
       out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[3]) / real(4.0);
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 142a278..3b21c29 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -38,6 +38,18 @@ using namespace acme;
 namespace enve
 {
 
+  //! Area of the circular segment of the given depth (accurate for small depths as well)
+  static real
+  segmentArea(
+    real radius, //!< Circle radius
+    real depth   //!< Segment depth
+  )
+  {
+    real side = radius - depth;
+    real half = std::sqrt(depth * (real(2.0) * radius - depth));
+    return std::max(real(0.0), radius * radius * std::atan2(half, side) - side * half);
+  }
+
   /*\
    |        _ _
    |   _ __(_) |__
@@ -365,8 +377,7 @@ namespace enve
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
@@ -435,8 +446,7 @@ namespace enve
     {
       out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[3]) / real(4.0);
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
@@ -505,8 +515,7 @@ namespace enve
     {
       out.friction = (friction_vec[0] + friction_vec[1] + friction_vec[2] + friction_vec[3]) / real(4.0);
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-      out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
-                     (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = segmentArea(radius, out.depth) * width;
       return true;
     }
     else
-- 
2.43.0


From 5ed56eb1237aa08c70415531e4301824f61e43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 52/57] fix: ground triangles keep normal and box when moved

---
 src/enve/triangleground.hxx         | 12 ++++++++++++
 src/triangleground.cc               | 23 +++++++++++++++++++++++
 toolbox/src/enve/triangleground.hxx | 12 ++++++++++++
 toolbox/src/triangleground.cc       | 23 +++++++++++++++++++++++
 4 files changed, 70 insertions(+)

diff --git a/src/enve/triangleground.hxx b/src/enve/triangleground.hxx
index 765d197..52fcdaf 100644
--- a/src/enve/triangleground.hxx
+++ b/src/enve/triangleground.hxx
@@ -152,6 +152,18 @@ namespace enve
       size_t i //!< Index
     ) const;
 
+    //! Translate triangle by vector
+    void
+    translate(
+      vec3 const & vector_in //!< Input translation vector
+    ) override;
+
+    //! Transform triangle with affine transformation matrix
+    void
+    transform(
+      affine const & affine_in //!< 4x4 affine transformation matrix
+    ) override;
+
     //! Print data
     void
     print(
diff --git a/src/triangleground.cc b/src/triangleground.cc
index a815491..a4ec0e4 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -255,6 +255,29 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  triangleground::translate(
+    vec3 const & vector_in
+  )
+  {
+    this->triangle::translate(vector_in);
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+  void
+  triangleground::transform(
+    affine const & affine_in
+  )
+  {
+    this->triangle::transform(affine_in);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   triangleground::updateNormal(void)
   {
diff --git a/toolbox/src/enve/triangleground.hxx b/toolbox/src/enve/triangleground.hxx
index 765d197..52fcdaf 100644
--- a/toolbox/src/enve/triangleground.hxx
+++ b/toolbox/src/enve/triangleground.hxx
@@ -152,6 +152,18 @@ namespace enve
       size_t i //!< Index
     ) const;
 
+    //! Translate triangle by vector
+    void
+    translate(
+      vec3 const & vector_in //!< Input translation vector
+    ) override;
+
+    //! Transform triangle with affine transformation matrix
+    void
+    transform(
+      affine const & affine_in //!< 4x4 affine transformation matrix
+    ) override;
+
     //! Print data
     void
     print(
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index a815491..a4ec0e4 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -255,6 +255,29 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  triangleground::translate(
+    vec3 const & vector_in
+  )
+  {
+    this->triangle::translate(vector_in);
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+  void
+  triangleground::transform(
+    affine const & affine_in
+  )
+  {
+    this->triangle::transform(affine_in);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   triangleground::updateNormal(void)
   {
-- 
2.43.0


From d2405e33f4ffef9940b408909233c2b29fac565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 53/57] fix: enve_shell.surfaceWidthBound asks the gateway for
 the command it has

---
 toolbox/lib/enve_shell.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/lib/enve_shell.m b/toolbox/lib/enve_shell.m
index 3845205..2982065 100644
--- a/toolbox/lib/enve_shell.m
+++ b/toolbox/lib/enve_shell.m
@@ -77,7 +77,7 @@ classdef enve_shell < handle
     %
     %> Get shell surface maximum width on reference (m)
     function out = surfaceWidthBound( this, y )
-      out = mex_shell( 'surfaceWidthBound', this.objectHandle, y );
+      out = mex_shell( 'checkWidthBound', this.objectHandle, y );
     end
     %
     % - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3eb6d37956ec87196ea974f92b061ccf62bc34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 54/57] fix: enve_flat.copy copies from flats, not from meshes

---
 toolbox/lib/enve_flat.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/lib/enve_flat.m b/toolbox/lib/enve_flat.m
index 066215c..f351a86 100644
--- a/toolbox/lib/enve_flat.m
+++ b/toolbox/lib/enve_flat.m
@@ -128,10 +128,10 @@ classdef enve_flat < handle
     %
     %> Copy mesh object from another mesh
     function copy( this, other_obj )
-      if (other_obj.type() == "mesh")
+      if (other_obj.type() == "flat")
         mex_flat( 'copy', this.objectHandle, other_obj.objectHandle );
       else
-        error('mex_flat::copy(): other_obj must be an ENVE mesh object type.');
+        error('mex_flat::copy(): other_obj must be an ENVE flat object type.');
       end
     end
     %
-- 
2.43.0


From 9dc5aa9b2edd2a4c76b67de37460652c3c270f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 55/57] fix: mex_triangleground sets the vertices, as its help
 and the class say

---
 toolbox/src_mex/mex_triangleground.cc | 65 +++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index b5abb94..4323c1d 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -288,6 +288,68 @@ do_getVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static void
+SET_VERTEX(
+  enve::triangleground *self,
+  int                   i,
+  acme::point const    &point)
+{
+  acme::point v[3] = {self->triangle::vertex(0), self->triangle::vertex(1), self->triangle::vertex(2)};
+  v[i]             = point;
+  // a triangleground built on the new vertices has the face normal and the bounding box of them
+  self->copy(enve::triangleground(self->id(), self->friction(), v[0], v[1], v[2]));
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex1(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex1', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  SET_VERTEX(self, 0, *other);
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex2(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex2', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  SET_VERTEX(self, 1, *other);
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex3', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  SET_VERTEX(self, 2, *other);
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void
 do_copy(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
@@ -332,6 +394,9 @@ static map<string, DO_CMD> cmd_to_fun = {
   {"getVertex1",  do_getVertex1},
   {"getVertex2",  do_getVertex2},
   {"getVertex3",  do_getVertex3},
+  {"setVertex1",  do_setVertex1},
+  {"setVertex2",  do_setVertex2},
+  {"setVertex3",  do_setVertex3},
   {"copy",        do_copy},
   {"normal",      do_normal}};
 
-- 
2.43.0


From 5310d7e8b8b65154d33382040cf1f39d47b43f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 56/57] fix: mex_mesh refuses wrong arguments instead of giving
 an empty mesh

---
 toolbox/src_mex/mex_mesh.cc | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index e9139a3..ff3ed48 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -130,10 +130,8 @@ do_new(int nlhs, mxArray *plhs[],
   if (nrhs == 2)
   {
     string path = mxArrayToString(arg_in_1);
-    if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
-    else
-      self->load(path);
+    UTILS_MEX_ASSERT(path.substr(path.size() - 4, 4) == ".rdf", CMD "a *.rdf file, or a *.obj file and its friction, expected\n");
+    self->load(path);
   }
   else if (nrhs == 3)
   {
@@ -158,7 +156,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      UTILS_MEX_ASSERT(false, CMD "wrong input arguments!\n");
     }
   }
   else if (nrhs == 4)
@@ -179,7 +177,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      UTILS_MEX_ASSERT(false, CMD "wrong input arguments!\n");
     }
   }
 
@@ -292,22 +290,14 @@ do_load(int nlhs, mxArray *plhs[],
 
   if (nrhs == 3)
   {
-    if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
-    else
-      self->load(path);
+    UTILS_MEX_ASSERT(path.substr(path.size() - 4, 4) == ".rdf", CMD "a *.rdf file, or a *.obj file and its friction, expected\n");
+    self->load(path);
   }
   else if (nrhs == 4)
   {
-    if (path.substr(path.size() - 4, 4) != ".obj")
-    {
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
-    }
-    else
-    {
-      real_type friction = utils::mex_get_scalar_value(arg_in_3, CMD "error in reading input value");
-      self->load(path, friction);
-    }
+    UTILS_MEX_ASSERT(path.substr(path.size() - 4, 4) == ".obj", CMD "friction is for *.obj files only\n");
+    real_type friction = utils::mex_get_scalar_value(arg_in_3, CMD "error in reading input value");
+    self->load(path, friction);
   }
 #undef CMD
 }
-- 
2.43.0


From 6ef161f80f17bd2f9ae2323f2e1e02bd7fcc3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 57/57] fix: a flat ground which barely grazes a rib leaves no
 NaN area

---
 src/rib.cc         | 4 +++-
 toolbox/src/rib.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 3b21c29..9cf0f56 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -369,7 +369,9 @@ namespace enve
     bool int_bool = Intersection(ground, rib_grd, segment_tmp, EPSILON_ENVE);
 
     // Compute remaining contact parameters
-    if (int_bool && segment_tmp.length() > EPSILON_ENVE)
+    // (rounding may leave no depth below a chord which barely cuts the rib)
+    if (int_bool && segment_tmp.length() > EPSILON_ENVE &&
+        (segment_tmp.centroid() - center_grd).norm() < radius)
     {
       out.point    = segment_tmp.centroid();
       normal_tmp   = (normal_grd.cross(ground.normal())).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 3b21c29..9cf0f56 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -369,7 +369,9 @@ namespace enve
     bool int_bool = Intersection(ground, rib_grd, segment_tmp, EPSILON_ENVE);
 
     // Compute remaining contact parameters
-    if (int_bool && segment_tmp.length() > EPSILON_ENVE)
+    // (rounding may leave no depth below a chord which barely cuts the rib)
+    if (int_bool && segment_tmp.length() > EPSILON_ENVE &&
+        (segment_tmp.centroid() - center_grd).norm() < radius)
     {
       out.point    = segment_tmp.centroid();
       normal_tmp   = (normal_grd.cross(ground.normal())).normalized();
-- 
2.43.0

