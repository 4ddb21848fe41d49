From 94263e1f03e69eaef2b95bdd200dcf056d551137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 1/6] fix: check all three indices when accessing a 3-d tensor

---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 48a8005dab23cd1497a18cfa8a7e9e5b785be2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 2/6] fix: permute barycentric coordinates together with a
 cyclically permuted fine triangle

---
 src/tvemoves_rufbad/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..6c49dfe 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -345,15 +345,18 @@ class RefinedGrid(Grid):
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
         i1, i2, i3 = fine_triangle
+        p = fine_point.coordinates
         if (i1, i2, i3) not in self.triangles:
+            # The barycentric coordinates need to be permuted together with the vertices
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From ea8dc280e435e185ecd03f7ff6c45475ee48aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 3/6] fix: orient refined diagonal edges like the coarse
 diagonal edge they lie on

---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 6c49dfe..aa26c6d 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -824,7 +824,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 16ce36c0706508cfa72de45ec8aa23aa1f36bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 4/6] fix: only endpoints of Neumann edges are Neumann vertices

---
 src/tvemoves_rufbad/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index aa26c6d..75127c5 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -513,7 +513,7 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
+        # 1 => not on a fixed side, 0 / -1 => Dirichlet
         boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
@@ -547,8 +547,9 @@ class RectangleDomain(Domain):
                         neumann_edges.difference_update(left_boundary_edges)
         dirichlet_vertices = []
         neumann_vertices = []
+        vertices_on_neumann_edges = set(i for edge in neumann_edges for i in edge)
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
+            if i in vertices_on_neumann_edges:
                 neumann_vertices.append(i)
             if tag <= 0:
                 dirichlet_vertices.append(i)
-- 
2.43.0


From 59fd7a0b92c1302c7274eecf0ad014539a4bb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 5/6] fix: reject fps = 0 in SimulationParams

---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From 2552cc145dd3c4907bafd1875980a7e30b94f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 6/6] fix: refining a refined grid no longer fails on rounding
 errors of its points

---
 src/tvemoves_rufbad/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 75127c5..2dc22d6 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -700,7 +700,8 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    # Relative tolerance as the points of an already refined grid carry rounding errors
+    eps = (p1 - p3).norm() / 1e7
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0

