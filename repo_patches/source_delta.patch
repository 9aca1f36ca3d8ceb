From d18b4b22da28905e82854fb6af0f6085ea9d47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/53] fix: joining an edge to two points keeps its earlier
 transformations

join_points reset the transformation diary whenever the edge was sampled (and
so every time a sampled edge was built), so rotations and reflections were
lost on the next parameterization; an unsampled edge kept its old vertices;
and a rejected join was still recorded.
---
 puncturedfem/mesh/edge.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 0484545..04e2beb 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -394,13 +394,8 @@ class Edge:
         if ab_norm < TOL:
             raise EdgeTransformationError("a and b must be distinct points")
 
-        # record in transformation diary
-        if write_diary:
-            self.diary.append(("join_points", (a, b)))
-
-        # apply to sampled points
+        # check that endpoints of sampled points are distinct
         if self.is_parameterized:
-            # check that endpoints of sampled points are distinct
             x = self.x[:, 0]
             y = self.x[:, self.num_pts - 1]
             xy_norm = np.sqrt((x[0] - y[0]) ** 2 + (x[1] - y[1]) ** 2)
@@ -409,6 +404,12 @@ class Edge:
                     "Edge must have distinct endpoints"
                 )
 
+        # record in transformation diary
+        if write_diary:
+            self.diary.append(("join_points", (a, b)))
+
+        # apply to sampled points
+        if self.is_parameterized:
             # anchor starting point to origin
             self.translate(Vert(x=-x[0], y=-x[1]), write_diary=False)
 
@@ -425,8 +426,10 @@ class Edge:
             # anchor at point a
             self.translate(a, write_diary=False)
 
-            # set vertices
-            self.set_verts(a, b)
+        # set vertices, keeping the diary
+        self.anchor = a
+        self.endpnt = b
+        self.is_loop = False
 
     def rotate(self, theta: float, write_diary: bool = True) -> None:
         """
-- 
2.43.0


From c61ff60d3c551f9c5183186ab0ac86baa04862d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 02/53] fix: dilating an edge by a negative factor turns its
 tangent and normal

A dilation by alpha < 0 is a rotation by 180 degrees followed by a positive
dilation: tangent and normal reverse and the curvature keeps its sign.
---
 puncturedfem/mesh/edge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 04e2beb..d9169a7 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -557,8 +557,10 @@ class Edge:
         # apply to sampled points
         if self.is_parameterized:
             self.x *= alpha
+            self.unit_tangent = np.sign(alpha) * self.unit_tangent
+            self.unit_normal = np.sign(alpha) * self.unit_normal
             self.dx_norm *= np.abs(alpha)
-            self.curvature *= 1 / alpha
+            self.curvature *= 1 / np.abs(alpha)
 
     def apply_orthogonal_transformation(
         self, A: np.ndarray, write_diary: bool = True
-- 
2.43.0


From a43d53953ab6ffd01b8063ff0dccf97eeedff616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 03/53] fix: tangent, normal and weights of a never-sampled
 cell report it as not parameterized

They read the number of boundary points before checking, which was undefined
until the first parameterization, and raised AttributeError.
---
 puncturedfem/mesh/cell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 4c340b3..597dd37 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -96,6 +96,7 @@ class MeshCell:
         self.set_idx(idx)
         self.find_edge_orientations(edges)
         self.components = []
+        self.num_pts = 0
         self.find_boundary_components(edges)
         self.find_num_edges()
         self.set_interior_mesh_size(*int_mesh_size)
-- 
2.43.0


From aaf242cb865adcaf5fcdbfe079b203832d51db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 04/53] fix: split_edge no longer sorts the caller's list of
 parameters in place

---
 puncturedfem/mesh/split_edge.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index d85422f..16407eb 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -75,9 +75,8 @@ def split_edge(
 
 
 def _split_edge_multiple(e: Edge, t_split: list[float]) -> list[Edge]:
-    t_split.sort()
     edges = []
-    for t in t_split:
+    for t in sorted(t_split):
         e1, e2 = _split_edge_single(e, t)
         edges.append(e1)
         e = e2
-- 
2.43.0


From 0fb568979477ce55f520123461eed33b29d5d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 05/53] fix: splitting a reflected edge keeps the reflection

The pieces were rebuilt by joining their endpoints, which cannot mirror the
reference curve, so a curved edge came back on the wrong side of its chord.
---
 puncturedfem/mesh/split_edge.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index 16407eb..5e77d18 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -120,4 +120,19 @@ def _split_edge_single(e: Edge, t_split: float = np.pi) -> tuple[Edge, Edge]:
         **e.curve_opts
     )
 
+    # joining the endpoints of a piece cannot mirror its curve
+    if _is_mirrored(e):
+        for piece in (e1, e2):
+            piece.diary.insert(0, ("reflect_across_x_axis", ()))
+
     return e1, e2
+
+
+def _is_mirrored(e: Edge) -> bool:
+    num_reflections = 0
+    for method_name, args in e.diary:
+        if method_name in ("reflect_across_x_axis", "reflect_across_y_axis"):
+            num_reflections += 1
+        elif method_name == "apply_orthogonal_transformation":
+            num_reflections += int(np.linalg.det(args[0]) < 0)
+    return num_reflections % 2 == 1
-- 
2.43.0


From 636ea420afb660b68745d99c97b667879ff5d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 06/53] fix: the outer boundary of a cell is found wherever its
 edges are listed

Only contours listed after a contour were tested for being inside it, so an
outer boundary listed last was taken for a hole.
---
 puncturedfem/mesh/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 597dd37..e0de61d 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -350,7 +350,9 @@ class MeshCell:
         # find component that contains all other components
         outer_boundary_idx = 0
         for i in range(self.num_holes + 1):
-            for j in range(i + 1, self.num_holes + 1):
+            for j in range(self.num_holes + 1):
+                if i == j:
+                    continue
                 # check if contour j is contained in contour i
                 x1, x2 = self.components[j].get_sampled_points()
                 is_inside = self.components[i].is_in_interior_contour(x1, x2)
-- 
2.43.0


From b91cb4fabebb16582bc44b07f610d6c6bc5f005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/53] fix: loops sharing an anchor, such as concentric
 circles, bound a cell

The anchor of a loop is where its curve is translated to, commonly its centre;
two loops with one anchor were taken to meet there and the cell was rejected.
The point where the curve of a loop starts is compared instead.
---
 puncturedfem/mesh/cell.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index e0de61d..7dacda1 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -7,6 +7,8 @@ MeshCell
     Class representing a mesh cell, which may be multiply connected.
 """
 
+from copy import copy
+
 import numpy as np
 from matplotlib import tri
 from matplotlib.path import Path
@@ -19,7 +21,8 @@ from .mesh_exceptions import (
     NotParameterizedError,
     SizeMismatchError,
 )
-from .quad import QuadDict
+from .quad import QuadDict, get_quad_dict
+from .vert import Vert
 
 
 class MeshCell:
@@ -182,18 +185,19 @@ class MeshCell:
         # form distance matrix between endpoints of edges
         num_edges = len(edges)
         distance = np.zeros((num_edges, num_edges))
+        endpoints = [_get_endpoints(e) for e in edges]
         for i in range(num_edges):
             if self.edge_orients[i] == +1:
-                a = edges[i].anchor
+                a = endpoints[i][0]
             elif self.edge_orients[i] == -1:
-                a = edges[i].endpnt
+                a = endpoints[i][1]
             else:
                 raise EmbeddingError("Edge orientation must be +1 or -1")
             for j in range(num_edges):
                 if self.edge_orients[j] == +1:
-                    b = edges[j].endpnt
+                    b = endpoints[j][1]
                 elif self.edge_orients[j] == -1:
-                    b = edges[j].anchor
+                    b = endpoints[j][0]
                 else:
                     raise EmbeddingError("Edge orientation must be +1 or -1")
                 distance[i, j] = np.sqrt((a.x - b.x) ** 2 + (a.y - b.y) ** 2)
@@ -800,6 +804,21 @@ class MeshCell:
         )
 
 
+def _get_endpoints(e: Edge) -> tuple[Vert, Vert]:
+    """
+    Return the points where an edge starts and ends.
+
+    The anchor of a loop need not lie on it, e.g. the anchor of a circle is its
+    center, so the starting point of its curve is used instead.
+    """
+    if not e.is_loop:
+        return e.anchor, e.endpnt
+    curve = copy(e)
+    curve.parameterize(get_quad_dict(n=4))
+    start = Vert(x=curve.x[0, 0], y=curve.x[1, 0])
+    return start, start
+
+
 def _get_hole_mask(
     triangulation: tri.Triangulation,
     outer_x: np.ndarray,
-- 
2.43.0


From d917ca4d869692811b930de17922d940b87a9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 08/53] fix: dot products along an edge with its endpoint
 included

dot_with_tangent and dot_with_normal sliced [:-0] when ignore_endpoint was
False, which is empty.
---
 puncturedfem/mesh/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index d9169a7..b1ccea7 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -699,8 +699,8 @@ class Edge:
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
         return (
-            comp1 * self.unit_tangent[0, :-k]
-            + comp2 * self.unit_tangent[1, :-k]
+            comp1 * self.unit_tangent[0, : self.num_pts - k]
+            + comp2 * self.unit_tangent[1, : self.num_pts - k]
         )
 
     def dot_with_normal(
@@ -733,7 +733,7 @@ class Edge:
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
         return (
-            comp1 * self.unit_normal[0, :-k] + comp2 * self.unit_normal[1, :-k]
+            comp1 * self.unit_normal[0, : self.num_pts - k] + comp2 * self.unit_normal[1, : self.num_pts - k]
         )
 
     # INTEGRATION ############################################################
-- 
2.43.0


From d868bfe6fda9259f4f35792ae7d58469c1a822c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 09/53] fix: the left Riemann sum over an edge uses every value

With ignore_endpoint the values already exclude the endpoint; the last of them
was dropped as well.
---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index b1ccea7..10cdc09 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -790,7 +790,7 @@ class Edge:
             # left Riemann sum
             if len(vals_dx_norm) != self.num_pts - 1:
                 raise SizeMismatchError("vals must be same length as Edge")
-            res = np.sum(h * vals_dx_norm[:-1])
+            res = np.sum(h * vals_dx_norm)
         else:
             # trapezoidal rule
             if len(vals_dx_norm) != self.num_pts:
-- 
2.43.0


From fa0742ff31b0eaf50524527bff85c7be793df296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 10/53] fix: integrate over a cell boundary whose edges are
 sampled differently

One step size per contour was used, wrong when its edges have different numbers
of points; the contour itself integrates edge by edge.
---
 puncturedfem/mesh/cell.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 7dacda1..b88b9a3 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -754,14 +754,14 @@ class MeshCell:
         if len(vals_dx_norm) != self.num_pts:
             raise SizeMismatchError("vals must be same length as boundary")
 
-        # NOTE: numpy.sum() is more stable, but this uses more memory
-        y = np.zeros((self.num_pts,))
+        # each edge has its own sampling, hence its own step size
+        y = np.zeros((self.num_holes + 1,))
         for i in range(self.num_holes + 1):
-            c = self.components[i]
-            h = 2 * np.pi * c.num_edges / c.num_pts
             j = self.component_start_idx[i]
             jp1 = self.component_start_idx[i + 1]
-            y[j:jp1] = h * vals_dx_norm[j:jp1]
+            y[i] = self.components[i].integrate_over_closed_contour_preweighted(
+                vals_dx_norm[j:jp1]
+            )
         return float(np.sum(y))
 
     # TRIANGULATION ##########################################################
-- 
2.43.0


From bb607c7676f9c7e0e58f4c7c86c2bd1a32d9e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 11/53] fix: interior points on grids with different numbers of
 rows and columns

meshgrid puts the first coordinate along columns; a nonsquare grid raised an
IndexError or skipped part of the tolerance test.
---
 puncturedfem/mesh/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index b88b9a3..3f6839a 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -505,8 +505,8 @@ class MeshCell:
         xmin, xmax, ymin, ymax = self.get_bounding_box()
 
         # set up grid
-        x_coord = np.linspace(xmin, xmax, rows)
-        y_coord = np.linspace(ymin, ymax, cols)
+        x_coord = np.linspace(xmin, xmax, cols)
+        y_coord = np.linspace(ymin, ymax, rows)
         self.int_x1, self.int_x2 = np.meshgrid(x_coord, y_coord)
 
         # determine which points are inside K
-- 
2.43.0


From d5d78abaa0788470e3adfd44598c3a1d59485e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 12/53] fix: pegboard has size[0] cells in the x direction, as
 documented

The first entry of size was used for the y direction.
---
 puncturedfem/mesh/meshlib/pegboard.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puncturedfem/mesh/meshlib/pegboard.py b/puncturedfem/mesh/meshlib/pegboard.py
index 87516b0..4109221 100644
--- a/puncturedfem/mesh/meshlib/pegboard.py
+++ b/puncturedfem/mesh/meshlib/pegboard.py
@@ -42,8 +42,9 @@ def pegboard(
 def _get_verts(size: tuple[int, int], radius: float) -> list[Vert]:
     verts: list[Vert] = []
 
-    m = size[0] + 1
-    n = size[1] + 1
+    # number of rows and columns of vertices
+    m = size[1] + 1
+    n = size[0] + 1
 
     # rescale so that the longest edge is 1
     h = 1 / max(m - 1, n - 1)
@@ -71,8 +72,9 @@ def _get_edges(
 ) -> list[Edge]:
     edges: list[Edge] = []
 
-    m = size[0] + 1
-    n = size[1] + 1
+    # number of rows and columns of vertices
+    m = size[1] + 1
+    n = size[0] + 1
 
     h = 1 / max(m - 1, n - 1)
 
-- 
2.43.0


From e394f0d1f2a58066641753fa3fc75c0ae030814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 13/53] fix: the rule named "martensen" is the Martensen
 quadrature

---
 puncturedfem/mesh/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/quad.py b/puncturedfem/mesh/quad.py
index fea471f..8c75139 100644
--- a/puncturedfem/mesh/quad.py
+++ b/puncturedfem/mesh/quad.py
@@ -116,7 +116,7 @@ class Quad:
         if self.type == "kress":
             self.kress(p)
             return
-        if self.type == "mart" or type == "martensen":
+        if self.type in ("mart", "martensen"):
             self.martensen()
             return
         self.trap()
-- 
2.43.0


From 86e73f33737b0475eeaa539891713af43cd81c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 14/53] fix: adding a polynomial to itself in place terminates

---
 puncturedfem/locfun/poly/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 54a9e20..ba5081e 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -109,7 +109,7 @@ class Polynomial:
         """
         if monos is None:
             return
-        for m in monos:
+        for m in list(monos):
             self.add_monomial(m)
         self.consolidate()
 
@@ -548,7 +548,7 @@ class Polynomial:
             Object to add to self. Must be either a Polynomial or a scalar.
         """
         if isinstance(other, Polynomial):
-            for m in other.monos:
+            for m in list(other.monos):
                 self.add_monomial(m)
             self.consolidate()
         elif isinstance(other, (int, float)):
-- 
2.43.0


From 23f8335c6feaef192260cdc93ff3bb9182ec7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 15/53] fix: negating a monomial returns it and leaves the
 operand alone

---
 puncturedfem/locfun/poly/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/monomial.py b/puncturedfem/locfun/poly/monomial.py
index 7aa20aa..4dc2875 100644
--- a/puncturedfem/locfun/poly/monomial.py
+++ b/puncturedfem/locfun/poly/monomial.py
@@ -348,6 +348,6 @@ class Monomial:
             + " by another Monomial"
         )
 
-    def __neg__(self) -> None:
+    def __neg__(self) -> Monomial:
         """Define negation operation: -self."""
-        self.coef *= -1
+        return Monomial(self.alpha.copy(), -self.coef)
-- 
2.43.0


From 2b2eeaa1c954b347f99732b240119e337e072d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 16/53] fix: equal polynomials compare equal before their terms
 are collected

---
 puncturedfem/locfun/poly/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index ba5081e..98ffe77 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -482,10 +482,10 @@ class Polynomial:
         """
         if not isinstance(other, Polynomial):
             raise TypeError("Cannot compare Polynomial to non-Polynomial")
+        self.consolidate()
+        other.consolidate()
         if len(self.monos) != len(other.monos):
             return False
-        self.sort()
-        other.sort()
         for i, m in enumerate(self.monos):
             if m != other.monos[i]:
                 return False
-- 
2.43.0


From 01e766448e24972b4cd7810df9b6f243e730d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 17/53] fix: barycentric coordinates of clockwise and collinear
 triangles

---
 puncturedfem/locfun/poly/barycentric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/locfun/poly/barycentric.py b/puncturedfem/locfun/poly/barycentric.py
index 92d2a15..2c958ca 100644
--- a/puncturedfem/locfun/poly/barycentric.py
+++ b/puncturedfem/locfun/poly/barycentric.py
@@ -81,9 +81,12 @@ def barycentric_coordinates(
         if dist[j] < 1e-12:
             raise DegenerateTriangleError("Degenerate triangle detected")
 
-    # compute re-normalized altitudes
-    s = sum(dist) / 2
-    h = 2 * sqrt(s * (s - dist[0]) * (s - dist[1]) * (s - dist[2]))
+    # twice the signed area, positive when the vertices are counterclockwise
+    a = z[1] - z[0]
+    b = z[2] - z[0]
+    h = a[0] * b[1] - a[1] * b[0]
+    if abs(h) < 1e-12 * max(dist) ** 2:
+        raise DegenerateTriangleError("Degenerate triangle detected")
 
     # initialize Polynomial objects
     x = Polynomial([(1.0, 1, 0)])
-- 
2.43.0


From 1046f12586185057217251310259a719b6e482cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 18/53] fix: set the functions of a trace from polynomials

---
 puncturedfem/locfun/trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index fbd1860..c9ceacb 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -508,12 +508,13 @@ class DirichletTrace:
             The polynomials used to define the trace.
         """
         if isinstance(polys, Polynomial):
-            self.set_funcs(polys.eval)  # type: ignore
+            self.set_funcs(polys)
+            return
         if not isinstance(polys, list):
             raise ValueError("'polys' must be of type list[Polynomial]")
         if not all(isinstance(poly, Polynomial) for poly in polys):
             raise ValueError("All elements must be of type Polynomial")
-        self.set_funcs([poly.eval for poly in polys])  # type: ignore
+        self.set_funcs(list(polys))
 
     def edges_are_parametrized(self) -> bool:
         """
-- 
2.43.0


From 5355be3cca0c455071b24e391a0627126403d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 19/53] fix: a list of trace values may hold scalars and must
 have one item per edge

---
 puncturedfem/locfun/trace.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index c9ceacb..96d7aef 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -298,9 +298,14 @@ class DirichletTrace:
         self, values: Union[FloatLike, list[FloatLike]]
     ) -> list[FloatLike]:
         if isinstance(values, list):
+            if len(values) != self.num_edges:
+                raise ValueError(
+                    "'values' must be a scalar or a list of values of length "
+                    "equal to the number of edges"
+                )
             for item in values:
-                if not isinstance(item, np.ndarray):
-                    raise ValueError("item in list is not a numpy.ndarray")
+                if not isinstance(item, (int, float, np.ndarray)):
+                    raise ValueError("item in list is not FloatLike")
             return values
         if isinstance(values, (int, float)):
             return [values for _ in range(self.num_edges)]
@@ -312,16 +317,6 @@ class DirichletTrace:
             return [
                 values[start:end] for start, end in self.edge_sampled_indices
             ]
-        if not isinstance(values, list):
-            raise ValueError(
-                "'values' must be of type int, float, or np.ndarray or a list "
-                "of values"
-            )
-        if len(values) != self.num_edges:
-            raise ValueError(
-                "'values' must be a scalar or a list of values of length "
-                "equal to the number of edges"
-            )
         raise ValueError("values must be FloatLike or list[FloatLike]")
 
     def set_weighted_normal_derivative_on_edge(
-- 
2.43.0


From d5f09d318955f73f7b13fbcb4e6aa305083f6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 20/53] fix: a trace keeps its own list of functions

---
 puncturedfem/locfun/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 96d7aef..13c4bce 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -459,7 +459,7 @@ class DirichletTrace:
                 raise ValueError(
                     "The number of functions must match the number of edges"
                 )
-            self.funcs = funcs
+            self.funcs = list(funcs)
             if compute_vals and self.edges_are_parametrized():
                 self.find_values()
             return
-- 
2.43.0


From 14d21e7f7f2f28f75c09b9de582e6396abca88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 21/53] fix: a polynomial set on one edge leaves the values on
 the others alone

---
 puncturedfem/locfun/trace.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 13c4bce..308f9bd 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -420,6 +420,8 @@ class DirichletTrace:
             raise ValueError("The edge index is out of range")
         # if not is_Func_R2_R(func):
         #     raise ValueError("The function must be a map from R^2 to R")
+        if not hasattr(self, "funcs"):
+            self.funcs = [lambda x, y: 0 for _ in range(self.num_edges)]
         self.funcs[edge_index] = func
 
     def set_funcs(
@@ -487,9 +489,15 @@ class DirichletTrace:
             raise ValueError("The edge index is out of range")
         if not isinstance(poly, Polynomial):
             raise ValueError("'poly' must be of type Polynomial")
-        self.funcs[edge_index] = poly  # type: ignore
+        self.set_func_on_edge(edge_index, poly)
         if compute_vals and self.edges_are_parametrized():
-            self.find_values()
+            num_pts = sum(edge.num_pts - 1 for edge in self.edges)
+            if not hasattr(self, "values") or len(self.values) != num_pts:
+                self.find_values()
+                return
+            self.set_trace_values_on_edge(
+                edge_index, self.edges[edge_index].evaluate_function(poly)
+            )
 
     def set_funcs_from_polys(
         self, polys: Union[Polynomial, list[Polynomial]]
-- 
2.43.0


From 91103fb8983dcbe16113c9dd7b41215a71d78040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 22/53] fix: the vertex nearest a boundary point lies on the
 same contour

---
 puncturedfem/mesh/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 3f6839a..3261306 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -374,7 +374,9 @@ class MeshCell:
         for i in range(self.num_holes + 1):
             j = self.component_start_idx[i]
             jp1 = self.component_start_idx[i + 1]
-            self.closest_vert_idx[j:jp1] = self.components[i].closest_vert_idx
+            self.closest_vert_idx[j:jp1] = (
+                j + self.components[i].closest_vert_idx
+            )
 
     # INTERIOR POINTS ########################################################
     def get_bounding_box(self) -> tuple[float, float, float, float]:
-- 
2.43.0


From 12f3b82f84d6c5d5fc5131d49789704f3fe29bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 23/53] fix: interior values without gradients leave the
 gradients unset

---
 puncturedfem/locfun/local_poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puncturedfem/locfun/local_poisson.py b/puncturedfem/locfun/local_poisson.py
index 9470389..fab74bd 100644
--- a/puncturedfem/locfun/local_poisson.py
+++ b/puncturedfem/locfun/local_poisson.py
@@ -418,3 +418,6 @@ class LocalPoissonFunction:
         if compute_int_grad:
             self.int_grad1 += np.sum(dx_norm * g1, axis=1) * 0.5 / np.pi
             self.int_grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
+        else:
+            self.int_grad1 = None
+            self.int_grad2 = None
-- 
2.43.0


From d05bc3a8c88c04679b2607be070325b7edc54464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 24/53] fix: interior values on a cell whose edges are sampled
 differently

---
 puncturedfem/locfun/local_poisson.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/local_poisson.py b/puncturedfem/locfun/local_poisson.py
index fab74bd..5ea4b7b 100644
--- a/puncturedfem/locfun/local_poisson.py
+++ b/puncturedfem/locfun/local_poisson.py
@@ -409,7 +409,12 @@ class LocalPoissonFunction:
 
         # Jacobian and trapezoid weights
         dx_norm = self.mesh_cell.get_dx_norm()
-        h = 2 * np.pi * self.mesh_cell.num_edges / self.mesh_cell.num_pts
+        h = np.concatenate(
+            [
+                np.full(e.num_pts - 1, 2 * np.pi / (e.num_pts - 1))
+                for e in self.mesh_cell.get_edges()
+            ]
+        )
         dx_norm *= h
 
         # interior values and gradient of conjugable part via Cauchy's
-- 
2.43.0


From 73f8c1d5a01ad45e6f4c9d40204f077f63cf0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 25/53] fix: edge functions of a loop far from the origin lose
 rank: centre them in bounding box coordinates

---
 puncturedfem/locfun/edge_space.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 3f87b20..b3ee7b8 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -182,8 +182,11 @@ class EdgeSpace:
         edge_arc_length = self.e.integrate_over_edge(ones)
         self.arc_length = edge_arc_length
 
-        # find centroid of edge
+        # find centroid of edge, in bounding box coordinates
         x1, x2 = self.e.get_sampled_points(ignore_endpoint=False)
+        xmin, xmax, ymin, ymax = self.e.get_bounding_box()
+        x1 = (2 * x1 - xmax - xmin) / (xmax - xmin)
+        x2 = (2 * x2 - ymax - ymin) / (ymax - ymin)
         x1_avg = self.e.integrate_over_edge(x1) / edge_arc_length
         x2_avg = self.e.integrate_over_edge(x2) / edge_arc_length
 
-- 
2.43.0


From ceb0ec164129435d5bee4a603ff1dca97d7d9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 26/53] fix: edge spaces of small or large edges lose or gain
 functions: the Gram matrix depends on the size of the edge

---
 puncturedfem/locfun/edge_space.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index b3ee7b8..11064d9 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -277,18 +277,18 @@ class EdgeSpace:
         self.edge_fun_traces = basis
 
     def _get_gram_matrix(self) -> np.ndarray:
+        # evaluate before multiplying: the coefficients of a product are
+        # too large or too small on an edge far from unit size
         m = len(self.edge_fun_traces)
         M = np.zeros((m, m))
         x1, x2 = self.e.get_sampled_points(ignore_endpoint=False)
+        traces = [fun(x=x1, y=x2) for fun in self.edge_fun_traces]
         for i in range(m):
             for j in range(i, m):
-                integrand = self.edge_fun_traces[i] * self.edge_fun_traces[j]
-                vals = integrand(x=x1, y=x2)
-                if not isinstance(vals, np.ndarray):
-                    raise ValueError("vals must be a numpy array")
+                vals = traces[i] * traces[j]
                 M[i, j] = self.e.integrate_over_edge(vals)
                 M[j, i] = M[i, j]
-        return M
+        return M / self.arc_length
 
     def _get_low_rank_approx(self, M: np.ndarray, tol: float) -> np.ndarray:
         if np.shape(M)[0] == 0:
-- 
2.43.0


From 50163db0a2d42b1117fff4b9e64fc4e1d52c2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 27/53] fix: building a local space again duplicates the keys
 of its cell

---
 puncturedfem/solver/globfunsp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/solver/globfunsp.py b/puncturedfem/solver/globfunsp.py
index 735d007..11cbd0c 100644
--- a/puncturedfem/solver/globfunsp.py
+++ b/puncturedfem/solver/globfunsp.py
@@ -194,6 +194,7 @@ class GlobalFunctionSpace:
             compute_interior_values=compute_interior_values,
             compute_interior_gradient=compute_interior_gradient,
         )
+        self.cell_dofs[abs_cell_idx] = []
         for v in local_fun_sp.get_basis():
             glob_idx = self.get_global_idx(v.key, abs_cell_idx)
             v.key.set_glob_idx(glob_idx)
-- 
2.43.0


From 47cb08d5633416118f97b34591a00fd1f12643e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:21 +0000
Subject: [PATCH 28/53] fix: local spaces assign the vertex functions of
 reversed edges to the wrong vertex

---
 puncturedfem/locfun/edge_space.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 11064d9..5e10410 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -123,8 +123,18 @@ class EdgeSpace:
         self.vert_fun_global_keys = []
         if self.e.is_loop:
             return
-        for k in [self.e.anchor.idx, self.e.endpnt.idx]:
-            self.vert_fun_global_keys.append(GlobalKey("vert", vert_idx=k))
+        # the first vertex function is the one that is equal to 1 at the first
+        # sampled point, which is the endpoint if the Edge has been reversed
+        x0, x1 = self.e.x[:, 0], self.e.x[:, -1]
+        anchor = np.array([self.e.anchor.x, self.e.anchor.y])
+        endpnt = np.array([self.e.endpnt.x, self.e.endpnt.y])
+        verts = [self.e.anchor, self.e.endpnt]
+        same = np.linalg.norm(x0 - anchor) + np.linalg.norm(x1 - endpnt)
+        swap = np.linalg.norm(x0 - endpnt) + np.linalg.norm(x1 - anchor)
+        if swap < same:
+            verts.reverse()
+        for v in verts:
+            self.vert_fun_global_keys.append(GlobalKey("vert", vert_idx=v.idx))
 
     def generate_edge_fun_global_keys(self) -> None:
         """Generate global keys for edge and vertex functions."""
-- 
2.43.0


From 38a495aa9411be97554727b9d11442e884c7f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:49 +0000
Subject: [PATCH 29/53] fix: linear combinations drop the functions with
 coefficients below 1e-4

---
 puncturedfem/solver/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index b4c6f8e..ea9eb80 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -391,7 +391,7 @@ class Solver:
         local_coef = self.get_coef_on_mesh_cell(cell_idx, global_coef)
         w = LocalPoissonFunction(nyst=loc_fun_sp.nyst, evaluate_gradient=True)
         for i, v in enumerate(loc_fun_sp.get_basis()):
-            if abs(local_coef[i]) < 1e-4:  # only needs to look good
+            if local_coef[i] == 0:
                 continue
             w += v * local_coef[i]
         return w
-- 
2.43.0


From 8b498aee596bbcc02110a7ed52ed95c1d66ef647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 30/53] fix: get_solution before solve raises AttributeError,
 and returns the old solution after assembling again

---
 puncturedfem/plot/globfun_plot.py | 2 +-
 puncturedfem/solver/solver.py     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 7c90331..dd732f7 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -92,7 +92,7 @@ class GlobalFunctionPlot:
             soln.
         """
         if coef is None:
-            if not hasattr(self.solver, "soln"):
+            if self.solver.soln is None:
                 raise AttributeError(
                     "solver must have attribute soln or u must be given"
                 )
diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index ea9eb80..4298583 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -47,7 +47,7 @@ class Solver:
         List of right-hand side values
     num_funs : int
         Number of global functions
-    soln : np.ndarray
+    soln : Optional[np.ndarray]
         Solution vector
     """
 
@@ -66,7 +66,7 @@ class Solver:
     rhs_vals: list[float]
     num_funs: int
     local_function_spaces: list[Optional[LocalFunctionSpace]]
-    soln: np.ndarray
+    soln: Optional[np.ndarray]
 
     def __init__(
         self,
@@ -151,6 +151,7 @@ class Solver:
         """
         if self.soln is None:
             self.solve()
+        assert self.soln is not None
         return self.soln
 
     # ASSEMBLE GLOBAL SYSTEM #################################################
@@ -238,6 +239,7 @@ class Solver:
         self._impose_zero_dirichlet_bc()
 
     def _initialize_linear_system_arrays(self) -> None:
+        self.soln = None
         self.rhs_idx = []
         self.rhs_vals = []
         self.row_idx = []
-- 
2.43.0


From 0df974fa0c5f748ddde5943adfb709a10cd5a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 31/53] fix: TracePlot draws every DirichletTrace twice and
 refuses formats and legends of the right length

---
 puncturedfem/plot/trace_plot.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index fe467e5..b677395 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -167,7 +167,6 @@ class TracePlot:
         self.traces = []
         for f in traces:
             if isinstance(f, DirichletTrace):
-                self.traces.append(f.values)
                 f = f.values
             if not isinstance(f, np.ndarray):
                 raise TypeError(
-- 
2.43.0


From 6a39b1e40af61999424c53ae150255e8e5583eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 32/53] fix: saving a figure under a bare filename raises
 FileNotFoundError

---
 puncturedfem/plot/plot_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/plot_util.py b/puncturedfem/plot/plot_util.py
index 980cb6d..18c2167 100644
--- a/puncturedfem/plot/plot_util.py
+++ b/puncturedfem/plot/plot_util.py
@@ -34,8 +34,9 @@ def save_figure(
     bbox_inches : str, optional
         The bounding box in inches. The default is "tight".
     """
-    if not os.path.exists(os.path.dirname(filename)):
-        os.makedirs(os.path.dirname(filename))
+    dirname = os.path.dirname(filename)
+    if dirname and not os.path.exists(dirname):
+        os.makedirs(dirname)
     plt.savefig(filename, dpi=dpi, bbox_inches=bbox_inches)
 
 
-- 
2.43.0


From 26320657eb91bb7f72128a6b7a85f5cdd9841e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 33/53] fix: plotting on a log scale overwrites the interior
 values of the function

---
 puncturedfem/plot/locfun_plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 86f8137..66c7d9a 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -250,8 +250,7 @@ class LocalFunctionPlot:
 
         # apply log10
         if use_log10:
-            vals[vals < 1e-16] = 1e-16
-            vals = np.log10(vals)
+            vals = np.log10(np.where(vals < 1e-16, 1e-16, vals))
 
         # plot values
         self._apply_masks_and_draw(vals, fill, levels, clim)
-- 
2.43.0


From 5b597a5329b368e69f9ca321eb2296428af159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 34/53] fix: ticks of trace plots are not at the parameters
 their labels give

---
 puncturedfem/plot/trace_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index b677395..b437ccc 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -343,7 +343,7 @@ class TracePlot:
         self.x_ticks = np.zeros(num_ticks)
         self.x_ticks[:-1] = np.linspace(
             0,
-            2 * np.pi * rotations_per_tick * (num_ticks - 1),
+            2 * np.pi * rotations_per_tick * (num_ticks - 2),
             num_ticks - 1,
         )
         self.x_ticks[-1] = interval_length
-- 
2.43.0


From 963bf2d98979cbefe540978dfb6df29ece224860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 35/53] fix: global functions without gradients can be plotted

---
 puncturedfem/plot/globfun_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index dd732f7..35caf1e 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -117,6 +117,8 @@ class GlobalFunctionPlot:
             self.global_range = _range_on_cell(
                 local_fun.int_vals, self.global_range[0], self.global_range[1]
             )
+            if local_fun.int_grad1 is None or local_fun.int_grad2 is None:
+                continue
             self.global_grad1_range = _range_on_cell(
                 local_fun.int_grad1,
                 self.global_grad1_range[0],
@@ -127,8 +129,6 @@ class GlobalFunctionPlot:
                 self.global_grad2_range[0],
                 self.global_grad2_range[1],
             )
-            if local_fun.int_grad1 is None or local_fun.int_grad2 is None:
-                raise ValueError("int_grad1 and int_grad2 must both be set")
             grad_norm = np.sqrt(local_fun.int_grad1**2 + local_fun.int_grad2**2)
             self.global_grad_norm_range = _range_on_cell(
                 grad_norm,
-- 
2.43.0


From 6113aa66274a328732911aa07ec31426826d2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 36/53] fix: a global plot keeps drawing the old function after
 its coefficients are set

---
 puncturedfem/plot/globfun_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 35caf1e..28ea314 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -65,7 +65,6 @@ class GlobalFunctionPlot:
         """
         self.set_solver(solver)
         self.set_coefficients(coef)
-        self._build_global_function()
 
     def set_solver(self, solver: Solver) -> None:
         """
@@ -102,6 +101,7 @@ class GlobalFunctionPlot:
         if coef.shape != (self.solver.glob_fun_sp.num_funs,):
             raise ValueError("u must have shape (solver.glob_fun_sp.num_funs,)")
         self.coef = coef
+        self._build_global_function()
 
     def _build_global_function(self) -> None:
         self.global_function = []
-- 
2.43.0


From 7d95209923ee8bba21a25fd17835f677441b80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 37/53] fix: gradients are plotted wrong on edges another cell
 has reversed

---
 puncturedfem/plot/locfun_plot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 66c7d9a..221d946 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -13,6 +13,7 @@ _point_is_inside
 _point_is_inside_simple
 """
 
+from copy import copy, deepcopy
 from typing import Any, Optional
 
 import matplotlib.pyplot as plt
@@ -374,7 +375,13 @@ def _construct_gradient_component_on_boundary(
         raise ValueError("poly.w_norm_deriv must be set")
     if v.poly.trace.w_tang_deriv is None:
         raise ValueError("poly.w_tang_deriv must be set")
-    num_pts = v.mesh_cell.num_pts
+    # an edge shared with another cell may have been reversed since v was built
+    mesh_cell = copy(v.mesh_cell)
+    mesh_cell.components = deepcopy(v.mesh_cell.components)
+    mesh_cell.parameterize(
+        v.mesh_cell.quad_dict, compute_interior_points=False
+    )
+    num_pts = mesh_cell.num_pts
     if component == 1:
         b1 = np.ones((num_pts,))
         b2 = np.zeros((num_pts,))
@@ -383,12 +390,12 @@ def _construct_gradient_component_on_boundary(
         b2 = np.ones((num_pts,))
     else:
         raise ValueError("component must be 1 or 2")
-    norm_comp = v.mesh_cell.dot_with_normal(b1, b2)
-    tang_comp = v.mesh_cell.dot_with_tangent(b1, b2)
+    norm_comp = mesh_cell.dot_with_normal(b1, b2)
+    tang_comp = mesh_cell.dot_with_tangent(b1, b2)
     wnd = v.harm.trace.w_norm_deriv + v.poly.trace.w_norm_deriv
     wtd = v.harm.trace.w_tang_deriv + v.poly.trace.w_tang_deriv
     weighted_grad = norm_comp * wnd + tang_comp * wtd
-    wgt = v.mesh_cell.get_dx_norm()
+    wgt = mesh_cell.get_dx_norm()
     error_settings = np.seterr(divide="ignore")
     grad_xj = weighted_grad / wgt
     np.seterr(**error_settings)
-- 
2.43.0


From 83639d258dab3ab2fd4b1b70a280f3b98cfab1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 38/53] fix: the colormap of one plot becomes the colormap of
 all later plots

---
 puncturedfem/plot/locfun_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 221d946..d1b4b6f 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -337,7 +337,7 @@ class LocalFunctionPlot:
 
         # set colormap
         if colormap is not None:
-            plt.set_cmap(colormap)
+            plt.gci().set_cmap(colormap)
 
         # set colorbar
         if show_colorbar:
-- 
2.43.0


From d67d7efa638eee636e9ea76997bad8544b199dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 39/53] fix: a global plot uses its colormap for the colorbar
 only

---
 puncturedfem/plot/globfun_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 28ea314..3768103 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -219,6 +219,7 @@ class GlobalFunctionPlot:
                 show_axis=False,
                 show_boundary=False,
                 clim=(global_min, global_max),
+                colormap=colormap,
             )
 
         # plot mesh edges
-- 
2.43.0


From e00e8212ea2f7c35aaa053d232fdc37b2f8e475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 40/53] fix: drawing a trace plot drops the traces its formats
 do not reach

---
 puncturedfem/plot/trace_plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index b437ccc..147e7a0 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -139,6 +139,8 @@ class TracePlot:
             The filename to save the plot to. The default is "", which results
             in no file being saved.
         """
+        self._validate_format(self.fmt)
+        self._validate_legend(self.legend)
         self.fig_handle = plt.figure()
         self._plot_traces()
         self._make_legend(self.legend)
-- 
2.43.0


From 8fe4f660bc2fd71e1cc9f4a1217ff15c8de9da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 41/53] fix: plots without interpolation to the boundary raise
 IndexError

---
 puncturedfem/plot/locfun_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index d1b4b6f..9361981 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -247,7 +247,9 @@ class LocalFunctionPlot:
         if self.use_interp and boundary_values is not None:
             vals = np.concatenate((interior_values, boundary_values))
         else:
-            vals = interior_values
+            # triangles with a vertex on the boundary are masked
+            no_vals = np.full((self.v.mesh_cell.num_pts,), np.nan)
+            vals = np.concatenate((interior_values, no_vals))
 
         # apply log10
         if use_log10:
-- 
2.43.0


From 6345e3d69da430790bfa7a8d524c2cdc24c2d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 42/53] fix: a refused list of traces replaces the traces of
 the plot

---
 puncturedfem/plot/trace_plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index 147e7a0..ef8232a 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -166,7 +166,7 @@ class TracePlot:
         """
         if not isinstance(traces, list):
             traces = [traces]
-        self.traces = []
+        new_traces = []
         for f in traces:
             if isinstance(f, DirichletTrace):
                 f = f.values
@@ -179,7 +179,8 @@ class TracePlot:
                     "Each trace must be a numpy array of the same length as "
                     "the number of sampled boundary points of the MeshCell"
                 )
-            self.traces.append(f)
+            new_traces.append(f)
+        self.traces = new_traces
 
     def set_format(self, fmt: Union[str, list[str]]) -> None:
         """
-- 
2.43.0


From 4a66f2ea0973f9342d64aa95c32446161c21bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 43/53] fix: interior triangles are taken for triangles at the
 boundary

---
 puncturedfem/mesh/cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 3261306..6758dc2 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -907,7 +907,7 @@ def _point_is_on_boundary_simple(
     path_y: np.ndarray,
 ) -> bool:
     # return true if the point is on the boundary
-    return point_x in path_x and point_y in path_y
+    return bool(np.any((path_x == point_x) & (path_y == point_y)))
 
 
 def _edge_is_on_boundary(
-- 
2.43.0


From 46c42cca547404f737aae731fe7ab97472d66a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:26 +0000
Subject: [PATCH 44/53] fix: horizontal edges cannot be plotted on their own

---
 puncturedfem/plot/plot_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puncturedfem/plot/plot_util.py b/puncturedfem/plot/plot_util.py
index 18c2167..ac703e5 100644
--- a/puncturedfem/plot/plot_util.py
+++ b/puncturedfem/plot/plot_util.py
@@ -118,6 +118,9 @@ def get_figure_size(
     """
     dx = max_x - min_x
     dy = max_y - min_y
+    if min(dx, dy) < 1e-8 * max(dx, dy):
+        # nothing but horizontal or vertical line segments
+        return h, h
     w = h * dx / dy
     return w, h
 
-- 
2.43.0


From 437119a5e442e3a8230e23da778561ad3d65cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:38 +0000
Subject: [PATCH 45/53] fix: global plots cannot show the axes

---
 puncturedfem/plot/globfun_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 3768103..dbcf10e 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -216,7 +216,7 @@ class GlobalFunctionPlot:
                 fig_handle=fig,
                 show_colorbar=False,
                 show_triangulation=False,
-                show_axis=False,
+                show_axis=show_axis,
                 show_boundary=False,
                 clim=(global_min, global_max),
                 colormap=colormap,
-- 
2.43.0


From e63030b89d983dde50dc7eef9e9c4398fc2cdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:19 +0000
Subject: [PATCH 46/53] fix: a polynomial cannot be evaluated at one x and
 several y

---
 puncturedfem/locfun/poly/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 98ffe77..c182ed6 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -466,7 +466,7 @@ class Polynomial:
             Value(s) of the Polynomial at the point(s) (x, y). If x and y are
             arrays, returns an array of values of the same shape.
         """
-        val = np.zeros(np.shape(x))
+        val = np.zeros(np.broadcast(x, y).shape)
         for m in self.monos:
             val += m.eval(x, y)
         return val
-- 
2.43.0


From c9543c612561b7afeae7a04fe90d6abe00e8326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:03 +0000
Subject: [PATCH 47/53] fix: a piecewise polynomial wrote every edge over the
 values of the first

---
 puncturedfem/locfun/poly/piecewise_poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/locfun/poly/piecewise_poly.py b/puncturedfem/locfun/poly/piecewise_poly.py
index 34ac2ce..7a03319 100644
--- a/puncturedfem/locfun/poly/piecewise_poly.py
+++ b/puncturedfem/locfun/poly/piecewise_poly.py
@@ -132,6 +132,7 @@ class PiecewisePolynomial:
         for i in range(m):
             e = edges[i]
             vals[idx : idx + e.num_pts] = vals_arr[i]
+            idx += e.num_pts
         return vals
 
     def eval_on_mesh_boundary(self, K: MeshCell) -> ndarray:
-- 
2.43.0


From f5c4e5e9b41c1182d497137401474aee6f529dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 48/53] fix: interior values of a LocalFunction could not be
 computed

The cell keeps only the grid points inside it, so there is no is_inside mask;
the step of the integral formula is that of each edge.
---
 puncturedfem/locfun/locfun.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/puncturedfem/locfun/locfun.py b/puncturedfem/locfun/locfun.py
index 22247cd..4be9ac8 100644
--- a/puncturedfem/locfun/locfun.py
+++ b/puncturedfem/locfun/locfun.py
@@ -320,8 +320,8 @@ class LocalFunction:
             Whether or not to compute the gradient, by default True.
         """
         # points for evaluation
-        y1 = self.nyst.K.int_x1[self.nyst.K.is_inside]
-        y2 = self.nyst.K.int_x2[self.nyst.K.is_inside]
+        y1 = self.nyst.K.int_x1
+        y2 = self.nyst.K.int_x2
 
         # initialize temporary arrays
         N = len(y1)
@@ -379,7 +379,12 @@ class LocalFunction:
 
         # Jacobian and trapezoid weights
         dx_norm = self.nyst.K.get_dx_norm()
-        h = 2 * np.pi * self.nyst.K.num_edges / self.nyst.K.num_pts
+        h = np.concatenate(
+            [
+                np.full(e.num_pts - 1, 2 * np.pi / (e.num_pts - 1))
+                for e in self.nyst.K.get_edges()
+            ]
+        )
         dx_norm *= h
 
         # interior values and gradient of conjugable part via Cauchy's
@@ -389,20 +394,7 @@ class LocalFunction:
             grad1 += np.sum(dx_norm * g1, axis=1) * 0.5 / np.pi
             grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
 
-        # size of grid of evaluation points
-        rows, cols = self.nyst.K.int_mesh_size
-
-        # initialize arrays with proper size
-        self.int_vals = np.empty((rows, cols))
-        self.int_grad1 = np.empty((rows, cols))
-        self.int_grad2 = np.empty((rows, cols))
-
-        # default to not-a-number
-        self.int_vals[:] = np.nan
-        self.int_grad1[:] = np.nan
-        self.int_grad2[:] = np.nan
-
-        # set values within cell interior
-        self.int_vals[self.nyst.K.is_inside] = vals
-        self.int_grad1[self.nyst.K.is_inside] = grad1
-        self.int_grad2[self.nyst.K.is_inside] = grad2
+        # values at the interior points of the cell
+        self.int_vals = vals
+        self.int_grad1 = grad1
+        self.int_grad2 = grad2
-- 
2.43.0


From e86a8898ed087a736737d2f6fb2748f647cd8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:52 +0000
Subject: [PATCH 49/53] fix: the L2 product of a LocalFunction without
 biharmonic part raised AttributeError

---
 puncturedfem/locfun/locfun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/locfun/locfun.py b/puncturedfem/locfun/locfun.py
index 4be9ac8..d81ac73 100644
--- a/puncturedfem/locfun/locfun.py
+++ b/puncturedfem/locfun/locfun.py
@@ -139,6 +139,7 @@ class LocalFunction:
         self._compute_harmonic_part_trace(trace)
         self._compute_harmonic_conjugate()
         self._compute_harmonic_weighted_normal_derivative()
+        self.biharmonic_trace = None
         if compute_for_l2:
             self._compute_biharmonic()
         if compute_int_vals or compute_int_grad:
-- 
2.43.0


From 036db101e067fc571d91b1eab4342d8a7dd3dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 50/53] fix: Edge.set_curve_type checks the curve type it is
 given

---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 10cdc09..4e1b69f 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -209,7 +209,7 @@ class Edge:
         if not isinstance(curve_type, str):
             raise ValueError("curve type must be a str")
         dirname = path.dirname(__file__)
-        filename = path.join(dirname, "edgelib/" + self.curve_type + ".py")
+        filename = path.join(dirname, "edgelib/" + curve_type + ".py")
         if not path.exists(filename):
             raise FileExistsError(filename + "does not exist")
         self.curve_type = curve_type
-- 
2.43.0


From 19010eceb0b171b3d96cf16cc78a0e2e1080a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 51/53] fix: set_interior_point_tolerance keeps both tolerances
 when it refuses one

---
 puncturedfem/mesh/cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 6758dc2..bdd3603 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -484,11 +484,11 @@ class MeshCell:
             raise TypeError("atol" + msg)
         if atol <= 0:
             raise TypeError("atol" + msg)
-        self.atol = atol
         if not isinstance(rtol, (float, int)):
             raise TypeError("rtol" + msg)
         if rtol <= 0:
             raise TypeError("rtol" + msg)
+        self.atol = atol
         self.rtol = rtol
 
     def generate_interior_points(self) -> None:
-- 
2.43.0


From 05e5944458d239b1f346984125149bd6bfc9250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:40 +0000
Subject: [PATCH 52/53] fix: vertex functions of edge spaces listed in another
 order than the edges

---
 puncturedfem/locfun/local_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/local_space.py b/puncturedfem/locfun/local_space.py
index f870212..4ba0c06 100644
--- a/puncturedfem/locfun/local_space.py
+++ b/puncturedfem/locfun/local_space.py
@@ -235,11 +235,13 @@ class LocalPoissonSpace:
             vert_keys_iter = tqdm(vert_keys, desc="Building vertex functions")
         else:
             vert_keys_iter = vert_keys
+        edge_idx_list = [e.idx for e in self.nyst.K.get_edges()]
         for vert_key in vert_keys_iter:
             v_trace = DirichletTrace(
                 edges=self.nyst.K.get_edges(), funcs=lambda x, y: 0
             )
-            for j, b in enumerate(edge_spaces):
+            for b in edge_spaces:
+                j = edge_idx_list.index(b.e.idx)
                 for k in range(b.num_vert_funs):
                     if b.vert_fun_global_keys[k].vert_idx == vert_key.vert_idx:
                         v_trace.set_func_from_poly_on_edge(
-- 
2.43.0


From 805d30ec66aee5d7eef58e8ad39a2ac5bae4b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:08 +0000
Subject: [PATCH 53/53] fix: a refused parameterize leaves the Edge as it was

---
 puncturedfem/mesh/edge.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 4e1b69f..0309abb 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -7,6 +7,7 @@ Edge
     Oriented joining two vertices of a planar mesh.
 """
 
+from copy import copy
 from os import path
 from typing import Any
 
@@ -275,6 +276,15 @@ class Edge:
             curvature : np.ndarray
                 The signed curvature at each sampled point on the Edge.
         """
+        # sample a copy, so that a failure leaves this Edge as it was
+        sampled = copy(self)
+        sampled._sample(quad_dict)
+        self.__dict__.update(sampled.__dict__)
+
+    def _sample(self, quad_dict: QuadDict) -> None:
+        """
+        Sample the Edge and apply the transformations in the diary.
+        """
         # check for acceptable quadrature type
         if self.quad_type not in ["trap", "kress"]:
             raise ValueError("Quad type not recognized")
-- 
2.43.0

