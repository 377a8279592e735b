From 8ea75bbe1a2666087ab9a8f1e8f317b5d288ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:09 +0000
Subject: [PATCH 01/46] fix: compare sides of an edge by sign instead of exact
 direction

Points close to an internal diagonal of a triangulated polygon were reported
as outside, because two almost parallel cross products were compared with a
tolerance of 1e-13. Rays could leave a closed room through such strips.
---
 building3d/geom/triangles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..135da77 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -76,9 +76,7 @@ def is_point_on_same_side(
         # This point lies on the edge connecting p1 and p2
         return False
     else:
-        vtest /= len_vtest
-        vref /= len_vref
-        return bool(np.isclose(vtest, vref, atol=atol).all())
+        return bool(np.dot(vtest, vref) > 0)
 
 
 @njit
-- 
2.43.0


From dd197566edd1233b3a5f14bc24de8270c522abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:09 +0000
Subject: [PATCH 02/46] fix: divide the polygon centroid by the total area

The area-weighted sum of triangle centroids was returned as is, so the centroid
was right only for polygons with unit area.
---
 building3d/geom/polygon/centroid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..c072d08 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,4 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
-    return poly_ctr
+    return poly_ctr / weights.sum()
-- 
2.43.0


From 945f76c150468682002e2ea3b931f4a7f712f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:09 +0000
Subject: [PATCH 03/46] fix: count only consecutive failures in ear clipping

Failures were accumulated over the whole run, so valid polygons with many
non-convex or collinear corners raised TriangulationError.
---
 building3d/geom/triangles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 135da77..c09c6d7 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -260,6 +260,7 @@ def triangulate(
                 triangles.append((prev_id, curr_id, next_id))
                 # Remove pos from index
                 vertices.pop(pos)
+                num_fail = 0
                 continue
             else:
                 # There is some point inside this triangle
-- 
2.43.0


From 0037681dc5ec9b9c55874e763a368588666cfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:32 +0000
Subject: [PATCH 04/46] fix: compute tetrahedron volume without taking the root
 of a rounding error

The Cayley-Menger expression of a flat tetrahedron can be slightly negative,
which made the volume NaN. As a result, the volume of most boxes with a corner
in the origin was NaN.
---
 building3d/geom/tetrahedrons.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..3438760 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
 
@@ -13,23 +12,8 @@ def tetrahedron_volume(
     pt2: PointType,
     pt3: PointType,
 ) -> FLOAT:
-    """Calculates volume using the Cayley-Menger formula."""
-    # Edge lengths
-    a = np.linalg.norm(pt1 - pt0)
-    b = np.linalg.norm(pt2 - pt0)
-    c = np.linalg.norm(pt3 - pt0)
-    d = np.linalg.norm(pt2 - pt1)
-    e = np.linalg.norm(pt3 - pt2)
-    f = np.linalg.norm(pt3 - pt1)
-
-    x = b**2 + c**2 - e**2
-    y = a**2 + c**2 - f**2
-    z = a**2 + b**2 - d**2
-
-    nominator = (
-        4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
-    )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    """Calculates volume using the scalar triple product."""
+    vol = np.abs(np.dot(pt1 - pt0, np.cross(pt2 - pt0, pt3 - pt0))) / 6.0
 
     return vol
 
-- 
2.43.0


From 6d47ff13272e0aa299ec27a6a6f3bff2f99417c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:32 +0000
Subject: [PATCH 05/46] fix: compute triangle area without taking the root of a
 rounding error

Heron's formula gave NaN for some collinear points and a non-zero area for
others.
---
 building3d/geom/triangles.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index c09c6d7..d4a680a 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.config import GEOM_ATOL
 from building3d.config import GEOM_RTOL
 from building3d.config import POINT_NUM_DEC
@@ -17,19 +16,8 @@ from building3d.geom.types import VectorType
 
 @njit
 def triangle_area(pt1: PointType, pt2: PointType, pt3: PointType) -> float:
-    """Calculates triangle area using the Heron's formula.
-
-    Reference: https://en.wikipedia.org/wiki/Heron%27s_formula
-    """
-    va = pt2 - pt1
-    vb = pt3 - pt2
-    vc = pt3 - pt1
-    a = np.linalg.norm(va)
-    b = np.linalg.norm(vb)
-    c = np.linalg.norm(vc)
-
-    s = 0.5 * (a + b + c)
-    area = np.sqrt(s * (s - a) * (s - b) * (s - c) + EPSILON)
+    """Calculates triangle area using the cross product."""
+    area = 0.5 * np.linalg.norm(np.cross(pt2 - pt1, pt3 - pt1))
 
     return area
 
-- 
2.43.0


From d0831ccdee1b5f67ad98e41f3b1dbc41cbd00fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 06/46] fix: roll polygon points until the first corner is
 convex

The class documentation promises it for polygons with a given normal vector.
Without it the plane coefficients (calculated from the first corner) had the
opposite sign or were NaN.
---
 building3d/geom/polygon/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..6e033e5 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -7,6 +7,7 @@ from building3d.config import GEOM_ATOL
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.points import are_points_coplanar
+from building3d.geom.points import roll_forward
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.polygon.area import polygon_area
 from building3d.geom.polygon.centroid import polygon_centroid
@@ -83,6 +84,13 @@ class Polygon:
             assert len(tri) > 0, "Empty triangles provided"
             self.tri: IndexType = tri
 
+        # Roll the points forward until the first corner is convex
+        for _ in range(len(self.pts)):
+            if np.dot(normal(self.pts[-1], self.pts[0], self.pts[1]), self.vn) > 0:
+                break
+            self.pts = roll_forward(self.pts)
+            self.tri = (self.tri + 1) % len(self.pts)
+
         self.ctr: PointType = polygon_centroid(self.pts, self.tri)
         self.area: float = polygon_area(self.pts, self.vn)
         self.plane_coefficients: tuple[FLOAT, FLOAT, FLOAT, FLOAT] = plane_coefficients(
-- 
2.43.0


From 78104b880599a8c2e9c50463c996e6aa5fe5b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 07/46] fix: keep the right normal when flipping non-convex
 polygons

The normal of the flipped polygon was recalculated from its first corner, which
does not have to be convex after reversing the points.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 6e033e5..e196e30 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -147,7 +147,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-1 * self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From f200f963c0ceec5fd5670f760622c671f2cbd95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:49 +0000
Subject: [PATCH 08/46] fix: allow comparing polygons with different number of
 points

It raised ValueError instead of returning False.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e196e30..7ce95fc 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -183,7 +183,7 @@ class Polygon:
         return are_polygons_touching(self.pts, self.tri, other.pts, other.tri)
 
     def __eq__(self, other):
-        if np.allclose(self.pts, other.pts):
+        if self.pts.shape == other.pts.shape and np.allclose(self.pts, other.pts):
             return True
         else:
             return False
-- 
2.43.0


From 06f4655c909d48fde56c7c12743c224984f43c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:18 +0000
Subject: [PATCH 09/46] fix: keep floor and ceiling names and accept any first
 corner in floor plans

Flipping the floor or ceiling polygon replaced its name with a random one.
Plans with a non-convex first corner could not be triangulated.
---
 building3d/geom/solid/floor_plan.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..8d5626c 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -101,15 +101,13 @@ def floor_plan(
 
         walls.append(wall)
 
-    floor_poly = Polygon(floor_pts, name=floor_name)
     # Floor's normal should point downwards
-    if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
+    floor_vn = np.array([0.0, 0.0, -1.0], dtype=FLOAT)
+    floor_poly = Polygon(floor_pts, name=floor_name, vn=floor_vn)
 
-    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
     # Ceiling's normal should point upwards
-    if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+    ceiling_vn = np.array([0.0, 0.0, 1.0], dtype=FLOAT)
+    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name, vn=ceiling_vn)
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From da87545e0b6ef0ae0a2ca8c32e9220066d74784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:44 +0000
Subject: [PATCH 10/46] fix: measure distance from the segment when testing if
 a point is on it

The tolerance was applied to the cross product, which grows with the length of
the segment. Intersections of long segments were missed. Also, every point was
reported as laying on a segment reduced to a single point.
---
 building3d/geom/points/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 5b257f3..9326445 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -257,10 +257,13 @@ def is_point_on_segment(
     if np.allclose(ptest, pt1, atol=atol) or np.allclose(ptest, pt2, atol=atol):
         return True
 
-    # Check collinearity using the cross product
-    if not np.allclose(
-        np.cross(ptest - pt1, pt2 - pt1), np.zeros(3, dtype=FLOAT), atol=atol
-    ):
+    # Segment reduced to a single point, which is different than ptest
+    length = np.linalg.norm(pt2 - pt1)
+    if length < atol:
+        return False
+
+    # Check collinearity using the distance to the line (from the cross product)
+    if np.linalg.norm(np.cross(ptest - pt1, pt2 - pt1)) / length > atol:
         return False
 
     # Check if the point lies within the segment bounds
-- 
2.43.0


From ff80f41b74cf1ffe5e5f6f859791b52878ceae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:44 +0000
Subject: [PATCH 11/46] fix: return distance to the point for edges with zero
 length

It was NaN (or ZeroDivisionError if compiled).
---
 building3d/geom/points/distance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/geom/points/distance.py b/building3d/geom/points/distance.py
index 86f86d0..a4f7263 100644
--- a/building3d/geom/points/distance.py
+++ b/building3d/geom/points/distance.py
@@ -11,6 +11,10 @@ def distance_point_to_edge(ptest: PointType, pt1: PointType, pt2: PointType) ->
     v21 = pt2 - pt1
     vt1 = ptest - pt1
 
+    if np.dot(v21, v21) == 0:
+        # Edge reduced to a single point
+        return np.linalg.norm(vt1)
+
     # Project vt1 vector onto the line segment v21
     # t represents a value between 0 and 1 where:
     # t=0 corresponts to the start of point of the segment
-- 
2.43.0


From 91f7ebe5c077c3d0fdb0dbffe4ffff6c8b7ad312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 12/46] fix: require the same number of points in facing
 polygons

Whether two polygons were facing depended on the order of arguments, because
additional points of the second polygon were ignored.
---
 building3d/geom/polygon/facing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..488cc58 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -59,7 +59,7 @@ def are_polygons_facing(
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) and num_matching == len(pts2):
         if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
             return True
     return False
-- 
2.43.0


From c85c7e5e3b2eab6bb934b734aa17ee11338a9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 13/46] fix: detect crossing polygons which share a corner or
 cross between the sampled points

Pairs of edges with a common point were skipped, so polygons meeting in their
corners were never reported as crossing. Edges crossing properly were checked
only at 10 sampled points, so narrow overlaps could be missed.
---
 building3d/geom/polygon/crossing.py | 39 +++++++++++++----------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index bc34a88..09484df 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -8,7 +8,6 @@ from building3d.geom.bboxes import cube_edges
 from building3d.geom.bboxes import cube_polygons
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
-from building3d.geom.points.distance import distance_point_to_edge
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_inside
@@ -43,29 +42,25 @@ def are_polygons_crossing(
 
     for e1 in polygon_edges(pts1):
         for e2 in polygon_edges(pts2):
-            if (
-                points_equal(e1[0], e2[0])
-                or points_equal(e1[0], e2[1])
-                or points_equal(e1[1], e2[1])
-                or points_equal(e1[1], e2[0])
-            ):
+            p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
+            if np.isnan(p_cross).any():
                 continue
+            elif (
+                points_equal(p_cross, e1[0])
+                or points_equal(p_cross, e1[1])
+                or points_equal(p_cross, e2[0])
+                or points_equal(p_cross, e2[1])
+            ):
+                # The edges are only touching
+                for x in np.linspace(0, 1, 10):
+                    p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
+                    if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
+                        return True
+                    p_mid = new_point_between_2_points(e2[0], e2[1], rel_d=x)
+                    if is_point_inside(p_mid, pts1, tri1, boundary_in=False):
+                        return True
             else:
-                p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
-                if np.isnan(p_cross).any():
-                    continue
-                elif np.isclose(
-                    distance_point_to_edge(p_cross, e1[0], e1[1]), 0
-                ) or np.isclose(distance_point_to_edge(p_cross, e2[0], e2[1]), 0):
-                    for x in np.linspace(0, 1, 10):
-                        p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
-                        if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
-                            return True
-                        p_mid = new_point_between_2_points(e2[0], e2[1], rel_d=x)
-                        if is_point_inside(p_mid, pts1, tri1, boundary_in=False):
-                            return True
-                else:
-                    return True
+                return True
     return False
 
 
-- 
2.43.0


From f12b03fe1833d0d9f2a322b23f078769da9390ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 14/46] fix: do not report overlapping polygons as touching

Overlaps narrower than the distance between the sampled points were reported as
touching. The result depended also on the order of arguments if one polygon
contained all points of the other one.
---
 building3d/geom/polygon/touching.py | 42 +++++++----------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..3e22c93 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -3,9 +3,10 @@ from numba import njit
 
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
-from building3d.geom.points import points_equal
+from building3d.geom.polygon.crossing import are_polygons_crossing
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.ispointinside import is_point_inside
+from building3d.geom.triangles import triangle_centroid
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 
@@ -37,7 +38,13 @@ def are_polygons_touching(
     if not are_bboxes_overlapping(bbox1, bbox2):
         return False
 
-    if are_all_points_same(pts1, pts2):
+    if are_polygons_crossing(pts1, tri1, pts2, tri2):
+        return False
+
+    # If the polygons cover the same area, no edge goes through the interior of the other polygon
+    mid_pt1 = triangle_centroid(pts1[tri1[0, 0]], pts1[tri1[0, 1]], pts1[tri1[0, 2]])
+    mid_pt2 = triangle_centroid(pts2[tri2[0, 0]], pts2[tri2[0, 1]], pts2[tri2[0, 2]])
+    if is_point_inside(mid_pt1, pts2, tri2) or is_point_inside(mid_pt2, pts1, tri1):
         return False
 
     ab_touch, ab_inside = check_poly_a_against_b(pts1, tri1, pts2)
@@ -75,37 +82,6 @@ def are_bboxes_overlapping(bbox1, bbox2):
         return True
 
 
-@njit
-def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
-    """Check if all points in two sets are the same.
-
-    This function compares two sets of points and determines if they contain
-    the same points, regardless of order.
-
-    Args:
-        pts1 (PointType): First set of points.
-        pts2 (PointType): Second set of points.
-
-    Returns:
-        bool: True if all points in pts1 have a matching point in pts2,
-              False otherwise.
-    """
-    num_matching = 0
-    matched = set()
-
-    for i in range(pts1.shape[0]):
-        for j in range(pts2.shape[0]):
-            if j not in matched:
-                if points_equal(pts1[i], pts2[j]):
-                    num_matching += 1
-                    matched.add(j)
-                    break
-    if num_matching == len(pts1):
-        return True
-    else:
-        return False
-
-
 @njit
 def check_poly_a_against_b(
     pts_a: PointType,
-- 
2.43.0


From 1829d3a224b8075c7d9358c7ba188ac364daa118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:59 +0000
Subject: [PATCH 15/46] fix: insert the cut at the right edge when slicing
 starts and ends on one edge

---
 .../geom/polygon/slice/get_point_arrays.py    | 29 +++++++------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 721076e..3eae99f 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -2,7 +2,6 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
-from building3d.geom.points import is_point_in_array
 from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
@@ -10,7 +9,6 @@ from building3d.geom.polygon.slice.locate_slicing_points import \
     locate_slicing_points
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
-from building3d.geom.vectors import normal
 
 from .constants import EDGE
 from .constants import VERTEX
@@ -147,26 +145,19 @@ def get_point_arrays(
         pts1 = slicing_pts.copy()  # name=name1
 
         # Polygon 2 is composed of both, own points and sliced points
-        # slicing_pts must have opposite order than pts -> compare their normal vectors
-        slicing_vn = normal(slicing_pts[-1], slicing_pts[0], slicing_pts[1])
-        poly_vn = normal(pts[-1], pts[0], pts[1])
-        if np.allclose(-1 * slicing_vn, poly_vn):
-            pass
-        elif np.allclose(slicing_vn, poly_vn):
+        # slicing_pts must be ordered along the edge -> compare distances to its first point
+        dist_first = np.linalg.norm(slicing_pts[0] - edges[edge_num, 0])
+        dist_last = np.linalg.norm(slicing_pts[-1] - edges[edge_num, 0])
+        if dist_first > dist_last:
             slicing_pts = slicing_pts[::-1]  # Re-ordering needed
-        else:
-            raise ValueError("Unexpected slicing plane orientation")
 
         points_2 = []
-        slice_points_included = False
-        for p in pts:
-            points_2.append(p)
-            if not slice_points_included:
-                if is_point_in_array(p, edges[edge_num]):
-                    # Slicing ocurred at this edge - need to add slice_points
-                    for sp in slicing_pts:
-                        points_2.append(sp)
-                    slice_points_included = True
+        for i in range(len(pts)):
+            points_2.append(pts[i])
+            if i == edge_num:
+                # Slicing ocurred at this edge - need to add slice_points
+                for sp in slicing_pts:
+                    points_2.append(sp)
 
         pts2 = list_pts_to_array(points_2)
 
-- 
2.43.0


From aded87725051d7b27f1c8a2efc362fdee352abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:21 +0000
Subject: [PATCH 16/46] fix: return the identity matrix when no rotation is
 needed

---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From 4392d41a3b79e9a958014c5a06e82a6951812c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:40 +0000
Subject: [PATCH 17/46] fix: move points to the plane also when they are
 already parallel to it

---
 building3d/geom/rotation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..2af1896 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -116,25 +116,24 @@ def rotate_points_to_plane(
     # Find rotation axis
     rotaxis = np.cross(p_norm, u)
     if (np.abs(rotaxis) < GEOM_ATOL).all():
-        # No need to rotate, the points are already at the correct plane
+        # No need to rotate, the points are already parallel to the plane
         phi = 0.0
-        return pts, rotaxis, phi
+    else:
+        rotaxis /= np.linalg.norm(rotaxis)
 
-    rotaxis /= np.linalg.norm(rotaxis)
+        # Find rotation angle
+        phi = float(angle(p_norm, u))
 
-    # Find rotation angle
-    phi = angle(p_norm, u)
-
-    # Rotate the points
-    R = rotation_matrix(rotaxis, float(phi))
-    pts = pts.dot(R.T)
+        # Rotate the points
+        R = rotation_matrix(rotaxis, phi)
+        pts = pts.dot(R.T)
 
     # Move points back from anchor
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts += anchor
+        pts = pts + anchor
 
     # Move points to d (translation)
     p_dest = u * d
-    pts += p_dest
+    pts = pts + p_dest
 
-    return pts, rotaxis, float(phi)
+    return pts, rotaxis, phi
-- 
2.43.0


From 4be74cf19305d8ec9289ee679cfce2ff7ab62e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:22 +0000
Subject: [PATCH 18/46] fix: ignore repeated points in the collinearity test

---
 building3d/geom/points/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 9326445..c433421 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -174,9 +174,15 @@ def are_points_collinear(
 
     are_collinear = True
     num_vectors = vectors.shape[0]
+    ref = 0  # reference vector index
     for i in range(1, num_vectors):
-        if np.allclose(vectors[i], vectors[i - 1], atol=atol) or np.allclose(
-            vectors[i], -1 * vectors[i - 1], atol=atol
+        if not vectors[ref].any():
+            # Points equal to the first one do not define any direction
+            ref = i
+        elif not vectors[i].any():
+            pass
+        elif np.allclose(vectors[i], vectors[ref], atol=atol) or np.allclose(
+            vectors[i], -1 * vectors[ref], atol=atol
         ):
             pass
         else:
-- 
2.43.0


From 7df298d4bf7df563f6f37df21d5e5c14a0556d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:03 +0000
Subject: [PATCH 19/46] fix: keep the order of intersection points along each
 slicing edge

---
 .../geom/polygon/slice/add_intersection_points.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/slice/add_intersection_points.py b/building3d/geom/polygon/slice/add_intersection_points.py
index 40b2b54..56964bd 100644
--- a/building3d/geom/polygon/slice/add_intersection_points.py
+++ b/building3d/geom/polygon/slice/add_intersection_points.py
@@ -70,16 +70,27 @@ def add_intersection_points(
     for i1 in range(edges1.shape[0]):
         out1.append(edges1[i1, 0])
         if i1 in intersect_ix1:
-            for pt_index in intersect_ix1[i1]:
+            for pt_index in sort_by_distance(
+                edges1[i1, 0], intersect_pts, intersect_ix1[i1]
+            ):
                 out1.append(intersect_pts[pt_index])
 
     for i2 in range(edges2.shape[0]):
         out2.append(edges2[i2, 0])
         if i2 in intersect_ix2:
-            for pt_index in intersect_ix2[i2]:
+            for pt_index in sort_by_distance(
+                edges2[i2, 0], intersect_pts, intersect_ix2[i2]
+            ):
                 out2.append(intersect_pts[pt_index])
 
     new_pts1 = list_pts_to_array(out1)
     new_pts2 = list_pts_to_array(out2)
 
     return new_pts1, new_pts2
+
+
+@njit
+def sort_by_distance(start, pts, indices):
+    """Returns point indices sorted by the distance from `start`."""
+    pairs = sorted([(np.linalg.norm(pts[i] - start), i) for i in indices])
+    return [i for _, i in pairs]
-- 
2.43.0


From 113fc46540438d4d4af28b9cfcc7c849cf1c0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:03 +0000
Subject: [PATCH 20/46] fix: slice along a single chain when the slicing points
 cross a polygon many times

The slicing points were selected by the location of the neighbouring points.
When the points of another polygon crossed the sliced polygon twice, points of
both crossings were kept and slicing failed or had no effect. Stitching such
solids ended with an error or an endless recursion. A segment belongs to the
slice if its middle point is inside the polygon, so use this condition and keep
the longest chain.
---
 .../polygon/slice/remove_redundant_points.py  | 202 ++++--------------
 1 file changed, 39 insertions(+), 163 deletions(-)

diff --git a/building3d/geom/polygon/slice/remove_redundant_points.py b/building3d/geom/polygon/slice/remove_redundant_points.py
index b32aab3..35eebec 100644
--- a/building3d/geom/polygon/slice/remove_redundant_points.py
+++ b/building3d/geom/polygon/slice/remove_redundant_points.py
@@ -1,8 +1,7 @@
 import numpy as np
 from numba import njit
 
-from building3d.geom.points import is_point_in_array
-from building3d.geom.points import roll_forward
+from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.slice.locate_slicing_points import \
     locate_slicing_points
@@ -11,10 +10,7 @@ from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 
 from .constants import EDGE
-from .constants import EXTERIOR
 from .constants import INTERIOR
-from .constants import INVALID_INDEX
-from .constants import INVALID_LOC
 from .constants import VERTEX
 
 
@@ -23,7 +19,6 @@ def remove_redundant_points(
     slicing_pts: PointType,
     pts: PointType,
     tri: IndexType,
-    num_try: int = 0,
 ) -> PointType:
     """Keeps only these slicing points that are needed to perform the slice.
 
@@ -49,167 +44,48 @@ def remove_redundant_points(
     assert len(slicing_pts.shape) == 2 and slicing_pts.shape[1] == 3
 
     edges = polygon_edges(pts)
+    num = len(slicing_pts)
+
+    # Locate slicing points and middle points of the segments between them (this -> next).
+    # A segment is a part of the slice only if its middle point is inside the polygon,
+    # otherwise it is outside the polygon or goes along one of the edges.
+    mid_pts = np.zeros((num, 3), dtype=FLOAT)
+    for i in range(num):
+        mid_pts[i] = (slicing_pts[i] + slicing_pts[(i + 1) % num]) / 2.0
+
     sploc = locate_slicing_points(slicing_pts, pts, tri, edges)
+    midloc = locate_slicing_points(mid_pts, pts, tri, edges)
 
-    if sploc[0][0] == INTERIOR or sploc[-1][0] == INTERIOR:
-        if num_try > len(slicing_pts):
-            return slicing_pts[0:1]  # Return empty list
-        else:
-            return remove_redundant_points(
-                roll_forward(slicing_pts), pts, tri, num_try + 1
-            )
-
-    num_interior = sum([1 for loc, _ in sploc if loc == INTERIOR])
-    num_at_vertex = sum([1 for loc, _ in sploc if loc == VERTEX])
-    num_at_edge = sum([1 for loc, _ in sploc if loc == EDGE])
-
-    # Special cases
-    if len(slicing_pts) == 4 and len(pts) == 4:
-        if num_at_vertex == 2 and num_at_edge == 2:
-            # This is the only case that does not work with the remaining code,
-            # so I need to detect it early and return :/
-            # Let's keep only the edge points
-            new_points = []
-            for i in range(len(slicing_pts)):
-                this_pt = slicing_pts[i]
-                this_loc_type, this_loc_ix = sploc[i]
-
-                if this_loc_type == EDGE:
-                    new_points.append(this_pt)
-
-            # Convert list of points to an array
-            # (done this way to keep it compatible with numba)
-            new_pts_arr = np.zeros((len(new_points), 3), dtype=FLOAT)
-            for i in range(len(new_points)):
-                new_pts_arr[i] = new_points[i]
-
-            return new_pts_arr
-
-
-    # Standard cases
-    new_points = []
-    for i in range(len(slicing_pts)):
-        # Collect information:
-        # - point
-        # - location type
-        # - location index
-        # for:
-        # - previous point
-        # - this point
-        # - next point
-
-        # This point
-        this_pt = slicing_pts[i]
-        this_loc_type, this_loc_ix = sploc[i]
-
-        # Previous point
-        if i > 0:
-            prev_loc_type, prev_loc_ix = sploc[i - 1]
-        else:
-            prev_loc_type = INVALID_LOC
-            prev_loc_ix = INVALID_INDEX
-
-        # Next point
-        if i < len(slicing_pts) - 1:
-            next_loc_type, next_loc_ix = sploc[i + 1]
-        else:
-            next_loc_type = INVALID_LOC
-            next_loc_ix = INVALID_INDEX
-
-        # Check if this point should be kept or removed
-        if this_loc_type == EXTERIOR:
-            # Points outside polygon are not included
+    # Find the longest chain which goes through the interior from boundary to boundary
+    first = 0
+    length = 0
+    for i in range(num):
+        if sploc[i][0] not in (VERTEX, EDGE):
             continue
 
-        elif this_loc_type == INTERIOR:
-            # Points inside the polygon are included
-            new_points.append(this_pt)
-
-        elif next_loc_type == INTERIOR and this_loc_type in (VERTEX, EDGE):
-            # Points thouching a vertex or edge are included if the next one is inside the polygon
-            new_points.append(this_pt)
-
-        elif prev_loc_type == INTERIOR and this_loc_type in (VERTEX, EDGE):
-            # This is the last needed point
-            new_points.append(this_pt)
-            break
-
-        elif this_loc_type == VERTEX and next_loc_type == VERTEX and prev_loc_type != EDGE:
-            if num_interior == 0 and this_loc_ix != next_loc_ix:
-                # Include it, because there are no interior points
-                # and it is a slice from vertex to vertex
-                new_points.append(this_pt)
-            else:
-                # Don't include it, because it is not crossing the polygon
-                # (the segment from this to next point is along the edge)
-                continue
-
-        elif this_loc_type == VERTEX and prev_loc_type == VERTEX and next_loc_type != EDGE:
-            if num_interior == 0 and this_loc_ix != prev_loc_ix:
-                # Include it, because there are no interior points
-                # and it is a slice from vertex to vertex
-                # (same case as the previous one, but the other end of the slice)
-                new_points.append(this_pt)
-            else:
-                # Don't include it, because it is not crossing the polygon
-                # (the segment from this to next point is along the edge)
-                continue
-
-        elif this_loc_type == EDGE and next_loc_type == EDGE:
-            if num_interior == 0 and this_loc_ix != next_loc_ix:
-                # Include it, because there are no interior points
-                # and it is a slice from edge to edge
-                new_points.append(this_pt)
-            else:
-                # Don't include it, because it is not crossing the polygon
-                # (the segment from this to next point is along the edge)
-                continue
-
-        elif this_loc_type == EDGE and prev_loc_type == EDGE:
-            if num_interior == 0 and this_loc_ix != prev_loc_ix:
-                # Include it, because there are no interior points
-                # and it is a slice from edge to edge
-                # (same case as the previous one, but the other end of the slice)
-                new_points.append(this_pt)
-                # This is the last needed point
+        # Follow the chain until it leaves the interior
+        n = 0
+        while n < num and midloc[(i + n) % num][0] == INTERIOR:
+            n += 1
+            if sploc[(i + n) % num][0] != INTERIOR:
                 break
-            else:
-                # Don't include it, because it is not crossing the polygon
-                # (the segment from this to next point is along the edge)
-                continue
-
-        elif this_loc_type == VERTEX and next_loc_type == EDGE:
-            if num_interior == 0 and not is_point_in_array(this_pt, edges[next_loc_ix]):
-                new_points.append(this_pt)
-            else:
-                continue
-
-        elif this_loc_type == VERTEX and prev_loc_type == EDGE:
-            if num_interior == 0 and not is_point_in_array(this_pt, edges[prev_loc_ix]):
-                new_points.append(this_pt)
-            else:
-                continue
-
-        elif this_loc_type == EDGE and next_loc_type == VERTEX:
-            if num_interior == 0 and not is_point_in_array(
-                pts[next_loc_ix], edges[this_loc_ix]
-            ):
-                new_points.append(this_pt)
-            else:
-                continue
-
-        elif this_loc_type == EDGE and prev_loc_type == VERTEX:
-            if num_interior == 0 and not is_point_in_array(
-                pts[prev_loc_ix], edges[this_loc_ix]
-            ):
-                new_points.append(this_pt)
-            else:
-                continue
-
-    # Convert list of points to an array
-    # (done this way to keep it compatible with numba)
-    new_pts_arr = np.zeros((len(new_points), 3), dtype=FLOAT)
-    for i in range(len(new_points)):
-        new_pts_arr[i] = new_points[i]
+
+        last = (i + n) % num
+        if sploc[last][0] not in (VERTEX, EDGE):
+            # This chain does not reach the boundary
+            continue
+        if points_equal(slicing_pts[i], slicing_pts[last]):
+            # This chain returns to where it started
+            continue
+        if n > length:
+            first = i
+            length = n
+
+    if length == 0:
+        return slicing_pts[0:0]  # Return empty list
+
+    new_pts_arr = np.zeros((length + 1, 3), dtype=FLOAT)
+    for i in range(length + 1):
+        new_pts_arr[i] = slicing_pts[(first + i) % num]
 
     return new_pts_arr
-- 
2.43.0


From a599f759d2492da03040c4d11b403c5553f29173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:11 +0000
Subject: [PATCH 21/46] fix: replace only the sliced polygon when stitching
 solids

Polygons were matched by name in the whole solid, but names are unique only
within a wall.
---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..389fefb 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 287777234092f1cbe4f7c58941c3c9c05d111d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:11 +0000
Subject: [PATCH 22/46] fix: stitch all adjacent solids of a building

Pairs of solids were taken from the cached graph, so they could be missing or
outdated. Solids touching with one face completely inside the other were never
in the graph. Processed pairs were remembered by solid names, which are unique
only within a zone. The cached graphs still contained the replaced polygons
afterwards.
---
 building3d/geom/building/__init__.py | 34 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..98d7cea 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -9,9 +9,11 @@ from building3d.geom.building.graph import graph_polygon
 from building3d.geom.building.graph import graph_solid
 from building3d.geom.building.graph import graph_wall
 from building3d.geom.building.graph import graph_zone
+from building3d.geom.building.graph import iter_solids
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
+from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.solid.stitch import stitch_solids
 from building3d.geom.types import IndexType
@@ -192,21 +194,23 @@ class Building:
         """Find adjacent solids and stitch them."""
         logger.info(f"Stitching solids in building {self}")
 
-        # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
-        done = []
-
-        for s_path in adj_solids.keys():
-            for adj_s_path in adj_solids[s_path]:
-                _, z1_name, s_name = s_path.split(PATH_SEP)
-                _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
-
-                if set([s_name, adj_s_name]) not in done:
-                    stitch_solids(
-                        s1=self.zones[z1_name].solids[s_name],
-                        s2=self.zones[z2_name].solids[adj_s_name],
-                    )
-                    done.append(set([s_name, adj_s_name]))
+        # Only solids with overlapping bounding boxes can be adjacent
+        solids = [
+            (s, s.bbox())
+            for s in iter_solids(self)
+            if any(w.children for w in s.children.values())
+        ]
+
+        for i, (s1, bbox1) in enumerate(solids):
+            for s2, bbox2 in solids[i + 1 :]:
+                if are_bboxes_overlapping(bbox1, bbox2):
+                    stitch_solids(s1, s2)
+
+        # Some polygons could have been replaced, so the cached graphs are outdated
+        self.graph = {}
+        self.graph_wall = {}
+        self.graph_solid = {}
+        self.graph_zone = {}
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From fb90e4f011882e15123895d73d246c64985dc982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:07 +0000
Subject: [PATCH 23/46] fix: tolerate rounding errors when comparing bounding
 boxes

Bounding boxes of touching objects could be found separate because of the last
digit of a coordinate, e.g. 0.1 + 0.2 and 0.3, so facing polygons were missing
in the graph.
---
 building3d/geom/bboxes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/bboxes.py b/building3d/geom/bboxes.py
index 55d6ecf..3273fbe 100644
--- a/building3d/geom/bboxes.py
+++ b/building3d/geom/bboxes.py
@@ -33,6 +33,7 @@ def is_point_inside_bbox(
 def are_bboxes_overlapping(
     bbox1: tuple[PointType, PointType],
     bbox2: tuple[PointType, PointType],
+    atol: float = GEOM_ATOL,
 ) -> bool:
     """Check if two bounding boxes are overlapping.
 
@@ -44,12 +45,13 @@ def are_bboxes_overlapping(
                                  [[min_x, min_y, min_z], [max_x, max_y, max_z]].
         bbox2 (tuple of points): Second bounding box, represented as
                                  [[min_x, min_y, min_z], [max_x, max_y, max_z]].
+        atol: Absolute tolerance
 
     Returns:
         bool: True if the bounding boxes overlap, False otherwise.
     """
     # Check if max1 < min2 or min1 > max2
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - atol).any() or (bbox1[0] > bbox2[1] + atol).any():
         return False
     else:
         return True
-- 
2.43.0


From dfa16346e295326134fc5fb4007997a7f83e4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:07 +0000
Subject: [PATCH 24/46] fix: stack meshes containing empty objects

---
 building3d/geom/mesh/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..69474e5 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -32,19 +32,15 @@ def vstack_mesh(
     faces = np.zeros((num_tri_tot, 3), dtype=INT)
 
     # Fill the arrays (vstack)
-    num_pts_added = 0
     tri_offset = 0
     pts_offset = 0
     for i in range(num_objects):
         for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
-            faces[j + tri_offset] = t_tri[i][j] + num_pts_added
+            faces[j + tri_offset] = t_tri[i][j] + pts_offset
         for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
             verts[j + pts_offset] = t_pts[i][j]
-            num_pts_added += 1
+        tri_offset += num_tri_per_obj[i]
+        pts_offset += num_pts_per_obj[i]
 
     # TODO: Equal points should be merged. Look at building3d/mesh/quality/purge_mesh.py
     ...
-- 
2.43.0


From 053cd281938bc75a188f5ef149dd84cf0b5f345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:27 +0000
Subject: [PATCH 25/46] fix: do not return an outdated building graph

The graph was cached regardless of the requested types of connections and was
not updated when polygons were added or replaced.
---
 building3d/geom/building/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 98d7cea..0fee2bb 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -9,6 +9,7 @@ from building3d.geom.building.graph import graph_polygon
 from building3d.geom.building.graph import graph_solid
 from building3d.geom.building.graph import graph_wall
 from building3d.geom.building.graph import graph_zone
+from building3d.geom.building.graph import iter_polygons
 from building3d.geom.building.graph import iter_solids
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.paths import PATH_SEP
@@ -54,6 +55,7 @@ class Building:
         for zn in zones:
             self.add_zone(zn)
 
+        self._graph_source = None  # Options and polygons used to make the cached graphs
         self.graph = {}
         self.graph_wall = {}
         self.graph_solid = {}
@@ -150,7 +152,7 @@ class Building:
         overlapping: bool = False,
         touching: bool = False,
     ) -> dict[str, list[str]]:
-        """Returns the graph of this building. Uses cached dict or makes new if requested.
+        """Returns the graph of this building. Uses cached dict or makes new if needed.
 
         By default, assumes that connections are only when polygons are:
         - facing
@@ -164,10 +166,15 @@ class Building:
         Returns:
             dict with connections at a specified level
         """
-        if len(self.graph) == 0:
+        # The cached graph can be used only if it was made with the same options
+        # and for the same polygons
+        options = (facing, overlapping, touching)
+        polygons = [(p.path, p) for p in iter_polygons(self)]
+        if len(self.graph) == 0 or (options, polygons) != self._graph_source:
             new = True
 
         if new is True:
+            self._graph_source = (options, polygons)
             self.graph = graph_polygon(self, facing, overlapping, touching)
             self.graph_wall = graph_wall(
                 self, facing, overlapping, touching, self.graph
@@ -206,12 +213,6 @@ class Building:
                 if are_bboxes_overlapping(bbox1, bbox2):
                     stitch_solids(s1, s2)
 
-        # Some polygons could have been replaced, so the cached graphs are outdated
-        self.graph = {}
-        self.graph_wall = {}
-        self.graph_solid = {}
-        self.graph_zone = {}
-
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
         volume = 0.0
-- 
2.43.0


From 2f5f99aca1145cd5682141a11ee39644b39247cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:46 +0000
Subject: [PATCH 26/46] fix: keep the replaced polygon or wall if the new name
 is already used

---
 building3d/geom/solid/__init__.py | 3 +++
 building3d/geom/wall/__init__.py  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..d72487c 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,6 +81,9 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
+        if new_wall.name != old_name and new_wall.name in self.children.keys():
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+
         del self.walls[old_name]
         self.add_wall(new_wall)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..ed0e9a3 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,6 +81,11 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
+        names = [name for name in self.polygons if name != old_name]
+        names.extend([np.name for np in new_poly])
+        if len(set(names)) < len(names):
+            raise GeometryError(f"Polygon {old_name} can't be replaced, names not unique")
+
         del self.polygons[old_name]
         for np in new_poly:
             self.add_polygon(np)
-- 
2.43.0


From e426cf528574ddeb68cf9bdc9c4beaab5cf68ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:19 +0000
Subject: [PATCH 27/46] fix: slice at polygon vertices lying on the slicing
 edges

A slicing edge passing through a vertex was not split there, so the slice could
go outside the polygon or along its edge.
---
 .../polygon/slice/add_intersection_points.py  | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/building3d/geom/polygon/slice/add_intersection_points.py b/building3d/geom/polygon/slice/add_intersection_points.py
index 56964bd..014d76b 100644
--- a/building3d/geom/polygon/slice/add_intersection_points.py
+++ b/building3d/geom/polygon/slice/add_intersection_points.py
@@ -40,27 +40,22 @@ def add_intersection_points(
             if np.isnan(pt).any():
                 # Invalid point, segments are not crossing
                 continue
-            elif points_equal(edges1[i1, 0], pt):
-                # Don't add if intersection point is at the same time on of the vertices
-                continue
-            elif points_equal(edges1[i1, 1], pt):
-                # Don't add if intersection point is at the same time on of the vertices
-                continue
-            elif points_equal(edges2[i2, 0], pt):
-                # Don't add if intersection point is at the same time on of the vertices
-                continue
-            elif points_equal(edges2[i2, 1], pt):
-                # Don't add if intersection point is at the same time on of the vertices
-                continue
-            else:
-                intersect_pts.append(pt)
-                pt_index = len(intersect_pts) - 1
 
+            # Intersection point can be at the same time one of the vertices,
+            # in such a case it is added only to the other point list
+            at_vertex1 = points_equal(edges1[i1, 0], pt) or points_equal(edges1[i1, 1], pt)
+            at_vertex2 = points_equal(edges2[i2, 0], pt) or points_equal(edges2[i2, 1], pt)
+
+            intersect_pts.append(pt)
+            pt_index = len(intersect_pts) - 1
+
+            if not at_vertex1:
                 if i1 not in intersect_ix1:
                     # Typed list needed, because numba was unable to infer the type
                     intersect_ix1[i1] = typed.List.empty_list(types.int64)
                 intersect_ix1[i1].append(pt_index)
 
+            if not at_vertex2:
                 if i2 not in intersect_ix2:
                     # Typed list needed, because numba was unable to infer the type
                     intersect_ix2[i2] = typed.List.empty_list(types.int64)
@@ -73,7 +68,8 @@ def add_intersection_points(
             for pt_index in sort_by_distance(
                 edges1[i1, 0], intersect_pts, intersect_ix1[i1]
             ):
-                out1.append(intersect_pts[pt_index])
+                if not points_equal(out1[-1], intersect_pts[pt_index]):
+                    out1.append(intersect_pts[pt_index])
 
     for i2 in range(edges2.shape[0]):
         out2.append(edges2[i2, 0])
@@ -81,7 +77,8 @@ def add_intersection_points(
             for pt_index in sort_by_distance(
                 edges2[i2, 0], intersect_pts, intersect_ix2[i2]
             ):
-                out2.append(intersect_pts[pt_index])
+                if not points_equal(out2[-1], intersect_pts[pt_index]):
+                    out2.append(intersect_pts[pt_index])
 
     new_pts1 = list_pts_to_array(out1)
     new_pts2 = list_pts_to_array(out2)
-- 
2.43.0


From 176ef34caf1e24d6b428529705ab53b5b54f14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:24 +0000
Subject: [PATCH 28/46] fix: match points of facing polygons after stitching

Slicing by several neighbours may leave points in the middle of a straight edge.
Such a polygon was not recognized as facing its neighbour covering the same area.
---
 building3d/geom/solid/stitch.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index 389fefb..f31d292 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -25,7 +25,8 @@ def stitch_solids(s1: Solid, s2: Solid) -> None:
         return stitch_solids(s1, s2)
 
     else:
-        return None
+        # Nothing more to slice
+        return match_facing_polygons(s1, s2)
 
 
 def next_adjacent_polygons(s1: Solid, s2: Solid) -> tuple[Polygon, Polygon] | None:
@@ -41,6 +42,25 @@ def next_adjacent_polygons(s1: Solid, s2: Solid) -> tuple[Polygon, Polygon] | No
     return None
 
 
+def match_facing_polygons(s1: Solid, s2: Solid) -> None:
+    """Makes sure polygons facing each other have the same points (in-place).
+
+    Slicing may leave points which are in the middle of a straight edge.
+    """
+    for _, p1 in get_walls_and_polygons(s1):
+        for _, p2 in get_walls_and_polygons(s2):
+            if (
+                np.allclose(p1.vn, -p2.vn)
+                and np.isclose(p1.area, p2.area)
+                and p1.contains_polygon(p2, margin=-1e6)
+                and p2.contains_polygon(p1, margin=-1e6)
+                and not p1.is_facing_polygon(p2)
+            ):
+                matching = Polygon(p1.pts[::-1].copy(), name=p2.name, vn=p2.vn)
+                replace_polygon(s2, p2, matching)
+                break
+
+
 def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> None:
     """Slices polygons `p1` and `p2` and replaces them in solids `s1` and `s2` (in-place)."""
     p2_in_p1 = p1.contains_polygon(p2)
-- 
2.43.0


From 79a6defa224b01052630140338e1daff37b16587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:52 +0000
Subject: [PATCH 29/46] fix: slice both polygons if all their points are inside
 or at the other one

---
 building3d/geom/solid/stitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index f31d292..f839c4b 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -96,11 +96,11 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
         else:
             raise RuntimeError("Should not happen")
 
-    elif p1_in_p2_with_bnd:
+    elif p1_in_p2_with_bnd and not p2_in_p1_with_bnd:
         # Need to slice only p2
         _, _ = slice_one_and_replace(s2, p2, p1.pts)
 
-    elif p2_in_p1_with_bnd:
+    elif p2_in_p1_with_bnd and not p1_in_p2_with_bnd:
         # Need to slice only p1
         _, _ = slice_one_and_replace(s1, p1, p2.pts)
 
-- 
2.43.0


From 5e8eb23b478776081e3cff2f8dc8688bc4378c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:24 +0000
Subject: [PATCH 30/46] fix: stitch polygons touching from inside at a single
 point

---
 building3d/geom/solid/stitch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index f839c4b..dae0f18 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -98,11 +98,19 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
 
     elif p1_in_p2_with_bnd and not p2_in_p1_with_bnd:
         # Need to slice only p2
-        _, _ = slice_one_and_replace(s2, p2, p1.pts)
+        a, _ = slice_one_and_replace(s2, p2, p1.pts)
+        if a is None:
+            # They touch at a single point, so p2 needs to be divided first
+            pairs = find_close_pairs(p1.pts, p2.pts, n=2, vis_only=True)
+            _, _ = slice_one_and_replace(s2, p2, get_sup_cut(pairs))
 
     elif p2_in_p1_with_bnd and not p1_in_p2_with_bnd:
         # Need to slice only p1
-        _, _ = slice_one_and_replace(s1, p1, p2.pts)
+        a, _ = slice_one_and_replace(s1, p1, p2.pts)
+        if a is None:
+            # They touch at a single point, so p1 needs to be divided first
+            pairs = find_close_pairs(p1.pts, p2.pts, n=2, vis_only=True)
+            _, _ = slice_one_and_replace(s1, p1, get_sup_cut(pairs))
 
     else:
         # The polygons are overlapping. Need to slice both.
-- 
2.43.0


From 6b36f40935b15def2860fa1921c66888ce131089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:28 +0000
Subject: [PATCH 31/46] fix: save empty objects in B3D

A building without polygons could not be read back.
---
 building3d/io/b3d.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..bbe416b 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -61,17 +61,18 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
 
+    # Accessing a missing key makes an empty dict, so empty objects are saved too
+    zones_dict = bdict["zones"]
     for z in bdg.zones.values():
+        zone_dict = zones_dict[z.name]
         for s in z.solids.values():
+            solid_dict = zone_dict[s.name]
             for w in s.walls.values():
+                wall_dict = solid_dict[w.name]
                 for p in w.polygons.values():
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "pts"
-                    ] = p.pts.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "tri"
-                    ] = p.tri.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name]["uid"] = p.uid
+                    wall_dict[p.name]["pts"] = p.pts.tolist()
+                    wall_dict[p.name]["tri"] = p.tri.tolist()
+                    wall_dict[p.name]["uid"] = p.uid
 
     # Save to JSON
     with open(path, "w") as f:
-- 
2.43.0


From e1b91b57bfd526fdac313abaa4ceb913fc50f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:28 +0000
Subject: [PATCH 32/46] fix: accept any whitespace between numbers in STL

---
 building3d/io/stl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..169d62b 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -121,7 +121,7 @@ def read_stl(path: str) -> Building:
             # Start new polygon
             # Read normal from STL
             normal_coord_list = (
-                line[len("facet") :].split("normal")[1].strip().split(" ")
+                line[len("facet") :].split("normal")[1].split()
             )
             normal_x = float(normal_coord_list[0])
             normal_y = float(normal_coord_list[1])
@@ -137,7 +137,7 @@ def read_stl(path: str) -> Building:
                 line = lines[i].strip()
                 assert line[: len("vertex")] == "vertex"
                 v = np.array(
-                    [float(v) for v in line[len("vertex") :].strip().split(" ")],
+                    [float(v) for v in line[len("vertex") :].split()],
                     dtype=FLOAT,
                 )
                 vertices[k, :] = v
-- 
2.43.0


From 35243cab948c10d619b6fcc62471ca97a1cf9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:26 +0000
Subject: [PATCH 33/46] fix: keep solid identifiers when reading STL

---
 building3d/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index 169d62b..630a552 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -165,7 +165,7 @@ def read_stl(path: str) -> Building:
                 if solid_uid is None or solid_uid == "":
                     solid_uid = random_id()
 
-                solid = Solid([wall])
+                solid = Solid([wall], uid=solid_uid)
                 zone.add_solid(solid)
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
-- 
2.43.0


From 7767aeece5e367465f643f24dde4e3d30bb8c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:31 +0000
Subject: [PATCH 34/46] fix: tolerate rounding errors when looking for touching
 polygons

---
 building3d/geom/polygon/touching.py | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 3e22c93..881d6ab 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numba import njit
 
+from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.polygon.crossing import are_polygons_crossing
@@ -60,28 +61,6 @@ def are_polygons_touching(
     return False
 
 
-@njit
-def are_bboxes_overlapping(bbox1, bbox2):
-    """Check if two bounding boxes are overlapping.
-
-    This function determines if two axis-aligned bounding boxes are overlapping
-    in any dimension.
-
-    Args:
-        bbox1 (tuple of points): First bounding box, represented as
-                                 [[min_x, min_y, min_z], [max_x, max_y, max_z]].
-        bbox2 (tuple of points): Second bounding box, represented as
-                                 [[min_x, min_y, min_z], [max_x, max_y, max_z]].
-
-    Returns:
-        bool: True if the bounding boxes overlap, False otherwise.
-    """
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
-        return False
-    else:
-        return True
-
-
 @njit
 def check_poly_a_against_b(
     pts_a: PointType,
-- 
2.43.0


From f842f81d79b81f842202bbdebc8589aa043d30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:46 +0000
Subject: [PATCH 35/46] fix: match wildcard paths literally and relative to the
 parent directory

Special characters were treated as regex and any prefix was accepted,
so e.g. old_position_1.npy was found as position_<step>.npy.
---
 building3d/paths/wildcardpath.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..0215de9 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -56,8 +56,8 @@ class WildcardPath:
         regex = re.compile(self._regex)
 
         for f in Path(parent).glob("**/*"):
+            match = regex.fullmatch(str(f.relative_to(parent)))
             f = str(f)
-            match = regex.match(f)
             if match:
                 paths[f] = {}
                 for gr, val in match.groupdict().items():
@@ -216,16 +216,20 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
         start, stop = WildcardPath.wcard_sep
+        path = os.path.normpath(self.path)
 
-        for wname in self._wildcards:
-            wcard = self.wrap(wname)
-            groups = self._groups[wname]
+        # Odd elements are wildcard names, even elements are literals between them
+        parts = re.split(f"{start}([^{start}{stop}]+){stop}", path)
+        groups = {wname: iter(self._groups[wname]) for wname in self._wildcards}
+
+        re_path = ""
+        for i, part in enumerate(parts):
+            if i % 2 == 0:
+                re_path += re.escape(part)
+            else:
+                re_path += f"(?P{start}{next(groups[part])}{stop}[0-9]+)"
 
-            for gr in groups:
-                re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From fb0687f457bca2c04dcda2fd4dc21b5b486c2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:46 +0000
Subject: [PATCH 36/46] fix: create the dump directory if it doesn't exist

---
 building3d/sim/rays/dump_buffers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/sim/rays/dump_buffers.py b/building3d/sim/rays/dump_buffers.py
index 0df4ea2..6d20706 100644
--- a/building3d/sim/rays/dump_buffers.py
+++ b/building3d/sim/rays/dump_buffers.py
@@ -1,4 +1,5 @@
 import logging
+import os
 
 import numpy as np
 
@@ -36,6 +37,7 @@ def dump_buffers(
         None
     """
     logger.debug(f"Saving buffers to {dump_dir}")
+    os.makedirs(dump_dir, exist_ok=True)
 
     step = 0
     num_steps = pos_buf.shape[0]
-- 
2.43.0


From 0a63e9b663b310d922c0ed5f5a06e2867d3a7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:46 +0000
Subject: [PATCH 37/46] fix: space impulse response samples by the time step

---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From fea82fa4dd3db1271d63bed9dc89807bf139d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:46 +0000
Subject: [PATCH 38/46] fix: allow running a simulation in an existing empty
 buffer directory

---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..27fab01 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From 0710c909b222e37e1f127aa1a632d392339eb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:55 +0000
Subject: [PATCH 39/46] fix: use the configured absorption of each surface

The simulation used only the default value. Default values are not
copied to each surface any more, so that the default can be changed
after the configuration is created.
---
 building3d/sim/rays/simulation.py        |  5 +++--
 building3d/sim/rays/simulation_config.py | 23 ++++++++++++-----------
 building3d/sim/rays/simulation_loop.py   |  2 +-
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 27fab01..7c6866a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..57e9aef 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -16,6 +16,15 @@ from .jit_print import jit_print
 logger = logging.getLogger(__name__)
 
 
+class SurfaceParam(dict):
+    """Parameter values of surfaces. Surfaces without own value use the default one."""
+
+    def __missing__(self, path: str) -> float:
+        if path == "default":
+            raise KeyError(path)
+        return self["default"]
+
+
 class SimulationConfig:
 
     def __init__(self, building: Building):
@@ -45,12 +54,11 @@ class SimulationConfig:
 
         # Surface parameters
         self.surfaces = {
-            "absorption": {
-                "default": 0.2,
+            "absorption": SurfaceParam(
+                default=0.2,
                 # To add custom values to each polygon use self.set_surface_param()
-            },
+            ),
         }
-        self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
         self.visualization = {
@@ -74,13 +82,6 @@ class SimulationConfig:
             "hits_file": "hits_<step>.npy",
         }
 
-    def set_default_surface_paths(self, building: Building):
-        """Add all polygon paths to surface parameters and fill them with default values."""
-        poly_paths = building.get_polygon_paths()
-        for key in self.surfaces.keys():
-            for path in poly_paths:
-                self.surfaces[key][path] = self.surfaces[key]["default"]
-
     def set_surface_param(
         self,
         param_name: str,
diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..5cead42 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -64,7 +64,7 @@ def simulation_loop(
         walls (IndexType): Array of wall indices for the building geometry.
         transparent_polygons (set[int]): Set of indices for transparent polygons.
         surf_absorption (FloatDataType): Absorption coefficients for each polygon,
-                                         shape (len(polygons), ).
+                                         shape (num_polygons, ).
         verbose (bool): Prints progress if True
         eps (float): Small number used in comparison operations.
 
-- 
2.43.0


From ccd3a972dd8fb4c1cfc85621bbaa1b3a3f03682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:24 +0000
Subject: [PATCH 40/46] fix: do not return outdated transparent polygons

The cache was keyed by the id of the building and never invalidated.
---
 building3d/sim/rays/find_transparent.py | 71 +++++++++++--------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..6f1eebb 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -23,16 +23,11 @@ This building script, a coding feat.
 import logging
 
 from building3d.geom.building import Building
-from building3d.geom.building.graph import graph_polygon
 from building3d.geom.paths.split_path import split_path
 
 logger = logging.getLogger(__name__)
 
 
-# Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
-
-
 def find_transparent(building: Building) -> set[str]:
     """Finds and returns the list of transparent polygons in the building.
 
@@ -45,39 +40,33 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
-
-    else:
-        # Find facing polygons (matching exactly)
-        logger.debug("Making graph")
-        graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
-
-        transparent_polygons = []
-        added = set()
-
-        logger.debug("Iterating through the graph items")
-        for k, v in graph.items():
-            assert isinstance(v, list)
-            assert (
-                len(v) <= 1
-            ), f"Expected one facing polygon, but found more ({len(v)})"
-
-            if len(v) == 1:
-                if k not in added or v[0] not in added:
-                    _, z0, *_ = split_path(k)
-                    _, z1, *_ = split_path(v[0])
-
-                    # Doesn't have to check if plg0 is facing plg1,
-                    # because if they are in the graph, they must be
-                    if z0 == z1:
-                        logger.debug(f"Transparent polygons found: {k}, {v[0]}")
-                        transparent_polygons.extend([k, v[0]])
-                        added.add(k)
-                        added.add(v[0])
-
-        # Add to CACHE
-        set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
-
-        return set_of_transparent_polygons
+
+    # Find facing polygons (matching exactly)
+    # The building keeps its graph, so it is calculated again only if the polygons have changed
+    logger.debug("Making graph")
+    graph = building.get_graph(facing=True, overlapping=False, touching=False)
+
+    transparent_polygons = []
+    added = set()
+
+    logger.debug("Iterating through the graph items")
+    for k, v in graph.items():
+        assert isinstance(v, list)
+        assert (
+            len(v) <= 1
+        ), f"Expected one facing polygon, but found more ({len(v)})"
+
+        if len(v) == 1:
+            if k not in added or v[0] not in added:
+                _, z0, *_ = split_path(k)
+                _, z1, *_ = split_path(v[0])
+
+                # Doesn't have to check if plg0 is facing plg1,
+                # because if they are in the graph, they must be
+                if z0 == z1:
+                    logger.debug(f"Transparent polygons found: {k}, {v[0]}")
+                    transparent_polygons.extend([k, v[0]])
+                    added.add(k)
+                    added.add(v[0])
+
+    return set(transparent_polygons)
-- 
2.43.0


From aabbcb71709d9ed4d20256eda73f60b3d50e412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:51 +0000
Subject: [PATCH 41/46] fix: do not skip voxel grid cells

The cell numbers were computed from evenly spaced coordinates. Rounding could
number two of them the same and skip a cell, so surfaces in it were not found.
---
 building3d/sim/rays/voxel_grid.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/building3d/sim/rays/voxel_grid.py b/building3d/sim/rays/voxel_grid.py
index 6e8cae0..bc4d996 100644
--- a/building3d/sim/rays/voxel_grid.py
+++ b/building3d/sim/rays/voxel_grid.py
@@ -49,21 +49,15 @@ def make_voxel_grid(
 
     # The range is extended with "+step" to accommodate models
     # with negative and positive coordinates
-    x_range = np.arange(min_x, max_x + step + eps, step)
-    y_range = np.arange(min_y, max_y + step + eps, step)
-    z_range = np.arange(min_z, max_z + step + eps, step)
+    x_range = range(int(np.floor(min_x / step)), int(np.floor((max_x + step) / step)) + 1)
+    y_range = range(int(np.floor(min_y / step)), int(np.floor((max_y + step) / step)) + 1)
+    z_range = range(int(np.floor(min_z / step)), int(np.floor((max_z + step) / step)) + 1)
 
     keys = []
     for x in x_range:
         for y in y_range:
             for z in z_range:
-                keys.append(
-                    (
-                        int(np.floor(x / step)),
-                        int(np.floor(y / step)),
-                        int(np.floor(z / step)),
-                    )
-                )
+                keys.append((x, y, z))
 
     max_polygons_per_cell = len(poly_pts)  # Worst case: all polygons in one cell
     added_polygons = np.zeros(len(poly_pts), dtype=np.bool_)
-- 
2.43.0


From 6185dc8a92f8121c43ab7b56d8a5bc01512610fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:51 +0000
Subject: [PATCH 42/46] fix: do not treat slow rays as parallel to a surface

The test for a projection vector parallel to the plane depended on the length
of the vector. Short vectors crossing the plane were treated as parallel.
---
 building3d/geom/polygon/ispointinside.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/ispointinside.py b/building3d/geom/polygon/ispointinside.py
index 860a193..ac60c6f 100644
--- a/building3d/geom/polygon/ispointinside.py
+++ b/building3d/geom/polygon/ispointinside.py
@@ -184,7 +184,7 @@ def is_point_inside_projection(
     # Find the point projection along vec to the plane of the polygon
     denom = a * v[0] + b * v[1] + c * v[2]
 
-    if np.abs(denom) < atol:
+    if np.abs(denom) <= GEOM_ATOL * np.linalg.norm(v):
         # Vector vec is colinear with the plane
         # The point lays inside this projection only if it is inside this polygon
         # logger.warning(f"Projection vector {vec} is colinear with the polygon {self.name}")
-- 
2.43.0


From e3b85ed336667464e84c6cf80aa6d867b3835346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:52 +0000
Subject: [PATCH 43/46] fix: draw the energy of each ray along its own trail

The trail vertices are ordered by ray, the energies were ordered by step.
---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From b346357f9eec490af5dfb0b1139fa72023e0af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:52 +0000
Subject: [PATCH 44/46] fix: use the given color when plotting a single object

---
 building3d/display/plot_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..6ba8993 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -54,7 +54,7 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         # If more than 1 object is given, use different color for each
         if len(objects) > 1 and len(colors) == 0:
             col = random_rgb_color()
-        elif len(objects) > 1 and len(colors) == len(objects):
+        elif len(colors) == len(objects):
             col = [
                 float(x) for x in colors[obj_num]
             ]  # PyVista does not handle integer colors
-- 
2.43.0


From 23fd750a841d61e9ac65bce8a6d633dca0fca30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:26 +0000
Subject: [PATCH 45/46] fix: compare the order of points when testing if
 polygons are facing

Two polygons with the same points and the same area were reported as facing
each other even if the points were connected in a different way.
---
 building3d/geom/polygon/facing.py | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 488cc58..42087f9 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -5,7 +5,6 @@ from building3d.config import GEOM_RTOL
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import points_equal
-from building3d.geom.polygon.area import polygon_area
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
 
@@ -20,8 +19,9 @@ def are_polygons_facing(
     """Check if two polygons are facing each other.
 
     This function determines if two polygons are facing each other by comparing
-    their points and normal vectors. It returns True if all points are the same
-    and their normals are pointing towards each other.
+    their points and normal vectors. It returns True if all points are the same,
+    they are connected in the same way, and their normals are pointing towards
+    each other.
 
     Args:
         pts1 (PointType): Points of the first polygon.
@@ -34,7 +34,7 @@ def are_polygons_facing(
 
     Note:
         This function uses bounding box overlap and point matching to determine
-        if polygons are facing. It may have rare cases of incorrect solutions.
+        if polygons are facing.
     """
     if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
         return False
@@ -44,22 +44,27 @@ def are_polygons_facing(
     if not are_bboxes_overlapping(bbox1, bbox2):
         return False
 
-    num_matching = 0
+    # Find matching points. Each point can be used only once.
+    num_pts = pts1.shape[0]
+    if num_pts != pts2.shape[0]:
+        return False
+
+    match = np.full(num_pts, -1)
     matched = set()
 
-    # This does not test if the connections between points are same,
-    # so it additionally tests if the areas are the same.
-    # If all the points are the same and areas are the same, the polygons are
-    # most likely with the same shape.
-    # TODO: There might still be rare cases where it gives incorrect result.
-    for i in range(pts1.shape[0]):
-        for j in range(pts2.shape[0]):
+    for i in range(num_pts):
+        for j in range(num_pts):
             if j not in matched:
                 if points_equal(pts1[i], pts2[j]):
-                    num_matching += 1
+                    match[i] = j
                     matched.add(j)
                     break
-    if num_matching == len(pts1) and num_matching == len(pts2):
-        if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
-            return True
-    return False
+        if match[i] < 0:
+            return False
+
+    # Facing polygons have the same edges, but their points are in the opposite order
+    for i in range(num_pts):
+        if (match[i - 1] - match[i]) % num_pts != 1:
+            return False
+
+    return True
-- 
2.43.0


From b3443c7ebdea1cb248d0a0ce4708bde54897dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:56 +0000
Subject: [PATCH 46/46] fix: do not let lines connecting a polygon with its
 surrounding cross

When a polygon lies inside another one, the surrounding polygon is first cut
along lines between two pairs of close points. These lines could cross each
other, so the parts could not be triangulated and stitching failed.
---
 building3d/geom/solid/stitch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index dae0f18..dd980a4 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -3,6 +3,7 @@ from numba import njit
 
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.points.find_close_pairs import find_close_pairs
+from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon import Polygon
 from building3d.geom.polygon.slice import slice_polygon
 from building3d.geom.polygon.slice.add_intersection_points import \
@@ -124,6 +125,11 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
 def get_sup_cut(pairs: PointType) -> PointType:
     """Returns points to be used to slice supporting polygon."""
     pts = pairs.reshape((-1, 3))
+    if not np.isnan(line_segment_intersection(pts[0], pts[1], pts[2], pts[3])).any():
+        # Lines connecting the polygons cannot cross each other
+        tmp = pts[1].copy()
+        pts[1] = pts[3].copy()
+        pts[3] = tmp
     tmp = pts[0].copy()
     pts[0] = pts[1].copy()
     pts[1] = tmp
-- 
2.43.0

