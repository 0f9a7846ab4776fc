From ef33c29f447562ee901f0b79219782bdab1a89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 01/36] fix: AngleDeg kept -180 and 180 as two different values
 of one heading

---
 src/pyrusgeom/angle_deg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..10a5da5 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -86,7 +86,7 @@ class AngleDeg:
         if self._degree < -360.0 or 360.0 < self._degree:
             self._degree = math.fmod(self._degree, 360.0)
 
-        if self._degree < -180.0:
+        if self._degree <= -180.0:
             self._degree += 360.0
 
         if self._degree > 180.0:
@@ -146,6 +146,7 @@ class AngleDeg:
             self._degree = -(180 - self._degree)
         else:
             self._degree = 180 + self._degree
+        self.normal()
 
     def reverse_angle(self) -> AngleDeg:
         """make a reversed AngleDeg - 180 degrees opposite
-- 
2.43.0


From 2c735bf344ac4946b09f88227ed4c37c97ffcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 02/36] fix: AngleDeg / and /= raised TypeError (only the
 Python 2 __idiv__ was defined)

---
 src/pyrusgeom/angle_deg.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 10a5da5..bb7038f 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -265,7 +265,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
@@ -321,6 +321,18 @@ class AngleDeg:
         new_angle_deg = AngleDeg(self._degree * other)
         return new_angle_deg
 
+    def __truediv__(self, other: Union[float, int]) -> AngleDeg:
+        """operator / for AngleDeg
+
+        Args:
+            other (Union[float, int]): scalar division argument
+
+        Returns:
+            AngleDeg: a new AngleDeg with the division of this AngleDeg
+            on scalar division argument
+        """
+        return AngleDeg(self._degree / other)
+
     def __floordiv__(self, other: Union[float, int]) -> AngleDeg:
         """operator floordiv for AngleDeg
 
-- 
2.43.0


From 013d8c5cd42b93e75b376c1d79ccdd58608b772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 03/36] fix: AngleDeg // did a true division instead of the
 documented floor division

---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index bb7038f..e3ce9a6 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -343,7 +343,7 @@ class AngleDeg:
             AngleDeg: a new AngleDeg with the floor division of this AngleDeg
             on scalar division argument
         """
-        new_angle_deg = AngleDeg(self._degree / other)
+        new_angle_deg = AngleDeg(self._degree // other)
         return new_angle_deg
 
     def __repr__(self) -> str:
-- 
2.43.0


From 769071c00357b5b5a60afb58eeb1f288a83af7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 04/36] fix: copying a Vector2D turned an invalid vector into a
 valid one

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..b420eec 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From 480c080d812ad6b1d129d60d802d2671cff0a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 05/36] fix: Line2D == compared c alone: different parallel
 lines were equal, scaled forms of one line were not

---
 src/pyrusgeom/line_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..53d9463 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -291,8 +291,9 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
-        return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+        return (math.fabs(self._a * other.b() - other.a() * self._b) < EPSILON
+                and math.fabs(self._a * other.c() - other.a() * self._c) < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c) < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From 52ac1111b26f32ac2dc685de001dfd733c55d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 06/36] fix: Ray2D rejected its own origin as a point on the
 ray

---
 src/pyrusgeom/ray_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/ray_2d.py b/src/pyrusgeom/ray_2d.py
index 535ad4c..574e60a 100644
--- a/src/pyrusgeom/ray_2d.py
+++ b/src/pyrusgeom/ray_2d.py
@@ -104,6 +104,8 @@ class Ray2D:
         Returns:
             bool: true if it is on the direction. else false.
         """
+        if point.equals_weakly(self._origin):
+            return True
         return ((point - self._origin).th() - self._direction).abs() < thr
 
     def intersection(self, other: Union[Line2D, Ray2D]) -> Vector2D:
-- 
2.43.0


From 97002b75d1f66c2ceede0bc8dff24873719e2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 07/36] fix: Segment2D.nearest_point and projection handed out
 the segment's own end points

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..175b001 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return self.origin()
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return self.origin()
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return self.origin()
 
         if inner_product >= len_square:
-            return self._terminal
+            return self.terminal()
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From 9ab7ad17b2c6ccaba2c5bd6cb67fc51c6376682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 08/36] fix: Triangle2D.is_valid was always False

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From 42b7aca0d43b8f34b5529eab2e4f1d291494b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 09/36] fix: Triangle2D.centroid raised AttributeError

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From d41df03853cc97aab6619524df1d918600e7f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 10/36] fix: Triangle2D.intersection(Line2D) raised IndexError
 or lost a point at a vertex

---
 src/pyrusgeom/triangle_2d.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..7dc604b 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -15,7 +15,6 @@ from pyrusgeom.ray_2d import Ray2D
 from pyrusgeom.vector_2d import Vector2D
 from pyrusgeom.angle_deg import AngleDeg
 from pyrusgeom.line_2d import Line2D
-from pyrusgeom.math_values import EPSILON
 
 
 class Triangle2D(Region2D):
@@ -274,21 +273,18 @@ class Triangle2D(Region2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
             from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
+            for side in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = side.intersection(other)
+                if n_sol == 2 or not sol.is_valid():
+                    continue
+                # a vertex belongs to two sides
+                if n_sol == 1 and sol.equals_weakly(t_sol[0]):
+                    continue
+                t_sol[n_sol] = sol
                 n_sol += 1
 
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
             sol_list = [n_sol, t_sol[0], t_sol[1]]
 
             return sol_list
-- 
2.43.0


From b1be75b2730df0b54688e9eade3ae2a526b8fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 11/36] fix: Triangle2D.intersection(Ray2D) tested the first
 point twice

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 7dc604b..52c93f2 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -291,7 +291,7 @@ class Triangle2D(Region2D):
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
-- 
2.43.0


From 86941e9ffee33b9440732890798cdacb0c385c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 12/36] fix: Triangle2D.intersection(Segment2D) raised
 UnboundLocalError

---
 src/pyrusgeom/triangle_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 52c93f2..1efdbc5 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -269,10 +269,10 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
             for side in (Segment2D(self._a, self._b),
                          Segment2D(self._b, self._c),
                          Segment2D(self._c, self._a)):
@@ -306,7 +306,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 23bd1ce967d1a995615f6965d14d863182953b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 13/36] fix: Rect2D from two corner points was always empty

---
 src/pyrusgeom/rect_2d.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..63404d8 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +152,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From ca9ccd89a8ff81521225f99bc37f18019cb77465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 14/36] fix: Rect2D.assign with four numbers took the x
 position for the length

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 63404d8..41be470 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -137,7 +137,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From 2f7f7863792b66e6e25f04a9e3f0bc94516bd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 15/36] fix: Rect2D shared the caller's Size2D object

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 41be470..9ac08a2 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -92,7 +92,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -154,7 +154,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From f148e0951d3bc542209ec71d6882c3155e35db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 16/36] fix: Rect2D() raised although the empty rectangle is
 used for empty polygons

---
 src/pyrusgeom/rect_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 9ac08a2..2f59320 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -98,6 +98,8 @@ class Rect2D(Region2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
             self._is_valid = args[0].is_valid()
+        elif len(args) == 0:
+            self._is_valid = False
         else:
             raise Exception("The input must be (4 float) or \
             (vector2d and 2 float) or (vector2d and size2d) or (2 vector2d) or (1 rect2d)")
-- 
2.43.0


From 731042c6793611b0e1954ab2752e49675ebe3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 17/36] fix: Rect2D.contains_almost compared bound methods and
 raised TypeError

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 2f59320..a706f95 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -527,8 +527,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From cc5879012b7c90a3a2bb42c1bfef541dcf72bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 18/36] fix: Rect2D.intersected overwrote its operand and was
 non-empty for disjoint rectangles

---
 src/pyrusgeom/rect_2d.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index a706f95..4c5234f 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -765,9 +765,8 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D()
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -775,13 +774,9 @@ class Rect2D(Region2D):
         length = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D()
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
-- 
2.43.0


From 685afe62e9c03595c54bd6d07e05addebda931a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 19/36] fix: Rect2D.united computed an intersection and
 overwrote its operand

---
 src/pyrusgeom/rect_2d.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 4c5234f..cb371ee 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -787,23 +787,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
-
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D()
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
-        return self
+        return Rect2D(left, top, width, length)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From 79c946a1076054414d8628b7bbf4f71cc779a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 20/36] fix: Rect2D.from_center with a Vector2D centre raised
 TypeError

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index cb371ee..3163096 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -823,7 +823,7 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5, args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 57ed52b9fce10ec945474303b87197b13ece82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:05 +0000
Subject: [PATCH 21/36] fix: Rect2D.intersection(Line2D) lost the second point
 of a line through a corner

---
 src/pyrusgeom/rect_2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 3163096..32c4881 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -719,11 +719,13 @@ class Rect2D(Region2D):
                 n_sol += 1
             if n_sol < 2:
                 t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
+                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x and not (
+                        n_sol == 1 and t_sol[1].equals_weakly(t_sol[0])):  # shared corner
                     n_sol += 1
             if n_sol < 2:
                 t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
+                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x and not (
+                        n_sol == 1 and t_sol[1].equals_weakly(t_sol[0])):  # shared corner
                     n_sol += 1
             if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
                     t_sol[0].y() - t_sol[1].y()) < EPSILON:
-- 
2.43.0


From 08735018508ef75224ab273a0656afcde328550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 22/36] fix: Sector2D dropped its inner radius (min(0, min_r)),
 so the annulus sector was a full sector

---
 src/pyrusgeom/sector_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..723a9ca 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,8 +44,8 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._min_r = max(0.0, min_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
         self.is_valid = True
@@ -62,8 +62,8 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._min_r = max(0.0, min_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
 
-- 
2.43.0


From eef35d31a31de5b73f70868a69548dbcc1b5b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 23/36] fix: Sector2D.radius_max returned the inner radius,
 which also broke ==

---
 src/pyrusgeom/sector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 723a9ca..19585d9 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From 08700f318c53f89962f8332ae690da7fa11f27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 24/36] fix: Matrix2D * overwrote its left operand with the
 product

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From 9ff4086dbadadd9f3d7d95c534d5d452d3896c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 25/36] fix: Matrix2D == compared dx with the other matrix's dy

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From acfb0f49c1ae9a2a0e2e21cca13e9c57e0142102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 26/36] fix: wind_effect discarded the wind vector and always
 returned zero

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From f350377bae1120aa9dba96b00c3aa6c2a74c9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 27/36] fix: Polygon2D.contains rejected most points on the
 outline although allow_on_segment was set

---
 src/pyrusgeom/polygon_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..146862e 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,8 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if allow_on_segment and point == p_0:
                 return True
-- 
2.43.0


From a0292a1c4d93bb082cc4a3d6ceb7bfd085a26c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 28/36] fix: ConvexHull took over the caller's list: add_point,
 clear and Graham scan changed it

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..0820d3a 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = point_list.copy()
         self._vertices = []
         self._edges = []
 
-- 
2.43.0


From 6f346c1d2454d6ff17708002877b9267412f14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 29/36] fix: ConvexHull wrapping method left out the first edge
 of the hull

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 0820d3a..2747e59 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From b6aa43500f392724264c35121ce72d7b4f41a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 30/36] fix: ConvexHull Graham scan sorted about (0,0) and
 destroyed its input points

---
 src/pyrusgeom/convex_hull.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 2747e59..4d31062 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -372,11 +372,11 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
+        self._vertices = self._input_points.copy()
 
         top = 1
         for i in range(2, point_size):
-            while not is_clockwise(self._vertices[top - 1],
+            while top > 0 and not is_clockwise(self._vertices[top - 1],
                 self._vertices[top], self._input_points[i]):
                 top -= 1
 
@@ -420,7 +420,7 @@ class ConvexHull:
         return min_index
 
     def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+        """sort points by angle from the base point (moved to the front)
         """
         if len(self._input_points) <= index:
             return
@@ -429,8 +429,11 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        self._input_points[1:] = sorted(
+            self._input_points[1:],
+            key=functools.cmp_to_key(
+                lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From 9bf4caa09d46458ee89575714f584a00e9cb1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 31/36] fix: AngleDeg.normalize_angle returned -180 for a
 heading that AngleDeg spells 180

---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index e3ce9a6..9ee68ff 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -555,7 +555,7 @@ class AngleDeg:
     def normalize_angle(dir: float):
         if dir < -360 or dir > 360:
             dir = dir % 360
-        if dir < -180:
+        if dir <= -180:
             dir += 360
         if dir > 180:
             dir -= 360
-- 
2.43.0


From 1ed6070b75c65ab7121b4910ff41644526e31154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:19 +0000
Subject: [PATCH 32/36] fix: Segment2D.on_segment accepted points beside a
 degenerate segment

On a segment of zero length the signed area is 0 for every point and the
vertical branch of check_intersects_on_line looks at y alone, so
Segment2D(0, 0, 0, 0).on_segment(Vector2D(1, 0)) was True.
---
 src/pyrusgeom/segment_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 175b001..f31e500 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -519,6 +519,8 @@ class Segment2D:
         Returns:
             float: True if point is on this segment. else False.
         """
+        if self._origin == self._terminal:
+            return self._origin == point
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
             and self.check_intersects_on_line(point)
 
-- 
2.43.0


From eb1fbf4d0ee7f44ee7145c30aba444445ddf8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:58 +0000
Subject: [PATCH 33/36] fix: Polygon2D clipping lost the rest of the polygon at
 an edge crossing the line by less than 1e-6

---
 src/pyrusgeom/polygon_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 146862e..293f010 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -448,14 +448,15 @@ class Polygon2D(Region2D):
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        # the edge leaves the region by less than EPSILON
+                        cuted = p_1
                     new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        cuted = p_0
 
                     new_points.append(cuted)
                     new_points.append(p_1)
-- 
2.43.0


From 03133a0258f1f57cfa8915787f75b909927eb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:53 +0000
Subject: [PATCH 34/36] fix: ConvexHull wrapping method lost the hull when a
 point lay on its first edge

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 4d31062..d7e6b90 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,7 +344,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0


From 3bf1a666152c39a70c36fc18fe3bf9e70acb7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:40 +0000
Subject: [PATCH 35/36] fix: Circle2D, Segment2D and Triangle2D to_str return
 the text with the shape added

---
 src/pyrusgeom/circle_2d.py   | 3 ++-
 src/pyrusgeom/segment_2d.py  | 3 ++-
 src/pyrusgeom/triangle_2d.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index 43fd684..a92dc0b 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -298,7 +298,7 @@ class Circle2D:
         """
         return f"({self._center} , {self._radius})"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add circle to the ostr
 
         Args:
@@ -306,6 +306,7 @@ class Circle2D:
         """
         ostr += f'(circle {round(self.center().x(), 3)} \
             {round(self.center().y(), 3)} {round(self.radius(), 3)})'
+        return ostr
 
 
 def quadratic_f(qf_a: float, qf_b: float, qf_c: float) -> list[float]:
diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index f31e500..04e9394 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -544,7 +544,7 @@ class Segment2D:
         """
         return f"[{self._origin},{self._terminal}]"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add segment to the ostr
 
         Args:
@@ -552,3 +552,4 @@ class Segment2D:
         """
         ostr += f' (line {round(self.origin().x(), 3)} {round(self.origin().y(), 3)} \
             {round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})'
+        return ostr
diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 1efdbc5..6f5236d 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -508,3 +508,4 @@ class Triangle2D(Region2D):
         """
         ostr += f'(tri {round(self.a().x(), 3)} {round(self.a().y(), 3)} {round(self.b().x(), 3)} \
         {round(self.b().y(), 3)} {round(self.c().x(), 3)} {round(self.c().y(), 3)})'
+        return ostr
-- 
2.43.0


From 68e7d90954b0719c36150b8ed0f22d876e92a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:40 +0000
Subject: [PATCH 36/36] fix: Rect2D.to_str no stray letter before the right
 side

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 32c4881..178eca7 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -843,5 +843,5 @@ class Rect2D(Region2D):
             ostr (str): str to add to it
         """
         ostr += f'(rect {round(self.left(), 3)} {round(self.top(), 3)} \
-            f{round(self.right(), 3)} {round(self.bottom(), 3)})'
+            {round(self.right(), 3)} {round(self.bottom(), 3)})'
         return ostr
-- 
2.43.0

