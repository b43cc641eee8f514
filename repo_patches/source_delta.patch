From a7ef680879ccfc669abdf2de3d3526e37a3b29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 01/23] fix: raiseOrder must not duplicate the first control
 point

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..aa9fa13 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -727,7 +727,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From e382b62d0e69856c25f63c5c575cf7755c3bd695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 02/23] fix: computing a bounding box must not change the
 curve's extrema

---
 PathLib/Bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index aa9fa13..df90735 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -217,8 +217,9 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
-        if 0 not in list: list.insert(0, 0)
-        if 1 not in list: list.append(1)
+        # make new lists; the caller's list is the curve's cached extrema.
+        if 0 not in list: list = [0, *list]
+        if 1 not in list: list = [*list, 1]
 
         for i in range(len(list)):
             c = self.get(list[i])
-- 
2.43.0


From 6c0e974b90555cb09e80028ff957ace5bfdc7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 03/23] fix: reducing a curve must not change its extrema

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index df90735..0963ffc 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -572,7 +572,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = [*self.extrema[2]]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From 03e1c4d28077bf81c318cce5b74197f4682df630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 04/23] fix: the start of a line is on the line

---
 PathLib/PathUtilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..4ce680e 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -311,8 +311,10 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
 
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
-    # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    # same slope as the line, it is on the line. (If the point is the start
+    # of the line, there is no such slope, but the point is on the line.)
+    toPoint = [line[0], point]
+    return bounds.enclosesPoint(point) and (getDeltas(toPoint) == (0, 0) or slope(line) == slope(toPoint))
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From fb228d413ad7c46168d1ce0d0c55b4e3df19e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 05/23] fix: the union of two empty bounds rectangles is empty

---
 PathLib/PathUtilities.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 4ce680e..d522942 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -170,7 +170,15 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
-        return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
+        # Set the edges directly: (newLeft, newBottom) and (newRight, newTop)
+        # aren't points of the union if both rectangles are empty.
+        result = BoundsRectangle()
+        result.left = newLeft
+        result.right = newRight
+        result.top = newTop
+        result.bottom = newBottom
+
+        return result
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
         """\
-- 
2.43.0


From 4842855621a9f5d4283065462a7cc07078616ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 06/23] fix: bounds rectangles are tight for coordinates beyond
 +/-32768

---
 PathLib/PathUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d522942..cddde9b 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
-- 
2.43.0


From e07a8d83cd57da8e64e0faa3dbd4ef37db7d528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 07/23] fix: lines have a derivative (and so a length and a
 normal)

---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0963ffc..eeeb49f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From 9caeb64e596f34f939ada8b3e637b2f05b765537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 08/23] fix: lines can be split

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index eeeb49f..27d5192 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -440,7 +440,10 @@ class Bezier(object):
 
         # no shortcut: use "de Casteljau" iteration.
         q = self.hull(t1)
-        if self.order == 2:
+        if self.order == 1:
+            left = Bezier([q[0], q[2]])
+            right = Bezier([q[2], q[1]])
+        elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
         else:
-- 
2.43.0


From aff246eac98223db207ce90db7c7cf0355049dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 09/23] fix: computing a length must restore the decimal
 context even if it fails

---
 PathLib/Bezier.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 27d5192..bd73b1b 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Decimal, getcontext
+from decimal import Decimal, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -416,13 +416,13 @@ class Bezier(object):
             z = Decimal(0.5)
             sum = Decimal(0)
 
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
+            with localcontext() as context:
+                context.prec += 2
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
 
-            length = z * sum
-            getcontext().prec -= 2
+                length = z * sum
             self._length = +length
 
         return self._length
-- 
2.43.0


From 4efbbae2fa2b62f9e0b77c3e5b8f1588b0fc8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 10/23] fix: a point can be offset by a distance of 0

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index bd73b1b..1524fb9 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -752,7 +752,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From 1eda94b2b15f359d960b2b9de03b12cba657e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 11/23] fix: scaling by a fixed distance must keep the
 tangents' directions

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1524fb9..40437c2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -797,7 +797,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 3dc27ff6cdc6876537196fbbe58cc586e84add32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 12/23] fix: rounding must not make simple() fail for (nearly)
 parallel normals

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 40437c2..1d65d16 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -573,7 +573,8 @@ class Bezier(object):
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
         s = n1x * n2x + n1y * n2y
-        return abs(math.acos(s)) < math.pi / 3
+        # rounding can take s slightly out of acos()'s domain
+        return abs(math.acos(max(-1, min(1, s)))) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
         pass1: list[Bezier] = []
-- 
2.43.0


From 130c3e7e5a9bfe56402ecaa85e53981de0c0391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 13/23] fix: BContour.getLUT must not return a table made for
 another number of steps

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1d65d16..e02dd7e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -860,7 +860,8 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        # each curve contributes steps - 1 points after the first one
+        if len(self._lut) == len(self._beziers) * (steps - 1) + 1: return self._lut
 
         self._lut = []
         startPoint = 0
-- 
2.43.0


From 0e1ff1909cb6fd39e6895d37d0fdd65c8c7333c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 14/23] fix: replacing or deleting a segment must update a
 contour's bounds and lookup table

---
 PathLib/Bezier.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index e02dd7e..0c13d65 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -827,34 +827,29 @@ class Bezier(object):
 
 class BContour(object):
     def __init__(self, contour: Contour):
-        beziers: list[Bezier] = []
-        bounds = PathUtilities.BoundsRectangle()
+        self._beziers = [Bezier(segment) for segment in contour]
+        self._update()
 
-        for segment in contour:
-            bezier = Bezier(segment)
+    def _update(self):
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
             bounds = bounds.union(bezier.boundsRectangle)
-            beziers.append(bezier)
 
-        self._beziers = beziers
         self._bounds = bounds
         self._lut: list[Point] = []
-        self._start = beziers[0].start
-        self._end = beziers[-1].end
+        self._start = self._beziers[0].start
+        self._end = self._beziers[-1].end
 
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._update()
 
     def __delitem__(self, index: int):
         del self._beziers[index]
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._update()
 
     def __iter__(self):
         return self._beziers.__iter__()
-- 
2.43.0


From ec57f7d0573947efcd5760917ed93c523e8cd1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 15/23] fix: the closest point is never farther away than the
 closest sample

---
 PathLib/Bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0c13d65..5ebc08f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -889,7 +889,11 @@ class BContour(object):
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
-        q: Point = (0, 0)
+
+        # the loop only looks between the samples...
+        sx, sy = sample = lut[i]
+        sampleDist = math.hypot(sx - px, sy - py)
+        q: Point = sample
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -921,7 +925,7 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
-        return (q, closest)
+        return (q, closest) if closest < sampleDist else (sample, sampleDist)
 
     def findClosestPoint(self, point: Point, steps: int):
         nCurves = len(self.beziers)
-- 
2.43.0


From cadffaacf9f58ac959d462282287e637284251f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 16/23] fix: findClosestPoint must refine around the sample it
 found

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5ebc08f..9c9b10e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -941,7 +941,7 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            i = i % s1 + 1  # curve's own table starts with the previous curve's last point
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 19e21b74ced89335f566b56c5dd52f13b6df6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 17/23] fix: filled contours and paths can be drawn

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From b2049007d4b9c9642b4a3581ed803aec95f57b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 18/23] fix: a move starts a new command sequence in compact
 path data

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..0523d6e 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -84,6 +84,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         for contour in contours:
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
+                self._lastCommand = ""
                 commands.append(f"M{self.pointToString(firstPoint)}")
 
                 for segment in contour:
@@ -150,6 +151,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
+            self._lastCommand = ""
             commands.append(f"M{pointToString(firstPoint)}")
 
             for curve in path:
-- 
2.43.0


From f5a591a708bae067618f3514740ec4566d7fbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 19/23] fix: quadratic roots without cancellation when the
 leading coefficient is almost 0

---
 PathLib/BezierUtilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..eb48cee 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -156,9 +156,11 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         if d != 0:
             m1 = - sqrt(b * b - a * c)
             m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            # add numbers of the same sign: d can be almost 0
+            q = m2 - m1 if m2 >= 0 else m2 + m1
+            if q == 0:
+                return [0, 0]
+            return [-q / d, -a / q]
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From 3873ddbba2a1abd09bd01c0b37e4624adde79602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 20/23] fix: drawing points as filled circles must restore the
 fill color

---
 PathLib/ContourPlotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 0523d6e..a3454a5 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
-- 
2.43.0


From 976e12b9f5e7a633547dd153e0d122c62dd2435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 21/23] fix: the roots of an almost linear quadratic cancelled
 in Bezier.roots

E.g. Bezier([(0, -1), (1, 0), (2, 1.0000000000000002)]).roots() was [-0.0], where y is -1,
instead of [0.5]. Use butils.droots(), which solves the same equation.
---
 PathLib/Bezier.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 9c9b10e..d99e480 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -477,17 +477,7 @@ class Bezier(object):
             a = p[0][1]
             b = p[1][1]
             c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+            return list(filter(reduce, butils.droots([a, b, c])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
-- 
2.43.0


From 03f6ca012219a52ee2355c43119e4cb29a6fd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 22/23] fix: Bezier.roots treated cubics with one real root as
 if they had a double root

A discriminant up to 1e-6 counted as 0, whatever the size of the roots: for
y(t) = 1000(t - 0.5)^3 + 1.9 the roots were 0.3019... and 0.599..., where y is far from 0,
instead of 0.376.... Report the double root only if the complex pair (almost) coincides.
---
 PathLib/Bezier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d99e480..a2b4920 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -531,16 +531,16 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
-            u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
-            x1 = 2 * u1 - a / 3
-            x2 = -u1 - a / 3
-            return list(filter(reduce, [x1, x2]))
         else:
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
             v1 = butils.crt(q2 + sd)
-            return list(filter(reduce, [u1 - v1 - a / 3]))
+            x1 = u1 - v1 - a / 3
+            # the other two roots are complex, unless they (almost) coincide
+            if butils.approximately(u1 + v1, 0):
+                x2 = (v1 - u1) / 2 - a / 3
+                return list(filter(reduce, [x1, x2]))
+            return list(filter(reduce, [x1]))
 
     def align(self, segment: typing.Optional[Segment] = None):
         if not segment:
-- 
2.43.0


From 124684b3bf4dfb7c0ff6523c131976e1dd598ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 23/23] fix: the real root of some cubics lost most of its
 digits in Bezier.roots

-q2 + sd (or q2 + sd) cancels when p3 is almost 0: the root of 40000t^3 + t^2 + t/2 - 40000
was 0.9999917 instead of 0.9999875, half a unit off the line. Get the smaller of u1 and v1 from their product.
---
 PathLib/Bezier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a2b4920..c72bcf9 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -533,8 +533,11 @@ class Bezier(object):
             return list(filter(reduce, [x1, x2, x3]))
         else:
             sd = butils.sqrt(discriminant)
-            u1 = butils.crt(-q2 + sd)
-            v1 = butils.crt(q2 + sd)
+            # u1 is crt(-q2 + sd) and v1 is crt(q2 + sd), so u1 * v1 is p3;
+            # add numbers of the same sign
+            w1 = butils.crt(abs(q2) + sd)
+            w2 = p3 / w1 if w1 != 0 else 0
+            u1, v1 = (w2, w1) if q2 > 0 else (w1, w2)
             x1 = u1 - v1 - a / 3
             # the other two roots are complex, unless they (almost) coincide
             if butils.approximately(u1 + v1, 0):
-- 
2.43.0

