From 3d36f0bcd7260681220bbf187aac92bb34bad0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 01/42] fix: CoordPayload <<= assigns the value and keeps the
 element bound

---
 fibertree/core/coord_payload.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..18b3ed8 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,8 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
 
+        return self
 
     #
     # Arithmetic operations
-- 
2.43.0


From 89218e4560221290dc6af8da1d4f906b823f6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 02/42] fix: true division on payload boxes and
 coordinate-payload elements, either side and in place

---
 fibertree/core/coord_payload.py | 12 ++++++------
 fibertree/core/payload.py       | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index 18b3ed8..1d2d8e4 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -312,8 +312,8 @@ class CoordPayload():
 
         return self
 
-    def __div__(self, other):
-        """__div__"""
+    def __truediv__(self, other):
+        """__truediv__"""
 
         if isinstance(other, CoordPayload):
             ans = self.payload / other.payload
@@ -322,13 +322,13 @@ class CoordPayload():
 
         return ans
 
-    def __rdiv__(self, other):
-        """__rdiv__"""
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
 
         return other / self.payload
 
-    def __idiv__(self, other):
-        """__idiv__"""
+    def __itruediv__(self, other):
+        """__itruediv__"""
 
         if isinstance(other, CoordPayload):
             self.payload /= other.payload
diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..ea643c2 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -534,6 +534,23 @@ class Payload:
 
         return Payload(ans)
 
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other / self.value)
+
+
+    def __itruediv__(self, other):
+        """__itruediv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value / other.value
+        else:
+            self.value = self.value / other
+        return self
+
+
     def __rmul__(self, other):
         """__rmul__"""
 
-- 
2.43.0


From 3c8917fbb8467175a6653980130116bf509695d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 03/42] fix: logical operators on payload boxes and
 coordinate-payload elements, either side and in place

---
 fibertree/core/coord_payload.py | 50 +++++++++++++++++++++++++++++++++
 fibertree/core/payload.py       | 34 ++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index 1d2d8e4..3cd053b 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -390,6 +390,56 @@ class CoordPayload():
 
         return self.payload != other
 
+#
+# Logical operations
+#
+
+    def __and__(self, other):
+        """__and__"""
+
+        if isinstance(other, CoordPayload):
+            return self.payload & other.payload
+
+        return self.payload & other
+
+    def __rand__(self, other):
+        """__rand__"""
+
+        return other & self.payload
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload &= other.payload
+        else:
+            self.payload &= other
+
+        return self
+
+    def __or__(self, other):
+        """__or__"""
+
+        if isinstance(other, CoordPayload):
+            return self.payload | other.payload
+
+        return self.payload | other
+
+    def __ror__(self, other):
+        """__ror__"""
+
+        return other | self.payload
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload |= other.payload
+        else:
+            self.payload |= other
+
+        return self
+
     #
     # Copy operation
     #
diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index ea643c2..4292b1d 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -646,6 +646,23 @@ class Payload:
         return Payload(ans)
 
 
+    def __rand__(self, other):
+        """__rand__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other & self.value)
+
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value & other.value
+        else:
+            self.value = self.value & other
+        return self
+
+
     def __or__(self, other):
         """__or__"""
 
@@ -657,6 +674,23 @@ class Payload:
         return Payload(ans)
 
 
+    def __ror__(self, other):
+        """__ror__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other | self.value)
+
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value | other.value
+        else:
+            self.value = self.value | other
+        return self
+
+
     def __lshift__(self, other):
         """__lshift__"""
 
-- 
2.43.0


From 50b9d42a123633efe26db827648a9c6bfbf9dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 04/42] fix: Fiber.updateCoords at a depth updates every
 sub-fiber, not only the first

---
 fibertree/core/fiber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..2158b51 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2470,8 +2470,12 @@ class Fiber:
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
+                p.updateCoords(func,
+                               depth=depth - 1,
+                               new_shape=new_shape,
+                               new_rank_id=new_rank_id)
+
+            return None
 
         # Update my coordinates
 
-- 
2.43.0


From 0bb39deb84f299cd0e21cefc6ec57abb2fb17f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 05/42] fix: Fiber.updateCoords re-sorts by coordinate only,
 never comparing payloads

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 2158b51..1774406 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2497,7 +2497,7 @@ class Fiber:
             # self.logger.debug("Fiber.updateCoords() - sort needed")
 
             zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
+            sorted_cp = sorted(zipped_cp, key=lambda cp: cp[0])
             self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
 
         #
-- 
2.43.0


From 493cefbc8b96c6149db17ee083e37128f344e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 06/42] fix: Fiber.updatePayloads stores each boxed result at
 the position it came from

---
 fibertree/core/fiber.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1774406..38319f2 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2561,9 +2561,12 @@ class Fiber:
             for p in self.payloads:
                 p.updatePayloads(func, depth=depth - 1)
         else:
-            # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            # Update my (non-empty) payloads, each at its own position
+            default = self.getDefault()
+
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if not Payload.isEmpty(p, default=default):
+                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
 
-- 
2.43.0


From 410298e8131a1d5be2432b1ecc5eb94e2d783bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 07/42] fix: union and exclusive-or stand-in payloads are not
 listed in the operands' ranks

---
 fibertree/core/iterators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..060d1ab 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -910,7 +910,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +920,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +929,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +938,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1013,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 84b40415df110af60e45d79bf38b7f1b75029fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 08/42] fix: projecting a fiber holding only explicit defaults
 yields nothing instead of raising

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 38319f2..e930d69 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1236,7 +1236,7 @@ class Fiber:
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
             if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
+                coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
             else:
                 coord_ex = 0
 
-- 
2.43.0


From 5dbdcf080c4c2c44e7f59c2b49ecaf4122ee2f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 09/42] fix: intersecting with a fiber that presents nothing
 needs no coordinate projection

---
 fibertree/core/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 060d1ab..9400c58 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -715,7 +715,8 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            # When one side has nothing to offer there is nothing to project
+            if len_a == len_b or a_coord is None or b_coord is None:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
-- 
2.43.0


From 5342610246712cc7621157ccec2877d4ff1c490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 10/42] fix: intersecting scalar with tuple coordinates works
 while metrics are collected

---
 fibertree/core/iterators.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 9400c58..4742b2e 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -256,6 +256,16 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
         Metrics.endIter(rank)
 
 
+def _project_any(fiber, trans_fn):
+    """Iterate over a fiber with wildcard-extended coordinates
+
+    The projection stays on the fiber's own rank and never ticks.
+
+    """
+    rank_id = fiber.getRankAttrs().getId()
+
+    return fiber.project(trans_fn=trans_fn, rank_id=rank_id, tick=False).__iter__(tick=False)
+
 def _prep_metrics_inc(fiber):
     """Prepare to do a metrics increment
 
@@ -726,10 +736,10 @@ def __and__(self, other):
             elif len_a < len_b:
                 if isinstance(a_coord, int):
                     extra = (ANY,) * (len_b - 1)
-                    a = self.a_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
+                    a = _project_any(self.a_fiber, lambda c: (c,) + extra)
                 else:
                     extra = (ANY,) * (len_b - len_a)
-                    a = self.a_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                    a = _project_any(self.a_fiber, lambda c: c + extra)
 
                 a_coord, a_payload = _get_next(a)
 
@@ -743,10 +753,10 @@ def __and__(self, other):
             else:
                 if isinstance(b_coord, int):
                     extra = (ANY,) * (len_a - 1)
-                    b = self.b_fiber.project(trans_fn=lambda c: (c,) + extra).__iter__(tick=False)
+                    b = _project_any(self.b_fiber, lambda c: (c,) + extra)
                 else:
                     extra = (ANY,) * (len_a - len_b)
-                    b = self.b_fiber.project(trans_fn=lambda c: c + extra).__iter__(tick=False)
+                    b = _project_any(self.b_fiber, lambda c: c + extra)
 
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 4a65658522e6f5d2ed06ae7cfe03a0584e134420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 11/42] fix: a reversed projection keeps the source fiber's
 default and rank id

---
 fibertree/core/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index e930d69..84901b7 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1256,6 +1256,8 @@ class Fiber:
                     return reversed(self.cps)
 
             fiber = Fiber.fromIterator(reversed_iterator)
+            fiber._setDefault(self.getDefault())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
 
         else:
             fiber = self
-- 
2.43.0


From 5b2c279014ea1f1da8522336180f90f4913cb634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 12/42] fix: Tensor.swizzleRanks carries per-rank formats and
 the mutability hint

---
 fibertree/core/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..0a3d9ff 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1486,6 +1486,11 @@ class Tensor:
             kwargs["shape"] = new_shape
 
         swizzled = Tensor.fromFiber(**kwargs)
+        swizzled.setMutable(self.isMutable())
+
+        # Maintain the formats
+        for rank_id in swizzled.getRankIds():
+            swizzled.setFormat(rank_id, self.getFormat(rank_id))
 
         # For each fiber, reset its active range
         frontier = [swizzled.getRoot()]
-- 
2.43.0


From 3fb0abc5088e53f824eb7b5054131338050724fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 13/42] fix: Tensor.swapRanks re-arranges the operand's
 authoritative shape

---
 fibertree/core/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 0a3d9ff..347884f 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1547,9 +1547,9 @@ class Tensor:
         #
         # Create new shape list
         #
-        # TBD: Create shape
-        #
-        shape = None
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape:
+            shape[depth], shape[depth + 1] = shape[depth + 1], shape[depth]
 
         # Only call Fiber.swapRanks if there are actually payloads to swap
         if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-- 
2.43.0


From 050a290c251ec1aa7b641ebc2c49e40b800f7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 14/42] fix: transforms below the top rank also reach
 sub-fibers without content

---
 fibertree/core/fiber.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 84901b7..fad6af0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2567,7 +2567,7 @@ class Fiber:
             default = self.getDefault()
 
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
-                if not Payload.isEmpty(p, default=default):
+                if isinstance(p, Fiber) or not Payload.isEmpty(p, default=default):
                     self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
@@ -4393,9 +4393,14 @@ class Fiber:
         """
 
         assert not self.isLazy()
-        assert isinstance(self.coords[0], tuple)
         assert self._ordered and self._unique
 
+        # Without any elements there is nothing to unflatten
+        if len(self.coords) == 0:
+            return self._newFiber([], [], default=Fiber())
+
+        assert isinstance(self.coords[0], tuple)
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4571,8 +4576,16 @@ class Fiber:
     splitUnEqualBelow = partialmethod(updatePayloadsBelow,
                                       splitUnEqual)
 
+    def _swapRanksIfAny(self):
+        """Swap the top two ranks, unless there is no content to swap"""
+
+        if self.isEmpty():
+            return Fiber(default=Fiber())
+
+        return self.swapRanks()
+
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   _swapRanksIfAny)
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
-- 
2.43.0


From ccc3778af34154ec23d15871b098baba5e9ad6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 15/42] fix: Fiber.unflattenRanks copies the payloads it
 re-arranges

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index fad6af0..541cbdf 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4466,7 +4466,7 @@ class Fiber:
                 payloads0 = []
 
             coords0.append(c0)
-            payloads0.append(p0)
+            payloads0.append(copy.deepcopy(p0))
 
         #
         # Pick up the last element of the new top rank
-- 
2.43.0


From 50d1ddf8170b76d0530f3282a42a8ae40bd24fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 16/42] fix: Tensor.unflattenRanks keeps the operand's leaf
 default

---
 fibertree/core/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 347884f..6cd9e80 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1794,6 +1794,7 @@ class Tensor:
         tensor.setName(self.getName() + "+unflattened")
         tensor.setColor(self.getColor())
         tensor.setMutable(self.isMutable())
+        tensor.setDefault(self.getDefault())
 
         # Maintain the formats for all untouched rank_ids
         # Compress everything else
-- 
2.43.0


From 8ee2ff1c7ac6394935a344c8a50d4f7bfd4cdc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 17/42] fix: Fiber.unflattenRanks copies its operand once and
 moves that copy's payloads

---
 fibertree/core/fiber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 541cbdf..5cb35b7 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4416,7 +4416,11 @@ class Fiber:
         # Traverse the rank being unflattened in order to collect all
         # the coordinates/payloads to put in the final top (c1) rank
         #
-        for cx, p0 in zip(self.coords, self.payloads):
+        # Note: the payloads move into the result, so they must be our own
+        #
+        copied = copy.deepcopy(self)
+
+        for cx, p0 in zip(copied.coords, copied.payloads):
             #
             # Little dance to get the coordinates of the two ranks,
             # which also deals with the case where the coordinates
@@ -4466,7 +4470,7 @@ class Fiber:
                 payloads0 = []
 
             coords0.append(c0)
-            payloads0.append(copy.deepcopy(p0))
+            payloads0.append(p0)
 
         #
         # Pick up the last element of the new top rank
-- 
2.43.0


From a8c2e4f4d05dc90d0e4dff6cfb9763366e33c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 18/42] fix: fiber equality ignores the default-valued elements
 an uncompressed rank presents

---
 fibertree/core/fiber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5cb35b7..9f3759b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4668,11 +4668,12 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
+        # Note: an uncompressed rank also presents its absent coordinates
         for c, (mask, ps, po) in self | other:
-            if mask == "A":
+            if mask == "A" and not Payload.isEmpty(ps, default=self.getDefault()):
                 return False
 
-            if mask == "B":
+            if mask == "B" and not Payload.isEmpty(po, default=other.getDefault()):
                 return False
 
             if mask == "AB" and ps != po:
-- 
2.43.0


From 5bcac2ce2cc49f4d5c4b68f9c27bfd4d9b9194e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 19/42] fix: uncompressing a fiber with no elements fills in
 the leaf default

---
 fibertree/core/fiber.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9f3759b..52a3026 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2954,13 +2954,22 @@ class Fiber:
             # Find a fiber at the leaf level
             #
             f = self
-            while isinstance(f.payloads[0], Fiber):
+            while f.payloads and isinstance(f.payloads[0], Fiber):
                 f = f.payloads[0]
 
+            #
+            # Below a fiber with no elements only the ranks know the leaf
+            #
+            default = f.getDefault()
+            owner = f.getOwner()
+            while owner is not None and owner.getNextRank() is not None:
+                owner = owner.getNextRank()
+                default = owner.getDefault()
+
             #
             # Use the **unboxed** default from the leaf level fiber
             #
-            return Payload.get(f.getDefault())
+            return Payload.get(default)
 
         f = []
 
-- 
2.43.0


From 82aa0f617654a1e890e6e463efd80774d86fdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 20/42] fix: Tensor.fromYAMLfile keeps the tensor's name

---
 fibertree/core/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 6cd9e80..14a7c8d 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -243,7 +243,7 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
 
 
     @classmethod
-- 
2.43.0


From 1aecc5fe56873b819b316cda50e1f7cd6ced57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 21/42] fix: YAML loading accepts the tuples YAML dumping
 writes

---
 fibertree/core/fiber.py  | 2 +-
 fibertree/core/tensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 52a3026..a854467 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4864,7 +4864,7 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=yaml.FullLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 14a7c8d..59dd848 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1953,7 +1953,7 @@ class Tensor:
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=yaml.FullLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
-- 
2.43.0


From 49a550dad311e6ce4d65363f1fa0029c64f759c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 22/42] fix: mutators that store or drop sub-fibers keep the
 rank lists current

---
 fibertree/core/fiber.py | 56 ++++++++++++++++++++++++++++++++++++++++-
 fibertree/core/rank.py  | 17 +++++++++++++
 2 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a854467..bd0013a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1431,6 +1431,44 @@ class Fiber:
 
         return self._owner
 
+    def _adoptPayload(self, payload):
+        """List a sub-fiber stored in this fiber, and all below it, in the ranks below"""
+
+        owner = self.getOwner()
+
+        if owner is None or not isinstance(payload, Fiber):
+            return
+
+        next_rank = owner.getNextRank()
+
+        if next_rank is None or payload.getOwner() is next_rank:
+            return
+
+        next_rank.append(payload)
+
+        for p in payload.payloads:
+            payload._adoptPayload(p)
+
+
+    def _disownPayload(self, payload):
+        """Unlist a sub-fiber dropped from this fiber, and all below it"""
+
+        owner = self.getOwner()
+
+        if owner is None or not isinstance(payload, Fiber):
+            return
+
+        next_rank = owner.getNextRank()
+
+        if next_rank is None or payload.getOwner() is not next_rank:
+            return
+
+        for p in payload.payloads:
+            payload._disownPayload(p)
+
+        next_rank.remove(payload)
+
+
     def setRankAttrs(self, attrs):
         """
         If the fiber does not have an owning rank, it can still have rank attributes
@@ -2116,7 +2154,13 @@ class Fiber:
         # A payload of None just updates the coordinate
         #
         if payload is not None:
-            self.payloads[position] = Payload.maybe_box(payload)
+            old_payload = self.payloads[position]
+            new_payload = Payload.maybe_box(payload)
+            self.payloads[position] = new_payload
+
+            if new_payload is not old_payload:
+                self._disownPayload(old_payload)
+                self._adoptPayload(new_payload)
 
 
     def __len__(self):
@@ -2304,6 +2348,9 @@ class Fiber:
 
         """
 
+        for payload in self.payloads:
+            self._disownPayload(payload)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -2353,6 +2400,7 @@ class Fiber:
 
         self.coords.append(coord)
         self.payloads.append(payload)
+        self._adoptPayload(payload)
 
 
     def extend(self, other):
@@ -2397,6 +2445,9 @@ class Fiber:
         self.coords.extend(other.coords)
         self.payloads.extend(other.payloads)
 
+        for payload in other.payloads:
+            self._adoptPayload(payload)
+
         return None
 
 
@@ -3021,6 +3072,9 @@ class Fiber:
             #
             # Clear out any existing data
             #
+            for payload in self.payloads:
+                self._disownPayload(payload)
+
             self.coords = []
             self.payloads = []
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..f2010aa 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -503,6 +503,23 @@ class Rank:
         fiber.setOwner(None)
         return fiber
 
+    def remove(self, fiber):
+        """
+        Remove a particular fiber from the rank
+
+        Parameters
+        ----------
+
+        fiber: Fiber
+            The fiber to remove (if the rank lists it)
+
+        Returns
+        -------
+        Nothing
+        """
+        self.fibers = [f for f in self.fibers if f is not fiber]
+        fiber.setOwner(None)
+
 #
 # Linked list methods
 #
-- 
2.43.0


From c3755379dc636d44f4ac08c114f02f5764e8a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 23/42] fix: adding or multiplying a box and a
 coordinate-payload element counts one operation

---
 fibertree/core/payload.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 4292b1d..726b3b6 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -384,9 +384,20 @@ class Payload:
 #
 # Arithmetic operations
 #
+    @staticmethod
+    def _element_value(other):
+        """Get the payload of a CoordPayload operand, so it is operated on (and counted) once"""
+
+        if type(other).__name__ == "CoordPayload":
+            return other.payload
+
+        return other
+
     def __add__(self, other):
         """__add__"""
 
+        other = Payload._element_value(other)
+
         if isinstance(other, Payload):
             ans = self.value + other.value
         else:
@@ -411,6 +422,8 @@ class Payload:
 
     def __iadd__(self, other):
         """__iadd__"""
+
+        other = Payload._element_value(other)
         old = self.value
 
         if isinstance(other, Payload):
@@ -513,6 +526,8 @@ class Payload:
     def __mul__(self, other):
         """__mul__"""
 
+        other = Payload._element_value(other)
+
         if isinstance(other, Payload):
             ans = self.value * other.value
         else:
@@ -566,6 +581,8 @@ class Payload:
     def __imul__(self, other):
         """__imul__"""
 
+        other = Payload._element_value(other)
+
         if isinstance(other, Payload):
             self.value = self.value * other.value
         else:
-- 
2.43.0


From d321f205d5ad50526a20182f72c1bc6157e62d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 24/42] fix: exclusive-or, difference and n-ary union leave
 iteration counting to the result

---
 fibertree/core/iterators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4742b2e..433535f 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -601,7 +601,7 @@ def union(*args):
         num_args = len(args)
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -1012,8 +1012,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1351,8 +1351,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From 1a6c929b3afec8bae7acf7a23dd9cd729e5d7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 25/42] fix: in-place fiber multiplication drops the elements
 outside the intersection

---
 fibertree/core/fiber.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bd0013a..d326f34 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3356,6 +3356,8 @@ class Fiber:
         # If `other` is a fiber, elementwise multiply `other` by `self`
         #
         if isinstance(other, Fiber):
+            products = set()
+
             for c, (self_val, other_val) in self & other:
                 #
                 # Get a reference to the c coordinate in `self`.  Note
@@ -3364,6 +3366,16 @@ class Fiber:
                 #
                 self_ref = self.getPayloadRef(c)
                 self_ref <<= self_val * other_val
+                products.add(c)
+
+            #
+            # Elements outside the intersection have no product
+            #
+            for pos in reversed(range(len(self.coords))):
+                if self.coords[pos] not in products:
+                    self._disownPayload(self.payloads[pos])
+                    del self.coords[pos]
+                    del self.payloads[pos]
 
             return self
 
-- 
2.43.0


From c9308122259635e5f6a1b96ef074bbbee4839532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 26/42] fix: intersector models never compare an element left
 in one fiber with the next fiber

---
 fibertree/model/intersect.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..2e0c399 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -143,6 +143,13 @@ class SkipAheadIntersector(Intersector):
                 point0, i0 = get_next(trace0, i0)
                 point1, i1 = get_next(trace1, i1)
 
+                # When only one side has an element left in this fiber, there is
+                # nothing to compare that element with
+                if point0 and point1 and point0[:-1] < point1[:-1]:
+                    point0, i0 = get_next(trace0, i0)
+                elif point0 and point1 and point1[:-1] < point0[:-1]:
+                    point1, i1 = get_next(trace1, i1)
+
             elif point0 < point1:
                 if curr != 0:
                     curr = 0
@@ -237,6 +244,13 @@ class TwoFingerIntersector(Intersector):
                 point0, i0 = get_next(trace0, i0)
                 point1, i1 = get_next(trace1, i1)
 
+                # When only one side has an element left in this fiber, there is
+                # nothing to compare that element with
+                if point0 and point1 and point0[:-1] < point1[:-1]:
+                    point0, i0 = get_next(trace0, i0)
+                elif point0 and point1 and point1[:-1] < point0[:-1]:
+                    point1, i1 = get_next(trace1, i1)
+
             elif point0 < point1:
                 point0, i0 = get_next(trace0, i0)
 
-- 
2.43.0


From 1a77b5148bfd7b3a221b814ed8f2bcc004eee5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 27/42] fix: intersector models accept an empty first batch

---
 fibertree/model/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 2e0c399..508f6a5 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -76,7 +76,7 @@ class LeaderFollowerIntersector(Intersector):
         new_intersects = len(traces[0])
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and traces[0]:
             self.started = True
             new_intersects -= 1
 
@@ -211,7 +211,7 @@ class TwoFingerIntersector(Intersector):
         trace1 = traces[1]
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and trace0:
             self.started = True
 
             self.num_ranks = (len(trace0[0]) - 1) // 2
-- 
2.43.0


From fd5029a841ce0e08820e29c545ff5a5db4d80f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 28/42] fix: Compute.numSwaps accepts the documented unlimited
 radix

---
 fibertree/model/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..fd3f2f5 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -86,7 +86,7 @@ class Compute:
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if radix == "N" or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
-- 
2.43.0


From a8fb0c489ff2995843e04e0012d455ab458178ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 29/42] fix: Compute.numOps reports zero for a session without
 any operation

---
 fibertree/model/compute.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index fd3f2f5..36fe82d 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,10 +35,7 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
-            return dump["Compute"][metric]
-        else:
-            return 0
+        return dump.get("Compute", {}).get(metric, 0)
 
     @staticmethod
     def numSwaps(tensor, depth, radix, next_latency):
-- 
2.43.0


From 8fd1de5513a0701feda07d5bb96eeed3642946ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 30/42] fix: buffer models take the staging-area bound from
 each binding's own tensor

---
 fibertree/model/traffic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..da5dcca 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -470,6 +470,7 @@ class Traffic:
         # writes we can ignore
         shapes = []
         for i, info in enumerate(bind_info):
+            tensor, rank = info[:2]
             if pin_intermediate_writes(info):
                 shape = formats[tensor].tensor.getShape(authoritative=True)
                 assert shape is not None
-- 
2.43.0


From 2e32e0b4df3162ef2ebffe2732375d930edbf22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 31/42] fix: bit-vector encoding passes the imposed shape to
 the ranks below

---
 fibertree/codec/formats/bitvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index 5a8bb1f..a0e09ac 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -40,7 +40,7 @@ class Bitvector(CompressionFormat):
         
         for ind, (val) in a:
             if depth < len(ranks) - 1:
-                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor)
+                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor, shape=shape)
                 # store coordinate explicitly
                 self.payloads.append(fiber)
                 if isinstance(cumulative_occupancy, int):
-- 
2.43.0


From b7b0b06e17e43d59d8570580122a6092779ee014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 32/42] fix: a coordinate-list fiber above an implicit rank
 keeps its children reachable

---
 fibertree/codec/formats/coord_list.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 97ec4d4..c419fce 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -61,6 +61,7 @@ class CoordinateList(CompressionFormat):
                     cumulative_occupancy = cumulative_occupancy + child_occupancy
                 else:
                     cumulative_occupancy = [a + b for a, b in zip(cumulative_occupancy, child_occupancy)]
+                self.payloads.append(fiber)
                 # add cumulative or non-cumulative depending on settings
                 codec.add_payload(depth, occ_list, cumulative_occupancy, child_occupancy)
                 
@@ -69,7 +70,6 @@ class CoordinateList(CompressionFormat):
                     # TODO: make the choice for this to be cumulative
                     output[payloads_key].append(cumulative_occupancy)
                     self.occupancies.append(cumulative_occupancy)
-                    self.payloads.append(fiber)
 
             prev_nz = ind + 1
         # print("{}:: coords {}, payloads {}".format(self.name, self.coords, self.payloads))
@@ -226,19 +226,18 @@ class CoordinateList(CompressionFormat):
 
     # API Methods
     def handleToPayload(self, handle):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if self.next_fmt != None and not self.next_fmt.encodeUpperPayload():
-            print("\t\tnext level not encoded, ret {}".format(self.occupancy_so_far))
-            
-            return self.occupancy_so_far # self.idx_in_rank + handle
+        # even if next level has implicit payloads above (e.g. U), each
+        # element has a payload of its own
         return handle
 
     # API Methods
     def payloadToFiberHandle(self, payload):
         # if next level has implicit payloads above (e.g. U), payload is implicit
         if not self.next_fmt.encodeUpperPayload():
-            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, payload))
-            return payload # self.idx_in_rank # + payload
+            # the fibers below are stored one after another in their rank
+            fiber_handle = self.occupancy_so_far + payload
+            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, fiber_handle))
+            return fiber_handle
         
         # print("\t{} payloadToFiberHandle:: ret {}".format(self.name, payload))
         return payload
@@ -281,9 +280,9 @@ class CoordinateList(CompressionFormat):
             assert(len(self.payloads) > 0)
 
         size = len(self.coords) + len(self.occupancies)
-        # Don't need to store occupancies if lower level is U
-        # if not isinstance(self.payloads[0], CompressionFormat):
-        size += len(self.payloads) 
+        # count payloads only if next level is encoded
+        if self.next_fmt == None or self.next_fmt.encodeUpperPayload():
+            size += len(self.payloads)
         return size
 
     #### static methods
-- 
2.43.0


From ca8f2141cee5fc51127cde63258e3f12d96e09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 33/42] fix: an empty coordinate-list fiber reports its size

---
 fibertree/codec/formats/coord_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index c419fce..184904f 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -276,9 +276,6 @@ class CoordinateList(CompressionFormat):
     # get size of representation
     def getSize(self): 
         # self.printFiber()
-        if self.next_fmt != None and self.next_fmt.encodeUpperPayload():
-            assert(len(self.payloads) > 0)
-
         size = len(self.coords) + len(self.occupancies)
         # count payloads only if next level is encoded
         if self.next_fmt == None or self.next_fmt.encodeUpperPayload():
-- 
2.43.0


From 0272875d749c8836445328f0c63b7a51477c587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 34/42] fix: a halo reaching in from a split at or beyond the
 active range's end is ignored

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index d326f34..8d1317e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3759,7 +3759,7 @@ class Fiber:
 
                         i += 1
 
-                    search_start = min(inds)
+                    search_start = min(inds, default=search_start)
 
                 for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                     if lc:
-- 
2.43.0


From 3ab8fb08ecc4461ea2abdb2ea7a84abacb902784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 35/42] fix: the cache model takes the accessed element out of
 its queue even when others are accessed at the same point

---
 fibertree/model/traffic.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index da5dcca..01482ca 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -675,6 +675,15 @@ class Traffic:
 
             return next_evict, pinned, None
 
+        def unqueue(next_evict, list_elem):
+            # The element accessed now is among the soonest to be accessed,
+            # but other elements may be accessed at the same point
+            i = 0
+            while next_evict[i] is not list_elem:
+                i += 1
+
+            next_evict.pop(i)
+
         def to_be_buffered(bind_info, bind_pos, capacity, loop_ranks,
                 num_ranks, obj, objs, occupancy, order, shapes, sim_info, trace):
             next_evict, pinned, _ = sim_info
@@ -684,11 +693,9 @@ class Traffic:
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
                 if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
+                    list_elem = objs[tensor][type_][obj][1]
+                    if obj not in pinned[tensor][type_]:
+                        unqueue(next_evict, list_elem)
 
                     list_elem.next_access = [float("inf")]
 
@@ -699,9 +706,9 @@ class Traffic:
                 return False, sim_info
 
             # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
+            if obj in objs[tensor][type_] and obj not in pinned[tensor][type_]:
+                list_elem = objs[tensor][type_][obj][1]
+                unqueue(next_evict, list_elem)
                 list_elem.next_access = next_access
 
                 next_evict.add(list_elem)
-- 
2.43.0


From 8a4ba17c1870e153a8c59eef0c101ef026e4608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 36/42] fix: leader-follower intersection ignores positions
 saved before it started

---
 fibertree/core/iterators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 433535f..c652b5b 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -526,7 +526,9 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
+                # A position saved before this traversal is no legal shortcut
+                start_pos = [0 if fiber.isOrdered() else None
+                             for fiber in self.fibers[1:]]
 
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
@@ -546,9 +548,8 @@ def intersection(*args, **kwargs):
                     for j, fiber in enumerate(self.fibers[1:]):
                         p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
 
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
+                        if start_pos[j] is not None:
+                            start_pos[j] = fiber.getSavedPos()
 
                         payloads.append(p_fiber)
 
-- 
2.43.0


From 2faee97020679df0888a85b67a367fb75de46807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 37/42] fix: shape estimation counts the largest coordinate of
 every fiber

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8d1317e..7157d94 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2778,7 +2778,7 @@ class Fiber:
         if len(shape) < level + 1:
             shape.append(new_shape)
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = max(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
-- 
2.43.0


From e83f086943a7ff1b8ac80292cdb9e92ffb5f82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 38/42] fix: merging ranks calls the merge function on the
 payloads that collide only

---
 fibertree/core/fiber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7157d94..ac9693b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4427,7 +4427,9 @@ class Fiber:
         union_fiber = union(*to_merge)
         for c, ps in union_fiber:
             coords.append(c)
-            new_merge = Payload.get(ps)[1:]
+            # Fibers without an element at this coordinate have nothing to merge
+            mask, *all_ps = Payload.get(ps)
+            new_merge = [p for i, p in enumerate(all_ps) if chr(ord("A") + i) in mask]
             payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
 
         result = Fiber(coords, payloads, active_range=union_fiber.getActive())
-- 
2.43.0


From cfe73bf0fcbb14481aed3df80bc26c8144e7f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 39/42] fix: fibers merged below a merged rank keep their
 default, shape and active range

---
 fibertree/core/fiber.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ac9693b..9faa9cf 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4424,16 +4424,22 @@ class Fiber:
         # Merge fibers together
         coords = []
         payloads = []
-        union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
+        for c, ps in union(*to_merge):
             coords.append(c)
             # Fibers without an element at this coordinate have nothing to merge
             mask, *all_ps = Payload.get(ps)
             new_merge = [p for i, p in enumerate(all_ps) if chr(ord("A") + i) in mask]
             payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
 
-        result = Fiber(coords, payloads, active_range=union_fiber.getActive())
-        return result
+        # The result covers everything the merged fibers cover
+        starts, ends = zip(*[fiber.getActive() for fiber in to_merge])
+        shapes = [fiber.getShape(all_ranks=False, authoritative=True) for fiber in to_merge]
+
+        return Fiber(coords,
+                     payloads,
+                     default=to_merge[0].getDefault(),
+                     shape=None if None in shapes else max(shapes),
+                     active_range=(min(starts), max(ends)))
 
 
     def unflattenRanks(self, levels=1):
-- 
2.43.0


From 1339364aa6ef39421bf878f13bbddb19b274af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:37 +0000
Subject: [PATCH 40/42] fix: the fibers an unflatten produces get their own
 parts of the shape

---
 fibertree/core/fiber.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9faa9cf..a326d7b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4478,9 +4478,19 @@ class Fiber:
         assert not self.isLazy()
         assert self._ordered and self._unique
 
+        #
+        # Each of the ranks produced has its part of the shape
+        #
+        shape1 = None
+        shape0 = None
+        shape = self.getRankAttrs().getShape()
+        if isinstance(shape, tuple):
+            shape1 = shape[0]
+            shape0 = shape[1:] if len(shape) > 2 else shape[1]
+
         # Without any elements there is nothing to unflatten
         if len(self.coords) == 0:
-            return self._newFiber([], [], default=Fiber())
+            return Fiber([], [], default=Fiber(), shape=shape1)
 
         assert isinstance(self.coords[0], tuple)
 
@@ -4534,7 +4544,8 @@ class Fiber:
 
                     cur_fiber = Fiber(coords0,
                                       payloads0,
-                                      default=self.getDefault())
+                                      default=self.getDefault(),
+                                      shape=shape0)
 
                     if levels > 1:
                         cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
@@ -4566,7 +4577,8 @@ class Fiber:
 
         fiber0 = Fiber(coords0,
                        payloads0,
-                       default=self.getDefault())
+                       default=self.getDefault(),
+                       shape=shape0)
 
 
         #
@@ -4580,9 +4592,10 @@ class Fiber:
         #
         # Create (and return) the new top (c1) rank
         #
-        fiber1 = self._newFiber(coords1,
-                                payloads1,
-                                default=Fiber())
+        fiber1 = Fiber(coords1,
+                       payloads1,
+                       default=Fiber(),
+                       shape=shape1)
 
         return fiber1
 
-- 
2.43.0


From a95664e2fb46d6722aba48e004ca178469aeb6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 41/42] fix: position assignment with a negative key checks
 order against the element's real neighbours

---
 fibertree/core/fiber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a326d7b..53fda63 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2125,7 +2125,10 @@ class Fiber:
 
         assert not self.isLazy()
 
-        position = key
+        #
+        # Count a negative key from the end, as reading a position does
+        #
+        position = range(len(self.coords))[key]
 
         #
         # TBD: Get isinstance of CoordPayload to work...
-- 
2.43.0


From eeab798f31b79f4612431d979a56a2a516a261d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 42/42] fix: deprecated insert/insertOrLookup keep coordinates
 unique and rank lists in step with the tree

---
 fibertree/core/fiber.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 53fda63..aa3991b 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1352,23 +1352,22 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
+        index = next((x for x, val in enumerate(self.coords) if val >= coord),
+                     len(self.coords))
+
+        if index < len(self.coords) and self.coords[index] == coord:
+            return self.payloads[index]
+
         if value is None:
             value = self._createDefault()
 
         payload = Payload.maybe_box(value)
 
-        index = 0
-        try:
-            index = next(x for x, val in enumerate(self.coords) if val >= coord)
-            if self.coords[index] == coord:
-                return self.payloads[index]
-            self.coords.insert(index, coord)
-            self.payloads.insert(index, payload)
-            return self.payloads[index]
-        except StopIteration:
-            self.coords.append(coord)
-            self.payloads.append(payload)
-            return self.payloads[-1]
+        self.coords.insert(index, coord)
+        self.payloads.insert(index, payload)
+        self._adoptPayload(payload)
+
+        return payload
 
 
     def insert(self, coord, value):
@@ -1376,15 +1375,17 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
+        assert not self._unique or coord not in self.coords, \
+            "Fiber coordinates in 'unique' fibers must not be repeated"
+
         payload = Payload.maybe_box(value)
 
-        try:
-            index = next(x for x, val in enumerate(self.coords) if val > coord)
-            self.coords.insert(index, coord)
-            self.payloads.insert(index, payload)
-        except StopIteration:
-            self.coords.append(coord)
-            self.payloads.append(payload)
+        index = next((x for x, val in enumerate(self.coords) if val > coord),
+                     len(self.coords))
+
+        self.coords.insert(index, coord)
+        self.payloads.insert(index, payload)
+        self._adoptPayload(payload)
 
         return None
 
-- 
2.43.0

