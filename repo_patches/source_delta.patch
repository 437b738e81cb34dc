From dc95a2285c8d55450c5c20973ae450109a20476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 01/93] fix: use numpy.floating, as numpy.float no longer
 exists

DataNode and ReadNode raised AttributeError on every construction or read with
numpy >= 1.24.
---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From c2329109ede3ad01540fe676296315fa3448e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 02/93] fix: join a negative integer second index, and an empty
 first slice, correctly

A[i1][-1] became A[start-step] instead of the last element selected by i1, and
an integer index into an empty selection was accepted.
---
 pyconform/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..d30f4d8 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -139,7 +139,7 @@ def join(shape0, index1, index2):
         if isinstance(i1, slice):
             i2 = idx2_l.pop(0)
             start1, stop1, step1 = i1.indices(l0)
-            l1 = (abs(stop1 - start1) - 1) // abs(step1) + 1
+            l1 = len(range(start1, stop1, step1))
             if isinstance(i2, slice):
                 if (stop1 - start1) * step1 > 0:
                     start2, stop2, step2 = i2.indices(l1)
@@ -157,7 +157,7 @@ def join(shape0, index1, index2):
             else:
                 if i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 + l1 if i2 < 0 else i2) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From 72a9d670adc813fe83200c4f81f2d56f75f74d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/93] fix: reject a definition that ends too early with the
 parser's own TypeError

p_error is called with None at the end of the input and raised AttributeError.
---
 pyconform/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index f35f720..fdd4f7f 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -275,6 +275,8 @@ def p_expression_binary(p):
 
 
 def p_error(p):
+    if p is None:
+        raise TypeError("Parsing error at end of definition")
     raise TypeError("Parsing error at {!r}".format(p.value))
 
 
-- 
2.43.0


From 977c24e8c9f39ab27a88e107fbff2420b2b70be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 04/93] fix: do not truncate converted values to the integer
 type of the data

PhysArray.convert cast the result back to the original dtype, so that 150 cm (an
integer array) became 1 m.
---
 pyconform/physarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..59c1951 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -206,8 +206,10 @@ class PhysArray(numpy.ma.MaskedArray):
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
         if isinstance(obj, PhysArray):
+            # Converted values of integers are not integers, in general
+            new_dtype = obj.dtype if obj.dtype.kind == "f" else None
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data, units2), mask=obj.mask, dtype=new_dtype
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From 185a03fcd38d8c128dcc48de7175464f2da2f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 05/93] fix: keep the positive direction of an array when its
 units are converted

A lost direction meant that the sign was not changed where 'up' meets 'down', in
arithmetic and when an output variable asks for the other direction.
---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 59c1951..64f604e 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -219,7 +219,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From 5dbaf1179a27a136a1616ad704982e0529d6975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 06/93] fix: do not flip the sign of the caller's operand in
 arithmetic

Matching the positive directions flipped the right operand in place, through a
view on the caller's data: after a+b, b had changed sign.
---
 pyconform/physarray.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 64f604e..34d2b09 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -439,7 +439,9 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
-            other.flip()
+            # The data of other may be shared with the operand of the caller
+            other = other.copy().flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -457,8 +459,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -513,8 +514,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 27072a4246aa31fe84059e70ac332ee1f2da3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 07/93] fix: keep units and dimensions when a masked scalar is
 negated

---
 pyconform/physarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 34d2b09..dd0752c 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -457,6 +457,16 @@ class PhysArray(numpy.ma.MaskedArray):
                         ).format(other.dimensions, self.dimensions)
                     )
 
+    def __neg__(self):
+        # The negative of a masked scalar is a bare masked constant in numpy
+        return PhysArray(
+            super(PhysArray, self).__neg__(),
+            name=self.name,
+            units=self.units,
+            dimensions=self.dimensions,
+            positive=self.positive,
+        )
+
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
         return self._match_positive_(other)
-- 
2.43.0


From 06eb073504039faaec73666d288014038d756f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 08/93] fix: reduce a PhysArray over several dimensions
 correctly

mean and sum applied their axes one after the other in ascending order, which
reduces over the wrong axes (or fails), averages averages when entries are
masked, and sum(dimensions) took the mean.
---
 pyconform/physarray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index dd0752c..fc058bb 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -657,8 +657,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            if len(axis) > 0:
+                meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -689,8 +689,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            if len(axis) > 0:
+                sumval = sumval.sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 260e25bc3527191eb17454d19b7ee2cdbb10b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 09/93] fix: keep the units of a PhysArray when a single
 element is selected

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index fc058bb..36cc730 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -374,7 +374,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             if dimensions != self.dimensions:
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx), dimensions=dimensions
+                    super(PhysArray, self).__getitem__(idx),
+                    name=self.name,
+                    units=self.units,
+                    dimensions=dimensions,
+                    positive=self.positive,
                 )
             else:
                 return super(PhysArray, self).__getitem__(idx)
-- 
2.43.0


From 7b1ad46c0611dc8c48159e0b0f786bfe8aae03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 10/93] fix: keep the units when the sign of an array is
 flipped

The in-place multiplication by -1 turned offset units such as degC into K.
---
 pyconform/physarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 36cc730..ce2192e 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -333,7 +333,9 @@ class PhysArray(numpy.ma.MaskedArray):
         """
         if self.positive is not None:
             nm = self.name
+            units = self.units
             self *= -1
+            self.units = units
             self.positive = "up" if self.positive == "down" else "down"
             self.name = "{}({})".format(self.positive, nm)
         return self
-- 
2.43.0


From 511027f32f3553be470877179465a5ef304162ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 11/93] fix: accept a specification in which no variable needs
 a dimension mapping

---
 pyconform/dataflow.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..b569d93 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,10 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
-            )
-        )[1]
+        nodeorder = sorted(
+            definfos,
+            key=lambda vname: (len(self._ods.variables[vname].dimensions), vname),
+        )
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From ff3bb26232920448de0cb5c8a0d605522f5ee490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 12/93] fix: limit() must not modify its argument and works on
 scalars and integers

---
 pyconform/functions.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..5dc91ea 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -11,7 +11,14 @@ import numpy as np
 from cf_units import Unit
 from numpy.ma import sqrt, where
 
-from pyconform.physarray import PhysArray, UnitsError, getname
+from pyconform.physarray import (
+    PhysArray,
+    UnitsError,
+    getdimensions,
+    getname,
+    getpositive,
+    getunits,
+)
 
 
 def is_constant(arg):
@@ -505,22 +512,26 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        # (Do not modify the data of the argument, it may be used elsewhere)
+        limited = data
         above_str = ""
         if above_val is not None:
-            above_ind = where(data > above_val)
-            if len(above_ind) > 0:
-                data[above_ind] = above_val
-                above_str = ", above={}".format(above_val)
+            limited = where(limited > above_val, above_val, limited)
+            above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
-            below_ind = where(data < below_val)
-            if len(below_ind) > 0:
-                data[below_ind] = below_val
-                below_str = ", below={}".format(below_val)
+            limited = where(limited < below_val, below_val, limited)
+            below_str = ", below={}".format(below_val)
 
-        new_name = "limit({}{}{})".format(data.name, above_str, below_str)
-        return PhysArray(data, name=new_name)
+        new_name = "limit({}{}{})".format(getname(data), above_str, below_str)
+        return PhysArray(
+            limited,
+            name=new_name,
+            units=getunits(data),
+            dimensions=getdimensions(data),
+            positive=getpositive(data),
+        )
 
 
 class RemoveUnitsFunction(Function):
-- 
2.43.0


From b373eebcb122b588eae338c47c003ca265c997de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 13/93] fix: sum, min and max functions reduce over the named
 dimensions of any array

---
 pyconform/functions.py | 50 +++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 5dc91ea..e1f61d3 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -329,13 +329,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
@@ -353,23 +348,19 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = [d for d in data.dimensions if d in dimensions]
+        outdims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
-        new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+            m = np.zeros((0,) * len(outdims), dtype=data.dtype)
+        else:
+            axis = tuple(data.dimensions.index(d) for d in indims)
+            m = data.view(np.ma.MaskedArray).min(axis=axis) if axis else data
         return PhysArray(
             m,
-            name=new_name,
+            name="min({},{})".format(data.name, dimensions),
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=outdims,
         )
 
 
@@ -388,24 +379,19 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = [d for d in data.dimensions if d in dimensions]
+        outdims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
-        new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+            m = np.zeros((0,) * len(outdims), dtype=data.dtype)
+        else:
+            axis = tuple(data.dimensions.index(d) for d in indims)
+            m = data.view(np.ma.MaskedArray).max(axis=axis) if axis else data
         return PhysArray(
             m,
-            name=new_name,
+            name="max({},{})".format(data.name, ",".join(dimensions)),
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=outdims,
         )
 
 
-- 
2.43.0


From 03b7e2676f60aa1ab43a7b930ce8493402c85100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 14/93] fix: do not ignore the index of a data variable used in
 a definition

---
 pyconform/dataflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index b569d93..cd95c85 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -139,6 +139,8 @@ class DataFlow(object):
                 return ReadNode(self._ids.variables[vname], index=indices)
 
             elif vname in datnodes:
+                if len(obj.ind) > 0:
+                    return DataNode(datnodes[vname][tuple(obj.ind)])
                 return datnodes[vname]
 
             else:
-- 
2.43.0


From c0f36e01a30b7b38a325209b5690212e6f371586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 15/93] fix: keep the data type of a single missing value that
 is read

---
 pyconform/flownodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..418a9c6 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -261,6 +261,10 @@ class ReadNode(FlowNode):
 
             data = ncvar[index12]
 
+            # A single missing value is read without its type
+            if data is numpy.ma.masked:
+                data = numpy.ma.masked_all((), dtype=ncvar.dtype)
+
             # Upconvert, if possible
             if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
-- 
2.43.0


From d66dcde979f45d9eb78c472a473bc2ffc330bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 16/93] fix: up() and down() must not modify their argument

---
 pyconform/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e1f61d3..20054b6 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -404,7 +404,8 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        # (Do not modify the data of the argument, it may be used elsewhere)
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -416,7 +417,8 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        # (Do not modify the data of the argument, it may be used elsewhere)
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
-- 
2.43.0


From e0990c20bf3c5c1272d36b9bd32115ed1dced02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 17/93] fix: convert single and missing times to other units

---
 pyconform/physarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index ce2192e..db2a581 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -208,8 +208,11 @@ class PhysArray(numpy.ma.MaskedArray):
         if isinstance(obj, PhysArray):
             # Converted values of integers are not integers, in general
             new_dtype = obj.dtype if obj.dtype.kind == "f" else None
+            # (Masked or scalar times are not converted in the form of a bare array)
+            array = numpy.ma.atleast_1d(obj.view(numpy.ma.MaskedArray))
+            new_data = numpy.ma.getdata(units1.convert(array, units2))
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=new_dtype
+                new_data.reshape(obj.shape), mask=obj.mask, dtype=new_dtype
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From cf220fd8c0f31a5c81df3d2e847686d00c5f19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 18/93] fix: do not apply the index of another dimension that
 has the name of a mapped input dimension

---
 pyconform/flownodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 418a9c6..0b6e30b 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -386,7 +386,10 @@ class MapNode(FlowNode):
             inp_index = None
 
         elif isinstance(index, dict):
-            inp_index = dict((self._o2imap.get(d, d), i) for d, i in index.items())
+            # (Other dimensions may have the same names as input dimensions)
+            inp_index = dict(
+                (self._o2imap.get(d, d), index[d]) for d in out_dims if d in index
+            )
 
         else:
             out_index = index_tuple(index, len(inp_dims))
-- 
2.43.0


From 0cc6d70b48387efbc8190908fe29d9ffb7b6aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 19/93] fix: zero is a validation limit, and values equal to a
 limit are valid

---
 pyconform/flownodes.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 0b6e30b..4358624 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,34 +542,38 @@ class ValidateNode(FlowNode):
         if index is None:
             return indata
 
-        # Testing parameters
+        # Testing parameters (zero is a limit, like any other number)
+        def is_limit(value):
+            return value is not None and value != ""
+
         valid_min = self.attributes.get("valid_min", None)
         valid_max = self.attributes.get("valid_max", None)
         ok_min_mean_abs = self.attributes.get("ok_min_mean_abs", None)
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
+        if is_limit(valid_min):
             dmin = numpy.min(indata)
-            if dmin < valid_min:
+            if numpy.any(indata < valid_min):
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max:
+        if is_limit(valid_max):
             dmax = numpy.max(indata)
-            if dmax > valid_max:
+            if numpy.any(indata > valid_max):
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
-        if ok_min_mean_abs or ok_max_mean_abs:
-            mean_abs = numpy.mean(numpy.abs(indata))
+        if is_limit(ok_min_mean_abs) or is_limit(ok_max_mean_abs):
+            abs_vals = numpy.abs(numpy.ma.compressed(indata))
+            mean_abs = numpy.mean(abs_vals) if abs_vals.size else numpy.ma.masked
 
         # Validate minimum mean abs
-        if ok_min_mean_abs:
+        if is_limit(ok_min_mean_abs):
             if mean_abs < ok_min_mean_abs:
                 msg = "ok_min_mean_abs: {} < {} ({!r})".format(
                     mean_abs, ok_min_mean_abs, self.label
@@ -577,7 +581,7 @@ class ValidateNode(FlowNode):
                 warn(msg, ValidationWarning)
 
         # Validate maximum mean abs
-        if ok_max_mean_abs:
+        if is_limit(ok_max_mean_abs):
             if mean_abs > ok_max_mean_abs:
                 msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                     mean_abs, ok_max_mean_abs, self.label
-- 
2.43.0


From bea99875456c1d1b4ece426fa8ae7f68739b52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 20/93] fix: let a MapNode be indexed with integers

---
 pyconform/flownodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 4358624..8414d8a 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -406,7 +406,10 @@ class MapNode(FlowNode):
             name = "map({}, from=[{}], to=[{}])".format(
                 inp_info.name, idims_str, odims_str
             )
-        return PhysArray(self.inputs[0][inp_index], name=name, dimensions=out_dims)
+        data = self.inputs[0][inp_index]
+        # (Integer indices remove dimensions)
+        dims = tuple(self._i2omap.get(d, d) for d in data.dimensions)
+        return PhysArray(data, name=name, dimensions=dims)
 
 
 class ValidateNode(FlowNode):
-- 
2.43.0


From 8a6c7573aa039cab5623178974427ef0e1799f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 21/93] fix: chdims must select parts by the new dimension
 names

---
 pyconform/functions.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 20054b6..e218316 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -545,17 +545,21 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
-        data = (
-            self.arguments[0]
-            if is_constant(self.arguments[0])
-            else self.arguments[0][index]
-        )
-        if len(self.arguments) == 1:
-            return data
+        data_r = self.arguments[0]
+        if is_constant(data_r) or len(self.arguments) == 1:
+            return data_r if is_constant(data_r) else data_r[index]
         dims = self.arguments[1:]
+
+        # (An index given by name uses the new names, and may remove dimensions)
+        new_dims = dict(zip(data_r[None].dimensions, dims))
+        if isinstance(index, dict):
+            old_dims = data_r[None].dimensions
+            names = [(d, new_dims.get(d, d)) for d in old_dims]
+            data = data_r[{old: index[new] for old, new in names if new in index}]
+        else:
+            data = data_r[index]
+
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
-        new_dims = list(data.dimensions)
-        dlen = min(len(dims), len(new_dims))
-        new_dims[:dlen] = dims[:dlen]
-        return PhysArray(data, name=new_name, dimensions=new_dims)
+        dimensions = tuple(new_dims.get(d, d) for d in data.dimensions)
+        return PhysArray(data, name=new_name, dimensions=dimensions)
-- 
2.43.0


From 9769aa62228f81cbcc51af2ed3dbc815caca97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 22/93] fix: chunits accepts a number, like the other functions

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e218316..5943646 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -478,7 +478,7 @@ class ChangeUnitsFunction(Function):
             else "|{}".format(self._newunits.calendar)
         )
         unit_str = "{}{}".format(self._newunits, cal_str)
-        new_name = "chunits({}, units={})".format(data.name, unit_str)
+        new_name = "chunits({}, units={})".format(getname(data), unit_str)
         return PhysArray(data, name=new_name, units=self._newunits)
 
 
-- 
2.43.0


From 88bac7e4596096b6939f3dedf75721046a919aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 23/93] fix: variables with differently ordered dimensions are
 not the same

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..3b74329 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if tuple(self.dimensions) != tuple(other.dimensions):
             return False
         return True
 
-- 
2.43.0


From 266fc4bec55c5b04fa3f788c58a5a344dd638ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 24/93] fix: refuse data with another rank than its dimensions;
 single characters are strings

---
 pyconform/dataflow.py |  2 ++
 pyconform/datasets.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index cd95c85..fe82e38 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -106,6 +106,8 @@ class DataFlow(object):
             if not isinstance(vdesc.definition, str):
                 if vdesc.datatype == "char":
                     vdata = numpy.asarray(vdesc.definition, dtype="S")
+                    if vdata.ndim < len(vdesc.dimensions) and vdata.dtype.itemsize == 1:
+                        vdata = vdata.reshape(vdata.shape + (1,))
                 else:
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 3b74329..699ebdf 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -16,7 +16,7 @@ from warnings import warn
 
 from cf_units import Unit
 from netCDF4 import Dataset as NC4Dataset
-from numpy import dtype
+from numpy import asarray, dtype
 
 from pyconform.physarray import PhysArray
 
@@ -855,6 +855,16 @@ class OutputDatasetDesc(DatasetDesc):
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
                     )
                 else:
+                    # (Strings of a single character have a string length, too)
+                    if sldim and asarray(vdef, dtype="S").dtype.itemsize == 1:
+                        if len(vshape) == len(vdims) - 1:
+                            vshape += (1,)
+                    if len(vdims) != len(vshape):
+                        err_msg = (
+                            "Variable {!r} in dataset {!r} has {} dimensions but its data "
+                            "have {}"
+                        ).format(vname, name, len(vdims), len(vshape))
+                        raise ValueError(err_msg)
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, size=s, stringlen=(sldim == d))
                         for d, s in zip(vdims, vshape)
-- 
2.43.0


From 417b8ffd46930f22c4473c4c1aa8704ff4f0a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 25/93] fix: values are not truncated or wrapped to fit an
 integer datatype

---
 pyconform/flownodes.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8414d8a..1d29277 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -493,6 +493,24 @@ class ValidateNode(FlowNode):
         """
         return tuple(self._vdesc.dimensions.keys())
 
+    def _as_integers_(self, data, dtype):
+        """
+        Cast data to an integer datatype, which must be able to hold the values
+        """
+        is_float = issubclass(data.dtype.type, numpy.floating)
+        values = numpy.ma.compressed(data)
+        whole = numpy.rint(values) if is_float else values
+        limits = numpy.iinfo(dtype)
+        if not numpy.allclose(values, whole, rtol=1e-12, atol=1e-6) or (
+            values.size > 0 and not limits.min <= whole.min() <= whole.max() <= limits.max
+        ):
+            raise ValueError(
+                "Datatype {!s} cannot hold the values of variable {!r}".format(
+                    dtype, self.label
+                )
+            )
+        return (data.round() if is_float else data).astype(dtype)
+
     def __getitem__(self, index):
         """
         Compute and retrieve the data associated with this FlowNode operation
@@ -506,8 +524,10 @@ class ValidateNode(FlowNode):
             odtype = indata.dtype
         else:
             odtype = self._vdesc.dtype
+        # (Integers are cast after conversion, when it is known what they have to hold)
+        is_integer = issubclass(odtype.type, numpy.integer)
         if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
-            indata = indata.astype(odtype)
+            indata = indata.astype(indata.dtype if is_integer else odtype)
         else:
             raise TypeError(
                 ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
@@ -531,6 +551,8 @@ class ValidateNode(FlowNode):
                             self.label, err
                         )
                         raise err.__class__(err_msg)
+        if is_integer:
+            indata = self._as_integers_(indata, odtype)
 
         # Check that the dimensions match as expected
         if self.dimensions != indata.dimensions:
-- 
2.43.0


From 5345eb84b0ca79964b3ff40f52009dc16b6a76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 26/93] fix: numbers are refused, not cut to their first digit,
 as char variables

---
 pyconform/flownodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 1d29277..33bba37 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -526,7 +526,9 @@ class ValidateNode(FlowNode):
             odtype = self._vdesc.dtype
         # (Integers are cast after conversion, when it is known what they have to hold)
         is_integer = issubclass(odtype.type, numpy.integer)
-        if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
+        # (Numbers can not be written as the characters they would be cast to)
+        is_text = indata.dtype.kind in "SU" or odtype.kind not in "SU"
+        if is_text and numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
             indata = indata.astype(indata.dtype if is_integer else odtype)
         else:
             raise TypeError(
-- 
2.43.0


From 83f7fddb18e1ed62931e7a02b36be1673f571bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 27/93] fix: chunk sizes below one are refused, nothing was
 written with them

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index fe82e38..638cdeb 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -357,6 +357,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    "Chunk size invalid for output dimension {!r}: {}".format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From bb16c469af1b59e1e6845bfe9a4e428c0050e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 28/93] fix: files with an empty unlimited dimension can be
 written

---
 pyconform/flownodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 33bba37..a68975e 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -580,16 +580,16 @@ class ValidateNode(FlowNode):
 
         # Validate minimum
         if is_limit(valid_min):
-            dmin = numpy.min(indata)
             if numpy.any(indata < valid_min):
+                dmin = numpy.min(indata)
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
                 indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
         if is_limit(valid_max):
-            dmax = numpy.max(indata)
             if numpy.any(indata > valid_max):
+                dmax = numpy.max(indata)
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
                 indata = numpy.ma.masked_where(indata > valid_max, indata)
@@ -945,9 +945,10 @@ class WriteNode(FlowNode):
         if not isinstance(chunks, dict):
             raise TypeError("Dimension chunks must be a dictionary")
 
-        chunks_ = {d: chunks[d] if d in chunks else dsizes[d] for d in dsizes}
+        # (Unlimited dimensions may be empty, and have one empty chunk)
+        chunks_ = {d: chunks[d] if d in chunks else max(dsizes[d], 1) for d in dsizes}
         nchunks = {
-            d: int(dsizes[d] // chunks_[d]) + int(dsizes[d] % chunks_[d] > 0)
+            d: max(int(dsizes[d] // chunks_[d]) + int(dsizes[d] % chunks_[d] > 0), 1)
             for d in dsizes
         }
         ntotal = int(numpy.prod([nchunks[d] for d in nchunks]))
-- 
2.43.0


From fed02ec9163d0e33bb35b0c3df9042ca9a1ff8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 29/93] fix: string lengths can be chunked

---
 pyconform/flownodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a68975e..11e9ea2 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1046,7 +1046,8 @@ class WriteNode(FlowNode):
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
+                        strlen = ncvar.shape[-1]
+                        vdata = vdata.stretch(len(range(*wchunk[-1].indices(strlen))))
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From 0344aa6348ae30e0bc28194a1473c3f1214158ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 30/93] fix: a file can be written after an execution that
 failed

---
 pyconform/flownodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 11e9ea2..9b1c76f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1012,6 +1012,20 @@ class WriteNode(FlowNode):
             deflate (int): Override the output file deflate level with given value
         """
 
+        try:
+            self._write_(chunks=chunks, deflate=deflate)
+        except BaseException:
+            # (The node can be executed again)
+            if self._file is not None:
+                self._file.close()
+                self._file = None
+            self._idims = set()
+            raise
+
+    def _write_(self, chunks={}, deflate=None):
+        """
+        Write the file associated with the WriteNode
+        """
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From 6fee45c45943cdb760093d556a341e8664f61251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 31/93] fix: xconform loads user modules with importlib, the
 imp module no longer exists

---
 pyconform/cli/xconform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..73efaae 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,9 +14,11 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, spec_from_loader
 from json import load as json_load
 from os.path import exists
+from sys import modules
 from warnings import simplefilter
 
 from asaptools.partition import Duplicate
@@ -36,6 +38,14 @@ def chunk(arg):
         raise ArgumentTypeError("Chunks must be formatted as 'name,size'")
 
 
+def load_source(name, path):
+    loader = SourceFileLoader(name, path)
+    module = module_from_spec(spec_from_loader(name, loader))
+    modules[name] = module
+    loader.exec_module(module)
+    return module
+
+
 def cli(argv=None):
     desc = """This is the PyConform command-line tool.  This scripts takes
               input from the command-line and a predefined output
-- 
2.43.0


From 4de080c4a27c8c93cb7ea52c82a67b4fbdcbe53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 32/93] fix: vardeps reads definitions with keywords and
 comparisons

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..8984625 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From a402699bfad5d4a9b797e7947e48c573e28407f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 33/93] fix: vardeps lists dependencies of variables without a
 realm

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 8984625..776cfee 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From 3561895fc7625d842a4d68d4c63f2e943ae1f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 34/93] fix: vardeps does not fail when no input variables are
 needed

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 776cfee..9d23421 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5fb9886ab55278d91eb1b766c2ba2963af326a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 35/93] fix: the zonal wind's vorticity in DynVarMIP
 diagnostics is per length of the parallel

The TEM equations (Andrews et al. 1987, 3.5.2; Gerber and Manzini 2016) have
f - (u cos(lat))_lat / (a cos(lat)); utendvtem and epfz divided by a only.
---
 pyconform/modules/dynvarmipdiags.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipdiags.py b/pyconform/modules/dynvarmipdiags.py
index 0beb83d..d03d654 100644
--- a/pyconform/modules/dynvarmipdiags.py
+++ b/pyconform/modules/dynvarmipdiags.py
@@ -73,7 +73,9 @@ def utendvtem(time, levi, lat, uzm, vzm, vthzm, thzm):
     utendvtem = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         utendvtem[itime, ...] = _vtem[itime, ...] * (f - dudphi)
     return utendvtem
 
@@ -130,7 +132,9 @@ def _init_epfz(time, levi, lat, uzm, uwzm, vthzm, thzm):
     epfz = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         dthdp = deriv(levi100, thzm[itime, ...])
         psieddy = vthzm[itime, ...] / dthdp
         epfz[itime, ...] = a * numpy.einsum(
-- 
2.43.0


From 4b0c2eee1c19bbff1ca11c20ce7f41fea924d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 36/93] fix: DynVarMIP tendencies of the zonal wind are in m
 s-2, as computed

---
 pyconform/modules/dynvarmipfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 4f75675..c3bfd46 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -53,7 +53,7 @@ class utendwtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, wzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendwtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
@@ -75,7 +75,7 @@ class utendvtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, vzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendvtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
-- 
2.43.0


From 99b9ef3d0442ca29ca420b816ec1278a295f3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 37/93] fix: splines through integers (and lists) are not
 truncated to integers

---
 pyconform/modules/idl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index 839e345..267fa88 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -76,6 +76,8 @@ def spl_init(x1, y1, axis=0):
     """
     Python version of GDL spl_init function
     """
+    x1 = numpy.array(x1, dtype="d")
+    y1 = numpy.array(y1, dtype="d")
     n = len(x1)
     x0 = numpy.roll(x1, 1)
     x2 = numpy.roll(x1, -1)
@@ -119,6 +121,10 @@ def spl_interp(xa, ya, y2a, x, axis=0):
     """
     Python version of GDL spl_interp function
     """
+    xa = numpy.array(xa, dtype="d")
+    ya = numpy.array(ya, dtype="d")
+    y2a = numpy.array(y2a, dtype="d")
+    x = numpy.array(x, dtype="d")
     n = len(xa)
     valloc = numpy.digitize(x, xa) - 1
     klo = []
-- 
2.43.0


From 1f58b231c3d2dd11aeace346ddf4673883f6ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 38/93] fix: DynVarMIP diagnostics that depend on missing
 values are missing

---
 pyconform/modules/dynvarmipfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index c3bfd46..1e35e17 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -24,7 +24,9 @@ class DynVarMIPFunction(Function):
     def __getitem__(self, index):
         args = [np.ma.asarray(arg[index]) for arg in self.arguments]
         arg_names = ",".join([arg.name for arg in args])
-        data = self._dynvarmip_func(*args)
+        # (What depends on missing values is missing)
+        values = [np.ma.filled(np.ma.array(arg, dtype="d"), np.nan) for arg in args]
+        data = np.ma.masked_invalid(self._dynvarmip_func(*values))
         name = "{}({})".format(self.key, arg_names)
         return PhysArray(
             data,
-- 
2.43.0


From a2d2680038bc61a0dfa05e3b9871b0be80aea4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 39/93] fix: DynVarMIP diagnostics can not be chunked over
 levels and latitudes

---
 pyconform/modules/dynvarmipfunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 1e35e17..91dd1b2 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -21,6 +21,10 @@ class DynVarMIPFunction(Function):
         self._units = None
         self._positive = None
 
+        # Derivatives and integrals need all levels and latitudes
+        for arg in (lev, lat):
+            self.add_sumlike_dimensions(*arg[None].dimensions)
+
     def __getitem__(self, index):
         args = [np.ma.asarray(arg[index]) for arg in self.arguments]
         arg_names = ",".join([arg.name for arg in args])
-- 
2.43.0


From 2b920b3fafa183d0926744fa6f7aa7dd986bf654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 40/93] fix: dates of files are compared in one unit, with a
 tolerance for rounding

Months of days since year 1 were looked up with the units of the file, and
steps in the units of the file added to days.
---
 pyconform/mapdates.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..9bb3a41 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,6 +11,7 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
+import numpy
 from dateutil import parser
 
 from . import climIO
@@ -55,14 +56,18 @@ def __get_time_info__(f, io):
         d2 = tb[2]
         dn = tb[j - 1]
         time = tb[:]
+
+    # All times are compared in the standard units
+    time = cal_unit.convert(numpy.array(time, dtype="d"), stand_cal)
+    d0, d1, d2, dn = (cal_unit.convert(float(d), stand_cal) for d in (d0, d1, d2, dn))
     date_info["time"] = time
 
     # Get second and third time bounds to figure out the time period
     t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
+        str(cf_units.num2date(d1, stand_cal.origin, calendar=att["calendar"]))
     ).timetuple()
     t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
+        str(cf_units.num2date(d2, stand_cal.origin, calendar=att["calendar"]))
     ).timetuple()
     # Get time difference between the steps
     t_step = d2 - d1
@@ -84,11 +89,11 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = d0
+    date_info["tn"] = dn
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
-    date_info["units"] = att["units"]
+    date_info["units"] = stand_cal.origin
     date_info["calendar"] = att["calendar"]
 
     # Check to see if the number of slices matches how many should be in the
@@ -166,7 +171,7 @@ def __check_date_alignment__(keys, date_info):
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
         else:
-            if next_val == date_info[keys[i]]["t0"]:
+            if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-3 * abs(t_step):
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
                 prev_last = date_info[keys[i]]["tn"]
@@ -240,7 +245,7 @@ def __check_date_alignment_in_file__(date):
     # slices.
     else:
         for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
+            if abs(prev_time + t_step - t[i]) <= 1e-3 * abs(t_step):
                 # Time step looks okay
                 prev_time = t[i]
             else:
-- 
2.43.0


From 762c00455995aae9e0a3c98f58e096c8e8cb1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 41/93] fix: the last time of files with bounds is the
 beginning of the last interval, like the others

One unit was subtracted from the end, which is only right for days.
---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 9bb3a41..7892c29 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -45,7 +45,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
-- 
2.43.0


From be6214a5b988e90e054f510075da94e11921b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 42/93] fix: files with the same dates are not lost, but
 reported

---
 pyconform/mapdates.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 7892c29..19810c7 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -282,12 +282,13 @@ def get_files_in_order(files, alignment=True):
     counts = []
     file_list = []
 
-    for fl in files:
+    for n, fl in enumerate(files):
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
         date["fn"] = fn
-        date_info[ave] = date
+        # (Files can have the same average)
+        date_info[(ave, n)] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
@@ -298,7 +299,7 @@ def get_files_in_order(files, alignment=True):
         counts.append(date_info[d]["cnt"])
 
     # If there are more than 1 files, make sure the dates are aligned correctly
-    if len(fl) > 1:
+    if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From ecce363fba2cb3eac9bdf8db48cde08dd316fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 43/93] fix: steps of months and years are recognised by the
 calendar, with their years

Missing years between months, middles of months, years with leap days, and
dates like February 30 were taken for something else.
---
 pyconform/mapdates.py | 128 +++++++++++++++++++-----------------------
 1 file changed, 59 insertions(+), 69 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 19810c7..146b432 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -12,11 +12,28 @@ import os
 
 import cf_units
 import numpy
-from dateutil import parser
 
 from . import climIO
 
 
+def __get_date__(value, units, calendar):
+    """
+    Returns the date (year, month, day, hour, ...) of a time.
+    """
+    return cf_units.num2date(value, units, calendar=calendar).timetuple()
+
+
+def __get_month__(date):
+    """
+    Returns the number of the month of a date, counted over the years.
+    """
+    return 12 * date[0] + date[1]
+
+
+# Steps of uneven length, in months
+__MONTHS__ = {"mon": 1, "year": 12}
+
+
 def __get_time_info__(f, io):
     """
     Evaluates the time slices in the input files to verify
@@ -63,16 +80,17 @@ def __get_time_info__(f, io):
     date_info["time"] = time
 
     # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, stand_cal.origin, calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, stand_cal.origin, calendar=att["calendar"]))
-    ).timetuple()
+    t1 = __get_date__(d1, stand_cal.origin, att["calendar"])
+    t2 = __get_date__(d2, stand_cal.origin, att["calendar"])
     # Get time difference between the steps
     t_step = d2 - d1
     h = t2[3] - t1[3]
-    if t1[3] != t2[3]:
+    months = __get_month__(t2) - __get_month__(t1)
+    if months == 1 and 27 < t_step < 32:
+        t_per = "mon"
+    elif months == 12 and 359 < t_step < 367:
+        t_per = "year"
+    elif t1[3] != t2[3]:
         t_per = str(h) + "hour"
     elif t1[2] != t2[2]:
         t_per = "day"
@@ -124,49 +142,39 @@ def __check_date_alignment__(keys, date_info):
     prev_last = date_info[keys[0]]["tn"]
     t_step = date_info[keys[0]]["t_step"]
 
-    if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
-                    calendar=date_info[keys[0]]["calendar"],
-                )
-            )
-        ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
+    t_per = date_info[keys[0]]["t_per"]
 
+    if t_per in __MONTHS__:
+        date = __get_date__(
+            date_info[keys[0]]["tn"],
+            date_info[keys[0]]["units"],
+            date_info[keys[0]]["calendar"],
+        )
+        next_val = __get_month__(date) + __MONTHS__[t_per]
     else:
         next_val = prev_last + t_step
 
     for i in range(1, len(keys)):
-        if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
-                        calendar=date_info[keys[i]]["calendar"],
-                    )
+        if t_per in __MONTHS__:
+            same = date_info[keys[i]]["t_per"] == t_per
+        else:
+            same = abs(date_info[keys[i]]["t_step"] - t_step) <= 1e-3 * abs(t_step)
+        if not same:
+            print("Disconnect? Expected steps of: ", t_per, t_step)
+            return 1
+        if t_per in __MONTHS__:
+            new_date = __get_date__(
+                date_info[keys[i]]["t0"],
+                date_info[keys[i]]["units"],
+                date_info[keys[i]]["calendar"],
+            )
+            if next_val == __get_month__(new_date):
+                date = __get_date__(
+                    date_info[keys[i]]["tn"],
+                    date_info[keys[i]]["units"],
+                    date_info[keys[i]]["calendar"],
                 )
-            ).timetuple()
-            if next_val == new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
-                ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
+                next_val = __get_month__(date) + __MONTHS__[t_per]
             else:
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
@@ -206,31 +214,13 @@ def __check_date_alignment_in_file__(date):
     # If the time period in monthly, then the time difference between slices is not uniform and
     # requires looking into the month length array to get correct day #'s
     # between slices.
-    if t_per == "mon":
-        if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
+    if t_per in __MONTHS__:
+        date1 = __get_date__(t[0], date["units"], date["calendar"])
+        next_val = __get_month__(date1) + __MONTHS__[t_per]
         for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if next_val == new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
-                ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
+            new_date = __get_date__(t[i], date["units"], date["calendar"])
+            if next_val == __get_month__(new_date):
+                next_val = __get_month__(new_date) + __MONTHS__[t_per]
             else:
                 print(
                     "Disconnect? Expected: ",
-- 
2.43.0


From 07b94f8fbc1d8c9d73956fa486d4c0c30143f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 44/93] fix: times without a calendar attribute are in the
 standard calendar

---
 pyconform/mapdates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 146b432..21ac8e9 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -53,6 +53,8 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
+    # (Times without a calendar are in the standard calendar)
+    att = dict(att, calendar=att.get("calendar", "standard"))
     stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
     cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
     if "bounds" in att.keys():
-- 
2.43.0


From 9c14435307350ed765badc8bbe6d638de052a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 45/93] fix: axes of CMOR tables are found, names of dimensions
 are no bytes

---
 pyconform/miptableparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..674c801 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -326,7 +326,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From 34e5df4222218dbc7ab54651f33e84cf32ed9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 46/93] fix: several CMOR tables can be read, each with its own
 variables

---
 pyconform/miptableparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 674c801..8030fac 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -311,12 +311,15 @@ class ParseCmorTable(object):
             with open(t) as f:
                 mt = json.load(f)
 
+            # (Each table has its own variables)
             if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
+                t_list = list(mt["variable_entry"].keys())
+            else:
+                t_list = [var for var in v_list if var in mt["variable_entry"]]
 
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in t_list:
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From a44158cd7b7183a66f25b65687a82910df80b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 47/93] fix: global attributes need not have external variables
 and grids

---
 pyconform/cli/iconform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..bb5d78d 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -250,7 +250,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif "variable_id" in a and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
@@ -371,8 +371,8 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                     ripf,
                 )
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
-    if "grid" in attr.keys():
-        if len(attr["realm"]) > 0:
+    if "grid" in attr.keys() and len(grids) > 0:
+        if len(attr.get("realm", "")) > 0:
             attr["grid"] = grids[attr["realm"].split()[0]]
         else:
             attr["grid"] = "CAN NOT FIND GRID - NO REALM IN DATAREQ"
@@ -389,9 +389,9 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
-        grids = {}
         for p in p1:
             g = p.split(":")[1]
             for model in p.split(":")[0].split(","):
-- 
2.43.0


From 47eb53b20a45dc49d032c231e448b44c46e0985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 48/93] fix: global attributes can be numbers

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index bb5d78d..373aeff 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -176,7 +176,7 @@ def load(defs, key=None):
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in attr.items():
-        if d is not None:
+        if isinstance(d, str):
             if "__FILL__" in d:
                 if "activity_id" in a and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-- 
2.43.0


From 57a60ee477382565b383eb5554fa2644161cd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 49/93] fix: attributes of several global attribute files are
 joined, whatever their format

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 373aeff..24374dd 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -888,7 +888,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 8aa5e6f8b94e7beaf7ea773e1c8619a402733846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 50/93] fix: specifications need no variable_id among the
 global attributes

---
 pyconform/cli/iconform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 24374dd..0119bd5 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -683,9 +683,7 @@ def create_output(
                     )
                     if ts_key not in TableSpec.keys():
                         TableSpec[ts_key] = {}
-                    TableSpec[ts_key][
-                        var_list[v]["file"]["attributes"]["variable_id"]
-                    ] = var_list[v]
+                    TableSpec[ts_key][d["variable_id"]] = var_list[v]
                     t_realm = "NoRealm"
                     for k1, v1 in definitions.items():
                         if "Coords" in k1:
-- 
2.43.0


From 5c768099ca393cd40fb1c94a05e6af4d5b75f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 51/93] fix: real is float, in every format

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 699ebdf..8ab61b9 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -770,7 +770,7 @@ class OutputDatasetDesc(DatasetDesc):
     """
 
     _NC_TYPES_ = {
-        3: ["byte", "char", "short", "int", "float", "double"],
+        3: ["byte", "char", "short", "int", "float", "real", "double"],
         4: [
             "byte",
             "char",
-- 
2.43.0


From e62ce64799be4f5e3d3a48c9d50057f612478eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 52/93] fix: the stream function of DynVarMIP diagnostics takes
 descending levels, too

---
 pyconform/modules/dynvarmipdiags.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/dynvarmipdiags.py b/pyconform/modules/dynvarmipdiags.py
index d03d654..f4efb3c 100644
--- a/pyconform/modules/dynvarmipdiags.py
+++ b/pyconform/modules/dynvarmipdiags.py
@@ -175,6 +175,12 @@ def psitem(time, levi, lat, vzm, vthzm, thzm):
     ntime = len(time)
     nlevi = len(levi)
 
+    # The integral starts at the top (p=0), so the levels have to ascend
+    descending = nlevi > 1 and levi[0] > levi[-1]
+    if descending:
+        levi = levi[::-1]
+        vzm, vthzm, thzm = (x[:, ::-1, ...] for x in (vzm, vthzm, thzm))
+
     latrad = (lat / 180.0) * numpy.pi
     coslat = numpy.cos(latrad)
     levi100 = levi * 100.0
@@ -197,4 +203,4 @@ def psitem(time, levi, lat, vzm, vthzm, thzm):
             tmp2 = result - psieddy[ilev - 1, ...]
             psitem[itime, ilev - 1, ...] = numpy.einsum("i,i...->i...", tmp1, tmp2)
 
-    return psitem
+    return psitem[:, ::-1, ...] if descending else psitem
-- 
2.43.0


From f5ca251679571fdea31a88a24242f1ba5bd42b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 53/93] fix: the age of air has dimensions, and years and
 months are whole numbers

---
 pyconform/modules/commonfunctions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..143187e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -462,6 +462,7 @@ class AgeofAirFunction(Function):
                     p_lev.dimensions[0],
                     p_lat.dimensions[0],
                 ],
+                units="yr",
             )
 
         spc_zm = p_spc_zm.data
@@ -474,8 +475,8 @@ class AgeofAirFunction(Function):
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -497,7 +498,16 @@ class AgeofAirFunction(Function):
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_time.dimensions[0],
+                p_lev.dimensions[0],
+                p_lat.dimensions[0],
+            ],
+            units="yr",
+        )
 
 
 class YeartoMonth_dataFunction(Function):
-- 
2.43.0


From 81c7c95bd0811a37115a30fc3f49020b03390e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 54/93] fix: the bottom layer of a field has dimensions, and is
 missing where there is no sea

---
 pyconform/modules/commonfunctions.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 143187e..add53ef 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -703,20 +703,36 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
         KMT = p_KMT.data
 
+        fv = 1e20
         a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-                a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                if KMT[j, i] > 0:
+                    a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                else:
+                    a[:, j, i] = fv
 
+        a[a >= 1e16] = fv
+        ma_a = np.ma.masked_values(a, fv)
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            ma_a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+            units=p_data.units,
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
-- 
2.43.0


From 33942f5ed83286140b07afe1c3853aa40c755783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 55/93] fix: what is left of masked_invalid's data has
 dimensions, and keeps its missing values

---
 pyconform/modules/commonfunctions.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index add53ef..755fca2 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1049,15 +1049,23 @@ class masked_invalidFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
-        data = p_data.data
-
-        a = np.ma.masked_invalid(data)
+        a = np.ma.masked_invalid(np.ma.array(p_data))
 
         new_name = "masked_invalid({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[1],
+                p_data.dimensions[2],
+            ],
+            units=p_data.units,
+        )
 
 
 class hemisphereFunction(Function):
-- 
2.43.0


From 4e0d61efac4a6e90df9fb626d8b26369e009d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 56/93] fix: the burnt fraction has dimensions and missing
 values, and every month its own days

---
 pyconform/modules/commonfunctions.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 755fca2..21ad067 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1331,6 +1331,7 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -1339,7 +1340,11 @@ class burntFractionFunction(Function):
 
         a = np.ma.zeros((data.shape[0], data.shape[1], data.shape[2]))
 
+        # The month in which this part of the data starts
         i = 0
+        if isinstance(index, dict):
+            tslice = index.get(p_data.dimensions[0], slice(None))
+            i = (tslice.start or 0) % 12
         for t in range(0, data.shape[0]):
             for x in range(0, data.shape[1]):
                 for y in range(0, data.shape[2]):
@@ -1349,11 +1354,21 @@ class burntFractionFunction(Function):
                         a[t, x, y] = 1e20
             i += 1
             if i == 12:
-                i = 1
+                i = 0
         a[a >= 1e16] = 1e20
+        a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[1],
+                p_data.dimensions[2],
+            ],
+            units=p_data.units,
+        )
 
 
 class reduce_luFunction(Function):
-- 
2.43.0


From d342e7afbbf5fad6b8005ad68b24279b399d742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 57/93] fix: the age of air refuses to be computed in parts of
 its history

---
 pyconform/modules/commonfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 21ad067..1e0d274 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -446,6 +446,8 @@ class AgeofAirFunction(Function):
 
     def __init__(self, spc_zm, date, time, lat, lev):
         super(AgeofAirFunction, self).__init__(spc_zm, date, time, lat, lev)
+        # (Every age is found in the whole history of the first point)
+        self.add_sumlike_dimensions(*spc_zm[None].dimensions)
 
     def __getitem__(self, index):
         p_spc_zm = self.arguments[0][index]
-- 
2.43.0


From 2354fc0c4337b48dc1a6c23ee7ba5898ee646630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 58/93] fix: ocean means and monthly values from years announce
 their units

---
 pyconform/modules/commonfunctions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 1e0d274..caa4292 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -532,6 +532,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -587,6 +588,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -853,7 +855,11 @@ class POP_surf_meanFunction(Function):
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         TAREA = p_TAREA.data
@@ -889,7 +895,11 @@ class POP_3D_meanFunction(Function):
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         dz = p_dz.data
-- 
2.43.0


From e8fef5f52dba2792c2f190f4afea920f0634978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 59/93] fix: cice_where handles every time on its own, and
 announces its units

---
 pyconform/modules/commonfunctions.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index caa4292..26e14fc 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1130,20 +1130,31 @@ class cice_whereFunction(Function):
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
             )
 
         a = np.ma.zeros(a1.shape)
         for t in range(a1.data.shape[0]):
             if ">=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, var, value)
+                a[t, :, :] = np.ma.where(
+                    a1[t, :, :] >= a2, var[t, :, :], value
+                )
             elif "<=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, var, value)
+                a[t, :, :] = np.ma.where(
+                    a1[t, :, :] <= a2, var[t, :, :], value
+                )
             elif "==" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, var, value)
+                a[t, :, :] = np.ma.where(
+                    a1[t, :, :] == a2, var[t, :, :], value
+                )
             elif "<" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, var, value)
+                a[t, :, :] = np.ma.where(
+                    a1[t, :, :] < a2, var[t, :, :], value
+                )
             elif ">" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var, value)
+                a[t, :, :] = np.ma.where(
+                    a1[t, :, :] > a2, var[t, :, :], value
+                )
 
         new_name = "cice_where()".format()
         return PhysArray(
-- 
2.43.0


From 95f69ab895d08cfe705cdbdaad1274324b8ef1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 60/93] fix: yearly means of months, and hemispheres, on Python
 3

---
 pyconform/modules/commonfunctions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 26e14fc..55ac376 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -224,12 +224,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -242,7 +242,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -293,9 +293,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -332,9 +332,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
@@ -1096,21 +1096,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From 6b0de321e105400fd616b23ce1da677eb51a2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 61/93] fix: the bounds of climatological and yearly times have
 the dimension asked for

---
 pyconform/modules/commonfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 55ac376..185a047 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -136,8 +136,8 @@ class oclim_timeFunction(Function):
 class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
-    def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+    def __init__(self, time, bdim="d2"):
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -314,8 +314,8 @@ class monthtoyear_noleap_timeFunction(Function):
 class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
-    def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+    def __init__(self, time_bound, bdim="d2"):
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From 374b9d69ab8a42f2643edd363615cfa66e044723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 62/93] fix: a hemisphere refuses chunks of the dimension it
 halves

---
 pyconform/modules/commonfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 185a047..e0e14b8 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1085,6 +1085,8 @@ class hemisphereFunction(Function):
 
     def __init__(self, data, dim="dim", dr="dr"):
         super(hemisphereFunction, self).__init__(data, dim=dim, dr=dr)
+        # (Half of every chunk is not the same as half of the data)
+        self.add_sumlike_dimensions(*[d for d in data[None].dimensions if dim in d][:1])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
-- 
2.43.0


From 7f9a1ff9810ffe03bfa1c203bb2fbe64ac7e0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 63/93] fix: functions that change the length of time refuse
 chunks of it

---
 pyconform/modules/commonfunctions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e0e14b8..6cb67ed 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -31,6 +31,7 @@ class OclimFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("oclim: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -104,6 +105,7 @@ class oclim_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(oclim_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(time_bnds[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -138,6 +140,7 @@ class oclim_timebndsFunction(Function):
 
     def __init__(self, time, bdim="d2"):
         super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -193,6 +196,7 @@ class monthtoyear_noleapFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("monthtoyear_noleap: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -279,6 +283,7 @@ class monthtoyear_noleap_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(monthtoyear_noleap_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(time_bnds[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -316,6 +321,7 @@ class monthtoyear_noleap_timebndsFunction(Function):
 
     def __init__(self, time_bound, bdim="d2"):
         super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
+        self.add_sumlike_dimensions(time_bound[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
@@ -517,6 +523,7 @@ class YeartoMonth_dataFunction(Function):
 
     def __init__(self, data, time, lat, lon):
         super(YeartoMonth_dataFunction, self).__init__(data, time, lat, lon)
+        self.add_sumlike_dimensions(data[None].dimensions[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -571,6 +578,7 @@ class YeartoMonth_data3DFunction(Function):
 
     def __init__(self, data, time, lat, lon, v):
         super(YeartoMonth_data3DFunction, self).__init__(data, time, lat, lon, v)
+        self.add_sumlike_dimensions(data[None].dimensions[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -633,6 +641,7 @@ class YeartoMonth_timeFunction(Function):
 
     def __init__(self, time):
         super(YeartoMonth_timeFunction, self).__init__(time)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
-- 
2.43.0


From b21313172b49b71d4ec15992803ecc6f5329a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 64/93] fix: missing values of land units and ocean basins stay
 missing

---
 pyconform/modules/commonfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 6cb67ed..606fd0f 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1429,6 +1429,7 @@ class reduce_luFunction(Function):
                         data[t, 6, x, y] + data[t, 7, x, y] + data[t, 8, x, y]
                     )
         data2[data2 >= 1e16] = 1e20
+        data2 = np.ma.masked_values(data2, 1e20)
 
         new_name = "reduce_lu({}{})".format(p_data.name, p_lu.name)
         return PhysArray(
@@ -1596,7 +1597,8 @@ class ocean_basinFunction(Function):
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = p_data1.data
+        # (Differences with missing values are missing, too)
+        data1 = np.ma.masked_greater_equal(p_data1.data, 1e16)
         comp = int(p_comp)
         basin = p_basin.data
 
-- 
2.43.0


From b377bdfedd4a58096f9a0e6a43a7daf0735ab897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 65/93] fix: get_nonwoodyveg announces an array with dimensions
 and units, and gives the same

---
 pyconform/modules/commonfunctions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 606fd0f..3d5e885 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1509,8 +1509,14 @@ class get_nonwoodyvegFunction(Function):
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
+        dimensions = [
+            p_pct_nat_pft.dimensions[0],
+            p_landUse.dimensions[0],
+            p_pct_nat_pft.dimensions[2],
+            p_pct_nat_pft.dimensions[3],
+        ]
         if index is None:
-            return data
+            return PhysArray(data, dimensions=dimensions, units=p_pct_nat_pft.units)
 
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
@@ -1539,12 +1545,7 @@ class get_nonwoodyvegFunction(Function):
         return PhysArray(
             data,
             name=new_name,
-            dimensions=[
-                p_pct_nat_pft.dimensions[0],
-                p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
-                p_pct_nat_pft.dimensions[2],
-            ],
+            dimensions=dimensions,
             units=p_pct_nat_pft.units,
         )
 
-- 
2.43.0


From 836086a7b77b7b403e414e4583e2410231c4dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 66/93] fix: bounds of integers are not cut off, and bounds of
 parts are parts of the bounds

---
 pyconform/modules/commonfunctions.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 3d5e885..bdf39ba 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -384,11 +384,12 @@ class BoundsFunction(Function):
             # self.add_sumlike_dimensions(idata_info.dimensions[0])
 
     def __getitem__(self, index):
-        data = self.arguments[0][index]
+        # (The bounds of a part of the data depend on what is next to it)
+        data = self.arguments[0][index if index is None else {}]
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
-        bnds = PhysArray([1, 1], dimensions=(bdim,))
+        bnds = PhysArray([1.0, 1.0], dimensions=(bdim,))
         new_data = PhysArray(
             data * bnds, name="bounds({})".format(data.name), units=data.units
         )
@@ -412,16 +413,12 @@ class BoundsFunction(Function):
                 new_data[1:, 0] = data.data[1:] - dx
                 if self._mod_end:
                     new_data[0, 0] = data.data[0] - dx[0]
-            return new_data
 
         else:
-            ddim = data.dimensions[0]
-            dslice = index[ddim] if ddim in index else slice(None)
-            islice = slice(None, None, dslice.step)
-            idata = self.keywords["idata"][islice]
+            idata = self.keywords["idata"][{}]
 
             ifc_len = len(data) + 1
-            ifc_data = empty(ifc_len, dtype=data.dtype)
+            ifc_data = empty(ifc_len, dtype=new_data.dtype)
             if len(idata) == ifc_len:
                 ifc_data[:] = idata.data[:]
             elif len(idata) == ifc_len - 2:
@@ -444,7 +441,7 @@ class BoundsFunction(Function):
             new_data[:, 0] = ifc_data[:-1]
             new_data[:, 1] = ifc_data[1:]
 
-        return new_data
+        return new_data[index]
 
 
 class AgeofAirFunction(Function):
-- 
2.43.0


From 40fdfb66641231689c528dd3e16472941f77e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 67/93] fix: files are put in order without checking the times
 in them

---
 pyconform/mapdates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 21ac8e9..de1608d 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -273,6 +273,7 @@ def get_files_in_order(files, alignment=True):
     date_info = {}
     counts = []
     file_list = []
+    error = 0
 
     for n, fl in enumerate(files):
         fn = os.path.basename(fl)
-- 
2.43.0


From 28e073b7d7057d890fe46e7f2419c2f59badc0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 68/93] fix: fields of CLM's land units and plant types have
 dimensions, and announce their units

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 35 +++++++++++++++----
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  8 ++++-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..2166aef 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -77,6 +77,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
             else:
                 return PhysArray(
@@ -86,6 +87,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
 
         EFLX_LH_TOT = pEFLX_LH_TOT.data
@@ -232,25 +234,46 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         varo_lut[varo_lut >= 1e15] = 1e20
         mvaro_lut = np.ma.masked_values(varo_lut, 1e20)
 
+        dims = [pntim.dimensions[0], pnlat.dimensions[0], pnlon.dimensions[0]]
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
             )
         elif "nlut" in vegType:
             return PhysArray(
-                mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, nlut, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            return PhysArray(
+                mvaro_lut,
+                name=new_name,
+                dimensions=[dims[0], landUse.dimensions[0], dims[1], dims[2]],
+                units=pEFLX_LH_TOT.units,
+            )
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..8a5e435 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -87,6 +87,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                     plat.dimensions[0],
                     plon.dimensions[0],
                 ],
+                units=pGPP.units,
             )
 
         GPP = pGPP.data
@@ -264,7 +265,12 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType,
+            name=new_name,
+            dimensions=[ptime.dimensions[0], plat.dimensions[0], plon.dimensions[0]],
+            units=pGPP.units,
+        )
 
 
 def main(argv=None):
-- 
2.43.0


From 26ffed75c5590901e5656d2a76edf746f98354eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 69/93] fix: parts of fields of CLM's land units and plant
 types are those of their lats and lons

---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 8 +++++++-
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 2166aef..19e5514 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -139,13 +139,19 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
 
         ind = np.stack((grid1d_ixy, grid1d_jxy), axis=1)
 
+        # The first of the lat/lons, if this is a part of the grid
+        ixy0, jxy0 = 0, 0
+        if isinstance(index, dict):
+            ixy0 = index.get(pnlon.dimensions[0], slice(None)).start or 0
+            jxy0 = index.get(pnlat.dimensions[0], slice(None)).start or 0
+
         # Loop over lat/lons
         for ixy in range(len(nlon)):
             for jxy in range(len(nlat)):
 
                 grid_indx = -99
                 # 1d grid index
-                ind_comp = (ixy + 1, jxy + 1)
+                ind_comp = (ixy0 + ixy + 1, jxy0 + jxy + 1)
                 gi = np.where(np.all(ind == ind_comp, axis=1))[0]
                 if len(gi) > 0:
                     grid_indx = gi[0]
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 8a5e435..1ca6c22 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -148,12 +148,18 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
 
         lu = np.stack((land1d_lon, land1d_lat, land1d_ityplunit), axis=1)
 
+        # The first of the lat/lons, if this is a part of the grid
+        ixy0, jxy0 = 0, 0
+        if isinstance(index, dict):
+            ixy0 = index.get(plon.dimensions[0], slice(None)).start or 0
+            jxy0 = index.get(plat.dimensions[0], slice(None)).start or 0
+
         # Loop over lat/lons
         for ixy in range(len(lon)):
             for jxy in range(len(lat)):
                 grid_indx = -99
                 # 1d grid index
-                ind_comp = (ixy + 1, jxy + 1)
+                ind_comp = (ixy0 + ixy + 1, jxy0 + jxy + 1)
                 gi = np.where(np.all(ind == ind_comp, axis=1))[0]
                 if len(gi) > 0:
                     grid_indx = gi[0]
-- 
2.43.0


From ed248786284acc0de67159d07e75230e91ea57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 70/93] fix: only up and down, in any case, ask for a direction

---
 pyconform/flownodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 9b1c76f..8a7be74 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -561,8 +561,9 @@ class ValidateNode(FlowNode):
             indata = indata.transpose(self.dimensions)
 
         # Check the positive attribute, if specified
-        positive = self.attributes.get("positive", None)
-        if positive is not None and indata.positive != positive:
+        # (Any other attribute, such as an empty one, does not ask for a direction)
+        positive = str(self.attributes.get("positive", None)).lower()
+        if positive in ("up", "down") and indata.positive != positive:
             indata.flip()
 
         # Do not validate if index is None (nothing to validate)
-- 
2.43.0


From 7b92bd3a282ad05a5a77709dcf1ea2f42cdbf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 71/93] fix: dates in file names are in the order of the times
 in the file

---
 pyconform/flownodes.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8a7be74..efe13f3 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -756,6 +756,8 @@ class WriteNode(FlowNode):
 
             t1 = tnode[0:1]
             t2 = tnode[-1:]
+            if self._is_inverted_(tnode.dimensions[0]):
+                t1, t2 = t2, t1
 
             while "{" in fname:
                 beg = fname.find("{")
@@ -783,6 +785,24 @@ class WriteNode(FlowNode):
 
         return fname
 
+    def _is_inverted_(self, dname):
+        """
+        Determine if a coordinate asks for the direction opposite to the one of its data
+
+        Parameters:
+            dname (str): The name of the dimension of the coordinate
+
+        Returns:
+            bool: Whether the dimension is inverted when it is written
+        """
+        for vnode in self.inputs:
+            if vnode.dimensions == (dname,) and "axis" in vnode.attributes:
+                if vnode.attributes.get("direction") in ("increasing", "decreasing"):
+                    vdir = WriteNode._direction_(vnode[:])
+                    if vdir not in (None, vnode.attributes["direction"]):
+                        return True
+        return False
+
     def enable_history(self):
         """
         Enable writing of the history attribute to the file
-- 
2.43.0


From f102671339f2d4d731201e167b8756604aba7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:56 +0000
Subject: [PATCH 72/93] fix: iconform asks for the compression the attributes
 file gives, under the name the specifications use

---
 pyconform/cli/iconform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 0119bd5..53386d9 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -528,8 +528,8 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     var["attributes"]["comment"] = definition
     var["file"]["filename"] = f_name
     var["file"]["format"] = f_format
-    if compression is not None:
-        var["file"]["compression"] = compression
+    if compression is not None and compression != "__FILL__":
+        var["file"]["deflate"] = int(compression)
     if shuffle is not None:
         var["file"]["shuffle"] = shuffle
 
-- 
2.43.0


From bbadce8eee736ed03d740730bf1abfc77da8c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:46 +0000
Subject: [PATCH 73/93] fix: climIO creates compressed files, with the level
 asked for

---
 pyconform/climIO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..96e90ed 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -398,10 +398,10 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
         # The netcdf output format
+        self.compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
-            if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+            self.compressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
@@ -453,7 +453,7 @@ class NetCDF4PyPort(object):
                 typeCode,
                 tuple(dims),
                 zlib=True,
-                complevel=int(self.compressionLevel),
+                complevel=self.compressionLevel,
             )
         else:
             var = new_file.createVariable(var_name, typeCode, tuple(dims))
-- 
2.43.0


From 6a77da222c8662ea8c31cc9a1fc47dd6e7c9d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:55 +0000
Subject: [PATCH 74/93] fix: climIO writes the attributes of variables, under
 their names

---
 pyconform/climIO.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 96e90ed..4dd03a1 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -442,7 +442,7 @@ class NetCDF4PyPort(object):
                             'S1': character
             dims (tuple): A tuple that contains the names of the dimensions
                           for the variable.
-            attrib (list): A list of strings to add as attributes for the variable.
+            attrib (dict): The attributes to add to the variable.
 
         Returns:
             var (netCDF4.Variable): Returns a netCDF4.Variable object.
@@ -454,11 +454,18 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=self.compressionLevel,
+                fill_value=attrib.get("_FillValue", None),
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name,
+                typeCode,
+                tuple(dims),
+                fill_value=attrib.get("_FillValue", None),
+            )
+        for k, v in attrib.items():
+            if k != "_FillValue":
+                var.setncattr(k, v)
         return var
 
     def get_var_info(self, template_file, var_name):
@@ -483,7 +490,7 @@ class NetCDF4PyPort(object):
 
         attribs = {}
         for n in var_hndl.ncattrs():
-            attribs[n] = var_hndl.__getattribute__(n)
+            attribs[n] = var_hndl.getncattr(n)
 
         return typeCode, dimnames, attribs
 
-- 
2.43.0


From 6cbd0e3483f65f8fe13d828b9b98899a69e4da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 75/93] fix: climIO writes values with the type of the
 variable, and times at their index

---
 pyconform/climIO.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 4dd03a1..7b34298 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -567,12 +567,7 @@ class NetCDF4PyPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].datatype == "i":
-            t = np.long
-        else:
-            t = np.float32
+        t = all_vars[var_name].datatype
 
         if not values.shape:
             if index == -99:
@@ -581,7 +576,7 @@ class NetCDF4PyPort(object):
                 all_vars[var_name][index] = values.astype(t)
         else:
             if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
+                all_vars[var_name][0 if index == -99 else index] = values[0].astype(t)
             else:
                 if index == -99:
                     all_vars[var_name][0, :] = values[:].astype(t)
-- 
2.43.0


From 1ec9c7ddea687a18e8c0269b9320d52034b16c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:22 +0000
Subject: [PATCH 76/93] fix: climIO opens files for reading as they are, and
 closes templates

---
 pyconform/climIO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 7b34298..63208b1 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
@@ -542,6 +542,7 @@ class NetCDF4PyPort(object):
             self.write_meta_var(
                 all_vars[meta_name], meta_name, temp_file.variables[meta_name]
             )
+        self.close_file(temp_file)
 
         return all_vars, new_file
 
-- 
2.43.0


From 5ec04957c00c16cb0066f28d7154809210c43a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:00 +0000
Subject: [PATCH 77/93] fix: NETCDF4 files can have unsigned bytes

---
 pyconform/datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 8ab61b9..3cbecd8 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -773,6 +773,7 @@ class OutputDatasetDesc(DatasetDesc):
         3: ["byte", "char", "short", "int", "float", "real", "double"],
         4: [
             "byte",
+            "ubyte",
             "char",
             "short",
             "ushort",
-- 
2.43.0


From ebda6037e918c49e04bfb2c20c5544657d08563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 78/93] fix: specified data that an integer datatype can not
 hold are refused

---
 pyconform/dataflow.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 638cdeb..6dfea58 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -109,13 +109,27 @@ class DataFlow(object):
                     if vdata.ndim < len(vdesc.dimensions) and vdata.dtype.itemsize == 1:
                         vdata = vdata.reshape(vdata.shape + (1,))
                 else:
-                    vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
+                    vdata = self._create_data_(vdesc)
                 vunits = vdesc.cfunits()
                 vdims = tuple(vdesc.dimensions.keys())
                 varray = PhysArray(vdata, name=vname, units=vunits, dimensions=vdims)
                 datnodes[vname] = DataNode(varray)
         return datnodes
 
+    @staticmethod
+    def _create_data_(vdesc):
+        vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
+        if issubclass(vdesc.dtype.type, numpy.integer):
+            # (The cast to integers does not fail for all of the values that do not fit)
+            values = numpy.asarray(vdesc.definition, dtype=numpy.longdouble)
+            if not numpy.array_equal(vdata, values):
+                raise ValueError(
+                    "Datatype {!s} cannot hold the values of variable {!r}".format(
+                        vdesc.dtype, vdesc.name
+                    )
+                )
+        return vdata
+
     def _create_definition_nodes_(self, datnodes):
         defnodes = {}
         for vname in self._ods.variables:
-- 
2.43.0


From 87a35b87c63719842aefb26ebb0539ba3d2e574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:13 +0000
Subject: [PATCH 79/93] fix: computations with small integers do not overflow

---
 pyconform/flownodes.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index efe13f3..c14b26b 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -75,6 +75,24 @@ def iter_bfs(node):
         yield nd
 
 
+def upcast_dtype(dtype):
+    """
+    Return the datatype in which data of a given datatype are computed with
+
+    Floating-point numbers and integers are upcast to 8 bytes, so that computations neither
+    lose precision nor overflow.
+
+    Parameters:
+        dtype (dtype): the numpy datatype of the data
+    """
+    if dtype.itemsize < 8:
+        if issubclass(dtype.type, numpy.floating):
+            return numpy.dtype(numpy.float64)
+        elif issubclass(dtype.type, numpy.integer):
+            return numpy.dtype(numpy.int64)
+    return dtype
+
+
 class FlowNode(object):
     """
     The base class for objects that can appear in a data flow
@@ -124,8 +142,9 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
-            array = array.astype(numpy.float64)
+        dtype = upcast_dtype(array.dtype)
+        if array.dtype != dtype:
+            array = array.astype(dtype)
 
         # Store data
         self._data = array
@@ -266,8 +285,9 @@ class ReadNode(FlowNode):
                 data = numpy.ma.masked_all((), dtype=ncvar.dtype)
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
-                data = data.astype(numpy.float64)
+            dtype = upcast_dtype(data.dtype)
+            if data.dtype != dtype:
+                data = data.astype(dtype)
 
             # Read the positive attribute, if available
             pos = attrs.get("positive", None)
@@ -528,7 +548,8 @@ class ValidateNode(FlowNode):
         is_integer = issubclass(odtype.type, numpy.integer)
         # (Numbers can not be written as the characters they would be cast to)
         is_text = indata.dtype.kind in "SU" or odtype.kind not in "SU"
-        if is_text and numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
+        casting = "unsafe" if is_integer and indata.dtype.kind in "iu" else "same_kind"
+        if is_text and numpy.can_cast(indata.dtype, odtype, casting=casting):
             indata = indata.astype(indata.dtype if is_integer else odtype)
         else:
             raise TypeError(
-- 
2.43.0


From c569fe028d605d07e9e3ad7a0d63d9a7fbb78c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:23 +0000
Subject: [PATCH 80/93] fix: input variables can have either byte order

---
 pyconform/datasets.py  | 12 +++++++++---
 pyconform/flownodes.py |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 3cbecd8..4af8746 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -249,9 +249,15 @@ class VariableDesc(object):
         elif isinstance(datatype, str) and datatype in VariableDesc._NTYPES_:
             self._ntype = datatype
             self._dtype = VariableDesc._DTYPES_[VariableDesc._NTYPES_.index(datatype)]
-        elif isinstance(datatype, dtype) and datatype in VariableDesc._DTYPES_:
-            self._ntype = VariableDesc._NTYPES_[VariableDesc._DTYPES_.index(datatype)]
-            self._dtype = datatype
+        elif (
+            isinstance(datatype, dtype)
+            and datatype.newbyteorder("=") in VariableDesc._DTYPES_
+        ):
+            # (Files can have either byte order)
+            self._dtype = datatype.newbyteorder("=")
+            self._ntype = VariableDesc._NTYPES_[
+                VariableDesc._DTYPES_.index(self._dtype)
+            ]
         else:
             raise TypeError(
                 "Invalid variable datatype {} for variable {}".format(datatype, name)
diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index c14b26b..4356d03 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -80,7 +80,7 @@ def upcast_dtype(dtype):
     Return the datatype in which data of a given datatype are computed with
 
     Floating-point numbers and integers are upcast to 8 bytes, so that computations neither
-    lose precision nor overflow.
+    lose precision nor overflow, in the byte order of the machine.
 
     Parameters:
         dtype (dtype): the numpy datatype of the data
@@ -90,7 +90,7 @@ def upcast_dtype(dtype):
             return numpy.dtype(numpy.float64)
         elif issubclass(dtype.type, numpy.integer):
             return numpy.dtype(numpy.int64)
-    return dtype
+    return dtype.newbyteorder("=")
 
 
 class FlowNode(object):
-- 
2.43.0


From 7a88cb421f190628376d3e206c1721f114f793d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:18 +0000
Subject: [PATCH 81/93] fix: variables of the data request have all of their
 dimensions

---
 pyconform/miptableparser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 8030fac..1c908d0 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -569,15 +569,18 @@ class ParseXML(object):
                                     # Is there did?
                                     if hasattr(s_var, "dids"):
                                         if isinstance(s_var.dids, tuple):
-                                            extra_dim = dq.inx.uid[s_var.dids[0]].label
+                                            extra_dim = "|".join(
+                                                dq.inx.uid[d].label for d in s_var.dids
+                                            )
                                             if "coordinates" not in var.keys():
                                                 var["coordinates"] = extra_dim
                                             else:
                                                 var["coordinates"] = (
                                                     extra_dim + "|" + var["coordinates"]
                                                 )
-                                            if extra_dim not in axes_list:
-                                                axes_list.append(extra_dim)
+                                            for d in extra_dim.split("|"):
+                                                if d not in axes_list:
+                                                    axes_list.append(d)
 
                                     # Set what we can from the spatial section
                                     if hasattr(s_var, "spid"):
-- 
2.43.0


From 502da34bd535d2fed90d4bcd5eaec6e5271e05f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:25 +0000
Subject: [PATCH 82/93] fix: time is an axis of variables without spatial
 dimensions

---
 pyconform/miptableparser.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 1c908d0..217cc8c 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -578,9 +578,6 @@ class ParseXML(object):
                                                 var["coordinates"] = (
                                                     extra_dim + "|" + var["coordinates"]
                                                 )
-                                            for d in extra_dim.split("|"):
-                                                if d not in axes_list:
-                                                    axes_list.append(d)
 
                                     # Set what we can from the spatial section
                                     if hasattr(s_var, "spid"):
@@ -610,18 +607,6 @@ class ParseXML(object):
                                                     ].replace(
                                                         "grid_latitude", "gridlatitude"
                                                     )
-                                                dims = var["coordinates"].split("|")
-                                                for d in dims:
-                                                    if (
-                                                        d not in axes_list
-                                                        and d != ""
-                                                        and d != "None"
-                                                    ):
-                                                        if (
-                                                            "copy" not in var["id"]
-                                                            and "?" not in d
-                                                        ):
-                                                            axes_list.append(d)
 
                                     if "coordinates" in var.keys():
                                         if len(var["coordinates"]) > 1:
@@ -629,6 +614,18 @@ class ParseXML(object):
                                                 var["coordinates"] = var["coordinates"][
                                                     :-1
                                                 ]
+                                        dims = var["coordinates"].split("|")
+                                        for d in dims:
+                                            if (
+                                                d not in axes_list
+                                                and d != ""
+                                                and d != "None"
+                                            ):
+                                                if (
+                                                    "copy" not in var["id"]
+                                                    and "?" not in d
+                                                ):
+                                                    axes_list.append(d)
 
                                 # Set what we can from the variable section
                                 if hasattr(c_var, "vid"):
-- 
2.43.0


From 51cddda73a330e81e978219ad2ac19830a9e40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:32 +0000
Subject: [PATCH 83/93] fix: requested variables of several tables do not
 replace each other

---
 pyconform/miptableparser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 217cc8c..7947284 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -441,6 +441,7 @@ class ParseXML(object):
 
                     table_dict = {}
                     variables = {}
+                    others = {}
                     axes = {}
                     table_info = {}
                     # data = {}
@@ -643,8 +644,13 @@ class ParseXML(object):
                                         else:
                                             var["units"] = v_var.units
 
-                                # Add variable to variable dictionary
-                                variables[c_var.label] = var
+                                # Add variable to variable dictionary (a variable of another
+                                # table with the same label needs a dictionary of its own)
+                                same = variables.setdefault(c_var.label, var)
+                                if same["mipTable"] != c_var.mipTable:
+                                    others.setdefault(c_var.mipTable, {})[
+                                        c_var.label
+                                    ] = var
                     for a in axes_list:
                         if "grid_latitude" in a:
                             a = "gridlatitude"
@@ -711,6 +717,10 @@ class ParseXML(object):
                     tab = rvg.label
                     table_info["table_id"] = tab
                     total_request[dr.mip + "_" + tab] = table_dict
+                    for other in others:
+                        total_request[dr.mip + "_" + tab + "_" + other] = dict(
+                            table_dict, variables=others[other]
+                        )
 
         # print 'Total in request:',len(total_request)
         # for k in sorted(total_request.keys()):
-- 
2.43.0


From 130190fcaba686ef4fdab738c898429f5187e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:41 +0000
Subject: [PATCH 84/93] fix: attributes are filled in under their own names

---
 pyconform/cli/iconform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 53386d9..100252a 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -178,14 +178,14 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     for a, d in attr.items():
         if isinstance(d, str):
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
                 elif "creation_date" in a:
                     attr["creation_date"] = ""
                 elif "data_specs_version" in a and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
-                    attr["experiment"] = table["experiment"]
+                elif a in ("experiment", "experiment_id") and a in table:
+                    attr[a] = table[a]
                 elif "external_variables" in a:
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
-- 
2.43.0


From 59515984f1b4c2f8a4cb6a4254a391b4d75afe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:50 +0000
Subject: [PATCH 85/93] fix: opposite directions of coordinates of one
 dimension are refused

---
 pyconform/flownodes.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 4356d03..220eea5 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -879,6 +879,7 @@ class WriteNode(FlowNode):
 
             # Scan over variables for coordinates and dimension information
             req_dims = set()
+            inverts = {}
             for vnode in self.inputs:
                 vname = vnode.label
                 vdesc = self._filedesc.variables[vname]
@@ -913,8 +914,22 @@ class WriteNode(FlowNode):
                                     "direction"
                                 ).format(vname)
                             )
-                        if vdir_inp != vdir_out:
-                            self._idims.add(tuple(vdesc.dimensions.keys())[0])
+                        dname = tuple(vdesc.dimensions.keys())[0]
+                        inverted = vdir_inp != vdir_out
+                        if inverted:
+                            self._idims.add(dname)
+
+                        # (A dimension of size one has either direction)
+                        if (
+                            inverts.setdefault(dname, inverted) != inverted
+                            and self._filedesc.dimensions[dname].size > 1
+                        ):
+                            raise ValueError(
+                                (
+                                    "Coordinate variables of dimension {!r} ask for "
+                                    "opposite directions in file {!r}"
+                                ).format(dname, fname)
+                            )
 
             # Create the required dimensions in the file
             for dname in req_dims:
-- 
2.43.0


From 14d7e2fde8ec360247d13bb15c91cd071c245df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:59 +0000
Subject: [PATCH 86/93] fix: renamed sum-like dimensions can not be chunked
 over

---
 pyconform/flownodes.py | 15 ++++++++++++++-
 pyconform/functions.py | 13 +++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 220eea5..5affece 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -336,7 +336,20 @@ class EvalNode(FlowNode):
         Return the set of sum-like dimensions registered by the node's function
         """
         if isinstance(self._function, Function):
-            return self._function.sumlike_dimensions
+            dims = set(self._function.sumlike_dimensions)
+
+            # (Dimensions may be renamed after they were registered)
+            renamed = self._function.renamed_dimensions
+            for inp in self.inputs:
+                if renamed and isinstance(inp, FlowNode):
+                    for node in iter_dfs(inp):
+                        if isinstance(node, EvalNode):
+                            dims.update(
+                                renamed[d]
+                                for d in node.sumlike_dimensions
+                                if d in renamed
+                            )
+            return dims
         else:
             return set()
 
diff --git a/pyconform/functions.py b/pyconform/functions.py
index 5943646..6281e46 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -262,6 +262,10 @@ class Function(FunctionBase):
     def add_sumlike_dimensions(self, *dims):
         self._sumlike_dimensions.update(set(dims))
 
+    @property
+    def renamed_dimensions(self):
+        return {}
+
 
 class SquareRootFunction(Function):
     key = "sqrt"
@@ -544,6 +548,15 @@ class RenameDimensionsFunction(Function):
     def __init__(self, data, *dims):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
+    @property
+    def renamed_dimensions(self):
+        data = self.arguments[0]
+        return (
+            {}
+            if is_constant(data)
+            else dict(zip(data[None].dimensions, self.arguments[1:]))
+        )
+
     def __getitem__(self, index):
         data_r = self.arguments[0]
         if is_constant(data_r) or len(self.arguments) == 1:
-- 
2.43.0


From c7032ae47b807382c7a3d1d5112cc5977057d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:07 +0000
Subject: [PATCH 87/93] fix: limits given as text are numbers

---
 pyconform/flownodes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 5affece..fcd13e0 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -608,10 +608,15 @@ class ValidateNode(FlowNode):
         def is_limit(value):
             return value is not None and value != ""
 
-        valid_min = self.attributes.get("valid_min", None)
-        valid_max = self.attributes.get("valid_max", None)
-        ok_min_mean_abs = self.attributes.get("ok_min_mean_abs", None)
-        ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
+        # (MIP tables give limits as text)
+        def get_limit(name):
+            value = self.attributes.get(name, None)
+            return float(value) if isinstance(value, str) and value else value
+
+        valid_min = get_limit("valid_min")
+        valid_max = get_limit("valid_max")
+        ok_min_mean_abs = get_limit("ok_min_mean_abs")
+        ok_max_mean_abs = get_limit("ok_max_mean_abs")
 
         # Validate minimum
         if is_limit(valid_min):
-- 
2.43.0


From 715af6fff80790acc917b53dd6ee5132ba258adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:13 +0000
Subject: [PATCH 88/93] fix: data are cast after their units are converted

---
 pyconform/flownodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index fcd13e0..7167587 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -557,13 +557,14 @@ class ValidateNode(FlowNode):
             odtype = indata.dtype
         else:
             odtype = self._vdesc.dtype
-        # (Integers are cast after conversion, when it is known what they have to hold)
+        # (Cast after conversion, when it is known what integers have to hold, and as floats
+        # may have digits for the converted values only)
         is_integer = issubclass(odtype.type, numpy.integer)
         # (Numbers can not be written as the characters they would be cast to)
         is_text = indata.dtype.kind in "SU" or odtype.kind not in "SU"
         casting = "unsafe" if is_integer and indata.dtype.kind in "iu" else "same_kind"
         if is_text and numpy.can_cast(indata.dtype, odtype, casting=casting):
-            indata = indata.astype(indata.dtype if is_integer else odtype)
+            indata = indata.astype(indata.dtype)
         else:
             raise TypeError(
                 ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
@@ -587,8 +588,9 @@ class ValidateNode(FlowNode):
                             self.label, err
                         )
                         raise err.__class__(err_msg)
-        if is_integer:
-            indata = self._as_integers_(indata, odtype)
+        indata = (
+            self._as_integers_(indata, odtype) if is_integer else indata.astype(odtype)
+        )
 
         # Check that the dimensions match as expected
         if self.dimensions != indata.dimensions:
-- 
2.43.0


From 85b35397c0fccceee404906d9a0bbcf900298df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:19 +0000
Subject: [PATCH 89/93] fix: requested values that are listed as text are
 numbers

---
 pyconform/cli/iconform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 100252a..3f35ed9 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -591,12 +591,14 @@ def defineAxes(v, name):
         var["datatype"] = data_types[v["type"]]
     if "requested" in v.keys():
         if v["requested"] != "":
+            # (CMOR tables list the values, and each of them as text)
+            req = v["requested"]
+            if isinstance(req, str):
+                req = req.split()
             try:
-                req = [float(val) for val in v["requested"].split()]
+                req = [float(val) for val in req]
             except ValueError:
-                req = v["requested"].split()
-            except AttributeError:
-                req = v["requested"]
+                pass
             if len(req) > 0:
                 var["definition"] = req
             # var['definition'] =  v['requested']
-- 
2.43.0


From cd9a2c9f0ef3ab5020cfee5d8ae003726ff71313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:27 +0000
Subject: [PATCH 90/93] fix: attribute files in directories named json can be
 text

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3f35ed9..1f0d3a4 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -878,7 +878,7 @@ def main(argv=None):
     if args.globalAttrFile:
         for gaFile in args.globalAttrFile.split(","):
             if os.path.isfile(gaFile):
-                if "json" in gaFile:
+                if "json" in os.path.basename(gaFile):
                     print("opening ", gaFile)
                     with open(gaFile) as gaF:
                         ga = json.load(gaF)
-- 
2.43.0


From 6dde4d7d250a0496fefd43243cfcdee83e0f75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:49 +0000
Subject: [PATCH 91/93] fix: all ranks of xconform stop when there are no input
 files

---
 pyconform/cli/xconform.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 73efaae..6e399c0 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -190,18 +190,19 @@ def main(argv=None):
         for infile in args.infiles:
             infiles.extend(glob(infile))
 
-        # If no input files, stop here
+        # If no input files, stop here (on all nodes)
         if len(infiles) == 0:
             print("Standardization file validated.")
-            return
+            inpds = None
 
         # Parse the input Dataset
-        print(
-            "Creating input dataset descriptor from {} input files...".format(
-                len(infiles)
+        else:
+            print(
+                "Creating input dataset descriptor from {} input files...".format(
+                    len(infiles)
+                )
             )
-        )
-        inpds = InputDatasetDesc(filenames=infiles)
+            inpds = InputDatasetDesc(filenames=infiles)
 
     else:
         inpds = None
@@ -211,6 +212,8 @@ def main(argv=None):
 
     # Sync and continue process on all nodes
     scomm.sync()
+    if inpds is None:
+        return
 
     # Check for warn/error
     if args.error:
-- 
2.43.0


From c96a55b276c8df5e4762c3d161586f7f080552e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:05 +0000
Subject: [PATCH 92/93] fix: lists of text in the axes of tables become
 attributes that all formats have

---
 pyconform/cli/iconform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 1f0d3a4..a4d4862 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -581,6 +581,9 @@ def defineAxes(v, name):
     for key, value in v.items():
         if value == "":
             v2.pop(key, None)
+        # (Few file formats have attributes that are lists of text)
+        elif isinstance(value, list) and all(isinstance(val, str) for val in value):
+            v2[key] = " ".join(value)
     # Hardcode this value in for time.  Not ideal, but the request has it listed as "days since ?" and this will fail.
     if "time" in name:
         v2["units"] = "days since 0001-01-01 00:00:00"
-- 
2.43.0


From c13ed46a95a6fa2220283dd7b4e44ea399437372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:16 +0000
Subject: [PATCH 93/93] fix: files whose names become the same are refused

---
 pyconform/dataflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 6dfea58..e89d04a 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -311,6 +311,11 @@ class DataFlow(object):
             else:
                 vnodes = tuple(self._valnodes[vname] for vname in fdesc.variables)
                 wnode = WriteNode(fdesc, inputs=vnodes)
+                # (Names with dates may become the same)
+                if wnode.label in writenodes:
+                    raise ValueError(
+                        "Several output files have the name {!r}".format(wnode.label)
+                    )
                 writenodes[wnode.label] = wnode
         return writenodes
 
-- 
2.43.0

