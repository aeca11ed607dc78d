From 6812bca75d62391f8e0336fa037af361d1470224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 01/67] fix: raise explicitly instead of guarding with assert

Guards written as assert statements disappear under python -O: e.g.
(1*pq.m).rescale('s') silently returned 1 s, and set_default_units let an
AssertionError escape instead of the documented TypeError.
---
 quantities/dimensionality.py    | 61 +++++++++++----------------------
 quantities/quantity.py          | 40 +++++++++------------
 quantities/registry.py          |  7 ++--
 quantities/uncertainquantity.py |  4 +--
 quantities/unitquantity.py      | 12 ++-----
 5 files changed, 44 insertions(+), 80 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..398697b 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -13,9 +13,7 @@ _np_version = tuple(map(int, np.__version__.split(".dev")[0].split(".")))
 
 
 def assert_isinstance(obj, types):
-    try:
-        assert isinstance(obj, types)
-    except AssertionError:
+    if not isinstance(obj, types):
         raise TypeError(
             f"arg {obj!r} must be of type {types!r}, got {type(obj)!r}"
         )
@@ -68,9 +66,7 @@ class Dimensionality(dict):
 
     def __add__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if not self == other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -81,9 +77,7 @@ class Dimensionality(dict):
 
     def __iadd__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if not self == other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -92,9 +86,7 @@ class Dimensionality(dict):
 
     def __sub__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if not self == other:
             raise ValueError(
                 'can not subtract units of %s and %s'\
                 %(str(self), str(other))
@@ -105,9 +97,7 @@ class Dimensionality(dict):
 
     def __isub__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if not self == other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -161,9 +151,7 @@ class Dimensionality(dict):
         return self
 
     def __pow__(self, other):
-        try:
-            assert np.isscalar(other)
-        except AssertionError:
+        if not np.isscalar(other):
             raise TypeError('exponent must be a scalar, got %r' % other)
         if other == 0:
             return Dimensionality()
@@ -173,9 +161,7 @@ class Dimensionality(dict):
         return new
 
     def __ipow__(self, other):
-        try:
-            assert np.isscalar(other)
-        except AssertionError:
+        if not np.isscalar(other):
             raise TypeError('exponent must be a scalar, got %r' % other)
         if other == 0:
             self.clear()
@@ -245,13 +231,7 @@ p_dict[np.floor_divide] = _d_divide
 
 def _d_check_uniform(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
-        return q1.dimensionality
-    except AssertionError:
-        raise ValueError(
-            'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
-        )
+        compatible = q1._dimensionality == q2._dimensionality
     except AttributeError:
         try:
             if hasattr(q1, 'dimensionality'):
@@ -271,6 +251,13 @@ def _d_check_uniform(q1, q2, out=None):
                 'quantities must have identical units, got "%s" and "%s"' %
                 (q1.units, q2.units)
             )
+    else:
+        if not compatible:
+            raise ValueError(
+                'quantities must have identical units, got "%s" and "%s"' %
+                (q1.units, q2.units)
+            )
+        return q1.dimensionality
 
 p_dict[np.add] = _d_check_uniform
 p_dict[np.subtract] = _d_check_uniform
@@ -288,14 +275,12 @@ p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
-    try:
-        assert q1._dimensionality == q2._dimensionality
-        return Dimensionality()
-    except AssertionError:
+    if q1._dimensionality != q2._dimensionality:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
             (q1.units, q2.units)
         )
+    return Dimensionality()
 
 p_dict[np.arctan2] = _d_arctan2
 
@@ -345,9 +330,7 @@ def _d_sqrt(q1, out=None):
 p_dict[np.sqrt] = _d_sqrt
 
 def _d_radians(q1, out=None):
-    try:
-        assert q1.units == unit_registry['degree']
-    except AssertionError:
+    if not q1.units == unit_registry['degree']:
         raise ValueError(
             'expected units of degrees, got "%s"' % q1._dimensionality
         )
@@ -355,9 +338,7 @@ def _d_radians(q1, out=None):
 p_dict[np.radians] = _d_radians
 
 def _d_degrees(q1, out=None):
-    try:
-        assert q1.units == unit_registry['radian']
-    except AssertionError:
+    if not q1.units == unit_registry['radian']:
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
         )
@@ -379,9 +360,7 @@ p_dict[np.logaddexp] = _d_dimensionless
 p_dict[np.logaddexp2] = _d_dimensionless
 
 def _d_trig(q1, out=None):
-    try:
-        assert q1.units == unit_registry['radian']
-    except AssertionError:
+    if not q1.units == unit_registry['radian']:
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
         )
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..1607994 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -17,11 +17,11 @@ PREFERRED = []  # List of preferred quantities for each symbol,
                 # Intended to be overwritten in down-stream packages
 
 def validate_unit_quantity(value):
-    try:
-        assert isinstance(value, Quantity)
-        assert value.shape in ((), (1, ))
-        assert value.magnitude == 1
-    except AssertionError:
+    if not (
+        isinstance(value, Quantity)
+        and value.shape in ((), (1, ))
+        and value.magnitude == 1
+    ):
         raise ValueError(
                 'units must be a scalar Quantity with unit magnitude, got %s'\
                 %value
@@ -50,7 +50,11 @@ def get_conversion_factor(from_u, to_u):
     validate_unit_quantity(to_u)
     from_u = from_u._reference
     to_u = to_u._reference
-    assert from_u.dimensionality == to_u.dimensionality
+    if from_u.dimensionality != to_u.dimensionality:
+        raise ValueError(
+            'can not convert between "%s" and "%s"'
+            %(from_u.dimensionality, to_u.dimensionality)
+        )
     return from_u.magnitude / to_u.magnitude
 
 def scale_other_units(f):
@@ -68,9 +72,7 @@ def protected_multiplication(f):
     @wraps(f)
     def g(self, other, *args):
         if getattr(other, 'dimensionality', None):
-            try:
-                assert not isinstance(self.base, Quantity)
-            except AssertionError:
+            if isinstance(self.base, Quantity):
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
     return g
@@ -81,9 +83,7 @@ def check_uniform(f):
         if getattr(other, 'dimensionality', None):
             raise ValueError("exponent must be dimensionless")
         other = np.asarray(other)
-        try:
-            assert other.min() == other.max()
-        except AssertionError:
+        if not other.min() == other.max():
             raise ValueError('Quantities must be raised to a uniform power')
         return f(self, other, *args)
     return g
@@ -92,9 +92,7 @@ def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
         if other != 1:
-            try:
-                assert not isinstance(self.base, Quantity)
-            except AssertionError:
+            if isinstance(self.base, Quantity):
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
     return g
@@ -185,13 +183,9 @@ class Quantity(np.ndarray):
         return Quantity(1.0, (self.dimensionality))
     @units.setter
     def units(self, units):
-        try:
-            assert not isinstance(self.base, Quantity)
-        except AssertionError:
+        if isinstance(self.base, Quantity):
             raise ValueError('can not modify units of a view of a Quantity')
-        try:
-            assert self.flags.writeable
-        except AssertionError:
+        if not self.flags.writeable:
             raise ValueError('array is not writeable')
         to_dims = validate_dimensionality(units)
         if self._dimensionality == to_dims:
@@ -200,7 +194,7 @@ class Quantity(np.ndarray):
         from_u = Quantity(1.0, self._dimensionality)
         try:
             cf = get_conversion_factor(from_u, to_u)
-        except AssertionError:
+        except ValueError:
             raise ValueError(
                 'Unable to convert between units of "%s" and "%s"'
                 %(from_u._dimensionality, to_u._dimensionality)
@@ -229,7 +223,7 @@ class Quantity(np.ndarray):
         from_u = Quantity(1.0, self.dimensionality, dtype=dtype)
         try:
             cf = get_conversion_factor(from_u, to_u)
-        except AssertionError:
+        except ValueError:
             raise ValueError(
                 'Unable to convert between units of "%s" and "%s"'
                 %(from_u._dimensionality, to_u._dimensionality)
diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..42ea490 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -47,10 +47,9 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
-            assert isinstance(string, str)
-            try:
-                assert string not in self.__context
-            except AssertionError:
+            if not isinstance(string, str):
+                raise TypeError('unit label must be a string, got %r' % (string,))
+            if string in self.__context:
                 if val == self.__context[string]:
                     return
                 raise KeyError(
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..dc10acb 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -57,9 +57,7 @@ class UncertainQuantity(Quantity):
     def uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
             uncertainty = Quantity(uncertainty)
-        try:
-            assert self.shape == uncertainty.shape
-        except AssertionError:
+        if self.shape != uncertainty.shape:
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..974f9cc 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -32,13 +32,9 @@ class UnitQuantity(Quantity):
         cls, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        try:
-            assert isinstance(name, str)
-        except AssertionError:
+        if not isinstance(name, str):
             raise TypeError('name must be a string, got %s (not unicode)'%name)
-        try:
-            assert symbol is None or isinstance(symbol, str)
-        except AssertionError:
+        if not (symbol is None or isinstance(symbol, str)):
             raise TypeError(
                 'symbol must be a string, '
                 'got %s (u_symbol can be unicode)'%symbol
@@ -473,9 +469,7 @@ def set_default_units(
     """
     if system is not None:
         system = system.lower()
-        try:
-            assert system in ('si', 'cgs')
-        except AssertionError:
+        if system not in ('si', 'cgs'):
             raise ValueError('system must be "SI" or "cgs", got "%s"' % system)
         if system == 'si':
             UnitCurrent.set_default_unit('A')
-- 
2.43.0


From 67737a2ef0da4bb63405ab7d4014274d7ce3385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 02/67] fix: in-place operations and out= update the units
 under NumPy 2

With NumPy >= 2 __array_wrap__ left the units of an output Quantity alone, so
q *= 2*pq.s kept metres and np.sin(q, out=q) was not checked at all.
---
 quantities/quantity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 1607994..eeb7541 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -321,7 +321,12 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            # (NumPy 2.0 does not call __array_prepare__, so the units of an
+            # output array supplied by the caller are determined here as well)
+            if not isinstance(obj, Quantity) or (
+                context is not None
+                and any(isinstance(i, Quantity) for i in context[1][:context[0].nin])
+            ):
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
-- 
2.43.0


From f713497f4dc8a2c97ebde90d24914f084a10791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 03/67] fix: protect the units of views and of unit objects
 from //=

---
 quantities/quantity.py     | 5 +++++
 quantities/unitquantity.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index eeb7541..9b443ab 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -389,6 +389,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 974f9cc..438897b 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -234,6 +234,10 @@ class UnitQuantity(Quantity):
     def __itruediv__(self, other):
         raise TypeError('can not modify protected units')
 
+    @with_doc(Quantity.__ifloordiv__, use_header=False)
+    def __ifloordiv__(self, other):
+        raise TypeError('can not modify protected units')
+
     @with_doc(Quantity.__ipow__, use_header=False)
     def __ipow__(self, other):
         raise TypeError('can not modify protected units')
-- 
2.43.0


From a69c806736b5635a10a2494b0f02479775466d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/67] fix: deepcopy of a quantity copies the data and keeps
 the uncertainty

The constructor does not copy (any more), so the deep copy shared its data with
the original, and the deep copy of an UncertainQuantity lost its uncertainty.
---
 quantities/quantity.py          | 4 ++--
 quantities/uncertainquantity.py | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 9b443ab..76ff81b 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -809,8 +809,8 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        # the constructor does not copy
+        return Quantity(copy.deepcopy(self.magnitude, memo_dict), self.dimensionality)
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index dc10acb..430f1fc 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,6 +1,8 @@
 """
 """
 
+import copy
+
 import numpy as np
 import warnings
 
@@ -282,3 +284,8 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+    def __deepcopy__(self, memo_dict):
+        ret = super().__deepcopy__(memo_dict).view(UncertainQuantity)
+        ret._uncertainty = copy.deepcopy(self._uncertainty, memo_dict)
+        return ret
-- 
2.43.0


From f9be7a60cc9dd613f51d2d67687dfa38c38b5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 05/67] fix: copying a unit object yields the unit

copy.copy(pq.m) gave an object without name or definition, and deepcopy of a
Dimensionality replaced its unit keys with plain quantities.
---
 quantities/unitquantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 438897b..2f92481 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,13 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable singletons
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
-- 
2.43.0


From 4c18fb59477adb3ff0ee79c896cebf32487eeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 06/67] fix: dimensionless.copy() raised TypeError

---
 quantities/unitquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 2f92481..b2f8564 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -441,6 +441,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return type(self)(self._name)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 8bfeccd38361d70d7d939473f2635a8a2370dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/67] fix: simplifying a unit without a definition recursed
 endlessly

---
 quantities/unitquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index b2f8564..87695fe 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -109,6 +109,9 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
+        if self._conv_ref is None:
+            # not defined in terms of other units
+            return 1*self
         return self._reference.simplified
 
     @property
-- 
2.43.0


From 28d241520f6691c3d1ca3132c2a5f36e72860a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 08/67] fix: construct an UncertainQuantity from an uncertain
 quantity or a unit

UncertainQuantity(u), UncertainQuantity(u, 'cm') and UncertainQuantity(pq.m)
raised AttributeError.
---
 quantities/quantity.py          | 2 +-
 quantities/uncertainquantity.py | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 76ff81b..e7d83a1 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -122,7 +122,7 @@ class Quantity(np.ndarray):
             if units:
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                data = 1*data
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 430f1fc..a31a529 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -28,10 +28,7 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret.units)
 
         return ret
 
-- 
2.43.0


From d6b8df9bb1ab28581c06b138b983ff997662a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 09/67] fix: changing the units of an UncertainQuantity in
 place raised AttributeError

---
 quantities/uncertainquantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index a31a529..b5b8897 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -34,8 +34,9 @@ class UncertainQuantity(Quantity):
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        uncertainty = self.uncertainty.rescale(units)
+        Quantity.units.fset(self, units)
+        self.uncertainty = uncertainty
 
     @property
     def _reference(self):
-- 
2.43.0


From 40e3a7555392ae4fecdace083384b631de9b2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 10/67] fix: add and subtract uncertain and exact quantities

---
 quantities/uncertainquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b5b8897..b659548 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -88,6 +88,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = UncertainQuantity(other)
         res = super().__add__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
@@ -100,6 +102,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
     def __sub__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = UncertainQuantity(other)
         res = super().__sub__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
-- 
2.43.0


From 58db20a70032228d8f2619ad8e0e7903d58e2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 11/67] fix: propagated uncertainties were negative, or nan for
 zero magnitudes

The uncertainty of a product or quotient of two uncertain quantities was computed
from signed relative uncertainties, as was the uncertainty of a power.
---
 quantities/uncertainquantity.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b659548..bfbebe4 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -120,10 +120,9 @@ class UncertainQuantity(Quantity):
     def __mul__(self, other):
         res = super().__mul__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            su = self.uncertainty * other.view(Quantity)
+            ou = self.view(Quantity) * other.uncertainty
+            u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2*other**2)**0.5
@@ -142,10 +141,9 @@ class UncertainQuantity(Quantity):
     def __truediv__(self, other):
         res = super().__truediv__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            su = self.uncertainty / other.view(Quantity)
+            ou = res.view(Quantity) * (other.uncertainty / other.view(Quantity))
+            u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2/other**2)**0.5
@@ -164,7 +162,7 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        res.uncertainty = abs(res.view(Quantity) * other * self.relative_uncertainty)
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
-- 
2.43.0


From 2d1d3cac3fbd61cf2321544aaa433260a38fa1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 12/67] fix: a unit times an uncertain quantity dropped the
 uncertainty

---
 quantities/unitquantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 87695fe..cc3d01f 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -166,7 +166,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -177,7 +177,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -199,7 +199,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -207,7 +207,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From f26c36dfe70d1531d35cb7bdcc5ee540b1bb9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 13/67] fix: UncertainQuantity.rescale() without units, as for
 Quantity

---
 quantities/uncertainquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index bfbebe4..71ddfe8 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -68,7 +68,7 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
-- 
2.43.0


From 06023e32b26d5bda51edf757bd983ac4b5ccb597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/67] fix: astype of a unit or an uncertain quantity

The result was cast back to the original dtype, and the uncertainties of an
UncertainQuantity were replaced by zeros.
---
 quantities/quantity.py          | 4 ++--
 quantities/uncertainquantity.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index e7d83a1..0f789a1 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -279,9 +279,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 71ddfe8..cc6ab43 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -74,6 +74,12 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
         return ret
 
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = super().astype(dtype, **kwargs)
+        ret.uncertainty = self.uncertainty.astype(dtype, **kwargs)
+        return ret
+
     def __array_finalize__(self, obj):
         Quantity.__array_finalize__(self, obj)
         self._uncertainty = getattr(
-- 
2.43.0


From bd47c08889f2a46d51e1848113880fab61b77b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 15/67] fix: the copy of an UncertainQuantity shared its
 uncertainty with the original

---
 quantities/uncertainquantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index cc6ab43..92a2f10 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -291,6 +291,15 @@ class UncertainQuantity(Quantity):
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
 
+    @with_doc(np.ndarray.copy)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy()
+
     def __deepcopy__(self, memo_dict):
         ret = super().__deepcopy__(memo_dict).view(UncertainQuantity)
         ret._uncertainty = copy.deepcopy(self._uncertainty, memo_dict)
-- 
2.43.0


From 46f03d58dcad0fc04ac2885b5a7a4c6c95214036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 16/67] fix: in-place arithmetic did not propagate
 uncertainties

---
 quantities/uncertainquantity.py | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 92a2f10..03c3842 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -171,6 +171,41 @@ class UncertainQuantity(Quantity):
         res.uncertainty = abs(res.view(Quantity) * other * self.relative_uncertainty)
         return res
 
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        uncertainty = (self + other).uncertainty
+        ret = super().__iadd__(other)
+        ret._uncertainty = uncertainty
+        return ret
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        uncertainty = (self - other).uncertainty
+        ret = super().__isub__(other)
+        ret._uncertainty = uncertainty
+        return ret
+
+    @with_doc(Quantity.__imul__, use_header=False)
+    def __imul__(self, other):
+        uncertainty = (self * other).uncertainty
+        ret = super().__imul__(other)
+        ret._uncertainty = uncertainty
+        return ret
+
+    @with_doc(Quantity.__itruediv__, use_header=False)
+    def __itruediv__(self, other):
+        uncertainty = (self / other).uncertainty
+        ret = super().__itruediv__(other)
+        ret._uncertainty = uncertainty
+        return ret
+
+    @with_doc(Quantity.__ipow__, use_header=False)
+    def __ipow__(self, other):
+        uncertainty = (self ** other).uncertainty
+        ret = super().__ipow__(other)
+        ret._uncertainty = uncertainty
+        return ret
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
         return UncertainQuantity(
-- 
2.43.0


From e5947905023b3c78b9d1def8cf7ba9aae0edbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 17/67] fix: nan-aware reductions ignored axis and mishandled
 out

nanmax, nanmin, nanargmax and nanargmin ignored axis and out; nansum, nanmean and
nanstd left the old units on a Quantity passed as out.
---
 quantities/quantity.py | 63 ++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 0f789a1..b16f675 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -533,10 +533,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -598,10 +602,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -616,10 +624,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -627,11 +639,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
@@ -714,9 +726,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
@@ -742,10 +759,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
-        )
+        ret = np.nanstd(self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From 7ca3bcc8d3803e4987ec412d949daaf94c17b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 18/67] fix: extrema of an UncertainQuantity ignored axis

---
 quantities/uncertainquantity.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 03c3842..a52239b 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -275,41 +275,47 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _extremum(self, arg, axis):
+        if axis is None:
+            return self[np.unravel_index(arg(self.magnitude), self.shape)]
+        idx = np.expand_dims(arg(self.magnitude, axis), axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self._dimensionality,
+            np.take_along_axis(self.uncertainty.magnitude, idx, axis).squeeze(axis)
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._extremum(np.argmax, axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._extremum(np.nanargmax, axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._extremum(np.argmin, axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._extremum(np.nanargmin, axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis, out)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis, out)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From df83d7c7c5543a4dc35227989be80ba114a821f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 19/67] fix: sums and means of an UncertainQuantity into an
 output quantity

The result was reinterpreted in the old units of the output array.
---
 quantities/uncertainquantity.py | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index a52239b..b19dc03 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -238,38 +238,49 @@ class UncertainQuantity(Quantity):
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
+    def _set_units_of(self, out, ret):
+        if isinstance(out, Quantity):
+            out._dimensionality = ret.dimensionality
+        if isinstance(out, UncertainQuantity):
+            out.uncertainty = ret.uncertainty
+        return ret
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.sum(axis, dtype, out),
+        mag = out.magnitude if isinstance(out, Quantity) else out
+        return self._set_units_of(out, UncertainQuantity(
+            self.magnitude.sum(axis, dtype, mag),
             self.dimensionality,
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            np.nansum(self.magnitude, axis, dtype, out),
+        mag = out.magnitude if isinstance(out, Quantity) else out
+        return self._set_units_of(out, UncertainQuantity(
+            np.nansum(self.magnitude, axis, dtype, mag),
             self.dimensionality,
             (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.mean(axis, dtype, out),
+        mag = out.magnitude if isinstance(out, Quantity) else out
+        return self._set_units_of(out, UncertainQuantity(
+            self.magnitude.mean(axis, dtype, mag),
             self.dimensionality,
             ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         size = np.sum(~np.isnan(self),axis)
-        return UncertainQuantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
+        mag = out.magnitude if isinstance(out, Quantity) else out
+        return self._set_units_of(out, UncertainQuantity(
+            np.nanmean(self.magnitude, axis, dtype, mag),
             self.dimensionality,
             ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
-- 
2.43.0


From 2a76742ae11459987935ebf481135f9348f66d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 20/67] fix: unit strings dropped the trailing zeros of integer
 exponents

m**10 was rendered as m**1 and m**20 as m**2.
---
 quantities/markup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..750dbb6 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -41,6 +41,12 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(d):
+    res = '%s'%d
+    if '.' in res and 'e' not in res:
+        res = res.rstrip('0').rstrip('.')
+    return '**' + res
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +67,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
-- 
2.43.0


From 1536e8b0c58952b77901c7eb8947242c9dc0f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 21/67] fix: fractional exponents in unicode, LaTeX and HTML
 unit strings

---
 quantities/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 750dbb6..e221b31 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\w.])', val)
     ret = []
     while items:
         try:
@@ -125,7 +125,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -158,7 +158,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From edc12934fab8ce7ccd39f6f410229a949dd2c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 22/67] fix: LaTeX fractions were split inside compound units

---
 quantities/markup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index e221b31..91469b7 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -122,8 +122,14 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     else:
         # Not a compound unit
         compound = False
-        # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        # Replace division (num/den) with \frac{num}{den}, but leave alone the
+        # divisions within the parentheses of a compound unit
+        depth = 0
+        for i, c in reversed(list(enumerate(res))):
+            depth += (c == ')') - (c == '(')
+            if c == '/' and depth == 0:
+                res = r'\frac{%s}{%s}' % (res[:i], res[i+1:])
+                break
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From b8832aa98c98ea53f6073c47cfda89761505348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 23/67] fix: umath.arctan2 of different but compatible units

The units have to be identical, as documented: arctan2(1*m, 100*cm) compared the
bare magnitudes 1 and 100.
---
 quantities/umath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..cddb493 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -342,7 +342,7 @@ def arctan2(x1, x2, out=None):
     if not isinstance(x2, Quantity):
         x2 = Quantity(x2, dimensionless, copy=False)
 
-    if x1._dimensionality.simplified != x2._dimensionality.simplified:
+    if x1._dimensionality != x2._dimensionality:
         raise ValueError(
             'x1 and x2 must have identical units, got "%s" and "%s"'\
             % (str(x1._dimensionality), str(x2._dimensionality))
-- 
2.43.0


From e30f5cd10aa5cb6cda773148c2a99264d6633a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 24/67] fix: logaddexp did not check the units of its second
 operand

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 398697b..61d3393 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -356,8 +356,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_both_dimensionless(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_both_dimensionless
+p_dict[np.logaddexp2] = _d_both_dimensionless
 
 def _d_trig(q1, out=None):
     if not q1.units == unit_registry['radian']:
-- 
2.43.0


From ad1281925be43a2734cc31035fc3857aa58a1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 25/67] fix: AttributeError instead of ValueError for
 mismatched units

np.add(5, 2*pq.m) and 5 % (2*pq.m) failed while formatting the error message.
---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 61d3393..c012cab 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -249,7 +249,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
             )
     else:
         if not compatible:
-- 
2.43.0


From c854b3cf469d8f2e2ba313a3117861057f76076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 26/67] fix: quantitizer failed on keyword arguments with units

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From f466cdcc6479bd5bb79b17892122416eea758676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 27/67] fix: fill() could change the units of a view of a
 quantity

---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index b16f675..b3bb736 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -544,11 +544,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dim = getattr(value, 'dimensionality', self._dimensionality)
+        if dim != self._dimensionality and isinstance(self.base, Quantity):
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        self._dimensionality = dim
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From 8347e927fa8bfbcc9abd454ea1ba2b2b9282c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 28/67] fix: umath.gradient without spacing or with
 plain-number spacing

Without a spacing the result was an empty tuple, with a number AttributeError.
---
 quantities/umath.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index cddb493..c816c2c 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -84,10 +84,8 @@ def gradient(f, *varargs):
     # if no sample distances are specified, use dimensionless 1
     # this mimics the behavior of np.gradient, but perhaps we should
     # remove this default behavior
-    # removed for now::
-    #
-    #   if len(varargs) == 0:
-    #       varargs = (Quantity(1),)
+    if len(varargs) == 0:
+        varargs = (Quantity(1),)
 
     varargsQuantities = [Quantity(i, copy=False) for i in varargs]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
@@ -96,7 +94,7 @@ def gradient(f, *varargs):
     if len(varargs) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)  for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-- 
2.43.0


From cc9801192ef0fe1cee6a51a1d27312d392f778e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 29/67] fix: the statampere could not be simplified

It was declared as a base unit of current, but is defined in Gaussian units.
---
 quantities/units/electromagnetism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..f5f2b62 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
-- 
2.43.0


From fbe5c91d869c78917a22748cb6c1426910c4e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 30/67] fix: missing comma made the international foot labels
 unusable

---
 quantities/units/length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From 9965c2410847d7f601f9e2d41d12b47bc9ab6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 31/67] fix: plural label of the oersted

---
 quantities/units/electromagnetism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index f5f2b62..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
-- 
2.43.0


From 2853d7410eb14185d10421d26c6c03cf76a78568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 32/67] fix: a pond is the weight of a gram, not of a kilogram

---
 quantities/units/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..e4cd7a6 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*kg/1000,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From d85760e2dfc60871cf4b4f2747eaf32b8d31f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 33/67] fix: stub type of the statampere

---
 quantities/units/electromagnetism.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index bdc6ddb..f3ba38b 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -24,8 +24,8 @@ statcoulomb: UnitQuantity
 statC: UnitQuantity
 franklin: UnitQuantity
 Fr: UnitQuantity
-esu_per_second: UnitCurrent
-statampere: UnitCurrent
+esu_per_second: UnitQuantity
+statampere: UnitQuantity
 ampere_turn: UnitQuantity
 Gi: UnitQuantity
 gilbert: UnitQuantity
-- 
2.43.0


From 010fe34b24cfcf649e7f1189602c520339fc83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 34/67] fix: raising a quantity to the power 0 or 1 in place

---
 quantities/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index b3bb736..3aafea9 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -408,7 +408,8 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
-        return super().__ipow__(other)
+        # (ndarray.__ipow__ turns some exponents into other ufuncs)
+        return np.power(self, other, out=self)
 
     def __round__(self, decimals=0):
         return np.around(self, decimals)
-- 
2.43.0


From 4e3ae17c1f3818e6f86ba5d17a7475ee778b9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 35/67] fix: an array raised to a power with units was accepted
 for some exponents

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 3aafea9..ad9342a 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -411,6 +411,11 @@ class Quantity(np.ndarray):
         # (ndarray.__ipow__ turns some exponents into other ufuncs)
         return np.power(self, other, out=self)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        # (ndarray.__pow__ turns some exponents into other ufuncs)
+        return np.power(other, self)
+
     def __round__(self, decimals=0):
         return np.around(self, decimals)
 
-- 
2.43.0


From 2eed4031f6b385f97cc73857f5f4c0739db6e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 36/67] fix: refuse unit strings with a numerical factor

Quantity(3, '2*m') and q.rescale('1000*m') silently dropped the factor;
quantities with a magnitude other than one were already refused as units.
---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ad9342a..22397fc 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,10 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            units = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            units = unit_registry[str(value)]
+        return validate_unit_quantity(units).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From 3b4b8344344565f6fb768015b0be23f95f51d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 37/67] fix: the definition of a unit could be changed in place

---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index cc3d01f..55a74f4 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -52,6 +52,10 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
+            if not isinstance(definition, UnitQuantity):
+                # changing the original must not change the unit
+                definition = definition.copy()
+                definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From 512934f85f9bdd81ee435200aae6d7ae02a44f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 38/67] fix: the units of some views of quantities were not
 protected

---
 quantities/quantity.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 22397fc..b754c78 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -158,7 +158,8 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        # (a view of a Quantity, so that its units are protected)
+        return super(Quantity, self.view(Quantity)).real
 
     @real.setter
     def real(self, r):
@@ -166,7 +167,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).imag
 
     @imag.setter
     def imag(self, i):
@@ -714,10 +715,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        # (a view of a Quantity, so that its units are protected)
+        shape = self.magnitude.squeeze(axis).shape
+        return self.view(Quantity).reshape(shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From e31072c775603c7239f17ab63af86b22e4f4e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 39/67] fix: the units of views of an UncertainQuantity were
 not protected

---
 quantities/uncertainquantity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b19dc03..b9154fb 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -208,8 +208,13 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
+        ret = np.ndarray.__getitem__(self, key)
+        if isinstance(ret, UncertainQuantity):
+            # (a view of self, so that its units are protected)
+            ret.uncertainty = self.uncertainty[key]
+            return ret
         return UncertainQuantity(
-            self.magnitude[key],
+            ret,
             self._dimensionality,
             self.uncertainty[key]
         )
-- 
2.43.0


From e4c3fe3aef050cb3b167376ccc0d2c2b0ee8ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 40/67] fix: the copy of a unit was sorted differently when
 formatted

---
 quantities/unitquantity.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 55a74f4..0f99388 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -280,16 +280,10 @@ class UnitQuantity(Quantity):
         )
 
     def copy(self):
-        return (
-            type(self)(
-                self._name,
-                self._definition,
-                self._symbol,
-                self._u_symbol,
-                self._aliases,
-                self.__doc__
-                )
-            )
+        reconstruct, reconstruct_args, state = self.__reduce__()
+        ret = reconstruct(*reconstruct_args)
+        ret.__setstate__(state)
+        return ret
 
     # units are immutable singletons
     def __copy__(self):
@@ -414,9 +408,6 @@ class CompoundUnit(UnitQuantity):
             self.__getstate__()
             )
 
-    def copy(self):
-        return type(self)(self._name)
-
 unit_registry['CompoundUnit'] = CompoundUnit
 
 
@@ -448,9 +439,6 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
-    def copy(self):
-        return type(self)(self._name)
-
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 09803d5528336f1fff9fb4e55f5b2a643c96f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 41/67] fix: the units of a deep copy of an UncertainQuantity
 could not be changed

---
 quantities/uncertainquantity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b9154fb..2121b9a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -358,6 +358,10 @@ class UncertainQuantity(Quantity):
         return self.copy()
 
     def __deepcopy__(self, memo_dict):
-        ret = super().__deepcopy__(memo_dict).view(UncertainQuantity)
-        ret._uncertainty = copy.deepcopy(self._uncertainty, memo_dict)
-        return ret
+        # (not a view of a Quantity, whose units would be protected)
+        return UncertainQuantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self._dimensionality,
+            copy.deepcopy(self._uncertainty, memo_dict),
+            dtype=self.dtype
+        )
-- 
2.43.0


From 7bd047964f27d2d6e63285dc65956215653d6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 42/67] fix: dividing a dimensionality by itself in place
 raised RuntimeError

---
 quantities/dimensionality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c012cab..1693095 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -118,7 +118,7 @@ class Dimensionality(dict):
 
     def __imul__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        for unit, power in list(other.items()):
             try:
                 self[unit] += power
                 if self[unit] == 0:
@@ -141,7 +141,7 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From 4fb6b9995b2cccb8b99c11d80262bc4535695875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 43/67] fix: the unicode symbol of the drachm was blank

---
 quantities/units/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From cf907fc7e71f1862ace28bec80d1582d55ab460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 44/67] fix: a chain of dots between one-letter units was
 refused

---
 quantities/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 42ea490..2b39e30 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -58,7 +58,7 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -71,7 +71,7 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From 376a7da5948857945465967981abad97ffbefec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 45/67] fix: units containing inches or attoseconds could not
 be parsed

---
 quantities/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index 2b39e30..c5abc95 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -77,6 +77,9 @@ class UnitRegistry:
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        # ... these two are keywords of Python
+        label = re.sub(r'\bin\b', 'inch', label)
+        label = re.sub(r'\bas\b', 'attosecond', label)
 
         return self.__registry[label]
 
-- 
2.43.0


From 4bf52b78e73f0fd6a7a4ec0954b6a1f7080ef031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 46/67] fix: percent signs commented out the rest of LaTeX
 units

---
 quantities/markup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/markup.py b/quantities/markup.py
index 91469b7..e07d1c1 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -130,6 +130,8 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
             if c == '/' and depth == 0:
                 res = r'\frac{%s}{%s}' % (res[:i], res[i+1:])
                 break
+    # A bare percent sign would start a comment
+    res = res.replace('%', r'\%')
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From 09522e0f72f9de333a581d60981bc527baba13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 47/67] fix: signed and bracketed exponents in the names of
 compound units

---
 quantities/markup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index e07d1c1..89f10dd 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -133,7 +133,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     # A bare percent sign would start a comment
     res = res.replace('%', r'\%')
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\([^()]*\)|[+-]?[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -166,7 +166,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\([^()]*\)|[+-]?[\d.]+(e[+-]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From adfe147d34987ac39afdbca113c1d291298178dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 48/67] fix: the electron volt did not belong to the elementary
 charge of the package

---
 quantities/units/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/energy.py b/quantities/units/energy.py
index a40f495..af5bd31 100644
--- a/quantities/units/energy.py
+++ b/quantities/units/energy.py
@@ -23,7 +23,7 @@ btu = Btu = BTU = british_thermal_unit = UnitQuantity(
 )
 eV = electron_volt = UnitQuantity(
     'electron_volt',
-    J*1.60217653e-19,
+    J*1.602176487e-19,
     symbol='eV',
     aliases=['electron_volts']
 )
-- 
2.43.0


From 4a721549242bcb93aeebe36a091caa32f9c0d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 49/67] fix: another unit could be defined under the name of a
 registered one

---
 quantities/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index c5abc95..77f4906 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -50,7 +50,11 @@ class UnitRegistry:
             if not isinstance(string, str):
                 raise TypeError('unit label must be a string, got %r' % (string,))
             if string in self.__context:
-                if val == self.__context[string]:
+                current = self.__context[string]
+                # units of the same name compare equal, whatever they are
+                if val is current or (
+                    val == current and val.simplified == current.simplified
+                ):
                     return
                 raise KeyError(
                     '%s has already been registered for %s'
-- 
2.43.0


From a8cda8cd37e888f36a985e3a4cb741dac0071f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 50/67] fix: cos and tan of a quantity ignored the output array

---
 quantities/umath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index c816c2c..4646bac 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -277,7 +277,8 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -306,7 +307,8 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From 2ac3bfc67e4746899feab8e2a5b8d645f8bf0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 51/67] fix: cross of a quantity and plain vectors dropped the
 units

---
 quantities/umath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 4646bac..cce233f 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -103,7 +103,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
-- 
2.43.0


From 7f79a2313051174cf476da018134b1f99b683d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 52/67] fix: unwrap dropped the units or added multiples of
 2*pi to degrees

---
 quantities/umath.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index cce233f..d25dbfc 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -381,7 +381,7 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
@@ -389,12 +389,15 @@ def unwrap(p, discont=np.pi, axis=-1):
     if not isinstance(discont, Quantity):
         discont = Quantity(discont, copy=False)
 
-    discont = discont.rescale(p.units)
-
+    # np.unwrap adds multiples of 2*pi, so the angles have to be in radians
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+        np.unwrap(
+            p.rescale(radian).magnitude,
+            discont.rescale(radian).magnitude,
+            axis
+        ),
+        radian
+    ).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From 854b0030e011c351100a4a23164646a519c896b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 53/67] fix: ediff1d took the end values in any unit for values
 in the units of the samples

---
 quantities/umath.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index d25dbfc..b6eee40 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -70,9 +70,16 @@ diff = np.diff
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-    if not isinstance(ary, Quantity):
+    if not any(isinstance(i, Quantity) for i in (ary, to_end, to_begin)):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if not isinstance(ary, Quantity):
+        ary = Quantity(ary, copy=False)
+    if isinstance(to_end, Quantity):
+        to_end = to_end.rescale(ary.units).magnitude
+    if isinstance(to_begin, Quantity):
+        to_begin = to_begin.rescale(ary.units).magnitude
+
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From 88cedbf08c0182c16eae8c55a54e314df4320735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 54/67] fix: gradient of a one-dimensional quantity was a tuple
 of scalars

---
 quantities/umath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index b6eee40..3190c8c 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -98,6 +98,10 @@ def gradient(f, *varargs):
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
+    if f.ndim == 1:
+        # np.gradient returns the array itself if there is only one axis
+        return Quantity(ret, f.units/varargsQuantities[0].units)
+
     if len(varargs) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-- 
2.43.0


From 675e19a58c47d1b2a7e25c69f0027dbd3b21c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 55/67] fix: results of NumPy functions on uncertain quantities
 had a dimensionless uncertainty

---
 quantities/uncertainquantity.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 2121b9a..d7a4f35 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -91,6 +91,19 @@ class UncertainQuantity(Quantity):
             )
         )
 
+    def __array_prepare__(self, obj, context=None):
+        res = super().__array_prepare__(obj, context)
+        if (
+            isinstance(res, UncertainQuantity)
+            and res._uncertainty._dimensionality != res._dimensionality
+        ):
+            # __array_finalize__ could not know the units of the result
+            res._uncertainty = Quantity(
+                np.zeros(res.shape, res.dtype),
+                res._dimensionality
+            )
+        return res
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
-- 
2.43.0


From f0e21012cec81a498076007a2f6269464482f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 56/67] fix: reshaped or selected uncertain quantities kept the
 uncertainty of the original shape

---
 quantities/uncertainquantity.py | 60 +++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d7a4f35..f6110c0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -232,6 +232,66 @@ class UncertainQuantity(Quantity):
             self.uncertainty[key]
         )
 
+    @with_doc(np.ndarray.take)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = super().take(indices, axis, out, mode)
+        if isinstance(ret, UncertainQuantity):
+            ret.uncertainty = self.uncertainty.take(indices, axis, mode=mode)
+        return ret
+
+    @with_doc(np.ndarray.compress)
+    def compress(self, condition, axis=None, out=None):
+        ret = super().compress(condition, axis, out)
+        if isinstance(ret, UncertainQuantity):
+            ret.uncertainty = self.uncertainty.compress(condition, axis)
+        return ret
+
+    @with_doc(np.ndarray.repeat)
+    def repeat(self, repeats, axis=None):
+        ret = super().repeat(repeats, axis)
+        ret.uncertainty = self.uncertainty.repeat(repeats, axis)
+        return ret
+
+    @with_doc(np.ndarray.reshape)
+    def reshape(self, *shape, **kwargs):
+        ret = super().reshape(*shape, **kwargs)
+        ret.uncertainty = self.uncertainty.reshape(*shape, **kwargs)
+        return ret
+
+    @with_doc(np.ndarray.flatten)
+    def flatten(self, order='C'):
+        ret = super().flatten(order)
+        ret.uncertainty = self.uncertainty.flatten(order)
+        return ret
+
+    @with_doc(np.ndarray.ravel)
+    def ravel(self, order='C'):
+        ret = super().ravel(order)
+        ret.uncertainty = self.uncertainty.ravel(order)
+        return ret
+
+    @with_doc(np.ndarray.transpose)
+    def transpose(self, *axes):
+        ret = super().transpose(*axes)
+        ret.uncertainty = self.uncertainty.transpose(*axes)
+        return ret
+
+    @property
+    def T(self):
+        return self.transpose()
+
+    @with_doc(np.ndarray.swapaxes)
+    def swapaxes(self, axis1, axis2):
+        ret = super().swapaxes(axis1, axis2)
+        ret.uncertainty = self.uncertainty.swapaxes(axis1, axis2)
+        return ret
+
+    @with_doc(np.ndarray.diagonal)
+    def diagonal(self, offset=0, axis1=0, axis2=1):
+        ret = super().diagonal(offset, axis1, axis2)
+        ret.uncertainty = self.uncertainty.diagonal(offset, axis1, axis2)
+        return ret
+
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
         return '%s(%s, %s, %s)'%(
-- 
2.43.0


From e119a45be96701b0dd8cf05b9b011cff11e373fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 57/67] fix: nansum and nanmean added the uncertainties of the
 elements that are not numbers

---
 quantities/uncertainquantity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f6110c0..b4a8ca2 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -334,11 +334,13 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
+        # (what is not counted does not contribute to the uncertainty)
+        valid = ~np.isnan(self.magnitude)
         mag = out.magnitude if isinstance(out, Quantity) else out
         return self._set_units_of(out, UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, mag),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum((self.uncertainty.magnitude*valid)**2, axis))**0.5
         ))
 
     @with_doc(np.ndarray.mean)
@@ -352,12 +354,13 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
-        size = np.sum(~np.isnan(self),axis)
+        valid = ~np.isnan(self.magnitude)
+        size = np.sum(valid, axis)
         mag = out.magnitude if isinstance(out, Quantity) else out
         return self._set_units_of(out, UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, mag),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude*valid)**2, axis))**0.5
         ))
 
     @with_doc(np.sqrt)
-- 
2.43.0


From 90c4b0aee2d1bd06769241e20cccdf8391069e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 58/67] fix: sorting an uncertain quantity left the
 uncertainties in the old order

---
 quantities/uncertainquantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b4a8ca2..1c16501 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -377,6 +377,15 @@ class UncertainQuantity(Quantity):
             np.take_along_axis(self.uncertainty.magnitude, idx, axis).squeeze(axis)
         )
 
+    @with_doc(np.ndarray.sort)
+    def sort(self, axis=-1, kind=None, order=None, **kwargs):
+        idx = np.argsort(self.magnitude, axis, kind, order, **kwargs)
+        super().sort(axis, kind, order, **kwargs)
+        self.uncertainty = Quantity(
+            np.take_along_axis(self.uncertainty.magnitude, idx, axis),
+            self._dimensionality
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
         return self._extremum(np.argmax, axis)
-- 
2.43.0


From b7d20c679b43b47af0bda7deba9eb61054e1c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 59/67] fix: set_default_units changed some of the defaults
 before refusing others

---
 quantities/unitquantity.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 0f99388..94b47c1 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -318,7 +318,7 @@ class IrreducibleUnit(UnitQuantity):
     def get_default_unit(cls):
         return cls._default_unit
     @classmethod
-    def set_default_unit(cls, unit):
+    def _check_default_unit(cls, unit):
         if unit is None:
             return
         if isinstance(unit, str):
@@ -328,7 +328,12 @@ class IrreducibleUnit(UnitQuantity):
             get_conversion_factor(cls._default_unit, unit)
         except ValueError:
             raise TypeError('default unit must be of same type')
-        cls._default_unit = unit
+        return unit
+    @classmethod
+    def set_default_unit(cls, unit):
+        unit = cls._check_default_unit(unit)
+        if unit is not None:
+            cls._default_unit = unit
 
 
 class UnitMass(IrreducibleUnit):
@@ -476,6 +481,17 @@ def set_default_units(
     If both system and individual defaults are given, the system
     defaults will be applied first, followed by the individual ones.
     """
+    # (all are checked before any of the defaults is changed)
+    UnitCurrency._check_default_unit(currency)
+    UnitCurrent._check_default_unit(current)
+    UnitInformation._check_default_unit(information)
+    UnitLength._check_default_unit(length)
+    UnitLuminousIntensity._check_default_unit(luminous_intensity)
+    UnitMass._check_default_unit(mass)
+    UnitSubstance._check_default_unit(substance)
+    UnitTemperature._check_default_unit(temperature)
+    UnitTime._check_default_unit(time)
+
     if system is not None:
         system = system.lower()
         if system not in ('si', 'cgs'):
-- 
2.43.0


From 5a70116f9751aa552bab57e70279cb39deabc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 60/67] fix: changing a quantity that was chosen as the default
 unit broke simplification

---
 quantities/unitquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 94b47c1..6ffcd71 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -333,7 +333,8 @@ class IrreducibleUnit(UnitQuantity):
     def set_default_unit(cls, unit):
         unit = cls._check_default_unit(unit)
         if unit is not None:
-            cls._default_unit = unit
+            # (not the quantity itself, which may be changed later)
+            cls._default_unit = unit.units
 
 
 class UnitMass(IrreducibleUnit):
-- 
2.43.0


From 7e9c4b23ca31e4e63ded1dea1d6cbff693ed963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 61/67] fix: clip wrote its result to a plain output array
 before refusing it

---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index b754c78..bb6aeff 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -678,6 +678,9 @@ class Quantity(np.ndarray):
                 "both min and max must be Quantities with compatible units"
             )
 
+        if out is not None and not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
@@ -686,8 +689,6 @@ class Quantity(np.ndarray):
         dim = self.dimensionality
         if out is None:
             return Quantity(clipped, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
-- 
2.43.0


From 8a753c7767da0db727c9fc967b695b91d2b8373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 62/67] fix: the stubs did not declare some of the exported
 units

---
 quantities/units/electromagnetism.pyi |  4 ++++
 quantities/units/force.pyi            |  1 +
 quantities/units/pressure.pyi         |  8 ++++++++
 quantities/units/temperature.pyi      | 20 ++++++++++++++++++++
 4 files changed, 33 insertions(+)

diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index f3ba38b..3d93de2 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -49,6 +49,7 @@ mF: UnitQuantity
 uF: UnitQuantity
 nF: UnitQuantity
 pF: UnitQuantity
+fF: UnitQuantity
 ohm: UnitQuantity
 Ohm: UnitQuantity
 kOhm: UnitQuantity
@@ -104,6 +105,9 @@ mu_0: UnitQuantity
 magnetic_constant: UnitQuantity
 vacuum_permittivity: UnitQuantity
 epsilon_0: UnitQuantity
+Z_0: UnitQuantity
+impedence_of_free_space: UnitQuantity
+characteristic_impedance_of_vacuum: UnitQuantity
 electric_constant: UnitQuantity
 cd: UnitLuminousIntensity
 candle: UnitLuminousIntensity
diff --git a/quantities/units/force.pyi b/quantities/units/force.pyi
index 43f52c6..ff60d62 100644
--- a/quantities/units/force.pyi
+++ b/quantities/units/force.pyi
@@ -2,6 +2,7 @@ from ..unitquantity import UnitQuantity
 
 N: UnitQuantity
 newton: UnitQuantity
+kN: UnitQuantity
 kilonewton: UnitQuantity
 dyne: UnitQuantity
 pond: UnitQuantity
diff --git a/quantities/units/pressure.pyi b/quantities/units/pressure.pyi
index 67b5cd7..4012229 100644
--- a/quantities/units/pressure.pyi
+++ b/quantities/units/pressure.pyi
@@ -3,6 +3,14 @@ from ..unitquantity import UnitQuantity
 Hg: UnitQuantity
 mercury: UnitQuantity
 conventional_mercury: UnitQuantity
+mercury_60F: UnitQuantity
+H2O: UnitQuantity
+h2o: UnitQuantity
+water: UnitQuantity
+conventional_water: UnitQuantity
+water_4C: UnitQuantity
+water_39F: UnitQuantity
+water_60F: UnitQuantity
 Pa: UnitQuantity
 pascal: UnitQuantity
 hPa: UnitQuantity
diff --git a/quantities/units/temperature.pyi b/quantities/units/temperature.pyi
index 2a79414..d4ad633 100644
--- a/quantities/units/temperature.pyi
+++ b/quantities/units/temperature.pyi
@@ -4,6 +4,26 @@ K: UnitTemperature
 degK: UnitTemperature
 kelvin: UnitTemperature
 Kelvin: UnitTemperature
+YK: UnitTemperature
+ZK: UnitTemperature
+EK: UnitTemperature
+PK: UnitTemperature
+TK: UnitTemperature
+GK: UnitTemperature
+MK: UnitTemperature
+kK: UnitTemperature
+hK: UnitTemperature
+daK: UnitTemperature
+dK: UnitTemperature
+cK: UnitTemperature
+mK: UnitTemperature
+uK: UnitTemperature
+nK: UnitTemperature
+pK: UnitTemperature
+fK: UnitTemperature
+aK: UnitTemperature
+zK: UnitTemperature
+yK: UnitTemperature
 degR: UnitTemperature
 rankine: UnitTemperature
 Rankine: UnitTemperature
-- 
2.43.0


From f8e82cb14da68d1f94ae9c8fdbefe8c280a04032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:30 +0000
Subject: [PATCH 63/67] fix: changing the units of an uncertainty object
 changed the quantity it belongs to

---
 quantities/uncertainquantity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 1c16501..0e6fb35 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -52,7 +52,8 @@ class UncertainQuantity(Quantity):
 
     @property
     def uncertainty(self):
-        return self._uncertainty
+        # a view, its units can not be changed behind our back
+        return self._uncertainty.view(Quantity)
     @uncertainty.setter
     def uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
@@ -61,6 +62,9 @@ class UncertainQuantity(Quantity):
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
+        elif not isinstance(uncertainty.base, Quantity):
+            # the units of the caller's object may be changed later
+            uncertainty = uncertainty.copy()
         self._uncertainty = uncertainty
 
     @property
-- 
2.43.0


From 90863607021fe41777df2687a13e206e888ae96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:43 +0000
Subject: [PATCH 64/67] fix: flattening an uncertain quantity in memory order
 mixed up its uncertainties

---
 quantities/uncertainquantity.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 0e6fb35..f769c53 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -256,22 +256,39 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = self.uncertainty.repeat(repeats, axis)
         return ret
 
+    def _follow_memory(self, order):
+        # the orders 'A' and 'K' depend on the memory layout, which need not
+        # be the same for the uncertainty
+        uncertainty = self.uncertainty
+        if order in ('A', 'a'):
+            order = 'F' if self.flags.fnc else 'C'
+        elif order in ('K', 'k'):
+            laid_out = np.empty_like(self.magnitude, dtype=uncertainty.dtype)
+            laid_out[...] = uncertainty.magnitude
+            uncertainty = Quantity(laid_out, uncertainty.dimensionality)
+        return order, uncertainty
+
     @with_doc(np.ndarray.reshape)
     def reshape(self, *shape, **kwargs):
         ret = super().reshape(*shape, **kwargs)
-        ret.uncertainty = self.uncertainty.reshape(*shape, **kwargs)
+        order, uncertainty = self._follow_memory(kwargs.get('order'))
+        if order is not None:
+            kwargs['order'] = order
+        ret.uncertainty = uncertainty.reshape(*shape, **kwargs)
         return ret
 
     @with_doc(np.ndarray.flatten)
     def flatten(self, order='C'):
         ret = super().flatten(order)
-        ret.uncertainty = self.uncertainty.flatten(order)
+        order, uncertainty = self._follow_memory(order)
+        ret.uncertainty = uncertainty.flatten(order)
         return ret
 
     @with_doc(np.ndarray.ravel)
     def ravel(self, order='C'):
         ret = super().ravel(order)
-        ret.uncertainty = self.uncertainty.ravel(order)
+        order, uncertainty = self._follow_memory(order)
+        ret.uncertainty = uncertainty.ravel(order)
         return ret
 
     @with_doc(np.ndarray.transpose)
-- 
2.43.0


From 10713bcb039832b1b3415b51280fd2f93f739163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:45 +0000
Subject: [PATCH 65/67] fix: squeezing an uncertain quantity dropped its
 uncertainty

---
 quantities/uncertainquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f769c53..acd8011 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -291,6 +291,10 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = uncertainty.ravel(order)
         return ret
 
+    @with_doc(np.ndarray.squeeze)
+    def squeeze(self, axis=None):
+        return self.reshape(self.magnitude.squeeze(axis).shape)
+
     @with_doc(np.ndarray.transpose)
     def transpose(self, *axes):
         ret = super().transpose(*axes)
-- 
2.43.0


From 3b6f78241d70160898af880142fa5170b3ae542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:45 +0000
Subject: [PATCH 66/67] fix: partitioning an uncertain quantity left its
 uncertainties behind

---
 quantities/uncertainquantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index acd8011..9474409 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -411,6 +411,15 @@ class UncertainQuantity(Quantity):
             self._dimensionality
         )
 
+    @with_doc(np.ndarray.partition)
+    def partition(self, kth, axis=-1, kind='introselect', order=None):
+        idx = np.argpartition(self.magnitude, kth, axis, kind, order)
+        self.magnitude[...] = np.take_along_axis(self.magnitude, idx, axis)
+        self.uncertainty = Quantity(
+            np.take_along_axis(self.uncertainty.magnitude, idx, axis),
+            self._dimensionality
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
         return self._extremum(np.argmax, axis)
-- 
2.43.0


From b1c64d016b3c96479c162324176815cf1a30ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:29 +0000
Subject: [PATCH 67/67] fix: take of a single element keeps the units (and the
 uncertainty)

numpy returns a plain number from ndarray.take for a scalar index, so
q.take(0) and np.take(q, 0) lost the units.
---
 quantities/quantity.py          | 8 ++++++++
 quantities/uncertainquantity.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index bb6aeff..2686f11 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -558,6 +558,14 @@ class Quantity(np.ndarray):
         self.magnitude.fill(value)
         self._dimensionality = dim
 
+    @with_doc(np.ndarray.take)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = super().take(indices, axis, out, mode)
+        if out is not None or isinstance(ret, Quantity):
+            return ret
+        # (numpy returns a single element as a plain number)
+        return Quantity(ret, self._dimensionality)
+
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
         """
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 9474409..20bda50 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -239,6 +239,9 @@ class UncertainQuantity(Quantity):
     @with_doc(np.ndarray.take)
     def take(self, indices, axis=None, out=None, mode='raise'):
         ret = super().take(indices, axis, out, mode)
+        if out is None and not isinstance(ret, UncertainQuantity):
+            # (a single element)
+            ret = ret.view(UncertainQuantity)
         if isinstance(ret, UncertainQuantity):
             ret.uncertainty = self.uncertainty.take(indices, axis, mode=mode)
         return ret
-- 
2.43.0

