From c4229d4f41878882dfc45278278229928b58ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 01/60] fix: rejected bounds or concurrent requests left
 half-made bounded constraints in the registry

---
 paramz/transformations.py | 41 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..5565bc1 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -33,7 +33,7 @@
 
 import numpy as np
 from .domains import _POSITIVE,_NEGATIVE, _BOUNDED
-import weakref, logging
+import weakref, logging, threading
 
 import sys
 
@@ -50,13 +50,17 @@ UNFIXED = True
 #===============================================================================
 logger = logging.getLogger(__name__)
 
+# guards the registries of shared transformation instances
+_instances_lock = threading.RLock()
+
 class Transformation(object):
     domain = None
     _instance = None
     def __new__(cls, *args, **kwargs):
-        if not cls._instance or cls._instance.__class__ is not cls:
-            cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
-        return cls._instance
+        with _instances_lock:
+            if not cls._instance or cls._instance.__class__ is not cls:
+                cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
+            return cls._instance
     def f(self, opt_param):
         raise NotImplementedError
     def finv(self, model_param):
@@ -185,18 +189,23 @@ class Logistic(Transformation):
     domain = _BOUNDED
     _instances = []
     def __new__(cls, lower=1e-6, upper=1e-6, *args, **kwargs):
-        if cls._instances:
-            cls._instances[:] = [instance for instance in cls._instances if instance()]
-            for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
-                    return instance()
-        newfunc = super(Transformation, cls).__new__
-        if newfunc is object.__new__:
-            o = newfunc(cls)
-        else:
-            o = newfunc(cls, lower, upper, *args, **kwargs)
-        cls._instances.append(weakref.ref(o))
-        return cls._instances[-1]()
+        with _instances_lock:
+            if cls._instances:
+                cls._instances[:] = [instance for instance in cls._instances if instance()]
+                for instance in cls._instances:
+                    o = instance() # keep it alive while we look at it
+                    if o is not None and o.lower == lower and o.upper == upper:
+                        return o
+            newfunc = super(Transformation, cls).__new__
+            if newfunc is object.__new__:
+                o = newfunc(cls)
+            else:
+                o = newfunc(cls, lower, upper, *args, **kwargs)
+            if lower < upper:
+                # only share complete instances, __init__ rejects all others
+                o.lower, o.upper = float(lower), float(upper)
+                cls._instances.append(weakref.ref(o))
+            return o
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From af3c4435ed953417840e25e70b16ba310dc5ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/60] fix: copied and unpickled constraints were not the
 shared instances, so they could not be taken off again

---
 paramz/transformations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 5565bc1..30c92fd 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -61,6 +61,9 @@ class Transformation(object):
             if not cls._instance or cls._instance.__class__ is not cls:
                 cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
             return cls._instance
+    def __reduce_ex__(self, protocol):
+        # older protocols by-pass __new__, and with it the shared instances
+        return super(Transformation, self).__reduce_ex__(max(protocol, 2))
     def f(self, opt_param):
         raise NotImplementedError
     def finv(self, model_param):
@@ -210,6 +213,9 @@ class Logistic(Transformation):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
         self.difference = self.upper - self.lower
+    def __getnewargs__(self):
+        # copies and pickles have to find the shared instance for these bounds
+        return self.lower, self.upper
     def f(self, x):
         if (x<-300.).any():
             x = x.copy()
-- 
2.43.0


From 7e1d6dd52131974dc5739d35a3521919f3ec1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 03/60] fix: a held multi-parameter handle updated the model
 only the first time it was used

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..ee682a5 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,7 +423,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = list(map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1))))
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From 26a7a92d7d50debccb6ea999450994e0bb7dc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 04/60] fix: partial reads and writes through a multi-parameter
 handle selected by value and wrote the wrong entries

---
 paramz/param.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index ee682a5..3bab588 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -429,9 +429,9 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
-        return ParamConcatenation(params)
+        return np.hstack(params) if params else np.empty(0)
 
     def __setitem__(self, s, val):
         if isinstance(val, ParamConcatenation):
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From 3ef0d868a87d5f0a5c24f35bc2482ac397b5ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 05/60] fix: in-place arithmetic on a held multi-parameter
 handle replaced the handle by None

---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 3bab588..7a0b6fa 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -546,39 +546,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From e30c9e39fdde25fdb7bf5182bce11ec4a2e0ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 06/60] fix: optimizer_array was stale after changes without
 notification and for leaf parameters

---
 paramz/core/parameter_core.py | 17 ++++++++---------
 paramz/parameterized.py       |  3 ++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..37cdcb9 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -77,15 +77,14 @@ class OptimizationHandlable(Constrainable):
         The optimizer should only interfere with this array, such that transformations
         are secured.
         """
-        if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
-            self._optimizer_copy_ = np.empty(self.size)
-
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # Not every change is notified (updates off, unconstraining, setting in memory, ...),
+        # and whoever holds the last array must not see it change, thus, always transform anew:
+        self._optimizer_copy_ = np.empty(self.size)
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..3f39717 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -352,7 +352,8 @@ If you are loading a model, set updates off, then initialize, then set the value
     def copy(self, memo=None):
         if memo is None:
             memo = {}
-        memo[id(self.optimizer_array)] = None # and param_array
+        optimizer_array = self.optimizer_array # keep it alive, its id is only good for as long as it lives
+        memo[id(optimizer_array)] = None # and param_array
         memo[id(self.param_array)] = None # and param_array
         copy = super(Parameterized, self).copy(memo)
         copy._connect_parameters()
-- 
2.43.0


From 3ac4f2b041df7aa7f35c4caef60cb2f29db54d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 07/60] fix: fixes of nodes below the root were stale, so
 optimizer_array and flat names there included fixed entries

---
 paramz/core/constrainable.py  | 6 +++---
 paramz/core/indexable.py      | 1 +
 paramz/core/parameter_core.py | 9 ++++++---
 paramz/param.py               | 4 +++-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..9167743 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -86,9 +86,9 @@ class Constrainable(Indexable):
         # Ensure that the fixes array is set:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
-            self._fixes_ = np.ones(self.size, dtype=bool)
-            self._fixes_[self.constraints[__fixed__]] = FIXED
+        # (always from the constraints, as only the highest parent gets told about (un-)fixing)
+        self._fixes_ = np.ones(self.size, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
 
     def _set_fixed(self, param, index):
diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..3122849 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -176,6 +176,7 @@ class Indexable(Nameable, Updateable):
         """
         ravi = self._raveled_index_for(param)
         if self._has_fixes():
+            self._ensure_fixes()
             fixes = self._fixes_
             ### Transformed indices, handling the offsets of previous fixes
             transformed = (np.r_[:self.size] - (~fixes).cumsum())
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 37cdcb9..052e161 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -147,7 +147,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
@@ -218,6 +220,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
@@ -360,9 +363,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
diff --git a/paramz/param.py b/paramz/param.py
index 7a0b6fa..f662aa0 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -182,7 +182,9 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        from .transformations import __fixed__, FIXED
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From 0ce2c48a0d48917c10f6252262d27887fa4ab732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 08/60] fix: a visitor raising in traverse left nodes marked as
 visited, so later traversals skipped them

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 052e161..0252e75 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -386,8 +386,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -407,9 +409,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From afc859ec00d64778e84cdb7a3c0eb3f0e4e6cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 09/60] fix: linking an object into itself or below itself hung
 instead of raising HierarchyError

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 3f39717..ba58466 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add a parameter to itself, or to one of its own children")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 8d5127f76f9ad4a1ac8730586e9d0d67d58100c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 10/60] fix: linking at an index past the end raised IndexError
 and left the parameter half linked

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index ba58466..b4a8e7f 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -152,6 +152,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 param.traverse_parents(visit, self)
                 param._parent_.unlink_parameter(param)
             # make sure the size is set
+            if index is not None: # list.insert syntax
+                index = min(index, len(self.parameters))
             if index is None:
                 start = sum(p.size for p in self.parameters)
                 for name, iop in self._index_operations.items():
-- 
2.43.0


From e06238f08ece4a424d3445e16f85c04eddd87488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 11/60] fix: switching updates on from a child left the rest of
 the hierarchy out of date

---
 paramz/core/updateable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..bc76847 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,7 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        p.trigger_update()
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From 32d4eb09f31ce92536190f246dcd45aec22baa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 12/60] fix: fixed children were not told about changes to
 their values made from above

---
 paramz/core/parameter_core.py | 8 +++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0252e75..cc301e3 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -120,16 +120,18 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        self.trigger_update(skip_fixed=True)
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True (the optimizer does not change fixed values),
+        we leave out children, which are fixed altogether.
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed) for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index bc76847..d5f8a69 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to leave out children, all values of which are fixed
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From 868f88c81b4ae1c8184a4d533dcacbf74418704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 13/60] fix: setting optimizer_array with the wrong number of
 values was silently cut off or repeated

---
 paramz/core/parameter_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index cc301e3..1e18ddd 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -99,11 +99,14 @@ class OptimizationHandlable(Constrainable):
 
         Also we want to update param_array in here.
         """
+        if np.ndim(p) > 0 and np.size(p) != self._size_transformed():
+            raise ValueError("optimizer_array has to be set with {} values, got {}".format(self._size_transformed(), np.size(p)))
         f = None
         if self.has_parent() and self.constraints[__fixed__].size != 0:
             f = np.ones(self.size).astype(bool)
             f[self.constraints[__fixed__]] = FIXED
         elif self._has_fixes():
+            self._ensure_fixes()
             f = self._fixes_
         if f is None:
             self.param_array.flat = p
-- 
2.43.0


From 310ecdaa11350da6e2b9b1460239664670b729e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 14/60] fix: a failing randomize left updates switched off

---
 paramz/core/parameter_core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 1e18ddd..a9a7824 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -248,13 +248,15 @@ class OptimizationHandlable(Constrainable):
         x = rand_gen(size=self._size_transformed(), *args, **kwargs)
         updates = self.update_model()
         self.update_model(False) # Switch off the updates
-        self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
-        # now draw from prior where possible
-        x = self.param_array.copy()
-        unfixlist = np.ones((self.size,),dtype=bool)
-        unfixlist[self.constraints[__fixed__]] = False
-        self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
-        self.update_model(updates)
+        try:
+            self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
+            # now draw from prior where possible
+            x = self.param_array.copy()
+            unfixlist = np.ones((self.size,),dtype=bool)
+            unfixlist[self.constraints[__fixed__]] = False
+            self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
+        finally:
+            self.update_model(updates)
 
     #===========================================================================
     # For shared memory arrays. This does nothing in Param, but sets the memory
-- 
2.43.0


From b8c7e9016fb856f9627dba7ae3304cb668b218e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 15/60] fix: removing an observer compared observers by value,
 failing for arrays and removing equal ones

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From 416ca54ba725e837a68577a9656449fbf18c6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 16/60] fix: gradient checking a multi-parameter selection
 failed with numpy >= 1.16

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 3122849..ca65d66 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From f73551e48d238263c1773692803d2d0915b1be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 17/60] fix: wrong sign of the gradient factor of
 NegativeExponent

---
 paramz/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 30c92fd..b935107 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -169,7 +169,7 @@ class NegativeExponent(Exponent):
     def finv(self, f):
         return -Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, f, df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
     def __str__(self):
-- 
2.43.0


From d276bcacb6cfb02bb7572a45a88255a7cb520b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 18/60] fix: gradients given to the optimizer were the model's
 own gradient array, transformed in place and overwritten by later evaluations

---
 paramz/core/parameter_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index a9a7824..085d5a3 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -149,6 +149,7 @@ class OptimizationHandlable(Constrainable):
         Transform the gradients by multiplying the gradient factor for each
         constraint to it.
         """
+        g = np.array(g) # do not transform in place, this usually is the gradient of the model itself
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-- 
2.43.0


From 149d8d2dc572dc20bc16e5849587164675d28b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 19/60] fix: optimize_restarts chose a run which ended in nan
 as the best one

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..f9224a5 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,8 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            f_opts = np.array([o.f_opt for o in self.optimization_runs[initial_length:]], dtype=float)
+            i = np.argmin(np.where(np.isnan(f_opts), np.inf, f_opts))
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From 0b65eef0d6cddfcd716aad3d5034686d73efbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 20/60] fix: optimize_restarts of a model without free
 parameters failed looking for a run

---
 paramz/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index f9224a5..63ec7f3 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -148,6 +148,10 @@ class Model(Parameterized):
             on the current machine.
 
         """
+        if self.is_fixed or self.size == 0:
+            print('nothing to optimize')
+            return self.optimization_runs
+
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
 
-- 
2.43.0


From 16bc1afe251b186797b413fc60edf59eab031b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 21/60] fix: the start array given to optimize could end up in
 the records and change with the caller's array

---
 paramz/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/model.py b/paramz/model.py
index 63ec7f3..2f8a345 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -96,6 +96,7 @@ class Model(Parameterized):
 
         if start is None:
             start = self.optimizer_array
+        start = np.array(start, dtype=float) # optimizers may report it as the optimum
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From f525427bae61846b803a9b48587d191a99ca70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 22/60] fix: cached functions took calls with the same values
 under different keywords for the same call

---
 paramz/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..1ed5d29 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -165,6 +165,8 @@ class Cacher(object):
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
         cache_id = self.prepare_cache_id(inputs)
+        if kw: # the same values under other names are another call
+            cache_id += ",".join(k for i, k in enumerate(sorted(kw), len(args)) if i not in self.ignore_args)
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From 39a33ff0143d1e6a28d3172e7a0f30c37f6e21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 23/60] fix: changes through views of an array went unnoticed
 by caches of it, and evicting a view left the array unobserved

---
 paramz/caching.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 1ed5d29..f7b1d3f 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -87,6 +87,13 @@ class Cacher(object):
         """returns the self.id of an object, to be used in caching individual self.ids"""
         return hex(id(obj))
 
+    def observers_id(self, obj):
+        """
+        returns the id under which changes of `obj` are reported. Views of an array share
+        their observers with it, so that a change through any of them concerns all of them.
+        """
+        return self.id(getattr(obj, 'observers', obj))
+
     def combine_inputs(self, args, kw, ignore_args):
         "Combines the args and kw in a unique way, such that ordering of kwargs does not lead to recompute"
         inputs= args + tuple(c[1] for c in sorted(kw.items(), key=lambda x: x[0]))
@@ -105,12 +112,12 @@ class Cacher(object):
             cache_id = self.order.popleft()
             combined_args_kw = self.cached_inputs[cache_id]
             for ind in combined_args_kw:
-                ind_id = self.id(ind)
+                ind_id = self.observers_id(ind)
                 tmp = self.cached_input_ids.get(ind_id, None)
                 if tmp is not None:
                     ref, cache_ids = tmp
-                    if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
+                    if len(cache_ids) == 1:
+                        ind.remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
                     else:
                         cache_ids.remove(cache_id)
@@ -139,8 +146,9 @@ class Cacher(object):
         self.cached_inputs[cache_id] = inputs
         for a in inputs:
             if a is not None and not isinstance(a, Number) and not isinstance(a, str):
-                ind_id = self.id(a)
+                ind_id = self.observers_id(a)
                 v = self.cached_input_ids.get(ind_id, [weakref.ref(a), []])
+                v[0] = weakref.ref(a) # the latest one lives longest
                 v[1].append(cache_id)
                 if len(v[1]) == 1:
                     a.add_observer(self, self.on_cache_changed)
@@ -200,7 +208,7 @@ class Cacher(object):
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
         for what in [direct, which]:
-            ind_id = self.id(what)
+            ind_id = self.observers_id(what)
             _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
             for cache_id in cache_ids:
                 self.inputs_changed[cache_id] = True
@@ -215,7 +223,7 @@ class Cacher(object):
         self.cached_inputs = {}  # point from cache_ids to a list of [ind_ids], which where used in cache cache_id
 
         #=======================================================================
-        # point from each ind_id to [ref(obj), cache_ids]
+        # point from each ind_id (id of the observers of an input) to [ref(obj), cache_ids]
         # 0: a weak reference to the object itself
         # 1: the cache_ids in which this ind_id is used (len will be how many times we have seen this ind_id)
         self.cached_input_ids = {}
-- 
2.43.0


From 755a16729584421956db399f5a57ed47e15a6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 24/60] fix: inputs changed, caches reset or results evicted by
 a cached function while it runs left stale results or broke the cache

---
 paramz/caching.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index f7b1d3f..bf13300 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -185,19 +185,24 @@ class Cacher(object):
         changed = (not not_seen) and self.inputs_changed[cache_id]
         if changed or not_seen:
             # If we need to compute, we compute the operation, but fail gracefully, if the operation has an error:
+            if not_seen:
+                # 3: This is when we never saw this chache_id:
+                self.ensure_cache_length()
+                self.add_to_cache(cache_id, inputs, None)
+            # This marks our own computation. It is gone, if the operation itself (or what it calls) changes
+            # the inputs, resets the cache, needs the space, or comes by here with the same inputs again.
+            running = object()
+            self.inputs_changed[cache_id] = running
             try:
                 new_output = self.operation(*args, **kw)
             except:
                 self.reset()
                 raise
-            if(changed):
-                # 4: This happens, when elements have changed for this cache self.id
+            if self.inputs_changed.get(cache_id, None) is running:
+                # 4: Only now the output belongs to the current inputs
                 self.inputs_changed[cache_id] = False
                 self.cached_outputs[cache_id] = new_output
-            else:  # not_seen is True, as one of the two has to be True:
-                # 3: This is when we never saw this chache_id:
-                self.ensure_cache_length()
-                self.add_to_cache(cache_id, inputs, new_output)
+            return new_output
         # 5: We have seen this cache_id and it is cached:
         return self.cached_outputs[cache_id]
 
-- 
2.43.0


From 85bc42b43d78928d977b842016f084c57fd94b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 25/60] fix: cachers of copied objects computed from the
 original object and took the place of its cachers

---
 paramz/caching.py         | 8 +++++++-
 paramz/core/pickleable.py | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index bf13300..1244562 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -238,7 +238,13 @@ class Cacher(object):
         self.inputs_changed = {}  # point from cache_ids to bools
 
     def __deepcopy__(self, memo=None):
-        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)
+        operation = self.operation
+        owner = getattr(operation, '__self__', None)
+        if owner is not None and memo is not None and memo.get(id(owner), self) is not None:
+            # a copied object caches its own method, not the one of the original
+            import copy
+            operation = copy.deepcopy(operation, memo)
+        return Cacher(operation, self.limit, self.ignore_args, self.force_kwargs)
 
     def __getstate__(self, memo=None):
         raise PickleError("Trying to pickle Cacher object with function {}, pickling functions not possible.".format(str(self.operation)))
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index faf45de..1eeecc4 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -123,6 +123,7 @@ class Pickleable(object):
         from .lists_and_dicts import ObserverList
         from ..caching import FunctionCache
         self.observers = ObserverList()
-        self.cache = FunctionCache()
+        if 'cache' not in self.__dict__: # copied cachers register here already
+            self.cache = FunctionCache()
         self._setup_observers()
         self._optimizer_copy_transformed = False
-- 
2.43.0


From 3f867c2418ebec3173d3e0d5e248db00d395da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 26/60] fix: keywords which force computing had no effect on
 methods decorated with Cache_this

---
 paramz/caching.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 1244562..9e0d446 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -292,6 +292,13 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        try:
+            from inspect import getfullargspec as getspec
+        except ImportError: #py2
+            from inspect import getargspec as getspec
+        spec = getspec(f)
+        defaults = dict(zip(spec.args[::-1], (spec.defaults or ())[::-1]))
+        force = [(i, defaults.get(name, None)) for i, name in enumerate(spec.args) if name in self.force_kwargs]
         def g(obj, *args, **kw):
             obj = args[0]
             if not hasattr(obj, 'cache'):
@@ -301,6 +308,10 @@ class Cache_this(object):
                 cacher = cache[self.f]
             else:
                 cacher = cache[self.f] = Cacher(self.f, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=cache.caching_enabled)
+            # decorate turns keywords into positions and fills in the defaults
+            for arg, default in force:
+                if len(args) > arg and args[arg] is not None and args[arg] is not default:
+                    return self.f(*args, **kw)
             return cacher(*args, **kw)
         g.__name__ = f.__name__
         g.__doc__ = f.__doc__
-- 
2.43.0


From d56bc96119d6f76e6a8bb0053ea019d33e891b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 27/60] fix: saving a model which cannot be serialised
 destroyed the file saved before

---
 paramz/core/pickleable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index 1eeecc4..81b3e1d 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -59,8 +59,9 @@ class Pickleable(object):
         except ImportError: #python3
             import pickle
             if isinstance(f, str):
+                dump = pickle.dumps(self, protocol) # before touching the file, as this can fail
                 with open(f, 'wb') as f:
-                    pickle.dump(self, f, protocol)
+                    f.write(dump)
             else:
                 pickle.dump(self, f, protocol)
 
-- 
2.43.0


From f8a86ddd676a3d1f925725c13ceb3beffae1a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 28/60] fix: constraining or fixing an advanced selection of a
 parameter left its values as they were

---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 9167743..e70095e 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._update_original()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -131,6 +132,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _update_original(self):
+        # see Param, for when values have to be written back to the original
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -146,6 +151,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._update_original()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index f662aa0..f49c399 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _update_original(self):
+        # advanced indexing hands out copies, which do not write through to the original
+        if not np.may_share_memory(self, self._original_):
+            self._original_[self._current_slice_] = self.values
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From 772fd6219039365bbf68f7cee73542070eb09423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 29/60] fix: a failing evaluation during a gradient check left
 the model at a shifted point

---
 paramz/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 2f8a345..9a8f843 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -315,6 +315,17 @@ class Model(Parameterized):
 
         x = self.optimizer_array.copy()
 
+        try:
+            return self._checkgrad_around(x, target_param, verbose, step, tolerance, df_tolerance)
+        except:
+            # do not leave the model at the point, where the evaluation failed
+            try:
+                self.optimizer_array = x
+            except Exception:
+                pass # the values are set, the failure to report is the first one
+            raise
+
+    def _checkgrad_around(self, x, target_param, verbose, step, tolerance, df_tolerance):
         if not verbose:
             # make sure only to test the selected parameters
             if target_param is None:
-- 
2.43.0


From dfe6e9981a22abcd5ce47e9d57838b5125fb65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 30/60] fix: linking or renaming with a name which cannot be
 used raised after half of it was done

---
 paramz/core/nameable.py | 2 ++
 paramz/parameterized.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..b5d19c5 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -69,6 +69,8 @@ class Nameable(Gradcheckable):
         """
         from_name = self.name
         assert isinstance(name, str)
+        if self.has_parent():
+            adjust_name_for_printing(name) # raises, if the name cannot be used, before anything changes
         self._name = name
         if self.has_parent():
             self._parent_._name_changed(self, from_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index b4a8e7f..7f23e98 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -145,6 +145,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 if ancestor is param:
                     raise HierarchyError("You cannot add a parameter to itself, or to one of its own children")
                 ancestor = ancestor._parent_
+            adjust_name_for_printing(param.name) # raises, if the name cannot be used, before anything changes
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 6a952b9fd309aa2bd8545370bcecbaef54764354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 31/60] fix: showing the progress of an optimization drew from
 the global random state, raised failures of the objective and stayed
 registered when the start failed

---
 paramz/optimization/verbose_optimization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..fba7b14 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -51,7 +51,7 @@ class VerboseOptimization(object):
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
             self.opt = opt
-            self.model.add_observer(self, self.print_status)
+            self._random = np.random.RandomState(0) # displaying is not to touch the global one
             self.status = 'running'
             self.clear = clear_after_finish
 
@@ -115,6 +115,8 @@ class VerboseOptimization(object):
     def __enter__(self):
         self.start = time.time()
         self._time = self.start
+        if self.verbose:
+            self.model.add_observer(self, self.print_status)
         return self
 
     def print_out(self, seconds):
@@ -169,7 +171,7 @@ class VerboseOptimization(object):
             self.model_show.value = self.model._repr_html_()
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
-            if self.iteration - self.p_iter >= 20 * np.random.rand():
+            if self.iteration - self.p_iter >= 20 * self._random.rand():
                 a = self.iteration >= self.p_iter * 2.78
                 b = np.any(n_exps < self.exps)
                 if a or b:
@@ -195,7 +197,10 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except (np.linalg.LinAlgError, ZeroDivisionError, ValueError):
+            self.fnow = np.nan # how to handle failures is up to the model
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From 2c3d19bda1eead1fe5bb2e1a1acb0628dd6a62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 32/60] fix: parallel restarts lost all results when one
 failed, ignored robust and left the pool open

---
 paramz/model.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 9a8f843..0d389cd 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -156,36 +156,36 @@ class Model(Parameterized):
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
 
-        if parallel: #pragma: no cover
-            try:
+        pool = None
+        try:
+            if parallel: #pragma: no cover
                 pool = mp.Pool(processes=num_processes)
                 obs = [self.copy() for i in range(num_restarts)]
                 [obs[i].randomize() for i in range(num_restarts-1)]
-                jobs = pool.map(opt_wrapper, [(o,kwargs) for o in obs])
+                jobs = [pool.apply_async(opt_wrapper, ((o,kwargs),)) for o in obs]
                 pool.close()
-                pool.join()
-            except KeyboardInterrupt:
-                print("Ctrl+c received, terminating and joining pool.")
+
+            for i in range(num_restarts):
+                try:
+                    if not parallel:
+                        if i > 0:
+                            self.randomize()
+                        self.optimize(**kwargs)
+                    else:#pragma: no cover
+                        self.optimization_runs.append(jobs[i].get())
+
+                    if verbose:
+                        print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
+                except Exception as e:
+                    if robust:
+                        print(("Warning - optimization restart {0}/{1} failed".format(i + 1, num_restarts)))
+                    else:
+                        raise e
+        finally:
+            if pool is not None: #pragma: no cover
                 pool.terminate()
                 pool.join()
 
-        for i in range(num_restarts):
-            try:
-                if not parallel:
-                    if i > 0:
-                        self.randomize()
-                    self.optimize(**kwargs)
-                else:#pragma: no cover
-                    self.optimization_runs.append(jobs[i])
-
-                if verbose:
-                    print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
-            except Exception as e:
-                if robust:
-                    print(("Warning - optimization restart {0}/{1} failed".format(i + 1, num_restarts)))
-                else:
-                    raise e
-
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
             f_opts = np.array([o.f_opt for o in self.optimization_runs[initial_length:]], dtype=float)
-- 
2.43.0


From 231ce7084fb6485e88df27c6c89a042caaac8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 33/60] fix: running an optimizer object again overwrote the
 records of its earlier runs

---
 paramz/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 0d389cd..244cee9 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -32,6 +32,7 @@
 #===============================================================================
 
 
+import copy
 import numpy as np
 from numpy.linalg.linalg import LinAlgError
 
@@ -102,6 +103,8 @@ class Model(Parameterized):
             optimizer = self.preferred_optimizer
 
         if isinstance(optimizer, optimization.Optimizer):
+            if any(run is optimizer for run in self.optimization_runs):
+                optimizer = copy.copy(optimizer) # the last run with it stays on record as it is
             opt = optimizer
             opt.model = self
         else:
-- 
2.43.0


From bb5f9b9360fe2527be14f472aff711df58869784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 34/60] fix: runs which ended without progress (tnc) or in nan
 (bfgs) failed looking up their status

---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..b2a2217 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,7 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress', 'User aborted']
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +141,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From 1f0801640876f018f7bb93700e7aea9e1e42a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 35/60] fix: the inverse of NegativeExponent was not the
 inverse, so reading and setting back the optimizer array changed values

---
 paramz/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index b935107..ac7a4d4 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -167,7 +167,7 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
         return Exponent.gradfactor(self, f, df)
     def initialize(self, f):
-- 
2.43.0


From 15104737564f1362296ca141317a1f9b61b7603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 36/60] fix: linking a parameter below the root of a deep
 hierarchy destroyed its values and gradients

---
 paramz/core/parameter_core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 085d5a3..8679047 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -294,13 +294,18 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # children first, so that pi holds their values
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
+            parray[pislice] = pi.param_array.flat
+            garray[pislice] = pi.gradient_full.flat
+
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From b4ba138ab984abe2d5ffb591fc70eb0c48519a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 37/60] fix: parameters linked below the root got no attribute
 and kept colliding names; linking there during construction failed

---
 paramz/core/parameter_core.py | 9 +++++++++
 paramz/parameterized.py       | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 8679047..1e50577 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -348,6 +348,7 @@ class Parameterizable(OptimizationHandlable):
         #logger.debug("connecting parameters")
         self._highest_parent_._notify_parent_change()
         self._highest_parent_._connect_parameters() #logger.debug("calling parameters changed")
+        self._highest_parent_._connect_names()
         self._highest_parent_._connect_fixes()
         self.trigger_update()
 
@@ -460,6 +461,14 @@ class Parameterizable(OptimizationHandlable):
     def num_params(self):
         return len(self.parameters)
 
+    def _connect_names(self):
+        """
+        Make the names of all parameters in this hierarchy available as attributes of their parents
+        """
+        if any(self.__dict__.get(adjust_name_for_printing(p.name)) is not p for p in self.parameters):
+            [self._add_parameter_name(p) for p in self.parameters]
+        [p._connect_names() for p in self.parameters]
+
     def _add_parameter_name(self, param):
         try:
             pname = adjust_name_for_printing(param.name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 7f23e98..8ace9e2 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -113,6 +113,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False
+
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
@@ -187,6 +189,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 #self._notify_parent_change()
 
                 self._highest_parent_._connect_parameters()
+                self._highest_parent_._connect_names()
                 self._highest_parent_._notify_parent_change()
                 self._highest_parent_._connect_fixes()
             return param
-- 
2.43.0


From 06761fb8029047fced9497f329df007e5d672181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 38/60] fix: a parameters_changed raising while constraining
 left moved values under the old constraint

---
 paramz/core/constrainable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index e70095e..3ffcbc1 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -150,14 +150,16 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
-            self.param_array[...] = transform.initialize(self.param_array)
-            self._update_original()
+            initialized = transform.initialize(self.param_array)
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
             raise ValueError('Can only constrain with paramz.transformations.Transformation object')
         reconstrained = self.unconstrain()
         added = self._add_to_index_operations(self.constraints, reconstrained, transform, warning)
+        # writing the values notifies observers, who find values and constraints in agreement
+        self.param_array[...] = initialized
+        self._update_original()
         self.trigger_update(trigger_parent)
         return added
 
-- 
2.43.0


From 91124f01ff11c528ec7080a31d595ed9c1814a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 39/60] fix: a parameter unlinked as the last one shared its
 memory with the next one linked

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 8ace9e2..32ba783 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -245,7 +245,9 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._model_initialized_ = True
         
         if not hasattr(self, "parameters") or len(self.parameters) < 1:
-            # no parameters for this class
+            # no parameters for this class, and whoever was unlinked keeps its memory for itself
+            self._param_array_ = np.empty(0, dtype=np.float64)
+            self._gradient_array_ = np.empty(0, dtype=np.float64)
             return
 
         old_size = 0
-- 
2.43.0


From 05a0dbeb85dce4c319c552b426f8ac2ee68dd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 40/60] fix: a parameters_changed raising while constraining an
 advanced selection lost the moved values

---
 paramz/core/constrainable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 3ffcbc1..c578d5b 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -158,8 +158,10 @@ class Constrainable(Indexable):
         reconstrained = self.unconstrain()
         added = self._add_to_index_operations(self.constraints, reconstrained, transform, warning)
         # writing the values notifies observers, who find values and constraints in agreement
-        self.param_array[...] = initialized
-        self._update_original()
+        try:
+            self.param_array[...] = initialized
+        finally:
+            self._update_original()
         self.trigger_update(trigger_parent)
         return added
 
-- 
2.43.0


From 973937d892177d70f61a0508e32157c4a6c234d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 41/60] fix: registering a callback bound to the observer kept
 the observer alive

---
 paramz/core/lists_and_dicts.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index f4b7785..326aa72 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -29,6 +29,7 @@
 #===============================================================================
 
 from collections import defaultdict
+from types import MethodType
 import weakref
 
 def intarray_default_factory():
@@ -71,9 +72,17 @@ class ObserverList(object):
     def __init__(self):
         self._poc = []
 
+    @staticmethod
+    def _resolve(poc):
+        # a callable bound to the observer itself is only held unbound, see add
+        p, o, (c, bound) = poc
+        o = o()
+        if bound:
+            c = MethodType(c, o) if o is not None else None
+        return p, o, c
+
     def __getitem__(self, ind):
-        p,o,c = self._poc[ind]
-        return p, o(), c
+        return self._resolve(self._poc[ind])
 
     def remove(self, priority, observer, callble):
         """
@@ -98,7 +107,9 @@ class ObserverList(object):
             if priority > pr:
                 break
             ins += 1
-        self._poc.insert(ins, (priority, weakref.ref(observer), callble))
+        # a callable bound to the observer would keep it alive
+        bound = isinstance(callble, MethodType) and callble.__self__ is observer
+        self._poc.insert(ins, (priority, weakref.ref(observer), (callble.__func__ if bound else callble, bound)))
 
     def __str__(self):
         from ..param import Param
@@ -134,8 +145,10 @@ class ObserverList(object):
 
     def __iter__(self):
         self.flush()
-        for p, o, c in self._poc:
-            yield p, o(), c
+        for poc in self._poc:
+            p, o, c = self._resolve(poc)
+            if o is not None: # it may have died since the iteration started
+                yield p, o, c
 
     def __len__(self):
         self.flush()
-- 
2.43.0


From c17a80864167e6714c57c9f8035f0519a7099f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 42/60] fix: a failing objective made the progress display fail
 runs which did not ask for the objective

---
 paramz/optimization/verbose_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index fba7b14..244efd8 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -199,8 +199,8 @@ class VerboseOptimization(object):
     def update(self):
         try:
             self.fnow = self.model.objective_function()
-        except (np.linalg.LinAlgError, ZeroDivisionError, ValueError):
-            self.fnow = np.nan # how to handle failures is up to the model
+        except Exception:
+            self.fnow = np.nan # how to handle failures is up to the model and its optimizer
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From 01da88c3e4f27991f979fecd09011a44ff14e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 43/60] fix: failures of objective_function_gradients were not
 absorbed while optimizing

---
 paramz/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 244cee9..a78274c 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -251,7 +251,7 @@ class Model(Parameterized):
             if self._fail_count >= self._allowed_failures:
                 raise
             self._fail_count += 1
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e100, 1e100)
+            self.obj_grads = np.clip(self._gradients_after_failure(), -1e100, 1e100)
         return self.obj_grads
 
     def _objective(self, x):
@@ -287,9 +287,17 @@ class Model(Parameterized):
                 raise
             self._fail_count += 1
             obj_f = np.inf
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e10, 1e10)
+            self.obj_grads = np.clip(self._gradients_after_failure(), -1e10, 1e10)
         return obj_f, self.obj_grads
 
+    def _gradients_after_failure(self):
+        # the gradients may be, what failed: then take the ones stored last
+        try:
+            grads = self.objective_function_gradients()
+        except (LinAlgError, ZeroDivisionError, ValueError):
+            grads = self.gradient
+        return self._transform_gradients(grads)
+
     def _checkgrad(self, target_param=None, verbose=False, step=1e-6, tolerance=1e-3, df_tolerance=1e-12):
         """
         Check the gradient of the ,odel by comparing to a numerical
-- 
2.43.0


From 743625fefcc5e007b9f40d628d2073032288e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 44/60] fix: the global gradient check accepted a gradient of
 zero whatever the slope

---
 paramz/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index a78274c..ddca18f 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -362,7 +362,9 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            # a gradient of zero is right, if the slope is (up to what can be told from differences)
+            slope_tolerance = 2 * step * tolerance * max(1, transformed_index.size) + 1e-14 * (np.abs(f1) + np.abs(f2))
+            global_diff = np.abs(f1 - f2) < slope_tolerance and np.allclose(gradient, 0, atol=tolerance)
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From e02b77524b30c33e03b367314a84add44ff999d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 45/60] fix: a restart ending in NaN was chosen over one ending
 at infinity

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index ddca18f..b6753f4 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -192,7 +192,7 @@ class Model(Parameterized):
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
             f_opts = np.array([o.f_opt for o in self.optimization_runs[initial_length:]], dtype=float)
-            i = np.argmin(np.where(np.isnan(f_opts), np.inf, f_opts))
+            i = np.lexsort((f_opts, np.isnan(f_opts)))[0] # NaN is worse than anything
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From a59481d590a4f0291d77e2d3e98692f07a5aa1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 46/60] fix: the simplex optimizer reported NaN for a proper
 optimum

---
 paramz/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index b2a2217..4b0dacd 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -182,7 +182,7 @@ class opt_simplex(Optimizer):
                    maxfun=self.max_f_eval, full_output=True, **opt_dict)
 
         self.x_opt = opt_result[0]
-        self.f_opt = opt_result[1]
+        self.f_opt = f(self.x_opt) # scipy reports the minimum of all vertices, which is NaN if any is
         self.funct_eval = opt_result[3]
         self.status = statuses[opt_result[4]]
         self.trace = None
-- 
2.43.0


From 3d5badc5da6f72e79b7c92294a15f93c926b6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 47/60] fix: a subclass of Logistic could be handed the
 Logistic with the same bounds

---
 paramz/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index ac7a4d4..b89567c 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -197,7 +197,8 @@ class Logistic(Transformation):
                 cls._instances[:] = [instance for instance in cls._instances if instance()]
                 for instance in cls._instances:
                     o = instance() # keep it alive while we look at it
-                    if o is not None and o.lower == lower and o.upper == upper:
+                    # subclasses share this list
+                    if o is not None and type(o) is cls and o.lower == lower and o.upper == upper:
                         return o
             newfunc = super(Transformation, cls).__new__
             if newfunc is object.__new__:
-- 
2.43.0


From bc1f04426864e17671a3dc7f148a74e66eae02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 48/60] fix: bounds given as fractions never matched the
 constraint in use for them

---
 paramz/transformations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index b89567c..1d42471 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -192,6 +192,8 @@ class Logistic(Transformation):
     domain = _BOUNDED
     _instances = []
     def __new__(cls, lower=1e-6, upper=1e-6, *args, **kwargs):
+        # compare the bounds as what they are stored as
+        lower, upper = float(lower), float(upper)
         with _instances_lock:
             if cls._instances:
                 cls._instances[:] = [instance for instance in cls._instances if instance()]
@@ -207,7 +209,7 @@ class Logistic(Transformation):
                 o = newfunc(cls, lower, upper, *args, **kwargs)
             if lower < upper:
                 # only share complete instances, __init__ rejects all others
-                o.lower, o.upper = float(lower), float(upper)
+                o.lower, o.upper = lower, upper
                 cls._instances.append(weakref.ref(o))
             return o
     def __init__(self, lower, upper):
-- 
2.43.0


From 8651c554b5b7663c3dd7bfb111737928355595f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 49/60] fix: scaled conjugate gradients evaluated NaN until its
 last iteration when the start has a zero gradient

---
 paramz/optimization/scg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/optimization/scg.py b/paramz/optimization/scg.py
index be8de76..d1b6337 100644
--- a/paramz/optimization/scg.py
+++ b/paramz/optimization/scg.py
@@ -94,6 +94,10 @@ def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, fto
                 d = -gradnew
                 mu = np.dot(d, gradnew)
             kappa = np.dot(d, d)
+            if kappa == 0:
+                # no direction to go, all further points would be NaN
+                status = 'converged - relative reduction in gradient'
+                break
             sigma = sigma0 / np.sqrt(kappa)
             xplus = x + sigma * d
             gplus = gradf(xplus, *optargs)
-- 
2.43.0


From 9b7079135f28dcca9fdf828b3054f23b9a1f4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 50/60] fix: in-place matrix multiplication of an observable
 array notifies its observers

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..4527a6a 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,9 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        np.ndarray.__imatmul__(self, *args, **kwargs) # gives back a plain array
+        self.notify_observers()
+        return self
-- 
2.43.0


From 003f48a55fc849748a6e9998c7f50fa649148202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 51/60] fix: a parameter named like an attribute of its parent
 does not take over assignments to that attribute

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 32ba783..6e6444f 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -348,7 +348,9 @@ If you are loading a model, set updates off, then initialize, then set the value
             pnames = self.parameter_names(False, adjust_for_printing=True, recursive=False)
             if name in pnames:
                 param = self.parameters[pnames.index(name)]
-                param[:] = val; return
+                # an attribute of our own stays one, if a parameter happens to have its name
+                if self.__dict__.get(name, param) is param and not isinstance(getattr(type(self), name, None), property):
+                    param[:] = val; return
         return object.__setattr__(self, name, val)
 
     #===========================================================================
-- 
2.43.0


From d36bceb388374fe0decf2ce3b7921433a14867ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 52/60] fix: siblings whose names only differ until converted
 to identifiers get different names too

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 1e50577..bc6d9a9 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -490,7 +490,7 @@ class Parameterizable(OptimizationHandlable):
                 self._add_parameter_name(param)
             # and makes sure to not delete programmatically added parameters
             for other in self.parameters:
-                if (not (other is param)) and (other.name == param.name):
+                if (not (other is param)) and (adjust_name_for_printing(other.name) == pname):
                     return warn_and_retry(other, _name_digit.match(other.name))
             if pname not in dir(self):
                 self.__dict__[pname] = param
-- 
2.43.0


From a3cc504f35d63deb7b49e1f948deb528483157c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 53/60] fix: objects with a parameter named like one of their
 own attributes can be copied and loaded

---
 paramz/core/parameter_core.py | 2 +-
 paramz/core/pickleable.py     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index bc6d9a9..ec0a37a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -521,7 +521,7 @@ class Parameterizable(OptimizationHandlable):
 
     def __setstate__(self, state):
         super(Parameterizable, self).__setstate__(state)
-        self.logger = logging.getLogger(self.__class__.__name__)
+        self.__dict__['logger'] = logging.getLogger(self.__class__.__name__)
         return self
 
     #===========================================================================
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index 81b3e1d..0e698c2 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -123,8 +123,9 @@ class Pickleable(object):
         self.__dict__.update(state)
         from .lists_and_dicts import ObserverList
         from ..caching import FunctionCache
-        self.observers = ObserverList()
+        # not by attribute, as a parameter may happen to have one of these names
+        self.__dict__['observers'] = ObserverList()
         if 'cache' not in self.__dict__: # copied cachers register here already
-            self.cache = FunctionCache()
+            self.__dict__['cache'] = FunctionCache()
         self._setup_observers()
         self._optimizer_copy_transformed = False
-- 
2.43.0


From 32ec82d9138d889443b0ae634df5524fd1a9a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 54/60] fix: climin-backed optimizers record the objective at
 the point they end at

---
 paramz/optimization/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 4b0dacd..d29448c 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -270,6 +270,8 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt) if f is not None else f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -306,6 +308,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt) if f is not None else f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -348,6 +352,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt) if f is not None else f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From a0c63f73786b78556fa037a4eb36c8971daf9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 55/60] fix: a failed HDF5 export closes its file and says what
 failed

---
 paramz/core/parameter_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index ec0a37a..9c7371c 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -589,6 +589,7 @@ class Parameterizable(OptimizationHandlable):
         self.traverse(gather_params, plist)
         names = self.parameter_names(adjust_for_printing=True)
         if ftype=='HDF5':
+            f = None
             try:
                 import h5py
                 f = h5py.File(filename,'w')
@@ -601,6 +602,9 @@ class Parameterizable(OptimizationHandlable):
                     d = f.create_dataset('param_array',self.param_array.shape, dtype=self.param_array.dtype)
                     d[:] = self.param_array
                 f.close()
-            except:
-                raise 'Fails to write the parameters into a HDF5 file!'
+            except Exception:
+                raise IOError('Fails to write the parameters into a HDF5 file!')
+            finally:
+                if f is not None:
+                    f.close()
 
-- 
2.43.0


From 49d062841eb0ad4619e9faf375a791ad12182a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 56/60] fix: the notebook display does not raise when the run
 or an evaluation failed

---
 paramz/optimization/verbose_optimization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 244efd8..4b6ac89 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -147,7 +147,7 @@ class VerboseOptimization(object):
                           ['objective', "{: > 12.3E}".format(self.fnow)],
                           ['||gradient||',
                               "{: >+12.3E}".format(float(self.current_gradient))],
-                          ['status', "{:s}".format(self.status)],
+                          ['status', "{!s:s}".format(self.status)], # None if it failed
                           ]
             #message = "Lik:{:5.3E} Grad:{:5.3E} Lik:{:5.3E} Len:{!s}".format(float(m.log_likelihood()), np.einsum('i,i->', grads, grads), float(m.likelihood.variance), " ".join(["{:3.2E}".format(l) for l in m.kern.lengthscale.values]))
             html_begin = """<style type="text/css">
@@ -168,7 +168,10 @@ class VerboseOptimization(object):
             self.text.value = html_begin + html_body + html_end
             self.progress.value = (self.iteration+1)
             #self.progresstext.value = '0/{}'.format((self.iteration+1))
-            self.model_show.value = self.model._repr_html_()
+            try:
+                self.model_show.value = self.model._repr_html_()
+            except Exception:
+                pass # as in update
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
             if self.iteration - self.p_iter >= 20 * self._random.rand():
@@ -227,7 +230,7 @@ class VerboseOptimization(object):
             elif self.clear:  # pragma: no cover
                 self.hor_align.close()
             else:  # pragma: no cover
-                if 'conv' in self.status.lower():
+                if 'conv' in str(self.status).lower():
                     self.progress.bar_style = 'success'
                 elif self.iteration >= self.maxiters:
                     self.progress.bar_style = 'warning'
-- 
2.43.0


From 7406cac9579a6a33bf19f0ccbe1d9858196c92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 57/60] fix: the verbose gradient check does not divide by an
 objective of zero

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index b6753f4..45a0ce0 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -406,7 +406,7 @@ class Model(Parameterized):
                 #Avoid divide by zero, if any of the values are above 1e-15, otherwise both values are essentiall
                 #the same
                 if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or f2 < -1e-15:
-                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
+                    df_ratio = np.abs((f1 - f2) / (min(f1, f2) or max(f1, f2))) # one of them may be zero
                 else: # pragma: no cover
                     df_ratio = 1.0
                 df_unstable = df_ratio < df_tolerance
-- 
2.43.0


From 5bc141baf727dfa66fce88ca434ddb83dcc985a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 58/60] fix: partial reads of a multi-parameter selection
 ignored the order and repetition of the index

---
 paramz/param.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index f49c399..44ad5a5 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -435,10 +435,7 @@ class ParamConcatenation(object):
     # Get/set items, enable broadcasting
     #===========================================================================
     def __getitem__(self, s):
-        ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
-        if len(params)==1: return params[0]
-        return np.hstack(params) if params else np.empty(0)
+        return np.atleast_1d(self.values()[s])
 
     def __setitem__(self, s, val):
         if isinstance(val, ParamConcatenation):
-- 
2.43.0


From 4c83c58705b4c94d7d18c8221c5f48f36dbf8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 59/60] fix: the progress display failed the optimization, if
 numpy is set to raise floating point errors

---
 paramz/optimization/verbose_optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 4b6ac89..f4d48c1 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -37,7 +37,8 @@ import time
 def exponents(fnow, current_grad):
     exps = [np.abs(float(fnow)),
             1 if current_grad is np.nan else current_grad]
-    return np.sign(exps) * np.log10(exps).astype(int)
+    with np.errstate(all='ignore'): # whatever the values are, displaying them is not to fail
+        return np.sign(exps) * np.log10(exps).astype(int)
 
 
 class VerboseOptimization(object):
@@ -206,7 +207,8 @@ class VerboseOptimization(object):
             self.fnow = np.nan # how to handle failures is up to the model and its optimizer
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
-            self.current_gradient = np.dot(grad, grad)
+            with np.errstate(all='ignore'):
+                self.current_gradient = np.dot(grad, grad)
         else:
             self.current_gradient = np.nan
 
-- 
2.43.0


From df164e5ded6a4bcb7131de8b7a4153724adc3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 60/60] fix: a terminal closed during an optimization turned
 the objective into infinity

---
 paramz/optimization/verbose_optimization.py | 26 +++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index f4d48c1..a6d92c2 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -195,7 +195,10 @@ class VerboseOptimization(object):
         seconds = t-self.start
         #sys.stdout.write(" "*len(self.message))
         if t-self._time > 1. or seconds < .2:
-            self.print_out(seconds)
+            try:
+                self.print_out(seconds)
+            except (IOError, ValueError):
+                pass # nowhere to print to (ValueError, if it is closed), which is no failure of the model
             self._time = t
 
         self.iteration += 1
@@ -222,16 +225,19 @@ class VerboseOptimization(object):
 
             self.stop = time.time()
             self.model.remove_observer(self)
-            self.print_out(self.stop - self.start)
-
-            if not self.ipython_notebook:
-                print()
-                print('Runtime: {}'.format("{:>9s}".format(self.timestring)))
-                print('Optimization status: {0}'.format(self.status))
-                print()
-            elif self.clear:  # pragma: no cover
+            try:
+                self.print_out(self.stop - self.start)
+                if not self.ipython_notebook:
+                    print()
+                    print('Runtime: {}'.format("{:>9s}".format(self.timestring)))
+                    print('Optimization status: {0}'.format(self.status))
+                    print()
+            except (IOError, ValueError):
+                pass # as in print_status
+
+            if self.ipython_notebook and self.clear:  # pragma: no cover
                 self.hor_align.close()
-            else:  # pragma: no cover
+            elif self.ipython_notebook:  # pragma: no cover
                 if 'conv' in str(self.status).lower():
                     self.progress.bar_style = 'success'
                 elif self.iteration >= self.maxiters:
-- 
2.43.0

