From 951f26408a336876920abdf6644f251157096ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 01/41] fix: NegativeExponent inverse, gradient factor and log
 jacobian had the wrong sign

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..94ab9a1 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,9 +160,11 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, f, df)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
     def __str__(self):
-- 
2.43.0


From 012809e2931276fdacb9f71d3bce8d774ef25677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 02/41] fix: a Logistic with invalid bounds broke the
 construction of the next Logistic

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 94ab9a1..f59e7ae 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -190,8 +190,10 @@ class Logistic(Transformation):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
-                    return instance()
+                instance = instance()
+                # skip instances, whose initialization failed (or has not happened yet)
+                if getattr(instance, 'lower', None) == lower and getattr(instance, 'upper', None) == upper:
+                    return instance
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
             o = newfunc(cls)
-- 
2.43.0


From dca4aa5b230327941f611e7917db238fda172dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 03/41] fix: unpickled Logistic was not the instance for its
 bounds, so unconstrain_bounded ignored it

---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f59e7ae..d9d2f1a 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -205,6 +205,9 @@ class Logistic(Transformation):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
         self.difference = self.upper - self.lower
+    def __reduce__(self):
+        # make sure, that loading gives back the one instance for these bounds
+        return self.__class__, (self.lower, self.upper), self.__dict__
     def f(self, x):
         if (x<-300.).any():
             x = x.copy()
-- 
2.43.0


From 708b01d35e9698f36625e6a72f5bfd46286892e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 04/41] fix: ParamConcatenation only updated the parents on the
 first change

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..29992d7 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,7 +423,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = [x[0] for x in sorted(parents.items(), key=operator.itemgetter(1))]
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From 2acb69b32504de49fc71a39c289c0f6e9b57ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 05/41] fix: ParamConcatenation wrote the wrong values when
 setting part of a parameter

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 29992d7..f6baefc 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From 41e64fa8457dbede808d092f2b13cb6179c6bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 06/41] fix: ParamConcatenation dropped selected entries when
 all of them are zero

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index f6baefc..c23cf5a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -429,7 +429,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From 962f2f417c9d0ee1a8ad1d2076487d785ec2bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/41] fix: _transform_gradients transformed the live gradient
 of the model in place

---
 paramz/core/parameter_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..dc83c42 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -143,8 +143,9 @@ class OptimizationHandlable(Constrainable):
     def _transform_gradients(self, g):
         """
         Transform the gradients by multiplying the gradient factor for each
-        constraint to it.
+        constraint to it. The gradient handed in is left untouched.
         """
+        g = np.array(g)
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-- 
2.43.0


From 7ac97293ab5d6363221d41beee0d25fbbaefc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 08/41] fix: optimizer_array of multidimensional Param indexed
 the first axis with flat indices

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index dc83c42..0f01b5b 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -84,7 +84,7 @@ class OptimizationHandlable(Constrainable):
             self._optimizer_copy_.flat = self.param_array.flat
             #py3 fix
             #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
             self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
-- 
2.43.0


From 9d49ff3e61684bd03853758616f77253a5d1940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 09/41] fix: optimizer_array and parameter_names_flat of
 non-root nodes used a stale or missing fixed mask

---
 paramz/core/constrainable.py  | 4 +++-
 paramz/core/parameter_core.py | 1 +
 paramz/param.py               | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..9aac652 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -86,7 +86,9 @@ class Constrainable(Indexable):
         # Ensure that the fixes array is set:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
+        # Only the highest parent gets told about changes in the fixes,
+        # so everyone else has to look them up
+        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size) or self.has_parent():
             self._fixes_ = np.ones(self.size, dtype=bool)
             self._fixes_[self.constraints[__fixed__]] = FIXED
 
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0f01b5b..b94968d 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -220,6 +220,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
diff --git a/paramz/param.py b/paramz/param.py
index c23cf5a..cbba71b 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -32,6 +32,7 @@ import numpy as np
 from .core.parameter_core import Parameterizable, adjust_name_for_printing
 from .core.observable_array import ObsAr
 from .core.pickleable import Pickleable
+from .transformations import __fixed__, FIXED
 from functools import reduce
 from collections import OrderedDict
 
@@ -182,7 +183,8 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From 0307d2c033c16553d08d70c08b8988722dadf80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 10/41] fix: unconstraining a fixed parameter of a loaded model
 left it out of the optimizer array

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..492d59a 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -264,7 +264,7 @@ class Indexable(Nameable, Updateable):
         for t in list(transforms):
             unconstrained = which.remove(t, self._raveled_index())
             removed = np.union1d(removed, unconstrained)
-            if t is __fixed__:
+            if t == __fixed__:
                 self._highest_parent_._set_unfixed(self, unconstrained)
 
         return removed
\ No newline at end of file
-- 
2.43.0


From c0114c0b9eb9ca0d9def8b1727865f02eb15b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 11/41] fix: index of a ParamConcatenation handed a generator
 to np.hstack

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 492d59a..3b79dfa 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From 80e46b018821e81ec727ec768c46f431f43c433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 12/41] fix: optimize_restarts chose a run with objective nan
 as the best one

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..3d62a70 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,8 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            # a run which ended in nan is never the best one
+            i = np.argmin([np.inf if np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]])
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From 62d030d2ebd577748fe567a88c5663da13c6aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 13/41] fix: adjust_name_for_printing accepted names with a
 trailing newline

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..da9dca2 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -41,7 +41,7 @@ def adjust_name_for_printing(name):
         name = name.replace("**", "_xx_").replace("*", "_x_")
         name = name.replace("/", "_l_").replace("@", '_at_')
         name = name.replace("(", "_of_").replace(")", "")
-        if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*$', name) is None:
+        if re.match(r'^[a-zA-Z_][a-zA-Z0-9_]*\Z', name) is None:
             raise NameError("name {} converted to {} cannot be further converted to valid python variable name!".format(name2, name))
         return name
     return ''
-- 
2.43.0


From 19aa9531f5eda51b6e4ff078a9f3c1d736ad64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 14/41] fix: Cacher returned the result of a call with
 different keyword names

---
 paramz/caching.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..5ae6414 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -35,10 +35,14 @@ import collections, weakref
 from functools import reduce
 from pickle import PickleError
 from decorator import decorate  # @UnresolvedImport
+from six.moves import intern
 
 from .core.observable import Observable
 from numbers import Number
 
+# marks the start of the names of the keyword arguments in the combined inputs of a Cacher
+_kw_names = ''.join(['keyword', ' ', 'names'])
+
 class Cacher(object):
     def __init__(self, operation, limit=3, ignore_args=(), force_kwargs=(), cacher_enabled=True):
         """
@@ -91,7 +95,12 @@ class Cacher(object):
         "Combines the args and kw in a unique way, such that ordering of kwargs does not lead to recompute"
         inputs= args + tuple(c[1] for c in sorted(kw.items(), key=lambda x: x[0]))
         # REMOVE the ignored arguments from input and PREVENT it from being checked!!!
-        return [a for i,a in enumerate(inputs) if i not in ignore_args]
+        combined = [a for i,a in enumerate(inputs) if i not in ignore_args]
+        if kw:
+            # the names have to be part of the inputs, as the same values can be passed under different names
+            combined.append(_kw_names)
+            combined.extend(intern(name) for name in sorted(kw))
+        return combined
 
     def prepare_cache_id(self, combined_args_kw):
         "get the cacheid (conc. string of argument self.ids in order)"
-- 
2.43.0


From 33ed5cfaf4fddd77f2164dddd764cbca1cd514e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 15/41] fix: Cacher missed changes made to, or through, a view
 on an observable array

---
 paramz/caching.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 5ae6414..56274a7 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -36,6 +36,7 @@ from functools import reduce
 from pickle import PickleError
 from decorator import decorate  # @UnresolvedImport
 from six.moves import intern
+import numpy as np
 
 from .core.observable import Observable
 from numbers import Number
@@ -119,8 +120,10 @@ class Cacher(object):
                 if tmp is not None:
                     ref, cache_ids = tmp
                     if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        # views share their observers, so keep listening for the ones still cached
+                        if not any(r().observers is ref().observers for r, _ in self.cached_input_ids.values()):
+                            ref().remove_observer(self, self.on_cache_changed)
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
@@ -207,10 +210,12 @@ class Cacher(object):
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
         for what in [direct, which]:
-            ind_id = self.id(what)
-            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-            for cache_id in cache_ids:
-                self.inputs_changed[cache_id] = True
+            for ref, cache_ids in self.cached_input_ids.values():
+                obj = ref()
+                # changing an array changes all the views on its memory as well
+                if obj is what or (isinstance(obj, np.ndarray) and isinstance(what, np.ndarray) and np.may_share_memory(obj, what)):
+                    for cache_id in cache_ids:
+                        self.inputs_changed[cache_id] = True
 
     def reset(self):
         """
-- 
2.43.0


From b88af9b0dbd2c787afc73b9cc558e3ba852af441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 16/41] fix: removing an observer failed when an array was
 observing with the same priority

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From 0105d5d6b0ea1389d92061ba11ab24c2a64f3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 17/41] fix: link_parameter with an index beyond the last
 parameter left the hierarchy broken

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..f9040ba 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -161,7 +161,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = len(self.parameters[:index])
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From a005b4dd714e6949a7787a616990422fe7ade4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 18/41] fix: an exception during a traversal (e.g. a refused
 link) hid nodes from all later traversals

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index b94968d..6c9bb16 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -386,8 +386,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -407,9 +409,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From d084e7c9097ab1c3ca291d8fbb382a23f981f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 19/41] fix: constraining or fixing an advanced index of a
 Param left the values of the Param as they were

---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 9aac652..31f0a84 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._write_through()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -133,6 +134,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _write_through(self):
+        # Make sure the values just set end up in the parameter, see Param
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -148,6 +153,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._write_through()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index cbba71b..fd3bb40 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _write_through(self):
+        # advanced indexing gives a copy of the values, write them back to the original
+        if not np.may_share_memory(self, self._original_):
+            self._original_[self._current_slice_] = self.view(np.ndarray)
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From 8950f0c229332b46fa92bbcd56e8c280f15d8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 20/41] fix: switching updates on from a sub node left the rest
 of the hierarchy out of date

---
 paramz/core/updateable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..40c7fb1 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,8 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        # the updates were off for the whole hierarchy, so all of it needs updating
+        p.trigger_update()
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From 8448eb869a4cb2e821f1e79807ea48d9a7b7825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 21/41] fix: checkgrad accepted any gradient reported as zero
 and failed if the right one cancels along dx

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 3d62a70..5c918a7 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -335,7 +335,8 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            # difference between numerical and analytical gradient along dx
+            global_diff = np.abs(f1 - f2 - denominator) < 2 * step * tolerance
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From 02d0be58ae504ed5321bcaabcd878b1c1bf2e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 22/41] fix: optimizer_array returned values from before the
 last change of parameters or constraints

---
 paramz/core/parameter_core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 6c9bb16..def5d7f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,12 +80,13 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # Always start from the current values and constraints, as not every
+        # change to them is announced to us (e.g. unconstraining)
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
-- 
2.43.0


From e30bb70733108de1286a22d525014d4c5ffd9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 23/41] fix: linking a node below itself never returned

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index f9040ba..cdfaa08 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            parent = self
+            while parent is not None:
+                if parent is param:
+                    raise HierarchyError("You cannot add a parameter below itself in the hierarchy")
+                parent = parent._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From aafb80988be62b48fe5aab7ea84377474fa921af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 24/41] fix: an indexed part of a ParamConcatenation stood for
 its whole parameters, handles on advanced indices used old values

---
 paramz/core/constrainable.py |  5 +++++
 paramz/param.py              | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 31f0a84..1eb7c80 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -134,6 +134,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _read_through(self):
+        # Make sure we work on the current values of the parameter, see Param
+        pass
+
     def _write_through(self):
         # Make sure the values just set end up in the parameter, see Param
         pass
@@ -152,6 +156,7 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
+            self._read_through()
             self.param_array[...] = transform.initialize(self.param_array)
             self._write_through()
         elif transform == __fixed__:
diff --git a/paramz/param.py b/paramz/param.py
index fd3bb40..466f441 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _read_through(self):
+        # advanced indexing gives a copy of the values, get the current ones from the original
+        if not np.may_share_memory(self, self._original_):
+            self.view(np.ndarray)[...] = self._original_.view(np.ndarray)[self._current_slice_]
+
     def _write_through(self):
         # advanced indexing gives a copy of the values, write them back to the original
         if not np.may_share_memory(self, self._original_):
@@ -436,7 +441,8 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
+        # index the parameters themselves, such that the result knows which of the entries it stands for
+        params = [p[np.unravel_index(np.flatnonzero(ind[ps]), p.shape)] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
@@ -447,9 +453,11 @@ class ParamConcatenation(object):
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
             p.flat[ind[ps]] = vals[ps][ind[ps]]
+            p._write_through()
         self.update_all_params()
 
     def values(self):
+        [p._read_through() for p in self.params]
         return np.hstack([p.param_array.flat for p in self.params])
     #===========================================================================
     # parameter operations:
-- 
2.43.0


From 6392699f2118381d736556756b9da996845ebfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 25/41] fix: linking a parameter below the second level of a
 hierarchy lost the values of other parameters

---
 paramz/core/parameter_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index def5d7f..a2bd0a3 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -287,13 +287,15 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # propagate first, so that the array of pi is filled from its children
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From d3efdcff8c3406a0cc414836462026ab2ac150b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 26/41] fix: parameters linked to an inner node were not
 reachable by name and kept clashing names

---
 paramz/core/parameter_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index a2bd0a3..233f186 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -283,6 +283,10 @@ class OptimizationHandlable(Constrainable):
         #if self.gradient.size != self.size:
         #    self._gradient_array_ = np.empty(self.size, dtype=np.float64)
 
+        # the highest parent only takes care of the names of its own parameters
+        for pi in list(self.parameters):
+            self._add_parameter_name(pi)
+
         pi_old_size = 0
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
-- 
2.43.0


From 655acf6a1345fbb7c7bcacb32b1770caaa85b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 27/41] fix: optimize_restarts failed with an IndexError if
 there is nothing to optimize

---
 paramz/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 5c918a7..6a3acc7 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -148,6 +148,10 @@ class Model(Parameterized):
             on the current machine.
 
         """
+        if self.is_fixed or self.size == 0:
+            print('nothing to optimize')
+            return self.optimization_runs
+
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
 
-- 
2.43.0


From 8b8d45c6baf1911760b445155c11333d3ba4d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 28/41] fix: optimize_restarts with an optimizer object ended
 at the last instead of the best restart

---
 paramz/model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 6a3acc7..e1710c8 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -152,7 +152,7 @@ class Model(Parameterized):
             print('nothing to optimize')
             return self.optimization_runs
 
-        initial_length = len(self.optimization_runs)
+        results = [] # (f_opt, x_opt) per successful restart, restarts can share one optimizer object
         initial_parameters = self.optimizer_array.copy()
 
         if parallel: #pragma: no cover
@@ -176,20 +176,22 @@ class Model(Parameterized):
                     self.optimize(**kwargs)
                 else:#pragma: no cover
                     self.optimization_runs.append(jobs[i])
+                run = self.optimization_runs[-1]
+                results.append((run.f_opt, np.array(run.x_opt)))
 
                 if verbose:
-                    print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
+                    print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, run.f_opt)))
             except Exception as e:
                 if robust:
                     print(("Warning - optimization restart {0}/{1} failed".format(i + 1, num_restarts)))
                 else:
                     raise e
 
-        if len(self.optimization_runs) > initial_length:
-            # This works, since failed jobs don't get added to the optimization_runs.
+        if results:
+            # failed jobs don't get added to the results.
             # a run which ended in nan is never the best one
-            i = np.argmin([np.inf if np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]])
-            self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
+            i = np.argmin([np.inf if np.isnan(f_opt) else f_opt for f_opt, _ in results])
+            self.optimizer_array = results[i][1]
         else:
             self.optimizer_array = initial_parameters
         return self.optimization_runs
-- 
2.43.0


From 0a276f130d6bfaf228a4e4e4207d88308f151969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 29/41] fix: the in-place matrix product did not notify the
 observers of an observable array

---
 paramz/core/observable_array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..29a59e7 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,10 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    if hasattr(np.ndarray, '__imatmul__'): # numpy >= 1.25
+        def __imatmul__(self, *args, **kwargs): #pragma: no cover
+            r = np.ndarray.__imatmul__(self, *args, **kwargs)
+            self.notify_observers()
+            return r
-- 
2.43.0


From d0df8e92cbcfd54cf6171ead2f285db40f31982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 30/41] fix: report only the positions taken away when the
 indices to remove repeat

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..e21c3a8 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -164,7 +164,7 @@ class ParameterIndexOperations(object):
     def remove(self, prop, indices):
         if prop in self._properties:
             diff = remove_indices(self[prop], indices)
-            removed = numpy.intersect1d(self[prop], indices, True)
+            removed = numpy.intersect1d(self[prop], indices)
             if not index_empty(diff):
                 self._properties[prop] = diff
             else:
-- 
2.43.0


From bcf583f3e071d4a68358e7de27b9f55985ff0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 31/41] fix: a node whose last parameter was unlinked kept its
 memory and shared it with the next parameter

---
 paramz/parameterized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index cdfaa08..03d4c23 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -239,7 +239,10 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._model_initialized_ = True
         
         if not hasattr(self, "parameters") or len(self.parameters) < 1:
-            # no parameters for this class
+            # no parameters for this class, let go of the memory of former ones
+            self._param_slices_ = []
+            self._param_array_ = np.empty(0)
+            self._gradient_array_ = np.empty(0)
             return
 
         old_size = 0
-- 
2.43.0


From 7dd8d4ffd47cc7723bd05be363b56d7264d53f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 32/41] fix: linking below a not yet initialized root left the
 constraints of later parameters at the wrong entries

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 03d4c23..1c07083 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -177,7 +177,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            self._highest_parent_._notify_parent_change()
 
             if not self._in_init_ and self._highest_parent_._model_initialized_:
                 #self._connect_parameters()
-- 
2.43.0


From 7f2bd12b46d00e49e0fc2bbe290942e16deca7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 33/41] fix: linking a parameter below a model under
 construction failed with an AttributeError

---
 paramz/parameterized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 1c07083..d8a64d2 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -113,6 +113,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False # until the metaclass is done with __init__
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
-- 
2.43.0


From 870b461c7075effdf1bb0b4cfc8eed2f9fd45b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 34/41] fix: nodes whose size was restored by another
 structural change reused their old memory, overwriting values of unlinked
 parameters

---
 paramz/parameterized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index d8a64d2..91f1f7e 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -177,6 +177,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             parent = self
             while parent is not None:
                 parent.size += param.size
+                # the parameters get new places, also if another change restores the size
+                parent._param_array_ = parent._gradient_array_ = None
                 parent = parent._parent_
             self._highest_parent_._notify_parent_change()
 
@@ -210,6 +212,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
 
         start = sum([p.size for p in self.parameters[:param._parent_index_]])
         self.size -= param.size
+        self._param_array_ = self._gradient_array_ = None
         del self.parameters[param._parent_index_]
         self._remove_parameter_name(param)
 
@@ -225,6 +228,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         parent = self._parent_
         while parent is not None:
             parent.size -= param.size
+            parent._param_array_ = parent._gradient_array_ = None
             parent = parent._parent_
 
         self._highest_parent_._connect_parameters()
-- 
2.43.0


From 54c30e41d44d30e85e848988cad95eb65848e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 35/41] fix: a stand-alone parameter fixed in part was written
 over in full, its own mask of fixed entries was out of date

---
 paramz/core/indexable.py      | 1 +
 paramz/core/parameter_core.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 3b79dfa..7370476 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -176,6 +176,7 @@ class Indexable(Nameable, Updateable):
         """
         ravi = self._raveled_index_for(param)
         if self._has_fixes():
+            self._ensure_fixes()
             fixes = self._fixes_
             ### Transformed indices, handling the offsets of previous fixes
             transformed = (np.r_[:self.size] - (~fixes).cumsum())
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 233f186..6387bdf 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -106,6 +106,7 @@ class OptimizationHandlable(Constrainable):
             f = np.ones(self.size).astype(bool)
             f[self.constraints[__fixed__]] = FIXED
         elif self._has_fixes():
+            self._ensure_fixes()
             f = self._fixes_
         if f is None:
             self.param_array.flat = p
@@ -150,7 +151,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
-- 
2.43.0


From 23f0414098f3a465436281231a8164babf717470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 36/41] fix: optimize_restarts(parallel=True, robust=True)
 skips failed restarts instead of raising their error

---
 paramz/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index e1710c8..f55a8ee 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -44,7 +44,10 @@ import multiprocessing as mp
 def opt_wrapper(args):
     m = args[0]
     kwargs = args[1]
-    return m.optimize(**kwargs)
+    try:
+        return m.optimize(**kwargs)
+    except Exception as e:
+        return e # raised by the restart it belongs to
 
 
 class Model(Parameterized):
@@ -175,6 +178,8 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
+                    if isinstance(jobs[i], Exception):
+                        raise jobs[i]
                     self.optimization_runs.append(jobs[i])
                 run = self.optimization_runs[-1]
                 results.append((run.f_opt, np.array(run.x_opt)))
-- 
2.43.0


From 3cf481c43335a10e91bb8550b14d93c61834dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 37/41] fix: optimize(messages=True) turned a tolerated failure
 of the objective into a permanent one

---
 paramz/optimization/verbose_optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..16bbe73 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -195,7 +195,11 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except (np.linalg.LinAlgError, ZeroDivisionError, ValueError):
+            # failures are counted (and raised) where the optimizer evaluates the objective, not by showing it
+            self.fnow = np.nan
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From c03ea43d608219489aa361cdfd979cf9b53b6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:13 +0000
Subject: [PATCH 38/41] fix: an error while optimize(messages=True) starts left
 its display observing the model for good

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 16bbe73..cb696ad 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -51,7 +51,6 @@ class VerboseOptimization(object):
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
             self.opt = opt
-            self.model.add_observer(self, self.print_status)
             self.status = 'running'
             self.clear = clear_after_finish
 
@@ -115,6 +114,9 @@ class VerboseOptimization(object):
     def __enter__(self):
         self.start = time.time()
         self._time = self.start
+        if self.verbose:
+            # from here on __exit__ is sure to remove it again
+            self.model.add_observer(self, self.print_status)
         return self
 
     def print_out(self, seconds):
-- 
2.43.0


From 7deb10542e05702e63604ba67cb6ba4257a00f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 39/41] fix: verbose gradient check divided by zero, leaving
 the parameters moved, if the objective is zero on one side of an entry

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index f55a8ee..66581ce 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -389,7 +389,7 @@ class Model(Parameterized):
                 #Avoid divide by zero, if any of the values are above 1e-15, otherwise both values are essentiall
                 #the same
                 if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or f2 < -1e-15:
-                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
+                    df_ratio = np.abs((f1 - f2) / (min(f1, f2) or max(f1, f2)))
                 else: # pragma: no cover
                     df_ratio = 1.0
                 df_unstable = df_ratio < df_tolerance
-- 
2.43.0


From c3e7256f4bcddf3e222ebc1d222bd5b4e3205a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 40/41] fix: a changed cache entry displaced by calls of the
 operation to its own cacher was stored without its inputs

---
 paramz/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 56274a7..cad687f 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -192,12 +192,12 @@ class Cacher(object):
             except:
                 self.reset()
                 raise
-            if(changed):
+            if cache_id in self.inputs_changed:
                 # 4: This happens, when elements have changed for this cache self.id
                 self.inputs_changed[cache_id] = False
                 self.cached_outputs[cache_id] = new_output
-            else:  # not_seen is True, as one of the two has to be True:
-                # 3: This is when we never saw this chache_id:
+            else:
+                # 3: This is when we never saw this chache_id (or it was displaced by calls the operation made to this cacher):
                 self.ensure_cache_length()
                 self.add_to_cache(cache_id, inputs, new_output)
         # 5: We have seen this cache_id and it is cached:
-- 
2.43.0


From 6a150bb586e7c49bcfa6bce78e1c55e5aba1f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:24 +0000
Subject: [PATCH 41/41] fix: the copy of an object holding a Cacher of its own
 method computed with the values of the original

---
 paramz/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index cad687f..c506c8f 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -237,7 +237,9 @@ class Cacher(object):
         self.inputs_changed = {}  # point from cache_ids to bools
 
     def __deepcopy__(self, memo=None):
-        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)
+        # a method of the object copied has to become the one of the copy
+        import copy
+        return Cacher(copy.deepcopy(self.operation, memo), self.limit, self.ignore_args, self.force_kwargs)
 
     def __getstate__(self, memo=None):
         raise PickleError("Trying to pickle Cacher object with function {}, pickling functions not possible.".format(str(self.operation)))
-- 
2.43.0

