From b1bb07d21ea8092ef6ead575cf770c992ada866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 01/35] fix: Pure.update_state ignored updates to existing
 entries

---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..55807a1 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -353,10 +353,11 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
           f"got {type(updates).__name__}"
       )
 
+    # later states win, so the current states must come first
     if isinstance(self.states, tuple):
-      states += self.states
+      states = (*self.states, *states)
     else:
-      states += (self.states,)
+      states = (self.states, *states)
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 2bd4b1e30410a897104c2f3351845d9cc0438d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 02/35] fix: chained accesses through apply/call/init dropped
 all but the last access

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 55807a1..cbd30cd 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self.accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 640cb8d70165918db3846ec411c3d2007dae1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 03/35] fix: pop_state recursed forever on cyclic modules and
 used non-canonical paths

---
 nnx/module.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index cbd30cd..04bc461 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -905,7 +905,10 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  # mark as visited before recursing so that cycles terminate
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -919,8 +922,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From 7600d881b0b5b4feeb6e07be18495d0227c0707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 04/35] fix: MutableLeaf.sharding raised AttributeError for
 every node

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 04bc461..6481d34 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -762,7 +762,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return getattr(attr, "sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From 7490f38379e9da3401a6772fe572636883954d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 05/35] fix: empty Sequence had length 1 and negative indices
 raised AttributeError

---
 nnx/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..0d6b06d 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -49,15 +49,17 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
-    if key >= len(self):
+    index = key + len(self) if key < 0 else key
+    if not 0 <= index < len(self):
       raise IndexError(f"index {key} out of range for {self}")
-    return getattr(self, str(key))
+    return getattr(self, str(index))
 
   def __iter__(self) -> tp.Iterator[A]:
     for i in range(len(self)):
-- 
2.43.0


From d4b338c42b350d1722fe23d8d2bd7e3dd05e2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 06/35] fix: Sequence call added ctx to the dict returned by
 the previous callable

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 0d6b06d..221d7f5 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -80,7 +80,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From d2792de6928a407937ed3802f124ef3dd09eb47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 07/35] fix: Dict listed its internal state as an item and
 raised AttributeError for missing keys

---
 nnx/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 221d7f5..60d102f 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -13,6 +13,10 @@ A = tp.TypeVar("A")
 M = tp.TypeVar("M", bound=Module)
 
 
+def _item_names(module: Module) -> tp.List[str]:
+  return [name for name in vars(module) if not name.startswith("_module__")]
+
+
 class Dict(Module, tp.Mapping[str, A]):
 
   @tp.overload
@@ -28,6 +32,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if key not in _item_names(self):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +46,10 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return iter(_item_names(self))
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return len(_item_names(self))
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 87d9e5d9e9c781cd935996b5063b485bb19ec2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 08/35] fix: deleting or popping attributes from another trace
 level was not detected

---
 nnx/module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 6481d34..350e3d8 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -468,6 +468,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
         value = value.copy()
       vars_dict[name] = value
 
+  def __delattr__(self, name: str) -> None:
+    if not self._module__state.trace_state.is_valid():
+      raise errors.TraceContextError("Cannot mutate Module from different trace level")
+
+    super().__delattr__(name)
+
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
-- 
2.43.0


From b14ea6b558141eeddf4c3c3779d9e6d597a2da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 09/35] fix: fields of an initialized Pytree could be deleted

---
 nnx/pytreelib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..fec0c1d 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -99,6 +99,12 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
         value = value.copy()
       vars_dict[name] = value
 
+  def __delattr__(self, name: str) -> None:
+    if "_pytree__initializing" not in vars(self):
+      raise AttributeError("Cannot delete fields of an initialized Pytree")
+
+    super().__delattr__(name)
+
   def __init_subclass__(cls, mutable: bool = False):
     super().__init_subclass__()
     # init class variables
-- 
2.43.0


From e03ea1b7f13d2c3735762eefbf3f262cb13697e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 10/35] fix: concurrent or failing repr of modules corrupted
 later reprs

---
 nnx/module.py  | 25 +++++++++++++++----------
 nnx/reprlib.py | 10 ++++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 350e3d8..2a299e3 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -376,7 +377,13 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+
+@dataclasses.dataclass
+class SeenModulesRepr(threading.local):
+  seen: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+SEEN_MODULES_REPR = SeenModulesRepr()
 
 ModuleStateTuple = tuple[bool]
 
@@ -478,22 +485,20 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return hash(self._module__state.id)
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if SEEN_MODULES_REPR.seen is None:
+      SEEN_MODULES_REPR.seen = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in SEEN_MODULES_REPR.seen:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
-    yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
-
     try:
+      yield reprlib.Object(type=type(self))
+      SEEN_MODULES_REPR.seen.add(self._module__state.id)
+
       for name, value in vars(self).items():
         if isinstance(value, Module) or (
             not nodes.is_node(value) and not name.startswith("_")
@@ -501,7 +506,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        SEEN_MODULES_REPR.seen = None
 
   @property
   def init(self: M) -> M:
diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..802cac1 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -76,8 +76,14 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+  try:
+    with add_indent(config.elem_indent):
+      elems = list(map(_repr_elem, iterator))
+  finally:
+    # run the clean up code of the iterator now, even if an element failed
+    if hasattr(iterator, "close"):
+      iterator.close()
+
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From 08ebc9b0e9bd04283b89e8214299ededb4a946ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 11/35] fix: invalid filters raised ValueError from formatting
 instead of TypeError

---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From d7dd4197e0d60a595318850c69cc7e86d2308f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 12/35] fix: Pure.pop_state rejected `...` as the last filter

---
 nnx/module.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 2a299e3..56ceed6 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -319,12 +319,16 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
     filters = (filter, *filters)
 
     state = self.get_state()
-    *states, rest = state.partition(*filters, ...)
+    states = state.filter(*filters)
 
-    if len(states) == 1:
-      states = states[0]
+    if isinstance(states, State):
+      popped = (states,)
     else:
-      states = tuple(states)
+      popped = states
+
+    rest = state
+    for popped_state in popped:
+      rest = rest - popped_state
 
     return states, Pure.new(rest, self.moduledef)
 
-- 
2.43.0


From f921cd2a68eb3b7873ee55f24014582d47504ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 13/35] fix: passing an RNG context as `ctx` to nnx.jit raised
 TypeError

---
 nnx/contextlib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..1ee4299 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -39,6 +39,17 @@ class ContextDef:
     return Context(rngs=rngs, flags=dict(self._flags))
 
 
+def _contextdef_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _contextdef_unflatten(metadata, _) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _contextdef_flatten, _contextdef_unflatten)
+
+
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
   @classmethod
-- 
2.43.0


From 860c78fc25ef007baff1edd242f19aeb21ca0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 14/35] fix: nnx.jit(...).lower raised TypeError for modules

---
 nnx/transforms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..6fbd63e 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -76,8 +76,13 @@ class JitTransform(jax.stages.Wrapped):
   def __repr__(self):
     return f"JitTransform({self.jitted_fn})"
 
-  def lower(self, *args, **kwargs):
-    return self.jitted_fn.lower(*args, **kwargs)
+  def lower(self, module: tp.Any, *args, **kwargs):
+    if not isinstance(module, Module):
+      raise TypeError(f"Expected Module, got {type(module).__name__}")
+    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
+      kwargs["ctx"] = kwargs["ctx"].partition()
+
+    return self.jitted_fn.lower(module.partition(), *args, **kwargs)
 
 
 UNSPECIFIED = object()
-- 
2.43.0


From 0d3be6371d766ca49ec27e6068a3e792223669d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 15/35] fix: node fields holding pytrees were restored from
 state dicts as plain dicts

---
 nnx/pytreelib.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index fec0c1d..d517a15 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -226,7 +226,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
@@ -234,7 +236,13 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
           f" restoring an instance of {type(pytree).__name__}"
           f" at path {serialization.current_path()}"
       )
-    return pytree.replace(**updates)
+
+    pytree = copy(pytree)
+    with _mutable(pytree):
+      for name, value in updates.items():
+        setattr(pytree, name, value)
+
+    return pytree
 
   def replace(self: P, **kwargs: tp.Any) -> P:
     """
-- 
2.43.0


From 0086e35e987533388fd616a3874b8f3216fa4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 16/35] fix: replace on dataclass pytrees lost variable kinds
 and metadata

---
 nnx/pytreelib.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index d517a15..d720c21 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -252,7 +252,18 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
-      return dataclasses.replace(self, **kwargs)
+      pytree = dataclasses.replace(self, **kwargs)
+      # dataclasses.replace uses the plain values, restore their containers
+      for name, container in vars(self).items():
+        if not isinstance(container, containers.Container):
+          continue
+        value = vars(pytree)[name]
+        if isinstance(value, containers.Container):
+          if name in kwargs:
+            continue
+          value = value.value
+        vars(pytree)[name] = container.replace(value=value)
+      return pytree
 
     unknown_keys = set(kwargs) - set(vars(self))
     if unknown_keys and not self._pytree__class_is_mutable:
-- 
2.43.0


From 12e91ccfac9989611eb29340ec414d251f929e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 17/35] fix: copies of modules shared their identity, deep
 copies could not be mutated

---
 nnx/module.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 56ceed6..e4eb6b5 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,3 +1,4 @@
+import copy
 import dataclasses
 import threading
 import typing as tp
@@ -415,6 +416,13 @@ class ModuleState(reprlib.Representable):
   def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
     return cls(*tup)
 
+  def __copy__(self) -> "ModuleState":
+    # a copy is a new module: it gets its own id at the current trace level
+    return ModuleState.from_tuple(self.to_tuple())
+
+  def __deepcopy__(self, memo) -> "ModuleState":
+    return copy.copy(self)
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
@@ -488,6 +496,11 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self), _module__state=copy.copy(self._module__state))
+    return module
+
   def __nnx_repr__(self):
     if SEEN_MODULES_REPR.seen is None:
       SEEN_MODULES_REPR.seen = set()
-- 
2.43.0


From 5cf9c702347ea0f2f170cfb33d4a3ef95d31bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 18/35] fix: definitions of modules differing in the
 initializing flag compared equal

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index e4eb6b5..e6a3466 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -111,7 +111,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -120,6 +122,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From 0a652c8d42083133b936f54fe5ea4e89ffb913bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 19/35] fix: scan on __init__ raised ValueError when it added a
 partition name

---
 nnx/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 6fbd63e..6778adf 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -737,6 +737,9 @@ def scan(
         return module
 
       lifted_module = scan_init(options, module_constructor, args, kwargs)
+      # the lifted variables take the place of the traced ones, whose sharding
+      # metadata doesn't have the additional axis
+      module.pop_state(...)
       module.update_state(lifted_module)
 
     wrapper = init_wrapper
-- 
2.43.0


From f5fbf909c0d089229e70c70ad904db3e6d94f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 20/35] fix: scan over a negative axis put the partition name
 at the wrong position

---
 nnx/spmd.py       | 13 +++++++++++--
 nnx/transforms.py | 18 +++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..cd2007c 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -33,7 +33,7 @@ class HasSharding(tp.Protocol):
   sharding: tp.Optional[Sharding]
 
 
-def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> State:
+def add_axis(state: State, axis: int, params: tp.Mapping[tp.Any, tp.Any]) -> State:
   axis_name = _get_partition_name(params)
 
   def _add_axis(x: tp.Any):
@@ -43,6 +43,7 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
+      index = _positive_axis(axis, x)
       while len(sharding) < index:
         sharding.append(None)
       sharding.insert(index, axis_name)
@@ -54,7 +55,7 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
   )
 
 
-def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> State:
+def remove_axis(state: State, axis: int, params: tp.Mapping[tp.Any, tp.Any]) -> State:
   axis_name = _get_partition_name(params)
 
   def _remove_axis(x: tp.Any):
@@ -64,6 +65,7 @@ def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) ->
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
+      index = _positive_axis(axis, x)
       assert sharding.pop(index) == axis_name
       return x.replace(sharding=tuple(sharding))
     return x
@@ -73,6 +75,13 @@ def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) ->
   )
 
 
+def _positive_axis(axis: int, x: tp.Any) -> int:
+  # ``x`` has the value without the additional axis
+  if axis < 0:
+    axis += getattr(x.value, "ndim", len(x.sharding)) + 1
+  return axis
+
+
 def _get_partition_name(params: tp.Mapping[tp.Any, tp.Any]) -> str:
   if PARTITION_NAME not in params:
     raise ValueError(
diff --git a/nnx/transforms.py b/nnx/transforms.py
index 6778adf..4f1473d 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -466,9 +466,16 @@ def scan_init(
         options.variable_carry,
     )
 
-    states, moduledef = module.partition(*filters)
+    (*axes_states, broadcast_state, carry_state), moduledef = module.partition(*filters)
 
-    return states
+    # add additional axis name to Variable.sharding
+    if spmd.PARTITION_NAME in options.metadata_params:
+      axes_states = [
+          spmd.add_axis(state, index, options.metadata_params)
+          for state, index in zip(axes_states, options.variable_axes.values())
+      ]
+
+    return (*axes_states, broadcast_state, carry_state)
 
   if ctxdef is not None or options.variable_axes:
     init_out_axes = (*options.variable_axes.values(), None, None)
@@ -482,13 +489,6 @@ def scan_init(
   *axes_states, broadcast_state, carry_state = _init_state(*key_values)
   moduledef = tp.cast(ModuleDef[M], moduledef)
 
-  # add additional axis name to Variable.sharding
-  if spmd.PARTITION_NAME in options.metadata_params:
-    axes_states = [
-        spmd.add_axis(state, index, options.metadata_params)
-        for state, index in zip(axes_states, options.variable_axes.values())
-    ]
-
   module = moduledef.merge(*axes_states, broadcast_state, carry_state)
 
   return module
-- 
2.43.0


From 5e1f0f6302bb9f67120b264dc53a6f50533423e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 21/35] fix: scan mishandled new variables in reverse and new
 broadcast variables

---
 nnx/transforms.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 4f1473d..80a14ee 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -611,7 +611,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -628,8 +628,10 @@ def scan_apply(
 
     return carry, out
 
+  # a new function on every call, jax caches the trace of functions it has seen
+  # but the broadcast state changes after the first step
   scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+      lambda carry, axes: scan_fn(carry, axes),
       carry,
       axes,
       length=length,
@@ -641,12 +643,18 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  _, broadcast_state_new, carry_state_new, _ = abstract_output[1]
+  new_state = (broadcast_state_new, carry_state_new)
+  has_new_state = len(jax.tree_util.tree_leaves(new_state)) > 0
+
+  if has_new_state:
+    if options.reverse:
+      first, rest = slice(-1, None), slice(None, -1)
+    else:
+      first, rest = slice(None, 1), slice(1, None)
 
-  if has_new_carry_state:
     # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -662,14 +670,14 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    axes_states_rest, _, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From 3415116a769a48bf682e6fa0e803e5dd7484d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 22/35] fix: apply/call/init clashed with attributes and
 arguments named like their internals

---
 nnx/module.py     | 16 ++++++++--------
 nnx/transforms.py |  3 ++-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e6a3466..a2f1750 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -50,16 +50,16 @@ def _identity(x):
 
 @dataclasses.dataclass
 class DelayedAccessor:
-  accessor: tp.Callable[[tp.Any], tp.Any] = _identity
+  _delayed_accessor: tp.Callable[[tp.Any], tp.Any] = _identity
 
   def __call__(self, x):
-    return self.accessor(x)
+    return self._delayed_accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
+    return DelayedAccessor(lambda x: getattr(self._delayed_accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: self.accessor(x)[key])
+    return DelayedAccessor(lambda x: self._delayed_accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
@@ -159,7 +159,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
   def apply(self, state: State, *states: State) -> ApplyCaller["Pure[State, M]"]:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
+    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
       module = self.merge(state, *states)
       fn = accessesor(module)
       out = fn(*args, **kwargs)
@@ -225,7 +225,7 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
   def call(self) -> M:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs):
+    def _context(accessesor, /, *args, **kwargs):
       module = self.merge()
       fn = accessesor(module)
       return fn(*args, **kwargs)
@@ -532,7 +532,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def init(self: M) -> M:
     accessor = DelayedAccessor()
 
-    def _init(accessor, *args, **kwargs):
+    def _init(accessor, /, *args, **kwargs):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
@@ -658,7 +658,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def apply(self: M) -> ApplyCaller[M]:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
+    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
       module = self.clone()
       fn = accessesor(module)
       out = fn(*args, **kwargs)
diff --git a/nnx/transforms.py b/nnx/transforms.py
index 80a14ee..60c7eb3 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -372,6 +372,7 @@ class Scan(Module, tp.Generic[M], metaclass=ScanMeta):
 
     def _context(
         accessesor,
+        /,
         carry_arg: C,
         axes_arg,
         *broadcast_args,
@@ -841,7 +842,7 @@ class Remat(Module, tp.Generic[M], metaclass=RematMeta):
     accessesor = DelayedAccessor()
 
     def _call(
-        accessesor, *args, ctx: tp.Optional[contextlib.Context] = None
+        accessesor, /, *args, ctx: tp.Optional[contextlib.Context] = None
     ) -> tp.Tuple[tp.Any]:
       def _apply(module, *args, **kwargs):
         return accessesor(module)(*args, **kwargs)
-- 
2.43.0


From 4db6cc9fe6d1a28b060df71dae4d45b4f38f96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 23/35] fix: contexts passed to nnx.jit could not be used
 inside it

---
 nnx/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 60c7eb3..2c28350 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 282bb079a2c5c5ae38ffacc5cb5c05dcff10d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 24/35] fix: frozen dataclass pytrees could not be restored
 from a state dict

---
 nnx/pytreelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index d720c21..8150d2e 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -240,7 +240,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     pytree = copy(pytree)
     with _mutable(pytree):
       for name, value in updates.items():
-        setattr(pytree, name, value)
+        pytree._setattr(name, value)
 
     return pytree
 
-- 
2.43.0


From 7e870bed4ed9b614689b6c50f0f87b8a9e44095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 25/35] fix: dataclass fields with init=False and a default
 failed at construction

---
 nnx/module.py    | 5 ++++-
 nnx/pytreelib.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index a2f1750..117bc44 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -449,7 +449,10 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        # fields with init=False can still be a class default or be missing
+        if field.name not in vars(module) and not hasattr(self, field.name):
+          continue
+        value = vars(module).get(field.name, getattr(self, field.name, None))
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 8150d2e..cc4f02f 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,7 +58,10 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        # fields with init=False can still be a class default or be missing
+        if field.name not in vars(obj) and not hasattr(cls, field.name):
+          continue
+        value = vars(obj).get(field.name, getattr(cls, field.name, None))
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0


From d174842b9a45881fa00794726156243c560e9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 26/35] fix: frozen dataclass modules could not be merged

---
 nnx/module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 117bc44..bf2ac08 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -873,7 +873,8 @@ def _set_value_at_path(
     module: tp.Any, path_parts: tp.Union[PathParts, tp.List[str]], value: tp.Any
 ):
   if len(path_parts) == 1:
-    setattr(module, path_parts[0], value)
+    # not setattr, which frozen dataclasses refuse
+    module._setattr(path_parts[0], value)
   else:
     _set_value_at_path(vars(module)[path_parts[0]], path_parts[1:], value)
 
-- 
2.43.0


From 3b97bbf5255d56b9189c839d008e1a902d1d6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 27/35] fix: mutable leaves could not be printed

---
 nnx/module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index bf2ac08..a005f79 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -798,6 +798,12 @@ class MutableLeaf(reprlib.Representable):
 
     return getattr(attr, "sharding", None)
 
+  def __nnx_repr__(self):
+    yield reprlib.Object(type(self))
+    yield reprlib.Attr("name", self._name)
+    if self._name in vars(self._module):
+      yield reprlib.Attr("value", repr(vars(self._module)[self._name]))
+
 
 def _get_module_state(module: Module) -> State:
   return State(_iter_state(module))
-- 
2.43.0


From 4bdf6505da40bc7fe26e5b0aac8f0b17d510ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 28/35] fix: Sequence calls with a context failed on builtins
 without a signature

---
 nnx/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 60d102f..51afab2 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -153,8 +153,13 @@ class TrainState(pytreelib.Pytree, tp.Generic[M]):
 
 def has_keyword_arg(func: tp.Callable[..., tp.Any], name: str) -> bool:
   """Return True if func has keyword-only arguments with the given name."""
+  try:
+    parameters = inspect.signature(func).parameters
+  except ValueError:  # some builtins have no signature
+    return False
+
   return any(
       param.name == name
       and param.kind in (param.KEYWORD_ONLY, param.POSITIONAL_OR_KEYWORD)
-      for param in inspect.signature(func).parameters.values()
+      for param in parameters.values()
   )
-- 
2.43.0


From 5969335564d9c61ca314ee94628e081b3bf01b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 29/35] fix: unnamed dimensions counted as names without a rule
 for the fallback

---
 nnx/spmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index cd2007c..bede82e 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -187,7 +187,8 @@ def _logical_to_mesh_axes(
     raise ValueError("Unknown axis rule specification type.")
   # We assign mesh axes using a priority based ruleset over logical axis names.
   result: list[tp.Union[_UnassignedAxis, None, str, tuple[str]]]
-  result = [_unassigned_axis] * len(array_dim_names)
+  # Unnamed dimensions are unsharded, there is nothing to assign to them.
+  result = [None if name is None else _unassigned_axis for name in array_dim_names]
   for rule_model_name, rule_mesh_names in rules:
     if rule_model_name in array_dim_names:
       pos = array_dim_names.index(rule_model_name)
-- 
2.43.0


From ed43ae1a8d78b9f28f0dd792c59d1d818e7c12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 30/35] fix: None entries in trees of logical specs failed with
 an explicit mesh

---
 nnx/spmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index bede82e..f4b6909 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -306,7 +306,7 @@ def _with_sharding_constraint_one_fallback(
   """Either imposes a sharding constraint or applies fallback."""
   mesh_axes = _logical_to_mesh_axes(axis_resources, rules)
   if mesh_axes is None:
-    return _with_sharding_constraint(x, None, mesh=mesh)
+    return x
 
   if fallback == RulesFallback.AXIS_IS_UNSHARDED:
     mesh_axes = [None if x is _unassigned_axis else x for x in mesh_axes]
-- 
2.43.0


From c7f88f16a261293e62b7ba8502d2ad8ef9b10c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 31/35] fix: initializers with metadata did not accept keyword
 arguments

---
 nnx/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index 969645d..e94b9dd 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -193,8 +193,8 @@ def with_metadata(
     **metadata: tp.Any,
 ) -> F:
   @functools.wraps(initializer)
-  def wrapper(*args):
-    return ContainerMetadata(initializer(*args), metadata=metadata)
+  def wrapper(*args, **kwargs):
+    return ContainerMetadata(initializer(*args, **kwargs), metadata=metadata)
 
   return wrapper  # type: ignore
 
-- 
2.43.0


From 45821435eec63365490a1d70c21f5fa2ce3d37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 32/35] fix: nnx.grad without selected variables ran its body
 at the outermost trace level

---
 nnx/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 2c28350..9208f00 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -164,7 +164,12 @@ class GradTransform:
         moduledef: ModuleDef[Module],
         *args: tp.Any,
     ):
-      with tracers.nnx_trace(tracers.get_top_trace(diff)):
+      if jax.tree_util.tree_leaves(diff):
+        trace = tracers.get_top_trace(diff)
+      else:  # nothing to differentiate: there is no new trace
+        trace = tracers.current_nnx_trace()
+
+      with tracers.nnx_trace(trace):
         module = moduledef.merge(diff, non_diff)
         out = fun(module, *args)
 
-- 
2.43.0


From e20c0c4a487fd9750767061fba0e5105e581f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 33/35] fix: normalization over a mapped axis failed for a
 single example and for complex inputs

---
 nnx/nn/normalization.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnx/nn/normalization.py b/nnx/nn/normalization.py
index 16256c2..92e2210 100644
--- a/nnx/nn/normalization.py
+++ b/nnx/nn/normalization.py
@@ -79,14 +79,10 @@ def _compute_stats(
     mean = jnp.zeros(mean2.shape, dtype=dtype)
 
   if axis_name is not None:
-    concatenated_mean = jnp.concatenate([mean, mean2])
-    mean, mean2 = jnp.split(
-        lax.pmean(
-            concatenated_mean,
-            axis_name=axis_name,
-            axis_index_groups=axis_index_groups,
-        ),
-        2,
+    mean, mean2 = lax.pmean(
+        (mean, mean2),
+        axis_name=axis_name,
+        axis_index_groups=axis_index_groups,
     )
   # mean2 - _abs_sq(mean) is not guaranteed to be non-negative due
   # to floating point round-off errors.
-- 
2.43.0


From c7573466be68db9b11a8eab01f7cebd3151370ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 34/35] fix: nested init calls cleared the initializing flags
 of the enclosing call

A nested init reset is_initializing of its modules although an outer init was
still running, and modules detached during init stayed initializing for ever.
---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index a005f79..1d48c60 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -539,12 +539,17 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
+      # init calls can be nested: modules go back to what they were before this one
+      previous: tp.List[tp.Tuple[Module, bool]] = []
+      self.for_each(Module, lambda m: previous.append((m, m.is_initializing)))
       self.for_each(Module, partial(_set_is_initializing, value=True))
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
         self.for_each(Module, partial(_set_is_initializing, value=False))
+        for module, value in previous:
+          _set_is_initializing(module, value)
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From 987f97646267d9e595d2f9e2a4f3173a3623540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 35/35] fix: node types registered by two threads at once could
 be lost

---
 nnx/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/nodes.py b/nnx/nodes.py
index b470fce..840080e 100644
--- a/nnx/nodes.py
+++ b/nnx/nodes.py
@@ -1,14 +1,17 @@
+import threading
 import typing as tp
 
 import jax
 import numpy as np
 
 node_types: tp.Tuple[type, ...] = ()
+_lock = threading.Lock()
 
 
 def register_node_type(node_type: type) -> None:
   global node_types
-  node_types += (node_type,)
+  with _lock:
+    node_types += (node_type,)
 
 
 def is_node(obj: object) -> bool:
-- 
2.43.0

