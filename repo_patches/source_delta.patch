From e7dcb1b586f68e1140cce15f8986fd2e849a63e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 01/77] fix: connecting/disconnecting slots during emission
 must not skip or repeat other slots

---
 src/psygnal/_signal.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..f03b191 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -772,6 +772,7 @@ class SignalInstance:
 
         Implementing this as a method allows us to override/extend it in subclasses.
         """
+        self._copy_slots_if_emitting()
         # if no previously connected slots have a priority, and this slot also
         # has no priority, we can just (quickly) append it to the end of the list.
         if not self._priority_in_use:
@@ -791,9 +792,29 @@ class SignalInstance:
                 return
         self._slots.append(slot)
 
+    def _copy_slots_if_emitting(self) -> None:
+        """Replace `self._slots` with a copy if an emission is iterating over it.
+
+        Callbacks may connect and disconnect slots.  Doing so must not change the list
+        that is being iterated, otherwise slots would be skipped or called twice.
+        """
+        if self._recursion_depth > 0:
+            self._slots = self._slots.copy()
+
+    def _iter_slots(self) -> Iterator[WeakCallback]:
+        """Iterate over the slots to call for a single emission.
+
+        Slots that get disconnected before it is their turn are skipped.
+        """
+        slots = self._slots
+        for caller in slots:
+            if self._slots is slots or any(s is caller for s in self._slots):
+                yield caller
+
     def _remove_slot(self, slot: Literal["all"] | int | WeakCallback) -> None:
         """Remove a slot from the list of slots."""
         # implementing this as a method allows us to override/extend it in subclasses
+        self._copy_slots_if_emitting()
         if slot == "all":
             self._slots.clear()
         elif isinstance(slot, int):
@@ -1237,7 +1258,7 @@ class SignalInstance:
 
         self._recursion_depth += 1
         try:
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
@@ -1304,12 +1325,12 @@ class SignalInstance:
 
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
@@ -1321,7 +1342,7 @@ class SignalInstance:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
-- 
2.43.0


From c9a57bad27b9c943f452f9c91bc617151f3dfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 02/77] fix: distinguish different methods with the same name
 bound to one object

---
 src/psygnal/_weak_callback.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..69f69cf 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -289,6 +289,11 @@ class WeakCallback(Generic[_R]):
             module = getattr(owner_cls, "__module__", None) or ""
             method_name = getattr(obj, "__name__", None) or ""
             obj_name = f"{type_name}.{method_name}"
+            # the name alone does not identify the method: different functions with
+            # the same __name__ may be bound to the same object.
+            func = getattr(obj, "__func__", None)
+            if func is not None:
+                obj_name = f"{obj_name}[{hex(id(func))}]"
         else:
             obj_id = id(obj)
             module = getattr(obj, "__module__", None) or ""
-- 
2.43.0


From 92363c00ee1061a693c35a6c7aa758b5a6ef3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 03/77] fix: resume() must not re-emit args it already emitted

---
 src/psygnal/_signal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index f03b191..1cbea60 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1443,11 +1443,14 @@ class SignalInstance:
                     args = reduce(reducer, self._args_queue)
                 else:
                     args = reduce(reducer, self._args_queue, initial)
-            self._run_emit_loop(args)
+            to_emit = [args]
         else:
-            for args in self._args_queue:
-                self._run_emit_loop(args)
-        self._args_queue.clear()
+            to_emit = self._args_queue
+        # empty the queue *before* emitting: whatever a callback does (raise an
+        # exception, pause this signal again) these args must not be emitted twice
+        self._args_queue = []
+        for args in to_emit:
+            self._run_emit_loop(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 7cb8fbe07efa7285f44229212d0eee194caa4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 04/77] fix: Signal.sender() and current_emitter() must not see
 emissions of other threads

---
 src/psygnal/_signal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 1cbea60..7cc7137 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -290,7 +290,8 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
+    # each thread has its own stack of emissions
+    _emission_state: ClassVar[threading.local] = threading.local()
 
     def __init__(
         self,
@@ -409,11 +410,13 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        state = cls._emission_state
+        previous = getattr(state, "emitter", None)
+        state.emitter = emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            state.emitter = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -431,7 +434,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(cls._emission_state, "emitter", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -439,7 +442,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From 700e9f132814a7f545feaa9a6a7bd89694c3b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 05/77] fix: Signal with an explicit name must return the same
 SignalInstance each time

---
 src/psygnal/_signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7cc7137..f1addda 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -303,6 +303,7 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        self._attr_name: str | None = None  # name of the attribute, may not be _name
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -330,6 +331,8 @@ class Signal:
         """Set name of signal when declared as a class attribute on `owner`."""
         if self._name is None:
             self._name = name
+        if self._attr_name is None:
+            self._attr_name = name
 
     @overload
     def __get__(self, instance: None, owner: type[Any] | None = None) -> Signal: ...
@@ -372,7 +375,8 @@ class Signal:
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            attr_name = self._attr_name or self._name
+            setattr(instance, cast("str", attr_name), signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From 0a082cc6508daab13d8314b4f0e1ffecd9ffc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 06/77] fix: building EmitLoopError must not depend on the
 truth value of the emitting object

---
 src/psygnal/_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..cd97c7b 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -39,7 +39,7 @@ class EmitLoopError(Exception):
         # grab the signal name or repr
         if signal is None:  # pragma: no cover
             sig_name: str = ""
-        elif instance := signal.instance:
+        elif (instance := signal.instance) is not None:
             inst_class = instance.__class__
             mod = getattr(inst_class, "__module__", "")
             if mod:
-- 
2.43.0


From 115604bdd06768799c22f1678028a314e0c1c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 07/77] fix: keep description and slot priority when
 (un)pickling a SignalInstance

---
 src/psygnal/_signal.py        |  1 +
 src/psygnal/_weak_callback.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index f1addda..5dc8ea0 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1498,6 +1498,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 69f69cf..6f0644f 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -368,12 +368,25 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "_f",
+            "_args",
+            "_kwargs",
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "priority",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # the key includes the id of the function, which may be different now.
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From a726db5e79f24281fc8b781fc81cec55e2c9dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 08/77] fix: copying a SignalInstance during an emission must
 not copy the emission state

---
 src/psygnal/_signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 5dc8ea0..fe1f6de 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1504,11 +1504,8 @@ class SignalInstance:
             "_args_queue",
             "_check_nargs_on_connect",
             "_check_types_on_connect",
-            "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_max_recursion_depth",
-            "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
         dd["_instance"] = self._instance()
@@ -1531,6 +1528,10 @@ class SignalInstance:
             else:
                 setattr(self, k, v)
         self._lock = threading.RLock()
+        # an emission that is going on in the original is not going on in the copy
+        self._emit_queue = deque()
+        self._recursion_depth = 0
+        self._max_recursion_depth = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
         elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
-- 
2.43.0


From 2f8e7606f0a7716797c1b884d89989c60cc2d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 09/77] fix: check_types must not compare keyword-only
 parameters with emitted types

---
 src/psygnal/_signal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index fe1f6de..62c49be 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1728,7 +1728,13 @@ def _parameter_types_match(
     fsig = func_sig or signature(function)
 
     func_hints: dict | None = None
-    for f_param, spec_param in zip(fsig.parameters.values(), spec.parameters.values()):
+    # keyword parameters never receive any of the emitted arguments
+    f_params = [
+        p
+        for p in fsig.parameters.values()
+        if p.kind not in (Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD)
+    ]
+    for f_param, spec_param in zip(f_params, spec.parameters.values()):
         f_anno = f_param.annotation
         if f_anno is fsig.empty:
             # if function parameter is not type annotated, allow it.
-- 
2.43.0


From 74e97c85d32122331bf9a6b45838bbb2112a69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 10/77] fix: check_types must support X | Y unions, and string
 annotations on any callable

---
 src/psygnal/_signal.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 62c49be..c9c5c2c 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -129,6 +129,7 @@ from __future__ import annotations
 
 import inspect
 import threading
+import types
 import warnings
 import weakref
 from collections import deque
@@ -1742,7 +1743,7 @@ def _parameter_types_match(
 
         if isinstance(f_anno, str):
             if func_hints is None:
-                func_hints = get_type_hints(function)
+                func_hints = get_type_hints(_hinted_function(function))
             f_anno = func_hints.get(f_param.name)
 
         if not _is_subclass(f_anno, spec_param.annotation):
@@ -1750,9 +1751,24 @@ def _parameter_types_match(
     return True
 
 
+def _hinted_function(obj: Callable) -> Callable:
+    """Return the function that holds the annotations for callable `obj`."""
+    while isinstance(obj, partial):
+        obj = obj.func
+    if isclass(obj):
+        return cast("Callable", obj.__init__)
+    if not hasattr(obj, "__annotations__"):
+        return cast("Callable", getattr(type(obj), "__call__", obj))
+    return obj
+
+
+# `Union[X, Y]`, and `X | Y` (which is a different type before python 3.14)
+_UNION_TYPES = (Union, getattr(types, "UnionType", Union))
+
+
 def _is_subclass(left: type[Any], right: type) -> bool:
     """Variant of issubclass with support for unions."""
-    if not isclass(left) and get_origin(left) is Union:
+    if not isclass(left) and get_origin(left) in _UNION_TYPES:
         return any(issubclass(i, right) for i in get_args(left))
     return issubclass(left, right)
 
-- 
2.43.0


From 65dac2a2d5a40cb9efc509184c7d730529c437cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 11/77] fix: 'latest-only' must deliver the latest value,
 whatever was emitted before at other depths

---
 src/psygnal/_signal.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c9c5c2c..0d9a439 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -562,7 +562,7 @@ class SignalInstance:
         self._lock = threading.RLock()
         self._emit_queue: deque[tuple] = deque()
         self._recursion_depth: int = 0
-        self._max_recursion_depth: int = 0
+        self._emission_id: int = 0  # latest emission, in "latest-only" mode
         self._run_emit_loop_inner: Callable[[], None]
         if self._reemission == ReemissionMode.QUEUED:
             self._run_emit_loop_inner = self._run_emit_loop_queued
@@ -1301,9 +1301,6 @@ class SignalInstance:
             try:
                 # allow receiver to query sender with Signal.current_emitter()
                 self._recursion_depth += 1
-                self._max_recursion_depth = max(
-                    self._max_recursion_depth, self._recursion_depth
-                )
                 with Signal._emitting(self):
                     self._run_emit_loop_inner()
             except RecursionError as e:
@@ -1325,9 +1322,7 @@ class SignalInstance:
                 raise loop_err from cb_err  # emit() call ABOVE || callback error BELOW
             finally:
                 self._recursion_depth -= 1
-                # we're back to the root level of the emit loop, reset max_depth
                 if self._recursion_depth <= 0:
-                    self._max_recursion_depth = 0
                     self._recursion_depth = 0
                 self._emit_queue.clear()
 
@@ -1338,9 +1333,11 @@ class SignalInstance:
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
+        self._emission_id += 1
+        emission_id = self._emission_id
         for caller in self._iter_slots():
-            if self._recursion_depth < self._max_recursion_depth:
-                # we've already entered a deeper emit loop
+            if self._emission_id != emission_id:
+                # a callback emitted this signal again, in a deeper emit loop.
                 # we should drop the remaining slots in this round and return
                 break
             self._caller = caller
@@ -1532,7 +1529,7 @@ class SignalInstance:
         # an emission that is going on in the original is not going on in the copy
         self._emit_queue = deque()
         self._recursion_depth = 0
-        self._max_recursion_depth = 0
+        self._emission_id = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
         elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
-- 
2.43.0


From 1d7675b47fc1495e2d9a791149fcdfd28428bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 12/77] fix: EmitLoopError must be raised also for exceptions
 without a working __str__

---
 src/psygnal/_exceptions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index cd97c7b..c08b3aa 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -65,7 +65,11 @@ def _build_psygnal_exception_msg(
     sig_name: str, exc: BaseException, recursion_depth: int
 ) -> str:
     msg = f"\n\nWhile emitting signal {sig_name!r}, an error occurred in a callback:"
-    line = f"\n\n  {exc.__class__.__name__}: {exc}"
+    try:
+        exc_str = str(exc)
+    except Exception:  # same as what the traceback module would show
+        exc_str = "<exception str() failed>"
+    line = f"\n\n  {exc.__class__.__name__}: {exc_str}"
     msg += line + "\n  " + "-" * (len(line) - 4)
 
     if recursion_depth:
-- 
2.43.0


From b6c0dcc4d09c70f83e8512b083ddb0eb1093daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 13/77] fix: a queued call must be skipped if its object died
 in the meantime

---
 src/psygnal/_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..b66e14e 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -60,7 +60,12 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._queued_cb, args))
+
+    def _queued_cb(self, args: tuple = ()) -> None:
+        # the object may have died while the call was waiting in the queue
+        if self._wrapped.dereference() is not None:
+            self._wrapped.cb(args)
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
-- 
2.43.0


From 20abc4cdd2941763d62db2c8405d596a59932d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 14/77] fix: concurrent first use of a thread's queue must not
 lose queued calls

---
 src/psygnal/_queue.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index b66e14e..76816fe 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import defaultdict
 from queue import Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
@@ -26,9 +25,7 @@ class QueuedCallback(WeakCallback):
         thread will be used.
     """
 
-    _GLOBAL_QUEUE: ClassVar[defaultdict[Thread, Queue[CbArgsTuple]]] = defaultdict(
-        Queue
-    )
+    _GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = {}
 
     def __init__(
         self,
@@ -60,7 +57,7 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._queued_cb, args))
+            _queue_for(self._cbthread).put((self._queued_cb, args))
 
     def _queued_cb(self, args: tuple = ()) -> None:
         # the object may have died while the call was waiting in the queue
@@ -71,6 +68,15 @@ class QueuedCallback(WeakCallback):
         return self._wrapped.dereference()
 
 
+def _queue_for(thread: Thread) -> Queue[CbArgsTuple]:
+    """Return the (one and only) queue of `thread`."""
+    queues = QueuedCallback._GLOBAL_QUEUE
+    if (queue := queues.get(thread)) is None:
+        # setdefault is atomic: two threads never end up with different queues
+        queue = queues.setdefault(thread, Queue())
+    return queue
+
+
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
 
@@ -89,7 +95,7 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = _queue_for(_thread)
 
     while not queue.empty():
         cb, args = queue.get()
-- 
2.43.0


From 3edffda73d02c4c6584b13ff0612230d525d44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 15/77] fix: emit_queued() must not block when another thread
 empties the same queue

---
 src/psygnal/_queue.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 76816fe..2fea523 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from queue import Queue
+from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
 
@@ -97,8 +97,12 @@ def emit_queued(thread: Thread | None = None) -> None:
     _thread = current_thread() if thread is None else thread
     queue = _queue_for(_thread)
 
-    while not queue.empty():
-        cb, args = queue.get()
+    while True:
+        try:
+            # not blocking: another thread may be draining the same queue
+            cb, args = queue.get_nowait()
+        except Empty:
+            break
         try:
             cb(args)
         except Exception as e:  # pragma: no cover
-- 
2.43.0


From f42b8827c710d1d92e612debf12bfcdab7f1d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 16/77] fix: concurrent first access to a Signal attribute must
 give one SignalInstance

---
 src/psygnal/_signal.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0d9a439..c81d24f 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -294,6 +294,9 @@ class Signal:
     # each thread has its own stack of emissions
     _emission_state: ClassVar[threading.local] = threading.local()
 
+    # held while creating a signal instance.
+    _cache_lock: ClassVar[Any] = threading.RLock()
+
     def __init__(
         self,
         *types: type[Any] | Signature,
@@ -369,19 +372,30 @@ class Signal:
             return self
         if id(instance) in self._signal_instance_cache:
             return self._signal_instance_cache[id(instance)]
-        signal_instance = self._create_signal_instance(instance)
 
-        # cache this signal instance so that future access returns the same instance.
-        try:
-            # first, try to assign it to instance.name ... this essentially breaks the
-            # descriptor, (i.e. __get__ will never again be called for this instance)
-            # (note, this is the same mechanism used in the `cached_property` decorator)
-            attr_name = self._attr_name or self._name
-            setattr(instance, cast("str", attr_name), signal_instance)
-        except AttributeError:
-            # if that fails, which may happen in slotted classes, then we fall back to
-            # our internal cache
-            self._cache_signal_instance(instance, signal_instance)
+        attr_name = cast("str", self._attr_name or self._name)
+        with self._cache_lock:
+            # look again: another thread may have been here in the meantime, and a
+            # Signal that is assigned to several attributes is stored under only one.
+            if id(instance) in self._signal_instance_cache:
+                return self._signal_instance_cache[id(instance)]
+            cached = getattr(instance, "__dict__", {}).get(attr_name)
+            if isinstance(cached, SignalInstance):
+                return cached
+
+            signal_instance = self._create_signal_instance(instance)
+
+            # cache this signal instance so future access returns the same instance.
+            try:
+                # first, try to assign it to instance.name ... this essentially breaks
+                # the descriptor, (i.e. __get__ will never again be called for this
+                # instance) (note, this is the same mechanism used in the
+                # `cached_property` decorator)
+                setattr(instance, attr_name, signal_instance)
+            except AttributeError:
+                # if that fails, which may happen in slotted classes, then we fall back
+                # to our internal cache
+                self._cache_signal_instance(instance, signal_instance)
 
         return signal_instance
 
-- 
2.43.0


From db03760f12b1279f073ac2513d13d8c2b242f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 17/77] fix: an object dying in another thread must not make an
 emission fail

---
 src/psygnal/_queue.py         |  5 +++--
 src/psygnal/_signal.py        | 21 +++++++++++++++++----
 src/psygnal/_weak_callback.py | 14 +++++++++-----
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 2fea523..5aa1f56 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,11 +1,12 @@
 from __future__ import annotations
 
+from contextlib import suppress
 from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
 
 from ._exceptions import EmitLoopError
-from ._weak_callback import WeakCallback
+from ._weak_callback import DeadCallbackError, WeakCallback
 
 Callback = Callable[[tuple[Any, ...]], Any]
 CbArgsTuple = tuple[Callback, tuple]
@@ -61,7 +62,7 @@ class QueuedCallback(WeakCallback):
 
     def _queued_cb(self, args: tuple = ()) -> None:
         # the object may have died while the call was waiting in the queue
-        if self._wrapped.dereference() is not None:
+        with suppress(DeadCallbackError):
             self._wrapped.cb(args)
 
     def dereference(self) -> Callable | None:
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c81d24f..db21f98 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -157,6 +157,7 @@ from ._exceptions import EmitLoopError
 from ._mypyc import mypyc_attr
 from ._queue import QueuedCallback
 from ._weak_callback import (
+    DeadCallbackError,
     StrongFunction,
     WeakCallback,
     WeakSetattr,
@@ -1281,7 +1282,10 @@ class SignalInstance:
         self._recursion_depth += 1
         try:
             for caller in self._iter_slots():
-                caller.cb(args)
+                try:
+                    caller.cb(args)
+                except DeadCallbackError:
+                    pass  # the object just died, in another thread
         except RecursionError as e:
             raise RecursionError(
                 f"RecursionError when emitting signal {self.name!r} with args {args}"
@@ -1343,7 +1347,10 @@ class SignalInstance:
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
         for caller in self._iter_slots():
-            caller.cb(args)
+            try:
+                caller.cb(args)
+            except DeadCallbackError:
+                pass  # the object just died, in another thread
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
@@ -1355,14 +1362,20 @@ class SignalInstance:
                 # we should drop the remaining slots in this round and return
                 break
             self._caller = caller
-            caller.cb(args)
+            try:
+                caller.cb(args)
+            except DeadCallbackError:
+                pass  # the object just died, in another thread
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
             for caller in self._iter_slots():
-                caller.cb(args)
+                try:
+                    caller.cb(args)
+                except DeadCallbackError:
+                    pass  # the object just died, in another thread
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
             i += 1
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 6f0644f..c553162 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -193,6 +193,10 @@ def weak_callback(
     raise TypeError(f"unsupported type {type(cb)}")  # pragma: no cover
 
 
+class DeadCallbackError(ReferenceError):
+    """Raised when calling a callback whose object does not exist anymore."""
+
+
 class WeakCallback(Generic[_R]):
     """Abstract Base Class for weakly-referenced callbacks.
 
@@ -413,7 +417,7 @@ class WeakFunction(WeakCallback):
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         f = self._f()
         if f is None:
-            raise ReferenceError("weakly-referenced object no longer exists")
+            raise DeadCallbackError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
         f(*self._args, *args, **self._kwargs)
@@ -465,7 +469,7 @@ class WeakMethod(WeakCallback):
         obj = self._obj_ref()
         func = self._func_ref()
         if obj is None or func is None:
-            raise ReferenceError("weakly-referenced object no longer exists")
+            raise DeadCallbackError("weakly-referenced object no longer exists")
 
         if self._max_args is not None:
             args = args[: self._max_args]
@@ -516,7 +520,7 @@ class WeakBuiltin(WeakCallback):
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         func = getattr(self._obj_ref(), self._func_name, None)
         if func is None:
-            raise ReferenceError("weakly-referenced object no longer exists")
+            raise DeadCallbackError("weakly-referenced object no longer exists")
         if self._max_args is None:
             func(*self._args, *args)
         else:
@@ -551,7 +555,7 @@ class WeakSetattr(WeakCallback):
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         obj = self._obj_ref()
         if obj is None:
-            raise ReferenceError("weakly-referenced object no longer exists")
+            raise DeadCallbackError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
         setattr(obj, self._attr, args[0] if len(args) == 1 else args)
@@ -590,7 +594,7 @@ class WeakSetitem(WeakCallback):
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         obj = self._obj_ref()
         if obj is None:
-            raise ReferenceError("weakly-referenced object no longer exists")
+            raise DeadCallbackError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
         obj[self._itemkey] = args[0] if len(args) == 1 else args
-- 
2.43.0


From 85c654a2ccbcc96d2e24769a85b25959bc57a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 18/77] fix: dropping objects in one thread must not lose or
 skip slots of an emission in another

---
 src/psygnal/_group.py  |  2 +-
 src/psygnal/_signal.py | 79 +++++++++++++++++++++++-------------------
 2 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..ea96976 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -85,7 +85,7 @@ class SignalRelay(SignalInstance):
                     self._slot_relay, check_nargs=False, check_types=False, unique=True
                 )
 
-    def _remove_slot(self, slot: int | WeakCallback | Literal["all"]) -> None:
+    def _remove_slot(self, slot: WeakCallback | Literal["all"]) -> None:
         super()._remove_slot(slot)
         if not self._slots:
             self._disconnect_relay()
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index db21f98..51f7bbb 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -572,6 +572,7 @@ class SignalInstance:
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
         self._slots: list[WeakCallback] = []
+        self._slots_lock = threading.RLock()
         self._is_blocked: bool = False
         self._is_paused: bool = False
         self._lock = threading.RLock()
@@ -795,34 +796,38 @@ class SignalInstance:
 
         Implementing this as a method allows us to override/extend it in subclasses.
         """
-        self._copy_slots_if_emitting()
-        # if no previously connected slots have a priority, and this slot also
-        # has no priority, we can just (quickly) append it to the end of the list.
-        if not self._priority_in_use:
-            if not slot.priority:
-                self._slots.append(slot)
-                return
-            # remember that we have a priority in use, so we skip this check
+        # remember that we have a priority in use
+        if slot.priority:
             self._priority_in_use = True
 
-        # otherwise we need to (slowly) iterate over self._slots to
-        # insert the slot in the correct position based on priority.
-        # High priority slots are placed at the front of the list
-        # low/negative priority slots are at the end of the list
-        for i, s in enumerate(self._slots):
-            if s.priority < slot.priority:
-                self._slots.insert(i, slot)
+        while True:
+            slots = self._slots
+            index = len(slots)
+            # if no connected slots have a priority, we can just (quickly) append it to
+            # the end of the list. Otherwise we need to (slowly) iterate over the slots
+            # to insert the slot in the correct position based on priority.
+            # High priority slots are placed at the front of the list
+            # low/negative priority slots are at the end of the list
+            if self._priority_in_use:
+                for i, s in enumerate(slots):
+                    if s.priority < slot.priority:
+                        index = i
+                        break
+            if self._replace_slots(slots, [*slots[:index], slot, *slots[index:]]):
                 return
-        self._slots.append(slot)
 
-    def _copy_slots_if_emitting(self) -> None:
-        """Replace `self._slots` with a copy if an emission is iterating over it.
+    def _replace_slots(self, old: list[WeakCallback], new: list[WeakCallback]) -> bool:
+        """Replace the list of slots, unless it is no longer `old`.
 
-        Callbacks may connect and disconnect slots.  Doing so must not change the list
-        that is being iterated, otherwise slots would be skipped or called twice.
+        The list itself is never modified: emissions may be iterating over it (callbacks
+        may connect and disconnect slots), and slots are also removed without holding
+        `self._lock`, by whichever thread drops the last reference to their object.
         """
-        if self._recursion_depth > 0:
-            self._slots = self._slots.copy()
+        with self._slots_lock:
+            if self._slots is not old:
+                return False
+            self._slots = new
+            return True
 
     def _iter_slots(self) -> Iterator[WeakCallback]:
         """Iterate over the slots to call for a single emission.
@@ -834,16 +839,19 @@ class SignalInstance:
             if self._slots is slots or any(s is caller for s in self._slots):
                 yield caller
 
-    def _remove_slot(self, slot: Literal["all"] | int | WeakCallback) -> None:
+    def _remove_slot(self, slot: Literal["all"] | WeakCallback) -> None:
         """Remove a slot from the list of slots."""
         # implementing this as a method allows us to override/extend it in subclasses
-        self._copy_slots_if_emitting()
-        if slot == "all":
-            self._slots.clear()
-        elif isinstance(slot, int):
-            self._slots.pop(slot)
-        else:
-            self._slots.remove(cast("WeakCallback", slot))
+        while True:
+            slots = self._slots
+            if isinstance(slot, WeakCallback):
+                # raises ValueError if not connected
+                index = slots.index(slot)
+                remaining = [*slots[:index], *slots[index + 1 :]]
+            else:
+                remaining = []
+            if self._replace_slots(slots, remaining):
+                return
 
     def _try_discard(self, callback: WeakCallback, missing_ok: bool = True) -> None:
         """Try to discard a callback from the list of slots.
@@ -1169,11 +1177,11 @@ class SignalInstance:
                 self._remove_slot("all")
                 return
 
-            idx = self._slot_index(slot)
-            if idx != -1:
-                self._remove_slot(idx)
-            elif not missing_ok:
-                raise ValueError(f"slot is not connected: {slot}")
+            try:
+                self._remove_slot(weak_callback(slot, on_ref_error="ignore"))
+            except ValueError as e:
+                if not missing_ok:
+                    raise ValueError(f"slot is not connected: {slot}") from e
 
     def __contains__(self, slot: Callable) -> bool:
         """Return `True` if slot is connected."""
@@ -1553,6 +1561,7 @@ class SignalInstance:
             else:
                 setattr(self, k, v)
         self._lock = threading.RLock()
+        self._slots_lock = threading.RLock()
         # an emission that is going on in the original is not going on in the copy
         self._emit_queue = deque()
         self._recursion_depth = 0
-- 
2.43.0


From 64aab77c98c924d562976f29ca334c107d7896f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 19/77] fix: Signal access must be stable and separate for
 objects with own __setattr__ and for overridden or aliased Signals

---
 src/psygnal/_signal.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 51f7bbb..65d186e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -380,23 +380,29 @@ class Signal:
             # Signal that is assigned to several attributes is stored under only one.
             if id(instance) in self._signal_instance_cache:
                 return self._signal_instance_cache[id(instance)]
-            cached = getattr(instance, "__dict__", {}).get(attr_name)
-            if isinstance(cached, SignalInstance):
-                return cached
+            # instance.attr_name is ours only if that is where this Signal was declared
+            # (it may be overridden there, or declared with another name here).
+            own_attr = getattr(type(instance), attr_name, None) is self
+            if own_attr:
+                cached = getattr(instance, "__dict__", {}).get(attr_name)
+                if isinstance(cached, SignalInstance):
+                    return cached
 
             signal_instance = self._create_signal_instance(instance)
 
             # cache this signal instance so future access returns the same instance.
-            try:
+            if own_attr:
                 # first, try to assign it to instance.name ... this essentially breaks
                 # the descriptor, (i.e. __get__ will never again be called for this
                 # instance) (note, this is the same mechanism used in the
                 # `cached_property` decorator)
-                setattr(instance, attr_name, signal_instance)
-            except AttributeError:
-                # if that fails, which may happen in slotted classes, then we fall back
-                # to our internal cache
-                self._cache_signal_instance(instance, signal_instance)
+                with suppress(AttributeError):
+                    setattr(instance, attr_name, signal_instance)
+                    if instance.__dict__.get(attr_name) is signal_instance:
+                        return signal_instance
+            # if that fails, which may happen in slotted classes, then we fall back
+            # to our internal cache
+            self._cache_signal_instance(instance, signal_instance)
 
         return signal_instance
 
-- 
2.43.0


From 0205035f54fc1e26de7c6334cad0144a52233f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 20/77] fix: group.disconnect(slot, missing_ok=False) must work
 for slots not connected to every signal

---
 src/psygnal/_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index ea96976..c18b87d 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -19,6 +19,7 @@ from typing import (
     ClassVar,
     Literal,
     NamedTuple,
+    cast,
     overload,
 )
 
@@ -201,9 +202,12 @@ class SignalRelay(SignalInstance):
         ValueError
             If `slot` is not connected and `missing_ok` is False.
         """
+        # the slot need not be connected to each one of the signals
+        connected = slot is None
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
-        super().disconnect(slot, missing_ok)
+            connected = connected or cast("Callable", slot) in sig
+            sig.disconnect(slot)
+        super().disconnect(slot, missing_ok=missing_ok or connected)
 
 
 # NOTE
-- 
2.43.0


From c37bd09b794dea7abd1e1cffcc9a056d5929c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 21/77] fix: pausing a SignalGroup must defer its events

---
 src/psygnal/_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index c18b87d..cc66f2a 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -98,7 +98,10 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
-            self._run_emit_loop((info,))
+            if self._is_paused:
+                self._args_queue.append((info,))
+            else:
+                self._run_emit_loop((info,))
 
     def connect_direct(
         self,
-- 
2.43.0


From 7686af28bb9ed788d871d8c58001dc1baeed97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 22/77] fix: leaving a group block must restore each signal,
 also for nested and partial blocks

---
 src/psygnal/_group.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index cc66f2a..823af49 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -165,14 +165,17 @@ class SignalRelay(SignalInstance):
         for name, sig in self._signals.items():
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             sig.block()
 
     def unblock(self) -> None:
         """Unblock this signal and all emitters, allowing them to emit."""
+        was_blocked = self._is_blocked
         super().unblock()
         for name, sig in self._signals.items():
-            if not self._sig_was_blocked.pop(name, False):
+            # leave the signals alone that were excluded from the block, or that were
+            # blocked before.
+            if not self._sig_was_blocked.pop(name, was_blocked):
                 sig.unblock()
 
     def blocked(
@@ -186,7 +189,7 @@ class SignalRelay(SignalInstance):
             An iterable of signal instances or names to exempt from the block,
             by default ()
         """
-        return _SignalBlocker(self, exclude=exclude)
+        return _GroupBlocker(self, exclude=exclude)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from all signals.
@@ -213,6 +216,33 @@ class SignalRelay(SignalInstance):
         super().disconnect(slot, missing_ok=missing_ok or connected)
 
 
+class _GroupBlocker(_SignalBlocker):
+    """Context manager to block a group, and to restore the state of each signal."""
+
+    def __init__(
+        self, relay: SignalRelay, exclude: Container[str | SignalInstance] = ()
+    ) -> None:
+        super().__init__(relay, exclude)
+        self._relay = relay
+        self._unblock: list[SignalInstance] = []
+
+    def __enter__(self) -> None:
+        relay = self._relay
+        signals = [
+            sig
+            for name, sig in relay._signals.items()
+            if not (name in self._exclude or sig in self._exclude)
+        ]
+        self._unblock = [sig for sig in (relay, *signals) if not sig._is_blocked]
+        for sig in self._unblock:
+            # (not `relay.block()`, which blocks all signals)
+            SignalInstance.block(sig)
+
+    def __exit__(self, *args: Any) -> None:
+        for sig in self._unblock:
+            SignalInstance.unblock(sig)
+
+
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
 # a container for user-determined names.  If names must be added, try to prefix
-- 
2.43.0


From cf02235f7e85af1c259d24fc3f91ea0afcb3e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 23/77] fix: EventedModel must emit and compare the value the
 field has, on that field's signal

---
 src/psygnal/_evented_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..eef0486 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -589,7 +589,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                self._events[name](new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -631,8 +631,10 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        # the field may have been coerced or normalized (by validation or a setter)
+        new_value = getattr(self, name)
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            signal_instance(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 44a5c5631796c1be0ee1c552c8469043cad1d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 24/77] fix: EventedModel must stay usable after a property
 getter or comparison failed

---
 src/psygnal/_evented_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index eef0486..74e9481 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -564,27 +564,29 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         if self._delay_check_semaphore > 0 or len(self._changes_queue) == 0:
             # do not run whole machinery if there is no need
             return
+        # take all recorded changes, so that nothing is left of them if
+        # retrieving or comparing a value fails
+        old_values = self._changes_queue.copy()
+        primary_changes = self._primary_changes.copy()
+        self._changes_queue.clear()
+        self._primary_changes.clear()
+
         to_emit = []
-        for name in self._primary_changes:
+        for name in primary_changes:
             # primary changes should contains only fields
             # that are changed directly by assignment
-            old_value = self._changes_queue[name]
+            old_value = old_values.pop(name)
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-            self._changes_queue.pop(name)
         if not to_emit:
             # If no direct changes was made then we can skip whole machinery
-            self._changes_queue.clear()
-            self._primary_changes.clear()
             return
-        for name, old_value in self._changes_queue.items():
+        for name, old_value in old_values.items():
             # check if any of dependent properties changed
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-        self._changes_queue.clear()
-        self._primary_changes.clear()
 
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
@@ -660,9 +662,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             and not len(group._psygnal_relay)  # no listeners on the SignalGroup
         ):
             return self._super_setattr_(name, value)
-        self._primary_changes.add(name)
         if name not in self._changes_queue:
             self._changes_queue[name] = getattr(self, name, object())
+        self._primary_changes.add(name)
 
         for dep in deps_with_callbacks:
             if dep not in self._changes_queue:
-- 
2.43.0


From b724435a9f24ea527ff9cf99fc2e1b86ecfbf624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 25/77] fix: EventedModel.reset() and update() must restore
 defaults and assign values as they are

---
 src/psygnal/_evented_model.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 74e9481..f02d33a 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -112,7 +112,12 @@ if not PYDANTIC_V1:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
+            if v.is_required():
+                continue  # there is no default value
+            kwargs: dict = {"call_default_factory": True}
+            if getattr(v, "default_factory_takes_validated_data", False):
+                kwargs["validated_data"] = dflt  # pydantic >= 2.10
+            d = v.get_default(**kwargs)
             if (
                 d is None
                 and isinstance(v.annotation, type)
@@ -147,6 +152,8 @@ else:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.__fields__.items():
+            if v.required:
+                continue  # there is no default value
             d = v.get_default()
             if d is None and isinstance(v.type_, pydantic_main.ModelMetaclass):
                 d = _get_defaults(v.type_)  # pragma: no cover
@@ -531,7 +538,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             different realized types with different fields.
         """
         if isinstance(values, pydantic.BaseModel):
-            values = _model_dump(values)
+            values = dict(iter(values))  # does not convert nested models
 
         if not isinstance(values, dict):  # pragma: no cover
             raise TypeError(f"values must be a dict or BaseModel. got {type(values)}")
@@ -539,18 +546,30 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with self.events._psygnal_relay.paused():  # TODO: reduce?
             for key, value in values.items():
                 field = getattr(self, key)
-                if isinstance(field, EventedModel) and recurse:
+                if (
+                    recurse
+                    and isinstance(field, EventedModel)
+                    and isinstance(value, (pydantic.BaseModel, dict))
+                ):
                     field.update(value, recurse=recurse)
                 else:
                     setattr(self, key, value)
 
     def reset(self) -> None:
-        """Reset the state of the model to default values."""
+        """Reset the state of the model to default values.
+
+        Fields that have no default value (required fields) are left as they are.
+        """
+        self._reset(self._defaults)
+
+    def _reset(self, values: Mapping[str, Any]) -> None:
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in values.items():
+            field = getattr(self, name)
+            if isinstance(value, EventedModel) and type(field) is type(value):
+                # keep the nested model (and those listening to it)
+                field._reset(dict(iter(value)))
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 9e2832c9e158fe791b0f3340e7dfdb1c6d49b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 26/77] fix: comparing an array with a value that is no array
 must not switch the field to comparison by identity

---
 src/psygnal/_group_descriptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..16c994f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -105,7 +105,7 @@ def _check_field_equality(
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
         if (
-            hasattr(after, "__array__")
+            (hasattr(after, "__array__") or hasattr(before, "__array__"))
             and np is not None
             and are_equal is not np.array_equal
         ):
-- 
2.43.0


From cefc8b00a7f8a6c8bfeb104963808791d831eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 27/77] fix: inherited property setters of an EventedModel must
 have a signal

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index f02d33a..3acaf90 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -286,8 +286,9 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From ec680363b0e32f55dcd434c24f27cfaf2e802a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 28/77] fix: equality operators given for an evented class must
 be used

---
 src/psygnal/_group_descriptor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 16c994f..2701e5e 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -200,7 +200,7 @@ def _build_dataclass_signal_group(
             if not callable(_equality_operators[name]):  # pragma: no cover
                 raise TypeError("EqOperator must be callable")
             eq_map[name] = _equality_operators[name]
-        else:
+        elif name not in eq_map:  # may be defined in cls.__eq_operators__
             eq_map[name] = _pick_equality_operator(type_)
 
         # Resolve the signal name for the field
@@ -629,6 +629,8 @@ class SignalGroupDescriptor:
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
             # Do not collect fields from owner class
+            if self._eqop:
+                _get_eq_operator_map(owner).update(self._eqop)
             Group = copy.deepcopy(self._signal_group_class)
 
             # Add aliases
-- 
2.43.0


From 3f218090fc09103ead39aa3d4cbb30ad7b94150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 29/77] fix: several SignalGroups per class, aliases in
 subclasses and own __setattr__ methods must emit each change once

---
 src/psygnal/_group_descriptor.py | 43 ++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 2701e5e..2d02bf5 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -4,13 +4,13 @@ import contextlib
 import copy
 import operator
 import sys
+import threading
 import warnings
 import weakref
 from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
-    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -303,16 +303,25 @@ def get_signal_from_field(group: SignalGroup, name: str) -> SignalInstance | Non
     return group[sig_name]
 
 
+# signals of the fields that are currently being set, by thread
+# A class and its base may both have a patched `__setattr__` that call each other.
+# The change must then be emitted by the outermost one only.
+_SETTING: set[tuple[int, int]] = set()
+
+
 class _changes_emitted:
     def __init__(self, obj: object, field: str, signal: SignalInstance) -> None:
         self.obj = obj
         self.field = field
         self.signal = signal
+        self._key = (threading.get_ident(), id(signal))
 
     def __enter__(self) -> None:
         self._prev = getattr(self.obj, self.field, _NULL)
+        _SETTING.add(self._key)
 
     def __exit__(self, *args: Any) -> None:
+        _SETTING.discard(self._key)
         new: Any = getattr(self.obj, self.field, _NULL)
         if not _check_field_equality(type(self.obj), self.field, self._prev, new):
             self.signal.emit(new, self._prev)
@@ -375,8 +384,9 @@ def evented_setattr(
     """
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
-        # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        # don't patch twice for the same group
+        patched: tuple[str, ...] = getattr(super_setattr, PATCHED_BY_PSYGNAL, ())
+        if signal_group_name in patched:
             return super_setattr
 
         # pick a slightly faster signal lookup if we don't need aliases
@@ -398,10 +408,16 @@ def evented_setattr(
             if signal is None or len(signal) < 1:
                 return super_setattr(self, name, value)
 
+            # nor if an enclosing call is already looking for changes of this field
+            if (threading.get_ident(), id(signal)) in _SETTING:
+                return super_setattr(self, name, value)
+
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        setattr(
+            _setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched, signal_group_name)
+        )
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -508,10 +524,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -552,6 +564,10 @@ class SignalGroupDescriptor:
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
 
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        self._instance_map: dict[int, SignalGroup] = {}
+
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
         self._name = name
@@ -559,14 +575,14 @@ class SignalGroupDescriptor:
             # This is the flag that identifies this object as evented
             setattr(owner, PSYGNAL_GROUP_NAME, name)
 
-    def _do_patch_setattr(self, owner: type, with_aliases: bool = True) -> None:
+    def _do_patch_setattr(self, owner: type) -> None:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
+        name = self._name
+        if name in getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, ()):
             return
 
-        name = self._name
         if not (name and hasattr(owner, name)):  # pragma: no cover
             # this should never happen... but if it does, we'll get errors
             # every time we set an attribute on the class.  So raise now.
@@ -577,7 +593,8 @@ class SignalGroupDescriptor:
             owner.__setattr__ = evented_setattr(  # type: ignore
                 name,
                 owner.__setattr__,  # type: ignore
-                with_aliases=with_aliases,
+                # subclasses inherit the new __setattr__, and may define aliases
+                with_aliases=True,
             )
         except Exception as e:  # pragma: no cover
             # not sure what might cause this ... but it will have consequences
@@ -653,5 +670,5 @@ class SignalGroupDescriptor:
                 stacklevel=2,
             )
 
-        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))
+        self._do_patch_setattr(owner)
         return Group
-- 
2.43.0


From 9f9e937c33c7495c3bc13952fd0f9d09f5cadd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 30/77] fix: signal_aliases of a descriptor must not change its
 signal_group_class

---
 src/psygnal/_group_descriptor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 2d02bf5..53ddc08 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import contextlib
-import copy
 import operator
 import sys
 import threading
@@ -492,7 +491,7 @@ class SignalGroupDescriptor:
     collect_fields : bool, optional
         Create a signal for each field in the dataclass. If True, the `SignalGroup`
         instance will be a subclass of `signal_group_class` (SignalGroup if it is None).
-        If False, a deepcopy of `signal_group_class` will be used.
+        If False, `signal_group_class` itself will be used.
         Default to True
     signal_aliases: Mapping[str, str | None] | Callable[[str], str | None] | None
         If defined, a mapping between field name and signal name. Field names that are
@@ -648,11 +647,13 @@ class SignalGroupDescriptor:
             # Do not collect fields from owner class
             if self._eqop:
                 _get_eq_operator_map(owner).update(self._eqop)
-            Group = copy.deepcopy(self._signal_group_class)
+            Group = self._signal_group_class
 
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+            # Add aliases (not to the class itself, which may be used elsewhere)
+            if isinstance(self._signal_aliases, dict) and self._signal_aliases:
+                Group = type(
+                    Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From a35898a25452b92015f1f3d47b4d38a1f3646b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 31/77] fix: EventedList.move and move_multiple must put all
 items where documented

---
 src/psygnal/containers/_evented_list.py | 47 +++++++++++++------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..fa8daac 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -29,6 +29,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
+    SupportsIndex,
     TypeVar,
     Union,
     cast,
@@ -274,8 +275,8 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
-        if dest_index < 0:
-            dest_index += len(self) + 1
+        src_index = self._item_index(src_index)
+        dest_index = self._insertion_index(dest_index)
         if dest_index in (src_index, src_index + 1):
             # this is a no-op
             return False
@@ -289,6 +290,16 @@ class EventedList(MutableSequence[_T]):
         self.events.reordered.emit()
         return True
 
+    def _item_index(self, index: SupportsIndex) -> int:
+        """Return non-negative `index` of an existing item, or raise IndexError."""
+        return range(len(self))[index]
+
+    def _insertion_index(self, index: int) -> int:
+        """Return non-negative `index` to insert before (-1 is the end)."""
+        if index < 0:
+            index += len(self) + 1
+        return max(0, min(index, len(self)))
+
     def move_multiple(self, sources: Iterable[Index], dest_index: int = 0) -> int:
         """Move a batch of `sources` indices, to a single destination.
 
@@ -365,34 +376,24 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                to_move.append(self._item_index(idx))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
                 )  # pragma: no cover
 
         to_move = list(dict.fromkeys(to_move))
-
-        if dest_index < 0:
-            dest_index += len(self) + 1
-
-        d_inc = 0
-        popped: list[int] = []
-        for i, src in enumerate(to_move):
-            if src != dest_index:
-                # we need to decrement the src_i by 1 for each time we have
-                # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
-                # if source is past the insertion point, increment src for each
-                # previous insertion
-                if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
-
-            popped.append(src)
-            # if the item moved up, increment the destination index
+        dest_index = self._insertion_index(dest_index)
+
+        order = list(range(len(self)))  # where the items are after each move
+        for item in to_move:
+            src = order.index(item)
+            if dest_index not in (src, src + 1):  # otherwise it is a no-op
+                yield src, dest_index
+                order.insert(dest_index - (src < dest_index), order.pop(src))
+            # if the item moved up, the next one must go behind it
             if dest_index <= src:
-                d_inc += 1
+                dest_index += 1
 
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
-- 
2.43.0


From 8e45d83cb635f93f4b4e52f687dcc61bbfb69780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 32/77] fix: EventedList must treat items that are lists, and
 bad indices, like a list does

---
 src/psygnal/containers/_evented_list.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index fa8daac..04c38f7 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -24,6 +24,7 @@ cover this in test_evented_list.py)
 
 from __future__ import annotations
 
+import operator
 from collections.abc import Iterable, Mapping, MutableSequence
 from typing import (
     TYPE_CHECKING,
@@ -137,6 +138,7 @@ class EventedList(MutableSequence[_T]):
 
     def insert(self, index: int, value: _T) -> None:
         """Insert `value` before index."""
+        index = operator.index(index)  # TypeError before anything happened
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
@@ -152,7 +154,8 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        # (an item may be a list, too)
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
@@ -189,10 +192,10 @@ class EventedList(MutableSequence[_T]):
 
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
-        if isinstance(key, int):
-            yield (self, key if key >= 0 else key + len(self))
-        elif isinstance(key, slice):
+        if isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
+        elif hasattr(key, "__index__"):
+            yield (self, self._item_index(key))
         else:
             n = repr(type(key).__name__)
             raise TypeError(f"EventedList indices must be integers or slices, not {n}")
@@ -292,7 +295,10 @@ class EventedList(MutableSequence[_T]):
 
     def _item_index(self, index: SupportsIndex) -> int:
         """Return non-negative `index` of an existing item, or raise IndexError."""
-        return range(len(self))[index]
+        idx = operator.index(index)
+        if not -len(self) <= idx < len(self):
+            raise IndexError("EventedList index out of range")
+        return idx if idx >= 0 else idx + len(self)
 
     def _insertion_index(self, index: int) -> int:
         """Return non-negative `index` to insert before (-1 is the end)."""
-- 
2.43.0


From ac14e9830c967377000d2123f78e8a3aa524cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 33/77] fix: child events of EventedList must follow items that
 are set

---
 src/psygnal/containers/_evented_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 04c38f7..2a31b9f 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -179,6 +179,13 @@ class EventedList(MutableSequence[_T]):
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
 
+        if self._child_events:
+            is_slice = isinstance(key, slice)
+            for item in cast("list", old) if is_slice else (old,):
+                self._disconnect_child_emitters(item)
+            for item in cast("list", value) if is_slice else (value,):
+                self._connect_child_emitters(item)
+
         self.events.changed.emit(key, old, value)
 
     def __delitem__(self, key: Index) -> None:
-- 
2.43.0


From 494b96ee6ec1c71a58892d6f4eac0853fdc3b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 34/77] fix: EventedList must relay the events of the child
 that emitted, with its index

---
 src/psygnal/containers/_evented_list.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 2a31b9f..e001926 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -423,11 +423,17 @@ class EventedList(MutableSequence[_T]):
         emitter = Signal.current_emitter()
         if emitter is None:
             return  # pragma: no cover
-        obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
-            return
+        # by identity: the index of an equal item may be another one
+        for idx, obj in enumerate(self._data):
+            if obj is not None and obj is emitter.instance:
+                break
+        else:
+            # not all emitters are bound to the object that has them
+            for idx, obj in enumerate(self._data):
+                if any(e is emitter for e in iter_signal_instances(obj)):
+                    break
+            else:  # pragma: no cover
+                return
 
         if (
             args
-- 
2.43.0


From a3a3508cb11353b21009cb39b10ff92eaa9add71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 35/77] fix: EventedList must report the item that _pre_insert
 returned

---
 src/psygnal/containers/_evented_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e001926..e988791 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -142,8 +142,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, value)
-        self._post_insert(value)
+        self.events.inserted.emit(index, _value)
+        self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
-- 
2.43.0


From ca39fe97387a9dc98fe12faa1bf9946e14891439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 36/77] fix: EventedDict must not emit events for a value it
 refuses

---
 src/psygnal/containers/_evented_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 5f60338..2e8b2ea 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -174,6 +174,7 @@ class EventedDict(TypedMutableMapping[_K, _V]):
         super().__init__(data, basetype=basetype, **kwargs)
 
     def __setitem__(self, key: _K, value: _V) -> None:
+        self._type_check(value)  # before anything is emitted
         if key not in self._dict:
             self.events.adding.emit(key)
             super().__setitem__(key, value)
-- 
2.43.0


From 4845d5f51e625712a7228d270858844c53136074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 37/77] fix: EventedDict.popitem() must remove the last item,
 as a dict does

---
 src/psygnal/containers/_evented_dict.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 2e8b2ea..c179a01 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -59,6 +59,15 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
     def __getitem__(self, key: _K) -> _V:
         return self._dict[key]
 
+    def popitem(self) -> tuple[_K, _V]:
+        """Remove and return the last (key, value) pair, as a dict does."""
+        if not self._dict:
+            raise KeyError("popitem(): dictionary is empty")
+        key = next(reversed(self._dict))
+        value = self[key]
+        del self[key]
+        return key, value
+
     def __len__(self) -> int:
         return len(self._dict)
 
-- 
2.43.0


From 8ec472731025e83a9026f1dc56918db93621b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 38/77] fix: evented set methods must work with repeated items,
 iterators, themselves or nothing as argument

---
 src/psygnal/containers/_evented_set.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..07f46f9 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        for i in chain(*(tuple(x) if x is self else x for x in s)):
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +134,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +157,10 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)  # each item once, `__s` may be an iterator
+        a = chain(
+            (i for i in other if i not in self), (i for i in self if i not in other)
+        )
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +169,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in dict.fromkeys(__s):  # each item once, `__s` may be self
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From 72d8ce6646aaac504299adb7c7e0b7052d86ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 39/77] fix: in place operators of evented sets must emit one
 event

---
 src/psygnal/containers/_evented_set.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 07f46f9..1cbae15 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -181,6 +181,24 @@ class _BaseMutableSet(MutableSet[_T]):
         new.update(*s)
         return new
 
+    # in place operators: MutableSet would add or discard the items one by one
+
+    def __ior__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+        self.update(other)
+        return self
+
+    def __iand__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+        self.intersection_update(other)
+        return self
+
+    def __isub__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+        self.difference_update(other)
+        return self
+
+    def __ixor__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+        self.symmetric_difference_update(other)
+        return self
+
     # PYDANTIC SUPPORT
 
     @classmethod
-- 
2.43.0


From 4a5a83772b32cc1ffca0eafbf0bf68286026384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 40/77] fix: type annotations of the previous fixes

---
 src/psygnal/_evented_model.py           |  4 ++--
 src/psygnal/_signal.py                  |  2 +-
 src/psygnal/containers/_evented_list.py | 10 +++++-----
 src/psygnal/containers/_evented_set.py  |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 3acaf90..8a3378d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -110,7 +110,7 @@ if not PYDANTIC_V1:
         obj: Union[pydantic.BaseModel, type[pydantic.BaseModel]],
     ) -> dict[str, Any]:
         """Get possibly nested default values for a Model object."""
-        dflt = {}
+        dflt: dict[str, Any] = {}
         for k, v in obj.model_fields.items():
             if v.is_required():
                 continue  # there is no default value
@@ -552,7 +552,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
                     and isinstance(field, EventedModel)
                     and isinstance(value, (pydantic.BaseModel, dict))
                 ):
-                    field.update(value, recurse=recurse)
+                    field.update(cast("Any", value), recurse=recurse)
                 else:
                     setattr(self, key, value)
 
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 65d186e..6f15819 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -399,7 +399,7 @@ class Signal:
                 with suppress(AttributeError):
                     setattr(instance, attr_name, signal_instance)
                     if instance.__dict__.get(attr_name) is signal_instance:
-                        return signal_instance
+                        return cast("SignalInstance", signal_instance)
             # if that fails, which may happen in slotted classes, then we fall back
             # to our internal cache
             self._cache_signal_instance(instance, signal_instance)
diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e988791..f03d613 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -153,9 +153,9 @@ class EventedList(MutableSequence[_T]):
 
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
-        result = self._data[key]
-        # (an item may be a list, too)
-        return self.__newlike__(result) if isinstance(key, slice) else result
+        if isinstance(key, slice):  # (an item may be a list, too)
+            return self.__newlike__(self._data[key])
+        return self._data[key]
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
@@ -181,9 +181,9 @@ class EventedList(MutableSequence[_T]):
 
         if self._child_events:
             is_slice = isinstance(key, slice)
-            for item in cast("list", old) if is_slice else (old,):
+            for item in cast("list", old if is_slice else [old]):
                 self._disconnect_child_emitters(item)
-            for item in cast("list", value) if is_slice else (value,):
+            for item in cast("list", value if is_slice else [value]):
                 self._connect_child_emitters(item)
 
         self.events.changed.emit(key, old, value)
diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 1cbae15..d752d7c 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -183,7 +183,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     # in place operators: MutableSet would add or discard the items one by one
 
-    def __ior__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+    def __ior__(self, other: Iterable[_T]) -> Self:  # type: ignore
         self.update(other)
         return self
 
@@ -195,7 +195,7 @@ class _BaseMutableSet(MutableSet[_T]):
         self.difference_update(other)
         return self
 
-    def __ixor__(self, other: Iterable[_T]) -> Self:  # type: ignore [misc]
+    def __ixor__(self, other: Iterable[_T]) -> Self:  # type: ignore
         self.symmetric_difference_update(other)
         return self
 
-- 
2.43.0


From 6b97de23c7430c1f80477d34c8aac1e4913f6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:34 +0000
Subject: [PATCH 41/77] fix: Selection must emit active once per change and
 stay consistent when an item is refused

---
 src/psygnal/containers/_selection.py | 72 ++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..1db0a9c 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import Container
+from contextlib import contextmanager
 from typing import TYPE_CHECKING, Any, TypeVar
 
 from psygnal._signal import Signal
@@ -8,7 +9,7 @@ from psygnal._signal import Signal
 from ._evented_set import BailType, EventedOrderedSet, SetEvents
 
 if TYPE_CHECKING:
-    from collections.abc import Iterable
+    from collections.abc import Iterable, Iterator
 
 _T = TypeVar("_T")
 _S = TypeVar("_S")
@@ -79,6 +80,8 @@ class Selection(EventedOrderedSet[_T]):
         self._active: _T | None = None
         self._current_: _T | None = None
         self._parent: Container | None = parent
+        self._n_batches: int = 0  # nesting of _batched()
+        self._batch_current: _T | None = None
         super().__init__(iterable=data)
         self._update_active()
 
@@ -108,10 +111,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
-        self._active = value
+        # this also updates (and emits) _active and _current
         self.clear() if value is None else self.select_only(value)
-        self._current = value
-        self.events.active.emit(value)
 
     def clear(self, keep_current: bool = False) -> None:
         """Clear the selection.
@@ -123,7 +124,28 @@ class Selection(EventedOrderedSet[_T]):
         """
         if not keep_current:
             self._current = None
-        super().clear()
+        with self._batched():
+            super().clear()
+
+    def update(self, *others: Iterable[_T]) -> None:
+        """Update this set with the union of this set and others."""
+        with self._batched():
+            super().update(*others)
+
+    def difference_update(self, *s: Iterable[_T]) -> None:
+        """Remove all elements of another set from this set."""
+        with self._batched():
+            super().difference_update(*s)
+
+    def intersection_update(self, *s: Iterable[_T]) -> None:
+        """Update this set with the intersection of itself and another."""
+        with self._batched():
+            super().intersection_update(*s)
+
+    def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
+        """Update this set with the symmetric difference of itself and another."""
+        with self._batched():
+            super().symmetric_difference_update(__s)
 
     def toggle(self, obj: _T) -> None:
         """Toggle selection state of obj."""
@@ -131,19 +153,39 @@ class Selection(EventedOrderedSet[_T]):
 
     def select_only(self, obj: _T) -> None:
         """Unselect everything but `obj`. Add to selection if not currently selected."""
-        self.intersection_update({obj})
-        self.add(obj)
+        with self._batched():
+            self.add(obj)  # first, it may be refused
+            self.intersection_update({obj})
+
+    @contextmanager
+    def _batched(self) -> Iterator[None]:
+        """Update the active item only once, after all changes made in the context."""
+        self._n_batches += 1
+        try:
+            yield
+        finally:
+            self._n_batches -= 1
+            if not self._n_batches:
+                current, self._batch_current = self._batch_current, None
+                if current is not None and current in self:
+                    self._current = current
+                self._update_active()
 
     def _update_active(self) -> None:
         """On a selection event, update the active item based on selection.
 
         An active item is a single selected item.
         """
-        if len(self) == 1:
-            self.active = next(iter(self))
-        elif self._active is not None:
-            self._active = None
-            self.events.active.emit(None)
+        active = next(iter(self)) if len(self) == 1 else None
+        if self._n_batches:
+            if active is not None:
+                self._batch_current = active
+            return
+        if active != self._active:
+            self._active = active
+            if active is not None:
+                self._current = active
+            self.events.active.emit(active)
 
     def _get_events_class(self) -> SelectionEvents:
         """Override SetEvents with SelectionEvents."""
@@ -181,5 +223,7 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
-        self._selection.intersection_update(new_selection)
-        self._selection.update(new_selection)
+        new_selection = tuple(new_selection)  # it may be an iterator
+        with self._selection._batched():
+            self._selection.intersection_update(new_selection)
+            self._selection.update(new_selection)
-- 
2.43.0


From 1d8ddeb66762429586391f0e1afec3967bf98c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 42/77] fix: items replaced in a SelectableEventedList must be
 deselected, and a removed item cannot stay current

---
 .../containers/_selectable_evented_list.py    | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..8bb03da 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -1,7 +1,7 @@
 """MutableSequence with a selection model."""
 
 from collections.abc import Iterable
-from typing import Any, TypeVar
+from typing import Any, TypeVar, cast
 
 from ._evented_list import EventedList, ListEvents
 from ._selection import Selectable
@@ -46,10 +46,36 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
     ):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
-        self.events.removed.connect(self._on_item_removed)
-
-    def _on_item_removed(self, idx: int, obj: Any) -> None:
-        self.selection.discard(obj)
+        self._reversing: bool = False
+
+    def _pre_remove(self, index: int) -> None:
+        super()._pre_remove(index)
+        item = self._data[index]
+        if self._data.count(item) == 1:
+            self._forget(item)
+
+    def _forget(self, item: Any) -> None:
+        """Neither select `item` nor have it as the current item any longer."""
+        self.selection.discard(item)
+        if self.selection._current == item:
+            self.selection._current = None
+
+    def __setitem__(self, key: Any, value: Any) -> None:
+        """Set self[key] to value, and deselect what was there before."""
+        old = self._data[key]
+        super().__setitem__(key, value)
+        if not self._reversing:
+            for item in cast("list", old if isinstance(key, slice) else [old]):
+                if item not in self._data:
+                    self._forget(item)
+
+    def reverse(self, *, emit_individual_events: bool = False) -> None:
+        """Reverse list *IN PLACE*."""
+        self._reversing = True  # items that are set twice do not leave the list
+        try:
+            super().reverse(emit_individual_events=emit_individual_events)
+        finally:
+            self._reversing = False
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
@@ -86,7 +112,10 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         elif not self.selection:
             idx = -1 if step > 0 else 0
         else:
-            idx = self.index(self.selection._current) + step
+            current = self.selection._current
+            if current is None:
+                current = list(self.selection)[-1]
+            idx = self.index(current) + step
         idx_in_sequence = len(self) > idx >= 0
         if wraparound:
             idx = idx % len(self)
-- 
2.43.0


From a13c7e917f0e55308a1ae35094d9d8882535b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 43/77] fix: throttled and debounced functions must not lose
 calls while a timer ends or after cancel(), or when the function raises

---
 src/psygnal/_throttler.py | 97 ++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..2dbb3bd 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from threading import Timer
+from threading import RLock, Timer
 from typing import TYPE_CHECKING, Any, Callable, Generic, Literal, TypeVar
 
 if TYPE_CHECKING:
@@ -31,10 +31,15 @@ class _ThrottlerBase(Generic[P]):
         self._interval: float = interval / 1000
         self._policy: EmissionPolicy = policy
         self._has_pending: bool = False
-        self._timer: Timer = Timer(0, lambda: None)
-        self._timer.start()
         self._args: tuple[Any, ...] = ()
         self._kwargs: dict[str, Any] = {}
+        # Calls have to wait while `_waiting`: from a call until the timer is done.
+        # (Whether the timer's thread is alive does not tell: it also is just before
+        # it starts and after it has ended or was cancelled.)
+        self._lock = RLock()
+        self._waiting: bool = False
+        self._timer_id: int = 0
+        self._timer: Timer = Timer(0, lambda: None)
 
         # this mimics what functools.wraps does, but avoids __dict__ usage and other
         # things that won't work with mypyc... HOWEVER, most of these dynamic
@@ -45,28 +50,51 @@ class _ThrottlerBase(Generic[P]):
         self.__doc__: str | None = getattr(func, "__doc__", None)
         self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
 
-    def _actually_call(self) -> None:
-        self._has_pending = False
-        self.__wrapped__(*self._args, **self._kwargs)
-        self._start_timer()
-
-    def _call_if_has_pending(self) -> None:
-        if self._has_pending:
-            self._actually_call()
+    def _take_pending(self) -> tuple[tuple[Any, ...], dict[str, Any]] | None:
+        """Return arguments of the pending call, if any. It must then be called."""
+        with self._lock:
+            if not self._has_pending:
+                return None
+            self._has_pending = False
+            self._waiting = True
+            return self._args, self._kwargs
+
+    def _actually_call(self, args: tuple[Any, ...], kwargs: dict[str, Any]) -> None:
+        try:
+            self.__wrapped__(*args, **kwargs)
+        finally:
+            self._start_timer()
 
     def _start_timer(self) -> None:
-        self._timer.cancel()
-        self._timer = Timer(self._interval, self._call_if_has_pending)
-        self._timer.start()
+        with self._lock:
+            self._timer.cancel()
+            self._timer_id += 1
+            self._waiting = True
+            self._timer = Timer(self._interval, self._on_timeout, (self._timer_id,))
+            self._timer.start()
+
+    def _on_timeout(self, timer_id: int) -> None:
+        with self._lock:
+            if timer_id != self._timer_id:
+                return  # too late: cancelled or restarted
+            self._waiting = False
+            pending = self._take_pending()
+        if pending is not None:
+            self._actually_call(*pending)
 
     def cancel(self) -> None:
         """Cancel any pending calls."""
-        self._has_pending = False
-        self._timer.cancel()
+        with self._lock:
+            self._has_pending = False
+            self._waiting = False
+            self._timer_id += 1
+            self._timer.cancel()
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
-        self._call_if_has_pending()
+        pending = self._take_pending()
+        if pending is not None:
+            self._actually_call(*pending)
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         raise NotImplementedError("Subclasses must implement this method.")
@@ -105,15 +133,16 @@ class Throttler(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive():
-            if self._policy == "leading":
-                self._actually_call()
-            else:
-                self._start_timer()
+        with self._lock:
+            if self._waiting or self._policy != "leading":
+                self._has_pending = True
+                self._args = args
+                self._kwargs = kwargs
+                if not self._waiting:
+                    self._start_timer()
+                return
+            self._waiting = True
+        self._actually_call(args, kwargs)
 
 
 class Debouncer(_ThrottlerBase, Generic[P]):
@@ -143,13 +172,15 @@ class Debouncer(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive() and self._policy == "leading":
-            self._actually_call()
-        self._start_timer()
+        with self._lock:
+            if self._waiting or self._policy != "leading":
+                self._has_pending = True
+                self._args = args
+                self._kwargs = kwargs
+                self._start_timer()
+                return
+            self._waiting = True
+        self._actually_call(args, kwargs)
 
 
 def throttled(
-- 
2.43.0


From 96b4c87d2f73978bbbb9f71a0413b44a1a48e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 44/77] fix: EventedObjectProxy must set new items and
 unreadable attributes, and emit in_place only for operations that succeed

---
 src/psygnal/containers/_evented_proxy.py | 64 +++++++++++++++++-------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..29b72d5 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,4 +1,5 @@
 from functools import partial
+from operator import getitem, imatmul
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
 
@@ -38,6 +39,14 @@ class CallableProxyEvents(ProxyEvents):
 _OBJ_CACHE: dict[int, ProxyEvents] = {}
 
 
+def _get(getter: Callable, obj: Any, key: Any) -> Any:
+    """Return `getter(obj, key)`, or `_UNSET` if there is no such value."""
+    try:
+        return getter(obj, key)
+    except Exception:
+        return _UNSET
+
+
 class EventedObjectProxy(ObjectProxy, Generic[T]):
     """Create a proxy of `target` that includes an `events` [psygnal.SignalGroup][].
 
@@ -80,9 +89,12 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return _OBJ_CACHE[obj_id]
 
     def __setattr__(self, name: str, value: None) -> None:
-        before = getattr(self, name, _UNSET)
+        before = _get(getattr, self, name)
         super().__setattr__(name, value)
-        if before is not (after := getattr(self, name, _UNSET)):
+        after = _get(getattr, self, name)
+        if after is _UNSET:  # cannot be read: report what was set
+            self.events.attribute_set(name, value)
+        elif before is not after:
             self.events.attribute_set(name, after)
 
     def __delattr__(self, name: str) -> None:
@@ -90,9 +102,12 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        before = _get(getitem, self, key)
         super().__setitem__(key, value)
-        if before is not (after := self[key]):
+        after = _get(getitem, self, key)
+        if after is _UNSET:  # cannot be read: report what was set
+            self.events.item_set(key, value)
+        elif before is not after:
             self.events.item_set(key, after)
 
     def __delitem__(self, key: Any) -> None:
@@ -106,57 +121,70 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return [*dir(self.__wrapped__), "events"]
 
     def __iadd__(self, other: Any) -> T:
+        result = super().__iadd__(other)
         self.events.in_place("add", other)
-        return super().__iadd__(other)  # type: ignore
+        return result  # type: ignore
 
     def __isub__(self, other: Any) -> T:
+        result = super().__isub__(other)
         self.events.in_place("sub", other)
-        return super().__isub__(other)  # type: ignore
+        return result  # type: ignore
 
     def __imul__(self, other: Any) -> T:
+        result = super().__imul__(other)
         self.events.in_place("mul", other)
-        return super().__imul__(other)  # type: ignore
+        return result  # type: ignore
 
     def __imatmul__(self, other: Any) -> T:
+        # not in wrapt
+        super().__setattr__("__wrapped__", imatmul(self.__wrapped__, other))
         self.events.in_place("matmul", other)
-        self.__wrapped__ @= other  # not in wrapt  # type: ignore
-        return self
+        return self  # type: ignore
 
     def __itruediv__(self, other: Any) -> T:
+        result = super().__itruediv__(other)
         self.events.in_place("truediv", other)
-        return super().__itruediv__(other)  # type: ignore
+        return result  # type: ignore
 
     def __ifloordiv__(self, other: Any) -> T:
+        result = super().__ifloordiv__(other)
         self.events.in_place("floordiv", other)
-        return super().__ifloordiv__(other)  # type: ignore
+        return result  # type: ignore
 
     def __imod__(self, other: Any) -> T:
+        result = super().__imod__(other)
         self.events.in_place("mod", other)
-        return super().__imod__(other)  # type: ignore
+        return result  # type: ignore
 
     def __ipow__(self, other: Any) -> T:
+        result = super().__ipow__(other)
         self.events.in_place("pow", other)
-        return super().__ipow__(other)  # type: ignore
+        return result  # type: ignore
 
     def __ilshift__(self, other: Any) -> T:
+        result = super().__ilshift__(other)
         self.events.in_place("lshift", other)
-        return super().__ilshift__(other)  # type: ignore
+        return result  # type: ignore
 
     def __irshift__(self, other: Any) -> T:
+        result = super().__irshift__(other)
         self.events.in_place("rshift", other)
-        return super().__irshift__(other)  # type: ignore
+        return result  # type: ignore
 
     def __iand__(self, other: Any) -> T:
+        result = super().__iand__(other)
         self.events.in_place("and", other)
-        return super().__iand__(other)  # type: ignore
+        return result  # type: ignore
 
     def __ixor__(self, other: Any) -> T:
+        result = super().__ixor__(other)
         self.events.in_place("xor", other)
-        return super().__ixor__(other)  # type: ignore
+        return result  # type: ignore
 
     def __ior__(self, other: Any) -> T:
+        result = super().__ior__(other)
         self.events.in_place("or", other)
-        return super().__ior__(other)  # type: ignore
+        return result  # type: ignore
 
 
 class EventedCallableObjectProxy(EventedObjectProxy):
-- 
2.43.0


From 080d5ea1066c2dd67e4bea8bf3bf54756c6deb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 45/77] fix: EventedCallableObjectProxy must accept keyword
 arguments named self

---
 src/psygnal/containers/_evented_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 29b72d5..9bc17cb 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -233,7 +233,7 @@ class EventedCallableObjectProxy(EventedObjectProxy):
             finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
         return _OBJ_CACHE[obj_id]  # type: ignore
 
-    def __call__(self, *args: Any, **kwargs: Any) -> Any:
+    def __call__(self, /, *args: Any, **kwargs: Any) -> Any:
         """Call the wrapped object and emit a `called` signal."""
         self.events.called(args, kwargs)
         return self.__wrapped__(*args, **kwargs)
-- 
2.43.0


From de39cc8f4beae63ff7a958257635336dac64cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 46/77] fix: global monitors must see the events emitted by
 resume()

---
 src/psygnal/_group.py  |  4 ++++
 src/psygnal/_signal.py | 13 ++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 823af49..77c6794 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -103,6 +103,10 @@ class SignalRelay(SignalInstance):
             else:
                 self._run_emit_loop((info,))
 
+    def _emit_resumed(self, args: tuple[Any, ...]) -> None:
+        # no debug hook: the signal in this group has already called it
+        self._run_emit_loop(args)
+
     def connect_direct(
         self,
         slot: Callable | None = None,
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 6f15819..93ba6d6 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1251,13 +1251,16 @@ class SignalInstance:
             self._args_queue.append(args)
             return
 
+        self._call_debug_hook(args)
+        self._run_emit_loop(args)
+
+    def _call_debug_hook(self, args: tuple[Any, ...]) -> None:
+        """Report the emission of `args` to the global monitor, if there is one."""
         if SignalInstance._debug_hook is not None:
             from ._group import EmissionInfo
 
             SignalInstance._debug_hook(EmissionInfo(self, args))
 
-        self._run_emit_loop(args)
-
     def emit_fast(self, *args: Any) -> None:
         """Fast emit without any checks.
 
@@ -1496,7 +1499,11 @@ class SignalInstance:
         # exception, pause this signal again) these args must not be emitted twice
         self._args_queue = []
         for args in to_emit:
-            self._run_emit_loop(args)
+            self._emit_resumed(args)
+
+    def _emit_resumed(self, args: tuple[Any, ...]) -> None:
+        self._call_debug_hook(args)
+        self._run_emit_loop(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 7e6584f58c5c910455b52737cbd862f2bd8d030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 47/77] fix: monitor_events must accept methods as logger, nest
 globally, and survive failing properties and aliases

---
 src/psygnal/utils.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..50c5996 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from contextlib import contextmanager, suppress
 from functools import partial
 from pathlib import Path
+from types import MethodType
 from typing import TYPE_CHECKING, Any, Callable
 from warnings import warn
 
@@ -21,6 +22,24 @@ def _default_event_monitor(info: EmissionInfo) -> None:
     print(f"{info.signal.name}.emit{info.args!r}")
 
 
+def _n_required_args(func: Callable) -> int:
+    """Return number of positional arguments that `func` needs (0 if unknown)."""
+    if (code := getattr(func, "__code__", None)) is None:
+        return 0
+    n_bound = 1 if isinstance(func, MethodType) else 0
+    n_defaults = len(getattr(func, "__defaults__", None) or ())
+    return int(code.co_argcount - n_bound - n_defaults)
+
+
+# loggers of all active `monitor_events` contexts that monitor all SignalInstances
+_global_loggers: list[Callable[[EmissionInfo], Any]] = []
+
+
+def _call_global_loggers(info: EmissionInfo) -> None:
+    for logger in tuple(_global_loggers):
+        logger(info)
+
+
 @contextmanager
 def monitor_events(
     obj: Any | None = None,
@@ -43,8 +62,7 @@ def monitor_events(
         Whether private signals (starting with an underscore) should also be logged,
         by default False
     """
-    code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    _old_api = _n_required_args(logger) > 1
 
     if obj is None:
         # install the hook globally
@@ -52,7 +70,8 @@ def monitor_events(
             raise ValueError(
                 "logger function must take a single argument (an EmissionInfo instance)"
             )
-        before, SignalInstance._debug_hook = SignalInstance._debug_hook, logger
+        _global_loggers.append(logger)
+        SignalInstance._debug_hook = _call_global_loggers
     else:
         if _old_api:
             warn(
@@ -78,7 +97,9 @@ def monitor_events(
         yield
     finally:
         if obj is None:
-            SignalInstance._debug_hook = before
+            _global_loggers.remove(logger)
+            if not _global_loggers:
+                SignalInstance._debug_hook = None
         else:
             for disconnector in disconnectors:
                 disconnector()
@@ -108,16 +129,19 @@ def iter_signal_instances(
             yield obj[sig]
         return
 
+    seen: list[SignalInstance] = []  # the same instance may have several names
     # Signal attached to Class
     for n in dir(obj):
         if not include_private_attrs and n.startswith("_"):
             continue
-        with suppress(AttributeError, FutureWarning):
+        attr = None
+        with suppress(Exception):  # any error raised by a property
             attr = getattr(obj, n)
-            if isinstance(attr, SignalInstance):
-                yield attr
-            if isinstance(attr, SignalGroup):
-                yield attr._psygnal_relay
+        if isinstance(attr, SignalGroup):
+            attr = attr._psygnal_relay
+        if isinstance(attr, SignalInstance) and not any(attr is s for s in seen):
+            seen.append(attr)
+            yield attr
 
 
 _COMPILED_EXTS = (".so", ".pyd")
-- 
2.43.0


From 2748eac6f8fba9067e5fcc7d05e79ce11ad1c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 48/77] fix: check_types must support Any, None, generic
 aliases and annotated *args

---
 src/psygnal/_signal.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 93ba6d6..9b404b0 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1781,6 +1781,9 @@ def _parameter_types_match(
         for p in fsig.parameters.values()
         if p.kind not in (Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD)
     ]
+    if f_params and f_params[-1].kind is Parameter.VAR_POSITIONAL:
+        # `*args: int` declares the type of all remaining arguments
+        f_params.extend(f_params[-1:] * len(spec.parameters))
     for f_param, spec_param in zip(f_params, spec.parameters.values()):
         f_anno = f_param.annotation
         if f_anno is fsig.empty:
@@ -1812,13 +1815,29 @@ def _hinted_function(obj: Callable) -> Callable:
 _UNION_TYPES = (Union, getattr(types, "UnionType", Union))
 
 
-def _is_subclass(left: type[Any], right: type) -> bool:
-    """Variant of issubclass with support for unions."""
-    if not isclass(left) and get_origin(left) in _UNION_TYPES:
-        return any(issubclass(i, right) for i in get_args(left))
+def _is_subclass(left: Any, right: Any) -> bool:
+    """Variant of issubclass with support for Any, unions, generic aliases and None."""
+    if get_origin(left) in _UNION_TYPES:
+        return any(_is_subclass(i, right) for i in get_args(left))
+    if get_origin(right) in _UNION_TYPES:
+        return any(_is_subclass(left, i) for i in get_args(right))
+    if left is Any or right is Any:
+        return True
+    left, right = _plain_class(left), _plain_class(right)
+    if not (isclass(left) and isclass(right)):
+        return True  # such as a TypeVar: nothing is known about it
     return issubclass(left, right)
 
 
+def _plain_class(hint: Any) -> Any:
+    """Return the class that `hint` is about: `list` for `list[int]`, and so on."""
+    if hint is None:
+        return type(None)
+    if hasattr(hint, "__metadata__"):  # Annotated[X, ...]
+        hint = hint.__origin__
+    return get_origin(hint) or hint
+
+
 def _guess_qtsignal_signature(obj: Any) -> str | None:
     """Return string signature if `obj` is a SignalInstance or Qt emit method.
 
-- 
2.43.0


From 0a8194da07798c124214223e36f25e4b8c87b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 49/77] fix: pickled signal groups must have working relays

---
 src/psygnal/_group.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 77c6794..49eaea7 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -72,6 +72,20 @@ class SignalRelay(SignalInstance):
         self._signals = MappingProxyType(signals)
         self._sig_was_blocked: dict[str, bool] = {}
 
+    def __getstate__(self) -> dict:
+        """Return dict of current state, for pickle."""
+        state = super().__getstate__()
+        state["_signals"] = dict(self._signals)
+        state["_sig_was_blocked"] = dict(self._sig_was_blocked)
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from pickle."""
+        state = {**state, "_signals": MappingProxyType(state["_signals"])}
+        super().__setstate__(state)
+        if self._slots:
+            self._connect_relay()
+
     def _append_slot(self, slot: WeakCallback) -> None:
         super()._append_slot(slot)
         if len(self._slots) == 1:
@@ -82,6 +96,8 @@ class SignalRelay(SignalInstance):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             for sig in self._signals.values():
+                if not hasattr(sig, "_slots_lock"):  # pragma: no cover
+                    continue  # still being restored from a pickle of its own
                 sig.connect(
                     self._slot_relay, check_nargs=False, check_types=False, unique=True
                 )
-- 
2.43.0


From 8039dd9626dca0da018b174e37bf63c897fc2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 50/77] fix: the group of a deep copied object must belong to
 the copy

---
 src/psygnal/_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 49eaea7..cedf911 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -486,7 +486,9 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        # if the instance is being copied as well, then the group belongs to the copy
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
-- 
2.43.0


From 446becd855807e117408950a258cf07211a2abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 51/77] fix: copies of EventedModels must have events of their
 own, and pickle

---
 src/psygnal/_evented_model.py | 41 +++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 8a3378d..be50f2e 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -29,6 +29,7 @@ if TYPE_CHECKING:
     from pydantic._internal import _model_construction as pydantic_main
     from pydantic._internal import _utils as utils
     from pydantic._internal._decorators import PydanticDescriptorProxy
+    from typing_extensions import Self  # py311
     from typing_extensions import TypeGuard  # py310
     from typing_extensions import dataclass_transform as dataclass_transform  # py311
 
@@ -493,6 +494,46 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # will add _events: SignalGroup to the __init__ signature, for *all* user models
         _model_self_._events = Group(_model_self_)  # type: ignore [misc]
 
+    def _detach_from_copied(self) -> None:
+        """Give a copy a state of its own, and none of the connections."""
+        self._events = self.__signal_group__(self)  # type: ignore [misc]
+        self._changes_queue = {}
+        self._primary_changes = set()
+        self._delay_check_semaphore = 0
+
+    def copy(self, **kwargs: Any) -> "Self":
+        """Return a copy of the model, with events of its own."""
+        copied = super().copy(**kwargs)
+        copied._detach_from_copied()
+        return copied
+
+    if not PYDANTIC_V1:
+
+        def __copy__(self) -> "Self":
+            """Return a shallow copy of the model, with events of its own."""
+            copied = super().__copy__()
+            copied._detach_from_copied()
+            return copied
+
+        def __deepcopy__(self, memo: Union[dict[int, Any], None] = None) -> "Self":
+            """Return a deep copy of the model, with events of its own."""
+            copied = super().__deepcopy__(memo)
+            copied._detach_from_copied()
+            return copied
+
+        def __getstate__(self) -> dict[Any, Any]:
+            """Return dict of current state, for pickle (without the events)."""
+            state = super().__getstate__()
+            state["__dict__"] = {
+                k: v for k, v in state["__dict__"].items() if k != "_events"
+            }
+            return state
+
+        def __setstate__(self, state: dict[Any, Any]) -> None:
+            """Restore state from pickle."""
+            super().__setstate__(state)
+            self._detach_from_copied()
+
     # expose the private SignalGroup publicly
     @property
     def events(self) -> SignalGroup:
-- 
2.43.0


From e3059458b0531c70f6c454ce28d6cc9e0492a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 52/77] fix: copies of EventedLists must re-emit child events

---
 src/psygnal/containers/_evented_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index f03d613..a8fc99c 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -232,6 +232,13 @@ class EventedList(MutableSequence[_T]):
     def __copy__(self) -> Self:
         return self.copy()
 
+    def __setstate__(self, state: dict) -> None:
+        """Restore state, of a pickle or a deep copy."""
+        self.__dict__.update(state)
+        if self._child_events:
+            for item in self._data:
+                self._connect_child_emitters(item)
+
     def __add__(self, other: Iterable[_T]) -> Self:
         """Add other to self, return new object."""
         copy = self.copy()
-- 
2.43.0


From 2da841079e3bd733771de9c157c876e29cd82e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 53/77] fix: a copy of a paused signal must not share its queue

---
 src/psygnal/_signal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 9b404b0..adfb295 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1554,6 +1554,7 @@ class SignalInstance:
             "_reemission",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
+        dd["_args_queue"] = list(self._args_queue)
         dd["_instance"] = self._instance()
         dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]
         if len(self._slots) > len(dd["_slots"]):
-- 
2.43.0


From 5ab40bfcd98d98722d53966ccb90f127a85a198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 54/77] fix: pydantic must keep the order of ordered sets

---
 src/psygnal/containers/_evented_set.py | 29 ++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index d752d7c..fab46ad 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -237,6 +237,35 @@ class OrderedSet(_BaseMutableSet[_T]):
         inner = ", ".join(str(x) for x in self._data)
         return f"{self.__class__.__name__}(({inner}))"
 
+    @classmethod
+    def __get_pydantic_core_schema__(
+        cls, source_type: Any, handler: Callable
+    ) -> Mapping[str, Any]:
+        """Return the Pydantic core schema for this object."""
+        from pydantic_core import core_schema
+
+        def _validate(items: list[Any]) -> OrderedSet:
+            try:
+                return cls(items)
+            except TypeError as e:  # not hashable
+                raise ValueError(str(e)) from e
+
+        args = get_args(source_type)
+        return core_schema.no_info_after_validator_function(
+            function=_validate,
+            # (a set would lose the order)
+            schema=core_schema.list_schema(
+                items_schema=handler(args[0]) if args else None,
+            ),
+        )
+
+    @classmethod
+    def __get_pydantic_json_schema__(
+        cls, schema: Any, handler: Callable
+    ) -> dict[str, Any]:
+        """Return the JSON schema for this object."""
+        return {**handler(schema), "uniqueItems": True}
+
 
 class SetEvents(SignalGroup):
     """Events available on [EventedSet][psygnal.containers.EventedSet].
-- 
2.43.0


From 26271aa34526b9c6b9dbbc4dfcb42e5b973169d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 55/77] fix: models with evented containers must be
 serializable

---
 src/psygnal/containers/_evented_dict.py | 11 ++++++++---
 src/psygnal/containers/_evented_list.py |  9 +++++++--
 src/psygnal/containers/_evented_set.py  | 20 +++++++++++++++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index c179a01..d90d347 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -110,11 +110,16 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
         from pydantic_core import core_schema
 
         args = get_args(source_type)
+        schema = core_schema.dict_schema(
+            keys_schema=handler(args[0]) if args else None,
+            values_schema=handler(args[1]) if len(args) > 1 else None,
+        )
         return core_schema.no_info_after_validator_function(
             function=cls,
-            schema=core_schema.dict_schema(
-                keys_schema=handler(args[0]) if args else None,
-                values_schema=handler(args[1]) if len(args) > 1 else None,
+            schema=schema,
+            serialization=core_schema.wrap_serializer_function_ser_schema(
+                lambda v, serialize: serialize(dict(v) if isinstance(v, cls) else v),
+                schema=schema,
             ),
         )
 
diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index a8fc99c..e2beddf 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -461,9 +461,14 @@ class EventedList(MutableSequence[_T]):
         from pydantic_core import core_schema
 
         args = get_args(source_type)
+        schema = core_schema.list_schema(
+            items_schema=handler(args[0]) if args else None,
+        )
         return core_schema.no_info_after_validator_function(
             function=cls,
-            schema=core_schema.list_schema(
-                items_schema=handler(args[0]) if args else None,
+            schema=schema,
+            serialization=core_schema.wrap_serializer_function_ser_schema(
+                lambda v, serialize: serialize(list(v) if isinstance(v, cls) else v),
+                schema=schema,
             ),
         )
diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index fab46ad..ddd5442 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -209,10 +209,15 @@ class _BaseMutableSet(MutableSet[_T]):
         from pydantic_core import core_schema
 
         args = get_args(source_type)
+        schema = core_schema.set_schema(
+            items_schema=handler(args[0]) if args else None,
+        )
         return core_schema.no_info_after_validator_function(
             function=cls,
-            schema=core_schema.set_schema(
-                items_schema=handler(args[0]) if args else None,
+            schema=schema,
+            serialization=core_schema.wrap_serializer_function_ser_schema(
+                lambda v, serialize: serialize(set(v) if isinstance(v, cls) else v),
+                schema=schema,
             ),
         )
 
@@ -251,11 +256,16 @@ class OrderedSet(_BaseMutableSet[_T]):
                 raise ValueError(str(e)) from e
 
         args = get_args(source_type)
+        # (a set would lose the order)
+        schema = core_schema.list_schema(
+            items_schema=handler(args[0]) if args else None,
+        )
         return core_schema.no_info_after_validator_function(
             function=_validate,
-            # (a set would lose the order)
-            schema=core_schema.list_schema(
-                items_schema=handler(args[0]) if args else None,
+            schema=schema,
+            serialization=core_schema.wrap_serializer_function_ser_schema(
+                lambda v, serialize: serialize(list(v) if isinstance(v, cls) else v),
+                schema=schema,
             ),
         )
 
-- 
2.43.0


From 322a4eb6215ea5a008cda2523adafd448543f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 56/77] fix: pydantic models with evented containers of
 themselves must be possible

---
 src/psygnal/containers/_evented_dict.py | 7 +++----
 src/psygnal/containers/_evented_list.py | 5 ++---
 src/psygnal/containers/_evented_set.py  | 8 ++++----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index d90d347..a3ae2b1 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -6,7 +6,6 @@ from collections.abc import Iterable, Iterator, Mapping, MutableMapping, Sequenc
 from typing import (
     TYPE_CHECKING,
     Any,
-    Callable,
     TypeVar,
     Union,
     get_args,
@@ -104,15 +103,15 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
 
     @classmethod
     def __get_pydantic_core_schema__(
-        cls, source_type: Any, handler: Callable
+        cls, source_type: Any, handler: Any
     ) -> Mapping[str, Any]:
         """Return the Pydantic core schema for this object."""
         from pydantic_core import core_schema
 
         args = get_args(source_type)
         schema = core_schema.dict_schema(
-            keys_schema=handler(args[0]) if args else None,
-            values_schema=handler(args[1]) if len(args) > 1 else None,
+            keys_schema=handler.generate_schema(args[0]) if args else None,
+            values_schema=handler.generate_schema(args[1]) if len(args) > 1 else None,
         )
         return core_schema.no_info_after_validator_function(
             function=cls,
diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e2beddf..bd93f04 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -29,7 +29,6 @@ from collections.abc import Iterable, Mapping, MutableSequence
 from typing import (
     TYPE_CHECKING,
     Any,
-    Callable,
     SupportsIndex,
     TypeVar,
     Union,
@@ -455,14 +454,14 @@ class EventedList(MutableSequence[_T]):
 
     @classmethod
     def __get_pydantic_core_schema__(
-        cls, source_type: Any, handler: Callable
+        cls, source_type: Any, handler: Any
     ) -> Mapping[str, Any]:
         """Return the Pydantic core schema for this object."""
         from pydantic_core import core_schema
 
         args = get_args(source_type)
         schema = core_schema.list_schema(
-            items_schema=handler(args[0]) if args else None,
+            items_schema=handler.generate_schema(args[0]) if args else None,
         )
         return core_schema.no_info_after_validator_function(
             function=cls,
diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index ddd5442..77a02e3 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -203,14 +203,14 @@ class _BaseMutableSet(MutableSet[_T]):
 
     @classmethod
     def __get_pydantic_core_schema__(
-        cls, source_type: Any, handler: Callable
+        cls, source_type: Any, handler: Any
     ) -> Mapping[str, Any]:
         """Return the Pydantic core schema for this object."""
         from pydantic_core import core_schema
 
         args = get_args(source_type)
         schema = core_schema.set_schema(
-            items_schema=handler(args[0]) if args else None,
+            items_schema=handler.generate_schema(args[0]) if args else None,
         )
         return core_schema.no_info_after_validator_function(
             function=cls,
@@ -244,7 +244,7 @@ class OrderedSet(_BaseMutableSet[_T]):
 
     @classmethod
     def __get_pydantic_core_schema__(
-        cls, source_type: Any, handler: Callable
+        cls, source_type: Any, handler: Any
     ) -> Mapping[str, Any]:
         """Return the Pydantic core schema for this object."""
         from pydantic_core import core_schema
@@ -258,7 +258,7 @@ class OrderedSet(_BaseMutableSet[_T]):
         args = get_args(source_type)
         # (a set would lose the order)
         schema = core_schema.list_schema(
-            items_schema=handler(args[0]) if args else None,
+            items_schema=handler.generate_schema(args[0]) if args else None,
         )
         return core_schema.no_info_after_validator_function(
             function=_validate,
-- 
2.43.0


From eec187c6e1c382ee94b93df3dc1458b2a5677410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 57/77] fix: partials of one function with different arguments
 are different callbacks

---
 src/psygnal/_queue.py         |  2 ++
 src/psygnal/_weak_callback.py | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 5aa1f56..318699e 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -37,6 +37,8 @@ class QueuedCallback(WeakCallback):
         # keeping the wrapped key allows this slot to be disconnected
         # regardless of whether it was connected with type='queue' or 'direct' ...
         self._key: str = wrapped._key
+        self._args: tuple = getattr(wrapped, "_args", ())
+        self._kwargs: dict = getattr(wrapped, "_kwargs", {})
         self._max_args: int | None = wrapped._max_args
         self._alive: bool = wrapped._alive
         self._on_ref_error = wrapped._on_ref_error
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index c553162..8e15925 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -248,7 +248,8 @@ class WeakCallback(Generic[_R]):
     def __eq__(self, other: object) -> bool:
         # sourcery skip: swap-if-expression
         if isinstance(other, WeakCallback):
-            return self._key == other._key
+            # the bound arguments of a partial are part of its identity
+            return self._key == other._key and _same_bound_args(self, other)
         return NotImplemented
 
     def _try_ref(
@@ -329,6 +330,27 @@ class WeakCallback(Generic[_R]):
         return f"<{self.__class__.__name__} on {self._object_repr}>"  # pragma: no cover
 
 
+def _same(a: Any, b: Any) -> bool:
+    if a is b:
+        return True
+    try:
+        return bool(a == b)
+    except Exception:  # e.g. arrays, which have no single truth value
+        return False
+
+
+def _same_bound_args(cb1: WeakCallback, cb2: WeakCallback) -> bool:
+    """Return True if both callbacks add the same arguments to their function."""
+    args1, args2 = getattr(cb1, "_args", ()), getattr(cb2, "_args", ())
+    kw1, kw2 = getattr(cb1, "_kwargs", None) or {}, getattr(cb2, "_kwargs", None) or {}
+    return (
+        len(args1) == len(args2)
+        and all(_same(a, b) for a, b in zip(args1, args2))
+        and kw1.keys() == kw2.keys()
+        and all(_same(v, kw2[k]) for k, v in kw1.items())
+    )
+
+
 def _kill_and_finalize(
     wcb: WeakCallback, finalize: Callable[[WeakCallback], Any]
 ) -> Callable[[weakref.ReferenceType], None]:
-- 
2.43.0


From 160aab2e7bf4b20ec94b43c998906e173cd1a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 58/77] fix: errors of repr() must not replace or cause other
 errors

---
 src/psygnal/_exceptions.py    | 11 ++++++++++-
 src/psygnal/_signal.py        | 30 +++++++++++++++++-------------
 src/psygnal/_weak_callback.py | 20 +++++++++++++-------
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index c08b3aa..9235e72 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -17,6 +17,14 @@ if TYPE_CHECKING:
 ROOT = str(Path(psygnal.__file__).parent)
 
 
+def safe_repr(obj: object) -> str:
+    """Return `repr(obj)`, for a message that must not fail."""
+    try:
+        return repr(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
 class EmitLoopError(Exception):
     """Error type raised when an exception occurs during a callback."""
 
@@ -55,7 +63,8 @@ class EmitLoopError(Exception):
         if reemission == "queued" and (depth := len(emit_queue) - 1):
             msg += (
                 "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
+                f"at a queue-depth of {depth}.\nEmitting arguments: "
+                f"{safe_repr(emit_queue[-1])})\n"
             )
 
         super().__init__(msg)
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index adfb295..648667a 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -153,7 +153,7 @@ from typing import (
     overload,
 )
 
-from ._exceptions import EmitLoopError
+from ._exceptions import EmitLoopError, safe_repr
 from ._mypyc import mypyc_attr
 from ._queue import QueuedCallback
 from ._weak_callback import (
@@ -630,8 +630,9 @@ class SignalInstance:
     def __repr__(self) -> str:
         """Return repr."""
         name = f" {self._name!r}" if self._name else ""
-        instance = f" on {self.instance!r}" if self.instance is not None else ""
-        return f"<{type(self).__name__}{name}{instance}>"
+        instance = self.instance
+        on = f" on {safe_repr(instance)}" if instance is not None else ""
+        return f"<{type(self).__name__}{name}{on}>"
 
     @overload
     def connect(
@@ -761,7 +762,9 @@ class SignalInstance:
             _on_ref_err: RefErrorChoice = on_ref_error,
         ) -> F:
             if not callable(slot):
-                raise TypeError(f"Cannot connect to non-callable object: {slot}")
+                raise TypeError(
+                    f"Cannot connect to non-callable object: {safe_repr(slot)}"
+                )
 
             with self._lock:
                 if unique and slot in self:
@@ -948,7 +951,7 @@ class SignalInstance:
             maxargs = None
 
         if not hasattr(obj, attr):
-            raise AttributeError(f"Object {obj} has no attribute {attr!r}")
+            raise AttributeError(f"Object {safe_repr(obj)} has no attribute {attr!r}")
 
         with self._lock:
             caller = WeakSetattr(
@@ -1058,7 +1061,7 @@ class SignalInstance:
             maxargs = None
 
         if not hasattr(obj, "__setitem__"):
-            raise TypeError(f"Object {obj} does not support __setitem__")
+            raise TypeError(f"Object {safe_repr(obj)} does not support __setitem__")
 
         with self._lock:
             caller = WeakSetitem(
@@ -1095,7 +1098,7 @@ class SignalInstance:
             If `missing_ok` is `True` and no item setter is connected.
         """
         if not hasattr(obj, "__setitem__"):
-            raise TypeError(f"Object {obj} does not support __setitem__")
+            raise TypeError(f"Object {safe_repr(obj)} does not support __setitem__")
 
         with self._lock:
             caller = WeakSetitem(obj, key, on_ref_error="ignore")
@@ -1146,7 +1149,7 @@ class SignalInstance:
         return None if isinstance(slot_sig, str) else slot_sig, maxargs, True
 
     def _raise_connection_error(self, slot: Callable, extra: str = "") -> NoReturn:
-        name = getattr(slot, "__name__", str(slot))
+        name = getattr(slot, "__name__", None) or safe_repr(slot)
         msg = f"Cannot connect slot {name!r} with signature: {signature(slot)}:\n"
         msg += extra
         msg += f"\n\nAccepted signature: {self.signature}"
@@ -1187,7 +1190,7 @@ class SignalInstance:
                 self._remove_slot(weak_callback(slot, on_ref_error="ignore"))
             except ValueError as e:
                 if not missing_ok:
-                    raise ValueError(f"slot is not connected: {slot}") from e
+                    raise ValueError(f"slot is not connected: {safe_repr(slot)}") from e
 
     def __contains__(self, slot: Callable) -> bool:
         """Return `True` if slot is connected."""
@@ -1234,7 +1237,7 @@ class SignalInstance:
                 self.signature.bind(*args)
             except TypeError as e:
                 raise TypeError(
-                    f"Cannot emit args {args} from signal {self!r} with "
+                    f"Cannot emit args {safe_repr(args)} from signal {self!r} with "
                     f"signature {self.signature}:\n{e}"
                 ) from e
 
@@ -1293,7 +1296,7 @@ class SignalInstance:
         if self._recursion_depth >= RECURSION_LIMIT:
             raise RecursionError(
                 f"Psygnal recursion limit ({RECURSION_LIMIT}) reached when emitting "
-                f"signal {self.name!r} with args {args}"
+                f"signal {self.name!r} with args {safe_repr(args)}"
             )
 
         self._recursion_depth += 1
@@ -1305,7 +1308,8 @@ class SignalInstance:
                     pass  # the object just died, in another thread
         except RecursionError as e:
             raise RecursionError(
-                f"RecursionError when emitting signal {self.name!r} with args {args}"
+                f"RecursionError when emitting signal {self.name!r} "
+                f"with args {safe_repr(args)}"
             ) from e
         except EmitLoopError as e:  # pragma: no cover
             raise e
@@ -1341,7 +1345,7 @@ class SignalInstance:
             except RecursionError as e:
                 raise RecursionError(
                     f"RecursionError when "
-                    f"emitting signal {self.name!r} with args {args}"
+                    f"emitting signal {self.name!r} with args {safe_repr(args)}"
                 ) from e
             except EmitLoopError as e:
                 raise e
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 8e15925..384ba7a 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -16,6 +16,7 @@ from typing import (
 )
 from warnings import warn
 
+from ._exceptions import safe_repr
 from ._mypyc import mypyc_attr
 
 if TYPE_CHECKING:
@@ -381,7 +382,8 @@ class StrongFunction(WeakCallback):
         self._kwargs = kwargs or {}
 
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            args_repr = safe_repr((*args,)).replace(")", " ...)")
+            self._object_repr = f"{self._object_repr}{args_repr}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         if self._max_args is not None:
@@ -434,7 +436,8 @@ class WeakFunction(WeakCallback):
         self._kwargs = kwargs or {}
 
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            args_repr = safe_repr((*args,)).replace(")", " ...)")
+            self._object_repr = f"{self._object_repr}{args_repr}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         f = self._f()
@@ -480,7 +483,8 @@ class WeakMethod(WeakCallback):
         self._args = args
         self._kwargs = kwargs or {}
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            args_repr = safe_repr((*args,)).replace(")", " ...)")
+            self._object_repr = f"{self._object_repr}{args_repr}"
 
     def slot_repr(self) -> str:
         obj = self._obj_ref()
@@ -533,7 +537,8 @@ class WeakBuiltin(WeakCallback):
         self._func_name = obj.__name__
         self._args = args
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            args_repr = safe_repr((*args,)).replace(")", " ...)")
+            self._object_repr = f"{self._object_repr}{args_repr}"
 
     def slot_repr(self) -> str:
         obj = self._obj_ref()
@@ -604,14 +609,15 @@ class WeakSetitem(WeakCallback):
         priority: int = 0,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
-        self._key += f".__setitem__({key!r})"
+        self._key += f".__setitem__({safe_repr(key)})"
         self._obj_ref = self._try_ref(obj, finalize)
         self._itemkey = key
-        self._object_repr += f".__setitem__({key!r}, ...)"
+        self._object_repr += f".__setitem__({safe_repr(key)}, ...)"
 
     def slot_repr(self) -> str:
         obj = self._obj_ref()
-        return f"{obj.__class__.__qualname__}.__setitem__({self._itemkey!r}, ...)"
+        key_repr = safe_repr(self._itemkey)
+        return f"{obj.__class__.__qualname__}.__setitem__({key_repr}, ...)"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         obj = self._obj_ref()
-- 
2.43.0


From 2db8b3de12190c4f76e999662be28c8d766c83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 59/77] fix: subclasses of SignalGroups must have all inherited
 signals with reserved names

---
 src/psygnal/_group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index cedf911..b0f680e 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -362,10 +362,10 @@ class SignalGroup:
         # Collect the Signals also from super-class
         # When subclassing, the Signals have been removed from the attributes,
         # look for cls._psygnal_signals also
-        cls._psygnal_signals = {
-            **getattr(cls, "_psygnal_signals", {}),
-            **_psygnal_signals,
-        }
+        inherited: dict[str, Signal] = {}
+        for base in reversed(cls.__mro__[1:]):
+            inherited.update(base.__dict__.get("_psygnal_signals", {}))
+        cls._psygnal_signals = {**inherited, **_psygnal_signals}
 
         # Emit warning for signal names conflicting with SignalGroup attributes
         reserved = set(dir(SignalGroup))
@@ -376,7 +376,8 @@ class SignalGroup:
         }
         if conflicts:
             for name in conflicts:
-                if isinstance(getattr(cls, name), Signal):
+                # (those of super-classes have been removed there)
+                if isinstance(cls.__dict__.get(name), Signal):
                     delattr(cls, name)
             Names = "Names" if len(conflicts) > 1 else "Name"
             Are = "are" if len(conflicts) > 1 else "is"
-- 
2.43.0


From 9abfd7495e483c83b514294e2d3bee4005a27d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 60/77] fix: builtin methods with keyword arguments, and
 setattr and __setitem__ with any bound arguments, are callbacks like others

---
 src/psygnal/_weak_callback.py | 51 +++++++++++++++--------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 384ba7a..a49de45 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -135,39 +135,24 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
-            try:
-                key = args[0]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "WeakCallback.__setitem__ requires a key argument"
-                ) from e
+        name = getattr(cb, "__name__", None)
+        if name == "__setitem__" and len(args) == 1 and not kwargs:
             obj = cast("SupportsSetitem", cb.__self__)
             return WeakSetitem(
-                obj, key, max_args, finalize, on_ref_error, priority=priority
+                obj, args[0], max_args, finalize, on_ref_error, priority=priority
             )
         return WeakMethod(
             cb, max_args, args, kwargs, finalize, on_ref_error, priority=priority
         )
 
     if isinstance(cb, (MethodWrapperType, BuiltinMethodType)):
-        if kwargs:  # pragma: no cover
-            raise NotImplementedError(
-                "MethodWrapperTypes do not support keyword arguments"
-            )
-
-        if cb is setattr:
-            try:
-                obj, attr = args[:2]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "setattr requires two arguments, an object and an attribute name."
-                ) from e
+        if cb is setattr and len(args) == 2 and not kwargs:
+            obj, attr = args
             return WeakSetattr(
                 obj, attr, max_args, finalize, on_ref_error, priority=priority
             )
         return WeakBuiltin(
-            cb, max_args, args, finalize, on_ref_error, priority=priority
+            cb, max_args, args, finalize, on_ref_error, priority, kwargs=kwargs
         )
 
     if _is_toolz_curry(cb):
@@ -531,11 +516,13 @@ class WeakBuiltin(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        kwargs: dict[str, Any] | None = None,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._obj_ref = self._try_ref(obj.__self__, finalize)
         self._func_name = obj.__name__
         self._args = args
+        self._kwargs = kwargs or {}
         if args:
             args_repr = safe_repr((*args,)).replace(")", " ...)")
             self._object_repr = f"{self._object_repr}{args_repr}"
@@ -545,16 +532,22 @@ class WeakBuiltin(WeakCallback):
         return f"{obj.__class__.__qualname__}.{self._func_name}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
-        func = getattr(self._obj_ref(), self._func_name, None)
-        if func is None:
+        obj = self._obj_ref()
+        if obj is None:
             raise DeadCallbackError("weakly-referenced object no longer exists")
-        if self._max_args is None:
-            func(*self._args, *args)
-        else:
-            func(*self._args, *args[: self._max_args])
+        if self._max_args is not None:
+            args = args[: self._max_args]
+        func = getattr(obj, self._func_name)
+        func(*self._args, *args, **self._kwargs)
 
-    def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
-        return getattr(self._obj_ref(), self._func_name, None)
+    def dereference(self) -> MethodWrapperType | BuiltinMethodType | partial | None:
+        obj = self._obj_ref()
+        if obj is None:
+            return None
+        func = getattr(obj, self._func_name)
+        if self._args or self._kwargs:
+            return partial(func, *self._args, **self._kwargs)
+        return cast("BuiltinMethodType", func)
 
 
 class WeakSetattr(WeakCallback):
-- 
2.43.0


From c1fbab96465dff3a17ffe980d99bce6b525e2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 61/77] fix: callbacks of curried functions and setattr must
 keep arguments and no references

---
 src/psygnal/_weak_callback.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index a49de45..b32f010 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,6 +134,10 @@ def weak_callback(
             )
         )
 
+    if cb is setattr and args and (len(args) != 2 or kwargs):
+        # keep no reference to the object
+        cb, args = MethodType(setattr, args[0]), args[1:]
+
     if isinstance(cb, MethodType):
         name = getattr(cb, "__name__", None)
         if name == "__setitem__" and len(args) == 1 and not kwargs:
@@ -163,10 +167,11 @@ def weak_callback(
                 "version of toolz is not supported. Please open an issue at psygnal."
             )
         return weak_callback(
-            cb_partial,
+            partial(cb_partial, **kwargs) if kwargs else cb_partial,
             *args,
             max_args=max_args,
             finalize=finalize,
+            strong_func=strong_func,
             on_ref_error=on_ref_error,
             priority=priority,
         )
@@ -491,7 +496,7 @@ class WeakMethod(WeakCallback):
         func = self._func_ref()
         if obj is None or func is None:
             return None
-        method = cast(MethodType, func.__get__(obj))
+        method = MethodType(func, obj)
         if self._args or self._kwargs:
             return partial(method, *self._args, **self._kwargs)
         return method
-- 
2.43.0


From 3608c2cdad3f5690067194d007f9ec740542a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 62/77] fix: the nearest declaration of a reserved signal name
 counts in SignalGroups with several bases

---
 src/psygnal/_group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index b0f680e..385c45b 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -364,7 +364,11 @@ class SignalGroup:
         # look for cls._psygnal_signals also
         inherited: dict[str, Signal] = {}
         for base in reversed(cls.__mro__[1:]):
-            inherited.update(base.__dict__.get("_psygnal_signals", {}))
+            for k, sig in base.__dict__.get("_psygnal_signals", {}).items():
+                # (only those declared in `base`: the nearest declaration counts)
+                parents = (getattr(b, "_psygnal_signals", {}) for b in base.__bases__)
+                if not any(signals.get(k) is sig for signals in parents):
+                    inherited[k] = sig
         cls._psygnal_signals = {**inherited, **_psygnal_signals}
 
         # Emit warning for signal names conflicting with SignalGroup attributes
-- 
2.43.0


From abf563720826d1802fb5dca888d112862eec9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 63/77] fix: the nearest definition of a property counts for
 the setters of EventedModels with overridden properties

---
 src/psygnal/_evented_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index be50f2e..75827c6 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -287,6 +287,12 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
+            # (the nearest definition of an inherited property counts)
+            cls.__property_setters__ = {
+                key: attr
+                for key in cls.__property_setters__
+                if isinstance(attr := getattr(cls, key, None), property) and attr.fset
+            }
             for key in cls.__property_setters__:
                 recursion = emission_map.get(key, default_strategy)
                 signals[key] = Signal(object, reemission=recursion)
-- 
2.43.0


From 3bd20e4ce8292591d984631d28168a70e5ae6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 64/77] fix: equality of EventedModels must not depend on which
 of their properties were compared before

---
 src/psygnal/_evented_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 75827c6..253bd62 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -561,7 +561,8 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         if not isinstance(other, EventedModel):
             return bool(_model_dump(self) == other)
 
-        for f_name, _ in self.__eq_operators__.items():
+        # (`__eq_operators__` may have operators of properties as well)
+        for f_name in _get_fields(type(self)):
             if not hasattr(self, f_name) or not hasattr(other, f_name):
                 return False  # pragma: no cover
             a = getattr(self, f_name)
-- 
2.43.0


From 6166b9c1b77b8df791d3ff676afe2fdf74fb91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 65/77] fix: fields of EventedModels on which frozen fields
 depend can be set

---
 src/psygnal/_evented_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 253bd62..a1b8a87 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -722,7 +722,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         deps_with_callbacks = {
             dep_name
             for dep_name in self.__field_dependents__.get(name, ())
-            if len(group[dep_name])
+            if dep_name in group and len(group[dep_name])  # (not if it is frozen)
         }
         if (
             len(signal_instance) < 1  # the signal itself has no listeners
-- 
2.43.0


From 31b814bee2f49423483282a7baa223dc02222b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 66/77] fix: 'latest-only' signals must not keep the last
 callback and its arguments alive

---
 src/psygnal/_signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 648667a..fbd5529 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1374,7 +1374,7 @@ class SignalInstance:
                 pass  # the object just died, in another thread
 
     def _run_emit_loop_latest_only(self) -> None:
-        self._args = args = self._emit_queue.popleft()
+        args = self._emit_queue.popleft()
         self._emission_id += 1
         emission_id = self._emission_id
         for caller in self._iter_slots():
@@ -1382,7 +1382,6 @@ class SignalInstance:
                 # a callback emitted this signal again, in a deeper emit loop.
                 # we should drop the remaining slots in this round and return
                 break
-            self._caller = caller
             try:
                 caller.cb(args)
             except DeadCallbackError:
-- 
2.43.0


From 28e8eefc549659d1296c78abcadf4fb4b2aefd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 67/77] fix: the queues of threads that are gone must not be
 kept

---
 src/psygnal/_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 318699e..082f3c7 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -4,6 +4,7 @@ from contextlib import suppress
 from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
+from weakref import WeakKeyDictionary
 
 from ._exceptions import EmitLoopError
 from ._weak_callback import DeadCallbackError, WeakCallback
@@ -26,7 +27,10 @@ class QueuedCallback(WeakCallback):
         thread will be used.
     """
 
-    _GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = {}
+    # (weak: threads that are gone must not be kept, nor what is queued for them)
+    _GLOBAL_QUEUE: ClassVar[WeakKeyDictionary[Thread, Queue[CbArgsTuple]]] = (
+        WeakKeyDictionary()
+    )
 
     def __init__(
         self,
-- 
2.43.0


From 3b7faeb853351ab7334ae36a4ab33ccf4f2e29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 68/77] fix: errors of queued emissions must name the args that
 were emitted

---
 src/psygnal/_signal.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index fbd5529..80b39eb 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1389,16 +1389,22 @@ class SignalInstance:
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
-        while i < len(self._emit_queue):
-            args = self._emit_queue[i]
-            for caller in self._iter_slots():
-                try:
-                    caller.cb(args)
-                except DeadCallbackError:
-                    pass  # the object just died, in another thread
-                if len(self._emit_queue) > RECURSION_LIMIT:
-                    raise RecursionError
-            i += 1
+        try:
+            while i < len(self._emit_queue):
+                args = self._emit_queue[i]
+                for caller in self._iter_slots():
+                    try:
+                        caller.cb(args)
+                    except DeadCallbackError:
+                        pass  # the object just died, in another thread
+                    if len(self._emit_queue) > RECURSION_LIMIT:
+                        raise RecursionError
+                i += 1
+        except Exception:
+            # the last args in the queue are those that failed
+            while len(self._emit_queue) > i + 1:
+                self._emit_queue.pop()
+            raise
 
     def block(self, exclude: Container[str | SignalInstance] = ()) -> None:
         """Block this signal from emitting.
-- 
2.43.0


From 93e4ac07e3f5c261e7b88730e17de6ae42983fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 69/77] fix: EmitLoopErrors must show the emission and all
 local variables

---
 src/psygnal/_exceptions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index 9235e72..cb004ca 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import contextlib
 import inspect
 import os
 from contextlib import suppress
@@ -15,6 +16,12 @@ if TYPE_CHECKING:
 
 
 ROOT = str(Path(psygnal.__file__).parent)
+# (frames in between those of psygnal, when it uses a context manager)
+_INTERNAL = (ROOT + os.sep, contextlib.__file__)
+
+
+def _is_internal(frame: inspect.FrameInfo) -> bool:
+    return frame.filename.startswith(_INTERNAL)
 
 
 def safe_repr(obj: object) -> str:
@@ -88,7 +95,7 @@ def _build_psygnal_exception_msg(
     # get the first frame in the stack that is not in the psygnal package
     stack = inspect.stack()
     with suppress(Exception):
-        emit_frame = next(fi for fi in stack if ROOT not in fi.filename)
+        emit_frame = next(fi for fi in stack if not _is_internal(fi))
         msg += "\n\n  SIGNAL EMISSION: \n"
         with suppress(IndexError):
             back_frame = stack[stack.index(emit_frame) + 1]
@@ -104,7 +111,7 @@ def _build_psygnal_exception_msg(
             except_frame = inner[-1]
 
             # show the immediately connected callback first
-            first_cb = next((fi for fi in inner if ROOT not in fi.filename), None)
+            first_cb = next((fi for fi in inner if not _is_internal(fi)), None)
             if first_cb and first_cb != except_frame:
                 num_inner = len(inner) - inner.index(first_cb) - 2
                 msg += "\n  CALLBACK CHAIN:\n"
@@ -134,7 +141,7 @@ def _fmt_locals(
     lines = []
     for name, value in f_locals.items():
         if name not in exclude:
-            val_repr = repr(value)
+            val_repr = safe_repr(value)
             if len(val_repr) > 60:
                 val_repr = val_repr[:60] + "..."  # pragma: no cover
             lines.append("{:>{}} = {}".format(name, name_width, val_repr))
-- 
2.43.0


From 4d187037dc8dcd1320dc84341759c4ddc4250f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 70/77] fix: concurrent first access to the events of an object
 must give one group

---
 src/psygnal/_group_descriptor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 53ddc08..502428d 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
+    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -523,6 +524,9 @@ class SignalGroupDescriptor:
     ```
     """
 
+    # held while creating a group.
+    _lock: ClassVar[Any] = threading.RLock()
+
     def __init__(
         self,
         *,
@@ -615,6 +619,10 @@ class SignalGroupDescriptor:
         if instance is None:
             return self
 
+        with self._lock:
+            return self._get_group(instance, owner)
+
+    def _get_group(self, instance: object, owner: type) -> SignalGroup:
         signal_group = self._get_signal_group(owner)
 
         # if we haven't yet instantiated a SignalGroup for this instance,
-- 
2.43.0


From 5f90f83f55e500c1693e566b693b844991f447ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 71/77] fix: (dis)connecting a group must not wait for
 emissions of its signals

---
 src/psygnal/_group.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 385c45b..5474bd4 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -26,6 +26,7 @@ from typing import (
 from psygnal._signal import _NULL, Signal, SignalInstance, _SignalBlocker
 
 from ._mypyc import mypyc_attr
+from ._weak_callback import weak_callback
 
 if TYPE_CHECKING:
     import threading
@@ -86,30 +87,32 @@ class SignalRelay(SignalInstance):
         if self._slots:
             self._connect_relay()
 
-    def _append_slot(self, slot: WeakCallback) -> None:
-        super()._append_slot(slot)
-        if len(self._slots) == 1:
-            self._connect_relay()
+    def _replace_slots(self, old: list[WeakCallback], new: list[WeakCallback]) -> bool:
+        with self._slots_lock:
+            if not super()._replace_slots(old, new):
+                return False
+            # NOTE: do not `connect()` or `disconnect()` the signals here: they would
+            # wait for emissions in other threads, that may be waiting for this relay.
+            if new and not old:
+                self._connect_relay()
+            elif old and not new:
+                self._disconnect_relay()
+            return True
 
     def _connect_relay(self) -> None:
-        # silence any warnings about failed weakrefs (will occur in compiled version)
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            for sig in self._signals.values():
-                if not hasattr(sig, "_slots_lock"):  # pragma: no cover
-                    continue  # still being restored from a pickle of its own
-                sig.connect(
-                    self._slot_relay, check_nargs=False, check_types=False, unique=True
-                )
-
-    def _remove_slot(self, slot: WeakCallback | Literal["all"]) -> None:
-        super()._remove_slot(slot)
-        if not self._slots:
-            self._disconnect_relay()
+        for sig in self._signals.values():
+            if not hasattr(sig, "_slots_lock"):  # pragma: no cover
+                continue  # still being restored from a pickle of its own
+            relay = weak_callback(
+                self._slot_relay, finalize=sig._try_discard, on_ref_error="ignore"
+            )
+            if relay not in sig._slots:
+                sig._append_slot(relay)
 
     def _disconnect_relay(self) -> None:
+        relay = weak_callback(self._slot_relay, on_ref_error="ignore")
         for sig in self._signals.values():
-            sig.disconnect(self._slot_relay)
+            sig._try_discard(relay)
 
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
-- 
2.43.0


From 1245372b1c7eba80db498260f36f82a78aef4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 72/77] fix: a failing callback must not leave evented lists
 and selections inconsistent

---
 src/psygnal/containers/_evented_list.py       |  4 +--
 .../containers/_selectable_evented_list.py    | 25 +++++++++++--------
 src/psygnal/containers/_selection.py          |  6 +++--
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index bd93f04..487163c 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -141,6 +141,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
+        if self._child_events:
+            self._connect_child_emitters(_value)
         self.events.inserted.emit(index, _value)
         self._post_insert(_value)
 
@@ -212,8 +214,6 @@ class EventedList(MutableSequence[_T]):
 
     def _post_insert(self, new_item: _T) -> None:
         """Modify and or handle values after insertion."""
-        if self._child_events:
-            self._connect_child_emitters(new_item)
 
     def _pre_remove(self, index: int) -> None:
         """Modify and or handle values before removal."""
diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 8bb03da..e6416f8 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -49,25 +49,28 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._reversing: bool = False
 
     def _pre_remove(self, index: int) -> None:
-        super()._pre_remove(index)
         item = self._data[index]
         if self._data.count(item) == 1:
             self._forget(item)
+        super()._pre_remove(index)
 
-    def _forget(self, item: Any) -> None:
-        """Neither select `item` nor have it as the current item any longer."""
-        self.selection.discard(item)
-        if self.selection._current == item:
-            self.selection._current = None
+    def _forget(self, *items: Any) -> None:
+        """Neither select `items` nor have one as the current item any longer."""
+        try:
+            self.selection.difference_update(items)
+        finally:
+            if any(self.selection._current == item for item in items):
+                self.selection._current = None
 
     def __setitem__(self, key: Any, value: Any) -> None:
         """Set self[key] to value, and deselect what was there before."""
         old = self._data[key]
-        super().__setitem__(key, value)
-        if not self._reversing:
-            for item in cast("list", old if isinstance(key, slice) else [old]):
-                if item not in self._data:
-                    self._forget(item)
+        try:
+            super().__setitem__(key, value)
+        finally:  # even if a callback failed, the items are gone
+            if not self._reversing:
+                items = cast("list", old if isinstance(key, slice) else [old])
+                self._forget(*(item for item in items if item not in self._data))
 
     def reverse(self, *, emit_individual_events: bool = False) -> None:
         """Reverse list *IN PLACE*."""
diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 1db0a9c..c126269 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -193,8 +193,10 @@ class Selection(EventedOrderedSet[_T]):
 
     def _emit_change(self, added: tuple[_T, ...], removed: tuple[_T, ...]) -> None:
         """Emit a change event."""
-        super()._emit_change(added, removed)
-        self._update_active()
+        try:
+            super()._emit_change(added, removed)
+        finally:  # even if a callback failed, the items have changed
+            self._update_active()
 
     def _pre_add_hook(self, item: _T) -> _T | BailType:
         if self._parent is not None and item not in self._parent:
-- 
2.43.0


From 1edd69f428dddd003531e5a1b470ad57f28f5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 73/77] fix: inserting must not fail if the item is converted
 or a callback removes it

---
 src/psygnal/containers/_selectable_evented_list.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index e6416f8..b46762f 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -80,11 +80,12 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         finally:
             self._reversing = False
 
-    def insert(self, index: int, value: _T) -> None:
-        """Insert item(s) into the list and update the selection."""
-        super().insert(index, value)
-        if self._activate_on_insert:
-            self.selection.active = value
+    def _post_insert(self, new_item: _T) -> None:
+        """Update the selection after insertion."""
+        super()._post_insert(new_item)
+        # (callbacks may have removed the item)
+        if self._activate_on_insert and new_item in self._data:
+            self.selection.active = new_item
 
     def select_all(self) -> None:
         """Select all items in the list."""
-- 
2.43.0


From 01e357398750868e8a21a35265a48503668d649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 74/77] fix: values that cannot be compared do not change the
 equality operator of a field

One failing comparison replaced the operator of the field, for all objects of the
class and all later values (also one given by the user): changes were then missed,
as of a tuple to a list with equal items, or reported for equal values.
---
 src/psygnal/_group_descriptor.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 502428d..0f5b06c 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -57,9 +57,7 @@ def _get_eq_operator_map(cls: type) -> dict[str, EqOperator]:
         return _EQ_OPERATORS.setdefault(cls, {})
 
 
-def _check_field_equality(
-    cls: type, name: str, before: Any, after: Any, _fail: bool = False
-) -> bool:
+def _check_field_equality(cls: type, name: str, before: Any, after: Any) -> bool:
     """Test if two values are equal for a given field.
 
     This function will look for a field-specific operator in the the `__eq_operators__`
@@ -76,9 +74,6 @@ def _check_field_equality(
         The value of the field before the change.
     after : Any
         The value of the field after the change.
-    _fail : bool, optional
-        If True, raise a ValueError if the field is not found in the class.
-        by default False
 
     Returns
     -------
@@ -89,18 +84,14 @@ def _check_field_equality(
         # field didn't exist to begin with (unlikely)
         return after is _NULL  # pragma: no cover
 
-    eq_map = _get_eq_operator_map(cls)
-
     # get and execute the equality operator for the field
-    are_equal = eq_map.setdefault(name, operator.eq)
+    are_equal = _get_eq_operator_map(cls).setdefault(name, operator.eq)
     try:
         # may fail depending on the __eq__ method for the type
         return bool(are_equal(after, before))
     except Exception:
-        if _fail:
-            raise  # pragma: no cover
-
-        # if we fail, we try to pick a new equality operator
+        # these two values cannot be compared with the operator of the field (others
+        # may well be: the field keeps its operator).
         # if it's a numpy array, we use np.array_equal
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
@@ -109,14 +100,12 @@ def _check_field_equality(
             and np is not None
             and are_equal is not np.array_equal
         ):
-            eq_map[name] = np.array_equal
-            return _check_field_equality(cls, name, before, after, _fail=False)
-        else:  # pragma: no cover
-            # at some point, dask array started hitting in the above condition
-            # so we add explicit casing in _pick_equality_operator
-            # but we keep this fallback just in case
-            eq_map[name] = operator.is_
-            return _check_field_equality(cls, name, before, after, _fail=True)
+            with contextlib.suppress(Exception):
+                return bool(np.array_equal(after, before))
+        # at some point, dask array started hitting in the above condition
+        # so we add explicit casing in _pick_equality_operator
+        # but we keep this fallback just in case
+        return after is before
 
 
 def _pick_equality_operator(type_: type | None) -> EqOperator:
-- 
2.43.0


From bf249ab9c1d6c734dc976da8b6bd01e064900a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 75/77] fix: types of inherited fields of msgspec structs

Only the annotations of the class itself were looked at: inherited fields had signals
without type and the default equality operator.
---
 src/psygnal/_dataclass_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_dataclass_utils.py b/src/psygnal/_dataclass_utils.py
index 69b039d..ff31189 100644
--- a/src/psygnal/_dataclass_utils.py
+++ b/src/psygnal/_dataclass_utils.py
@@ -183,7 +183,9 @@ def iter_fields(
         return
 
     if is_msgspec_struct(cls):
+        annotations: dict[str, Any] = {}
+        for base in reversed(cls.__mro__):  # fields may be inherited
+            annotations.update(getattr(base, "__annotations__", {}))
         for m_field in cls.__struct_fields__:
-            type_ = cls.__annotations__.get(m_field, None)
-            yield m_field, type_
+            yield m_field, annotations.get(m_field, None)
         return
-- 
2.43.0


From 9b1317cbc6a3dff9939414be42dfb417fbb35979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 76/77] fix: EventedModels in unions are serialised like other
 models

---
 src/psygnal/_evented_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index a1b8a87..05a678d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -480,7 +480,8 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
     # when field is changed, an event for dependent properties will be emitted.
     __field_dependents__: ClassVar[dict[str, set[str]]]
     __eq_operators__: ClassVar[dict[str, "EqOperator"]]
-    __slots__ = {"__weakref__"}
+    # (`_events` is not in `__dict__`: pydantic would take it for a field)
+    __slots__ = {"__weakref__", "_events"}
     __signal_group__: ClassVar[type[SignalGroup]]
     _changes_queue: dict[str, Any] = PrivateAttr(default_factory=dict)
     _primary_changes: set[str] = PrivateAttr(default_factory=set)
-- 
2.43.0


From e0f3460eb99d7422944691f6f81ae95c2d9f4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 77/77] fix: EventedModel works with PySide2 loaded and
 pydantic >= 2.10

---
 src/psygnal/_evented_model.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 05a678d..ac9f902 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -92,17 +92,21 @@ def no_class_attributes() -> Iterator[None]:  # pragma: no cover
         yield
         return
 
-    # monkey patch the pydantic ClassAttribute object
-    # the second argument to ClassAttribute is the inspect.Signature object
-    def _return2(x: str, y: "Signature") -> "Signature":
-        return y
+    # monkey patch the pydantic ClassAttribute object (LazyClassAttribute as of 2.10)
+    # the second argument is the inspect.Signature object, or a function returning it
+    name = "LazyClassAttribute"
+    if not hasattr(pydantic_main, name):
+        name = "ClassAttribute"
 
-    pydantic_main.ClassAttribute = _return2  # type: ignore
+    def _return2(x: str, y: "Signature | Callable[[], Signature]") -> "Signature":
+        return y() if callable(y) else y
+
+    setattr(pydantic_main, name, _return2)
     try:
         yield
     finally:
         # undo our monkey patch
-        pydantic_main.ClassAttribute = utils.ClassAttribute  # type: ignore
+        setattr(pydantic_main, name, getattr(utils, name))
 
 
 if not PYDANTIC_V1:
-- 
2.43.0

