From cf1b7dc9b787dfb854f967427e6fd2f2388ddffc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 001/132] fix: order overlapping renders and hand out updates
 in completion order

Concurrent render tasks of a component and of one of its ancestors corrupted
each other: a child was rendered after its parent unmounted it, cancelled
half way, or overwritten by a parent's older snapshot, and when several
renders finished together an arbitrary one was handed out first. The client
was left with a stale view or with updates for places it does not have.

Renders of discrete trees still run concurrently. Overlapping ones now wait
for each other, unmounting cancels a scheduled render, and updates are handed
out in the order in which their renders finished.
---
 src/reactpy/core/layout.py | 107 ++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..4b387e5 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -28,8 +28,6 @@ from typing import (
 from uuid import uuid4
 from weakref import ref as weakref
 
-from anyio import Semaphore
-
 from reactpy.config import (
     REACTPY_ASYNC_RENDERING,
     REACTPY_CHECK_VDOM_SPEC,
@@ -73,14 +71,12 @@ class Layout(BaseLayout):
         self._render_tasks_by_id: dict[
             _LifeCycleStateId, Task[LayoutUpdateMessage]
         ] = {}
-        self._render_tasks_ready: Semaphore = Semaphore(0)
-        # Maps a running render task back to the component it belongs to.
-        # Used by the stale-render detection in `_parallel_render` to drop
-        # out-of-order completions when async rendering is enabled and a
-        # newer render for the same component has already been scheduled.
-        self._render_task_to_lcs_id: dict[
-            Task[LayoutUpdateMessage], _LifeCycleStateId
-        ] = {}
+        # Finished render tasks in the order of their completion. Updates must be
+        # handed out in this order since each is relative to the ones before it.
+        self._finished_render_tasks: Queue[Task[LayoutUpdateMessage]] = Queue()
+        # Render tasks which are in progress (as opposed to scheduled or waiting)
+        # along with the component they started from.
+        self._active_renders: dict[Task[LayoutUpdateMessage], _LifeCycleStateId] = {}
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -122,7 +118,6 @@ class Layout(BaseLayout):
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
-        del self._render_task_to_lcs_id
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -212,20 +207,57 @@ class Layout(BaseLayout):
     async def _parallel_render(self) -> LayoutUpdateMessage:
         """Await to fetch the first completed render within our asyncio task group."""
         while True:
-            await self._render_tasks_ready.acquire()
-
-            if not self._render_tasks:  # nocov
-                continue
-
-            done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
+            update_task = await self._finished_render_tasks.get()
             self._render_tasks.discard(update_task)
 
             try:
                 return update_task.result()
-            except CancelledError:  # nocov
+            except CancelledError:
                 continue
 
+    async def _render_when_free(
+        self, lcs_id: _LifeCycleStateId
+    ) -> LayoutUpdateMessage:
+        """Render a component as soon as no overlapping render is in progress
+
+        Discrete component trees are rendered concurrently, but a component must not
+        be rendered by one task while another one is rendering (and thereby moving,
+        updating, or unmounting) one of its ancestors or descendants.
+        """
+        task = cast("Task[LayoutUpdateMessage]", current_task())
+        while overlapping := self._get_overlapping_renders(lcs_id):
+            await wait(overlapping, return_when=FIRST_COMPLETED)
+
+        self._active_renders[task] = lcs_id
+        try:
+            return await self._create_layout_update(
+                self._model_states_by_life_cycle_state_id[lcs_id]
+            )
+        finally:
+            del self._active_renders[task]
+            if self._render_tasks_by_id.get(lcs_id) is task:
+                del self._render_tasks_by_id[lcs_id]
+
+    def _get_overlapping_renders(
+        self, lcs_id: _LifeCycleStateId
+    ) -> list[Task[LayoutUpdateMessage]]:
+        lineage = self._get_lineage(lcs_id)
+        return [
+            task
+            for task, active_lcs_id in self._active_renders.items()
+            if active_lcs_id in lineage or lcs_id in self._get_lineage(active_lcs_id)
+        ]
+
+    def _get_lineage(self, lcs_id: _LifeCycleStateId) -> set[_LifeCycleStateId]:
+        """Get the IDs of the given component and all components above it"""
+        lineage = {lcs_id}
+        model_state = self._model_states_by_life_cycle_state_id[lcs_id]
+        while model_state.has_parent:
+            model_state = model_state.parent
+            if model_state.is_component_state:
+                lineage.add(model_state.life_cycle_state.id)
+        return lineage
+
     async def _create_layout_update(
         self, old_state: _ModelState
     ) -> LayoutUpdateMessage:
@@ -314,20 +346,10 @@ class Layout(BaseLayout):
 
         self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state
 
-        # If this component is scheduled to render, we can cancel that task since we
-        # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
-        # the semaphore token that ``_schedule_render_task`` released is still
-        # paired with an entry the consumer can pick up.  ``asyncio.wait`` returns
-        # cancelled tasks in the done set, and the ``CancelledError`` catch in
-        # ``_parallel_render`` drains the token naturally.
-        if life_cycle_state.id in self._render_tasks_by_id:
-            task = self._render_tasks_by_id[life_cycle_state.id]
-            if task is not current_task():
-                del self._render_tasks_by_id[life_cycle_state.id]
-                self._render_task_to_lcs_id.pop(task, None)
-                task.cancel()
-
         await life_cycle_hook.affect_component_will_render(component)
+        # If this component is scheduled to render, we can cancel that task since we
+        # are rendering it now.
+        self._cancel_scheduled_render(life_cycle_state.id)
         exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)
         try:
             raw_model = component.render()
@@ -573,6 +595,7 @@ class Layout(BaseLayout):
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
                 del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
+                self._cancel_scheduled_render(life_cycle_state.id)
                 await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
@@ -581,19 +604,23 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-        try:
-            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
-        except KeyError:
+        if lcs_id not in self._model_states_by_life_cycle_state_id:
             logger.debug(
                 "Did not render component with model state ID "
                 f"{lcs_id!r} - component already unmounted"
             )
         else:
-            task = create_task(self._create_layout_update(model_state))
-            self._render_task_to_lcs_id[task] = lcs_id
+            task = create_task(self._render_when_free(lcs_id))
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
-            self._render_tasks_ready.release()
+            task.add_done_callback(self._finished_render_tasks.put_nowait)
+
+    def _cancel_scheduled_render(self, lcs_id: _LifeCycleStateId) -> None:
+        task = self._render_tasks_by_id.get(lcs_id)
+        if task is not None and task is not current_task():
+            # The cancelled task is later dropped by ``_parallel_render``
+            del self._render_tasks_by_id[lcs_id]
+            task.cancel()
 
     def __repr__(self) -> str:
         return f"{type(self).__name__}({self.root})"
@@ -778,6 +805,10 @@ class _ModelState:
     def is_component_state(self) -> bool:
         return hasattr(self, "life_cycle_state")
 
+    @property
+    def has_parent(self) -> bool:
+        return hasattr(self, "_parent_ref")
+
     @property
     def parent(self) -> _ModelState:
         parent = self._parent_ref()
-- 
2.43.0


From 28de0de8f0a03a08f151b5b681b71002f7541284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 002/132] fix: recover from a failure between the hooks of a
 component

If the body of a component failed before it had reached all of its hooks,
every later render failed with an IndexError since the state of the missing
hooks was never added.
---
 src/reactpy/core/_life_cycle_hook.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..5d31390 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -139,7 +139,6 @@ class LifeCycleHook:
         "_effect_stops",
         "_effect_tasks",
         "_render_access",
-        "_rendered_atleast_once",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
@@ -155,7 +154,6 @@ class LifeCycleHook:
         self._context_providers: dict[Context[Any], ContextProvider[Any]] = {}
         self._schedule_render_callback = schedule_render
         self._scheduled_render = False
-        self._rendered_atleast_once = False
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
@@ -177,12 +175,12 @@ class LifeCycleHook:
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
 
-        If this hook has not yet rendered, the state is appended to the state tuple.
-        Otherwise, the state is retrieved from the tuple. This allows state to be
+        If no render has reached this piece of state yet, it is appended to the state
+        tuple. Otherwise, the state is retrieved from the tuple. This allows state to be
         preserved across renders.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index == len(self._state):
+            # either this is the first render or earlier ones failed before this point
             result = function()
             self._state.append(result)
         else:
@@ -227,7 +225,6 @@ class LifeCycleHook:
     async def affect_component_did_render(self) -> None:
         """The component completed a render"""
         self.unset_current()
-        self._rendered_atleast_once = True
         self._current_state_index = 0
         self._render_access.release()
         del self.component
-- 
2.43.0


From bd3be812f03b5be18fab64ef503de1554eb705b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 003/132] fix: unmount the children of a component whose render
 failed

The components below it, old or new, were dropped without being unmounted:
their effects kept running, their handlers stayed callable, and their own
later updates were sent for places the client no longer has or ended the
session with 'detached model state'.
---
 src/reactpy/core/_life_cycle_hook.py |  1 +
 src/reactpy/core/layout.py           | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 5d31390..4417759 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -238,6 +238,7 @@ class LifeCycleHook:
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
+        self._effect_funcs.clear()  # not started yet, e.g. because a render failed
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 4b387e5..830dec2 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -362,6 +362,16 @@ class Layout(BaseLayout):
             )
         except Exception as error:
             logger.exception(f"Failed to render {component}")
+            # nothing that is, or was, below this component gets displayed any more
+            await self._unmount_model_states(
+                [
+                    child_state
+                    for state in (new_state, old_state)
+                    if state is not None
+                    for child_state in state.children_by_key.values()
+                ]
+            )
+            new_state.children_by_key.clear()
             new_state.model.current = {
                 "tagName": "",
                 "error": (
@@ -391,6 +401,9 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        # make this state reachable in case rendering fails before it is complete
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
@@ -590,10 +603,13 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+                # the target may have been removed already if a render failed half way
+                self._event_handlers.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
+                if life_cycle_state.id not in self._model_states_by_life_cycle_state_id:
+                    continue  # already unmounted by a render that failed half way
                 del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
                 self._cancel_scheduled_render(life_cycle_state.id)
                 await life_cycle_state.hook.affect_component_will_unmount()
-- 
2.43.0


From a43e4fc1e6d4bf3ffe3a17d4cfbfa1e11a833cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 004/132] fix: do not lose renders scheduled from another
 thread

The event loop could begin (and even finish) the render before the calling
thread had marked it as scheduled. The mark then stayed set forever and all
later state changes of the component went unnoticed.
---
 src/reactpy/core/_life_cycle_hook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 4417759..6deaccd 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -164,13 +164,14 @@ class LifeCycleHook:
     def schedule_render(self) -> None:
         if self._scheduled_render:
             return None
+        # Must be set first since the render may begin in another thread right away
+        self._scheduled_render = True
         try:
             self._schedule_render_callback()
         except Exception:
+            self._scheduled_render = False
             msg = f"Failed to schedule render via {self._schedule_render_callback}"
             logger.exception(msg)
-        else:
-            self._scheduled_render = True
 
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
-- 
2.43.0


From 9f09c86619050a759103e5490dbd15ebc2e230ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 005/132] fix: render when state is set from another thread
 with async rendering

The render task can only be created in the thread of the event loop. The
failure to do so was logged and the change was not displayed.
---
 src/reactpy/core/layout.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 830dec2..eb5e7d4 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -15,6 +15,7 @@ from collections import Counter
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
+from threading import get_ident
 from types import TracebackType
 from typing import (
     Any,
@@ -64,6 +65,8 @@ class Layout(BaseLayout):
 
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
+        self._loop = get_running_loop()
+        self._thread_id = get_ident()
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
@@ -620,6 +623,10 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
+        if get_ident() != self._thread_id:
+            # tasks can only be created by the thread which runs the event loop
+            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
+            return None
         if lcs_id not in self._model_states_by_life_cycle_state_id:
             logger.debug(
                 "Did not render component with model state ID "
@@ -885,6 +892,7 @@ _Type = TypeVar("_Type")
 class _ThreadSafeQueue(Generic[_Type]):
     def __init__(self) -> None:
         self._loop = get_running_loop()
+        self._thread_id = get_ident()
         self._queue: Queue[_Type] = Queue(REACTPY_MAX_QUEUE_SIZE.current)
         self._pending: set[_Type] = set()
         self._put_tasks: dict[_Type, Task[None]] = {}
-- 
2.43.0


From 6ba365c9dfd38fc62bd7068e7abac673a66b1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 006/132] fix: run an effect again even if its previous
 clean-up failed

The clean-up was not forgotten when it raised: it was called once more when the
component unmounted, and the new run of the effect never happened.
---
 src/reactpy/core/hooks.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..869c77e 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -645,6 +645,11 @@ def strictly_equal(x: Any, y: Any) -> bool:
 
 
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
-    if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+    # Reset this first so a failing clean-up is neither repeated nor keeps the next
+    # run of the effect from happening
+    cleanup, cleanup_func.current = cleanup_func.current, None
+    if cleanup:
+        try:
+            cleanup()
+        except Exception:
+            logger.exception("Error in effect clean-up")
-- 
2.43.0


From c7657178632974d5811fcd5a896165a73f904808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 007/132] fix: wait for all effects of a component to stop if
 one of them failed

The first error ended the wait, so the session could end before the other
effects had been cleaned up.
---
 src/reactpy/core/_life_cycle_hook.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 6deaccd..3975dcf 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -244,9 +244,11 @@ class LifeCycleHook:
             stop.set()
         self._effect_stops.clear()
         try:
-            await gather(*self._effect_tasks)
-        except Exception:
-            logger.exception("Error in effect")
+            # wait for all effects even if some of them failed
+            results = await gather(*self._effect_tasks, return_exceptions=True)
+            for error in results:
+                if isinstance(error, Exception):
+                    logger.error("Error in effect", exc_info=error)
         finally:
             self._effect_tasks.clear()
 
-- 
2.43.0


From 2e825473c5e05c39cb19e3f5ac3da55e25fb548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 008/132] fix: stop all effects when a session ends in the
 middle of a render

---
 src/reactpy/core/_life_cycle_hook.py | 17 +++++------
 src/reactpy/core/layout.py           | 44 ++++++++++++++++++----------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 3975dcf..06dbec4 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Event, Task, create_task, gather
+from asyncio import Event, Task, create_task, gather, shield
 from collections.abc import Callable
 from contextvars import ContextVar, Token
 from typing import Any, Protocol, TypeVar
@@ -243,14 +243,13 @@ class LifeCycleHook:
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
-        try:
-            # wait for all effects even if some of them failed
-            results = await gather(*self._effect_tasks, return_exceptions=True)
-            for error in results:
-                if isinstance(error, Exception):
-                    logger.error("Error in effect", exc_info=error)
-        finally:
-            self._effect_tasks.clear()
+        # Wait for all effects even if some of them failed. Being cancelled while waiting
+        # must not keep them from cleaning up.
+        results = await shield(gather(*self._effect_tasks, return_exceptions=True))
+        for error in results:
+            if isinstance(error, Exception):
+                logger.error("Error in effect", exc_info=error)
+        self._effect_tasks.clear()
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index eb5e7d4..8b1001d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -7,6 +7,7 @@ from asyncio import (
     Task,
     create_task,
     current_task,
+    gather,
     get_running_loop,
     sleep,
     wait,
@@ -29,6 +30,8 @@ from typing import (
 from uuid import uuid4
 from weakref import ref as weakref
 
+from anyio import CancelScope
+
 from reactpy.config import (
     REACTPY_ASYNC_RENDERING,
     REACTPY_CHECK_VDOM_SPEC,
@@ -89,6 +92,8 @@ class Layout(BaseLayout):
         # processed all keystrokes without relying on a time-based
         # debounce window.
         self._last_event_seq_by_target: dict[str, int] = {}
+        # Hooks of components whose unmounting has begun but has not been completed
+        self._unmounting_hooks: set[LifeCycleHook] = set()
         root_model_state = _new_root_model_state(self.root, self._schedule_render_task)
         self._root_life_cycle_state_id = root_id = root_model_state.life_cycle_state.id
         self._model_states_by_life_cycle_state_id = {root_id: root_model_state}
@@ -99,21 +104,28 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
-        root_csid = self._root_life_cycle_state_id
-        root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
-
-        for t in self._render_tasks:
-            t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        for t in self._event_processing_tasks.values():
-            t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        await self._unmount_model_states([root_model_state])
-        await self._rendering_queue.close()
+        # clean up even if we exit because the surrounding task group is being cancelled
+        with CancelScope(shield=True):
+            # Wait for everything that was in progress, no matter how it ends. Setting
+            # state while waiting may schedule further renders.
+            while tasks := [
+                *self._render_tasks,
+                *self._event_processing_tasks.values(),
+            ]:
+                self._render_tasks.clear()
+                self._event_processing_tasks.clear()
+                for t in tasks:
+                    t.cancel()
+                await gather(*tasks, return_exceptions=True)
+
+            # Besides the root, and everything below it, this includes components which
+            # were about to be added or removed by a render that has been interrupted.
+            await self._unmount_model_states(
+                list(self._model_states_by_life_cycle_state_id.values())
+            )
+            for hook in list(self._unmounting_hooks):
+                await hook.affect_component_will_unmount()
+            await self._rendering_queue.close()
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
@@ -615,7 +627,9 @@ class Layout(BaseLayout):
                     continue  # already unmounted by a render that failed half way
                 del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
                 self._cancel_scheduled_render(life_cycle_state.id)
+                self._unmounting_hooks.add(life_cycle_state.hook)
                 await life_cycle_state.hook.affect_component_will_unmount()
+                self._unmounting_hooks.discard(life_cycle_state.hook)
 
             to_unmount.extend(model_state.children_by_key.values())
 
-- 
2.43.0


From e93f81404a063938757bc8499680a79a59f767ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 009/132] fix: do not retain effects which have ended until
 their component unmounts

---
 src/reactpy/core/_life_cycle_hook.py | 27 ++++++++++++++-------------
 src/reactpy/core/hooks.py            |  9 ++++++++-
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 06dbec4..1660c9d 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -137,7 +137,6 @@ class LifeCycleHook:
         "_current_state_index",
         "_effect_funcs",
         "_effect_stops",
-        "_effect_tasks",
         "_render_access",
         "_schedule_render_callback",
         "_scheduled_render",
@@ -157,8 +156,7 @@ class LifeCycleHook:
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
-        self._effect_tasks: list[Task[None]] = []
-        self._effect_stops: list[Event] = []
+        self._effect_stops: dict[Task[None], Event] = {}
         self._render_access = Semaphore(1)  # ensure only one render at a time
 
     def schedule_render(self) -> None:
@@ -232,24 +230,27 @@ class LifeCycleHook:
 
     async def affect_layout_did_render(self) -> None:
         """The layout completed a render"""
-        stop = Event()
-        self._effect_stops.append(stop)
-        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)
+        for effect_func in self._effect_funcs:
+            stop = Event()
+            task = create_task(effect_func(stop))
+            self._effect_stops[task] = stop
+            task.add_done_callback(self._effect_did_end)
         self._effect_funcs.clear()
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
         self._effect_funcs.clear()  # not started yet, e.g. because a render failed
-        for stop in self._effect_stops:
+        for stop in self._effect_stops.values():
             stop.set()
-        self._effect_stops.clear()
         # Wait for all effects even if some of them failed. Being cancelled while waiting
         # must not keep them from cleaning up.
-        results = await shield(gather(*self._effect_tasks, return_exceptions=True))
-        for error in results:
-            if isinstance(error, Exception):
-                logger.error("Error in effect", exc_info=error)
-        self._effect_tasks.clear()
+        await shield(gather(*self._effect_stops, return_exceptions=True))
+
+    def _effect_did_end(self, task: Task[None]) -> None:
+        """An effect failed, was stopped, or has been replaced by a later one"""
+        del self._effect_stops[task]
+        if not task.cancelled() and (error := task.exception()) is not None:
+            logger.error("Error in effect", exc_info=error)
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 869c77e..26fb010 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -146,6 +146,7 @@ def use_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
+    latest_stop: Ref[asyncio.Event | None] = use_ref(None)
 
     def decorator(func: _SyncEffectFunc) -> None:
         if inspect.iscoroutinefunction(func):
@@ -155,6 +156,11 @@ def use_effect(
             )
 
         async def effect(stop: asyncio.Event) -> None:
+            # Nothing is left to do for the previous run once it has been cleaned up
+            if latest_stop.current is not None:
+                latest_stop.current.set()
+            latest_stop.current = stop
+
             run_effect_cleanup(cleanup_func)
 
             # Execute the effect and store the clean-up function
@@ -165,7 +171,8 @@ def use_effect(
 
             # Run the clean-up function when the effect is stopped,
             # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            if latest_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
-- 
2.43.0


From 80c797dd30417bf639efb182a50a9de91622c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 010/132] fix: never run an async effect twice at a time

---
 src/reactpy/core/hooks.py | 67 ++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 26fb010..53231b4 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -235,59 +235,54 @@ def use_async_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
-    pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    latest_stop: Ref[asyncio.Event | None] = use_ref(None)
+    run_lock = _use_const(asyncio.Lock)
 
     def decorator(func: _AsyncEffectFunc) -> None:
         async def effect(stop: asyncio.Event) -> None:
-            # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
-                previous_task = pending_task.current
-                if not shield:
-                    previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
-                if pending_task.current is previous_task:
-                    pending_task.current = None
+            # Tell the previous run to stop
+            if latest_stop.current is not None:
+                latest_stop.current.set()
+            latest_stop.current = stop
 
-            run_effect_cleanup(cleanup_func)
+            # Wait for the previous run to finish so that there's only one at any time
+            async with run_lock:
+                # Make sure we always clean up the previous effect's resources
+                run_effect_cleanup(cleanup_func)
 
-            # Execute the effect and store the clean-up function.
-            # We run this in a task so it can be cancelled if the stop signal
-            # is set before the effect completes.
-            task = asyncio.create_task(func())
-            pending_task.current = task
-
-            # Wait for either the effect to complete or the stop signal
-            stop_task = asyncio.create_task(stop.wait())
-            done, _ = await asyncio.wait(
-                [task, stop_task],
-                return_when=asyncio.FIRST_COMPLETED,
-            )
+                # There's no need to begin if we've been told to stop already
+                if stop.is_set() and not shield:
+                    return
 
-            # If the effect completed first, store the cleanup function
-            if task in done:
-                pending_task.current = None
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
-                # Cancel the stop task since we don't need it anymore
+                # We run this in a task so it can be cancelled if the stop signal
+                # is set before the effect completes.
+                task = asyncio.create_task(func())
+
+                # Wait for either the effect to complete or the stop signal
+                stop_task = asyncio.create_task(stop.wait())
+                await asyncio.wait(
+                    [task, stop_task],
+                    return_when=asyncio.FIRST_COMPLETED,
+                )
                 stop_task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
                     await stop_task
-                # Now wait for the stop signal to run cleanup
-                await stop.wait()
-            # Stop signal came first - cancel the effect task
-            else:
+
                 # Prevent task cancellation if the user enabled shielding
                 if not shield:
                     task.cancel()
+
+                # Store the clean-up function once the effect is complete
                 with contextlib.suppress(asyncio.CancelledError):
                     cleanup_func.current = await task
-                if pending_task.current is task:
-                    pending_task.current = None
+
+            # Wait until we get the signal to stop this effect
+            await stop.wait()
 
             # Run the clean-up function when the effect is stopped,
             # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            if latest_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
-- 
2.43.0


From ebc21f05ad2f1606e3b2acee243e8cdf36fe9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 011/132] fix: keep events in order even if the queue of their
 target is full

---
 src/reactpy/core/layout.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 8b1001d..da4da84 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from asyncio import (
     FIRST_COMPLETED,
     CancelledError,
+    Lock,
     Queue,
     Task,
     create_task,
@@ -71,7 +72,7 @@ class Layout(BaseLayout):
         self._loop = get_running_loop()
         self._thread_id = get_ident()
         self._event_handlers: EventHandlerDict = {}
-        self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
+        self._event_queues: dict[str, _EventQueue] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
         self._render_tasks_by_id: dict[
@@ -145,10 +146,7 @@ class Layout(BaseLayout):
         # we just ignore the event.
         target = event["target"]
         if target not in self._event_queues:
-            self._event_queues[target] = cast(
-                "Queue[LayoutEventMessage | dict[str, Any]]",
-                Queue(REACTPY_MAX_QUEUE_SIZE.current),
-            )
+            self._event_queues[target] = _EventQueue()
             self._event_processing_tasks[target] = create_task(
                 self._process_event_queue(target, self._event_queues[target])
             )
@@ -159,9 +157,7 @@ class Layout(BaseLayout):
         if REACTPY_DEBUG.current:
             await sleep(0)
 
-    async def _process_event_queue(
-        self, target: str, queue: Queue[LayoutEventMessage | dict[str, Any]]
-    ) -> None:
+    async def _process_event_queue(self, target: str, queue: _EventQueue) -> None:
         while True:
             event = await queue.get()
 
@@ -900,6 +896,24 @@ class _LifeCycleState(NamedTuple):
     """The current component instance"""
 
 
+class _EventQueue:
+    """Events of a single target in the order of their arrival"""
+
+    def __init__(self) -> None:
+        self._queue: Queue[LayoutEventMessage | dict[str, Any]] = Queue(
+            REACTPY_MAX_QUEUE_SIZE.current
+        )
+        # Without this, a new event could overtake those waiting for a full queue.
+        self._put_access = Lock()
+
+    async def put(self, event: LayoutEventMessage | dict[str, Any]) -> None:
+        async with self._put_access:
+            await self._queue.put(event)
+
+    async def get(self) -> LayoutEventMessage | dict[str, Any]:
+        return await self._queue.get()
+
+
 _Type = TypeVar("_Type")
 
 
-- 
2.43.0


From 4c08c40c2bc29df145c00c185bdf1b21ca3b120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 012/132] fix: drop event handlers whose target changed and
 keep those which moved

---
 src/reactpy/core/layout.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index da4da84..9ee2e45 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -72,6 +72,7 @@ class Layout(BaseLayout):
         self._loop = get_running_loop()
         self._thread_id = get_ident()
         self._event_handlers: EventHandlerDict = {}
+        self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, _EventQueue] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
@@ -130,6 +131,7 @@ class Layout(BaseLayout):
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
+        del self._event_handler_owners
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -455,9 +457,7 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
+        self._remove_event_handlers(old_state)
 
         if not handlers_by_event:
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -472,6 +472,7 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -528,10 +529,18 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         return None
 
+    def _remove_event_handlers(self, model_state: _ModelState) -> None:
+        for target in model_state.targets_by_event.values():
+            # an explicit target may have been passed on to another element already
+            if self._event_handler_owners.get(target) is model_state:
+                del self._event_handler_owners[target]
+                del self._event_handlers[target]
+
     @staticmethod
     def _serialize_event_handler(handler: Any, target: str) -> dict[str, Any]:
         """Build the on-the-wire event handler entry.
@@ -613,9 +622,7 @@ class Layout(BaseLayout):
         while to_unmount:
             model_state = to_unmount.pop()
 
-            for target in model_state.targets_by_event.values():
-                # the target may have been removed already if a render failed half way
-                self._event_handlers.pop(target, None)
+            self._remove_event_handlers(model_state)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From 4aa82f1d2790b8d9757c440efd5fc9ff3444d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 013/132] fix: give each element its own event targets
 regardless of the keys in use

---
 src/reactpy/core/layout.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 9ee2e45..fdf35e1 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -28,6 +28,7 @@ from typing import (
     TypeVar,
     cast,
 )
+from urllib.parse import quote
 from uuid import uuid4
 from weakref import ref as weakref
 
@@ -698,7 +699,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=_make_key_path(parent, key) if parent else "",
     )
 
 
@@ -742,7 +743,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_make_key_path(new_parent, old_model_state.key),
     )
 
 
@@ -759,7 +760,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=_make_key_path(parent, key),
     )
 
 
@@ -776,10 +777,23 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_make_key_path(new_parent, old_model_state.key),
     )
 
 
+def _make_key_path(parent: _ModelState, key: Key) -> str:
+    """Make a path which is different for each element in the layout"""
+    if isinstance(key, int):
+        segment = str(key)
+    elif isinstance(key, str):
+        segment = quote(key, safe="", errors="surrogatepass")
+        if segment.lstrip("-").isdigit():
+            segment = f"'{segment}'"  # not to be confused with an index
+    else:
+        segment = f"({quote(repr(key), safe='', errors='surrogatepass')})"
+    return f"{parent.key_path}/{segment}"
+
+
 class _ModelState:
     """State that is bound to a particular element within the layout"""
 
-- 
2.43.0


From 2ac22e10ee056e7cf2329e6bd42bdde111e1c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 014/132] fix: forget the sequence numbers of removed elements
 and keep those of removed handlers

---
 src/reactpy/core/layout.py | 70 ++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index fdf35e1..888713d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -95,6 +95,9 @@ class Layout(BaseLayout):
         # processed all keystrokes without relying on a time-based
         # debounce window.
         self._last_event_seq_by_target: dict[str, int] = {}
+        # Targets whose sequence number is to be forgotten unless the ongoing render
+        # registers another handler for them.
+        self._removed_event_targets: set[str] = set()
         # Hooks of components whose unmounting has begun but has not been completed
         self._unmounting_hooks: set[LifeCycleHook] = set()
         root_model_state = _new_root_model_state(self.root, self._schedule_render_task)
@@ -140,6 +143,7 @@ class Layout(BaseLayout):
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
+        del self._removed_event_targets
 
     async def deliver(self, event: LayoutEventMessage | dict[str, Any]) -> None:
         """Dispatch an event to the targeted handler"""
@@ -164,16 +168,6 @@ class Layout(BaseLayout):
         while True:
             event = await queue.get()
 
-            # Record the client-assigned event sequence number (if any)
-            # so we can echo it back as ``ackSeq`` on the originating
-            # element. The client uses this to decide whether the
-            # server has caught up to the latest keystrokes.
-            seq = event.get("seq")
-            if isinstance(seq, int) and seq >= 0:
-                prev = self._last_event_seq_by_target.get(target, -1)
-                if seq > prev:
-                    self._last_event_seq_by_target[target] = seq
-
             # Retry a few times to handle potential re-render race conditions where
             # the handler is temporarily removed and then re-added.
             handler = self._event_handlers.get(target)
@@ -185,6 +179,16 @@ class Layout(BaseLayout):
                         break
 
             if handler is not None:
+                # Record the client-assigned event sequence number (if any)
+                # so we can echo it back as ``ackSeq`` on the originating
+                # element. The client uses this to decide whether the
+                # server has caught up to the latest keystrokes.
+                seq = event.get("seq")
+                if isinstance(seq, int) and seq >= 0:
+                    prev = self._last_event_seq_by_target.get(target, -1)
+                    if seq > prev:
+                        self._last_event_seq_by_target[target] = seq
+
                 try:
                     data = [
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
@@ -306,6 +310,13 @@ class Layout(BaseLayout):
                     ],
                 }
 
+            if len(self._active_renders) <= 1:
+                for target in self._removed_event_targets.difference(
+                    self._event_handlers
+                ):
+                    self._last_event_seq_by_target.pop(target, None)
+                self._removed_event_targets.clear()
+
             if REACTPY_CHECK_VDOM_SPEC.current:
                 validate_vdom_json(new_state.model.current)
 
@@ -455,13 +466,13 @@ class Layout(BaseLayout):
             self._render_model_event_handlers_without_old_state(
                 new_state, handlers_by_event
             )
-            self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
+            self._inject_event_ack_seq(new_state, None, raw_model.get("tagName"))
             return None
 
         self._remove_event_handlers(old_state)
 
         if not handlers_by_event:
-            self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
+            self._inject_event_ack_seq(new_state, old_state, raw_model.get("tagName"))
             return None
 
         model_event_handlers = new_state.model.current["eventHandlers"] = {}
@@ -476,33 +487,35 @@ class Layout(BaseLayout):
             self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
-        self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
+        self._inject_event_ack_seq(new_state, old_state, raw_model.get("tagName"))
         return None
 
     def _inject_event_ack_seq(
-        self, new_state: _ModelState, tag_name: str | None
+        self,
+        new_state: _ModelState,
+        old_state: _ModelState | None,
+        tag_name: str | None,
     ) -> None:
         """Attach ``ackSeq`` to user-input element attributes so the client
         can determine deterministically whether the server has processed
         the latest keystrokes.
 
-        For each event handler bound to this element, we look up the
-        highest client-assigned sequence number the server has received
-        for that target and, if any was recorded, attach the maximum
+        For each event handler which is, or has been, bound to this element,
+        we look up the highest client-assigned sequence number the server has
+        received for that target and, if any was recorded, attach the maximum
         across handlers as the element's ``ackSeq``.
         """
         if tag_name not in {"input", "select", "textarea"}:
             return
-        targets = list(new_state.targets_by_event.values())
-        if not targets:
-            return
-        max_ack: int | None = None
-        for target in targets:
-            ack = self._last_event_seq_by_target.get(target)
-            if ack is None:
+        max_ack = old_state.event_ack_seq if old_state is not None else None
+        for state in (old_state, new_state):
+            if state is None:
                 continue
-            if max_ack is None or ack > max_ack:
-                max_ack = ack
+            for target in state.targets_by_event.values():
+                ack = self._last_event_seq_by_target.get(target)
+                if ack is not None and (max_ack is None or ack > max_ack):
+                    max_ack = ack
+        new_state.event_ack_seq = max_ack
         if max_ack is None:
             return
         attrs = new_state.model.current.get("attributes")
@@ -541,6 +554,7 @@ class Layout(BaseLayout):
             if self._event_handler_owners.get(target) is model_state:
                 del self._event_handler_owners[target]
                 del self._event_handlers[target]
+                self._removed_event_targets.add(target)
 
     @staticmethod
     def _serialize_event_handler(handler: Any, target: str) -> dict[str, Any]:
@@ -802,6 +816,7 @@ class _ModelState:
         "_parent_ref",
         "_render_semaphore",
         "children_by_key",
+        "event_ack_seq",
         "index",
         "key",
         "key_path",
@@ -844,6 +859,9 @@ class _ModelState:
         self.key_path = key_path
         """A slash-delimited path using element keys"""
 
+        self.event_ack_seq: int | None = None
+        """The highest sequence number of this element's events when it was rendered"""
+
         # === Conditionally Available Attributes ===
         # It's easier to conditionally assign than to force a null check on every usage
 
-- 
2.43.0


From 0efe687ac69d6ac02491feb807ecd5cd5a0e1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 015/132] fix: infer dependencies of functions which refer to
 variables assigned later

---
 src/reactpy/core/hooks.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 53231b4..4059f59 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -5,7 +5,7 @@ import contextlib
 import inspect
 from collections.abc import Callable, Coroutine, Sequence
 from logging import getLogger
-from types import FunctionType
+from types import CellType, FunctionType
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -581,15 +581,19 @@ def _try_to_infer_closure_values(
     if values is not ...:
         return values
     if isinstance(func, FunctionType):
-        return (
-            [cell.cell_contents for cell in func.__closure__]
-            if func.__closure__
-            else []
-        )
+        return [_get_cell_contents(cell) for cell in func.__closure__ or ()]
     else:
         return None
 
 
+def _get_cell_contents(cell: CellType) -> Any:
+    try:
+        return cell.cell_contents
+    except ValueError:
+        # The variable which the function refers to has not been assigned yet
+        return None
+
+
 def strictly_equal(x: Any, y: Any) -> bool:
     """Check if two values are identical or, for a limited set or types, equal.
 
-- 
2.43.0


From f2160ba482c77219c35cfe0dfc36f81922a4500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 016/132] fix: compute memoized values again after a failure or
 in-place change of dependencies

---
 src/reactpy/core/hooks.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 4059f59..7db6f78 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -507,22 +507,22 @@ def use_memo(
 
     memo: _Memo[_Type] = _use_const(_Memo)
 
+    # copied since the given sequence might be changed in place later on
+    new_deps = () if dependencies is None else tuple(dependencies)
+
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
     elif (
-        len(memo.deps) != len(dependencies)
+        len(memo.deps) != len(new_deps)
         # if deps are same length check identity for each item
         or not all(
             strictly_equal(current, new)
-            for current, new in zip(memo.deps, dependencies, strict=False)
+            for current, new in zip(memo.deps, new_deps, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
     else:
         changed = False
@@ -531,6 +531,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # Only remember these after a success so the function is tried again
+            memo.deps = new_deps
             return current_value
 
     else:
-- 
2.43.0


From f76f49030dc97cafe68bf00a98b49bf413aba523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 017/132] fix: compare values whose equality has no truth value
 by identity

---
 src/reactpy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 7db6f78..5fe09f0 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -646,7 +646,8 @@ def strictly_equal(x: Any, y: Any) -> bool:
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            # values such as arrays fail to convert to a bool
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From 602ae171d341708b7c8758d11c012cf1ab21ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 018/132] fix: keep the session alive if a render error cannot
 be converted to a string

---
 src/reactpy/core/layout.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 888713d..9fc3c07 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -399,9 +399,7 @@ class Layout(BaseLayout):
             new_state.children_by_key.clear()
             new_state.model.current = {
                 "tagName": "",
-                "error": (
-                    f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""
-                ),
+                "error": _describe_error(error) if REACTPY_DEBUG.current else "",
             }
         finally:
             await life_cycle_hook.affect_component_did_render()
@@ -681,6 +679,14 @@ class Layout(BaseLayout):
         return f"{type(self).__name__}({self.root})"
 
 
+def _describe_error(error: Exception) -> str:
+    try:
+        return f"{type(error).__name__}: {error}"
+    except Exception:
+        # the error has no message since it fails to convert to a string
+        return f"{type(error).__name__}: <no message>"
+
+
 def _new_root_model_state(
     component: Component, schedule_render: Callable[[_LifeCycleStateId], None]
 ) -> _ModelState:
-- 
2.43.0


From ce9ebcfd2c46a1dfa6cd56661dfe0aad9c43f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 019/132] fix: do not retain an event queue, task, and handler
 for each target

---
 src/reactpy/core/layout.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 9fc3c07..b7f6e56 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -120,6 +120,7 @@ class Layout(BaseLayout):
             ]:
                 self._render_tasks.clear()
                 self._event_processing_tasks.clear()
+                self._event_queues.clear()
                 for t in tasks:
                     t.cancel()
                 await gather(*tasks, return_exceptions=True)
@@ -152,20 +153,23 @@ class Layout(BaseLayout):
         # events if the element and the handler exist in the backend. Otherwise
         # we just ignore the event.
         target = event["target"]
-        if target not in self._event_queues:
-            self._event_queues[target] = _EventQueue()
+        queue = self._event_queues.get(target)
+        if queue is None:
+            queue = self._event_queues[target] = _EventQueue()
             self._event_processing_tasks[target] = create_task(
-                self._process_event_queue(target, self._event_queues[target])
+                self._process_event_queue(target, queue)
             )
 
-        await self._event_queues[target].put(event)
+        await queue.put(event)
 
         # In test environments, we yield to the event loop to let the processing tasks run.
         if REACTPY_DEBUG.current:
             await sleep(0)
 
     async def _process_event_queue(self, target: str, queue: _EventQueue) -> None:
-        while True:
+        # Stop once there is nothing left to do so that neither this task, the queue, nor
+        # the handler outlive the target. Later events will start over.
+        while queue.unprocessed and self._event_queues.get(target) is queue:
             event = await queue.get()
 
             # Retry a few times to handle potential re-render race conditions where
@@ -202,6 +206,11 @@ class Layout(BaseLayout):
                     "does not exist or its component unmounted"
                 )
 
+            queue.unprocessed -= 1
+
+        self._event_queues.pop(target, None)
+        self._event_processing_tasks.pop(target, None)
+
     async def render(self) -> LayoutUpdateMessage:
         if REACTPY_ASYNC_RENDERING.current:
             return await self._parallel_render()
@@ -950,10 +959,17 @@ class _EventQueue:
         )
         # Without this, a new event could overtake those waiting for a full queue.
         self._put_access = Lock()
+        # Events which have not been handled yet, including those which wait for a slot
+        self.unprocessed = 0
 
     async def put(self, event: LayoutEventMessage | dict[str, Any]) -> None:
-        async with self._put_access:
-            await self._queue.put(event)
+        self.unprocessed += 1
+        try:
+            async with self._put_access:
+                await self._queue.put(event)
+        except BaseException:
+            self.unprocessed -= 1
+            raise
 
     async def get(self) -> LayoutEventMessage | dict[str, Any]:
         return await self._queue.get()
-- 
2.43.0


From 0f63734e1ab3e865cac8072edc2f8e39c4456aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 020/132] fix: handle further events of a target after a
 handler was cancelled

---
 src/reactpy/core/layout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index b7f6e56..42cceeb 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -198,6 +198,11 @@ class Layout(BaseLayout):
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
                     ]
                     await handler.function(data)
+                except CancelledError:
+                    # Otherwise something the handler was waiting for got cancelled
+                    if cast("Task[None]", current_task()).cancelling():
+                        raise
+                    logger.exception(f"Failed to execute event handler {handler}")
                 except Exception:
                     logger.exception(f"Failed to execute event handler {handler}")
             else:
-- 
2.43.0


From d4174b3774bb1bbc186102d647a8c55f3d448bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 021/132] fix: never confuse the key of a child with the index
 of another one

---
 src/reactpy/core/layout.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 42cceeb..6b23ca1 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -16,6 +16,7 @@ from asyncio import (
 from collections import Counter
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
+from dataclasses import dataclass
 from logging import getLogger
 from threading import get_ident
 from types import TracebackType
@@ -446,9 +447,6 @@ class Layout(BaseLayout):
         except Exception as e:  # nocov
             msg = f"Expected a VDOM element dict, not {raw_model}"
             raise ValueError(msg) from e
-        key = raw_model.get("attributes", {}).get("key")
-        if key is not None:
-            new_state.key = key
         if "importSource" in raw_model:
             new_state.model.current["importSource"] = raw_model["importSource"]
         self._render_model_attributes(old_state, new_state, raw_model)
@@ -1025,9 +1023,9 @@ class _ThreadSafeQueue(Generic[_Type]):
 
 def _get_children_info(
     children: list[VdomChild],
-) -> tuple[list[_ChildInfo], set[Key] | None]:
+) -> tuple[list[_ChildInfo], set[Any] | None]:
     infos: list[_ChildInfo] = []
-    keys: set[Key] = set()
+    keys: set[Any] = set()
     has_duplicates = False
 
     for index, child in enumerate(children):
@@ -1046,6 +1044,8 @@ def _get_children_info(
 
         if key is None:
             key = index
+        elif not isinstance(key, str):
+            key = _ExplicitKey(key)
 
         if key in keys:
             has_duplicates = True
@@ -1056,7 +1056,17 @@ def _get_children_info(
     return infos, None if has_duplicates else keys
 
 
-_ChildInfo: TypeAlias = tuple[Any, "_ElementType", Key]
+@dataclass(frozen=True, repr=False)
+class _ExplicitKey:
+    """A key which, unlike the index of a child without a key, was given by the user"""
+
+    value: Any
+
+    def __repr__(self) -> str:
+        return repr(self.value)
+
+
+_ChildInfo: TypeAlias = tuple[Any, "_ElementType", Any]
 
 # used in _process_child_type_and_key
 _ElementType = NewType("_ElementType", int)
-- 
2.43.0


From a37f9cb6f426f19618350785c8a68456fc26958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 022/132] fix: validate inline JavaScript in the VDOM JSON
 schema

---
 src/reactpy/core/vdom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 9d8ba41..8de9b1a 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -80,7 +80,7 @@ VDOM_JSON_SCHEMA = {
         "elementInlineJavaScripts": {
             "type": "object",
             "patternProperties": {
-                ".*": "str",
+                ".*": {"type": "string"},
             },
         },
         "importSource": {
-- 
2.43.0


From e10adb707461ab18fe5284a55a8e175d9fbe7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 023/132] fix: keep inline JavaScript of scripts and reject it
 on fragments

---
 src/reactpy/core/vdom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 8de9b1a..dcee557 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -184,6 +184,11 @@ class Vdom:
                 attributes=attributes,
                 event_handlers=event_handlers,
             )
+            if inline_javascript:
+                if not self.__name__:
+                    msg = "Fragments cannot have attributes besides 'key'"
+                    raise TypeError(msg)
+                result = result | {"inlineJavaScript": inline_javascript}
 
         # Otherwise, use the default constructor
         else:
-- 
2.43.0


From 255f7e1fc66616999d4cb85b9532f95380dcce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 024/132] fix: do not corrupt non-ASCII scripts and styles when
 converting to HTML

---
 src/reactpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index bb0bc5b..87f7b7e 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -75,7 +75,7 @@ def reactpy_to_string(root: VdomDict | Component) -> str:
         root = component_to_vdom(root)
 
     _add_vdom_to_etree(temp_container, root)
-    html = etree.tostring(temp_container, method="html").decode()
+    html = etree.tostring(temp_container, method="html", encoding="unicode")
 
     # Strip out temp root <__temp__> element
     return html[10:-11]
-- 
2.43.0


From d1c273e6a9e756e9998986b81ac625398a911395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 025/132] fix: omit children which are None when converting to
 HTML

---
 src/reactpy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 87f7b7e..eaf44c1 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -190,6 +190,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element = parent
 
     for c in vdom.get("children", []):
+        if c is None:
+            continue
         if hasattr(c, "render"):
             c = component_to_vdom(cast(Component, c))
         if isinstance(c, dict):
-- 
2.43.0


From 5edbfca16a0a0a8096116e0802be2c5c31e8c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 026/132] fix: omit attributes which are None or False when
 converting to HTML

---
 src/reactpy/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index eaf44c1..5f89ac1 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -185,6 +185,7 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element.attrib.update(
             _react_attribute_to_html(k, v)
             for k, v in vdom.get("attributes", {}).items()
+            if not _is_omitted_from_html(k, v)
         )
     else:
         element = parent
@@ -252,6 +253,13 @@ def component_to_vdom(component: Component) -> VdomDict:
     return h.div(result) if isinstance(result, str) else h.div()
 
 
+def _is_omitted_from_html(key: str, value: Any) -> bool:
+    """Whether ReactJS would leave out an attribute with this value."""
+    return value is None or (
+        value is False and not key.startswith(("data-", "aria-"))
+    )
+
+
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     """Convert a React attribute to an HTML attribute string."""
     if callable(value):  # nocov
-- 
2.43.0


From a0de203bbee2fcfd86bdd43659549f1be5fa2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 027/132] fix: convert className and htmlFor to their HTML
 names

---
 src/reactpy/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 5f89ac1..9210e32 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -272,6 +272,10 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
                 for k, v in value.items()
             )
 
+    # Convert attributes whose HTML name is different
+    elif key in RENAMED_HTML_ATTRS:
+        key = RENAMED_HTML_ATTRS[key]
+
     # Convert special attributes to kebab-case
     elif key in DASHED_HTML_ATTRS:
         key = CAMEL_CASE_PATTERN.sub("-", key)
@@ -283,6 +287,8 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), str(value)
 
 
+RENAMED_HTML_ATTRS = {"className": "class", "htmlFor": "for"}
+
 # see list of HTML attributes with dashes in them:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
-- 
2.43.0


From 20db6cf816b9022394047951ea624fbe582da5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 028/132] fix: keep custom properties and vendor prefixes when
 converting styles to HTML

---
 src/reactpy/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 9210e32..2f0f734 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -268,8 +268,7 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
-                for k, v in value.items()
+                f"{_react_style_to_css(k)}:{v}" for k, v in value.items()
             )
 
     # Convert attributes whose HTML name is different
@@ -287,6 +286,14 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), str(value)
 
 
+def _react_style_to_css(name: str) -> str:
+    """Convert the name of a React style property to a CSS property."""
+    if name.startswith("--"):
+        return name  # custom properties are case-sensitive
+    vendor_prefix = "-" if name[:1].isupper() else ""
+    return vendor_prefix + CAMEL_CASE_PATTERN.sub("-", name).lower()
+
+
 RENAMED_HTML_ATTRS = {"className": "class", "htmlFor": "for"}
 
 # see list of HTML attributes with dashes in them:
-- 
2.43.0


From 165162ad7c60b80dd28fcbbee6f4832bd751c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 029/132] fix: keep semicolons within style values and the
 names of custom properties

---
 src/reactpy/transforms.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f1896c8..2e90336 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -41,7 +41,7 @@ class RequiredTransforms:
                 self._kebab_to_camel_case(key.strip()): value.strip()
                 for key, value in (
                     part.split(":", 1)
-                    for part in vdom["attributes"]["style"].split(";")
+                    for part in self._split_declarations(vdom["attributes"]["style"])
                     if ":" in part
                 )
             }
@@ -152,11 +152,35 @@ class RequiredTransforms:
 
         return selected_options
 
+    @staticmethod
+    def _split_declarations(style: str) -> list[str]:
+        """Split at semicolons, except for those within strings and parentheses."""
+        declarations = [""]
+        quote, depth, escaped = "", 0, False
+        for char in style:
+            if char == ";" and not quote and not depth:
+                declarations.append("")
+                continue
+            declarations[-1] += char
+            if escaped:
+                escaped = False
+            elif char == "\\":
+                escaped = True
+            elif quote:
+                quote = "" if char == quote else quote
+            elif char in "\"'":
+                quote = char
+            elif char in "()":
+                depth = max(0, depth + (1 if char == "(" else -1))
+        return declarations
+
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
+        if kebab_case.startswith("--"):
+            return kebab_case  # custom properties are case-sensitive
         return "".join(
-            part.capitalize() if i else part
+            part.capitalize() if i else part.lower()
             for i, part in enumerate(kebab_case.split("-"))
         )
 
-- 
2.43.0


From 522caea3a93bbf6e9980e422173efcdeea3ed90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 030/132] fix: accept options without text when converting from
 HTML

---
 src/reactpy/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 2e90336..2e11355 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -141,7 +141,10 @@ class RequiredTransforms:
 
         vdom = vdom_or_any
         if vdom["tagName"] == "option" and "attributes" in vdom:
-            value = vdom["attributes"].setdefault("value", vdom["children"][0])
+            text = "".join(
+                child for child in vdom.get("children", []) if isinstance(child, str)
+            )
+            value = vdom["attributes"].setdefault("value", text)
 
             if "selected" in vdom["attributes"]:
                 vdom["attributes"].pop("selected")
-- 
2.43.0


From ada99751154c99396c899501aaa3308b5c734c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 031/132] fix: select the last of several selected options when
 converting from HTML

---
 src/reactpy/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 2e11355..f4abbfd 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -76,7 +76,8 @@ class RequiredTransforms:
             if multiple_choice:
                 vdom["attributes"]["multiple"] = True
             if selected_options and not multiple_choice:
-                vdom["attributes"]["defaultValue"] = selected_options[0]
+                # browsers select the last one
+                vdom["attributes"]["defaultValue"] = selected_options[-1]
             if selected_options and multiple_choice:
                 vdom["attributes"]["defaultValue"] = selected_options
 
-- 
2.43.0


From ec8d9eb6199d8a0be6de8e6d62ad8c2433cb6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 032/132] fix: keep boolean attributes written as empty strings
 when converting from HTML

---
 src/reactpy/transforms.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f4abbfd..fb758ea 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -46,6 +46,15 @@ class RequiredTransforms:
                 )
             }
 
+    @staticmethod
+    def boolean_attributes_to_true(vdom: dict[str, Any]) -> None:
+        """Boolean HTML attributes are true if they are present, but ReactJS takes an empty
+        string to be false."""
+        attributes = vdom.get("attributes", {})
+        for name in BOOLEAN_REACT_PROPS & attributes.keys():
+            if attributes[name] == "":
+                attributes[name] = True
+
     @staticmethod
     def textarea_children_to_prop(vdom: VdomDict) -> None:
         """Transformation that converts the text content of a <textarea> to a ReactJS prop."""
@@ -189,6 +198,28 @@ class RequiredTransforms:
         )
 
 
+BOOLEAN_REACT_PROPS = {
+    "async",
+    "autoFocus",
+    "autoplay",
+    "controls",
+    "default",
+    "defaultChecked",
+    "defer",
+    "disabled",
+    "formNoValidate",
+    "hidden",
+    "inert",
+    "loop",
+    "multiple",
+    "muted",
+    "noModule",
+    "open",
+    "readOnly",
+    "required",
+    "reversed",
+}
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From 763418ab28a5f9c6f3d70e41dbf890b338a21a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 033/132] fix: ignore the newline at the start of a textarea
 when converting from HTML

---
 src/reactpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index fb758ea..5a78032 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -64,6 +64,9 @@ class RequiredTransforms:
                 [child for child in text_content if isinstance(child, str)]
             )
 
+            # browsers ignore a newline directly after the opening tag
+            text_content = text_content.removeprefix("\n")
+
             vdom.setdefault("attributes", {})
             if "attributes" in vdom:
                 default_value = vdom["attributes"].pop("defaultValue", "")
-- 
2.43.0


From f7796b9e86521a9e2ad5670962924c5d01bc0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 034/132] fix: do not infer the same key for several siblings
 when converting from HTML

---
 src/reactpy/utils.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 2f0f734..3f65fb5 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -225,21 +225,39 @@ def _generate_vdom_children(
 
     Inserts inner text and/or tail text in between VDOM children, if necessary.
     """
+    # Recursively convert each child node to VDOM
+    elements = [
+        (child, _etree_to_vdom(child, transforms, intercept_links))
+        for child in node.iterchildren(None)
+    ]
+    _remove_ambiguous_keys(elements)
+
     return (  # Get the inner text of the current node
         [node.text] if node.text else []
     ) + list(
         chain(
             *(
-                # Recursively convert each child node to VDOM
-                [_etree_to_vdom(child, transforms, intercept_links)]
                 # Insert the tail text between each child node
-                + ([child.tail] if child.tail else [])
-                for child in node.iterchildren(None)
+                [element] + ([child.tail] if child.tail else [])
+                for child, element in elements
             )
         )
     )
 
 
+def _remove_ambiguous_keys(elements: list[tuple[etree._Element, VdomDict]]) -> None:
+    """Remove keys which were inferred for several siblings (ex. radio buttons sharing
+    their name) since they do not identify any of them and thus could not be rendered."""
+    keys = [
+        element["attributes"].get("key") if "attributes" in element else None
+        for _, element in elements
+    ]
+    for (node, element), key in zip(elements, keys):
+        is_inferred = key in (node.get("id"), node.get("name")) and not node.get("key")
+        if key is not None and is_inferred and keys.count(key) > 1:
+            del element["attributes"]["key"]
+
+
 def component_to_vdom(component: Component) -> VdomDict:
     """Convert the first render of a component into a VDOM dictionary"""
     result = component.render()
-- 
2.43.0


From 40d6f4b64d4c23ead0f51d451b54a14e4509d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 035/132] fix: convert HTML with source, track, or wbr elements

---
 src/reactpy/utils.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 3f65fb5..0475986 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -135,6 +135,7 @@ def string_to_reactpy(
         )
         raise HTMLParseError(msg) from e
 
+    root_node = _unnest_void_elements(root_node)
     return _etree_to_vdom(root_node, transforms, intercept_links)
 
 
@@ -142,6 +143,28 @@ class HTMLParseError(etree.LxmlSyntaxError):  # type: ignore[misc]
     """Raised when an HTML document cannot be parsed using strict parsing."""
 
 
+def _unnest_void_elements(root_node: etree._Element) -> etree._Element:
+    """Move content out of elements which cannot have any. The parser does not know all
+    of these elements, in which case it puts whatever follows them inside of them."""
+    if root_node.tag in VOID_HTML_TAGS and (root_node.text or len(root_node)):
+        container = etree.Element("div")
+        container.append(root_node)
+        root_node = container
+
+    for element in list(root_node.iter(*VOID_HTML_TAGS)):
+        parent = element.getparent()
+        if parent is None or not (element.text or len(element)):
+            continue
+        children, tail = list(element), element.tail
+        element.tail, element.text = element.text, None
+        index = parent.index(element) + 1
+        parent[index:index] = children
+        last = children[-1] if children else element
+        last.tail = f"{last.tail or ''}{tail or ''}" or None
+
+    return root_node
+
+
 def _etree_to_vdom(
     node: etree._Element, transforms: Iterable[_ModelTransform], intercept_links: bool
 ) -> VdomDict:
@@ -314,6 +337,9 @@ def _react_style_to_css(name: str) -> str:
 
 RENAMED_HTML_ATTRS = {"className": "class", "htmlFor": "for"}
 
+# Void elements which HTML parsers older than HTML5 do not know of
+VOID_HTML_TAGS = ("embed", "source", "track", "wbr")
+
 # see list of HTML attributes with dashes in them:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
-- 
2.43.0


From 7220bc1dea9b9515118c03ae1f83e74d9fe493a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 036/132] fix: do not let the text of scripts and styles end
 them when converting to HTML

---
 src/reactpy/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 0475986..5ea0ede 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -240,6 +240,10 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         else:
             element.text = f"{element.text or ''}{c}"
 
+    if tag in RAW_TEXT_PATTERNS and element.text:
+        pattern, escaped = RAW_TEXT_PATTERNS[tag]
+        element.text = pattern.sub(lambda _: escaped, element.text)
+
 
 def _generate_vdom_children(
     node: etree._Element, transforms: Iterable[_ModelTransform], intercept_links: bool
@@ -344,6 +348,16 @@ VOID_HTML_TAGS = ("embed", "source", "track", "wbr")
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
 
+# The content of these elements is not escaped. What would end them prematurely can only
+# legitimately occur within string literals, where the "<" can be written differently.
+RAW_TEXT_PATTERNS = {
+    "script": (
+        re.compile(r"<(?=/script|!--.*<script)", re.IGNORECASE | re.DOTALL),
+        r"\u003c",
+    ),
+    "style": (re.compile(r"<(?=/style)", re.IGNORECASE), r"\3c "),
+}
+
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
 CAMEL_CASE_PATTERN = re.compile(r"(?<!^)(?=[A-Z])")
 
-- 
2.43.0


From 775cf379319f9280acdfffcf7ddc52008fb22a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 037/132] fix: do not infer the same key for several scripts
 when converting from HTML

---
 src/reactpy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 5ea0ede..548d171 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -280,7 +280,8 @@ def _remove_ambiguous_keys(elements: list[tuple[etree._Element, VdomDict]]) -> N
         for _, element in elements
     ]
     for (node, element), key in zip(elements, keys):
-        is_inferred = key in (node.get("id"), node.get("name")) and not node.get("key")
+        sources = (node.get("id"), node.get("name"), node.get("src"), node.text)
+        is_inferred = key in sources and not node.get("key")
         if key is not None and is_inferred and keys.count(key) > 1:
             del element["attributes"]["key"]
 
-- 
2.43.0


From d6c790ab15ffcb345f3aad572583759e8fcfd54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 038/132] fix: keep an option's environment value although its
 parent has another

---
 src/reactpy/_option.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 9e57c22..ea0c1aa 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -35,7 +35,9 @@ class Option(Generic[_O]):
             if not (parent.mutable and self.mutable):
                 raise TypeError("Parent and child options must be mutable")
             self._default = parent.default
-            parent.subscribe(self.set_current)
+            parent._subscribers.append(self.set_current)
+            if not self.is_set():
+                self.set_current(parent.current)
         elif default is not UNDEFINED:
             self._default = default
         else:
-- 
2.43.0


From b3ddc2bd15ec07696764251dcb89adb9834add29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 039/132] fix: setting an option's default to the default
 itself does not fail

---
 src/reactpy/_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index ea0c1aa..ac98989 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -118,7 +118,7 @@ class Option(Generic[_O]):
         """
         if not self.is_set():
             self.set_current(new)
-        return self._current
+        return self.current
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-- 
2.43.0


From 4aeccbc44492d931f4af87337efe6a35743aaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 040/132] fix: reloading an option does not pass its default
 through the validator

---
 src/reactpy/_option.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index ac98989..d9ab351 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -122,7 +122,10 @@ class Option(Generic[_O]):
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-        self.set_current(os.environ.get(self._name, self._default))
+        if self._name in os.environ:
+            self.set_current(os.environ[self._name])
+        elif self.is_set():
+            self.unset()
 
     def unset(self) -> None:
         """Remove the current value, the default will be used until it is set again."""
-- 
2.43.0


From 2494a761d98dd025891f15cd5e822a7f94a848ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 041/132] fix: subscribing while an option changes announces
 the change once

---
 src/reactpy/_option.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index d9ab351..226cc45 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -108,7 +108,7 @@ class Option(Generic[_O]):
 
         logger.debug(f"{self._name}={self._current}")
         if new != old:
-            for sub_func in self._subscribers:
+            for sub_func in tuple(self._subscribers):
                 sub_func(new)
 
     def set_default(self, new: _O) -> _O:
@@ -136,7 +136,7 @@ class Option(Generic[_O]):
         if hasattr(self, "_current"):
             delattr(self, "_current")
         if self.current != old:
-            for sub_func in self._subscribers:
+            for sub_func in tuple(self._subscribers):
                 sub_func(self.current)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 7be84217fa2c5d552d9d8848871a0ca04c2ed802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 042/132] fix: content-length of the index page counts bytes

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..999dc87 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -215,7 +215,7 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
             **self.parent.extra_headers,
         }
-- 
2.43.0


From e6d16d3f02a1f512e058da775b7d28d6cccde35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 043/132] fix: component sockets are found under every path
 prefix and component name

---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..5dadf52 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -91,7 +91,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            rf"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[\w.]+)/\Z"
         )
 
         # User defined ASGI apps
diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index 9c7bfcf..de0ceac 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -81,7 +81,7 @@ class ReactPyCsr(ReactPy):
         self.root_name = root_name
         self.initial = initial
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 999dc87..8a4ef22 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -71,7 +71,7 @@ class ReactPy(ReactPyMiddleware):
         super().__init__(app=ReactPyApp(self), root_components=[], **settings)
         self.root_component = root_component
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
-- 
2.43.0


From f33606b2a8d2174e2f640d57b20bdcc20005068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 044/132] fix: custom http headers replace the default ones
 whatever their letter case

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 8a4ef22..0af7c2a 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -217,7 +217,7 @@ class ReactPyApp:
             "cache-control": "max-age=60, public",
             "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
-            **self.parent.extra_headers,
+            **{k.lower(): v for k, v in self.parent.extra_headers.items()},
         }
 
         # Browser is asking for the headers
-- 
2.43.0


From 1b23dfd8858f948a7f873cb304adf22674f3fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 045/132] fix: conditional requests for the index page follow
 the HTTP rules

---
 src/reactpy/executors/asgi/standalone.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 0af7c2a..24ed039 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -5,7 +5,7 @@ import re
 from collections.abc import Callable
 from dataclasses import dataclass
 from datetime import UTC, datetime
-from email.utils import formatdate
+from email.utils import formatdate, parsedate_to_datetime
 from logging import getLogger
 from typing import Literal, Unpack, cast, overload
 
@@ -226,10 +226,7 @@ class ReactPyApp:
             return await response(scope, receive, send)  # type: ignore
 
         # Browser already has the content cached
-        if (
-            request_headers.get(b"if-none-match") == self._etag.encode()
-            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
-        ):
+        if self.not_modified(request_headers):
             response_headers.pop("content-length")
             response = ResponseHTML("", headers=response_headers, status_code=304)
             return await response(scope, receive, send)  # type: ignore
@@ -238,6 +235,22 @@ class ReactPyApp:
         response = ResponseHTML(self._index_html, headers=response_headers)
         await response(scope, receive, send)  # type: ignore
 
+    def not_modified(self, request_headers: dict[bytes, bytes]) -> bool:
+        """Whether the client's copy of the page is current."""
+        if b"if-none-match" in request_headers:
+            # This header takes precedence over `if-modified-since`
+            candidates = request_headers[b"if-none-match"].decode("latin-1")
+            return candidates.strip() == "*" or self._etag in re.findall(
+                r'"[^"]*"', candidates
+            )
+        try:
+            since = request_headers[b"if-modified-since"].decode("latin-1")
+            return parsedate_to_datetime(since) >= parsedate_to_datetime(
+                self._last_modified
+            )
+        except (KeyError, ValueError, TypeError):
+            return False
+
     def render_index_html(self) -> None:
         """Process the index.html and store the results in this class."""
         if not self.parent.prepend_body or self.parent.prepend_body == ...:
-- 
2.43.0


From c94c5122d1e731cb98ec1b24c7046b0b898c6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 046/132] fix: a route's pattern matches whole paths only,
 alternatives included

---
 src/reactpy/executors/asgi/standalone.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 24ed039..0c37682 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -111,7 +111,7 @@ class ReactPy(ReactPyMiddleware):
             (
                 app
                 for route, app in routing_dictionary
-                if re.match(route, scope["path"])
+                if re.fullmatch(route, scope["path"])
             ),
             None,
         )
@@ -149,17 +149,11 @@ class ReactPy(ReactPyMiddleware):
         def decorator(
             app: AsgiApp | str,
         ) -> AsgiApp:
-            re_path = path
-            if not re_path.startswith("^"):
-                re_path = f"^{re_path}"
-            if not re_path.endswith("$"):
-                re_path = f"{re_path}$"
-
             asgi_app: AsgiApp = import_dotted_path(app) if isinstance(app, str) else app
             if type == "http":
-                self.extra_http_routes[re_path] = cast(AsgiV3HttpApp, asgi_app)
+                self.extra_http_routes[path] = cast(AsgiV3HttpApp, asgi_app)
             elif type == "websocket":
-                self.extra_ws_routes[re_path] = cast(AsgiV3WebsocketApp, asgi_app)
+                self.extra_ws_routes[path] = cast(AsgiV3WebsocketApp, asgi_app)
 
             return asgi_app
 
-- 
2.43.0


From 81ebc1e8f5793a1de63df64b0be3f56932abd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 047/132] fix: render nothing on a websocket before it is
 accepted

---
 src/reactpy/executors/asgi/middleware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 5dadf52..120e870 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,9 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        await super().__aenter__()  # type: ignore
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From 8d4a5be7549dda6cae219527edc11ba11a8d8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 048/132] fix: a client's disconnect is noticed although its
 session no longer reads events

---
 src/reactpy/executors/asgi/middleware.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 120e870..6c77585 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -173,7 +173,7 @@ class ComponentDispatchApp:
                 if event["type"] == "websocket.receive":
                     msg: dict[str, str] = orjson.loads(event["text"])
                     if msg.get("type") == "layout-event":
-                        await ws.rendering_queue.put(msg)
+                        await ws.enqueue(msg)
                     else:  # nocov
                         await asyncio.to_thread(
                             _logger.warning, f"Unknown message type: {msg.get('type')}"
@@ -210,6 +210,17 @@ class ReactPyWebsocket(ResponseWebSocket):
             self.dispatcher.cancel()
         await super().__aexit__()  # type: ignore
 
+    async def enqueue(self, msg: dict[str, str]) -> None:
+        """Hand a message to the dispatcher, or drop it if the dispatcher has ended."""
+        put = asyncio.ensure_future(self.rendering_queue.put(msg))
+        try:
+            await asyncio.wait(
+                {put, cast(asyncio.Task[Any], self.dispatcher)},
+                return_when=asyncio.FIRST_COMPLETED,
+            )
+        finally:
+            put.cancel()
+
     async def run_dispatcher(self) -> None:
         """Async background task that renders ReactPy components over a websocket."""
         try:
-- 
2.43.0


From d04ec78da2781306fe9403b4d46d783fa9b5bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 049/132] fix: close a websocket once its session has ended,
 not before

---
 src/reactpy/executors/asgi/middleware.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 6c77585..c80f3fa 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -206,9 +206,13 @@ class ReactPyWebsocket(ResponseWebSocket):
         return self
 
     async def __aexit__(self, *_: Any) -> None:
-        if self.dispatcher:
-            self.dispatcher.cancel()
-        await super().__aexit__()  # type: ignore
+        try:
+            if self.dispatcher:
+                # The session is over once its effects are cleaned up
+                self.dispatcher.cancel()
+                await asyncio.wait({self.dispatcher})
+        finally:
+            await super().__aexit__()  # type: ignore
 
     async def enqueue(self, msg: dict[str, str]) -> None:
         """Hand a message to the dispatcher, or drop it if the dispatcher has ended."""
-- 
2.43.0


From 98cea72474482d86e32d00511d70c3e28cfcea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 050/132] fix: a session cancelled while it ends still cleans
 up everything

---
 src/reactpy/core/layout.py | 58 +++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 6b23ca1..3775b8c 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -111,29 +111,16 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
-        # clean up even if we exit because the surrounding task group is being cancelled
+        # clean up even if we exit because the surrounding task group is being cancelled,
+        # and do not stop half way if we are cancelled while cleaning up
+        clean_up = create_task(self._clean_up())
+        cancelled: CancelledError | None = None
         with CancelScope(shield=True):
-            # Wait for everything that was in progress, no matter how it ends. Setting
-            # state while waiting may schedule further renders.
-            while tasks := [
-                *self._render_tasks,
-                *self._event_processing_tasks.values(),
-            ]:
-                self._render_tasks.clear()
-                self._event_processing_tasks.clear()
-                self._event_queues.clear()
-                for t in tasks:
-                    t.cancel()
-                await gather(*tasks, return_exceptions=True)
-
-            # Besides the root, and everything below it, this includes components which
-            # were about to be added or removed by a render that has been interrupted.
-            await self._unmount_model_states(
-                list(self._model_states_by_life_cycle_state_id.values())
-            )
-            for hook in list(self._unmounting_hooks):
-                await hook.affect_component_will_unmount()
-            await self._rendering_queue.close()
+            while not clean_up.done():
+                try:
+                    await wait({clean_up})
+                except CancelledError as error:
+                    cancelled = error
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
@@ -147,6 +134,33 @@ class Layout(BaseLayout):
         del self._last_event_seq_by_target
         del self._removed_event_targets
 
+        clean_up.result()
+        if cancelled:
+            raise cancelled
+
+    async def _clean_up(self) -> None:
+        # Wait for everything that was in progress, no matter how it ends. Setting
+        # state while waiting may schedule further renders.
+        while tasks := [
+            *self._render_tasks,
+            *self._event_processing_tasks.values(),
+        ]:
+            self._render_tasks.clear()
+            self._event_processing_tasks.clear()
+            self._event_queues.clear()
+            for t in tasks:
+                t.cancel()
+            await gather(*tasks, return_exceptions=True)
+
+        # Besides the root, and everything below it, this includes components which
+        # were about to be added or removed by a render that has been interrupted.
+        await self._unmount_model_states(
+            list(self._model_states_by_life_cycle_state_id.values())
+        )
+        for hook in list(self._unmounting_hooks):
+            await hook.affect_component_will_unmount()
+        await self._rendering_queue.close()
+
     async def deliver(self, event: LayoutEventMessage | dict[str, Any]) -> None:
         """Dispatch an event to the targeted handler"""
         # It is possible for an element in the frontend to produce an event
-- 
2.43.0


From f14b3196c195c2094e5c5898ecf20aae71840df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 051/132] fix: a web module's name cannot lead outside the web
 modules directory

---
 src/reactpy/reactjs/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..c2e3732 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+import os
 from pathlib import Path, PurePosixPath
 from typing import Any, Literal
 
@@ -264,4 +265,7 @@ def module_name_suffix(name: str) -> str:
 def get_module_path(name: str) -> Path:
     directory = REACTPY_WEB_MODULES_DIR.current
     path = directory.joinpath(*name.split("/"))
+    if not Path(os.path.abspath(path)).is_relative_to(os.path.abspath(directory)):
+        msg = f"Module name {name!r} is outside of the web modules directory"
+        raise ValueError(msg)
     return path.with_suffix(path.suffix)
-- 
2.43.0


From 1cd3c2da7d293b3ed3977f79ccc4f4f24ded02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 052/132] fix: a web module from a file may have a name with
 slashes

---
 src/reactpy/reactjs/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..9b62eeb 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -202,6 +202,7 @@ _JS_GENERAL_EXPORT_PATTERN = re.compile(
 @contextmanager
 def file_lock(lock_file: Path, timeout: float = 10.0):
     start_time = time.time()
+    lock_file.parent.mkdir(parents=True, exist_ok=True)
     while True:
         try:
             fd = os.open(lock_file, os.O_CREAT | os.O_EXCL | os.O_RDWR)
-- 
2.43.0


From dc1e7200cc160fef28874e0829fd454dc14d2826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 053/132] fix: a web module is replaced at once, by whole files
 and byte for byte

---
 src/reactpy/reactjs/module.py | 18 ++++----
 src/reactpy/reactjs/utils.py  | 80 ++++++++++++++++++++++++-----------
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index c2e3732..fd94345 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -12,8 +12,10 @@ from reactpy.reactjs.utils import (
     are_files_identical,
     copy_file,
     file_lock,
+    is_file_content,
     resolve_names_from_file,
     resolve_names_from_url,
+    write_file,
 )
 from reactpy.types import ImportSourceDict, JavaScriptModule, VdomConstructor, VdomDict
 
@@ -95,15 +97,15 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
+    content_bytes = content.encode("utf-8")
 
-    target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+    if not is_file_content(target_file, content_bytes):
+        if target_file.exists():
+            logger.info(
+                f"Existing web module {name!r} will "
+                f"be replaced with {target_file.resolve()}"
+            )
+        write_file(target_file, content_bytes)
 
     return JavaScriptModule(
         source=name,
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 9b62eeb..3c017c0 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -7,6 +7,7 @@ import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
 from urllib.parse import urlparse, urlunparse
+from uuid import uuid4
 
 import requests
 
@@ -157,35 +158,66 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
     ) or filecmp.cmp(str(f1), str(f2), shallow=False)
 
 
+def is_file_content(file: Path, content: bytes) -> bool:
+    """Whether the file, and not one that it links to, has the given content."""
+    try:
+        return not file.is_symlink() and file.read_bytes() == content
+    except FileNotFoundError:
+        return False
+
+
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
-    target.parent.mkdir(parents=True, exist_ok=True)
-    if symlink:
-        if target.exists():
-            target.unlink()
-        try:
-            target.symlink_to(source)
-        except OSError as error:
+    with temporary_path(target) as temp_target:
+        if symlink:
             try:
-                os.link(source, target)
-            except OSError as e:
-                raise error from e
-    else:
-        temp_target = target.with_suffix(f"{target.suffix}.tmp")
-        shutil.copy(source, temp_target)
+                temp_target.symlink_to(source)
+            except OSError as error:
+                if target.exists():
+                    target.unlink()
+                try:
+                    os.link(source, target)
+                except OSError as e:
+                    raise error from e
+                return
+        else:
+            shutil.copy(source, temp_target)
+        replace_file(target, temp_target)
+
+
+def write_file(target: Path, content: bytes) -> None:
+    with temporary_path(target) as temp_target:
+        temp_target.write_bytes(content)
+        replace_file(target, temp_target)
+
+
+@contextmanager
+def temporary_path(target: Path):
+    """A path beside the target which no one else uses, and which is removed on failure."""
+    target.parent.mkdir(parents=True, exist_ok=True)
+    temp_target = target.with_name(f"{target.name}.{uuid4().hex}.tmp")
+    try:
+        yield temp_target
+    except BaseException:
+        with suppress(OSError):
+            temp_target.unlink()
+        raise
+
+
+def replace_file(target: Path, temp_target: Path) -> None:
+    try:
+        temp_target.replace(target)
+    except OSError:
+        # On Windows, replace might fail if the file is open
+        # Retry once after a short delay
+        time.sleep(0.1)
         try:
             temp_target.replace(target)
         except OSError:
-            # On Windows, replace might fail if the file is open
-            # Retry once after a short delay
-            time.sleep(0.1)
-            try:
-                temp_target.replace(target)
-            except OSError:
-                # If it still fails, try to unlink and rename
-                # This is not atomic, but it's a fallback
-                if target.exists():
-                    target.unlink()
-                temp_target.rename(target)
+            # If it still fails, try to unlink and rename
+            # This is not atomic, but it's a fallback
+            if target.exists():
+                target.unlink()
+            temp_target.rename(target)
 
 
 _JS_DEFAULT_EXPORT_PATTERN = re.compile(
-- 
2.43.0


From 31b0a5944b9aa3396ab529c403ec466d4b43cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 054/132] fix: whether a web module is a link or a copy is as
 last registered

---
 src/reactpy/reactjs/module.py | 16 +++++++++-------
 src/reactpy/reactjs/utils.py  | 12 ++++++++++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index fd94345..5061007 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -13,6 +13,7 @@ from reactpy.reactjs.utils import (
     copy_file,
     file_lock,
     is_file_content,
+    is_up_to_date,
     resolve_names_from_file,
     resolve_names_from_url,
     write_file,
@@ -62,13 +63,14 @@ def file_to_module(
             msg = f"Source file does not exist: {source_file}"
             raise FileNotFoundError(msg)
 
-        if not target_file.exists():
-            copy_file(target_file, source_file, symlink)
-        elif not are_files_identical(source_file, target_file):
-            logger.info(
-                f"Existing web module {name!r} will "
-                f"be replaced with {target_file.resolve()}"
-            )
+        if not is_up_to_date(target_file, source_file, symlink):
+            if target_file.exists() and not are_files_identical(
+                source_file, target_file
+            ):
+                logger.info(
+                    f"Existing web module {name!r} will "
+                    f"be replaced with {target_file.resolve()}"
+                )
             copy_file(target_file, source_file, symlink)
 
     return JavaScriptModule(
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 3c017c0..d9b0622 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -158,6 +158,18 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
     ) or filecmp.cmp(str(f1), str(f2), shallow=False)
 
 
+def is_up_to_date(target: Path, source: Path, symlink: bool) -> bool:
+    """Whether the target is already a link to, or a copy of, the (resolved) source."""
+    if target.resolve() == source:
+        return target.is_symlink() == symlink or not target.is_symlink()
+    return (
+        not symlink
+        and target.exists()
+        and not target.is_symlink()
+        and are_files_identical(source, target)
+    )
+
+
 def is_file_content(file: Path, content: bytes) -> bool:
     """Whether the file, and not one that it links to, has the given content."""
     try:
-- 
2.43.0


From 2486d521b0ea122a98792648c45928568bf417ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 055/132] fix: a process ended while it registered a web module
 locks no one out

---
 src/reactpy/reactjs/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index d9b0622..fd5ac13 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -253,6 +253,11 @@ def file_lock(lock_file: Path, timeout: float = 10.0):
             os.close(fd)
             break
         except OSError as e:
+            with suppress(OSError):
+                # Left behind by a process that was ended while it held the lock
+                if time.time() - lock_file.stat().st_mtime > timeout:
+                    os.unlink(lock_file)
+                    continue
             if time.time() - start_time > timeout:
                 raise TimeoutError(f"Could not acquire lock {lock_file}") from e
             time.sleep(0.1)
-- 
2.43.0


From edcfa00bbeeb6f3c072e02a4819f993ca683a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 056/132] fix: a cached web module is used only for what it was
 registered with

---
 src/reactpy/reactjs/__init__.py | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..c16c894 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -4,6 +4,7 @@ import hashlib
 from pathlib import Path
 from typing import Any, overload
 
+from reactpy.config import REACTPY_WEB_MODULES_DIR
 from reactpy.reactjs.module import (
     file_to_module,
     import_reactjs,
@@ -15,6 +16,7 @@ from reactpy.reactjs.types import (
     NAME_SOURCE,
     URL_SOURCE,
 )
+from reactpy.reactjs.utils import is_file_content, is_up_to_date
 from reactpy.types import JavaScriptModule, VdomConstructor
 
 __all__ = [
@@ -27,9 +29,9 @@ __all__ = [
     "import_reactjs",
 ]
 
-_URL_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
-_FILE_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
-_STRING_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
+_URL_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
+_FILE_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
+_STRING_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
 
 
 @overload
@@ -88,13 +90,12 @@ def component_from_url(
         allow_children:
             Whether or not these components can have children.
     """
-    key = f"{url}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = (url, resolve_imports, resolve_imports_depth, unmount_before_update)
     if key in _URL_JS_MODULE_CACHE:
         module = _URL_JS_MODULE_CACHE[key]
     else:
         module = url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -269,14 +270,20 @@ def component_from_file(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _FILE_JS_MODULE_CACHE:
-        module = _FILE_JS_MODULE_CACHE[key]
-    else:
+    content = Path(file).read_bytes() if Path(file).exists() else b""
+    key = (
+        name,
+        REACTPY_WEB_MODULES_DIR.current,
+        hashlib.sha256(content).digest(),
+        resolve_imports,
+        resolve_imports_depth,
+        unmount_before_update,
+    )
+    module = _FILE_JS_MODULE_CACHE.get(key)
+    if module is None or not is_up_to_date(module.file, Path(file).resolve(), symlink):
         module = file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -348,14 +355,19 @@ def component_from_string(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _STRING_JS_MODULE_CACHE:
-        module = _STRING_JS_MODULE_CACHE[key]
-    else:
+    key = (
+        name,
+        REACTPY_WEB_MODULES_DIR.current,
+        content,
+        resolve_imports,
+        resolve_imports_depth,
+        unmount_before_update,
+    )
+    module = _STRING_JS_MODULE_CACHE.get(key)
+    if module is None or not is_file_content(module.file, content.encode("utf-8")):
         module = string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
-- 
2.43.0


From 8168f8fa7a3de2775362c90c5e4c1a4b854dc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 057/132] fix: a web module's component may have an empty
 fallback

---
 src/reactpy/reactjs/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 5061007..4a27100 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -177,7 +177,9 @@ def make_module(
         import_source=ImportSourceDict(
             source=web_module.source,
             sourceType=web_module.source_type,
-            fallback=(fallback or web_module.default_fallback),
+            fallback=(
+                web_module.default_fallback if fallback is None else fallback
+            ),
             unmountBeforeUpdate=web_module.unmount_before_update,
         ),
     )
-- 
2.43.0


From f9374f97be85a8b39195174757801e52c54caeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 058/132] fix: a web module that is a link is served

---
 src/reactpy/executors/asgi/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index c80f3fa..f5009dd 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -310,6 +310,8 @@ class WebModuleApp:
                 prefix=self.parent.web_modules_path,
                 autorefresh=True,
             )
+            # Modules registered with `symlink=True` are links to other directories
+            self._static_file_server.allow_unsafe_symlinks = True
 
         await self._static_file_server(
             cast(asgi_types.Scope, scope),
-- 
2.43.0


From 8262891f91283ca7d6272dc2f250363f79bbb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 059/132] fix: web modules are registered one after another

---
 src/reactpy/reactjs/module.py | 15 ++++++++-------
 src/reactpy/reactjs/utils.py  | 17 +++++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 4a27100..6029e8c 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -101,13 +101,14 @@ def string_to_module(
 
     content_bytes = content.encode("utf-8")
 
-    if not is_file_content(target_file, content_bytes):
-        if target_file.exists():
-            logger.info(
-                f"Existing web module {name!r} will "
-                f"be replaced with {target_file.resolve()}"
-            )
-        write_file(target_file, content_bytes)
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if not is_file_content(target_file, content_bytes):
+            if target_file.exists():
+                logger.info(
+                    f"Existing web module {name!r} will "
+                    f"be replaced with {target_file.resolve()}"
+                )
+            write_file(target_file, content_bytes)
 
     return JavaScriptModule(
         source=name,
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index fd5ac13..dee2a19 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -160,14 +160,15 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
 
 def is_up_to_date(target: Path, source: Path, symlink: bool) -> bool:
     """Whether the target is already a link to, or a copy of, the (resolved) source."""
-    if target.resolve() == source:
-        return target.is_symlink() == symlink or not target.is_symlink()
-    return (
-        not symlink
-        and target.exists()
-        and not target.is_symlink()
-        and are_files_identical(source, target)
-    )
+    try:
+        same_file = target.samefile(source)
+        if symlink:
+            return same_file
+        return not target.is_symlink() and (
+            same_file or target.read_bytes() == source.read_bytes()
+        )
+    except FileNotFoundError:
+        return False
 
 
 def is_file_content(file: Path, content: bytes) -> bool:
-- 
2.43.0


From 1e469aa64dfbe00fb88df82b43b3f897a10181b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 060/132] fix: every module re-exported by a url's module is
 found relative to that url

---
 src/reactpy/reactjs/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index dee2a19..579dfd7 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -63,8 +63,10 @@ def resolve_names_from_url(
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        ref_url = normalize_url_path(url, ref)
+        names.update(
+            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
+        )
 
     return names
 
-- 
2.43.0


From 33cbf39101db419fb27f1100e12d71342d0575c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 061/132] fix: relative urls of re-exported modules are
 resolved as a browser would

---
 src/reactpy/reactjs/utils.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 579dfd7..03ba794 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -6,7 +6,7 @@ import shutil
 import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse
 from uuid import uuid4
 
 import requests
@@ -133,23 +133,10 @@ def resolve_names_from_source(
 
 
 def normalize_url_path(base_url: str, rel_url: str) -> str:
-    if not rel_url.startswith("."):
-        if rel_url.startswith("/"):
-            # copy scheme and hostname from base_url
-            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])
-        else:
-            return rel_url
-
-    base_url = base_url.rsplit("/", 1)[0]
-
-    if rel_url.startswith("./"):
-        return base_url + rel_url[1:]
-
-    while rel_url.startswith("../"):
-        base_url = base_url.rsplit("/", 1)[0]
-        rel_url = rel_url[3:]
+    if not rel_url.startswith((".", "/")):
+        return rel_url
 
-    return f"{base_url}/{rel_url}"
+    return urljoin(base_url, rel_url)
 
 
 def are_files_identical(f1: Path, f2: Path) -> bool:
-- 
2.43.0


From aa525c153556f0b1e2f5c6c2d905974d3c778dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 062/132] fix: a re-exported module that cannot be fetched is
 skipped, and modules are UTF-8

---
 src/reactpy/reactjs/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 03ba794..a80da0d 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -54,12 +54,15 @@ def resolve_names_from_url(
         return set()
 
     try:
-        text = requests.get(url, timeout=5).text
-    except requests.exceptions.ConnectionError as error:
-        reason = "" if error is None else " - {error.errno}"
-        logger.warning(f"Did not resolve imports for url {url} {reason}")
+        response = requests.get(url, timeout=5)
+        response.raise_for_status()
+    except requests.exceptions.RequestException as error:
+        logger.warning(f"Did not resolve imports for url {url} - {error}")
         return set()
 
+    # JavaScript modules are always UTF-8
+    text = response.content.decode("utf-8", errors="replace")
+
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-- 
2.43.0


From b95a7de3024e65ccc141dea27855644f64526495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 063/132] fix: exported names are found in any formatting, and
 not in comments, strings or other code

---
 src/reactpy/reactjs/utils.py | 199 ++++++++++++++++++++++++++++-------
 1 file changed, 160 insertions(+), 39 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index a80da0d..e2c0309 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -87,47 +87,50 @@ def resolve_names_from_source(
     """
     all_names: set[str] = set()
     references: set[str] = set()
+    tokens = _top_level_js_tokens(content)
 
-    if _JS_DEFAULT_EXPORT_PATTERN.search(content):
-        all_names.add("default")
+    for index, (token, depth, _) in enumerate(tokens):
+        if token != "export" or depth or (index and tokens[index - 1][0] == "."):
+            continue
 
-    # Exporting functions and classes
-    all_names.update(_JS_FUNC_OR_CLS_EXPORT_PATTERN.findall(content))
+        statement = _js_statement(tokens, index + 1)
+        kind = statement[0][0] if statement else ""
 
-    for name in _JS_GENERAL_EXPORT_PATTERN.findall(content):
-        name = name.rstrip(";").strip()
-        # Exporting individual features
-        if name.startswith("let "):
-            all_names.update(let.split("=", 1)[0] for let in name[4:].split(","))
-        # Renaming exports and export list
-        elif name.startswith("{") and name.endswith("}"):
-            all_names.update(
-                item.split(" as ", 1)[-1] for item in name.strip("{}").split(",")
-            )
-        # Exporting destructured assignments with renaming
-        elif name.startswith("const "):
-            all_names.update(
-                item.split(":", 1)[0]
-                for item in name[6:].split("=", 1)[0].strip("{}").split(",")
-            )
         # Default exports
-        elif name.startswith("default "):
+        if kind == "default":
             all_names.add("default")
         # Aggregating modules
-        elif name.startswith("* as "):
-            all_names.add(name[5:].split(" from ", 1)[0])
-        elif name.startswith("* "):
-            references.add(name[2:].split("from ", 1)[-1].strip("'\""))
-        elif name.startswith("{") and " from " in name:
+        elif kind == "*" and len(statement) > 2:
+            if statement[1][0] == "as":
+                all_names.add(_unquote_js(statement[2][0]))
+            else:
+                references.add(_unquote_js(statement[2][0]).strip())
+        # Renaming exports and export list
+        elif kind == "{":
+            closing = next((i for i, t in enumerate(statement) if t[0] == "}"), 1)
             all_names.update(
-                item.split(" as ", 1)[-1]
-                for item in name.split(" from ")[0].strip("{}").split(",")
+                _unquote_js(item[-1][0])
+                for item in _split_js_list(statement[1:closing], 1)
             )
-        elif not (name.startswith("function ") or name.startswith("class ")):
-            logger.warning(f"Found unknown export type {name!r}")
-
-    all_names = {n.strip() for n in all_names}
-    references = {r.strip() for r in references}
+        # Exporting individual features
+        elif kind in _JS_DECLARATIONS:
+            for item in _split_js_list(statement[1:], 0):
+                if item[0][0] in {"{", "["}:
+                    # Exporting destructured assignments with renaming
+                    closing = next(
+                        (i for i, t in enumerate(item) if t[0] in {"}", "]"}), 1
+                    )
+                    for part in _split_js_list(item[1:closing], 1):
+                        all_names.update([t[0] for t in part if t[0] != "."][:1])
+                else:
+                    all_names.add(item[0][0])
+        # Exporting functions and classes
+        elif kind in {"function", "class", "async"}:
+            prefix = {"function", "class", "async", "*"}
+            all_names.update([t[0] for t in statement if t[0] not in prefix][:1])
+        else:
+            text = " ".join(t[0] for t in statement)
+            logger.warning(f"Found unknown export type {text!r}")
 
     if exclude_default and "default" in all_names:
         all_names.remove("default")
@@ -225,16 +228,134 @@ def replace_file(target: Path, temp_target: Path) -> None:
             temp_target.rename(target)
 
 
-_JS_DEFAULT_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+default\s",
+_JS_TOKEN_PATTERN = re.compile(
+    r"""
+      (?P<space>(?:[\s\ufeff]|//[^\r\n\u2028\u2029]*|/\*.*?\*/|^\#![^\r\n]*)+)
+    | (?P<string>"(?:[^"\\\r\n]|\\.)*"|'(?:[^'\\\r\n]|\\.)*')
+    | (?P<name>(?:[\w$\u200c\u200d]|\\u[0-9a-fA-F]{4}|\\u\{[0-9a-fA-F]+\})+)
+    | (?P<punctuation>=>|\+\+|--|.)
+    """,
+    re.VERBOSE | re.DOTALL,
 )
-_JS_FUNC_OR_CLS_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+(?:function|class)\s+([a-zA-Z_$][0-9a-zA-Z_$]*)"
+_JS_REGEX_PATTERN = re.compile(
+    r"/(?:[^/\\\[\r\n]|\\.|\[(?:[^\]\\\r\n]|\\.)*\])+/[a-z]*"
 )
-_JS_GENERAL_EXPORT_PATTERN = re.compile(
-    r"(?:^|;|})\s*export(?=\s+|{)(.*?)(?=;|$)", re.MULTILINE
+_JS_TEMPLATE_PATTERN = re.compile(r"(?:[^`\\$]|\\.|\$(?!\{))*(`|\$\{)", re.DOTALL)
+_JS_DECLARATIONS = frozenset({"let", "const", "var"})
+_JS_PREFIX_KEYWORDS = frozenset(
+    "return typeof case do else in instanceof new delete void throw await yield of "
+    "extends export default import class function".split()
 )
 
+_JsToken = tuple[str, int, bool]
+"""The token's text, how many brackets enclose it, and whether a new line precedes it"""
+
+
+def _top_level_js_tokens(content: str) -> list[_JsToken]:
+    """The tokens of a JavaScript module which are outside of nested code
+
+    The brackets around nested code are kept, as is what is directly within them.
+    """
+    tokens: list[_JsToken] = []
+    # Every open bracket, with whether a regular expression may follow when it closes
+    brackets: list[tuple[str, bool]] = []
+    is_operand = False  # whether what precedes is the end of an expression
+    new_line = False
+    previous = ""
+    position = 0
+
+    while position < len(content):
+        in_template = content[position] == "`" or (
+            content[position] == "}" and brackets and brackets[-1][0] == "${"
+        )
+        regex = None
+        if content[position] == "/" and not is_operand:
+            if content[position + 1 : position + 2] not in {"/", "*"}:
+                regex = _JS_REGEX_PATTERN.match(content, position)
+
+        if in_template:
+            if content[position] == "}":
+                brackets.pop()
+            match = _JS_TEMPLATE_PATTERN.match(content, position + 1)
+            token, is_operand = "``", bool(match and match[1] == "`")
+        elif regex:
+            match, token, is_operand = regex, "``", True
+        else:
+            match = _JS_TOKEN_PATTERN.match(content, position)
+            token = match[0] if match else ""
+
+        if not match:
+            break  # an unterminated template
+        position = match.end()
+
+        if match.lastgroup == "space":
+            new_line = new_line or any(c in token for c in "\r\n\u2028\u2029")
+            continue
+
+        if token in {")", "]", "}"} and brackets:
+            is_operand = not brackets.pop()[1]
+        elif match.lastgroup == "punctuation" and token not in {"++", "--"}:
+            is_operand = token in {")", "]", "}"}
+        elif match.lastgroup == "string":
+            is_operand = True
+        elif match.lastgroup == "name":
+            is_operand = token not in _JS_PREFIX_KEYWORDS or previous == "."
+
+        if len(brackets) < 2:  # noqa: PLR2004
+            tokens.append((token, len(brackets), new_line))
+
+        if token == "(":
+            brackets.append((token, previous in {"if", "while", "for", "with"}))
+        elif token == "{":
+            is_block = previous in {"", ";", "{", "}", ")", "=>", "else", "do", "try"}
+            brackets.append((token, is_block or previous == "finally"))
+        elif token == "[":
+            brackets.append((token, False))
+        elif in_template and match[1] == "${":
+            brackets.append(("${", False))
+
+        previous, new_line = token, False
+
+    return tokens
+
+
+def _js_statement(tokens: list[_JsToken], start: int) -> list[_JsToken]:
+    """The tokens of the top-level statement which begins at the given index"""
+    is_declaration = tokens[start : start + 1] and tokens[start][0] in _JS_DECLARATIONS
+    for index in range(start, len(tokens)):
+        token, depth, new_line = tokens[index]
+        if depth:
+            continue
+        is_property = tokens[index - 1][0] == "."
+        if token == ";" or (token == "export" and not is_property):
+            return tokens[start:index]
+        if new_line and is_declaration and index > start + 1:
+            # A semicolon is inserted between what cannot be one expression
+            previous = tokens[index - 1][0]
+            ends = previous not in _JS_PREFIX_KEYWORDS and (
+                previous[-1].isalnum() or previous[-1] in "_$)]}\"'`"
+            )
+            begins = token[0].isalnum() or token[0] in "_$@\"'"
+            is_continued = token in {"in", "instanceof"}
+            if ends and begins and not is_continued:
+                return tokens[start:index]
+    return tokens[start:]
+
+
+def _split_js_list(tokens: list[_JsToken], depth: int) -> list[list[_JsToken]]:
+    """The items of a list of which the commas are within the given number of brackets"""
+    items: list[list[_JsToken]] = [[]]
+    for token in tokens:
+        if token[:2] == (",", depth):
+            items.append([])
+        else:
+            items[-1].append(token)
+    return [item for item in items if item]
+
+
+def _unquote_js(token: str) -> str:
+    return token[1:-1] if token[0] in "\"'" else token
+
 
 @contextmanager
 def file_lock(lock_file: Path, timeout: float = 10.0):
-- 
2.43.0


From ff9a4fc62a8fcc2cb30de765e2f4087caed9f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 064/132] fix: an event handler that returns a coroutine is
 awaited

---
 src/reactpy/core/events.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 3828e2a..6a742d3 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -187,24 +187,19 @@ def to_event_handler_function(
             Whether to pass the event parameters a positional args or as a list.
     """
     if positional_args:
-        if inspect.iscoroutinefunction(function):
-
-            async def wrapper(data: Sequence[Any]) -> None:
-                await function(*data)
-
-            cast(Any, wrapper).__wrapped__ = function
-
-        else:
-
-            async def wrapper(data: Sequence[Any]) -> None:
-                function(*data)
+        async def wrapper(data: Sequence[Any]) -> None:
+            result = function(*data)
+            if inspect.iscoroutine(result):
+                await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
     elif not inspect.iscoroutinefunction(function):
 
         async def wrapper(data: Sequence[Any]) -> None:
-            function(data)
+            result = function(data)
+            if inspect.iscoroutine(result):
+                await result
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
-- 
2.43.0


From ada48fd3f361aed13403ea58ef93803cc5ed86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 065/132] fix: a failing event handler does not cancel those it
 was merged with

---
 src/reactpy/core/events.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 6a742d3..a76c1ab 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -267,8 +267,19 @@ def merge_event_handler_funcs(
         return functions[0]
 
     async def await_all_event_handlers(data: Sequence[Any]) -> None:
+        errors: list[Exception] = []
+
+        async def run(func: EventHandlerFunc) -> None:
+            try:
+                await func(data)
+            except Exception as error:
+                errors.append(error)
+
         async with create_task_group() as group:
             for func in functions:
-                group.start_soon(func, data)
+                group.start_soon(run, func)
+
+        if errors:
+            raise ExceptionGroup("Error(s) in merged event handlers", errors)
 
     return await_all_event_handlers
-- 
2.43.0


From 88c82bd4771b4e0f0f6e94f416b024eb1f7aa2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 066/132] fix: methods, callable objects, builtins and all
 partials can handle events

---
 src/reactpy/core/_event_inspect.py | 70 ++++++++++++++++++++++++++----
 src/reactpy/core/events.py         | 12 +----
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..01035fd 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -6,9 +6,12 @@ Implementing this syntax necessitates inspecting the bytecode of event handler f
 from __future__ import annotations
 
 import dis
-from collections.abc import Callable, Iterable
-from types import CodeType
-from typing import Any
+import inspect
+import sys
+from collections.abc import Callable, Iterable, Mapping
+from functools import partial
+from types import CodeType, FunctionType, MappingProxyType, MethodType
+from typing import Any, cast
 
 # Number of operands packed into a ``LOAD_FAST_BORROW_LOAD_FAST_BORROW``
 # superinstruction (value name + target name).
@@ -19,7 +22,51 @@ _LOAD_FAST_BORROW_PAIR_SIZE = 2
 _STORE_ATTR_VALUE_OFFSET = 2
 
 
-def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
+def unwrap_event_handler(
+    func: Callable,
+) -> tuple[Callable, tuple[Any, ...], dict[str, Any]]:
+    """Find the function that a callable finally calls.
+
+    Returns the function with the arguments which are already bound to it.
+    """
+    args: tuple[Any, ...] = ()
+    kwargs: dict[str, Any] = {}
+
+    for _ in range(sys.getrecursionlimit()):
+        if isinstance(func, partial):
+            args, kwargs = func.args + args, {**func.keywords, **kwargs}
+            func = func.func
+        elif isinstance(func, MethodType):
+            args = (func.__self__, *args)
+            func = func.__func__
+        elif _has_static_attr(func, "__wrapped__"):
+            func = cast(Any, func).__wrapped__
+        elif not isinstance(func, (FunctionType, type)) and isinstance(
+            getattr(type(func), "__call__", None),  # noqa: B004
+            FunctionType,
+        ):
+            args = (func, *args)
+            func = type(func).__call__
+        else:
+            break
+
+    return func, args, kwargs
+
+
+def _has_static_attr(obj: Any, name: str) -> bool:
+    """Whether an attribute exists without a ``__getattr__`` that makes it up."""
+    try:
+        inspect.getattr_static(obj, name)
+    except AttributeError:
+        return False
+    return True
+
+
+def inspect_event_handler(
+    func: Callable,
+    args: tuple[Any, ...] = (),
+    kwargs: Mapping[str, Any] = MappingProxyType({}),
+) -> tuple[bool, bool, int | None]:
     """Detect ``preventDefault``/``stopPropagation``/``debounce`` usage.
 
     Walks the bytecode of ``func`` looking for the patterns:
@@ -40,15 +87,18 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     be resolved from the function alone, so users must pass
     ``debounce=...`` explicitly in that case.
 
+    The event is the first argument after those in ``args``, which (like those in
+    ``kwargs``) are already bound to the function.
+
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
-
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    code = getattr(func, "__code__", None)
+
+    if not isinstance(code, CodeType) or code.co_argcount <= len(args):
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,9 +109,13 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[len(args)]
     instructions = list(dis.get_instructions(code))
     arg_defaults = _function_arg_defaults(func)
+    for name, value in [*zip(code.co_varnames, args, strict=False), *kwargs.items()]:
+        arg_defaults.pop(name, None)
+        if isinstance(value, int) and not isinstance(value, bool):
+            arg_defaults[name] = value
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
 
diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index a76c1ab..7c646ad 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -2,12 +2,11 @@ from __future__ import annotations
 
 import inspect
 from collections.abc import Callable, Sequence
-from functools import partial
 from typing import Any, Literal, cast, overload
 
 from anyio import create_task_group
 
-from reactpy.core._event_inspect import inspect_event_handler
+from reactpy.core._event_inspect import inspect_event_handler, unwrap_event_handler
 from reactpy.types import BaseEventHandler, EventHandlerFunc
 
 
@@ -126,15 +125,8 @@ class EventHandler(BaseEventHandler):
 
         # Check if our `preventDefault` or `stopPropagation` methods were called
         # by inspecting the function's bytecode
-        func_to_inspect = cast(Any, function)
-        while hasattr(func_to_inspect, "__wrapped__"):
-            func_to_inspect = func_to_inspect.__wrapped__
-
-        if isinstance(func_to_inspect, partial):
-            func_to_inspect = func_to_inspect.func
-
         found_prevent_default, found_stop_propagation, found_debounce = (
-            inspect_event_handler(func_to_inspect)
+            inspect_event_handler(*unwrap_event_handler(function))
         )
 
         if found_prevent_default:
-- 
2.43.0


From 9c1bfbf9d137285f52192ba10cc6a13e799a5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 067/132] fix: an event handler debounces only by a value that
 is certain

---
 src/reactpy/core/_event_inspect.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 01035fd..60c734c 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -116,6 +116,11 @@ def inspect_event_handler(
         arg_defaults.pop(name, None)
         if isinstance(value, int) and not isinstance(value, bool):
             arg_defaults[name] = value
+    for instr in instructions:
+        if instr.opname.startswith("STORE_FAST"):
+            # The function may replace these by another value
+            for name in instr.argval if isinstance(instr.argval, tuple) else [instr.argval]:
+                arg_defaults.pop(name, None)
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
 
@@ -173,9 +178,8 @@ def inspect_event_handler(
                 constant_ints_by_name,
             )
             if isinstance(candidate, int) and not isinstance(candidate, bool):
-                if not debounce_tainted:
+                if not debounce_tainted and debounce is None:
                     debounce = candidate
-                    check_debounce = False
             elif candidate is None:
                 # Value source is a name we cannot resolve at this point.
                 # This could be a module-level global, a local variable, or
@@ -303,6 +307,9 @@ def _resolve_debounce_value(
         return None
     if target_instr.argval != event_arg_name:
         return None
+    if getattr(target_instr, "is_jump_target", False):
+        # The value is one of several, depending on a condition
+        return None
 
     if val_instr.opname in ("LOAD_CONST", "LOAD_SMALL_INT"):
         value = val_instr.argval
-- 
2.43.0


From 96d5244462edf6caa6ec46ec3e8fafbf0594df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 068/132] fix: operations on the event are found in large
 functions and beside nested ones

---
 src/reactpy/core/_event_inspect.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 60c734c..8f364e2 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -110,7 +110,9 @@ def inspect_event_handler(
         return prevent_default, stop_propagation, debounce
 
     event_arg_name = code.co_varnames[len(args)]
-    instructions = list(dis.get_instructions(code))
+    instructions = [
+        instr for instr in dis.get_instructions(code) if instr.opname != "EXTENDED_ARG"
+    ]
     arg_defaults = _function_arg_defaults(func)
     for name, value in [*zip(code.co_varnames, args, strict=False), *kwargs.items()]:
         arg_defaults.pop(name, None)
@@ -133,7 +135,7 @@ def inspect_event_handler(
 
     for index, instr in enumerate(instructions):
         if (
-            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW")
+            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW", "LOAD_DEREF")
             and instr.argval == event_arg_name
         ):
             last_was_event = True
@@ -297,6 +299,8 @@ def _resolve_debounce_value(
     if target_instr.opname not in (
         "LOAD_FAST",
         "LOAD_FAST_BORROW",
+        # The event argument is also used by a nested function
+        "LOAD_DEREF",
         # CPython 3.13+ may fuse two ``LOAD_FAST`` instructions into
         # ``LOAD_FAST_LOAD_FAST`` whose argval is ``(value_name, target_name)``.
         # The detector above already covers this case for debounce values,
-- 
2.43.0


From cabc1a54f1f37503963d85e836e59452654d9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 069/132] fix: rewriting a call leaves everything around it as
 it is

---
 src/reactpy/_console/ast_utils.py | 159 +++++++++++++++++-------------
 1 file changed, 91 insertions(+), 68 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..0506c23 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,12 +2,18 @@
 from __future__ import annotations
 
 import ast
+import re
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import BytesIO
+from itertools import accumulate
 from pathlib import Path
-from textwrap import indent
 from tokenize import COMMENT as COMMENT_TOKEN
-from tokenize import generate_tokens
+from tokenize import DEDENT as DEDENT_TOKEN
+from tokenize import INDENT as INDENT_TOKEN
+from tokenize import NEWLINE as NEWLINE_TOKEN
+from tokenize import NL as NL_TOKEN
+from tokenize import detect_encoding, generate_tokens
 from typing import Any
 
 import click
@@ -23,69 +29,72 @@ def rewrite_changed_nodes(
 ) -> str:
     ast.fix_missing_locations(tree)
 
-    lines = source.split("\n")
+    lines = _split_lines(source)
+    line_starts = [0, *accumulate(map(len, lines))]
+    comments, logical_lines = _find_comments_and_logical_lines(lines)
 
-    # find closest parent nodes that should be re-written
-    nodes_to_unparse: list[ast.AST] = []
+    def offset(lineno: int, byte_offset: int) -> int:
+        prefix = lines[lineno - 1].encode()[:byte_offset]
+        return line_starts[lineno - 1] + len(prefix.decode())
+
+    nodes_to_unparse: dict[tuple[int, int], ast.AST] = {}
     for change in changed:
-        node_lineage = [change.node, *change.parents]
-        for i in range(len(node_lineage) - 1):
-            current_node, next_node = node_lineage[i : i + 2]
-            if (
-                not hasattr(next_node, "lineno")
-                or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
-            ):
-                nodes_to_unparse.append(current_node)
-                break
-        else:  # nocov
-            msg = "Failed to change code"
-            raise RuntimeError(msg)
-
-    # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
-            outermost_nodes_to_unparse.append(node)
+        node = change.node
+        for parent in change.parents:
+            # code within an f-string can only be re-written along with its quotes
+            if isinstance(parent, ast.JoinedStr):
+                node = parent
+        start = offset(node.lineno, node.col_offset)
+        nodes_to_unparse[start, -offset(node.end_lineno, node.end_col_offset)] = node
+
+    edits: list[tuple[int, int, str]] = []
+    end = 0
+    for (start, negative_end), node in sorted(
+        nodes_to_unparse.items(), key=lambda item: item[0]
+    ):
+        if start < end:
+            continue  # contained in the node before
+        end = -negative_end
+        edits.append((start, end, ast.unparse(node)))
 
-    moved_comment_lines_from_end: list[int] = []
-    # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
-    for node in reversed(outermost_nodes_to_unparse):
         # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
-
-        # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
-
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
-
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
-        )
-
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
-
-        if comments:
-            moved_comment_lines_from_end.append(len(lines) - node.lineno)
-
-    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
-        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
-
-    return "\n".join(lines)
+        moved_comments = [
+            comment
+            for (row, column), comment in comments.items()
+            if start <= line_starts[row - 1] + column < end
+        ]
+        if moved_comments:
+            row = node.lineno
+            is_first = not source[line_starts[row - 1] : start].strip()
+            if not is_first or (row > 1 and lines[row - 2].rstrip().endswith("\\")):
+                row = max(r for r in logical_lines if r <= row)
+            line = lines[row - 1]
+            indentation = line[: len(line) - len(line.lstrip())]
+            line_end = "\r\n" if line.endswith("\r\n") else "\n"
+            text = "".join(indentation + c + line_end for c in moved_comments)
+            edits.append((line_starts[row - 1], line_starts[row - 1], text))
+
+    result = ""
+    position = 0
+    for start, end, text in sorted(edits, key=lambda edit: edit[:2]):
+        result += source[position:start]
+        if start == end:
+            click.echo(f"Moved comments to {file}:{len(_split_lines(result))}")
+        result += text
+        position = end
+
+    return result + source[position:]
+
+
+def read_source(file: Path) -> tuple[str, str]:
+    """Read a Python file without changing its line ends, along with its encoding"""
+    content = file.read_bytes()
+    encoding, _ = detect_encoding(BytesIO(content).readline)
+    return content.decode(encoding), encoding
+
+
+def write_source(file: Path, source: str, encoding: str) -> None:
+    file.write_bytes(source.encode(encoding, errors="backslashreplace"))
 
 
 @dataclass
@@ -169,13 +178,27 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
-    return [
-        token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
-        if token_type == COMMENT_TOKEN
-    ]
+def _split_lines(source: str) -> list[str]:
+    """Split the source where Python does, keeping the line ends"""
+    return re.split(r"(?<=\n)|(?<=\r)(?!\n)", source)
+
+
+def _find_comments_and_logical_lines(
+    lines: list[str],
+) -> tuple[dict[tuple[int, int], str], list[int]]:
+    """Find all comments by row and column, and the rows where logical lines begin"""
+    comments: dict[tuple[int, int], str] = {}
+    logical_lines: list[int] = []
+    is_new = True
+    for token in generate_tokens(iter([line for line in lines if line]).__next__):
+        if token.type == COMMENT_TOKEN:
+            comments[token.start] = token.string
+        elif token.type == NEWLINE_TOKEN:
+            is_new = True
+        elif is_new and token.type not in {NL_TOKEN, INDENT_TOKEN, DEDENT_TOKEN}:
+            logical_lines.append(token.start[0])
+            is_new = False
+    return comments, logical_lines
 
 
 def _walk_with_parent(
-- 
2.43.0


From 314c51ef24e97b0330fcaaac56060b3de28424e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 070/132] fix: rewriting a file keeps its encoding and its line
 ends

---
 src/reactpy/_console/rewrite_keys.py  | 7 +++++--
 src/reactpy/_console/rewrite_props.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..6c1edb1 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -9,7 +9,9 @@ from reactpy import html
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    read_source,
     rewrite_changed_nodes,
+    write_source,
 )
 
 
@@ -47,9 +49,10 @@ def rewrite_keys(paths: list[str]) -> None:
 
     for p in map(Path, paths):
         for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
+            source, encoding = read_source(f)
+            result = generate_rewrite(file=f, source=source)
             if result is not None:
-                f.write_text(result)
+                write_source(f, result, encoding)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..e5618d1 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -11,7 +11,9 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    read_source,
     rewrite_changed_nodes,
+    write_source,
 )
 
 
@@ -22,9 +24,10 @@ def rewrite_props(paths: list[str]) -> None:
     for p in map(Path, paths):
         # Process each file or recursively process each Python file in directories
         for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
+            source, encoding = read_source(f)
+            result = generate_rewrite(file=f, source=source)
             if result is not None:
-                f.write_text(result)
+                write_source(f, result, encoding)
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
-- 
2.43.0


From c14c20ccaf79f207396f76aecfda6fd2f4c3619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 071/132] fix: only calls that are element constructors with a
 key are rewritten

---
 src/reactpy/_console/ast_utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 0506c23..d670d92 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -122,20 +122,25 @@ def find_element_constructor_usages(
         else:
             continue
 
+        # a plain name is not necessarily an element constructor
+        if isinstance(func, ast.Name) and name not in _CONSTRUCTOR_NAMES:
+            continue
+
         maybe_attr_dict_node: Any | None = None
+        can_add_props = add_props and any(kw.arg == "key" for kw in node.keywords)
 
         if name == "vdom":
-            if len(node.args) == 0:
+            if len(node.args) == 0 or isinstance(node.args[0], ast.Starred):
                 continue
             elif len(node.args) == 1:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if can_add_props:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if can_add_props:
                     node.args.insert(1, maybe_attr_dict_node)
                 else:
                     continue
@@ -144,13 +149,13 @@ def find_element_constructor_usages(
         elif hasattr(html, name):
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if can_add_props:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if can_add_props:
                     node.args.insert(0, maybe_attr_dict_node)
                 else:
                     continue
@@ -178,6 +183,9 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
+_CONSTRUCTOR_NAMES = frozenset({"vdom", "fragment", *type(html).__annotations__})
+
+
 def _split_lines(source: str) -> list[str]:
     """Split the source where Python does, keeping the line ends"""
     return re.split(r"(?<=\n)|(?<=\r)(?!\n)", source)
-- 
2.43.0


From 9209d642f35c6ce9179475e0f362b8624acbeec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 072/132] fix: rewriting props makes no invalid or repeated
 keyword arguments

---
 src/reactpy/_console/rewrite_props.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e5618d1..536644e 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import ast
 from collections.abc import Callable
 from copy import copy
-from keyword import kwlist
+from keyword import iskeyword, kwlist
 from pathlib import Path
 
 import click
@@ -122,11 +122,15 @@ def _rewrite_props(
     else:
         did_change = False
         keywords: list[ast.keyword] = []
+        names = {kw.arg for kw in props_node.keywords}
         # Iterate over the keywords in the call
         for kw in props_node.keywords:
             if kw.arg is not None:
                 # Construct the new keyword argument and value
                 kw_arg, kw_value = constructor(kw.arg, kw.value)
+                if not kw_arg.isidentifier() or iskeyword(kw_arg) or kw_arg in names:
+                    kw_arg = kw.arg
+                names.add(kw_arg)
                 if kw_arg != kw.arg or kw_value is not kw.value:
                     did_change = True
                 kw = ast.keyword(arg=kw_arg, value=kw_value)
-- 
2.43.0


From f89291fbbeea93ace5da4f0b7b7e8aae2562ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 073/132] fix: rewriting keys makes no repeated keyword
 arguments

---
 src/reactpy/_console/rewrite_keys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index 6c1edb1..e5f6b5d 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -81,6 +81,8 @@ def find_nodes_to_change(tree: ast.AST) -> list[ChangedNode]:
         if isinstance(el_info.props, ast.Dict):
             el_info.props.keys.append(ast.Constant("key"))
             el_info.props.values.append(kw.value)
+        elif any(prop.arg == "key" for prop in el_info.props.keywords):
+            continue  # it is not possible to give the same keyword twice
         else:
             el_info.props.keywords.append(ast.keyword(arg="key", value=kw.value))
 
-- 
2.43.0


From a5c49f397482d928be4df7f3072035cc0f7238c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 074/132] fix: a style that is the result of a call is left as
 it is

---
 src/reactpy/_console/ast_utils.py     | 16 ++++++++++------
 src/reactpy/_console/rewrite_props.py |  3 ++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index d670d92..6c3b1e9 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -165,17 +165,21 @@ def find_element_constructor_usages(
         if not maybe_attr_dict_node:
             continue
 
-        if isinstance(maybe_attr_dict_node, ast.Dict) or (
-            isinstance(maybe_attr_dict_node, ast.Call)
-            and isinstance(maybe_attr_dict_node.func, ast.Name)
-            and maybe_attr_dict_node.func.id == "dict"
-            and isinstance(maybe_attr_dict_node.func.ctx, ast.Load)
-        ):
+        if is_dict_or_dict_call(maybe_attr_dict_node):
             yield ElementConstructorInfo(node, maybe_attr_dict_node, parents)
 
     return changed
 
 
+def is_dict_or_dict_call(node: ast.AST) -> bool:
+    return isinstance(node, ast.Dict) or (
+        isinstance(node, ast.Call)
+        and isinstance(node.func, ast.Name)
+        and node.func.id == "dict"
+        and isinstance(node.func.ctx, ast.Load)
+    )
+
+
 @dataclass
 class ElementConstructorInfo:
     call: ast.Call
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index 536644e..f5c0092 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -11,6 +11,7 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    is_dict_or_dict_call,
     read_source,
     rewrite_changed_nodes,
     write_source,
@@ -75,7 +76,7 @@ def conv_attr_name(name: str) -> str:
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and is_dict_or_dict_call(value):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
-- 
2.43.0


From 823ad935b1e28632457ce94cd4d3ed0cda0fa03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 075/132] fix: minifying the source of a PyScript component
 does not change its strings

---
 src/reactpy/executors/pyscript/utils.py | 27 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..b5e79fc 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -1,6 +1,7 @@
 # ruff: noqa: S603
 from __future__ import annotations
 
+import ast
 import base64
 import csv
 import functools
@@ -38,16 +39,18 @@ _WHEEL_FILENAME_PART_COUNT = 5
 
 def minify_python(source: str) -> str:
     """Minify Python source code."""
-    # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
+    tree = ast.parse(source)
     # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
-    # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    for node in ast.walk(tree):
+        if isinstance(
+            node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
+        ):
+            while ast.get_docstring(node, clean=False) is not None:
+                del node.body[0]
+                if not node.body and not isinstance(node, ast.Module):
+                    node.body.append(ast.Pass())
+    # Comments, excess newlines and empty lines are not part of the syntax tree
+    return ast.unparse(tree)
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -75,8 +78,8 @@ def pyscript_executor_html(
     all_file_contents.extend(cache_handler(file_path) for file_path in file_paths)
 
     # Prepare the PyScript code block
-    user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
+    # Combine all user code, where no string spans multiple lines once it is minified
+    user_code = "\n".join(map(minify_python, all_file_contents))
     user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
@@ -86,7 +89,7 @@ def pyscript_executor_html(
         )
 
     # Insert the user code into the PyScript template
-    return executor.replace("    def root(): ...", user_code)
+    return executor.replace("    def root():\n        ...", user_code)
 
 
 def pyscript_component_html(
-- 
2.43.0


From 89da0d4cc233b9dfa672d5217573da5165953f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 076/132] fix: the source of a PyScript component may have
 future imports

---
 src/reactpy/executors/pyscript/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index b5e79fc..53dcf89 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -80,6 +80,7 @@ def pyscript_executor_html(
     # Prepare the PyScript code block
     # Combine all user code, where no string spans multiple lines once it is minified
     user_code = "\n".join(map(minify_python, all_file_contents))
+    future_imports, user_code = _split_future_imports(user_code)
     user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
@@ -89,7 +90,16 @@ def pyscript_executor_html(
         )
 
     # Insert the user code into the PyScript template
-    return executor.replace("    def root():\n        ...", user_code)
+    executor = executor.replace("    def root():\n        ...", user_code)
+    return f"{future_imports}\n{executor}" if future_imports else executor
+
+
+def _split_future_imports(source: str) -> tuple[str, str]:
+    """Split off the imports that are only valid at the top of a file."""
+    lines: tuple[list[str], list[str]] = ([], [])
+    for line in source.split("\n"):
+        lines[not line.startswith("from __future__ import ")].append(line)
+    return "\n".join(lines[0]), "\n".join(lines[1])
 
 
 def pyscript_component_html(
-- 
2.43.0


From 6876c7af498fd333f32de585783a49bfe0571590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 077/132] fix: markup within the source of a PyScript component
 stays there

---
 src/reactpy/executors/pyscript/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 53dcf89..ab7b8c5 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -89,6 +89,9 @@ def pyscript_executor_html(
             f"Could not find the root component function '{root}' in your PyScript file(s)."
         )
 
+    # Markup can only be part of strings, where it must not end the script element
+    user_code = re.sub(r"(?i)<(?=/script|script|!--)", r"\\x3c", user_code)
+
     # Insert the user code into the PyScript template
     executor = executor.replace("    def root():\n        ...", user_code)
     return f"{future_imports}\n{executor}" if future_imports else executor
-- 
2.43.0


From b976973bfe8cc1ba2cca461f1ab0e023d600525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 078/132] fix: the root of a PyScript component may be defined
 in any way

---
 src/reactpy/executors/pyscript/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index ab7b8c5..8d66798 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -12,6 +12,7 @@ import os
 import re
 import shutil
 import subprocess
+import symtable
 import sys
 import textwrap
 from collections.abc import Callable
@@ -81,13 +82,13 @@ def pyscript_executor_html(
     # Combine all user code, where no string spans multiple lines once it is minified
     user_code = "\n".join(map(minify_python, all_file_contents))
     future_imports, user_code = _split_future_imports(user_code)
-    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
-    if f"def {root}():" not in user_code:
+    if not _is_defined(root, user_code):
         raise ValueError(
             f"Could not find the root component function '{root}' in your PyScript file(s)."
         )
+    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
 
     # Markup can only be part of strings, where it must not end the script element
     user_code = re.sub(r"(?i)<(?=/script|script|!--)", r"\\x3c", user_code)
@@ -97,6 +98,14 @@ def pyscript_executor_html(
     return f"{future_imports}\n{executor}" if future_imports else executor
 
 
+def _is_defined(name: str, source: str) -> bool:
+    symbols = symtable.symtable(source, "<pyscript>", "exec")
+    if name not in symbols.get_identifiers():
+        return False
+    symbol = symbols.lookup(name)
+    return symbol.is_assigned() or symbol.is_imported()
+
+
 def _split_future_imports(source: str) -> tuple[str, str]:
     """Split off the imports that are only valid at the top of a file."""
     lines: tuple[list[str], list[str]] = ([], [])
-- 
2.43.0


From 467c2b5fa4915ee200efd9f1e16c1eaebe6519df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 079/132] fix: a PyScript configuration with quotes stays
 within its attribute

---
 src/reactpy/executors/pyscript/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 8d66798..6eb17c0 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -138,6 +138,7 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    pyscript_config = pyscript_config.replace("&", "&amp;").replace("'", "&#39;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From 59aee0e1c157c1162ebacb9f2601b63355378fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 080/132] fix: extending a PyScript configuration leaves the
 given modules as they are

---
 src/reactpy/executors/pyscript/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 6eb17c0..e106f13 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -157,13 +157,17 @@ def extend_pyscript_config(
     reactpy_pkg_string: str | None = None,
 ) -> str:
     # Extends ReactPy's default PyScript config with user provided values.
+    if isinstance(modules, str):
+        modules = json.loads(modules) if modules else None
     pyscript_config: dict[str, Any] = {
         "packages": [reactpy_pkg_string or _reactpy_pkg_string(), "jsonpointer==3.*"],
         "js_modules": {
-            "main": modules
-            or {
-                f"{REACTPY_PATH_PREFIX.current}static/morphdom/morphdom-esm.js": "morphdom"
-            }
+            "main": dict(
+                modules
+                or {
+                    f"{REACTPY_PATH_PREFIX.current}static/morphdom/morphdom-esm.js": "morphdom"
+                }
+            )
         },
     }
     pyscript_config["packages"].extend(extra_py)
-- 
2.43.0


From 07ea8bd31166470e8d83183df6f80d8444816f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 081/132] fix: setting up PyScript leaves the given head
 element as it is

---
 src/reactpy/executors/asgi/pyscript.py   |  3 ++-
 src/reactpy/executors/asgi/standalone.py | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index de0ceac..bea0866 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -120,7 +120,8 @@ class ReactPyPyscriptApp(ReactPyApp):
             initial=self.parent.initial,
             root=self.parent.root_name,
         )
-        head_content = head_content.replace("</head>", f"{pyscript_setup}</head>")
+        head_content = head_content.removesuffix("</head>")
+        head_content = f"{head_content}{pyscript_setup}</head>"
 
         self._index_html = (
             "<!doctype html>"
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 0c37682..8141106 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -80,7 +80,6 @@ class ReactPy(ReactPyMiddleware):
         self.html_lang = html_lang
 
         if pyscript_setup:
-            self.html_head.setdefault("children", [])
             pyscript_options = pyscript_options or {}
             extra_py = pyscript_options.get("extra_py", [])
             extra_js = pyscript_options.get("extra_js", {})
@@ -89,7 +88,15 @@ class ReactPy(ReactPyMiddleware):
                 pyscript_setup_html(extra_py, extra_js, config)
             )
             pyscript_head_vdom["tagName"] = ""
-            self.html_head["children"].append(pyscript_head_vdom)  # type: ignore
+            self.html_head = VdomDict(
+                **{  # type: ignore
+                    **self.html_head,
+                    "children": [
+                        *self.html_head.get("children", []),
+                        pyscript_head_vdom,
+                    ],
+                }
+            )
 
     def match_dispatch_path(self, scope: AsgiWebsocketScope) -> bool:
         """Method override to remove `dotted_path` from the dispatcher URL."""
-- 
2.43.0


From f35329b55fec8007ee78ccd76597bfbb4efe04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 082/132] fix: processes that make the local wheel at once do
 not write to the same file

---
 src/reactpy/executors/pyscript/utils.py | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index e106f13..95a9dbe 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -15,7 +15,8 @@ import subprocess
 import symtable
 import sys
 import textwrap
-from collections.abc import Callable
+from collections.abc import Callable, Iterator
+from contextlib import contextmanager
 from importlib import metadata
 from io import StringIO
 from logging import getLogger
@@ -354,12 +355,22 @@ def _copy_reactpy_wheel_to_static_dir(wheel_file: Path) -> Path:
     if wheel_file.resolve() == static_wheel.resolve():
         return static_wheel
 
-    temp_wheel = static_wheel.with_suffix(f"{static_wheel.suffix}.tmp")
-    shutil.copy2(wheel_file, temp_wheel)
-    temp_wheel.replace(static_wheel)
+    with _replace_wheel(static_wheel) as temp_wheel:
+        shutil.copy2(wheel_file, temp_wheel)
     return static_wheel
 
 
+@contextmanager
+def _replace_wheel(wheel_path: Path) -> Iterator[Path]:
+    """Write a wheel to a file of its own before it can be found"""
+    temp_wheel = wheel_path.with_suffix(f".{uuid4().hex}.tmp")
+    try:
+        yield temp_wheel
+        temp_wheel.replace(wheel_path)
+    finally:
+        temp_wheel.unlink(missing_ok=True)
+
+
 def _wheel_archive_name(file_path: Path) -> str | None:
     if file_path.is_absolute() or ".." in file_path.parts:
         return None
@@ -383,12 +394,14 @@ def _rebuild_installed_reactpy_wheel() -> Path | None:
     static_wheels_dir.mkdir(parents=True, exist_ok=True)
 
     wheel_path = static_wheels_dir / _installed_wheel_name(files, distribution)
-    temp_wheel_path = wheel_path.with_suffix(".tmp")
 
     record_rows: list[tuple[str, str, str]] = []
     record_name = _installed_wheel_record_name(files)
 
-    with ZipFile(temp_wheel_path, "w", compression=ZIP_DEFLATED) as wheel_zip:
+    with (
+        _replace_wheel(wheel_path) as temp_wheel_path,
+        ZipFile(temp_wheel_path, "w", compression=ZIP_DEFLATED) as wheel_zip,
+    ):
         for file in files:
             file_path = Path(str(file))
             archive_name = _wheel_archive_name(file_path)
@@ -413,7 +426,6 @@ def _rebuild_installed_reactpy_wheel() -> Path | None:
         record_rows.append((record_name, "", ""))
         wheel_zip.writestr(record_name, _record_text(record_rows))
 
-    temp_wheel_path.replace(wheel_path)
     _logger.warning(
         "PyScript will utilize reconstructed local wheel '%s'.", wheel_path.name
     )
-- 
2.43.0


From 77643731456911fccac446e0bce6493673d1e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 083/132] fix: the initial content of a PyScript component may
 be plain text

---
 src/reactpy/executors/pyscript/components.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/components.py b/src/reactpy/executors/pyscript/components.py
index 54940ad..ed4e154 100644
--- a/src/reactpy/executors/pyscript/components.py
+++ b/src/reactpy/executors/pyscript/components.py
@@ -22,7 +22,6 @@ def _pyscript_component(
         raise ValueError("At least one file path must be provided.")
 
     rendered, set_rendered = hooks.use_state(False)
-    initial = string_to_reactpy(initial) if isinstance(initial, str) else initial
 
     if not rendered:
         # FIXME: This is needed to properly re-render PyScript during a WebSocket
-- 
2.43.0


From d497747bb2dbbaf1e5b8998be5b15147975a53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 084/132] fix: PyScript elements do not have attributes that
 are None or False

---
 src/reactpy/executors/pyscript/layout_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..b9625cf 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -67,6 +67,12 @@ class ReactPyLayoutHandler:
 
             # Set the element's HTML attributes
             for key, value in attributes.items():
+                if value is None or (
+                    value is False
+                    and not key.startswith(("aria-", "data-"))
+                    and key not in {"contentEditable", "draggable", "spellCheck"}
+                ):
+                    continue  # such an attribute is not set
                 if key == "style":
                     for style_key, style_value in value.items():
                         setattr(element.style, style_key, style_value)
-- 
2.43.0


From be2be1e92a6066ae68ba44989b6e91a2b45979c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 085/132] fix: PyScript components end once they are removed
 from the page

---
 src/reactpy/executors/pyscript/layout_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index b9625cf..3cb630d 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -123,7 +123,7 @@ class ReactPyLayoutHandler:
         add_event_listener(element, event_name, event_handler)
 
     @staticmethod
-    def delete_old_workspaces():
+    def delete_old_workspaces(namespace):
         """To prevent memory leaks, we must delete all user generated Python code when
         it is no longer in use (removed from the page). To do this, we compare what
         UUIDs exist on the DOM, versus what UUIDs exist within the PyScript global
@@ -133,23 +133,23 @@ class ReactPyLayoutHandler:
         dom_uuids = {element.dataset.uuid for element in dom_workspaces}
         python_uuids = {
             value.split("_")[-1]
-            for value in globals()
+            for value in namespace
             if value.startswith("user_workspace_")
         }
 
         # Delete any workspaces that are no longer in use
         for uuid in python_uuids - dom_uuids:
             task_name = f"task_{uuid}"
-            if task_name in globals():
-                task: asyncio.Task = globals()[task_name]
+            if task_name in namespace:
+                task: asyncio.Task = namespace[task_name]
                 task.cancel()
-                del globals()[task_name]
+                del namespace[task_name]
             else:
                 logging.error("Could not auto delete PyScript task %s", task_name)
 
             workspace_name = f"user_workspace_{uuid}"
-            if workspace_name in globals():
-                del globals()[workspace_name]
+            if workspace_name in namespace:
+                del namespace[workspace_name]
             else:
                 logging.error(
                     "Could not auto delete PyScript workspace %s", workspace_name
@@ -157,7 +157,7 @@ class ReactPyLayoutHandler:
 
     async def run(self, workspace_function):
         """Run the layout handler. This function is main executor for all user generated code."""
-        self.delete_old_workspaces()
+        self.delete_old_workspaces(workspace_function.__globals__)
         root_model: dict = {}
 
         async with Layout(workspace_function()) as root_layout:
-- 
2.43.0


From da0c7fabc357b37f5f4fab78ef6de428675350f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 086/132] fix: events of PyScript elements reach the handlers
 of the latest render

---
 .../executors/pyscript/layout_handler.py      | 50 ++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 3cb630d..42f0636 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -1,5 +1,6 @@
 # type: ignore
 import asyncio
+import json
 import logging
 
 import js
@@ -41,6 +42,8 @@ class ReactPyLayoutHandler:
 
         # Use morphdom to update the DOM
         morphdom.default(container, temp_root_container)
+        for element in container.querySelectorAll("[data-reactpy-events]"):
+            self.add_event_listeners(layout, element)
 
         # Remove the cloned container to prevent memory leaks
         temp_root_container.remove()
@@ -81,12 +84,16 @@ class ReactPyLayoutHandler:
                 else:
                     element.setAttribute(key, value)
 
-            # Add event handlers to the element
-            for event_name, event_handler_model in model.get(
-                "eventHandlers", {}
-            ).items():
-                self.create_event_handler(
-                    layout, element, event_name, event_handler_model
+            # Declare the element's event handlers
+            if event_handlers := model.get("eventHandlers"):
+                element.setAttribute(
+                    "data-reactpy-events",
+                    json.dumps(
+                        {
+                            self.dom_event_name(event_name): event_handler_model
+                            for event_name, event_handler_model in event_handlers.items()
+                        }
+                    ),
                 )
 
             # Recursively build the children
@@ -101,12 +108,34 @@ class ReactPyLayoutHandler:
             msg = f"Unknown model type: {type(model)}"
             raise TypeError(msg)
 
-    def create_event_handler(self, layout, element, event_name, event_handler_model):
+    @staticmethod
+    def dom_event_name(event_name):
+        """Convert ReactJS-style event names to HTML event names"""
+        event_name = event_name.lower()
+        return event_name[2:] if event_name.startswith("on") else event_name
+
+    def add_event_listeners(self, layout, element):
+        """Listen to the declared events of an element. As morphdom keeps elements, but
+        only updates their attributes, what is declared may differ after every render."""
+        known_names = getattr(element, "reactpyEvents", None) or ""
+        names = json.loads(element.getAttribute("data-reactpy-events"))
+        for event_name in names:
+            if event_name not in known_names.split():
+                self.create_event_handler(layout, element, event_name)
+                known_names = f"{known_names} {event_name}"
+        element.reactpyEvents = known_names
+
+    def create_event_handler(self, layout, element, event_name):
         """Create an event handler for an element. This function is used as an
         adapter between ReactPy and browser events."""
-        target = event_handler_model["target"]
 
         def event_handler(*args):
+            declared = element.getAttribute("data-reactpy-events")
+            event_handler_model = json.loads(declared or "{}").get(event_name)
+            if not event_handler_model:
+                return
+            target = event_handler_model["target"]
+
             # When the event is triggered, deliver the event to the `Layout` within a background task
             task = asyncio.create_task(
                 layout.deliver({"type": "layout-event", "target": target, "data": args})
@@ -115,11 +144,6 @@ class ReactPyLayoutHandler:
             self.running_tasks.add(task)
             task.add_done_callback(self.running_tasks.remove)
 
-        # Convert ReactJS-style event names to HTML event names
-        event_name = event_name.lower()
-        if event_name.startswith("on"):
-            event_name = event_name[2:]
-
         add_event_listener(element, event_name, event_handler)
 
     @staticmethod
-- 
2.43.0


From 740b1248e6c9c8b34961afb0dad27dd188491151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 087/132] fix: PyScript elements prevent default actions and
 stop propagation as declared

---
 src/reactpy/executors/pyscript/layout_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 42f0636..4846b66 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -135,6 +135,10 @@ class ReactPyLayoutHandler:
             if not event_handler_model:
                 return
             target = event_handler_model["target"]
+            if event_handler_model.get("preventDefault"):
+                args[0].preventDefault()
+            if event_handler_model.get("stopPropagation"):
+                args[0].stopPropagation()
 
             # When the event is triggered, deliver the event to the `Layout` within a background task
             task = asyncio.create_task(
-- 
2.43.0


From 1d5c4cf7cf3e154a67698401ebd070cd4a2ea193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 088/132] fix: the first reconnect delay does not exceed the
 maximum

---
 src/js/packages/@reactpy/client/src/websocket.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/websocket.ts b/src/js/packages/@reactpy/client/src/websocket.ts
index 159b59e..be16a9a 100644
--- a/src/js/packages/@reactpy/client/src/websocket.ts
+++ b/src/js/packages/@reactpy/client/src/websocket.ts
@@ -19,7 +19,8 @@ export function createReconnectingWebSocket(
 ) {
   const { interval, maxInterval, maxRetries, backoffMultiplier } = props;
   let retries = 0;
-  let currentInterval = interval;
+  const firstInterval = Math.min(interval, maxInterval);
+  let currentInterval = firstInterval;
   let everConnected = false;
   const closed = false;
   const socket: { current?: WebSocket } = {};
@@ -33,7 +34,7 @@ export function createReconnectingWebSocket(
     socket.current.onopen = () => {
       everConnected = true;
       log.info("Connected!");
-      currentInterval = interval;
+      currentInterval = firstInterval;
       retries = 0;
       if (props.onOpen) {
         props.onOpen();
-- 
2.43.0


From 7f1e6723c298071b0f39a27a6599a2cb5aff5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 089/132] fix: reconnect settings may be zero

---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From 1affa8ecdf91fcfd4d14f85d16be2390e0a59eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 090/132] fix: values that have no JSON representation are left
 out of events

---
 src/js/packages/event-to-object/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f6aebe6..72e07c4 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -279,6 +279,8 @@ function shouldIgnoreValue(
     (keyName.length > 0 && /^[A-Z_]+$/.test(keyName)) ||
     // Non-convertible types
     typeof value === "function" ||
+    typeof value === "symbol" ||
+    typeof value === "bigint" || // has no JSON representation
     value instanceof CSSStyleSheet ||
     value instanceof Window ||
     value instanceof Document ||
-- 
2.43.0


From a05fbbec166d4a109828f8900a9b1bd6ba2b04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 091/132] fix: a getter that throws an error hides only its own
 field of an event, and only files extend the depth

---
 src/js/packages/event-to-object/src/index.ts | 33 ++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 72e07c4..29d1f68 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -113,8 +113,8 @@ function deepCloneClass(
     // Convert array-like class (e.g., NodeList, ClassList, HTMLCollection)
     if (
       Array.isArray(x) ||
-      (typeof x?.length === "number" &&
-        typeof x[Symbol.iterator] === "function" &&
+      (typeof read(x, "length") === "number" &&
+        typeof read(x, Symbol.iterator) === "function" &&
         !Object.prototype.toString.call(x).includes("Map") &&
         !(x instanceof CSSStyleDeclaration))
     ) {
@@ -128,6 +128,17 @@ function deepCloneClass(
   }
 }
 
+/**
+ * Read a property, which is `undefined` if its getter throws an error.
+ */
+function read(x: any, key: string | number | symbol): any {
+  try {
+    return x[key];
+  } catch {
+    return undefined;
+  }
+}
+
 /**
  * Convert an array-like class to a plain array.
  */
@@ -139,19 +150,20 @@ function classToArray(
   const result: Array<any> = [];
   for (let i = 0; i < x.length; i++) {
     // Skip anything that should not be converted
-    if (shouldIgnoreValue(x[i])) {
+    const item = read(x, i);
+    if (shouldIgnoreValue(item)) {
       continue;
     }
     // Only push objects as if we haven't reached max depth
-    else if (typeof x[i] === "object") {
-      const converted = deepCloneClass(x[i], maxDepth, visited);
+    else if (typeof item === "object") {
+      const converted = deepCloneClass(item, maxDepth, visited);
       if (converted !== maxDepthSignal) {
         result.push(converted);
       }
     }
     // Add plain values if not skippable
     else {
-      result.push(x[i]);
+      result.push(item);
     }
   }
   return result;
@@ -197,7 +209,7 @@ function classToObject(
     "dataset" in x &&
     !Object.prototype.hasOwnProperty.call(result, "dataset")
   ) {
-    const dataset = x["dataset"];
+    const dataset = read(x, "dataset");
     if (!shouldIgnoreValue(dataset, "dataset", x)) {
       const converted = deepCloneClass(dataset, maxDepth, visited);
       if (converted !== maxDepthSignal) {
@@ -215,11 +227,14 @@ function classToObject(
       prop in x &&
       !Object.prototype.hasOwnProperty.call(result, prop)
     ) {
-      const val = x[prop];
+      const val = read(x, prop);
       if (!shouldIgnoreValue(val, prop, x)) {
         if (typeof val === "object") {
           // Ensure files have enough depth to be serialized
-          const propDepth = prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
+          const propDepth =
+            prop === "files" && read(x, "type") === "file"
+              ? Math.max(maxDepth, 3)
+              : maxDepth;
           const converted = deepCloneClass(val, propDepth, visited);
           if (converted !== maxDepthSignal) {
             result[prop] = converted;
-- 
2.43.0


From 6983efa13637da03f0e9795d19c503744598c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 092/132] fix: a selection that can not be serialized does not
 prevent its event

---
 src/js/packages/event-to-object/src/index.ts | 44 +++++++++++++-------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 29d1f68..0f695cf 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -64,24 +64,36 @@ function serializeSelection(
   if (typeof window === "undefined" || !window.getSelection) {
     return null;
   }
-  const selection = window.getSelection();
-  if (!selection) {
+  try {
+    const selection = window.getSelection();
+    if (!selection) {
+      return null;
+    }
+    return {
+      type: selection.type,
+      anchorNode: serializeNode(selection.anchorNode, maxDepth, visited),
+      anchorOffset: selection.anchorOffset,
+      focusNode: serializeNode(selection.focusNode, maxDepth, visited),
+      focusOffset: selection.focusOffset,
+      isCollapsed: selection.isCollapsed,
+      rangeCount: selection.rangeCount,
+      selectedText: selection.toString(),
+    };
+  } catch {
     return null;
   }
-  return {
-    type: selection.type,
-    anchorNode: selection.anchorNode
-      ? deepCloneClass(selection.anchorNode, maxDepth, visited)
-      : null,
-    anchorOffset: selection.anchorOffset,
-    focusNode: selection.focusNode
-      ? deepCloneClass(selection.focusNode, maxDepth, visited)
-      : null,
-    focusOffset: selection.focusOffset,
-    isCollapsed: selection.isCollapsed,
-    rangeCount: selection.rangeCount,
-    selectedText: selection.toString(),
-  };
+}
+
+/**
+ * Serialize one end of a selection.
+ */
+function serializeNode(
+  node: Node | null,
+  maxDepth: number,
+  visited: WeakSet<any>,
+): object | null {
+  const converted = node && deepCloneClass(node, maxDepth, visited);
+  return converted === maxDepthSignal ? null : converted;
 }
 
 /**
-- 
2.43.0


From 9de45759981d45cf83fa433b765708c3452a5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 093/132] fix: the controls of a form are serialized whatever
 they are called

---
 src/js/packages/event-to-object/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 0f695cf..a56a5dd 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -273,7 +273,7 @@ function classToObject(
       if (
         element.name &&
         !Object.prototype.hasOwnProperty.call(result, element.name) &&
-        !shouldIgnoreValue(element, element.name, x)
+        !shouldIgnoreValue(element)
       ) {
         if (typeof element === "object") {
           const converted = deepCloneClass(element, maxDepth, visited);
-- 
2.43.0


From 9ac5bc0a2ea9fe74c4d30b9c5319295184a6009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 094/132] fix: a new root leaves nothing of the old one

Updates of the root were merged into the model, so an error, attributes or
handlers of the old root that the new one does not have remained.
---
 src/js/packages/@reactpy/client/src/components.tsx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..9b6b22d 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -144,6 +144,9 @@ export function Layout(props: { client: ReactPyClient }): JSX.Element {
     () =>
       props.client.onMessage("layout-update", ({ path, model }) => {
         if (path === "") {
+          for (const key of Object.keys(currentModel)) {
+            delete currentModel[key as keyof ReactPyVdom];
+          }
           Object.assign(currentModel, model);
         } else {
           setJsonPointer(currentModel, path, model);
-- 
2.43.0


From 05463222e02ebf9f3d8cfef625f1a2c3c3bc4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 095/132] fix: bindings of imported components can send and
 receive messages

The client's methods were passed without the client they need.
---
 src/js/packages/@reactpy/client/src/vdom.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 0a12380..a4829e2 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -39,8 +39,8 @@ export async function loadImportSource(
 
   return (node: HTMLElement) => {
     const binding = bind(node, {
-      sendMessage: client.sendMessage,
-      onMessage: client.onMessage,
+      sendMessage: (message) => client.sendMessage(message),
+      onMessage: (type, handler) => client.onMessage(type, handler),
     });
     if (
       !(
-- 
2.43.0


From 2ad8d825c1f485509c474434dc973855783e0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 096/132] fix: script elements do not have attributes that are
 null or false

---
 src/js/packages/@reactpy/client/src/components.tsx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 9b6b22d..5adbbd0 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -429,7 +429,9 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
     // Create the script element
     const scriptElement: HTMLScriptElement = document.createElement("script");
     for (const [k, v] of Object.entries(model.attributes || {})) {
-      scriptElement.setAttribute(k, v);
+      if (v !== null && v !== undefined && v !== false) {
+        scriptElement.setAttribute(k, v);
+      }
     }
 
     // Add the script content as text
-- 
2.43.0


From cf9fc2b3a5468cb46304d559be4e978c10ecd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 097/132] fix: an imported element is bound once

The mount point is known only after the first render, so the second one bound
the element again, after its first binding was unmounted and then rendered.
Nor is a binding rendered after a change of its source has unmounted it.
---
 src/js/packages/@reactpy/client/src/components.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 5adbbd0..edc8ba1 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -507,6 +507,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
 
     return () => {
       unmounted = true;
+      bindingSource.current = null;
       if (
         currentBinding &&
         vdomImportSource &&
@@ -515,7 +516,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From 36057a11a2dda54e7f7e9db2bad5d2607e79865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 098/132] fix: imported elements show their fallback until
 their module is loaded

It never was: the condition to show it could not be true.
---
 .../@reactpy/client/src/components.tsx        | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index edc8ba1..a4424ad 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -456,7 +456,7 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
 
 function ImportedElement({ model }: { model: ReactPyVdom }) {
   const importSourceVdom = model.importSource;
-  const importSourceRef = useImportSource(model);
+  const [importSourceRef, isBound] = useImportSource(model);
 
   if (!importSourceVdom) {
     return null;
@@ -464,18 +464,22 @@ function ImportedElement({ model }: { model: ReactPyVdom }) {
 
   const importSourceFallback = importSourceVdom.fallback;
 
-  if (!importSourceVdom) {
+  let fallback: JSX.Element | null = null;
+  if (!isBound && importSourceFallback) {
     // display a fallback if one was given
-    if (!importSourceFallback) {
-      return null;
-    } else if (typeof importSourceFallback === "string") {
-      return <span>{importSourceFallback}</span>;
+    if (typeof importSourceFallback === "string") {
+      fallback = <span key="fallback">{importSourceFallback}</span>;
     } else {
-      return <StandardElement model={importSourceFallback} />;
+      fallback = <StandardElement key="fallback" model={importSourceFallback} />;
     }
-  } else {
-    return <span ref={importSourceRef} />;
   }
+
+  return (
+    <Fragment>
+      {fallback}
+      <span key="mount" ref={importSourceRef} />
+    </Fragment>
+  );
 }
 
 function useForceUpdate() {
@@ -483,7 +487,9 @@ function useForceUpdate() {
   return () => setState((old) => !old);
 }
 
-function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
+function useImportSource(
+  model: ReactPyVdom,
+): [MutableRefObject<any>, boolean] {
   const vdomImportSource = model.importSource;
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
@@ -532,7 +538,10 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
     }
   });
 
-  return mountPoint;
+  return [
+    mountPoint,
+    binding !== null && bindingSource.current === vdomImportSourceJsonString,
+  ];
 }
 
 const SPECIAL_ELEMENTS = {
-- 
2.43.0


From b74ec40f6035f7501d21854b2b84901245c05575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 099/132] fix: nested imported elements are unmounted before an
 update if their source asks for it

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index a4829e2..758bfc9 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -379,6 +379,9 @@ class ReactPyChild extends HTMLElement {
       }
     } else {
       if (this.binding) {
+        if (newImportSource.unmountBeforeUpdate) {
+          this.binding.unmount();
+        }
         this.binding.render(this._model);
       }
     }
-- 
2.43.0


From 447920b1bdaba0519dbae4bcf5e810f9e11aca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 100/132] fix: an imported element is not rendered with the
 binding of another source

An effect of a render from before the new source was bound ran after it, and
rendered with the old source's binding, which already was unmounted.
---
 .../@reactpy/client/src/components.tsx        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index a4424ad..eb8f95a 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -494,8 +494,12 @@ function useImportSource(
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
   const client = useContext(ClientContext);
-  const [binding, setBinding] = useState<ImportSourceBinding | null>(null);
-  const bindingSource = useRef<string | null>(null);
+  const forceUpdate = useForceUpdate();
+  // The binding in use, and the source it was made for.
+  const bound = useRef<{
+    binding: ImportSourceBinding;
+    source: string | undefined;
+  } | null>(null);
 
   useEffect(() => {
     let unmounted = false;
@@ -505,15 +509,20 @@ function useImportSource(
       loadImportSource(vdomImportSource, client).then((bind) => {
         if (!unmounted && mountPoint.current) {
           currentBinding = bind(mountPoint.current);
-          bindingSource.current = vdomImportSourceJsonString;
-          setBinding(currentBinding);
+          if (currentBinding) {
+            bound.current = {
+              binding: currentBinding,
+              source: vdomImportSourceJsonString,
+            };
+            forceUpdate();
+          }
         }
       });
     }
 
     return () => {
       unmounted = true;
-      bindingSource.current = null;
+      bound.current = null;
       if (
         currentBinding &&
         vdomImportSource &&
@@ -522,26 +531,24 @@ function useImportSource(
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding]);
+  }, [client, vdomImportSourceJsonString]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-    if (!(binding && vdomImportSource)) {
+    if (!(bound.current && vdomImportSource)) {
       return;
     }
-    if (bindingSource.current !== vdomImportSourceJsonString) {
+    if (bound.current.source !== vdomImportSourceJsonString) {
       return;
     }
+    const { binding } = bound.current;
     binding.render(model);
     if (vdomImportSource.unmountBeforeUpdate) {
       return binding.unmount;
     }
   });
 
-  return [
-    mountPoint,
-    binding !== null && bindingSource.current === vdomImportSourceJsonString,
-  ];
+  return [mountPoint, bound.current?.source === vdomImportSourceJsonString];
 }
 
 const SPECIAL_ELEMENTS = {
-- 
2.43.0


From 06b588a5eac6800081ad2b644fd9fb56e83acdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 101/132] fix: an input's acknowledgement stays below events
 still waiting for a busy handler

---
 src/reactpy/core/layout.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 3775b8c..93b2f77 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -207,6 +207,7 @@ class Layout(BaseLayout):
                     prev = self._last_event_seq_by_target.get(target, -1)
                     if seq > prev:
                         self._last_event_seq_by_target[target] = seq
+                queue.waiting.remove(event)
 
                 try:
                     data = [
@@ -221,6 +222,7 @@ class Layout(BaseLayout):
                 except Exception:
                     logger.exception(f"Failed to execute event handler {handler}")
             else:
+                queue.waiting.remove(event)
                 logger.info(
                     f"Ignored event - handler {event['target']!r} "
                     "does not exist or its component unmounted"
@@ -527,18 +529,27 @@ class Layout(BaseLayout):
         For each event handler which is, or has been, bound to this element,
         we look up the highest client-assigned sequence number the server has
         received for that target and, if any was recorded, attach the maximum
-        across handlers as the element's ``ackSeq``.
+        across handlers as the element's ``ackSeq``. Events which are still waiting
+        for a handler that is busy have not been processed, nor has anything after
+        them, even if other handlers of the element are ahead.
         """
         if tag_name not in {"input", "select", "textarea"}:
             return
-        max_ack = old_state.event_ack_seq if old_state is not None else None
+        acks: list[int] = []
+        waiting: list[int] = []
         for state in (old_state, new_state):
             if state is None:
                 continue
             for target in state.targets_by_event.values():
-                ack = self._last_event_seq_by_target.get(target)
-                if ack is not None and (max_ack is None or ack > max_ack):
-                    max_ack = ack
+                if target in self._last_event_seq_by_target:
+                    acks.append(self._last_event_seq_by_target[target])
+                if target in self._event_queues:
+                    waiting.extend(self._event_queues[target].waiting_seqs())
+        if acks and waiting and min(waiting) <= max(acks):
+            acks = [min(waiting) - 1] if min(waiting) > 0 else []
+        if old_state is not None and old_state.event_ack_seq is not None:
+            acks.append(old_state.event_ack_seq)
+        max_ack = max(acks, default=None)
         new_state.event_ack_seq = max_ack
         if max_ack is None:
             return
@@ -978,19 +989,27 @@ class _EventQueue:
         self._put_access = Lock()
         # Events which have not been handled yet, including those which wait for a slot
         self.unprocessed = 0
+        # Those of them which no handler has been started with
+        self.waiting: list[LayoutEventMessage | dict[str, Any]] = []
 
     async def put(self, event: LayoutEventMessage | dict[str, Any]) -> None:
         self.unprocessed += 1
+        self.waiting.append(event)
         try:
             async with self._put_access:
                 await self._queue.put(event)
         except BaseException:
             self.unprocessed -= 1
+            self.waiting.remove(event)
             raise
 
     async def get(self) -> LayoutEventMessage | dict[str, Any]:
         return await self._queue.get()
 
+    def waiting_seqs(self) -> list[int]:
+        seqs = [event.get("seq") for event in self.waiting]
+        return [seq for seq in seqs if isinstance(seq, int) and seq >= 0]
+
 
 _Type = TypeVar("_Type")
 
-- 
2.43.0


From b86335eff18f5d5114b0c1b3683c73192a3b8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 102/132] fix: the events of an element are limited, numbered
 and read alike over all of its renders

Limits started over with each render, events were numbered before those ahead of
them were sent, and what they carry was read after the browser had changed it.
Inputs did not show values which are numbers, or any value after their tag changed.
---
 .../@reactpy/client/src/components.tsx        | 241 ++++--------------
 .../packages/@reactpy/client/src/handler.ts   |  62 ++++-
 src/js/packages/@reactpy/client/src/vdom.tsx  |  31 +--
 3 files changed, 130 insertions(+), 204 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index eb8f95a..218077f 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -5,14 +5,13 @@ import {
   createElement,
   Fragment,
   type JSX,
-  type TargetedEvent,
 } from "preact";
 import { useContext, useEffect, useRef, useState } from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
   HANDLER_MARKER,
   HANDLER_THROTTLE,
-  isValidDebounce,
+  RateLimiter,
   type TaggedEventHandler,
 } from "./handler";
 import type {
@@ -26,114 +25,23 @@ import type { ReactPyClient } from "./client";
 const ClientContext = createContext<ReactPyClient>(null as any);
 
 /**
- * Wrap ``handler`` so its outgoing call is throttled to at most once per
- * ``intervalMs`` milliseconds. Subsequent calls inside the window are
- * collapsed and the trailing call (with the most recent arguments) fires
- * once the window expires.
- *
- * Returns the original handler unchanged when ``intervalMs`` is missing or
- * invalid.
+ * Get the limiters for the events of an element by their name. They have to stay
+ * the same over all of its renders since what they do depends on earlier events.
  */
-function throttleHandler(
-  handler: TaggedEventHandler,
-  intervalMs: number,
-): TaggedEventHandler {
-  if (!isValidDebounce(intervalMs)) {
-    return handler;
-  }
-  let pendingArgs: any[] | null = null;
-  let timer: number | null = null;
-  let lastFireTime = 0;
-
-  const wrapped = function (...args: any[]) {
-    const now = Date.now();
-    const elapsed = now - lastFireTime;
-    if (elapsed >= intervalMs) {
-      // Leading edge: fire immediately, then start a cooldown.
-      lastFireTime = now;
-      (handler as (...a: any[]) => void)(...args);
-      return;
-    }
-    // Trailing edge: remember the latest args and schedule a fire at the
-    // end of the cooldown so no event is silently dropped.
-    pendingArgs = args;
-    if (timer === null) {
-      timer = window.setTimeout(
-        () => {
-          timer = null;
-          if (pendingArgs !== null) {
-            const callArgs = pendingArgs;
-            pendingArgs = null;
-            lastFireTime = Date.now();
-            (handler as (...a: any[]) => void)(...callArgs);
-          }
-        },
-        Math.max(0, intervalMs - elapsed),
-      );
-    }
-  } as TaggedEventHandler;
-
-  // Preserve the tag markers so downstream code can still introspect the
-  // wrapped function.
-  wrapped[HANDLER_MARKER] = true;
-  const debounce = handler[HANDLER_DEBOUNCE];
-  if (typeof debounce === "number") {
-    wrapped[HANDLER_DEBOUNCE] = debounce;
-  }
-  return wrapped;
-}
-
-/**
- * Wrap ``handler`` so its outgoing call is debounced by
- * ``delayMs`` milliseconds. The first call schedules a fire after
- * the delay; subsequent calls inside the window reset the timer and
- * pass their arguments to the trailing call. Only one call lands
- * on the wrapped handler per debounce window.
- *
- * Returns the original handler unchanged when ``delayMs`` is missing
- * or invalid, so callers can pass a 0 / negative value to opt out.
- *
- * Unlike ``throttleHandler`` (which fires on the leading edge),
- * this strictly trailing-edge debounce is the right semantics for
- * text inputs: the server only sees the final state after the user
- * pauses typing, which is exactly when the reconcile can safely apply
- * a server-side transformation (normalisation, validation, etc.).
- */
-function debounceHandler(
-  handler: TaggedEventHandler,
-  delayMs: number,
-): TaggedEventHandler {
-  if (!isValidDebounce(delayMs) || delayMs === 0) {
-    return handler;
-  }
-  let timer: number | null = null;
-  let pendingArgs: any[] | null = null;
-
-  const wrapped = function (...args: any[]) {
-    pendingArgs = args;
-    if (timer !== null) {
-      window.clearTimeout(timer);
-    }
-    timer = window.setTimeout(() => {
-      timer = null;
-      if (pendingArgs !== null) {
-        const callArgs = pendingArgs;
-        pendingArgs = null;
-        (handler as (...a: any[]) => void)(...callArgs);
+function useRateLimiters() {
+  const limiters = useRef(new Map<string, RateLimiter>()).current;
+  // What is waiting must not overtake events of an element that follows this one.
+  useEffect(() => () => limiters.forEach((limiter) => limiter.flush()), []);
+  return {
+    get: (name: string): RateLimiter => {
+      let limiter = limiters.get(name);
+      if (!limiter) {
+        limiters.set(name, (limiter = new RateLimiter()));
       }
-    }, delayMs);
-  } as TaggedEventHandler;
-
-  // Preserve the tag markers so downstream code can still introspect
-  // the wrapped function.
-  wrapped[HANDLER_MARKER] = true;
-  if (typeof handler[HANDLER_THROTTLE] === "number") {
-    wrapped[HANDLER_THROTTLE] = handler[HANDLER_THROTTLE];
-  }
-  if (typeof handler[HANDLER_DEBOUNCE] === "number") {
-    wrapped[HANDLER_DEBOUNCE] = handler[HANDLER_DEBOUNCE];
-  }
-  return wrapped;
+      return limiter;
+    },
+    isWaiting: () => Array.from(limiters.values()).some((l) => l.isWaiting),
+  };
 }
 
 export function Layout(props: { client: ReactPyClient }): JSX.Element {
@@ -182,13 +90,17 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
     SpecializedElement = StandardElement;
   }
 
-  return <SpecializedElement model={model} />;
+  // An input of another kind is another element, in which nothing was typed yet.
+  const key =
+    SpecializedElement === UserInputElement ? model.tagName : undefined;
+  return <SpecializedElement key={key} model={model} />;
 }
 
 function StandardElement({ model }: { model: ReactPyVdom }) {
   const client = useContext(ClientContext);
   const attrs = createAttributes(model, client);
-  // Apply the throttle wrapper to tagged handlers. ``throttle`` works on
+  const limiters = useRateLimiters();
+  // Apply the limits of tagged handlers. ``throttle`` works on
   // every element; ``debounce`` is intentionally only applied by
   // ``UserInputElement`` (the only place where coalescing keystrokes
   // is meaningful — click handlers don't benefit from trailing-edge
@@ -203,9 +115,10 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
       continue;
     }
     const throttle = handler[HANDLER_THROTTLE];
-    if (isValidDebounce(throttle)) {
-      attrs[name] = throttleHandler(handler, throttle as number);
-    }
+    attrs[name] = (...args: any[]) => {
+      const data = handler.read(args);
+      limiters.get(name).submit(() => handler.send(data), throttle);
+    };
   }
   // Use createElement here to avoid warning about variable numbers of children not
   // having keys. Warning about this must now be the responsibility of the client
@@ -242,19 +155,10 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const inputRef = useRef<
     HTMLInputElement | HTMLSelectElement | HTMLTextAreaElement | null
   >(null);
-  // Per-element (NOT per-handler) monotonic counter for outgoing
-  // events. The wrapper below installs this counter onto every
-  // handler via ``_reactpy_set_seq`` so the counter survives
-  // handler recreation on every server re-render. Each handler
-  // has its own per-handler ``outgoingSeq`` (used as the default
-  // when no wrapper is installed), but we override it here so the
-  // element owns a single monotonic counter across handlers.
-  const sharedOutgoingSeq = useRef(0);
-  // Highest sequence number actually sent. The server's
-  // ``_reactpy_ack_seq`` will catch up to this. ``sharedOutgoingSeq``
-  // is incremented optimistically in the wrapper; ``lastSentSeq``
-  // is the high-water mark.
+  // Sequence number of the last event that was sent from this element. The
+  // server's ``_reactpy_ack_seq`` will catch up to this.
   const lastSentSeq = useRef(-1);
+  const limiters = useRateLimiters();
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -282,7 +186,8 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // most recent keystroke), skip applying so we don't clobber
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
-    if (serverAckSeq < lastSentSeq.current) {
+    // The server knows even less of events which have not been sent yet.
+    if (serverAckSeq < lastSentSeq.current || limiters.isWaiting()) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -294,7 +199,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // browser manage the DOM value during typing and only override
     // it when it's safe to do so.
     //
-    // Crucially, only write when ``props.value`` is a real string.
+    // Crucially, only write when ``props.value`` is a real value.
     // Inputs without a ``value`` attribute in their VDOM (e.g.
     // uncontrolled inputs in the user_data and channel_layer tests)
     // arrive with ``props.value === undefined``; assigning
@@ -307,10 +212,10 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     if (
       inputRef.current &&
       typeof inputRef.current.value === "string" &&
-      typeof props.value === "string" &&
-      inputRef.current.value !== props.value
+      (typeof props.value === "string" || typeof props.value === "number") &&
+      !isShown(props.value, inputRef.current.value)
     ) {
-      inputRef.current.value = props.value;
+      inputRef.current.value = String(props.value);
     }
     setValue(props.value);
   }, [props.value, serverAckSeq]);
@@ -325,8 +230,8 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       continue;
     }
 
-    // Apply ``throttle`` and/or ``debounce`` wrappers when the
-    // handler opts into them. Throttle fires on the leading edge
+    // Apply ``throttle`` and/or ``debounce`` when the handler opts
+    // into them. Throttle fires on the leading edge
     // (good for click-style events); debounce fires on the
     // trailing edge (good for typing, where you want the server
     // to see only the final state after the user pauses). Both
@@ -334,59 +239,17 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // is the common case — the per-element seq reconcile is
     // already responsible for input coherency, so we don't apply
     // a debounce by default.
-    const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
-    const handlerThrottle = givenHandler[HANDLER_THROTTLE];
-    let wrapped: TaggedEventHandler = givenHandler;
-    if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
-    }
-    if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
-    }
-
-    props[name] = (event: TargetedEvent<any>) => {
-      // Use a per-element (shared across all handlers on this
-      // element) monotonic counter for outgoing events. We
-      // overwrite the handler's own ``outgoingSeq`` with this
-      // counter so the wire-format seq number reflects the
-      // element-wide sequence. The handler closure's own
-      // ``outgoingSeq`` is unused for sequencing purposes now
-      // (it still exists as a default for non-wrapped callers).
-      //
-      // Critically, we increment the seq counter and update
-      // ``lastSentSeq`` on every *user* event, not on every
-      // server dispatch. If the handler is wrapped in a
-      // debounce that coalesces several events into one server
-      // dispatch, ``lastSentSeq`` will be higher than the seq
-      // actually sent to the server, which is fine — the seq
-      // we sent is the LATEST user-typed value, which is the
-      // one the server actually processed.
-      const seq = sharedOutgoingSeq.current++;
-      if (seq > lastSentSeq.current) {
-        lastSentSeq.current = seq;
-      }
-      const taggedHandler = givenHandler as TaggedEventHandler & {
-        _reactpy_set_seq?: (n: number) => void;
-      };
-      if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
-        // the next (possibly debounced) dispatch uses a seq
-        // number that matches what the user just typed, not
-        // whatever stale value the handler closure happened
-        // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
-      }
-
-      // ``onKeyPress`` fires before the DOM has been updated with
-      // the new keystroke — ``event.target.value`` is the value
-      // BEFORE the character was added. We deliberately do NOT
-      // trust it for value-tracking. ``onChange``/``onInput`` fire
-      // after the DOM has been updated and can be trusted, but we
-      // don't even need to track it separately here — the
-      // reconcile effect reads the DOM directly via ``inputRef``
-      // so it always sees the post-keystroke value.
-
-      wrapped(event);
+    const throttle = givenHandler[HANDLER_THROTTLE];
+    const debounce = givenHandler[HANDLER_DEBOUNCE];
+    props[name] = (...args: any[]) => {
+      const data = givenHandler.read(args);
+      limiters.get(name).submit(
+        () => {
+          lastSentSeq.current = givenHandler.send(data);
+        },
+        throttle,
+        debounce,
+      );
     };
   }
 
@@ -417,6 +280,14 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   );
 }
 
+/** Whether what an input shows stands for a value */
+function isShown(value: string | number, shown: string): boolean {
+  // A number has many notations. The user may be about to type "1.0" as "1.05".
+  return typeof value === "number" && shown.trim() !== ""
+    ? Number(shown) === value
+    : shown === String(value);
+}
+
 function ScriptElement({ model }: { model: ReactPyVdom }) {
   const ref = useRef<HTMLDivElement | null>(null);
 
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index dc6db59..ae71020 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -10,8 +10,12 @@ export type HandlerMarker = typeof HANDLER_MARKER;
 export type HandlerDebounce = typeof HANDLER_DEBOUNCE;
 export type HandlerThrottle = typeof HANDLER_THROTTLE;
 
-export type TaggedEventHandler = ((event: Event) => void) & {
+export type TaggedEventHandler = ((...args: any[]) => void) & {
   [HANDLER_MARKER]: true;
+  /** Apply the event's options and get its data, which must not wait since events change */
+  read: (args: any[]) => any[];
+  /** Send what has been read, returning the sequence number it was sent with */
+  send: (data: any[]) => number;
   [HANDLER_DEBOUNCE]?: number;
   [HANDLER_THROTTLE]?: number;
 };
@@ -31,3 +35,59 @@ export function isValidDebounce(value: unknown): value is number {
 }
 
 export const isValidThrottle = isValidDebounce;
+
+/**
+ * Decides when the events of one kind on one element are sent.
+ *
+ * ``throttle``: at most one per this many milliseconds. The first is sent at once,
+ * later ones are collapsed and the last is sent once the time has passed.
+ *
+ * ``debounce``: only after this many milliseconds without another event. This is the
+ * right semantics for text inputs: the server only sees the final state after the
+ * user pauses typing, which is exactly when the reconcile can safely apply a
+ * server-side transformation (normalisation, validation, etc.).
+ *
+ * The last event is never dropped.
+ */
+export class RateLimiter {
+  private pending: (() => void) | null = null;
+  private timer: ReturnType<typeof setTimeout> | undefined = undefined;
+  private lastFireTime = 0;
+
+  get isWaiting(): boolean {
+    return this.pending !== null;
+  }
+
+  submit(fire: () => void, throttle: number = 0, debounce: number = 0): void {
+    clearTimeout(this.timer);
+    this.pending = fire;
+    if (debounce > 0) {
+      this.timer = setTimeout(() => this.throttle(throttle), debounce);
+    } else {
+      this.throttle(throttle);
+    }
+  }
+
+  private throttle(interval: number): void {
+    const elapsed = Date.now() - this.lastFireTime;
+    if (elapsed < interval) {
+      this.timer = setTimeout(() => this.fire(), interval - elapsed);
+    } else {
+      this.fire();
+    }
+  }
+
+  flush(): void {
+    if (this.isWaiting) {
+      clearTimeout(this.timer);
+      this.fire();
+    }
+  }
+
+  private fire(): void {
+    const fire = this.pending;
+    this.pending = null;
+    this.lastFireTime = Date.now();
+    fire?.();
+  }
+}
diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 758bfc9..ce96515 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -211,6 +211,11 @@ export function createAttributes(
   );
 }
 
+// Sequence number of the next outgoing event. Numbers are never used twice, since
+// the server can not tell the events of an element from those of one that had the
+// same place before.
+let nextEventSeq = 0;
+
 function createEventHandler(
   client: ReactPyClient,
   name: string,
@@ -222,16 +227,12 @@ function createEventHandler(
     throttle,
   }: ReactPyVdomEventHandler,
 ): [string, TaggedEventHandler] {
-  // Sequence number for the next outgoing event on this handler.
-  // The wrapper in ``UserInputElement`` may overwrite this before
-  // the event is actually sent (so that the wrapper, not this
-  // closure, owns the per-element monotonic counter and survives
-  // handler recreation on every server re-render). The default
-  // behavior (no wrapper) is to use a per-handler counter starting
-  // at 0.
-  let outgoingSeq = 0;
   const eventHandler = function (...args: any[]) {
-    const data = Array.from(args).map((value) => {
+    eventHandler.send(eventHandler.read(args));
+  } as TaggedEventHandler;
+  eventHandler[HANDLER_MARKER] = true;
+  eventHandler.read = (args) =>
+    args.map((value) => {
       const event = value as Event;
       if (preventDefault) {
         event.preventDefault();
@@ -247,16 +248,10 @@ function createEventHandler(
         return event;
       }
     });
-    const seq = outgoingSeq++;
+  eventHandler.send = (data) => {
+    const seq = nextEventSeq++;
     client.sendMessage({ type: "layout-event", data, target, seq });
-  } as TaggedEventHandler & {
-    _reactpy_peek_seq?: () => number;
-    _reactpy_set_seq?: (n: number) => void;
-  };
-  eventHandler[HANDLER_MARKER] = true;
-  eventHandler._reactpy_peek_seq = (): number => outgoingSeq;
-  eventHandler._reactpy_set_seq = (n: number): void => {
-    outgoingSeq = n;
+    return seq;
   };
   if (debounce !== undefined) {
     if (!isValidDebounce(debounce)) {
-- 
2.43.0


From a7ce330040bcdfb071b268a99595f227e73b5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 103/132] fix: an input is acknowledged once the events it was
 held back for are handled

---
 src/reactpy/core/layout.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 93b2f77..b6e8e91 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -230,6 +230,15 @@ class Layout(BaseLayout):
 
             queue.unprocessed -= 1
 
+            owner = self._event_handler_owners.get(target)
+            if owner is not None and owner.event_ack_held and not any(
+                t in self._event_queues and self._event_queues[t].waiting
+                for t in owner.targets_by_event.values()
+            ):
+                # what was shown has to be confirmed even if it is not to change
+                owner.event_ack_held = False
+                _get_hook(owner).schedule_render()
+
         self._event_queues.pop(target, None)
         self._event_processing_tasks.pop(target, None)
 
@@ -546,6 +555,7 @@ class Layout(BaseLayout):
                 if target in self._event_queues:
                     waiting.extend(self._event_queues[target].waiting_seqs())
         if acks and waiting and min(waiting) <= max(acks):
+            new_state.event_ack_held = True
             acks = [min(waiting) - 1] if min(waiting) > 0 else []
         if old_state is not None and old_state.event_ack_seq is not None:
             acks.append(old_state.event_ack_seq)
@@ -716,6 +726,13 @@ class Layout(BaseLayout):
         return f"{type(self).__name__}({self.root})"
 
 
+def _get_hook(model_state: _ModelState) -> LifeCycleHook:
+    """Get the hook of the component which an element belongs to"""
+    while not model_state.is_component_state:
+        model_state = model_state.parent
+    return model_state.life_cycle_state.hook
+
+
 def _describe_error(error: Exception) -> str:
     try:
         return f"{type(error).__name__}: {error}"
@@ -859,6 +876,7 @@ class _ModelState:
         "_parent_ref",
         "_render_semaphore",
         "children_by_key",
+        "event_ack_held",
         "event_ack_seq",
         "index",
         "key",
@@ -905,6 +923,9 @@ class _ModelState:
         self.event_ack_seq: int | None = None
         """The highest sequence number of this element's events when it was rendered"""
 
+        self.event_ack_held = False
+        """Whether events which were waiting for their handler kept that number down"""
+
         # === Conditionally Available Attributes ===
         # It's easier to conditionally assign than to force a null check on every usage
 
-- 
2.43.0


From 0d4eac3c51c27a9451e1db0ded7e33f1ee89156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 104/132] fix: an input shows the server's value although keys
 were released or focus was lost since

---
 .../@reactpy/client/src/components.tsx        | 54 ++++++++++++++-----
 .../packages/@reactpy/client/src/handler.ts   |  6 +--
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 218077f..04a4c40 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -6,7 +6,13 @@ import {
   Fragment,
   type JSX,
 } from "preact";
-import { useContext, useEffect, useRef, useState } from "preact/hooks";
+import {
+  useContext,
+  useEffect,
+  useLayoutEffect,
+  useRef,
+  useState,
+} from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
   HANDLER_MARKER,
@@ -31,7 +37,10 @@ const ClientContext = createContext<ReactPyClient>(null as any);
 function useRateLimiters() {
   const limiters = useRef(new Map<string, RateLimiter>()).current;
   // What is waiting must not overtake events of an element that follows this one.
-  useEffect(() => () => limiters.forEach((limiter) => limiter.flush()), []);
+  useLayoutEffect(
+    () => () => limiters.forEach((limiter) => limiter.flush()),
+    [],
+  );
   return {
     get: (name: string): RateLimiter => {
       let limiter = limiters.get(name);
@@ -40,7 +49,6 @@ function useRateLimiters() {
       }
       return limiter;
     },
-    isWaiting: () => Array.from(limiters.values()).some((l) => l.isWaiting),
   };
 }
 
@@ -90,9 +98,10 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
     SpecializedElement = StandardElement;
   }
 
-  // An input of another kind is another element, in which nothing was typed yet.
+  // With another tag it is another element, in which nothing was typed and of which
+  // no event is waiting to be sent.
   const key =
-    SpecializedElement === UserInputElement ? model.tagName : undefined;
+    SpecializedElement === ImportedElement ? undefined : model.tagName;
   return <SpecializedElement key={key} model={model} />;
 }
 
@@ -155,11 +164,21 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   const inputRef = useRef<
     HTMLInputElement | HTMLSelectElement | HTMLTextAreaElement | null
   >(null);
-  // Sequence number of the last event that was sent from this element. The
-  // server's ``_reactpy_ack_seq`` will catch up to this.
-  const lastSentSeq = useRef(-1);
+  // Sequence number of the last event from this element that told the server
+  // about something the user entered. The server's ``_reactpy_ack_seq`` will
+  // catch up to this. It need not catch up to other events: nothing has to be
+  // rendered, and thus acknowledged, because of a key that was released.
+  const lastEditSeq = useRef(-1);
+  // What was entered when the last of those events happened
+  const lastEditValue = useRef<string | undefined>(undefined);
+  // Names of the handlers for which such an event was not sent yet
+  const unsentEdits = useRef(new Set<string>()).current;
   const limiters = useRateLimiters();
 
+  useLayoutEffect(() => {
+    lastEditValue.current = inputRef.current?.value;
+  }, []);
+
   // honor changes to value from the client via props
   useEffect(() => {
     // The sequence number is the single source of truth for whether
@@ -170,8 +189,8 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // keystrokes were processed. The sequence number can,
     // deterministically.
     //
-    // If the server has acknowledged every event the user has sent
-    // (``serverAckSeq >= lastSentSeq.current``), the server's value
+    // If the server has acknowledged everything the user has entered
+    // (``serverAckSeq >= lastEditSeq.current``), the server's value
     // is the authoritative one and is applied directly. This
     // includes clears (Enter handlers that reset the input),
     // normalizations, and same-value confirmations.
@@ -187,7 +206,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
     // The server knows even less of events which have not been sent yet.
-    if (serverAckSeq < lastSentSeq.current || limiters.isWaiting()) {
+    if (serverAckSeq < lastEditSeq.current || unsentEdits.size > 0) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -217,6 +236,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     ) {
       inputRef.current.value = String(props.value);
     }
+    lastEditValue.current = inputRef.current?.value;
     setValue(props.value);
   }, [props.value, serverAckSeq]);
 
@@ -243,9 +263,19 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     const debounce = givenHandler[HANDLER_DEBOUNCE];
     props[name] = (...args: any[]) => {
       const data = givenHandler.read(args);
+      if (
+        ["input", "change"].includes(args[0]?.type) ||
+        lastEditValue.current !== inputRef.current?.value
+      ) {
+        lastEditValue.current = inputRef.current?.value;
+        unsentEdits.add(name);
+      }
       limiters.get(name).submit(
         () => {
-          lastSentSeq.current = givenHandler.send(data);
+          const seq = givenHandler.send(data);
+          if (unsentEdits.delete(name)) {
+            lastEditSeq.current = seq;
+          }
         },
         throttle,
         debounce,
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index ae71020..c3e9cd8 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -54,10 +54,6 @@ export class RateLimiter {
   private timer: ReturnType<typeof setTimeout> | undefined = undefined;
   private lastFireTime = 0;
 
-  get isWaiting(): boolean {
-    return this.pending !== null;
-  }
-
   submit(fire: () => void, throttle: number = 0, debounce: number = 0): void {
     clearTimeout(this.timer);
     this.pending = fire;
@@ -78,7 +74,7 @@ export class RateLimiter {
   }
 
   flush(): void {
-    if (this.isWaiting) {
+    if (this.pending !== null) {
       clearTimeout(this.timer);
       this.fire();
     }
-- 
2.43.0


From 4ac0abca15984c5b59b836996c841b62fae5ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 105/132] fix: processes that serve the first page after an
 update at once do not trip over each other's removal of old wheels

---
 src/reactpy/executors/pyscript/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 95a9dbe..6cab11a 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -350,7 +350,8 @@ def _copy_reactpy_wheel_to_static_dir(wheel_file: Path) -> Path:
 
     for existing in static_wheels_dir.glob("reactpy-*.whl"):
         if existing != static_wheel:
-            existing.unlink()
+            # Another process might be doing the same
+            existing.unlink(missing_ok=True)
 
     if wheel_file.resolve() == static_wheel.resolve():
         return static_wheel
-- 
2.43.0


From f08f7c4cf590a2db2f82a8752bf2dad95ddb059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 106/132] fix: a file that was saved while the wheel was built
 makes that wheel stale

---
 src/reactpy/executors/pyscript/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 6cab11a..74442d8 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -15,6 +15,7 @@ import subprocess
 import symtable
 import sys
 import textwrap
+import time
 from collections.abc import Callable, Iterator
 from contextlib import contextmanager
 from importlib import metadata
@@ -293,6 +294,7 @@ def _build_reactpy_wheel_from_source() -> Path | None:
         return None
 
     _logger.warning("Attempting to build a local wheel for ReactPy...")
+    started_at = time.time()
 
     env = os.environ.copy()
     for key in tuple(env):
@@ -323,7 +325,11 @@ def _build_reactpy_wheel_from_source() -> Path | None:
         return None
 
     dist_dir = repo_root / "dist"
-    return _find_current_reactpy_wheel(dist_dir)
+    built_wheel = _find_current_reactpy_wheel(dist_dir)
+    if built_wheel and built_wheel.exists():
+        # Files that changed while the wheel was built are newer than what is in it
+        os.utime(built_wheel, (started_at, started_at))
+    return built_wheel
 
 
 def _hatch_build_command(repo_root: Path) -> list[str] | None:
-- 
2.43.0


From 548ac199c50164d59e47bc67072b8adbdf77d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:24 +0000
Subject: [PATCH 107/132] fix: the import map leads to the static files for
 every path prefix

---
 src/reactpy/executors/utils.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..bbf728e 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import json
 import logging
 from collections.abc import Iterable
 from typing import Any
@@ -93,12 +94,15 @@ def server_side_component_html(
 
 
 def default_import_map() -> str:
-    path_prefix = REACTPY_PATH_PREFIX.current.strip("/")
-    return f"""{{
-                "imports": {{
-                    "react": "/{path_prefix}/static/preact.js",
-                    "react-dom": "/{path_prefix}/static/preact-dom.js",
-                    "react-dom/client": "/{path_prefix}/static/preact-dom.js",
-                    "react/jsx-runtime": "/{path_prefix}/static/preact-jsx-runtime.js"
-                }}
-            }}""".replace("\n", "").replace(" ", "")
+    static_path = f"{REACTPY_PATH_PREFIX.current}static/"
+    return json.dumps(
+        {
+            "imports": {
+                "react": f"{static_path}preact.js",
+                "react-dom": f"{static_path}preact-dom.js",
+                "react-dom/client": f"{static_path}preact-dom.js",
+                "react/jsx-runtime": f"{static_path}preact-jsx-runtime.js",
+            }
+        },
+        separators=(",", ":"),
+    )
-- 
2.43.0


From 8cedfcf403de72eac31cf5d77922680cd45e91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 108/132] fix: an event number which was held back when its
 handler got removed is confirmed later

---
 src/reactpy/core/layout.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index b6e8e91..712f123 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -554,6 +554,9 @@ class Layout(BaseLayout):
                     acks.append(self._last_event_seq_by_target[target])
                 if target in self._event_queues:
                     waiting.extend(self._event_queues[target].waiting_seqs())
+        if old_state is not None and old_state.event_seq is not None:
+            acks.append(old_state.event_seq)
+        new_state.event_seq = max(acks, default=None)
         if acks and waiting and min(waiting) <= max(acks):
             new_state.event_ack_held = True
             acks = [min(waiting) - 1] if min(waiting) > 0 else []
@@ -878,6 +881,7 @@ class _ModelState:
         "children_by_key",
         "event_ack_held",
         "event_ack_seq",
+        "event_seq",
         "index",
         "key",
         "key_path",
@@ -920,9 +924,12 @@ class _ModelState:
         self.key_path = key_path
         """A slash-delimited path using element keys"""
 
-        self.event_ack_seq: int | None = None
+        self.event_seq: int | None = None
         """The highest sequence number of this element's events when it was rendered"""
 
+        self.event_ack_seq: int | None = None
+        """The sequence number that was confirmed then, which may be lower"""
+
         self.event_ack_held = False
         """Whether events which were waiting for their handler kept that number down"""
 
-- 
2.43.0


From 90d0f3cf92aa8d4b7649e42cf9a979edb0af22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 109/132] fix: names that could not be resolved because of a
 failed request are looked up again by later registrations

---
 src/reactpy/reactjs/__init__.py | 43 ++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index c16c894..be9b5c3 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -91,17 +91,17 @@ def component_from_url(
             Whether or not these components can have children.
     """
     key = (url, resolve_imports, resolve_imports_depth, unmount_before_update)
-    if key in _URL_JS_MODULE_CACHE:
-        module = _URL_JS_MODULE_CACHE[key]
-    else:
+    module = _URL_JS_MODULE_CACHE.get(key)
+    if module is None or _lacks_names(module, import_names):
         module = url_to_module(
             url,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
         )
-        _URL_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+    constructors = module_to_vdom(module, import_names, fallback, allow_children)
+    _URL_JS_MODULE_CACHE[key] = module
+    return constructors
 
 
 @overload
@@ -280,7 +280,11 @@ def component_from_file(
         unmount_before_update,
     )
     module = _FILE_JS_MODULE_CACHE.get(key)
-    if module is None or not is_up_to_date(module.file, Path(file).resolve(), symlink):
+    if (
+        module is None
+        or not is_up_to_date(module.file, Path(file).resolve(), symlink)
+        or _lacks_names(module, import_names)
+    ):
         module = file_to_module(
             name,
             file,
@@ -289,8 +293,9 @@ def component_from_file(
             unmount_before_update=unmount_before_update,
             symlink=symlink,
         )
-        _FILE_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+    constructors = module_to_vdom(module, import_names, fallback, allow_children)
+    _FILE_JS_MODULE_CACHE[key] = module
+    return constructors
 
 
 @overload
@@ -364,7 +369,11 @@ def component_from_string(
         unmount_before_update,
     )
     module = _STRING_JS_MODULE_CACHE.get(key)
-    if module is None or not is_file_content(module.file, content.encode("utf-8")):
+    if (
+        module is None
+        or not is_file_content(module.file, content.encode("utf-8"))
+        or _lacks_names(module, import_names)
+    ):
         module = string_to_module(
             name,
             content,
@@ -372,5 +381,17 @@ def component_from_string(
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
         )
-        _STRING_JS_MODULE_CACHE[key] = module
-    return module_to_vdom(module, import_names, fallback, allow_children)
+    constructors = module_to_vdom(module, import_names, fallback, allow_children)
+    _STRING_JS_MODULE_CACHE[key] = module
+    return constructors
+
+
+def _lacks_names(
+    module: JavaScriptModule, import_names: str | list[str] | tuple[str, ...]
+) -> bool:
+    """Whether names were not found, which might be since a file or URL that the module
+    refers to was not available when it was registered before."""
+    if module.import_names is None:
+        return False
+    names = [import_names] if isinstance(import_names, str) else import_names
+    return any(name.split(".")[0] not in module.import_names for name in names)
-- 
2.43.0


From 15d099c218aa81a8b5e011fd7510fd03c2b5acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 110/132] fix: handlers that prevent the default of an event
 are called by imported components which pass other values too

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index ce96515..d95d247 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -234,11 +234,12 @@ function createEventHandler(
   eventHandler.read = (args) =>
     args.map((value) => {
       const event = value as Event;
+      // Imported components may pass anything along with, or instead of, an event
       if (preventDefault) {
-        event.preventDefault();
+        event?.preventDefault?.();
       }
       if (stopPropagation) {
-        event.stopPropagation();
+        event?.stopPropagation?.();
       }
 
       // Convert JavaScript objects to plain JSON, if needed
-- 
2.43.0


From 5efbdf6a6cb80a19b363acc12e6eb59e54cda27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 111/132] fix: a list that an imported component passes to its
 handler arrives as a list

---
 src/js/packages/event-to-object/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index a56a5dd..66027b6 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -19,6 +19,9 @@ export default function convert(
   // Begin conversion
   const visited = new WeakSet<any>();
   visited.add(classObject);
+  if (Array.isArray(classObject)) {
+    return classToArray(classObject, maxDepth, visited);
+  }
   const convertedObj: { [key: string]: any } = {};
   for (const key in classObject) {
     // Skip keys that cannot be converted
-- 
2.43.0


From 756e9d5efc38291648abb2239e46b24705e8ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 112/132] fix: a number that a component returns is kept in its
 HTML

---
 src/reactpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 548d171..7279395 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -296,7 +296,7 @@ def component_to_vdom(component: Component) -> VdomDict:
         return result
     if hasattr(result, "render"):
         return component_to_vdom(cast(Component, result))
-    return h.div(result) if isinstance(result, str) else h.div()
+    return h.div(str(result))
 
 
 def _is_omitted_from_html(key: str, value: Any) -> bool:
-- 
2.43.0


From 5b0f103d75070e7c0969a400e2b9e2de6768884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:09 +0000
Subject: [PATCH 113/132] fix: numbers in styles are pixels in HTML, and None
 is left out

---
 src/reactpy/utils.py | 67 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 7279395..d4da1bd 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -314,7 +314,9 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{_react_style_to_css(k)}:{v}" for k, v in value.items()
+                f"{_react_style_to_css(k)}:{react_style_value(k, v)}"
+                for k, v in value.items()
+                if v is not None
             )
 
     # Convert attributes whose HTML name is different
@@ -340,6 +342,20 @@ def _react_style_to_css(name: str) -> str:
     return vendor_prefix + CAMEL_CASE_PATTERN.sub("-", name).lower()
 
 
+def react_style_value(name: str, value: Any) -> Any:
+    """Convert the value of a React style property to a CSS value. Numbers are pixels,
+    except for the properties which have no unit."""
+    if (
+        isinstance(value, (int, float))
+        and not isinstance(value, bool)
+        and not name.startswith("--")
+        and VENDOR_PREFIX_PATTERN.sub("", name.replace("-", "").lower())
+        not in UNITLESS_STYLES
+    ):
+        return f"{value}px"
+    return value
+
+
 RENAMED_HTML_ATTRS = {"className": "class", "htmlFor": "for"}
 
 # Void elements which HTML parsers older than HTML5 do not know of
@@ -359,6 +375,55 @@ RAW_TEXT_PATTERNS = {
     "style": (re.compile(r"<(?=/style)", re.IGNORECASE), r"\3c "),
 }
 
+# Style properties whose values are plain numbers
+UNITLESS_STYLES = {
+    "animationiterationcount",
+    "aspectratio",
+    "borderimageoutset",
+    "borderimageslice",
+    "borderimagewidth",
+    "boxflex",
+    "boxflexgroup",
+    "boxordinalgroup",
+    "columncount",
+    "columns",
+    "fillopacity",
+    "flex",
+    "flexgrow",
+    "flexnegative",
+    "floodopacity",
+    "flexorder",
+    "flexpositive",
+    "flexshrink",
+    "fontweight",
+    "gridarea",
+    "gridcolumn",
+    "gridcolumnend",
+    "gridcolumnspan",
+    "gridcolumnstart",
+    "gridrow",
+    "gridrowend",
+    "gridrowspan",
+    "gridrowstart",
+    "lineclamp",
+    "lineheight",
+    "opacity",
+    "order",
+    "orphans",
+    "scale",
+    "stopopacity",
+    "strokedasharray",
+    "strokedashoffset",
+    "strokemiterlimit",
+    "strokeopacity",
+    "strokewidth",
+    "tabsize",
+    "widows",
+    "zindex",
+    "zoom",
+}
+VENDOR_PREFIX_PATTERN = re.compile("^(webkit|moz|ms)")
+
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
 CAMEL_CASE_PATTERN = re.compile(r"(?<!^)(?=[A-Z])")
 
-- 
2.43.0


From 18b8a125e0df056c082ebcaa3e6922e646c0582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 114/132] fix: PyScript sets attributes and styles under their
 HTML names

---
 .../executors/pyscript/layout_handler.py      | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 4846b66..00fd210 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -9,6 +9,7 @@ from pyodide.ffi.wrappers import add_event_listener
 from pyscript.js_modules import morphdom
 
 from reactpy.core.layout import Layout
+from reactpy.utils import react_style_value
 
 
 class ReactPyLayoutHandler:
@@ -78,11 +79,17 @@ class ReactPyLayoutHandler:
                     continue  # such an attribute is not set
                 if key == "style":
                     for style_key, style_value in value.items():
-                        setattr(element.style, style_key, style_value)
+                        if style_value is None:
+                            continue
+                        css_value = react_style_value(style_key, style_value)
+                        if style_key.startswith("--"):
+                            element.style.setProperty(style_key, css_value)
+                        else:
+                            setattr(element.style, style_key, css_value)
                 elif key == "className":
                     element.className = value
                 else:
-                    element.setAttribute(key, value)
+                    element.setAttribute(self.html_attribute_name(key), value)
 
             # Declare the element's event handlers
             if event_handlers := model.get("eventHandlers"):
@@ -108,6 +115,17 @@ class ReactPyLayoutHandler:
             msg = f"Unknown model type: {type(model)}"
             raise TypeError(msg)
 
+    @staticmethod
+    def html_attribute_name(name):
+        """Convert ReactJS-style attribute names to HTML attribute names"""
+        return {
+            "htmlFor": "for",
+            "acceptCharset": "accept-charset",
+            "httpEquiv": "http-equiv",
+            "defaultValue": "value",
+            "defaultChecked": "checked",
+        }.get(name, name)
+
     @staticmethod
     def dom_event_name(event_name):
         """Convert ReactJS-style event names to HTML event names"""
-- 
2.43.0


From bab57250eedd511151d21f43e86618a698ca7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 115/132] fix: PyScript listens to double clicks

---
 src/reactpy/executors/pyscript/layout_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 00fd210..e06b83f 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -130,7 +130,8 @@ class ReactPyLayoutHandler:
     def dom_event_name(event_name):
         """Convert ReactJS-style event names to HTML event names"""
         event_name = event_name.lower()
-        return event_name[2:] if event_name.startswith("on") else event_name
+        event_name = event_name[2:] if event_name.startswith("on") else event_name
+        return "dblclick" if event_name == "doubleclick" else event_name
 
     def add_event_listeners(self, layout, element):
         """Listen to the declared events of an element. As morphdom keeps elements, but
-- 
2.43.0


From dcf384f5e4eaa104d97fcf8895260c086fe96ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 116/132] fix: PyScript runs inline JavaScript

---
 src/reactpy/executors/pyscript/layout_handler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index e06b83f..98520d1 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -103,6 +103,15 @@ class ReactPyLayoutHandler:
                     ),
                 )
 
+            # Declare the element's inline JavaScript, which might evaluate to a function
+            for name, code in model.get("inlineJavaScript", {}).items():
+                if name.lower().startswith("on"):
+                    element.setAttribute(
+                        f"on{self.dom_event_name(name)}",
+                        "((result) => typeof result == 'function' && result(event))"
+                        f"(eval({json.dumps(code)}))",
+                    )
+
             # Recursively build the children
             for child in children:
                 self.build_element_tree(layout, element, child)
-- 
2.43.0


From 5a9a75aa564ae5d0580ca5471127de2c23f0bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 117/132] fix: list every logged exception and only delete
 those records

---
 src/reactpy/testing/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/testing/logs.py b/src/reactpy/testing/logs.py
index 3d72262..830882d 100644
--- a/src/reactpy/testing/logs.py
+++ b/src/reactpy/testing/logs.py
@@ -105,7 +105,7 @@ def list_logged_exceptions(
     """
     found: list[BaseException] = []
     compiled_pattern = re.compile(pattern)
-    for index, record in enumerate(log_records):
+    for index, record in enumerate(list(log_records)):
         if record.levelno >= log_level and record.exc_info:
             error = record.exc_info[1]
             if (
-- 
2.43.0


From fa9356254e6304a0cabd5e72dc41acc576850be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 118/132] fix: assert_reactpy_did_not_log does not hide other
 failed assertions

---
 src/reactpy/testing/logs.py | 99 ++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/reactpy/testing/logs.py b/src/reactpy/testing/logs.py
index 830882d..e4c0d2c 100644
--- a/src/reactpy/testing/logs.py
+++ b/src/reactpy/testing/logs.py
@@ -25,47 +25,15 @@ def assert_reactpy_did_log(
         error_type: Checks the type of logged exceptions.
         match_error: Must match an error message.
     """
-    message_pattern = re.compile(match_message)
-    error_pattern = re.compile(match_error)
-
     with capture_reactpy_logs() as log_records:
-        try:
-            yield None
-        except Exception:
-            raise
-        else:
-            for record in list(log_records):
-                if (
-                    # record message matches
-                    message_pattern.findall(record.getMessage())
-                    # error type matches
-                    and (
-                        error_type is None
-                        or (
-                            record.exc_info is not None
-                            and record.exc_info[0] is not None
-                            and issubclass(record.exc_info[0], error_type)
-                        )
-                    )
-                    # error message pattern matches
-                    and (
-                        not match_error
-                        or (
-                            record.exc_info is not None
-                            and error_pattern.findall(
-                                "".join(format_exception(*record.exc_info))
-                            )
-                        )
-                    )
-                ):
-                    break
-            else:  # nocov
-                _raise_log_message_error(
-                    "Could not find a log record matching the given",
-                    match_message,
-                    error_type,
-                    match_error,
-                )
+        yield None
+        if not _has_log_record(log_records, match_message, error_type, match_error):
+            _raise_log_message_error(
+                "Could not find a log record matching the given",
+                match_message,
+                error_type,
+                match_error,
+            )
 
 
 @contextmanager
@@ -75,18 +43,47 @@ def assert_reactpy_did_not_log(
     match_error: str = "",
 ) -> Iterator[None]:
     """Assert the inverse of :func:`assert_reactpy_logged`"""
-    try:
-        with assert_reactpy_did_log(match_message, error_type, match_error):
-            yield None
-    except LogAssertionError:
-        pass
-    else:
-        _raise_log_message_error(
-            "Did find a log record matching the given",
-            match_message,
-            error_type,
-            match_error,
+    with capture_reactpy_logs() as log_records:
+        yield None
+        if _has_log_record(log_records, match_message, error_type, match_error):
+            _raise_log_message_error(
+                "Did find a log record matching the given",
+                match_message,
+                error_type,
+                match_error,
+            )
+
+
+def _has_log_record(
+    log_records: list[logging.LogRecord],
+    match_message: str,
+    error_type: type[Exception] | None,
+    match_error: str,
+) -> bool:
+    message_pattern = re.compile(match_message)
+    error_pattern = re.compile(match_error)
+    return any(
+        # record message matches
+        message_pattern.search(record.getMessage())
+        # error type matches
+        and (
+            error_type is None
+            or (
+                record.exc_info is not None
+                and record.exc_info[0] is not None
+                and issubclass(record.exc_info[0], error_type)
+            )
+        )
+        # error message pattern matches
+        and (
+            not match_error
+            or (
+                record.exc_info is not None
+                and error_pattern.search("".join(format_exception(*record.exc_info)))
+            )
         )
+        for record in list(log_records)
+    )
 
 
 def list_logged_exceptions(
-- 
2.43.0


From acbbeffaf8f2eb1fa779c835e8ce519960426a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 119/132] fix: captured logs are only those of the innermost
 context

---
 src/reactpy/testing/logs.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/reactpy/testing/logs.py b/src/reactpy/testing/logs.py
index e4c0d2c..398ddda 100644
--- a/src/reactpy/testing/logs.py
+++ b/src/reactpy/testing/logs.py
@@ -126,39 +126,37 @@ def capture_reactpy_logs() -> Iterator[list[logging.LogRecord]]:
 
     original_level = ROOT_LOGGER.level
     ROOT_LOGGER.setLevel(logging.DEBUG)
+    outer_captors = [
+        handler
+        for handler in ROOT_LOGGER.handlers
+        if isinstance(handler, _LogRecordCaptor)
+    ]
+    captor = _LogRecordCaptor()
+    ROOT_LOGGER.addHandler(captor)
     try:
-        if _LOG_RECORD_CAPTOR in ROOT_LOGGER.handlers:
-            start_index = len(_LOG_RECORD_CAPTOR.records)
-            try:
-                yield _LOG_RECORD_CAPTOR.records
-            finally:
-                end_index = len(_LOG_RECORD_CAPTOR.records)
-                _LOG_RECORD_CAPTOR.records[start_index:end_index] = []
-            return None
-
-        ROOT_LOGGER.addHandler(_LOG_RECORD_CAPTOR)
-        try:
-            yield _LOG_RECORD_CAPTOR.records
-        finally:
-            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)
-            _LOG_RECORD_CAPTOR.records.clear()
+        yield captor.records
     finally:
+        ROOT_LOGGER.removeHandler(captor)
         ROOT_LOGGER.setLevel(original_level)
+        captor.records.clear()
+        captured = {id(record) for record in captor.captured}
+        for outer in outer_captors:
+            outer.records[:] = [r for r in outer.records if id(r) not in captured]
 
 
 class _LogRecordCaptor(logging.NullHandler):
     def __init__(self) -> None:
+        # Unlike what has been captured, the records might be modified by their user
+        self.captured: list[logging.LogRecord] = []
         self.records: list[logging.LogRecord] = []
         super().__init__()
 
     def handle(self, record: logging.LogRecord) -> bool:
+        self.captured.append(record)
         self.records.append(record)
         return True
 
 
-_LOG_RECORD_CAPTOR = _LogRecordCaptor()
-
-
 def _raise_log_message_error(
     prefix: str,
     match_message: str = "",
-- 
2.43.0


From 3d358db44a377499e7cf6d0ac2d626180dc356b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 120/132] fix: poll awaits whatever its function returns

---
 src/reactpy/testing/common.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/testing/common.py b/src/reactpy/testing/common.py
index 52350d0..603e9c5 100644
--- a/src/reactpy/testing/common.py
+++ b/src/reactpy/testing/common.py
@@ -4,7 +4,7 @@ import asyncio
 import inspect
 import os
 import time
-from collections.abc import Awaitable, Callable, Coroutine
+from collections.abc import Awaitable, Callable
 from functools import wraps
 from typing import TYPE_CHECKING, Any, Generic, ParamSpec, TypeVar, cast
 from uuid import uuid4
@@ -39,16 +39,13 @@ class poll(Generic[_R]):  # noqa: N801
         *args: _P.args,
         **kwargs: _P.kwargs,
     ) -> None:
-        coro: Callable[_P, Awaitable[_R]]
-        if not inspect.iscoroutinefunction(function):
+        async def async_func(*args: _P.args, **kwargs: _P.kwargs) -> _R:
+            result = function(*args, **kwargs)
+            if inspect.isawaitable(result):
+                result = await result
+            return cast(_R, result)
 
-            async def async_func(*args: _P.args, **kwargs: _P.kwargs) -> _R:
-                return cast(_R, function(*args, **kwargs))
-
-            coro = async_func
-        else:
-            coro = cast(Callable[_P, Coroutine[Any, Any, _R]], function)
-        self._func = coro
+        self._func = async_func
         self._args = args
         self._kwargs = kwargs
 
-- 
2.43.0


From 6dd70bcec41fd65424ad7d77abd860555e41b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 121/132] fix: BackendFixture reports the exceptions that were
 logged

---
 src/reactpy/testing/backend.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/testing/backend.py b/src/reactpy/testing/backend.py
index 998cb7d..d9b2c79 100644
--- a/src/reactpy/testing/backend.py
+++ b/src/reactpy/testing/backend.py
@@ -145,16 +145,17 @@ class BackendFixture:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
+        # Closing the stack clears the log records
+        logged_errors = self.list_logged_exceptions(del_log_records=False)
         await self._exit_stack.aclose()
 
-        logged_errors = self.list_logged_exceptions(del_log_records=False)
+        await self.webserver.shutdown()
+        self.webserver_task.cancel()
+
         if logged_errors:  # nocov
             msg = "Unexpected logged exception"
             raise LogAssertionError(msg) from logged_errors[0]
 
-        await self.webserver.shutdown()
-        self.webserver_task.cancel()
-
     async def restart(self) -> None:
         """Restart the server"""
         await self.__aexit__(None, None, None)
-- 
2.43.0


From 5fe1c98a4871e02618bddb575ec8b7647458c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:07 +0000
Subject: [PATCH 122/132] fix: restarting BackendFixture waits until the server
 is started again

---
 src/reactpy/testing/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/testing/backend.py b/src/reactpy/testing/backend.py
index d9b2c79..9d9311c 100644
--- a/src/reactpy/testing/backend.py
+++ b/src/reactpy/testing/backend.py
@@ -115,7 +115,8 @@ class BackendFixture:
         self._exit_stack = AsyncExitStack()
         self.log_records = self._exit_stack.enter_context(capture_reactpy_logs())
 
-        # Wait for the server to start
+        # Wait for the server to start (it might have been started before)
+        self.webserver.started = False
         self.webserver.config.get_loop_factory()
         self.webserver_task = asyncio.create_task(self.webserver.serve())
         for _ in range(100):
-- 
2.43.0


From b1387dac04b7d481949162a03a7ad7cd4ab9046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:00 +0000
Subject: [PATCH 123/132] fix: a value that is not equal to itself does not
 change by being set again

---
 src/reactpy/core/hooks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5fe09f0..b278955 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -609,6 +609,10 @@ def strictly_equal(x: Any, y: Any) -> bool:
     - ``bytearray``
     - ``memoryview``
     """
+    if x is y:
+        # includes values, like NaN, that aren't equal to themselves
+        return True
+
     # Return early if the objects are not the same type
     if type(x) is not type(y):
         return False
-- 
2.43.0


From f307ec53d9801e93550d767391b5d62ce38f24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 124/132] Leave src/reactpy/testing as it was: its defects are
 recorded instead

---
 src/reactpy/testing/backend.py |  12 ++-
 src/reactpy/testing/common.py  |  17 +++--
 src/reactpy/testing/logs.py    | 135 +++++++++++++++++----------------
 3 files changed, 85 insertions(+), 79 deletions(-)

diff --git a/src/reactpy/testing/backend.py b/src/reactpy/testing/backend.py
index 9d9311c..998cb7d 100644
--- a/src/reactpy/testing/backend.py
+++ b/src/reactpy/testing/backend.py
@@ -115,8 +115,7 @@ class BackendFixture:
         self._exit_stack = AsyncExitStack()
         self.log_records = self._exit_stack.enter_context(capture_reactpy_logs())
 
-        # Wait for the server to start (it might have been started before)
-        self.webserver.started = False
+        # Wait for the server to start
         self.webserver.config.get_loop_factory()
         self.webserver_task = asyncio.create_task(self.webserver.serve())
         for _ in range(100):
@@ -146,17 +145,16 @@ class BackendFixture:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        # Closing the stack clears the log records
-        logged_errors = self.list_logged_exceptions(del_log_records=False)
         await self._exit_stack.aclose()
 
-        await self.webserver.shutdown()
-        self.webserver_task.cancel()
-
+        logged_errors = self.list_logged_exceptions(del_log_records=False)
         if logged_errors:  # nocov
             msg = "Unexpected logged exception"
             raise LogAssertionError(msg) from logged_errors[0]
 
+        await self.webserver.shutdown()
+        self.webserver_task.cancel()
+
     async def restart(self) -> None:
         """Restart the server"""
         await self.__aexit__(None, None, None)
diff --git a/src/reactpy/testing/common.py b/src/reactpy/testing/common.py
index 603e9c5..52350d0 100644
--- a/src/reactpy/testing/common.py
+++ b/src/reactpy/testing/common.py
@@ -4,7 +4,7 @@ import asyncio
 import inspect
 import os
 import time
-from collections.abc import Awaitable, Callable
+from collections.abc import Awaitable, Callable, Coroutine
 from functools import wraps
 from typing import TYPE_CHECKING, Any, Generic, ParamSpec, TypeVar, cast
 from uuid import uuid4
@@ -39,13 +39,16 @@ class poll(Generic[_R]):  # noqa: N801
         *args: _P.args,
         **kwargs: _P.kwargs,
     ) -> None:
-        async def async_func(*args: _P.args, **kwargs: _P.kwargs) -> _R:
-            result = function(*args, **kwargs)
-            if inspect.isawaitable(result):
-                result = await result
-            return cast(_R, result)
+        coro: Callable[_P, Awaitable[_R]]
+        if not inspect.iscoroutinefunction(function):
 
-        self._func = async_func
+            async def async_func(*args: _P.args, **kwargs: _P.kwargs) -> _R:
+                return cast(_R, function(*args, **kwargs))
+
+            coro = async_func
+        else:
+            coro = cast(Callable[_P, Coroutine[Any, Any, _R]], function)
+        self._func = coro
         self._args = args
         self._kwargs = kwargs
 
diff --git a/src/reactpy/testing/logs.py b/src/reactpy/testing/logs.py
index 398ddda..3d72262 100644
--- a/src/reactpy/testing/logs.py
+++ b/src/reactpy/testing/logs.py
@@ -25,15 +25,47 @@ def assert_reactpy_did_log(
         error_type: Checks the type of logged exceptions.
         match_error: Must match an error message.
     """
+    message_pattern = re.compile(match_message)
+    error_pattern = re.compile(match_error)
+
     with capture_reactpy_logs() as log_records:
-        yield None
-        if not _has_log_record(log_records, match_message, error_type, match_error):
-            _raise_log_message_error(
-                "Could not find a log record matching the given",
-                match_message,
-                error_type,
-                match_error,
-            )
+        try:
+            yield None
+        except Exception:
+            raise
+        else:
+            for record in list(log_records):
+                if (
+                    # record message matches
+                    message_pattern.findall(record.getMessage())
+                    # error type matches
+                    and (
+                        error_type is None
+                        or (
+                            record.exc_info is not None
+                            and record.exc_info[0] is not None
+                            and issubclass(record.exc_info[0], error_type)
+                        )
+                    )
+                    # error message pattern matches
+                    and (
+                        not match_error
+                        or (
+                            record.exc_info is not None
+                            and error_pattern.findall(
+                                "".join(format_exception(*record.exc_info))
+                            )
+                        )
+                    )
+                ):
+                    break
+            else:  # nocov
+                _raise_log_message_error(
+                    "Could not find a log record matching the given",
+                    match_message,
+                    error_type,
+                    match_error,
+                )
 
 
 @contextmanager
@@ -43,47 +75,18 @@ def assert_reactpy_did_not_log(
     match_error: str = "",
 ) -> Iterator[None]:
     """Assert the inverse of :func:`assert_reactpy_logged`"""
-    with capture_reactpy_logs() as log_records:
-        yield None
-        if _has_log_record(log_records, match_message, error_type, match_error):
-            _raise_log_message_error(
-                "Did find a log record matching the given",
-                match_message,
-                error_type,
-                match_error,
-            )
-
-
-def _has_log_record(
-    log_records: list[logging.LogRecord],
-    match_message: str,
-    error_type: type[Exception] | None,
-    match_error: str,
-) -> bool:
-    message_pattern = re.compile(match_message)
-    error_pattern = re.compile(match_error)
-    return any(
-        # record message matches
-        message_pattern.search(record.getMessage())
-        # error type matches
-        and (
-            error_type is None
-            or (
-                record.exc_info is not None
-                and record.exc_info[0] is not None
-                and issubclass(record.exc_info[0], error_type)
-            )
-        )
-        # error message pattern matches
-        and (
-            not match_error
-            or (
-                record.exc_info is not None
-                and error_pattern.search("".join(format_exception(*record.exc_info)))
-            )
+    try:
+        with assert_reactpy_did_log(match_message, error_type, match_error):
+            yield None
+    except LogAssertionError:
+        pass
+    else:
+        _raise_log_message_error(
+            "Did find a log record matching the given",
+            match_message,
+            error_type,
+            match_error,
         )
-        for record in list(log_records)
-    )
 
 
 def list_logged_exceptions(
@@ -102,7 +105,7 @@ def list_logged_exceptions(
     """
     found: list[BaseException] = []
     compiled_pattern = re.compile(pattern)
-    for index, record in enumerate(list(log_records)):
+    for index, record in enumerate(log_records):
         if record.levelno >= log_level and record.exc_info:
             error = record.exc_info[1]
             if (
@@ -126,37 +129,39 @@ def capture_reactpy_logs() -> Iterator[list[logging.LogRecord]]:
 
     original_level = ROOT_LOGGER.level
     ROOT_LOGGER.setLevel(logging.DEBUG)
-    outer_captors = [
-        handler
-        for handler in ROOT_LOGGER.handlers
-        if isinstance(handler, _LogRecordCaptor)
-    ]
-    captor = _LogRecordCaptor()
-    ROOT_LOGGER.addHandler(captor)
     try:
-        yield captor.records
+        if _LOG_RECORD_CAPTOR in ROOT_LOGGER.handlers:
+            start_index = len(_LOG_RECORD_CAPTOR.records)
+            try:
+                yield _LOG_RECORD_CAPTOR.records
+            finally:
+                end_index = len(_LOG_RECORD_CAPTOR.records)
+                _LOG_RECORD_CAPTOR.records[start_index:end_index] = []
+            return None
+
+        ROOT_LOGGER.addHandler(_LOG_RECORD_CAPTOR)
+        try:
+            yield _LOG_RECORD_CAPTOR.records
+        finally:
+            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)
+            _LOG_RECORD_CAPTOR.records.clear()
     finally:
-        ROOT_LOGGER.removeHandler(captor)
         ROOT_LOGGER.setLevel(original_level)
-        captor.records.clear()
-        captured = {id(record) for record in captor.captured}
-        for outer in outer_captors:
-            outer.records[:] = [r for r in outer.records if id(r) not in captured]
 
 
 class _LogRecordCaptor(logging.NullHandler):
     def __init__(self) -> None:
-        # Unlike what has been captured, the records might be modified by their user
-        self.captured: list[logging.LogRecord] = []
         self.records: list[logging.LogRecord] = []
         super().__init__()
 
     def handle(self, record: logging.LogRecord) -> bool:
-        self.captured.append(record)
         self.records.append(record)
         return True
 
 
+_LOG_RECORD_CAPTOR = _LogRecordCaptor()
+
+
 def _raise_log_message_error(
     prefix: str,
     match_message: str = "",
-- 
2.43.0


From 66258ef898da551d7de3f7bbfdb78a96982c4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 125/132] fix: a component which keeps rendering does not put
 off others above it forever

---
 src/reactpy/core/layout.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 712f123..c249faf 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from asyncio import (
-    FIRST_COMPLETED,
     CancelledError,
     Lock,
     Queue,
@@ -87,6 +86,8 @@ class Layout(BaseLayout):
         # Render tasks which are in progress (as opposed to scheduled or waiting)
         # along with the component they started from.
         self._active_renders: dict[Task[LayoutUpdateMessage], _LifeCycleStateId] = {}
+        # Render tasks which only wait for the ones in progress when their turn came
+        self._next_renders: dict[Task[LayoutUpdateMessage], _LifeCycleStateId] = {}
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -283,8 +284,17 @@ class Layout(BaseLayout):
         updating, or unmounting) one of its ancestors or descendants.
         """
         task = cast("Task[LayoutUpdateMessage]", current_task())
-        while overlapping := self._get_overlapping_renders(lcs_id):
-            await wait(overlapping, return_when=FIRST_COMPLETED)
+        if overlapping := self._get_overlapping_renders(lcs_id):
+            await wait(overlapping)
+
+        # Renders requested from now on must not go first. Otherwise this one could be
+        # put off forever by components which keep rendering.
+        if overlapping := self._get_overlapping_renders(lcs_id):
+            self._next_renders[task] = lcs_id
+            try:
+                await wait(overlapping)
+            finally:
+                self._next_renders.pop(task, None)
 
         self._active_renders[task] = lcs_id
         try:
@@ -302,8 +312,11 @@ class Layout(BaseLayout):
         lineage = self._get_lineage(lcs_id)
         return [
             task
-            for task, active_lcs_id in self._active_renders.items()
-            if active_lcs_id in lineage or lcs_id in self._get_lineage(active_lcs_id)
+            for task, other_lcs_id in [
+                *self._active_renders.items(),
+                *self._next_renders.items(),
+            ]
+            if other_lcs_id in lineage or lcs_id in self._get_lineage(other_lcs_id)
         ]
 
     def _get_lineage(self, lcs_id: _LifeCycleStateId) -> set[_LifeCycleStateId]:
@@ -723,6 +736,7 @@ class Layout(BaseLayout):
         if task is not None and task is not current_task():
             # The cancelled task is later dropped by ``_parallel_render``
             del self._render_tasks_by_id[lcs_id]
+            self._next_renders.pop(task, None)
             task.cancel()
 
     def __repr__(self) -> str:
-- 
2.43.0


From 1d6190bf192f634c787560fab2b09f5d016503ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:28 +0000
Subject: [PATCH 126/132] fix: renders waiting for room in the queue get in by
 order of arrival

---
 src/reactpy/core/layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index c249faf..a6d50dc 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1063,6 +1063,8 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._queue: Queue[_Type] = Queue(REACTPY_MAX_QUEUE_SIZE.current)
         self._pending: set[_Type] = set()
         self._put_tasks: dict[_Type, Task[None]] = {}
+        # lets values into the queue in order, so that none is put off forever
+        self._put_access = Lock()
 
     def put(self, value: _Type) -> None:
         if value not in self._pending:
@@ -1074,7 +1076,8 @@ class _ThreadSafeQueue(Generic[_Type]):
 
     async def _put_with_backpressure(self, value: _Type) -> None:
         try:
-            await self._queue.put(value)
+            async with self._put_access:
+                await self._queue.put(value)
         except BaseException:
             self._pending.discard(value)
             raise
-- 
2.43.0


From 257d061dc15950dc9c26b23f5aafed62fa99a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:24 +0000
Subject: [PATCH 127/132] fix: find all names of a destructured export whose
 defaults contain brackets

---
 src/reactpy/reactjs/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index e2c0309..e2b7b14 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -118,7 +118,12 @@ def resolve_names_from_source(
                 if item[0][0] in {"{", "["}:
                     # Exporting destructured assignments with renaming
                     closing = next(
-                        (i for i, t in enumerate(item) if t[0] in {"}", "]"}), 1
+                        (
+                            i
+                            for i, t in enumerate(item)
+                            if t[0] in {"}", "]"} and t[1] == item[0][1]
+                        ),
+                        1,
                     )
                     for part in _split_js_list(item[1:closing], 1):
                         all_names.update([t[0] for t in part if t[0] != "."][:1])
-- 
2.43.0


From 71422328ad5510064c75c18ddaa41bf64d2ad109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:45 +0000
Subject: [PATCH 128/132] fix: allow the children of SVG elements which consist
 of them, such as text and gradients

---
 src/reactpy/_html.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/reactpy/_html.py b/src/reactpy/_html.py
index 9cdc367..f87caa5 100644
--- a/src/reactpy/_html.py
+++ b/src/reactpy/_html.py
@@ -38,18 +38,14 @@ NO_CHILDREN_ALLOWED_HTML_BODY = {
 
 NO_CHILDREN_ALLOWED_SVG = {
     "animate",
-    "animateMotion",
     "animateTransform",
     "circle",
-    "desc",
     "discard",
     "ellipse",
     "feBlend",
     "feColorMatrix",
-    "feComponentTransfer",
     "feComposite",
     "feConvolveMatrix",
-    "feDiffuseLighting",
     "feDisplacementMap",
     "feDistantLight",
     "feDropShadow",
@@ -60,37 +56,23 @@ NO_CHILDREN_ALLOWED_SVG = {
     "feFuncR",
     "feGaussianBlur",
     "feImage",
-    "feMerge",
     "feMergeNode",
     "feMorphology",
     "feOffset",
     "fePointLight",
-    "feSpecularLighting",
     "feSpotLight",
     "feTile",
     "feTurbulence",
-    "filter",
-    "foreignObject",
-    "hatch",
     "hatchpath",
     "image",
     "line",
-    "linearGradient",
-    "metadata",
     "mpath",
     "path",
     "polygon",
     "polyline",
-    "radialGradient",
     "rect",
-    "script",
     "set",
     "stop",
-    "style",
-    "text",
-    "textPath",
-    "title",
-    "tspan",
     "use",
     "view",
 }
-- 
2.43.0


From d83ec827ad78754bf2f8261f7a38998bc3ea16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:43 +0000
Subject: [PATCH 129/132] fix: statements without semicolons end where they end
 in JavaScript, also after properties named like keywords

---
 src/reactpy/reactjs/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index e2b7b14..ed84cf0 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -336,12 +336,15 @@ def _js_statement(tokens: list[_JsToken], start: int) -> list[_JsToken]:
             return tokens[start:index]
         if new_line and is_declaration and index > start + 1:
             # A semicolon is inserted between what cannot be one expression
-            previous = tokens[index - 1][0]
-            ends = previous not in _JS_PREFIX_KEYWORDS and (
+            last = index - 2 if tokens[index - 1][0] in {"++", "--"} else index - 1
+            previous, is_property = tokens[last][0], tokens[last - 1][0] == "."
+            ends = (is_property or previous not in _JS_PREFIX_KEYWORDS) and (
                 previous[-1].isalnum() or previous[-1] in "_$)]}\"'`"
             )
-            begins = token[0].isalnum() or token[0] in "_$@\"'"
-            is_continued = token in {"in", "instanceof"}
+            begins = token in {"++", "--", "~"} or (
+                token[0].isalnum() or token[0] in "_$@\"'"
+            )
+            is_continued = token in {"in", "instanceof", "extends"}
             if ends and begins and not is_continued:
                 return tokens[start:index]
     return tokens[start:]
-- 
2.43.0


From 5673cd3abbcc94633f9b1e00f10175e82e245fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:42 +0000
Subject: [PATCH 130/132] fix: presentation attributes of SVG elements are
 written with dashes in HTML

---
 src/reactpy/utils.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index d4da1bd..8ba8ce3 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -301,9 +301,7 @@ def component_to_vdom(component: Component) -> VdomDict:
 
 def _is_omitted_from_html(key: str, value: Any) -> bool:
     """Whether ReactJS would leave out an attribute with this value."""
-    return value is None or (
-        value is False and not key.startswith(("data-", "aria-"))
-    )
+    return value is None or (value is False and not key.startswith(("data-", "aria-")))
 
 
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
@@ -324,7 +322,7 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
         key = RENAMED_HTML_ATTRS[key]
 
     # Convert special attributes to kebab-case
-    elif key in DASHED_HTML_ATTRS:
+    elif key in DASHED_HTML_ATTRS or key in DASHED_SVG_ATTRS:
         key = CAMEL_CASE_PATTERN.sub("-", key)
 
     # Retain data-* and aria-* attributes as provided
@@ -365,6 +363,26 @@ VOID_HTML_TAGS = ("embed", "source", "track", "wbr")
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
 
+# The presentation attributes of SVG elements, which have dashes too:
+# https://developer.mozilla.org/en-US/docs/Web/SVG/Attribute
+DASHED_SVG_ATTRS = frozenset(
+    """
+    accentHeight alignmentBaseline arabicForm baselineShift capHeight clipPath clipRule
+    colorInterpolation colorInterpolationFilters colorProfile colorRendering
+    dominantBaseline enableBackground fillOpacity fillRule floodColor floodOpacity
+    fontFamily fontSize fontSizeAdjust fontStretch fontStyle fontVariant fontWeight
+    glyphName glyphOrientationHorizontal glyphOrientationVertical horizAdvX horizOriginX
+    imageRendering letterSpacing lightingColor markerEnd markerMid markerStart
+    overlinePosition overlineThickness paintOrder pointerEvents renderingIntent
+    shapeRendering stopColor stopOpacity strikethroughPosition strikethroughThickness
+    strokeDasharray strokeDashoffset strokeLinecap strokeLinejoin strokeMiterlimit
+    strokeOpacity strokeWidth textAnchor textDecoration textRendering transformOrigin
+    underlinePosition underlineThickness unicodeBidi unicodeRange unitsPerEm vAlphabetic
+    vHanging vIdeographic vMathematical vectorEffect vertAdvY vertOriginX vertOriginY
+    wordSpacing writingMode xHeight
+    """.split()
+)
+
 # The content of these elements is not escaped. What would end them prematurely can only
 # legitimately occur within string literals, where the "<" can be written differently.
 RAW_TEXT_PATTERNS = {
-- 
2.43.0


From 962c7205fa8762989fd560603e9d887d61a57be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:04 +0000
Subject: [PATCH 131/132] fix: SVG in HTML strings keeps the case of its names

---
 src/reactpy/utils.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 8ba8ce3..c8a2a7e 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -136,6 +136,7 @@ def string_to_reactpy(
         raise HTMLParseError(msg) from e
 
     root_node = _unnest_void_elements(root_node)
+    _restore_svg_names(root_node)
     return _etree_to_vdom(root_node, transforms, intercept_links)
 
 
@@ -165,6 +166,15 @@ def _unnest_void_elements(root_node: etree._Element) -> etree._Element:
     return root_node
 
 
+def _restore_svg_names(root_node: etree._Element) -> None:
+    """Give names in lower case, as the parser reports them, the case they have in SVG."""
+    for svg in root_node.iter("svg"):
+        for element in svg.iter(etree.Element):
+            element.tag = CASE_SENSITIVE_SVG_NAMES.get(element.tag, element.tag)
+            for name in CASE_SENSITIVE_SVG_NAMES.keys() & element.keys():
+                element.set(CASE_SENSITIVE_SVG_NAMES[name], element.attrib.pop(name))
+
+
 def _etree_to_vdom(
     node: etree._Element, transforms: Iterable[_ModelTransform], intercept_links: bool
 ) -> VdomDict:
@@ -363,6 +373,29 @@ VOID_HTML_TAGS = ("embed", "source", "track", "wbr")
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
 
+# HTML is not case-sensitive, but the elements and attributes of SVG are:
+# https://html.spec.whatwg.org/multipage/parsing.html#creating-and-inserting-nodes
+CASE_SENSITIVE_SVG_NAMES = {
+    name.lower(): name
+    for name in """
+    altGlyph altGlyphDef altGlyphItem animateColor animateMotion animateTransform
+    clipPath feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix
+    feDiffuseLighting feDisplacementMap feDistantLight feDropShadow feFlood feFuncA
+    feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology
+    feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence
+    foreignObject glyphRef linearGradient radialGradient textPath attributeName
+    attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant
+    edgeMode filterUnits gradientTransform gradientUnits kernelMatrix kernelUnitLength
+    keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight
+    markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength
+    patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ
+    preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur
+    requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod
+    startOffset stdDeviation stitchTiles surfaceScale systemLanguage tableValues targetX
+    targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan
+    """.split()
+}
+
 # The presentation attributes of SVG elements, which have dashes too:
 # https://developer.mozilla.org/en-US/docs/Web/SVG/Attribute
 DASHED_SVG_ATTRS = frozenset(
-- 
2.43.0


From e3c1c3fe12802f888d84dc8dbb43f8e240842269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:28 +0000
Subject: [PATCH 132/132] fix: the Python executor creates SVG and MathML
 elements in their namespaces

---
 .../executors/pyscript/layout_handler.py      | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 98520d1..23f1fdc 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -9,7 +9,15 @@ from pyodide.ffi.wrappers import add_event_listener
 from pyscript.js_modules import morphdom
 
 from reactpy.core.layout import Layout
-from reactpy.utils import react_style_value
+from reactpy.utils import (
+    CAMEL_CASE_PATTERN,
+    DASHED_SVG_ATTRS,
+    react_style_value,
+)
+
+HTML_NAMESPACE = "http://www.w3.org/1999/xhtml"
+SVG_NAMESPACE = "http://www.w3.org/2000/svg"
+MATHML_NAMESPACE = "http://www.w3.org/1998/Math/MathML"
 
 
 class ReactPyLayoutHandler:
@@ -67,7 +75,7 @@ class ReactPyLayoutHandler:
             tag = model["tagName"]
             attributes = model.get("attributes", {})
             children = model.get("children", [])
-            element = js.document.createElement(tag)
+            element = js.document.createElementNS(self.namespace(parent, tag), tag)
 
             # Set the element's HTML attributes
             for key, value in attributes.items():
@@ -87,7 +95,7 @@ class ReactPyLayoutHandler:
                         else:
                             setattr(element.style, style_key, css_value)
                 elif key == "className":
-                    element.className = value
+                    element.setAttribute("class", value)
                 else:
                     element.setAttribute(self.html_attribute_name(key), value)
 
@@ -124,13 +132,27 @@ class ReactPyLayoutHandler:
             msg = f"Unknown model type: {type(model)}"
             raise TypeError(msg)
 
+    @staticmethod
+    def namespace(parent, tag):
+        """Like ReactJS, determine the namespace of an element from where it is"""
+        if parent.namespaceURI == SVG_NAMESPACE and parent.tagName == "foreignObject":
+            inherited = HTML_NAMESPACE
+        else:
+            inherited = parent.namespaceURI
+        if inherited != HTML_NAMESPACE:
+            return inherited
+        return {"svg": SVG_NAMESPACE, "math": MATHML_NAMESPACE}.get(tag, inherited)
+
     @staticmethod
     def html_attribute_name(name):
         """Convert ReactJS-style attribute names to HTML attribute names"""
+        if name in DASHED_SVG_ATTRS:
+            return CAMEL_CASE_PATTERN.sub("-", name).lower()
         return {
             "htmlFor": "for",
             "acceptCharset": "accept-charset",
             "httpEquiv": "http-equiv",
+            "tabIndex": "tabindex",
             "defaultValue": "value",
             "defaultChecked": "checked",
         }.get(name, name)
-- 
2.43.0

