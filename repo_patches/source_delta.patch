From c9238b54f9ffff87eb15055a2f296ad75fa10ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 01/26] fix: keep thread local values per instance and per live
 thread

The class level store was shared by every ThreadLocal and keyed by thread idents, which python reuses, so pending
callbacks could be inherited by an unrelated handler or by a later thread.
---
 src/deep/thread_local.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..64defa2 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,8 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        # thread idents are reused by python, so the values have to die with the thread that set them
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +41,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +53,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +67,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From 92e302b6b5170c1839d8e62a13440fc0ae3267a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 02/26] fix: contain every failure inside the trace function

Only the action processing was guarded: a failure while matching a trigger, running a pending callback or processing a
result with a BaseException was raised in the application, and made python stop tracing the thread.
---
 .../processor/context/callback_context.py     |  6 +++-
 src/deep/processor/context/trigger_context.py |  4 +--
 src/deep/processor/trigger_handler.py         | 32 ++++++++++++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..f8de750 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import List
 
+import deep.logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
@@ -71,7 +72,10 @@ class CallbackContext(Location, ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                deep.logging.exception("failed to process callback %s", callback)
 
     @property
     def id(self) -> str:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..40e5557 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -78,8 +78,8 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..56a58bf 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -135,11 +135,22 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            # anything raised from here is raised in the application, and makes python stop tracing the thread
+            self.__log_failure("Cannot process event %s", event)
+            return self.trace_call
+
+    def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
         if event in ["line", "return", "exception"] and self._callbacks.is_set:
-            self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            try:
+                self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            except BaseException:
+                self.__log_failure("Cannot process callbacks at %s#%s %s", file, line, function)
 
         # return if we do not have any tracepoints
         if len(self._tp_config) == 0:
@@ -158,9 +169,9 @@ class TriggerHandler:
                             if ctx.can_trigger():
                                 ctx.process()
                     except BaseException:
-                        logging.exception("Cannot process action %s", action)
+                        self.__log_failure("Cannot process action %s", action)
         except BaseException:
-            logging.exception("Cannot trigger at %s#%s %s", file, line, function)
+            self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
         callbacks = trigger_context.callbacks
         if len(callbacks) > 0:
@@ -173,10 +184,21 @@ class TriggerHandler:
     def __actions_for_location(self, event, file, line, function, frame):
         actions = []
         for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                self.__log_failure("Cannot match trigger %s", trigger)
         return actions
 
+    @staticmethod
+    def __log_failure(msg, *args):
+        try:
+            logging.exception(msg, *args)
+        except BaseException:  # noqa: S110
+            # there is nothing left that we can do with this failure (e.g. the application used up the stack)
+            pass
+
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
         # remove top context
-- 
2.43.0


From 7d20e984a77dd4d477340ad511259e799a54c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 03/26] fix: a failing span processor or span only costs its
 own span

One processor that failed in create_span stopped the other processors and lost (never closed) the spans already opened,
and one span that failed to close left the spans after it open.
---
 src/deep/processor/context/span_action.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..b564470 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Failed to close span: %s", span)
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Failed to create span: %s", span_processor)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
-- 
2.43.0


From 9b816612b2f82f16388e6621e34433507c176064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 04/26] fix: complete deferred work with the invocation that
 opened it

Pending callbacks were matched by file and function name and only the top one was looked at for each event. So a
recursive call closed the work of its caller, a line callback at the end of a function hid the callback of the
function, and an exception that was handled inside the function was reported as its result.
---
 src/deep/processor/context/action_results.py  |  3 +
 .../processor/context/callback_context.py     | 92 ++++++++++++++++++-
 src/deep/processor/context/snapshot_action.py |  2 +
 src/deep/processor/trigger_handler.py         | 30 +++---
 4 files changed, 111 insertions(+), 16 deletions(-)

diff --git a/src/deep/processor/context/action_results.py b/src/deep/processor/context/action_results.py
index 961932f..0809af1 100644
--- a/src/deep/processor/context/action_results.py
+++ b/src/deep/processor/context/action_results.py
@@ -52,6 +52,9 @@ if TYPE_CHECKING:
 class ActionCallback:
     """A call back to 'close' an action."""
 
+    captures_result = False
+    """Set to True if the callback needs the result of the invocation it is attached to."""
+
     @abc.abstractmethod
     def process(self, ctx: 'TriggerContext', event: str, frame: FrameType, arg: any) -> bool:
         """
diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index f8de750..4ecd23d 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,8 +14,9 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import dis
 from types import FrameType
-from typing import List
+from typing import List, Optional
 
 import deep.logging
 from deep.api.tracepoint.trigger import Location
@@ -32,14 +33,26 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
-        """Create new callback context."""
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None):
+        """
+        Create new callback context.
+
+        :param event: the event that created this context
+        :param filename: the file name
+        :param line: the line number
+        :param name: the function name
+        :param callbacks: the callbacks to run
+        :param frame: the invocation that created this context
+        """
         super().__init__(Location.Position.END)
         self.__event = event
         self.__filename = filename
         self.__function_name = name
         self.__line = line
         self.__callbacks = callbacks
+        self.__frame = frame
+        self.__last_exception = None
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -56,6 +69,15 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        # the same function can be active many times (recursion), so look for the invocation that opened us. If that
+        # invocation is gone we have missed its end, so we have to close on the next one we can see.
+        if self.__frame is not None and self.__frame is not frame and self.__is_active(frame):
+            return False
+
+        # an exception that is handled inside the invocation is not the end of it
+        if event == 'exception' and self.__is_handled(frame):
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
@@ -71,12 +93,76 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
+        if event == 'return' and self.__last_exception is not None and not self.__is_return(frame):
+            # we left the function because of the last exception, not because of a return
+            event, arg = 'exception', self.__last_exception
+        self.__last_exception = None
+        self.__frame = None
+
         for callback in self.__callbacks:
             try:
                 callback.process(ctx, event, frame, arg)
             except BaseException:
                 deep.logging.exception("failed to process callback %s", callback)
 
+    def exception(self, frame: FrameType, arg: any):
+        """
+        Remember an exception that could end the invocation we are attached to.
+
+        :param frame: the frame that has the exception
+        :param arg: the exception details
+        """
+        if frame is self.__frame and not self.__is_iteration_end(frame) \
+                and any(callback.captures_result for callback in self.__callbacks):
+            self.__last_exception = arg
+
+    def __is_active(self, frame: FrameType) -> bool:
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
+
+    def __is_handled(self, frame: FrameType) -> bool:
+        if self.__event != 'line' and self.__has_handler(frame):
+            return True
+        return self.__is_iteration_end(frame)
+
+    @staticmethod
+    def __has_handler(frame: FrameType) -> bool:
+        table = getattr(frame.f_code, 'co_exceptiontable', b'')
+        entries = iter(table)
+
+        def read():
+            byte = next(entries)
+            value = byte & 63
+            while byte & 64:
+                byte = next(entries)
+                value = (value << 6) | (byte & 63)
+            return value
+
+        try:
+            while True:
+                start, length, _, _ = read() * 2, read() * 2, read(), read()
+                if start <= frame.f_lasti < start + length:
+                    return True
+        except StopIteration:
+            return False
+
+    @staticmethod
+    def __last_opcode(frame: FrameType) -> str:
+        return dis.opname[frame.f_code.co_code[frame.f_lasti]]
+
+    @staticmethod
+    def __is_iteration_end(frame: FrameType) -> bool:
+        # python reports the StopIteration that completes a 'for' or 'yield from' as an exception event
+        return CallbackContext.__last_opcode(frame) in ['FOR_ITER', 'SEND', 'END_SEND', 'END_FOR']
+
+    @staticmethod
+    def __is_return(frame: FrameType) -> bool:
+        opcode = CallbackContext.__last_opcode(frame)
+        return opcode.startswith('RETURN_') or opcode.startswith('YIELD_')
+
     @property
     def id(self) -> str:
         """The location id."""
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..53cd971 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -194,6 +194,8 @@ class DeferredSnapshotActionResult(ActionResult):
 class DeferredSnapshotActionCallback(ActionCallback):
     """Defer the send action to the end of the line or function."""
 
+    captures_result = True
+
     def __init__(self, action_context: ActionContext, snapshot: EventSnapshot):
         """
         Create a new action callback.
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 56a58bf..9432188 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -177,7 +177,7 @@ class TriggerHandler:
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame))
 
         return self.trace_call
 
@@ -201,18 +201,22 @@ class TriggerHandler:
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
-
-        if len(self._callbacks.value) == 0:
+        callbacks = self._callbacks.value
+        # the event can complete more than one context (e.g. the last line and the function it is in), and contexts
+        # above can belong to another invocation - so look at all of them, starting at the top
+        for context in reversed(list(callbacks)):
+            if event == 'exception':
+                context.exception(frame, arg)
+            # if it is for our location process it
+            if context.at_location(event, file, line, function_name, frame):
+                logging.debug("At callback location %s", context.name)
+                # remove before we process, so we can never process this twice
+                callbacks.remove(context)
+                context.process(ctx, event, frame, arg)
+            else:
+                logging.debug("Not at callback location %s", context.name)
+
+        if len(callbacks) == 0:
             logging.debug("Callbacks cleared.")
             self._callbacks.clear()
 
-- 
2.43.0


From cc6e0659a0f0d2b5c860840f277ef49c048d569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 05/26] fix: evaluate expressions with the names of the paused
 frame

Expressions were evaluated with the globals of the agent module, so globals of the host module were not visible and
names of the agent were. A condition that failed could fire (when the error text was truthy), and a watch that failed
reported the exception as a good result.
---
 src/deep/processor/context/action_context.py  | 13 +++++++---
 src/deep/processor/context/trigger_context.py | 19 +++++++++++---
 src/deep/utils.py                             | 26 +++++++++++++++++++
 3 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..803f87b 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -36,7 +36,7 @@ from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_set_processor import VariableSetProcessor
-from deep.utils import str2bool
+from deep.utils import str2bool, safe_str
 
 if TYPE_CHECKING:
     from deep.processor.context.trigger_context import TriggerContext
@@ -77,13 +77,15 @@ class ActionContext(abc.ABC):
         var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
 
         try:
-            result = self.trigger_context.evaluate_expression(watch)
+            result, error = self.trigger_context.try_evaluate(watch)
+            if error is not None:
+                return WatchResult(source, watch, None, safe_str(error)), {}, safe_str(error)
             variable_id, log_str = var_processor.process_variable(watch, result)
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
             logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            return WatchResult(source, watch, None, safe_str(e)), {}, safe_str(e)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -128,7 +130,10 @@ class ActionContext(abc.ABC):
             return False
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
+        result, error = self.trigger_context.try_evaluate(self.location_action.condition)
+        if error is not None:
+            deep.logging.debug("Condition failed %s: %s", self.location_action.condition, type(error))
+            return False
         return str2bool(str(result))
 
 
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 40e5557..2accc99 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -17,7 +17,7 @@
 
 import uuid
 from types import FrameType
-from typing import Dict, Optional, List
+from typing import Dict, Optional, List, Tuple
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
@@ -150,10 +150,23 @@ class TriggerContext:
         :param expression: the expression
         :return: the result of the expression, or the exception that was raised.
         """
+        result, error = self.try_evaluate(expression)
+        return result if error is None else error
+
+    def try_evaluate(self, expression: str) -> Tuple[any, Optional[BaseException]]:
+        """
+        Evaluate an expression to a value, keeping the failure separate from the value.
+
+        :param expression: the expression
+        :return: the result of the expression and None, or None and the exception that was raised.
+        """
         try:
-            return eval(expression, None, self.__frame.f_locals)
+            # use the names visible to the frame (not ours), as one scope so that nested scopes (e.g. lambda) see the
+            # locals, and as a copy so that we do not change the frame
+            scope = {**getattr(self.__frame, 'f_globals', {}), **self.__frame.f_locals}
+            return eval(expression, scope), None
         except BaseException as e:
-            return e
+            return None, e
 
     def attach_result(self, result: ActionResult):
         """
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..a11d0d4 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -35,6 +35,32 @@ def time_ns():
     return time.time_ns()
 
 
+def safe_str(value):
+    """
+    Convert any value to a string.
+
+    The value can belong to the application, so the conversion can run (and fail in) application code.
+
+    :param value: the value to convert
+    :return: the string form of the value, or a placeholder
+    """
+    try:
+        # str can return a sub type of str, that can also override functions
+        return str.__str__(str(value))
+    except BaseException:
+        return '%s@%s' % (type_name(type(value)), id(value))
+
+
+def type_name(type_):
+    """
+    Get the name of a type, even if the type has customized (via the metaclass) how to access the name.
+
+    :param type_: the type
+    :return: the name of the type
+    """
+    return type.__dict__['__name__'].__get__(type_)
+
+
 def str2bool(string):
     """
     Convert a string to a boolean.
-- 
2.43.0


From baef77fa4f7648aefb2f55af3a5310110747364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 06/26] fix: search the variables breadth first

The work list was used as a stack, so one large structure could use up the variable budget before the other locals were
recorded.
---
 src/deep/processor/bfs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..9025889 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -21,6 +21,7 @@ approach. This means scanning all local values before proceeding to the next dep
 """
 
 import abc
+from collections import deque
 from typing import Callable, List
 
 from deep.api.tracepoint import VariableId
@@ -150,10 +151,10 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     :param node: the initial node to start the search
     :param consumer: the consumer to call on each node
     """
-    queue = [node]
+    queue = deque([node])
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.popleft()
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 72b8e00ce0e08197e036b33ed98455b09703425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 07/26] fix: collect values of any type

Objects without __dict__, keys that are not strings, and types or objects that fail when asked for their name, length,
string or attributes aborted the whole snapshot. Types are now compared by identity (a class of the application that is
called e.g. 'list' is not a list), and only names python really mangled are renamed.
---
 src/deep/processor/variable_processor.py | 93 +++++++++++++-----------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..1284852 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,39 +22,37 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import ModuleType, TracebackType
 from typing import List
 
 from deep import logging
 from deep.api.tracepoint import VariableId, Variable
+from deep.utils import safe_str, type_name
 from .bfs import Node, ParentNode, NodeValue
 
 NO_CHILD_TYPES = [
-    'str',
-    'int',
-    'float',
-    'bool',
-    'type',
-    'module',
-    'unicode',
-    'long',
-    'NoneType',
-    'traceback'
+    str,
+    int,
+    float,
+    bool,
+    type,
+    ModuleType,
+    type(None),
+    TracebackType
 ]
 """A list of types that do not have child nodes, or only have child nodes we do not want to process."""
 
 LIST_LIKE_TYPES = [
-    'frozenset',
-    'set',
-    'list',
-    'tuple',
+    frozenset,
+    set,
+    list,
+    tuple,
 ]
 """A list of types that we should handle like lists."""
 
 ITER_LIKE_TYPES = [
-    'list_iterator',
-    'listiterator',
-    'list_reverseiterator',
-    'listreverseiterator',
+    type(iter([])),
+    type(reversed([])),
 ]
 """A list of types that we should handle like iterators."""
 
@@ -179,6 +177,17 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def is_one_of(variable_type: type, types: List[type]) -> bool:
+    """
+    Check if the type is one of the given types, by identity as a type can customize (via the metaclass) how it compares.
+
+    :param variable_type: the type to check
+    :param types: the types to look for
+    :return: True if the type is in the list
+    """
+    return any(variable_type is type_ for type_ in types)
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -187,21 +196,17 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if is_one_of(variable_type, ITER_LIKE_TYPES):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % variable_type
     elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+            or is_one_of(variable_type, LIST_LIKE_TYPES):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value (or a placeholder)
+        return safe_str(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -237,7 +242,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -274,7 +279,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if is_one_of(variable_type, NO_CHILD_TYPES):
         return []
 
     # if the depth is more than we are configured - return empty
@@ -288,7 +293,12 @@ def process_child_nodes(
             var_collector.append_child(variable_id, child)
 
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    try:
+        return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    except BaseException:
+        # reading the children can run application code
+        logging.debug("Cannot process children of %s", type_name(variable_type))
+        return []
 
 
 def correct_names(name, val):
@@ -299,8 +309,9 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    # python removes the leading underscores from the class name, and only renames names that start with '__'
+    prefix = "_" + name.lstrip("_")
+    if val.startswith(prefix + "__"):
         return val[len(prefix):]
     return val
 
@@ -317,17 +328,15 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :return: list of child nodes
     """
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+    elif is_one_of(variable_type, LIST_LIKE_TYPES):
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
+    elif issubclass(variable_type, BaseException):
         return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
     elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value.__dict__, correct_names)
     else:
-        logging.debug("Unknown type processed %s", variable_type)
+        logging.debug("Unknown type processed %s", type_name(variable_type))
         return []
 
 
@@ -345,10 +354,10 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    # we wrap the items() in a call to list to prevent concurrent changes, and use the names as the keys can be any type
+    names_and_values = [(safe_str(key), val_) for key, val_ in list(value.items())]
+    return [Node(value=NodeValue(func(type_name, name), val_, name), parent=parent_node) for name, val_ in
+            names_and_values]
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
-- 
2.43.0


From d9542dfab8fa82b8c08cbd54056c14c858626fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 08/26] fix: give each snapshot its own variables

All the actions of an event shared one variable table and cache, so a second snapshot of the same event had no locals.
Cached identities could be used again by python once a temporary value (e.g. of a watch) was deleted, and the locals
dict of the frame could be removed from the table while the program referenced it. Watches and captures now use the
limits of their tracepoint, and report an error instead of a dangling reference when the limit is reached.
---
 src/deep/processor/context/action_context.py  | 27 ++++++++++++---
 src/deep/processor/context/snapshot_action.py | 14 +++++++-
 src/deep/processor/context/trigger_context.py |  4 ---
 src/deep/processor/frame_collector.py         | 33 ++++++++++++++-----
 src/deep/processor/variable_set_processor.py  | 29 ++++++++++++++--
 5 files changed, 87 insertions(+), 20 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 803f87b..94c0377 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -35,7 +35,8 @@ import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, \
+    VariableProcessorConfig
 from deep.utils import str2bool, safe_str
 
 if TYPE_CHECKING:
@@ -43,6 +44,10 @@ if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import LocationAction
 
 
+NOT_COLLECTED = "Value not collected: the limit of variables has been reached."
+"""The error of a watch result that would exceed the variable limit."""
+
+
 class ActionContext(abc.ABC):
     """A context for the processing of an action."""
 
@@ -56,6 +61,9 @@ class ActionContext(abc.ABC):
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self._triggered = False
+        # each action has its own variables, so one snapshot cannot change (or point into) another
+        self.var_cache = VariableCacheProvider()
+        self.var_config = VariableProcessorConfig()
 
     def __enter__(self):
         """Enter and open the context."""
@@ -74,13 +82,15 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.var_config)
 
         try:
             result, error = self.trigger_context.try_evaluate(watch)
             if error is not None:
                 return WatchResult(source, watch, None, safe_str(error)), {}, safe_str(error)
             variable_id, log_str = var_processor.process_variable(watch, result)
+            if variable_id.vid is None:
+                return WatchResult(source, watch, None, NOT_COLLECTED), var_processor.var_lookup, log_str
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
@@ -95,10 +105,17 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
-        variable_id, log_str = var_processor.process_variable(name, variable)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.var_config)
 
-        return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+        try:
+            variable_id, log_str = var_processor.process_variable(name, variable)
+            if variable_id.vid is None:
+                return WatchResult(WATCH_SOURCE_CAPTURE, name, None, NOT_COLLECTED), var_processor.var_lookup, log_str
+
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+        except BaseException as e:
+            logging.exception("Error processing captured value %s", name)
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, None, safe_str(e)), {}, safe_str(e)
 
     def process(self):
         """Process the action."""
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 53cd971..74fe665 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -50,6 +50,16 @@ if TYPE_CHECKING:
 class SnapshotActionContext(FrameCollectorContext, ActionContext):
     """The context to use when capturing a snapshot."""
 
+    def __init__(self, parent: 'TriggerContext', action: LocationAction):
+        """
+        Create a new snapshot action context.
+
+        :param parent: the parent trigger
+        :param action: the action config
+        """
+        super().__init__(parent, action)
+        self.var_config = self.collection_config
+
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
@@ -110,7 +120,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -127,6 +137,8 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
             }, LocationAction.ActionType.Log))
+            context.var_cache = self.var_cache
+            context.var_config = self.var_config
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2accc99..ede8d8c 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List, Tuple
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..1f4431d 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -17,10 +17,11 @@
 
 import abc
 from types import FrameType
-from typing import Tuple, Dict, List
+from typing import Tuple, Dict, List, Optional
 
+from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
-from deep.utils import time_ns
+from deep.utils import time_ns, type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -137,18 +138,16 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
-        _self = f_locals.get('self', None)
-        class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        # use our own copy, as the dict of the frame can be reached by the program (e.g. locals())
+        f_locals = self.__copy_locals(frame)
+        class_name = self.__class_name(f_locals.get('self', None))
 
         var_ids = []
         # only process vars if we are under the time limit
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
             # we process the vars as a single dict of 'locals'
-            variable, log_str = processor.process_variable("locals", f_locals)
+            variable = processor.collect_variable("locals", f_locals)
             # now ee 'unwrap' the locals, so they are on the frame directly.
             if variable.vid in var_lookup:
                 variable_val = var_lookup[variable.vid]
@@ -157,3 +156,21 @@ class FrameCollector:
         short_path, app_frame = self.parse_short_name(filename)
         return StackFrame(filename, short_path, func_name, lineno, var_ids, class_name,
                           app_frame=app_frame)
+
+    @staticmethod
+    def __copy_locals(frame: FrameType) -> Dict[str, any]:
+        try:
+            return dict(frame.f_locals)
+        except BaseException:
+            # the scope of code that is passed to exec can be any type
+            logging.debug("Cannot read locals of %s", frame.f_code.co_name)
+            return {}
+
+    @staticmethod
+    def __class_name(_self) -> Optional[str]:
+        if _self is None:
+            return None
+        try:
+            return type_name(_self.__class__)
+        except BaseException:
+            return type_name(type(_self))
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..492302f 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -34,6 +34,7 @@ from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
     process_child_nodes, Collector
+from deep.utils import safe_str
 
 
 class VariableCacheProvider:
@@ -48,6 +49,7 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__values = []
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -78,6 +80,18 @@ class VariableCacheProvider:
         return new_id
 
 
+    def keep(self, value):
+        """
+        Keep a value alive for as long as this cache.
+
+        The cache is based on the identity of the values, and python can use the identity of a value again once the
+        value is deleted. So we have to keep the values we have cached.
+
+        :param value: the value to keep
+        """
+        self.__values.append(value)
+
+
 class VariableProcessorConfig:
     """Variable process config."""
 
@@ -127,11 +141,21 @@ class VariableSetProcessor(Collector):
         :param value: the variable value
         :return:
         """
+        return self.collect_variable(name, value), safe_str(value)
+
+    def collect_variable(self, name: str, value: any) -> VariableId:
+        """
+        Process a variable name and value, without creating the string for the whole value.
+
+        :param name: the variable name
+        :param value: the variable value
+        :return: the variable id, this will have no 'vid' if the variable is not collected.
+        """
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +172,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name)
 
     def search_function(self, node: Node) -> bool:
         """
@@ -170,6 +194,7 @@ class VariableSetProcessor(Collector):
 
         # process this node variable
         process_result = process_variable(self, node_value)
+        self.__var_cache.keep(node_value.value)
         var_id = process_result.variable_id
         # add the result to the parent - this maintains the hierarchy in the var look up
         node.parent.add_child(var_id)
-- 
2.43.0


From a18a5bd29f02e8362fa313d2d53cf420cabe9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 09/26] fix: evaluate every field of a log template

---
 src/deep/processor/context/log_action.py     | 109 ++++++++++++++-----
 src/deep/processor/variable_processor.py     |   4 +-
 src/deep/processor/variable_set_processor.py |   1 -
 3 files changed, 85 insertions(+), 29 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..da68fd1 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,8 +28,11 @@
 
 """Handling for log actions."""
 
-from typing import TYPE_CHECKING, List, Dict, Optional
+import ast
+import re
+from typing import TYPE_CHECKING, List, Dict, Optional, Callable
 
+import deep.logging
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
 from ...api.tracepoint.constants import LOG_MSG
@@ -43,6 +46,75 @@ if TYPE_CHECKING:
     from .trigger_context import TriggerContext
 
 
+def is_expression(text: str) -> bool:
+    """
+    Check if the text is a valid expression.
+
+    :param text: the text to check
+    :return: True, if the text can be evaluated
+    """
+    try:
+        ast.parse(text.strip(), mode='eval')
+        return True
+    except Exception:
+        return False
+
+
+def split_field(field: str) -> Optional[Tuple[str, str, str]]:
+    """
+    Split a template field into expression, conversion and format spec.
+
+    As the expression can contain the characters that are used to separate the parts (e.g. a slice), we have to look for
+    the split that gives us a valid expression.
+
+    :param field: the text of the field
+    :return: the expression, conversion and format spec, or None if there is no valid expression
+    """
+    if is_expression(field):
+        return field, '', ''
+    for match in re.finditer(r'(?:!([rsa]))?(?::|$)', field):
+        spec = field[match.end():]
+        if spec.count('{') == spec.count('}') and is_expression(field[:match.start()]):
+            return field[:match.start()], match.group(1) or '', spec
+    return None
+
+
+def render_template(template: str, evaluate: Callable[[str], str]) -> str:
+    """
+    Render a template using the python format syntax, where each field is an expression.
+
+    :param template: the template to render
+    :param evaluate: the function to convert an expression to its string form
+    :return: the rendered template, anything that is not valid template syntax is kept as literal text
+    """
+    out = []
+    idx = 0
+    while idx < len(template):
+        if template.startswith(('{{', '}}'), idx):
+            out.append(template[idx])
+            idx += 2
+            continue
+        ends = [i for i in range(idx, len(template)) if template[i] == '}'] if template[idx] == '{' else []
+        if len(ends) == 0:
+            out.append(template[idx])
+            idx += 1
+            continue
+        # the expression can contain brackets, so use the first that gives us a valid expression. If there is no valid
+        # expression then use the first so that we can report the error.
+        fields = ((end, split_field(template[idx + 1:end])) for end in ends)
+        end, field = next((f for f in fields if f[1] is not None), (ends[0], (template[idx + 1:ends[0]], '', '')))
+        expression, conversion, spec = field
+        value = evaluate(expression)
+        value = {'r': repr, 'a': ascii}.get(conversion, str)(value)
+        try:
+            value = format(value, render_template(spec, evaluate))
+        except ValueError:
+            deep.logging.debug("Cannot use format %s for %s", spec, expression)
+        out.append(value)
+        idx = end + 1
+    return ''.join(out)
+
+
 class LogActionContext(ActionContext):
     """The context for processing a log action."""
 
@@ -66,32 +138,15 @@ class LogActionContext(ActionContext):
         watch_results = []
         _var_lookup = {}
 
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
-
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
-
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
-
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
-
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
-
-                return log_str, field_name
+        def evaluate(expression):
+            # evaluate watch
+            watch, var_lookup, log_str = ctx_self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            _var_lookup.update(var_lookup)
+            return log_str
 
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
+        log_msg = "[deep] %s" % render_template(log_msg, evaluate)
         return log_msg, watch_results, _var_lookup
 
 
@@ -118,5 +173,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 1284852..135a086 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -179,7 +179,9 @@ def var_modifiers(var_name: str) -> List[str]:
 
 def is_one_of(variable_type: type, types: List[type]) -> bool:
     """
-    Check if the type is one of the given types, by identity as a type can customize (via the metaclass) how it compares.
+    Check if the type is one of the given types.
+
+    This is by identity, as a type can customize (via the metaclass) how it compares.
 
     :param variable_type: the type to check
     :param types: the types to look for
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 492302f..c097782 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -79,7 +79,6 @@ class VariableCacheProvider:
         self.__cache[identity_hash_id] = new_id
         return new_id
 
-
     def keep(self, value):
         """
         Keep a value alive for as long as this cache.
-- 
2.43.0


From 82fc5b79c5d0bebeb40eb9204339d88df6131a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 10/26] fix: a failing metric or metric processor only costs
 its own value

---
 src/deep/api/plugin/metric/otel_metrics.py       | 10 +++++-----
 src/deep/api/plugin/metric/prometheus_metrics.py | 10 +++++-----
 src/deep/processor/context/metric_action.py      | 15 +++++++++++----
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a3d42a4..2981757 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -41,7 +41,7 @@ class OTelMetrics(MetricProcessor):
         self.__lock = threading.Lock()
 
     def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+        cache_key = (name, type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -62,7 +62,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 counter: Counter
-                counter = self.__check_cache(name, 'counter',
+                counter = self.__check_cache(f'{namespace}_{name}', 'counter',
                                              lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
                                                                                       help_string))
                 counter.add(value, labels)
@@ -83,7 +83,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 gauge: UpDownCounter
-                gauge = self.__check_cache(name, 'gauge',
+                gauge = self.__check_cache(f'{namespace}_{name}', 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
                                                                                             unit, help_string))
                 gauge.add(value, labels)
@@ -104,7 +104,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'histogram',
+                histogram = self.__check_cache(f'{namespace}_{name}', 'histogram',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
@@ -125,7 +125,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'summary',
+                histogram = self.__check_cache(f'{namespace}_{name}', 'summary',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
diff --git a/src/deep/api/plugin/metric/prometheus_metrics.py b/src/deep/api/plugin/metric/prometheus_metrics.py
index 14cc1c5..30855ef 100644
--- a/src/deep/api/plugin/metric/prometheus_metrics.py
+++ b/src/deep/api/plugin/metric/prometheus_metrics.py
@@ -38,7 +38,7 @@ class PrometheusPlugin(MetricProcessor):
         self.__lock = threading.Lock()
 
     def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+        cache_key = (name, type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -59,7 +59,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                counter: Counter = self.__check_cache(name, "counter",
+                counter: Counter = self.__check_cache(f'{namespace}_{name}', "counter",
                                                       lambda: Counter(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
@@ -83,7 +83,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                gauge: Gauge = self.__check_cache(name, "gauge",
+                gauge: Gauge = self.__check_cache(f'{namespace}_{name}', "gauge",
                                                   lambda: Gauge(name=name, documentation=help_string or "",
                                                                 labelnames=label_keys,
                                                                 namespace=namespace, unit=unit))
@@ -108,7 +108,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                histogram: Histogram = self.__check_cache(name, "histogram",
+                histogram: Histogram = self.__check_cache(f'{namespace}_{name}', "histogram",
                                                           lambda: Histogram(name=name, documentation=help_string or "",
                                                                             labelnames=label_keys,
                                                                             namespace=namespace, unit=unit))
@@ -133,7 +133,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                summary: Summary = self.__check_cache(name, "summary",
+                summary: Summary = self.__check_cache(f'{namespace}_{name}', "summary",
                                                       lambda: Summary(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..9de94a5 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,15 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                self._report_metric(processor, metric, dict(labels), value)
+
+    def _report_metric(self, processor, metric: MetricDefinition, labels: Dict[str, str], value: float):
+        # a failing processor can only lose its own value
+        try:
+            getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
+                                                                metric.help, metric.unit, value)
+        except BaseException:
+            deep.logging.exception("Failed to report metric %s", metric.name)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
@@ -58,7 +65,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +75,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
-- 
2.43.0


From 3df3b4e822a4d51988d76a3cdf37211a5ab85d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 11/26] fix: flush waits for every accepted task, whatever its
 outcome

---
 src/deep/task/__init__.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..2e95a5d 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -19,6 +19,7 @@ import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import wait
 
 
 class IllegalStateException(BaseException):
@@ -35,7 +36,8 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        # this can be used while processing a trace event, so can be called (on the same thread) while we have the lock
+        self._lock = threading.RLock()
         self._open = True
 
     def _next_id(self):
@@ -56,27 +58,26 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        with self._lock:
+            self.__check_open()
+            next_id = self._next_id()
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
         # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
             if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+                logging.error("Submitted task failed %s", task, exc_info=_future.exception())
+            self._pending.pop(next_id, None)
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
         """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        with self._lock:
+            self._open = False
+            pending = list(self._pending.values())
+        # wait for them to finish, we do not care if they failed as that has been handled by the task
+        wait(pending)
-- 
2.43.0


From 28d02877afcd46d138651b8477abc9d19cf694e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 12/26] fix: shutdown always completes, and restores only the
 hooks we installed

---
 src/deep/api/deep.py                  | 41 ++++++++++++++++++---------
 src/deep/poll/poll.py                 |  2 +-
 src/deep/processor/trigger_handler.py | 38 +++++++++++++++++++++++--
 src/deep/task/__init__.py             |  4 +++
 src/deep/utils.py                     |  2 +-
 5 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..a149a8e 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -14,6 +14,7 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.from typing import Dict, List
 
 """The main services for Deep."""
+import threading
 from typing import Dict, List
 
 import deep.logging
@@ -44,6 +45,7 @@ class Deep:
         :param config: the config to use.
         """
         self.started = False
+        self.__lock = threading.Lock()
         self.config = config
         self.grpc = GRPCService(self.config)
         self.task_handler = TaskHandler()
@@ -54,8 +56,19 @@ class Deep:
 
     def start(self):
         """Start Deep."""
-        if self.started:
-            return
+        with self.__lock:
+            if self.started:
+                return
+            self.started = True
+        try:
+            self.__start()
+        except BaseException:
+            # do not leave a part of the agent running
+            self.shutdown()
+            raise
+
+    def __start(self):
+        self.task_handler.open()
         self.config.plugins = load_plugins(self.config, self.config.PLUGINS)
         default_resource = Resource.create()
         for provider in self.config.resource_providers:
@@ -63,26 +76,28 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+            except BaseException:
+                deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource
         self.trigger_handler.start()
         self.grpc.start()
         self.poll.start()
-        self.started = True
 
     def shutdown(self):
         """Shutdown deep."""
-        if not self.started:
-            return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
-        for plugin in self.config.plugins:
-            plugin.shutdown()
+        with self.__lock:
+            if not self.started:
+                return
+            self.started = False
+        # each step has to be done, even if another step fails
+        steps = [self.trigger_handler.shutdown, self.poll.shutdown, self.task_handler.flush]
+        for step in steps + [plugin.shutdown for plugin in self.config.plugins]:
+            try:
+                step()
+            except BaseException:
+                deep.logging.exception("Failed to shutdown: %s", step)
         deep.logging.info("Deep is shutdown.")
-        self.started = False
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..aeabc87 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -54,7 +54,7 @@ class LongPoll(object):
     def __initial_poll(self):
         try:
             self.poll()
-        except Exception:
+        except BaseException:
             logging.exception("Initial poll failed. Will continue with interval.")
 
     def poll(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 9432188..1e5ce98 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -37,6 +37,7 @@ from deep.processor.context.callback_context import CallbackContext
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
+from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
@@ -88,6 +89,9 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__trace_thread = None
+        self.__installed = False
+        self.__shutdown = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -98,8 +102,11 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        self.__shutdown = False
+        if str2bool(str(self._config.NO_TRACE)) or self.__installed:
             return
+        self.__installed = True
+        self.__trace_thread = threading.get_ident()
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
         # noinspection PyUnresolvedReferences,PyProtectedMember
@@ -136,12 +143,31 @@ class TriggerHandler:
         :return: None to ignore other calls, or our self to continue
         """
         try:
+            if self.__shutdown:
+                return self.__process_shutdown(frame, event, arg)
             return self.__process_event(frame, event, arg)
         except BaseException:
             # anything raised from here is raised in the application, and makes python stop tracing the thread
             self.__log_failure("Cannot process event %s", event)
             return self.trace_call
 
+    def __process_shutdown(self, frame: FrameType, event: str, arg):
+        # all we can do now is to complete what we started on this thread
+        if self._callbacks.is_set:
+            event, file, line, function = self.location_from_event(event, frame)
+            trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
+            if event in ["line", "return", "exception"]:
+                self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            return None
+        # python has a trace function for each thread, so each thread has to remove it
+        self.__reset_trace()
+        return None
+
+    def __reset_trace(self):
+        if sys.gettrace() == self.trace_call:
+            is_trace_thread = self.__trace_thread == threading.get_ident()
+            sys.settrace(self.__old_sys_trace if is_trace_thread else self.__old_thread_trace)
+
     def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
@@ -249,5 +275,13 @@ class TriggerHandler:
 
         Reset the settrace to the previous values.
         """
-        sys.settrace(self.__old_sys_trace)
+        self.__shutdown = True
+        # we only have to reset the trace, if we set it
+        if not self.__installed:
+            return
+        self.__installed = False
+        if self.__trace_thread == threading.get_ident():
+            sys.settrace(self.__old_sys_trace)
+        else:
+            self.__reset_trace()
         threading.settrace(self.__old_thread_trace)
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 2e95a5d..1c42c73 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -74,6 +74,10 @@ class TaskHandler:
         future.add_done_callback(callback)
         return future
 
+    def open(self):
+        """Accept tasks again, after this handler has been flushed."""
+        self._open = True
+
     def flush(self):
         """Await completion of all pending tasks."""
         with self._lock:
diff --git a/src/deep/utils.py b/src/deep/utils.py
index a11d0d4..fea92b5 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -107,7 +107,7 @@ class RepeatedTimer:
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
+            except BaseException:
                 logging.exception(
                     "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
 
-- 
2.43.0


From 02d37cd0cdcd444eb12104ec91cdd7559d49adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 13/26] fix: settings behave the same given in code or as
 environment text

---
 src/deep/config/__init__.py       | 15 ++-------------
 src/deep/config/config_service.py | 24 +++++++++++++++++++++---
 src/deep/grpc/grpc_service.py     |  2 +-
 src/deep/poll/poll.py             | 18 +++++++++++++++++-
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..cf4dd28 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -54,12 +54,7 @@ def IN_APP_INCLUDE():
 
     The packages to mark as in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_INCLUDE', None)
-    if user_defined is None:
-        return []
-    if ',' in user_defined:
-        return user_defined.split(',')
-    return [user_defined]
+    return ConfigService.parse_list(os.getenv('DEEP_IN_APP_INCLUDE', None))
 
 
 # noinspection PyPep8Naming
@@ -69,13 +64,7 @@ def IN_APP_EXCLUDE():
 
     The packages to mark as NOT in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_EXCLUDE', None)
-    if user_defined is None:
-        user_defined = []
-    else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+    user_defined = ConfigService.parse_list(os.getenv('DEEP_IN_APP_EXCLUDE', None))
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..411ef70 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -29,7 +30,7 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: TracepointConfigService = None):
         """
         Create a new config object.
 
@@ -37,6 +38,8 @@ class ConfigService:
         """
         if custom is None:
             custom = {}
+        if tracepoints is None:
+            tracepoints = TracepointConfigService()
         self._plugins = []
         self.__custom = custom
         self._resource = None
@@ -163,6 +166,20 @@ class ConfigService:
         """Is there a configured metric processor."""
         return self._find_plugin(SpanProcessor) is not None
 
+    @staticmethod
+    def parse_list(value) -> List[str]:
+        """
+        Parse a config value that is a comma seperated list.
+
+        :param value: the config value, as text or already a list
+        :return: the values in the list
+        """
+        if value is None:
+            return []
+        if isinstance(value, str):
+            return [item for item in value.split(',') if item != '']
+        return list(value)
+
     def is_app_frame(self, filename: str) -> Tuple[bool, Optional[str]]:
         """
         Check if the current frame is a user application frame.
@@ -170,8 +187,9 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        in_app_include = self.parse_list(self.IN_APP_INCLUDE)
+        # the python install is never part of the app, however the excludes are configured
+        in_app_exclude = self.parse_list(self.IN_APP_EXCLUDE) + [sys.exec_prefix]
 
         for path in in_app_exclude:
             if filename.startswith(path):
diff --git a/src/deep/grpc/grpc_service.py b/src/deep/grpc/grpc_service.py
index f1608d4..b8453c1 100644
--- a/src/deep/grpc/grpc_service.py
+++ b/src/deep/grpc/grpc_service.py
@@ -40,7 +40,7 @@ class GRPCService:
 
     def start(self):
         """Start and connect the GRPC channel."""
-        if str2bool(self._secure):
+        if str2bool(str(self._secure)):
             logging.info("Connecting securely")
             logging.debug("Connecting securely to: %s", self._service_url)
             self.channel = grpc.secure_channel(self._service_url, grpc.ssl_channel_credentials())
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index aeabc87..97b5146 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -20,6 +20,8 @@ Deep needs to maintain a config of the tracepoints configured by the users. The
  periodically polling the long poll service.
 """
 
+import threading
+
 # noinspection PyUnresolvedReferences
 from deepproto.proto.poll.v1.poll_pb2 import PollRequest, ResponseType
 from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
@@ -29,6 +31,9 @@ from deep.config import ConfigService
 from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
+DEFAULT_POLL_TIMER = 10
+"""The time in seconds to use, if there is no usable value configured."""
+
 
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
@@ -47,10 +52,21 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__poll_interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __poll_interval(self) -> float:
+        # the value can come from the environment, so can be text
+        try:
+            interval = float(self.config.POLL_TIMER)
+            if 0 < interval <= threading.TIMEOUT_MAX:
+                return interval
+        except (TypeError, ValueError):
+            pass
+        logging.warning("Invalid POLL_TIMER: %s, using %s seconds.", self.config.POLL_TIMER, DEFAULT_POLL_TIMER)
+        return DEFAULT_POLL_TIMER
+
     def __initial_poll(self):
         try:
             self.poll()
-- 
2.43.0


From 433fc42af42bf773fc22096e1f759cc9563d8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 14/26] fix: a plugin with a failing order or a boolean switch
 does not affect the others

---
 src/deep/api/plugin/__init__.py               | 24 +++++++++++++------
 src/deep/processor/context/snapshot_action.py |  2 +-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..d7c5b8c 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -44,7 +44,7 @@ def __plugin_generator(configured):
             module, cls = plugin.rsplit(".", 1)
             yield getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
+        except BaseException as e:
             logging.debug(
                 "Did not import integration %s: %s", plugin, e
             )
@@ -61,18 +61,28 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
-    for plugin in __plugin_generator(DEEP_PLUGINS + custom):
+    for plugin in __plugin_generator(DEEP_PLUGINS + list(custom)):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
-            loaded.append(plugin_instance)
-        except Exception as e:
+            loaded.append((__plugin_order(plugin_instance), plugin_instance))
+        except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
-    return loaded
+    loaded.sort(key=lambda pl: pl[0])
+    return [plugin_instance for _, plugin_instance in loaded]
+
+
+def __plugin_order(plugin: 'Plugin') -> int:
+    try:
+        order = plugin.order() or 0
+        # make sure that we can compare this with the other plugins
+        return order if order < 0 or order >= 0 else 0
+    except BaseException as e:
+        logging.debug("Cannot get order of plugin %s: %s", plugin.name, e)
+        return 0
 
 
 class Plugin(abc.ABC):
@@ -111,7 +121,7 @@ class Plugin(abc.ABC):
         attr = getattr(self.config, f'plugin_{self.name}'.upper(), 'True')
         if attr is None:
             return True
-        return str2bool(attr)
+        return str2bool(str(attr))
 
     def shutdown(self):
         """Clean up and shutdown the plugin."""
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 74fe665..efe0de1 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -197,7 +197,7 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
-- 
2.43.0


From d898e97de375d2ff781a1b94c5fe052678822ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 15/26] fix: do not change the random values or the object
 lifetimes of the application

---
 src/deep/api/tracepoint/eventsnapshot.py      |  3 +-
 src/deep/processor/context/trigger_context.py |  8 +++--
 src/deep/processor/trigger_handler.py         |  2 +-
 src/deep/processor/variable_processor.py      | 34 +++++++++++++++----
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..c8f779a 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -36,7 +36,8 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        # do not use the shared random, as that changes the random values the application sees
+        self._id = random.SystemRandom().getrandbits(128)
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index ede8d8c..c26d9cd 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -69,7 +69,10 @@ class TriggerContext:
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Complete the 'with' statement, and close this context."""
-        for result in self.__results:
+        # the results (and the callbacks) reference this context, so do not keep them as the cycle would keep the frame
+        # and all its values alive until the next gc
+        results, self.__results = self.__results, []
+        for result in results:
             try:
                 new_callback = result.process(self)
                 if new_callback is not None:
@@ -162,7 +165,8 @@ class TriggerContext:
             scope = {**getattr(self.__frame, 'f_globals', {}), **self.__frame.f_locals}
             return eval(expression, scope), None
         except BaseException as e:
-            return None, e
+            # the traceback references the frames, which would be a cycle via the frames that use the error
+            return None, e.with_traceback(None)
 
     def attach_result(self, result: ActionResult):
         """
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 1e5ce98..32bb220 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -199,7 +199,7 @@ class TriggerHandler:
         except BaseException:
             self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
-        callbacks = trigger_context.callbacks
+        callbacks, trigger_context.callbacks = trigger_context.callbacks, []
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 135a086..d117a7e 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -262,6 +262,32 @@ def truncate_string(string, max_length):
     return string[:max_length], len(string) > max_length
 
 
+class VariableParent(ParentNode):
+    """The parent that attaches the children to a variable."""
+
+    # this is not created in process_child_nodes, as a class is part of a reference cycle it would keep everything it
+    # uses (the collector and the collected values) alive until the next gc
+
+    def __init__(self, var_collector: Collector, variable_id: str):
+        """
+        Create a new parent.
+
+        :param var_collector: the collector we are using
+        :param variable_id: the variable to attach children to
+        """
+        self.__var_collector = var_collector
+        self.__variable_id = variable_id
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this variable.
+
+        :param child: the child to add
+        """
+        # look for the child in the lookup and add this id to it
+        self.__var_collector.append_child(self.__variable_id, child)
+
+
 def process_child_nodes(
         var_collector: Collector,
         variable_id: str,
@@ -288,15 +314,9 @@ def process_child_nodes(
     if frame_depth + 1 >= var_collector.max_var_depth:
         return []
 
-    class VariableParent(ParentNode):
-
-        def add_child(self, child: VariableId):
-            # look for the child in the lookup and add this id to it
-            var_collector.append_child(variable_id, child)
-
     # scan the child based on type
     try:
-        return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+        return find_children_for_parent(var_collector, VariableParent(var_collector, variable_id), var_value, variable_type)
     except BaseException:
         # reading the children can run application code
         logging.debug("Cannot process children of %s", type_name(variable_type))
-- 
2.43.0


From 362f22b2ecd79d8d2bde1fbec8a9743b221fba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 16/26] fix: interpret every tracepoint argument, one
 tracepoint at a time

---
 src/deep/api/tracepoint/trigger.py            | 89 +++++++++++++++----
 src/deep/grpc/__init__.py                     | 12 ++-
 src/deep/processor/context/snapshot_action.py | 20 +++--
 3 files changed, 94 insertions(+), 27 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..ebbb14a 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,9 +29,8 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
 from enum import Enum
-from types import FrameType
+from types import CodeType, FrameType
 
 from typing import Optional, Dict, List
 
@@ -81,10 +80,11 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -149,6 +149,11 @@ class LocationAction(object):
             del args[WATCHES]
         if LOG_MSG in args and args[LOG_MSG] is None:
             del args[LOG_MSG]
+        if self.__tracepoint is not None:
+            # use what was configured, over what we use
+            args.update(self.__tracepoint.args)
+            return TracePointConfig(self.id, self.__tracepoint.path, self.__tracepoint.line_no, args,
+                                    self.__tracepoint.watches, [])
         return TracePointConfig(self.id, self.__location.path, self.__location.line, args,
                                 self.__config.get(WATCHES, []), [])
 
@@ -193,7 +198,7 @@ class LocationAction(object):
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -227,6 +232,16 @@ class LocationAction(object):
         self.__location = location
         return self
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint this action was created from.
+
+        :param tracepoint: the tracepoint config
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
 
 class Location(abc.ABC):
     """A location is the line or method at which actions should be performed."""
@@ -466,15 +481,19 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position,
+                 method_line: Optional[int] = None):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param method_line: a line of the function, used to find the function if there is no name
         """
         super().__init__(position)
+        self.__method_line = method_line
+        self.__found_name = None
         self.__function_name = function_name
         self.__path = path
 
@@ -492,25 +511,35 @@ class FunctionLocation(Location):
         if file != self.path:
             return False
 
+        if event != "call":
+            return False
+
         # if method_name is not set then we need to discover it from the frame.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
-                self.__function_name = function_name
+            if self.__is_method_of_line(frame.f_code):
+                # we only use this as the name of the location
+                self.__found_name = function_name
                 return True
             return False
 
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+        return function_name == self.__function_name
+
+    def __is_method_of_line(self, code: CodeType) -> bool:
+        if self.__method_line is None or code.co_name.startswith('<') or not self.__has_line(code):
+            return False
+        # the line belongs to the innermost function (for this a lambda, comprehension etc. is not a function)
+        return not any(self.__has_line(const) for const in code.co_consts
+                       if isinstance(const, CodeType) and not const.co_name.startswith('<'))
+
+    def __has_line(self, code: CodeType) -> bool:
+        lines = [line for _, _, line in code.co_lines() if line is not None]
+        return len(lines) > 0 and min(lines) <= self.__method_line <= max(lines)
 
     @property
     def id(self):
         """The location id."""
+        if self.__function_name is None and self.__method_line is not None:
+            return "%s#%s#%s" % (self.path, self.__function_name, self.__method_line)
         return "%s#%s" % (self.path, self.__function_name)
 
     @property
@@ -530,7 +559,7 @@ class FunctionLocation(Location):
 
         For Method locations should be method name.
         """
-        return self.__function_name
+        return self.__function_name or self.__found_name
 
     def __str__(self):
         """Represent this as a string."""
@@ -547,6 +576,25 @@ class FunctionLocation(Location):
         return False
 
 
+OPTIONAL_CONFIG = [WINDOW_START, WINDOW_END]
+"""The arguments that change how an action behaves, which do not have to be set."""
+
+OPTIONAL_SNAPSHOT_CONFIG = OPTIONAL_CONFIG + [STAGE, 'MAX_STRING_LENGTH', 'MAX_COLLECTION_SIZE', 'MAX_VARIABLES',
+                                              'MAX_VAR_DEPTH', 'MAX_TP_PROCESS_TIME']
+"""The arguments that change how a snapshot behaves, which do not have to be set."""
+
+
+def optional_config(args: Dict[str, str], keys: List[str]) -> Dict[str, str]:
+    """
+    Get the optional arguments that are set on the tracepoint.
+
+    :param args: the tracepoint arguments
+    :param keys: the optional arguments
+    :return: the optional arguments that are set
+    """
+    return {key: args[key] for key in keys if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -568,6 +616,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
+        **optional_config(args, OPTIONAL_SNAPSHOT_CONFIG),
     }, LocationAction.ActionType.Snapshot)
 
 
@@ -589,6 +638,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_config(args, OPTIONAL_CONFIG),
     }, LocationAction.ActionType.Log)
 
 
@@ -609,6 +659,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_config(args, OPTIONAL_CONFIG),
     }, LocationAction.ActionType.Metric)
 
 
@@ -628,6 +679,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_config(args, OPTIONAL_CONFIG),
     }, LocationAction.ActionType.Span)
 
 
@@ -656,7 +708,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None), position, line_no)
     else:
         return None
 
@@ -668,4 +720,5 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     actions = [action for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
-    return Trigger(location, actions)
+    tracepoint = TracePointConfig(tp_id, path, line_no, dict(args), list(watches), metrics)
+    return Trigger(location, [action.with_tracepoint(tracepoint) for action in actions])
diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..9952cca 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -120,8 +121,15 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.error("Cannot process tracepoint %s, unknown location.", r.ID)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index efe0de1..eb614e5 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -63,20 +63,26 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
-        return self.location_action.config.get('MAX_TP_PROCESS_TIME', 100)
+        return self.__get_limit('MAX_TP_PROCESS_TIME', 100)
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
         """The variable processing config."""
         config = VariableProcessorConfig()
-        config.max_string_length = self.location_action.config.get('MAX_STRING_LENGTH',
-                                                                   config.DEFAULT_MAX_STRING_LENGTH)
-        config.max_collection_size = self.location_action.config.get('MAX_COLLECTION_SIZE',
-                                                                     config.DEFAULT_MAX_COLLECTION_SIZE)
-        config.max_variables = self.location_action.config.get('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
-        config.max_var_depth = self.location_action.config.get('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
+        config.max_string_length = self.__get_limit('MAX_STRING_LENGTH', config.DEFAULT_MAX_STRING_LENGTH)
+        config.max_collection_size = self.__get_limit('MAX_COLLECTION_SIZE', config.DEFAULT_MAX_COLLECTION_SIZE)
+        config.max_variables = self.__get_limit('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
+        config.max_var_depth = self.__get_limit('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
         return config
 
+    def __get_limit(self, name: str, default_value: int) -> int:
+        # the config can come from the tracepoint arguments, so can be text
+        try:
+            limit = int(self.location_action.config.get(name, default_value))
+            return limit if limit >= 0 else default_value
+        except (ValueError, TypeError, OverflowError):
+            return default_value
+
     @property
     def ts(self) -> int:
         """The timestamp in nanoseconds for this trigger."""
-- 
2.43.0


From ed565c710f360dabee12ac0ddcc8caed243263c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 17/26] fix: check and record a fire as one step, and keep the
 counts of unchanged tracepoints

---
 src/deep/api/tracepoint/tracepoint_config.py | 10 +++++++-
 src/deep/api/tracepoint/trigger.py           | 24 ++++++++++++++++----
 src/deep/config/tracepoint_config.py         | 13 +++++++++++
 src/deep/processor/context/action_context.py |  6 +++--
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/deep/api/tracepoint/tracepoint_config.py b/src/deep/api/tracepoint/tracepoint_config.py
index 1ea190c..923eaf0 100644
--- a/src/deep/api/tracepoint/tracepoint_config.py
+++ b/src/deep/api/tracepoint/tracepoint_config.py
@@ -15,6 +15,7 @@
 
 """Internal type for configured tracepoints."""
 
+import threading
 from typing import List, Optional
 
 from deep.api.tracepoint.constants import SINGLE_FRAME_TYPE, ALL_FRAME_TYPE, NO_FRAME_TYPE, FRAME_TYPE, STACK_TYPE, \
@@ -294,6 +295,8 @@ class TracepointExecutionStats:
         """Create a new stats object."""
         self._fire_count = 0
         self._last_fire = 0
+        # this is used while processing a trace event, so can be called (on the same thread) while we have the lock
+        self._lock = threading.RLock()
 
     def fire(self, ts: int):
         """
@@ -304,7 +307,7 @@ class TracepointExecutionStats:
         :param ts: the time in nanoseconds
         """
         self._fire_count += 1
-        self._last_fire = ts
+        self._last_fire = max(ts, self._last_fire)
 
     @property
     def fire_count(self):
@@ -315,6 +318,11 @@ class TracepointExecutionStats:
         """
         return self._fire_count
 
+    @property
+    def lock(self):
+        """The lock to use to check and update the stats."""
+        return self._lock
+
     @property
     def last_fire(self):
         """
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index ebbb14a..3a29949 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -179,21 +179,37 @@ class LocationAction(object):
         # Have we fired too quickly?
         last_fire = self.__stats.last_fire
         if last_fire != 0:
-            time_since_last = ts - last_fire
+            # the hits do not have to get here in order
+            time_since_last = max(0, ts - last_fire)
             if time_since_last < self.__fire_period_ns():
                 return False
 
         return True
 
-    def record_triggered(self, ts):
+    def record_triggered(self, ts) -> bool:
         """
         Record a fire.
 
-        Call this to record this tracepoint being triggered.
+        Call this to record this tracepoint being triggered. This has to be called before we perform the action, as many
+        threads can get to this point, but only the ones that can be recorded are allowed to trigger.
 
         :param ts: the time in nanoseconds
+        :return: True, if the tracepoint is triggered; False, if it was triggered by another thread and the config does
+                 not allow it to trigger again.
         """
-        self.__stats.fire(ts)
+        with self.__stats.lock:
+            if not self.can_trigger(ts):
+                return False
+            self.__stats.fire(ts)
+            return True
+
+    def continue_from(self, other: 'LocationAction'):
+        """
+        Continue to use the stats of another action, as this action is the new version of the same action.
+
+        :param other: the other action
+        """
+        self.__stats = other.__stats
 
     def __get_int(self, name: str, default_value: int):
         try:
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..8761727 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -80,11 +80,24 @@ class TracepointConfigService:
         """
         old_hash = self._current_hash
         old_config = self._tracepoint_config
+        self.__continue_actions(old_config, new_config)
         self._last_update = ts
         self._current_hash = new_hash
         self._tracepoint_config = new_config
         self.__trigger_update(old_hash, old_config)
 
+    @staticmethod
+    def __continue_actions(old_config: List['Trigger'], new_config: List['Trigger']):
+        # a tracepoint that is not changed is still installed, so it has to keep its fire counts etc.
+        old_actions = [(trigger, action) for trigger in old_config for action in trigger.actions]
+        for trigger in new_config:
+            for action in trigger.actions:
+                for old in old_actions:
+                    if trigger.id == old[0].id and action.action_type == old[1].action_type and action == old[1]:
+                        action.continue_from(old[1])
+                        old_actions = [other for other in old_actions if other is not old]
+                        break
+
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
         if self._task_handler is not None:
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 94c0377..6ac95b4 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -71,8 +71,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -119,6 +118,9 @@ class ActionContext(abc.ABC):
 
     def process(self):
         """Process the action."""
+        # another thread can have used the fire budget, since we checked
+        if self.location_action.record_triggered(self.trigger_context.ts) is False:
+            return None
         try:
             return self._process_action()
         finally:
-- 
2.43.0


From ce7623c6e8de356a826e6b733cfc5378632ae136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 18/26] fix: convert every value of a snapshot, and never drop
 a snapshot for one value

---
 src/deep/grpc/__init__.py | 46 ++++++++++++++++++++++++++++++++++-----
 src/deep/push/__init__.py | 37 +++++++++++++++----------------
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 9952cca..2b360f4 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -20,7 +20,7 @@ We do not use the protobuf types throughout the project as they do not autocompl
 have type definitions that work in IDE. It also makes it easier to deal with agent functionality by
 having local types we can modify.
 """
-from typing import List, Dict
+from typing import List, Dict, Optional
 
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue, ArrayValue, KeyValueList
@@ -35,6 +35,36 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+def convert_text(value) -> Optional[str]:
+    """
+    Convert a value to text that can be sent.
+
+    Python strings can contain values (lone surrogates) that cannot be encoded, so we have to escape these.
+
+    :param value: the value to convert
+    :return: the text, or None if there is no value
+    """
+    if value is None:
+        return None
+    return str(value).encode('utf-8', 'backslashreplace').decode('utf-8')
+
+
+def convert_attributes(attributes) -> List[KeyValue]:
+    """
+    Convert attributes, each on its own so one that cannot be converted does not affect the others.
+
+    :param attributes: the attributes to convert
+    :return: the converted attributes
+    """
+    converted = []
+    for k, v in attributes.items():
+        try:
+            converted.append(KeyValue(key=convert_text(k), value=convert_value(v)))
+        except Exception:
+            logging.exception("Cannot convert attribute %s", k)
+    return converted
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -46,8 +76,11 @@ def convert_value(value):
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not -2 ** 63 <= value < 2 ** 63:
+            # the wire only has 64 bits
+            return AnyValue(string_value=str(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -55,18 +88,19 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=convert_attributes(value))
 
 
 def __value_as_list(value):
-    return ArrayValue(values=[convert_value(val) for val in value])
+    # elements have to be set, so use an empty value for None
+    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])
 
 
 def convert_resource(resource):
@@ -81,7 +115,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=convert_attributes(attributes))
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..c39ca59 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -23,8 +23,6 @@ having local types we can modify.
 
 import logging
 
-# noinspection PyUnresolvedReferences
-from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, TracePointConfig, WatchResult, Variable, \
     VariableID, StackFrame, WatchSource
@@ -35,21 +33,22 @@ __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
-from ..grpc import convert_value
+from ..grpc import convert_attributes, convert_text
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=convert_text(tracepoint.id), path=convert_text(tracepoint.path), line_number=tracepoint.line_no,
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items() if v is not None},
+                            watches=[convert_text(w) for w in tracepoint.watches])
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=convert_text(frame.short_path),
+                      method_name=convert_text(frame.method_name), line_number=frame.line_number,
+                      class_name=convert_text(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
-                      transpiled_file_name=frame.transpiled_file_name,
+                      transpiled_file_name=convert_text(frame.transpiled_file_name),
                       transpiled_line_number=frame.transpiled_line_number,
                       transpiled_column_number=frame.transpiled_column_number,
                       )
@@ -60,20 +59,21 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=convert_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value),
+                    hash=convert_text(variable.hash),
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=convert_text(variable.vid), name=convert_text(variable.name), modifiers=variable.modifiers,
+                      original_name=convert_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
@@ -95,11 +95,10 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
-                        duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
-                                  snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        attributes=convert_attributes(snapshot.attributes),
+                        duration_nanos=max(0, snapshot.duration_nanos),
+                        resource=convert_attributes(snapshot.resource.attributes),
+                        log_msg=convert_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From fa428481f5c120d82536c69f9501617384d13cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 19/26] fix: always install the latest configuration, and
 remove exactly the registered tracepoint

---
 src/deep/api/deep.py                 |  1 +
 src/deep/config/tracepoint_config.py | 78 +++++++++++++++++++---------
 src/deep/poll/poll.py                |  4 +-
 3 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index a149a8e..e373e19 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -69,6 +69,7 @@ class Deep:
 
     def __start(self):
         self.task_handler.open()
+        self.config.tracepoints.refresh()
         self.config.plugins = load_plugins(self.config, self.config.PLUGINS)
         default_resource = Resource.create()
         for provider in self.config.resource_providers:
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 8761727..dbacabd 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -17,12 +17,14 @@
 
 import abc
 import logging
+import threading
 import uuid
-from typing import Dict, List, TYPE_CHECKING
+from typing import Dict, List, Tuple, TYPE_CHECKING
 
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
+from deep.task import IllegalStateException
 
 if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import Trigger
@@ -51,7 +53,10 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        # the lock is for the config, the update lock ensures that the listeners get the updates one at a time
+        self._lock = threading.RLock()
+        self._update_lock = threading.RLock()
+        self._custom: List[Tuple[str, 'Trigger']] = []
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
@@ -78,12 +83,13 @@ class TracepointConfigService:
         :param new_hash: the new config hash
         :param new_config: the new config values
         """
-        old_hash = self._current_hash
-        old_config = self._tracepoint_config
-        self.__continue_actions(old_config, new_config)
-        self._last_update = ts
-        self._current_hash = new_hash
-        self._tracepoint_config = new_config
+        with self._lock:
+            old_hash = self._current_hash
+            old_config = self._tracepoint_config
+            self.__continue_actions(old_config, new_config)
+            self._last_update = ts
+            self._current_hash = new_hash
+            self._tracepoint_config = new_config
         self.__trigger_update(old_hash, old_config)
 
     @staticmethod
@@ -101,8 +107,13 @@ class TracepointConfigService:
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
         if self._task_handler is not None:
-            future = self._task_handler.submit_task(self.update_listeners, self._last_update, old_hash,
-                                                    self._current_hash, old_config, self._tracepoint_config)
+            try:
+                future = self._task_handler.submit_task(self.update_listeners, self._last_update, old_hash,
+                                                        self._current_hash, old_config, self._tracepoint_config)
+            except IllegalStateException:
+                # we are shutdown, the config is updated if we start again
+                logging.debug("Cannot process new config %s, as we are shutdown.", ts)
+                return
             future.add_done_callback(lambda _: logging.debug("Completed processing new config %s", ts))
 
     def set_task_handler(self, task_handler):
@@ -126,12 +137,22 @@ class TracepointConfigService:
         :param old_config: the old config
         :param new_config: the new config
         """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        # the updates are processed by many threads, so can get here in any order. So always use the latest config.
+        with self._update_lock:
+            with self._lock:
+                ts = self._last_update
+                current_hash = self._current_hash
+                new_config = list(self._tracepoint_config) + [trigger for _, trigger in self._custom]
+            listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, current_hash, old_config, new_config)
+                except BaseException:
+                    logging.exception("Error updating listener %s", listeners)
+
+    def refresh(self):
+        """Update the listeners with the current config."""
+        self.__trigger_update(None, None)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
@@ -172,12 +193,18 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
-        """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
+        :return: the id of the new tracepoint
+        """
+        # a location can have many tracepoints, so it has to be the tracepoint id
+        tp_id = str(uuid.uuid4())
+        config = build_trigger(tp_id, path, line, args, watches, metrics)
+        if config is None:
+            logging.error("Cannot process tracepoint %s#%s, unknown location.", path, line)
+            return tp_id
+        with self._lock:
+            self._custom.append((tp_id, config))
         self.__trigger_update(None, None)
-        return config.id
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -185,8 +212,9 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
+        with self._lock:
+            remaining = [custom for custom in self._custom if custom[0] != _id]
+            if len(remaining) == len(self._custom):
                 return
+            self._custom = remaining
+        self.__trigger_update(None, None)
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 97b5146..b99705b 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -83,9 +83,11 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            logging.error("Unknown response from poll: %s", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
-- 
2.43.0


From 7ac519515963fdd81cc1f488ad3f9af768e5d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 20/26] fix: any valid process name can be used for the default
 service name

---
 src/deep/api/resource/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 3c41a08..737d45e 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -147,7 +147,7 @@ class Resource:
                 PROCESS_EXECUTABLE_NAME, None
             )
             if process_executable_name:
-                default_service_name += ":" + process_executable_name
+                default_service_name += ":" + str(process_executable_name)
             else:
                 default_service_name += ":python"
             resource = resource.merge(
-- 
2.43.0


From a57b88c0980d87c9bb61a32aba591022620268c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 21/26] fix: capture an exception that is raised again by the
 code that handles it

---
 .../processor/context/callback_context.py     | 22 +++++++++++++++++--
 src/deep/processor/trigger_handler.py         |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 4ecd23d..47b9aa4 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -15,6 +15,7 @@
 
 """Handling for action callbacks."""
 import dis
+import sys
 from types import FrameType
 from typing import List, Optional
 
@@ -52,7 +53,10 @@ class CallbackContext(Location, ActionCallback):
         self.__line = line
         self.__callbacks = callbacks
         self.__frame = frame
+        self.__captures_result = any(callback.captures_result for callback in callbacks)
         self.__last_exception = None
+        if self.__captures_result:
+            self.__remember_handled(frame)
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -112,10 +116,24 @@ class CallbackContext(Location, ActionCallback):
         :param frame: the frame that has the exception
         :param arg: the exception details
         """
-        if frame is self.__frame and not self.__is_iteration_end(frame) \
-                and any(callback.captures_result for callback in self.__callbacks):
+        if frame is self.__frame and self.__captures_result and not self.__is_iteration_end(frame):
             self.__last_exception = arg
 
+    def new_line(self, frame: FrameType):
+        """
+        Remember the exception that is handled by the line.
+
+        :param frame: the frame that is at a new line
+        """
+        if frame is self.__frame and self.__captures_result:
+            self.__remember_handled(frame)
+
+    def __remember_handled(self, frame: FrameType):
+        # python does not report an exception again when the code that handles it raises it again (e.g. after a finally)
+        handled = sys.exc_info()
+        if frame is not None and handled[1] is not None and self.__last_opcode(frame) != 'PUSH_EXC_INFO':
+            self.__last_exception = handled
+
     def __is_active(self, frame: FrameType) -> bool:
         while frame is not None:
             if frame is self.__frame:
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 32bb220..fb39153 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -233,6 +233,8 @@ class TriggerHandler:
         for context in reversed(list(callbacks)):
             if event == 'exception':
                 context.exception(frame, arg)
+            elif event == 'line':
+                context.new_line(frame)
             # if it is for our location process it
             if context.at_location(event, file, line, function_name, frame):
                 logging.debug("At callback location %s", context.name)
-- 
2.43.0


From 16162422bf6419203e0dd7a3d1d6c640ba7eaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 22/26] fix: keep tracing when a failure cannot even be logged
 (the stack is used up)

---
 src/deep/processor/trigger_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index fb39153..e4683df 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -148,7 +148,10 @@ class TriggerHandler:
             return self.__process_event(frame, event, arg)
         except BaseException:
             # anything raised from here is raised in the application, and makes python stop tracing the thread
-            self.__log_failure("Cannot process event %s", event)
+            try:
+                self.__log_failure("Cannot process event %s", event)
+            except BaseException:  # noqa: S110 there are no frames left to log with
+                pass
             return self.trace_call
 
     def __process_shutdown(self, frame: FrameType, event: str, arg):
-- 
2.43.0


From e43552850acb5652f0143aa85cd1c8776c589644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 23/26] fix: back the APP_ROOT default with the environment as
 any other setting

---
 src/deep/config/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index cf4dd28..e945c2f 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -40,7 +40,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
-- 
2.43.0


From 32ef15de676d0f4490f1018279f27be5ec7a97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 24/26] fix: metrics without a unit or help were not reported
 to opentelemetry

---
 src/deep/api/plugin/metric/otel_metrics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index 2981757..c4d2685 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -59,6 +59,8 @@ class OTelMetrics(MetricProcessor):
         :param unit: the metric unit
         :param value: the metric value
         """
+        # the unit and the help are optional, but have to be text for otel
+        unit, help_string = unit or '', help_string or ''
         try:
             with self.__lock:
                 counter: Counter
@@ -80,6 +82,8 @@ class OTelMetrics(MetricProcessor):
         :param unit: the metric unit
         :param value: the metric value
         """
+        # the unit and the help are optional, but have to be text for otel
+        unit, help_string = unit or '', help_string or ''
         try:
             with self.__lock:
                 gauge: UpDownCounter
@@ -101,6 +105,8 @@ class OTelMetrics(MetricProcessor):
         :param unit: the metric unit
         :param value: the metric value
         """
+        # the unit and the help are optional, but have to be text for otel
+        unit, help_string = unit or '', help_string or ''
         try:
             with self.__lock:
                 histogram: Histogram
@@ -122,6 +128,8 @@ class OTelMetrics(MetricProcessor):
         :param unit: the metric unit
         :param value: the metric value
         """
+        # the unit and the help are optional, but have to be text for otel
+        unit, help_string = unit or '', help_string or ''
         try:
             with self.__lock:
                 histogram: Histogram
-- 
2.43.0


From d5f50bcf50a6baf121e29df3b645d82de15bcb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 25/26] fix: a method tracepoint with the name of a line hides
 the tracepoints of that line

---
 src/deep/grpc/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 2b360f4..1404aba 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -20,7 +20,7 @@ We do not use the protobuf types throughout the project as they do not autocompl
 have type definitions that work in IDE. It also makes it easier to deal with agent functionality by
 having local types we can modify.
 """
-from typing import List, Dict, Optional
+from typing import List, Dict, Optional, Tuple
 
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue, ArrayValue, KeyValueList
@@ -152,7 +152,7 @@ def convert_response(response) -> List[Trigger]:
     :param response: the response from the poll request
     :return: a list of trigger locations with the appropriate actions
     """
-    all_triggers: Dict[str, Trigger] = {}
+    all_triggers: Dict[Tuple[str, int, str], Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
         try:
@@ -164,7 +164,8 @@ def convert_response(response) -> List[Trigger]:
         if trigger is None:
             logging.error("Cannot process tracepoint %s, unknown location.", r.ID)
             continue
-        location_id = trigger.id
+        # the id is not enough, as a method could have the name of a line (e.g. '12')
+        location_id = (trigger.path, trigger.line, trigger.id)
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
             all_triggers[location_id].merge_actions(trigger.actions)
-- 
2.43.0


From 1982a239ee1aa43dd3a14522017bd4cb8f966a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 26/26] fix: a plugin that cannot be asked for its shutdown
 stops the shutdown of the agent

---
 src/deep/api/deep.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index e373e19..8d36fff 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -15,6 +15,7 @@
 
 """The main services for Deep."""
 import threading
+from functools import partial
 from typing import Dict, List
 
 import deep.logging
@@ -93,13 +94,18 @@ class Deep:
             self.started = False
         # each step has to be done, even if another step fails
         steps = [self.trigger_handler.shutdown, self.poll.shutdown, self.task_handler.flush]
-        for step in steps + [plugin.shutdown for plugin in self.config.plugins]:
+        # look for the shutdown of a plugin when we get to it, as this can already fail
+        for step in steps + [partial(self.__shutdown_plugin, plugin) for plugin in self.config.plugins]:
             try:
                 step()
             except BaseException:
                 deep.logging.exception("Failed to shutdown: %s", step)
         deep.logging.info("Deep is shutdown.")
 
+    @staticmethod
+    def __shutdown_plugin(plugin):
+        plugin.shutdown()
+
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
                             metrics: List[MetricDefinition] = None) -> 'TracepointRegistration':
-- 
2.43.0

