From ac359a5b3f554dcf2df154905155d93b4428c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 01/60] fix: MemoryFallback forgets its resume position once it
 returned a result

---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..aebdbb4 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -287,6 +287,8 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    # The memory ends with a result
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +299,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 5025ef5a8f22b61ef1944a2d3bae5f30119bd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 02/60] fix: ThrottleSuccess compares the state of its child,
 not the Result around it

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..7664de0 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,11 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err():
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.RUNNING:
+                    return result
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From cb21900623022da1522c67537a2e3ee0f6259afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 03/60] fix: Node.shutdown shuts the children down even if its
 own shutdown failed

---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..0536c7d 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -681,7 +681,8 @@ class Node(abc.ABC):
                     action_name="shutdown()",
                 ):
                     case Err(e):
-                        return Err(e)
+                        # Still shut down the children before reporting the error
+                        error = error or e
                     case Ok(None):
                         pass
 
-- 
2.43.0


From b282859476c211743decde9d97c23c50ef506884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 04/60] fix: Parallel nodes treat an undeclared bound of a
 child as unknown, not as 0

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 44 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..d8e2b20 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -211,9 +211,10 @@ class Parallel(FlowControl):
 
         success_threshold = self._needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -223,7 +224,9 @@ class Parallel(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -244,9 +247,10 @@ class Parallel(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -256,7 +260,9 @@ class Parallel(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
@@ -444,9 +450,10 @@ class ParallelFailureTolerance(FlowControl):
 
         success_threshold = self._needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -456,7 +463,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -477,9 +486,10 @@ class ParallelFailureTolerance(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -489,7 +499,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
-- 
2.43.0


From 3dbab031accbce97f28e9eea66d38b135ddaf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 05/60] fix: ParallelFailureTolerance's failure costs follow
 the failures it tolerates

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index d8e2b20..14563e1 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -478,13 +478,13 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
+        # because of the semantics of ParallelFailureTolerance explained in the class
         # docstring
 
         # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        failure_threshold = 1 + self._tolerate_failures
 
         best_failure_group = sorted(
             child_bounds,
-- 
2.43.0


From be1e525ec9b3f758cc6a1f90e864a0db53e91b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 06/60] fix: stopping a tree that waits for a tick leaves the
 tree in the state the response names

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..2edf952 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1288,9 +1288,12 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
+                        self.publish_state()
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
-- 
2.43.0


From 827b42eb840e47004f668cf2db0c07baafd6c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 07/60] fix: the default of a static float lies within its
 maximum

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..8f39635 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -509,7 +509,7 @@ class NumericContainer(BuiltinContainer[NUM]):
             # Check boundaries and adjust automatic default
             if self.min_value > 0:
                 self._value = self.min_value
-            if self.max_value < 0:
+            if self.max_value < self._value:
                 self._value = self.max_value
 
     @typechecked
-- 
2.43.0


From c1589694e956849b927cb90e46189319c58b491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 08/60] fix: setting a locked GenericType reports the error
 instead of success

---
 ros_bt_py/ros_bt_py/data_types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 8f39635..ad9f203 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1141,8 +1141,7 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
             case Err(e):
                 return Err(e)
             case Ok(None):
-                super().set_value(value)
-                return Ok(None)
+                return super().set_value(value)
 
     def is_compatible(
         self, other: DataContainer
-- 
2.43.0


From 068890001bb063dad43a99e8dec007f96a60f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 09/60] fix: a string container is compatible with sources
 whose allowed values are among its own

The subset test was the wrong way round: a source with further allowed
values was accepted, one with fewer was refused.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index ad9f203..25bdccf 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -651,8 +651,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From d942eda31f092d71f36a46df2886c0dc28659703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 10/60] fix: the type of a nested list or dictionary is
 serialised outermost first

_dict_from_msg reads the nested types from the front, while serialize_type
appended the outer type at the end, so that a list of lists came back as a
list of its innermost type with the limits of the inner list.
---
 ros_bt_py/ros_bt_py/data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 25bdccf..629833e 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -815,10 +815,11 @@ class IterableContainer(BuiltinContainer[ITER]):
         inner_type_msg.allow_dynamic = type_msg.allow_dynamic
         inner_type_msg.allow_static = type_msg.allow_static
         inner_type_msg.is_static = type_msg.is_static
-        inner_type_msg.value_type_identifier.append(inner_type_msg.type_identifier)
+        # The outermost type comes first, matching :obj:`self._dict_from_msg`
+        inner_type_msg.value_type_identifier.insert(0, inner_type_msg.type_identifier)
         inner_type_msg.type_identifier = type_msg.type_identifier
-        inner_type_msg.iterable_max_length.append(self.max_length)
-        inner_type_msg.iterable_strict_length.append(self.strict_length)  # type: ignore
+        inner_type_msg.iterable_max_length.insert(0, self.max_length)
+        inner_type_msg.iterable_strict_length.insert(0, self.strict_length)  # type: ignore
         return inner_type_msg
 
     @abc.abstractmethod
-- 
2.43.0


From 54fca49802bf75db6b742e265d3447138e91eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 11/60] fix: whether the elements of a list are static or
 dynamic is ignored when types are compared

IterableContainer documents that these attributes of the element type are
ignored, but a difference in allow_static made two lists incompatible.
---
 ros_bt_py/ros_bt_py/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 629833e..d7c6982 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -754,8 +754,9 @@ class IterableContainer(BuiltinContainer[ITER]):
         if element_type is not None:
             self._element_type = element_type
 
-        # Force element_type to accept dynamic values
+        # Force element_type to accept dynamic values, its own attributes are ignored
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From d572551654a947a9e954b0670291d86b3c380676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 12/60] fix: serialising a DictType with values other than
 strings raised TypeCheckError

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index d7c6982..f2368bf 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -901,8 +901,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 58aa6deafb3f2752ecfffc530795df7b5a96d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 13/60] fix: array fields of messages could not be serialised
 (ListType accepts lists only)

---
 ros_bt_py/ros_bt_py/data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index f2368bf..0ff1f02 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -860,7 +860,10 @@ class ListType(IterableContainer[list[Any]]):
         return super().set_value(value)
 
     @typechecked
-    def _serialize_value(self, value: list[Any]) -> list[Any]:
+    def _serialize_value(self, value: Any) -> list[Any]:
+        # Array fields of ROS messages hold `array.array` or numpy arrays
+        if not isinstance(value, list):
+            value = value.tolist()
         serialized_list = []
         for item in value:
             serialized_list.append(self._element_type._serialize_value(item))
-- 
2.43.0


From b32de7cf2a1cbe6501dfca7c5e64aff5aadfff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 14/60] fix: deserialize_value raised on text that is not JSON,
 report an error instead

---
 ros_bt_py/ros_bt_py/data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0ff1f02..8552e4e 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -347,7 +347,10 @@ class DataContainer(Generic[ANY], abc.ABC):
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
         """
-        value = json.loads(ser_value)
+        try:
+            value = json.loads(ser_value)
+        except json.JSONDecodeError as e:
+            return Err(f"Serialized value {ser_value} is not valid JSON: {e}")
         return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
 
     @typechecked
-- 
2.43.0


From 7bcd13ad053fdd93ecd0fe54fd966bb2b9bc8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 15/60] fix: names of unknown ROS interfaces raised when
 deserialised, report an error instead

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 8552e4e..73e2b99 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1438,7 +1438,7 @@ class RosTypeContainer(TypeContainerMixin, RosContainer):
     def _deserialize_value(self, ser_value: str) -> Result[Any, str]:
         try:
             msg = rosidl_runtime_py.utilities.get_interface(ser_value)
-        except ValueError:
+        except (AttributeError, ImportError, ValueError):
             return Err(
                 f"Serialized value {ser_value} does not point to a valid ROS interface"
             )
-- 
2.43.0


From f1fed1fd821c8a89a6c37f17cf7cb66bcf9c1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 16/60] fix: malformed type dictionaries raised when
 deserialised or set, report an error instead

---
 ros_bt_py/ros_bt_py/data_types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 73e2b99..5a599d0 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -972,6 +972,8 @@ GENERIC_TYPE_MAP: dict[type, dict] = {
 
 
 def match_dict_to_valid_types(value: dict, valid_types: list) -> Result[None, str]:
+    if not isinstance(value, dict) or IDENTIFIER_KEY not in value.keys():
+        return Err(f"Value {value} doesn't include an identifier")
     for option in valid_types:
         option_value = GENERIC_TYPE_MAP[option]
         if option_value[IDENTIFIER_KEY] != value[IDENTIFIER_KEY]:
@@ -1170,7 +1172,10 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
         return serialize_type_map_value(value)
 
     def _deserialize_value(self, ser_value: dict) -> Result[dict, str]:
-        return Ok(deserialize_type_map_value(ser_value))
+        try:
+            return Ok(deserialize_type_map_value(ser_value))
+        except (KeyError, ValueError) as e:
+            return Err(f"Dict {ser_value} is not a valid type: {e!r}")
 
     @typechecked
     def get_value_field(self) -> Result[DataContainer, None]:
-- 
2.43.0


From 6c0a3a3f7b49ae09221c0718201f35331e98050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 17/60] fix: setting an equal value again dropped the update
 mark, so that changed data was not passed on

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5a599d0..73a51f2 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,8 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From bb73f37b4f0ad0b1ff8c8829a5a8b9cd3b0d94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 18/60] fix: unwire_data raised ValueError when a request named
 the same wiring twice

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..29b4b7b 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -979,7 +979,9 @@ class TreeEditManager(TreeExecManager):
             successful_unwirings.append(wiring)
 
         for wiring in successful_unwirings:
-            self.wirings.remove(wiring)
+            # The same wiring can be requested more than once
+            if wiring in self.wirings:
+                self.wirings.remove(wiring)
         response.success = True
         return response
 
-- 
2.43.0


From 36e7437f00084b6afeeefdf547c84e7a68b8b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 19/60] fix: refused AddNode requests left the new node in the
 tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 29b4b7b..d637dc0 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -138,6 +138,14 @@ class TreeEditManager(TreeExecManager):
         :param ros_bt_py_msgs.srv.AddNodeAtIndexRequest request:
             A request describing the node to add.
         """
+        match ros_to_uuid(request.parent_node_id):
+            case Err(e):
+                response.success = False
+                response.error_message = e
+                return response
+            case Ok(p_id):
+                parent_node_id = p_id
+
         node_msg = request.node
         node_msg.node_id = uuid_to_ros(uuid.uuid4())
         match self.instantiate_node_from_msg(
@@ -154,14 +162,6 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         response.node_id = node_msg.node_id
 
-        match ros_to_uuid(request.parent_node_id):
-            case Err(e):
-                response.success = False
-                response.error_message = e
-                return response
-            case Ok(p_id):
-                parent_node_id = p_id
-
         # Add node as child of the named parent, if any
         if parent_node_id != uuid.UUID(int=0):
             if parent_node_id not in self.nodes:
@@ -185,6 +185,14 @@ class TreeEditManager(TreeExecManager):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
+                    # Remove node from tree
+                    self.remove_node(
+                        request=RemoveNode.Request(
+                            node_id=uuid_to_ros(instance.node_id),
+                            remove_children=False,
+                        ),
+                        response=RemoveNode.Response(),
+                    )
                     return response
                 case Ok(_):
                     pass
@@ -214,6 +222,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
-- 
2.43.0


From f8b05ccf3e9a17e4ecbf3b120daece8e2cd8926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 20/60] fix: AddNode requests never found the children they
 name

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index d637dc0..505096a 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -200,8 +200,10 @@ class TreeEditManager(TreeExecManager):
         # Add children from msg to node
         missing_children = []
         for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
+            child = self.nodes.get(ros_to_uuid(child_id).unwrap_or(None))
+            # A node can't be the child of two parents
+            if child is not None and child.parent is None:
+                match instance.add_child(child):
                     case Err(e):
                         self.get_logger().warn(f"Could not add child: {str(e)}")
                         missing_children.append(child_id)
@@ -249,16 +251,7 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
-        if parent_node_id != uuid.UUID(int=0):
-            if parent_node_id not in self._children:
-                self._children[parent_node_id] = []
-            self._children[parent_node_id].append(instance.node_id)
-        if instance.node_id not in self._children:
-            self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
-
+        self._sync_children()
         return response
 
     @is_edit_service
-- 
2.43.0


From 15472e1d790bc4449d68a050fc45bf8383584d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 21/60] fix: morphing a node to a class with too few children
 damaged the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 505096a..894c46d 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -386,6 +386,19 @@ class TreeEditManager(TreeExecManager):
             case Ok(n):
                 new_node = n
 
+        if (
+            new_node.node_config.max_children is not None
+            and len(old_node.children) > new_node.node_config.max_children
+        ):
+            self.nodes[node_id] = old_node
+            response.success = False
+            response.error_message = (
+                f"Cannot morph node {old_node.name} with "
+                f"{len(old_node.children)} children, "
+                f"{new_node.name} supports {new_node.node_config.max_children}."
+            )
+            return response
+
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
             wirings=[
-- 
2.43.0


From 28b881069433d6183e0de6cc95fd6ad524b4fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 22/60] fix: a node could be moved below itself

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 894c46d..8d56d68 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -726,7 +726,8 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
-        descendants = set()
+        self._sync_children()
+        descendants = {node_id}
         pending = list(self._children.get(node_id, []))
         while pending:
             descendant_id = pending.pop()
-- 
2.43.0


From e087fa9552040a79f5496d45062590be8127932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 23/60] fix: children of a node without free places could not
 be reordered

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 8d56d68..989f870 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -712,7 +712,8 @@ class TreeEditManager(TreeExecManager):
         new_parent = self.nodes[parent_node_id]
 
         if (
-            new_parent.node_config.max_children is not None
+            new_parent is not node.parent
+            and new_parent.node_config.max_children is not None
             and len(new_parent.children) == new_parent.node_config.max_children
         ):
             response.success = False
-- 
2.43.0


From 1bfc31102d5fd4b313d9b30bf248ef93586053c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 24/60] fix: replacing a node by itself or a node above it
 destroyed the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 989f870..2e42030 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -815,6 +815,17 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        ancestor = old_node
+        while ancestor is not None:
+            if ancestor is new_node:
+                response.success = False
+                response.error_message = (
+                    f'Node "{old_node.name}" cannot be replaced by itself '
+                    "or a node above it."
+                )
+                return response
+            ancestor = ancestor.parent
+
         if (
             new_node.node_config.max_children is not None
             and len(old_node.children) > new_node.node_config.max_children
-- 
2.43.0


From 8b9a07cbffff5fd791011134198f42ba6a12798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 25/60] fix: replacing a node by one with children of its own
 could lose children

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 2e42030..02c35bd 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -828,7 +828,9 @@ class TreeEditManager(TreeExecManager):
 
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and len(new_node.children)
+            + len([child for child in old_node.children if child is not new_node])
+            > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
-- 
2.43.0


From b3207c1f5d1c330b0c009defb5a9686962873af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 26/60] fix: replacing a root by a node below it made a cycle

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 02c35bd..dc25534 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -889,6 +889,18 @@ class TreeEditManager(TreeExecManager):
                         old_node_child_index -= 1
                     break
 
+        # Detach the new node, it takes the place of the old one
+        if new_node.parent is not None:
+            match new_node.parent.remove_child(new_node.node_id):
+                case Err(e):
+                    response.success = False
+                    response.error_message = (
+                        f"Could not detach node {new_node.name}: {str(e)}"
+                    )
+                    return response
+                case Ok(_):
+                    pass
+
         # Move the children from old to new
         for child_id in [child.node_id for child in old_node.children]:
             match old_node.remove_child(child_id):
@@ -900,8 +912,6 @@ class TreeEditManager(TreeExecManager):
                     return response
                 case Ok(n):
                     child = n
-            if child_id == new_node.node_id:
-                continue
             match new_node.add_child(child):
                 case Err(e):
                     response.success = False
-- 
2.43.0


From 80589770f8d95a17626cd993706546d3a61034c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 27/60] fix: options with invalid values were dropped silently
 when a node was created from a message

---
 ros_bt_py/ros_bt_py/node.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 0536c7d..6f5bd9f 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1033,16 +1033,25 @@ class Node(abc.ABC):
             new_inputs[io_msg.key] = container
             if isinstance(container, ReferenceContainer):
                 reference_values[io_msg.key] = io_msg.serialized_value
-            elif container.is_static:
-                container.deserialize_value(io_msg.serialized_value)
+            # No value is serialized to an empty string
+            elif container.is_static and io_msg.serialized_value:
+                match container.deserialize_value(io_msg.serialized_value):
+                    case Err(e):
+                        return Err(NodeConfigError(f"Input {io_msg.key}: {e}"))
+                    case Ok(None):
+                        pass
         for key, value in reference_values.items():
             container = new_inputs[key]
             if not isinstance(container, ReferenceContainer):
                 # This should NEVER happen given how `reference_values` was built
                 continue
             container.set_type_map(new_inputs)
-            if container.is_static:
-                container.deserialize_value(value)
+            if container.is_static and value:
+                match container.deserialize_value(value):
+                    case Err(e):
+                        return Err(NodeConfigError(f"Input {key}: {e}"))
+                    case Ok(None):
+                        pass
 
         match ros_to_uuid(msg.node_id):
             case Err(e):
-- 
2.43.0


From 63fcb26e3530f597f7edd355aeff74f816146d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 28/60] fix: loading a tree with unknown, repeated or shared
 children raised or was accepted

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 2edf952..caa4e15 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -862,6 +862,10 @@ class TreeExecManager:
                     return response
                 case Ok(n):
                     self.nodes[n.node_id] = n
+        if len(self.nodes) != len(tree.nodes):
+            response.success = False
+            response.error_message = "The ids of the nodes are not unique"
+            return response
 
         for node in tree.nodes:
             # We just parsed all ids before, so we know them to be safe
@@ -874,6 +878,14 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if child_id not in self.nodes:
+                    response.success = False
+                    response.error_message = f"Child {c_id} does not exist in tree"
+                    return response
+                if self.nodes[child_id].parent is not None:
+                    response.success = False
+                    response.error_message = f"Node {c_id} has more than one parent"
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From 0356614e838445d1e60b0a971b58c526f7be4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 29/60] fix: reloading a tree lost its wirings and name

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index caa4e15..e03044d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -29,6 +29,7 @@
 from importlib import metadata
 import os
 import uuid
+from copy import deepcopy
 from functools import wraps
 from packaging.version import Version
 from threading import Thread, Lock, RLock
@@ -787,7 +788,7 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From 36108a2c9a5f3beefe454a351bdaff252c356d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 30/60] fix: deserialize_value raised on values of another
 type, report an error instead

---
 ros_bt_py/ros_bt_py/data_types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 73a51f2..62d0767 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -44,7 +44,7 @@ from typing import (
     TypeGuard,
     TypeVar,
 )
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 from ros_bt_py.helpers import INT_LIMITS, FLOAT_LIMITS, INT_FLOAT_MAX
 from ros_bt_py.ros_helpers import get_interface_name
@@ -351,7 +351,12 @@ class DataContainer(Generic[ANY], abc.ABC):
             value = json.loads(ser_value)
         except json.JSONDecodeError as e:
             return Err(f"Serialized value {ser_value} is not valid JSON: {e}")
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        try:
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except (TypeCheckError, TypeError, AttributeError) as e:
+            return Err(f"Serialized value {ser_value} is of the wrong type: {e}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
-- 
2.43.0


From b1fc9e5716bafd069f511a1312750d0b185aeb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 31/60] fix: AddNode responses did not name the node that was
 added

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index dc25534..7b30561 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -121,6 +121,7 @@ class TreeEditManager(TreeExecManager):
         )
 
         response.success = internal_response.success
+        response.node_id = internal_response.node_id
         response.error_message = internal_response.error_message
         return response
 
-- 
2.43.0


From b4a9eee9daa945165cf41d56a89301648f9d8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 32/60] fix: adding a node that makes a cycle could loop
 forever

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7b30561..6a94827 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -85,6 +85,9 @@ class TreeEditManager(TreeExecManager):
                 if current_node.node_id == starting_id:
                     nodes_in_cycles.extend(cycle_candidates)
                     break
+                if current_node.node_id in cycle_candidates[:-1]:
+                    # The parents lead into a cycle the starting node is not part of
+                    break
                 if current_node.node_id in safe_node_ids:
                     # We've already checked for cycles from the parent node, no
                     # need to do that again.
-- 
2.43.0


From f325bd6702aca13ae9110e573f098cc3d624facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 33/60] fix: tree files that contain no tree raised, report an
 error instead

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 31 +++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index e03044d..0981af5 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -31,7 +31,7 @@ import os
 import uuid
 from copy import deepcopy
 from functools import wraps
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 from threading import Thread, Lock, RLock
 from typing import Any, Callable, Dict, Optional, List, cast
 
@@ -129,15 +129,29 @@ def is_edit_service(func):
 def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
     response = MigrateTree.Response()
 
-    data = yaml.safe_load_all(tree_yaml)
+    try:
+        data = list(yaml.safe_load_all(tree_yaml))
+    except yaml.YAMLError as ex:
+        response.success = False
+        response.error_message = f"Encountered an error while parsing the tree yaml: {ex}"
+        return response
     read_data = False
     for datum in data:
         if datum is None:
             continue
         if not read_data:
-            if Version(datum.get("version", "0.0.0")) < Version(
-                metadata.version("ros_bt_py")
-            ):
+            if not isinstance(datum, dict):
+                response.success = False
+                response.error_message = "Tree YAML file does not contain a tree!"
+                return response
+            datum["version"] = str(datum.get("version", "0.0.0"))
+            try:
+                version = Version(datum["version"])
+            except InvalidVersion as ex:
+                response.success = False
+                response.error_message = f"Tree YAML file has no valid version: {ex}"
+                return response
+            if version < Version(metadata.version("ros_bt_py")):
                 match migrate_legacy_tree_structure(datum):
                     case Err(e):
                         response.success = False
@@ -148,7 +162,12 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
                     case Ok(d):
                         datum = d
             datum.pop("version")
-            rosidl_runtime_py.set_message_fields(response.tree, datum)
+            try:
+                rosidl_runtime_py.set_message_fields(response.tree, datum)
+            except (AssertionError, AttributeError, TypeError, ValueError) as ex:
+                response.success = False
+                response.error_message = f"Tree YAML file does not contain a tree: {ex}"
+                return response
             read_data = True
         else:
             response.success = False
-- 
2.43.0


From 85f268cbd2bdcb848103bf0973fc666f9c85f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 34/60] fix: loading a tree file without nodes, of an unknown
 package or with unreadable text hung or raised

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 40 +++++++++++++-----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0981af5..ec27567 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -43,7 +43,6 @@ import rclpy.node
 from rclpy.duration import Duration
 
 import yaml
-import yaml.scanner
 from typeguard import typechecked
 
 
@@ -191,7 +190,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -206,9 +205,14 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = f"Package {package_name} not found: {ex}"
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -223,24 +227,22 @@ def load_tree_from_file(
 
         # load tree file and parse yaml, then convert to Tree message
         try:
-            tree_file = open(file_path, "r")
-        except IOError as ex:
+            with open(file_path, "r") as tree_file:
+                tree_yaml = tree_file.read()
+        except (OSError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
-        with tree_file:
-            tree_yaml = tree_file.read()
-            try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
-                response.success = False
-                response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
-                )
-                return response
-            tree = response.tree
-            tree.path = request.tree.path
+        response = parse_tree_yaml(tree_yaml=tree_yaml)
+        if not response.success:
+            return response
+        tree = response.tree
+        if not tree.nodes:
+            response.success = False
+            response.error_message = f"The tree in file {file_path} has no nodes"
+            return response
+        tree.path = request.tree.path
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From 4963582423e3847c37cc2f2dfab02e552c133019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 35/60] fix: a negative tick frequency raised and left the tree
 ticking without a thread

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index ec27567..2305be7 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -466,7 +466,7 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            if not frequency > 0.0:
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From 0eababf86d4b41f0ae21a66718f2f3b4a0a8b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 36/60] fix: nodes with options that are not set are created
 from their message

---
 ros_bt_py/ros_bt_py/node.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 6f5bd9f..d2aa561 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1033,8 +1033,12 @@ class Node(abc.ABC):
             new_inputs[io_msg.key] = container
             if isinstance(container, ReferenceContainer):
                 reference_values[io_msg.key] = io_msg.serialized_value
-            # No value is serialized to an empty string
-            elif container.is_static and io_msg.serialized_value:
+            # Defaults of options that were not set need not be valid values
+            elif (
+                container.is_static
+                and io_msg.serialized_value
+                and io_msg.serialized_value != container.serialize_value()
+            ):
                 match container.deserialize_value(io_msg.serialized_value):
                     case Err(e):
                         return Err(NodeConfigError(f"Input {io_msg.key}: {e}"))
@@ -1046,7 +1050,11 @@ class Node(abc.ABC):
                 # This should NEVER happen given how `reference_values` was built
                 continue
             container.set_type_map(new_inputs)
-            if container.is_static and value:
+            if (
+                container.is_static
+                and value
+                and value != container.serialize_value()
+            ):
                 match container.deserialize_value(value):
                     case Err(e):
                         return Err(NodeConfigError(f"Input {key}: {e}"))
-- 
2.43.0


From 287c3336fec7252e9e62537daaa5059c7e1530f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 37/60] fix: nodes with an empty or relative module name
 raised, report an error instead

---
 ros_bt_py/ros_bt_py/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index d2aa561..17ce0bb 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1306,8 +1306,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
-        rclpy.logging.get_logger(package_name).error(
+    except (ImportError, TypeError, ValueError) as exc:
+        rclpy.logging.get_logger(package_name or __name__).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
         )
-- 
2.43.0


From 01b7692e2e3a8e6d263b5013984a46ae837b1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:24 +0000
Subject: [PATCH 38/60] fix: shutting down a topic publisher that was never set
 up raised

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..1a8d007 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -552,9 +552,10 @@ class TopicPublisher(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._publisher is None:
+        publisher = getattr(self, "_publisher", None)
+        if publisher is None:
             return Ok(BTNodeState.IDLE)
-        if not self.ros_node.destroy_publisher(self._publisher):
+        if not self.ros_node.destroy_publisher(publisher):
             error_msg = "Failed to destroy publisher"
             self.logwarn(error_msg)
             return Err(BehaviorTreeException(error_msg))
-- 
2.43.0


From 1f2d82bc4d6c1a81561a096d463c13fd61a2b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 39/60] fix: shutting down a WaitForService that was never set
 up raised

---
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..8075259 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,8 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
-- 
2.43.0


From 347d1052c6766d6a11134e927b3cf31e3ffe9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 40/60] fix: the feedback outputs of actions had the fields of
 the result

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From 009a2810c5ca6f6128426b075a3945b53740d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 41/60] fix: a goal that the action server rejected was
 reported as succeeded

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..6ca378c 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -288,8 +288,12 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
                 self.logwarn("Action goal was rejeced by the server!")
+                self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
-- 
2.43.0


From 19d9f5c1ddba45fd55f748c0b8b1a6083efa6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 42/60] fix: aborted and canceled goals were reported as
 succeeded

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 6ca378c..3e5b71a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,7 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
-from rclpy.action.client import ActionClient
+from rclpy.action.client import ActionClient, GoalStatus
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
 
@@ -180,6 +180,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status != GoalStatus.STATUS_SUCCEEDED:
+                self.logwarn(f"Action ended with status {result.status}!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
-- 
2.43.0


From f984b31b8bd80cbf16e4e707377ef0e4a8ea190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 43/60] fix: the goal of an action node was not sent again
 after an untick

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 3e5b71a..4dcc446 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -325,7 +325,7 @@ class ActionBase(Leaf):
             case Ok(b):
                 updated = b
         # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        if updated or self._internal_state == ActionStates.IDLE:
             match self.get_goal():
                 case Err(e):
                     return Err(e)
-- 
2.43.0


From fba43c3a7789e5a9ac08d936a246773af2867dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 44/60] fix: changed inputs while an action goal waits for its
 acceptance were an error

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 4dcc446..efd2292 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -302,6 +302,10 @@ class ActionBase(Leaf):
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
+            if self._input_goal is not None:
+                # The inputs changed while waiting, this goal is not needed anymore
+                return self._do_tick_cancel_running_goal()
+
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
@@ -334,6 +338,7 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
-- 
2.43.0


From fa88433ac01fa9bbac5f3899b156815622fd847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 45/60] fix: a goal that timed out was not cancelled if the
 action node was unticked

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index efd2292..bb41ac5 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -392,7 +392,10 @@ class ActionBase(Leaf):
             return Ok(BTNodeState.RUNNING)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
-- 
2.43.0


From 91b1894bb0281b3f619b5d405883b9a6acbb0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 46/60] fix: a goal that waits for its acceptance was not
 cancelled by an untick

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index bb41ac5..21f9689 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -35,6 +35,7 @@ from ros_bt_py.vendor.result import Result, Ok, Err
 
 from rclpy.action.client import ActionClient, GoalStatus
 from rclpy.callback_groups import ReentrantCallbackGroup
+from rclpy.task import Future
 from rclpy.time import Time
 
 from ros_bt_py.data_types import (
@@ -391,6 +392,20 @@ class ActionBase(Leaf):
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
+    def _cancel_once_accepted(self, goal_request_future: Future) -> None:
+        """Give up a goal the server did not answer yet, together with its client."""
+        action_client = self._action_client
+        self._action_client = None
+
+        def cancel_goal(future: Future) -> None:
+            goal_handle = None if future.cancelled() else future.result()
+            if goal_handle is not None and goal_handle.accepted:
+                goal_handle.cancel_goal_async()
+            if action_client is not None:
+                action_client.destroy()
+
+        goal_request_future.add_done_callback(cancel_goal)
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if self._internal_state in [
             ActionStates.WAITING_FOR_ACTION_COMPLETE,
@@ -399,6 +414,9 @@ class ActionBase(Leaf):
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
+        elif self._new_goal_request_future is not None:
+            self._cancel_once_accepted(self._new_goal_request_future)
+            self._new_goal_request_future = None
 
         self._last_goal_time = None
         self._running_goal_future = None
-- 
2.43.0


From adbd6ce5d6bb25f62bd53644a06102edead1e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 47/60] fix: shutting down an action node that was never set up
 raised

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 21f9689..0dff03a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -89,7 +89,8 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
+    _new_goal_request_future: Optional[Future] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
-- 
2.43.0


From 24af0d85e23cdaa3c472656c5ccbe7a6959ccd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 48/60] fix: an action node that was unticked sent its goal to
 the previous action name

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0dff03a..8231c13 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -345,12 +345,21 @@ class ActionBase(Leaf):
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
+        match self.inputs.get_value_as("action_name", str):
+            case Err(e):
+                return Err(e)
+            case Ok(s):
+                action_name = s
+        if (
+            self._action_client is not None
+            and self._internal_state == ActionStates.IDLE
+            and self._client_action_name != action_name
+        ):
+            self._action_client.destroy()
+            self._action_client = None
+
         if self._action_client is None:
-            match self.inputs.get_value_as("action_name", str):
-                case Err(e):
-                    return Err(e)
-                case Ok(s):
-                    action_name = s
+            self._client_action_name = action_name
             self._action_client = ActionClient(
                 node=self.ros_node,
                 action_type=self._action_type,
-- 
2.43.0


From 797f4f3e7b47f5c4714d7818b4c197ea1b09b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 49/60] fix: Convert could never be set up

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..2bb3b38 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -45,6 +47,15 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+@typechecked
+def get_builtin_type(type_dict: dict) -> Result[type, BehaviorTreeException]:
+    """Return the builtin type that is described by a value of :obj:`GenericType`."""
+    for builtin_type, template in GENERIC_TYPE_MAP.items():
+        if template[IDENTIFIER_KEY] == type_dict.get(IDENTIFIER_KEY):
+            return Ok(builtin_type)
+    return Err(BehaviorTreeException(f"No builtin type matches {type_dict}"))
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -91,17 +102,17 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for i_dict in self.inputs.get_value_as("input_type", dict)
+            for i in get_builtin_type(i_dict)
+            for o_dict in self.inputs.get_value_as("output_type", dict)
+            for o in get_builtin_type(o_dict)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 53216508c9aed2debccafc8b477c952a6da4de06 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 50/60] fix: SetAttr read an input that does not exist

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..8e6e063 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -110,7 +110,7 @@ class SetAttr(Leaf):
                 Ok(set_and_return(o, n, v))
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+                for v in self.inputs.get_value("attr_value")
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From ce1ca96f8ad60258ee824213399ac74cf4748ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 51/60] fix: SetAttr raised when the attribute cannot be set

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 8e6e063..114288a 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -27,7 +27,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 
-from ros_bt_py.vendor.result import Result, Ok, do
+from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
     GenericType,
@@ -101,16 +101,20 @@ class SetAttr(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        def set_and_return(obj, attr, val):
-            rsetattr(obj, attr, val)
-            return obj
+        def set_and_return(obj, attr, val) -> Result[object, BehaviorTreeException]:
+            try:
+                rsetattr(obj, attr, val)
+            except (AttributeError, AssertionError, TypeError, ValueError) as e:
+                return Err(BehaviorTreeException(f"Cannot set {attr} to {val}: {e}"))
+            return Ok(obj)
 
         return (
             do(
-                Ok(set_and_return(o, n, v))
+                Ok(new_object)
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
                 for v in self.inputs.get_value("attr_value")
+                for new_object in set_and_return(o, n, v)
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 038607d1f6117f8509ead23231fb3f7a93c1e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 52/60] fix: format strings ignored the conversions !s, !r and
 !a

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..144476a 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 83a019231b4c9db65e95bf8fb2b5451710b57d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 53/60] fix: FormatStringList always failed

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 144476a..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -189,7 +189,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From 8d9934d47811bb3e0d663dfe35f7a895d221d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 54/60] fix: operations and conversions raised where they are
 not defined

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 2bb3b38..58d2780 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -133,7 +133,7 @@ class Convert(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             self.inputs.get_value_as("in", self.in_type)
-            .map(lambda val: self.conversion(val))
+            .and_then(lambda val: compute(self.conversion, val))
             .and_then(lambda val: self.outputs.set_value("out", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
         )
@@ -148,6 +148,19 @@ class Convert(Leaf):
         return Ok(BTNodeState.IDLE)
 
 
+@typechecked
+def compute(
+    function: Callable[..., Any], *operands: Any
+) -> Result[Any, BehaviorTreeException]:
+    """Apply `function`, with an error where it is not defined for the operands."""
+    try:
+        return Ok(function(*operands))
+    except (ArithmeticError, ValueError, TypeError, MemoryError) as e:
+        return Err(
+            BehaviorTreeException(f"Cannot compute a result for {operands}: {e}")
+        )
+
+
 BINARY_OPERATIONS = {
     "add": operator.add,
     "+": operator.add,
@@ -217,10 +230,11 @@ class Operation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(BINARY_OPERATIONS[s](a, b))
+                Ok(result)
                 for s in self.inputs.get_value_as("operator", str)
                 for a in self.inputs.get_value("a")
                 for b in self.inputs.get_value("b")
+                for result in compute(BINARY_OPERATIONS[s], a, b)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
@@ -317,9 +331,10 @@ class UnaryOperation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(UNARY_OPERATIONS[s](i))
+                Ok(result)
                 for s in self.inputs.get_value_as("operator", str)
                 for i in self.inputs.get_value("in")
+                for result in compute(UNARY_OPERATIONS[s], i)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 421eea407c1dca37171c113da02eb6fefd1e6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 55/60] fix: the YAML nodes raised for unknown packages and
 unreadable files

---
 ros_bt_py/ros_bt_py/nodes/file.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..fd08c4b 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (LookupError, ValueError) as ex:
+            raise LoadFileError(f'Cannot find package "{package_name}": {str(ex)}')
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,13 +76,13 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except (yaml.YAMLError, ValueError) as ex:
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From f77fca0b8e02e6f83c46d272c4fc68f2ddedfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 56/60] fix: EnumFields refused every message that has
 constants

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From bc5eb36fbf3143919833513181c1b7598779734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 57/60] fix: an output value of a wrong type raised instead of
 being an error

---
 ros_bt_py/ros_bt_py/node_config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 22c859d..bc19b72 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -29,7 +29,7 @@
 from copy import deepcopy
 from typing import Any, Optional, TypeVar
 
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 import itertools
 
@@ -112,7 +112,12 @@ class NodeOutputMap(NodeDataMap):
                 return Err(e)
             case Ok(c):
                 container = c
-        match container.set_value(value):
+        try:
+            result = container.set_value(value)
+        except (TypeError, OverflowError, TypeCheckError) as e:
+            # The type of the value itself is already wrong
+            result = Err(str(e))
+        match result:
             case Err(s):
                 return Err(
                     NodeConfigError(
-- 
2.43.0


From 5e48c532862ebc291d64283f0519806a01144931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 58/60] fix: saving a tree could leave the storage directory

---
 ros_bt_py/ros_bt_py/package_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..bb5333a 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -157,6 +157,14 @@ class PackageManager(object):
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
+            # The request must not leave the storage directory
+            storage_directory = os.path.join(os.path.abspath(request.storage_path), "")
+            if not split_save_filepath.startswith(storage_directory):
+                response.success = False
+                response.error_message = "File path is not inside the storage directory"
+                response.file_path = split_save_filepath
+                return response
+
             try:
                 os.makedirs(path)
             except OSError:
-- 
2.43.0


From 77ddf232ebdf5d0b341272fb4b97183b1288c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 59/60] fix: a tree that cannot be written truncated the file,
 and odd names raised

---
 ros_bt_py/ros_bt_py/package_manager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index bb5333a..66d5f28 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -199,17 +199,20 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
+            # Serialize first, so that a failure does not truncate an existing file
+            content = f"version: {metadata.version('ros_bt_py')}\n"
+            content += rosidl_runtime_py.message_to_yaml(request.tree)
             with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+                save_file.write(content)
             response.file_path = split_save_filepath
             response.success = True
             return response
 
-        except IOError:
+        except (IOError, ValueError) as exc:
             response.success = False
-            response.error_message = f'IOError on file: "{request.filepath}"'
+            response.error_message = (
+                f'{type(exc).__name__} on file: "{request.filepath}"'
+            )
 
         return response
 
-- 
2.43.0


From 6fec813bf780c221f124733670ce3500b5f570cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 60/60] fix: increment_name dropped a trailing line break

---
 ros_bt_py/ros_bt_py/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 17ce0bb..5e3ad90 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1321,7 +1321,7 @@ def increment_name(name: str) -> str:
 
     Otherwise, increase the number after the underscore.
     """
-    match = re.search("_([0-9]+)$", name)
+    match = re.search(r"_([0-9]+)\Z", name)
     prev_number = 1
     if match:
         prev_number = int(match.group(1))
-- 
2.43.0

