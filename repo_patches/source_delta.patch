From cde2f138a98fca8a6c0f8158f3d75b62999fd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 01/78] fix: MemoryFallback starts at its first child again
 after a result, even if unticked in between

---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..f504448 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -287,6 +287,7 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +298,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 4dcade5b61b60f330cbe48097281ae2bd26ce0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 02/78] fix: NameSwitch and EnumSwitch halt their running child
 when no child is selected

---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 3 ++-
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index f504448..546cdb1 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,7 +63,8 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
-            return Ok(BTNodeState.FAILED)
+            # None of the children is selected, so none may keep running
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
         if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..7a6d668 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -123,13 +123,14 @@ class EnumSwitch(FlowControl):
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
-            return Ok(BTNodeState.FAILED)
+            # None of the children is selected, so none may keep running
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
-            return Ok(BTNodeState.FAILED)
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
         if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
-- 
2.43.0


From ed7b452435378726227c44d7ba2ebfd2530b6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 03/78] fix: EnumSwitch selects a child named after any of
 several constants with the same value

---
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 7a6d668..fd46eaa 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -97,11 +97,14 @@ class EnumSwitch(FlowControl):
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         # Create possible child dict
         self.msg = self._message_class()
-        self.pchild_dict = {
-            getattr(self.msg, entry): entry for entry in self.possible_children
-        }
-
         self.child_map = {child.name.split(".")[-1]: child for child in self.children}
+        self.pchild_dict = {}
+        for entry in self.possible_children:
+            # Several constants may share a value, prefer those with a child
+            value = getattr(self.msg, entry)
+            if value not in self.pchild_dict or entry in self.child_map:
+                self.pchild_dict[value] = entry
+
         for child in self.children:
             if child.name.split(".")[-1] not in self.possible_children:
                 self.logerr("Unwanted child detected please fix name")
-- 
2.43.0


From e38dc04b70ac0cac839c951f5f712e5da003de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 04/78] fix: SetAttr reads its attr_value input and fails on
 attributes it cannot set

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..b40fe7d 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -105,16 +105,21 @@ class SetAttr(Leaf):
             rsetattr(obj, attr, val)
             return obj
 
-        return (
-            do(
-                Ok(set_and_return(o, n, v))
-                for o in self.inputs.get_value("object")
-                for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+        try:
+            return (
+                do(
+                    Ok(set_and_return(o, n, v))
+                    for o in self.inputs.get_value("object")
+                    for n in self.inputs.get_value_as("attr_name", str)
+                    for v in self.inputs.get_value("attr_value")
+                )
+                .and_then(lambda val: self.outputs.set_value("new_object", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("new_object", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (AttributeError, AssertionError) as e:
+            # The object has no such attribute or it doesn't accept the given value
+            self.logwarn(str(e))
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
-- 
2.43.0


From a064671f3b19803bf2088cf1f3fb1325774eb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 05/78] fix: FormatStringList accepts its list of format
 strings

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..43ba89b 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -192,7 +192,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From 8ea4466a13bfa755f402711411b456f0dcf3dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 06/78] fix: format conversions !s, !r and !a are applied

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 43ba89b..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 18025a07d6728cdc4888c8fe8ccb4e4d2614cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 07/78] fix: EnumFields checks the type of a constant rather
 than its name

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From 24b7cdd28d3d28574d272ef601f0ed931197a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 08/78] fix: Action declares its feedback outputs from the
 feedback type

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From 230bf650d916a0ce399f0010ba4652547fc49aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 09/78] fix: Convert finds its types in the type inputs

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..b0e5fc6 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -45,6 +47,15 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+@typechecked
+def get_builtin_type(type_value: dict) -> Result[type, BehaviorTreeException]:
+    """Find the builtin type that is described by the value of a generic type input."""
+    for type_, template in GENERIC_TYPE_MAP.items():
+        if template[IDENTIFIER_KEY] == type_value[IDENTIFIER_KEY]:
+            return Ok(type_)
+    return Err(BehaviorTreeException(f"Unknown type {type_value}"))
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -91,17 +102,17 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for in_dict in self.inputs.get_value_as("input_type", dict)
+            for i in get_builtin_type(in_dict)
+            for out_dict in self.inputs.get_value_as("output_type", dict)
+            for o in get_builtin_type(out_dict)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 117352ea18b53410a2339cfe559e86feca021a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 10/78] fix: undefined arithmetic makes a maths node fail
 instead of raising an exception

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 58 ++++++++++++++++++------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index b0e5fc6..13fb3b4 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -131,12 +131,16 @@ class Convert(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        return (
-            self.inputs.get_value_as("in", self.in_type)
-            .map(lambda val: self.conversion(val))
-            .and_then(lambda val: self.outputs.set_value("out", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        try:
+            return (
+                self.inputs.get_value_as("in", self.in_type)
+                .map(lambda val: self.conversion(val))
+                .and_then(lambda val: self.outputs.set_value("out", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
+            )
+        except (ArithmeticError, ValueError) as e:
+            self.logwarn(f"Value cannot be converted: {e}")
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
@@ -215,16 +219,20 @@ class Operation(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        return (
-            do(
-                Ok(BINARY_OPERATIONS[s](a, b))
-                for s in self.inputs.get_value_as("operator", str)
-                for a in self.inputs.get_value("a")
-                for b in self.inputs.get_value("b")
+        try:
+            return (
+                do(
+                    Ok(BINARY_OPERATIONS[s](a, b))
+                    for s in self.inputs.get_value_as("operator", str)
+                    for a in self.inputs.get_value("a")
+                    for b in self.inputs.get_value("b")
+                )
+                .and_then(lambda val: self.outputs.set_value("result", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("result", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (ArithmeticError, ValueError, TypeError) as e:
+            self.logwarn(f"Operation is not defined for the given values: {e}")
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
@@ -315,15 +323,19 @@ class UnaryOperation(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        return (
-            do(
-                Ok(UNARY_OPERATIONS[s](i))
-                for s in self.inputs.get_value_as("operator", str)
-                for i in self.inputs.get_value("in")
+        try:
+            return (
+                do(
+                    Ok(UNARY_OPERATIONS[s](i))
+                    for s in self.inputs.get_value_as("operator", str)
+                    for i in self.inputs.get_value("in")
+                )
+                .and_then(lambda val: self.outputs.set_value("result", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("result", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (ArithmeticError, ValueError, TypeError) as e:
+            self.logwarn(f"Operation is not defined for the given value: {e}")
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
-- 
2.43.0


From 1fe7f25bc0fa60d6f011c4c3c1a8deca4efeb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 11/78] fix: refuse unusable tree files instead of looping or
 raising

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 49 +++++++++++++++---------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..817ae6d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -171,7 +171,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -186,9 +186,16 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = (
+                    f"Could not find package {package_name}: {str(ex)}"
+                )
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -203,24 +210,30 @@ def load_tree_from_file(
 
         # load tree file and parse yaml, then convert to Tree message
         try:
-            tree_file = open(file_path, "r")
-        except IOError as ex:
+            with open(file_path, "r") as tree_file:
+                tree_yaml = tree_file.read()
+        except (OSError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
-        with tree_file:
-            tree_yaml = tree_file.read()
-            try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
-                response.success = False
-                response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
-                )
-                return response
-            tree = response.tree
-            tree.path = request.tree.path
+        try:
+            response = parse_tree_yaml(tree_yaml=tree_yaml)
+        except (yaml.YAMLError, AttributeError, TypeError, ValueError) as ex:
+            response.success = False
+            response.error_message = (
+                f"Encountered a {type(ex).__name__} while parsing the tree yaml: "
+                f"{str(ex)}"
+            )
+            return response
+        if not response.success:
+            return response
+        tree = response.tree
+        tree.path = request.tree.path
+        if not tree.nodes:
+            response.success = False
+            response.error_message = f"Tree file {file_path} contains no nodes"
+            return response
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From e73c21268f581a488571146183519fa59707effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 12/78] fix: shut down every child even if a node's own
 shutdown fails, and do not shut down what was never set up

---
 ros_bt_py/ros_bt_py/node.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..bf9a4a7 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -668,22 +668,23 @@ class Node(abc.ABC):
         with report_state:
             error = None
 
-            if self.state != BTNodeState.SHUTDOWN:
+            if self.state == BTNodeState.UNINITIALIZED:
+                self.state = BTNodeState.SHUTDOWN
+            elif self.state != BTNodeState.SHUTDOWN:
                 match self._do_shutdown():
                     case Err(e):
                         self.state = BTNodeState.BROKEN
                         error = e
                     case Ok(s):
                         self.state = s
-
-                match self.check_if_in_invalid_state(
-                    allowed_states=[BTNodeState.SHUTDOWN],
-                    action_name="shutdown()",
-                ):
-                    case Err(e):
-                        return Err(e)
-                    case Ok(None):
-                        pass
+                        match self.check_if_in_invalid_state(
+                            allowed_states=[BTNodeState.SHUTDOWN],
+                            action_name="shutdown()",
+                        ):
+                            case Err(e):
+                                error = e
+                            case Ok(None):
+                                pass
 
             for child in self.children:
                 match child.shutdown():
-- 
2.43.0


From 0884d1baef9516721741e0c116c8ad641c297821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 13/78] fix: an unread update of a data container survives
 setting the same value again

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..5d4838d 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,8 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From 1191ee9f7706b79c8ab82a86e30fb4a56ae369a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 14/78] fix: an Action node reports rejected and unsuccessful
 goals as FAILED

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..a4b0951 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -180,6 +181,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status != GoalStatus.STATUS_SUCCEEDED:
+                self.logwarn(f"Action ended with status {result.status}!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
@@ -288,7 +294,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
+                self._running_goal_handle = None
                 self.logwarn("Action goal was rejeced by the server!")
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
-- 
2.43.0


From bd7d6a9df1e19b9970c8da7da710c67ba07aca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 15/78] fix: an Action node sends its current goal again after
 untick, to the action named at that time

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 34 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index a4b0951..b731bbf 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -88,6 +88,7 @@ class ActionBase(Leaf):
 
     _action_type: type
     _action_client: Optional[ActionClient] = None
+    _action_client_name: Optional[str] = None
     _feedback = None
     _internal_state: ActionStates
 
@@ -153,6 +154,7 @@ class ActionBase(Leaf):
         self._cancel_goal_future = None
 
         self._action_client = None
+        self._input_goal = None
 
         self._last_goal_time: Optional[Time] = None
 
@@ -326,7 +328,7 @@ class ActionBase(Leaf):
             case Ok(b):
                 updated = b
         # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        if updated or self._internal_state == ActionStates.IDLE:
             match self.get_goal():
                 case Err(e):
                     return Err(e)
@@ -339,18 +341,25 @@ class ActionBase(Leaf):
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
+        match self.inputs.get_value_as("action_name", str):
+            case Err(e):
+                return Err(e)
+            case Ok(s):
+                action_name = s
+        if (
+            self._internal_state == ActionStates.IDLE
+            and self._action_client_name != action_name
+        ):
+            self._destroy_action_client()
+
         if self._action_client is None:
-            match self.inputs.get_value_as("action_name", str):
-                case Err(e):
-                    return Err(e)
-                case Ok(s):
-                    action_name = s
             self._action_client = ActionClient(
                 node=self.ros_node,
                 action_type=self._action_type,
                 action_name=action_name,
                 callback_group=ReentrantCallbackGroup(),
             )
+            self._action_client_name = action_name
 
         # TODO Maybe this should have a fallthrough in case of fast-responsing servers?
 
@@ -380,13 +389,16 @@ class ActionBase(Leaf):
         if self._input_goal is None:
             return Ok(self.state)
         else:
-            if self._action_client is not None:
-                self._action_client.destroy()
-                self._action_client = None
+            self._destroy_action_client()
 
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
+    def _destroy_action_client(self) -> None:
+        if self._action_client is not None:
+            self._action_client.destroy()
+            self._action_client = None
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
             cancel_result = self._do_tick_cancel_running_goal()
@@ -408,9 +420,7 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(_):
                 pass
-        if self._action_client is not None:
-            self._action_client.destroy()
-            self._action_client = None
+        self._destroy_action_client()
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 459cd127743a4fc43e0544b2457efedb3faa67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 16/78] fix: an Action node cancels a goal that is replaced or
 halted before the server accepted it or while it is to be canceled

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 40 +++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index b731bbf..f5208c0 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -149,6 +149,7 @@ class ActionBase(Leaf):
         self._internal_state = ActionStates.IDLE
 
         self._new_goal_request_future = None
+        self._abandoned_goal_request_future = None
         self._running_goal_handle = None
         self._running_goal_future = None
         self._cancel_goal_future = None
@@ -303,9 +304,16 @@ class ActionBase(Leaf):
                 self._running_goal_handle = None
                 self.logwarn("Action goal was rejeced by the server!")
                 self._internal_state = ActionStates.FINISHED
+                if self._input_goal is not None:
+                    return Ok(BTNodeState.RUNNING)
                 return Ok(BTNodeState.FAILED)
 
             self._running_goal_start_time = self.ros_node.get_clock().now()
+            if self._input_goal is not None:
+                # A different goal was requested in the meantime
+                self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
+                return Ok(BTNodeState.RUNNING)
+
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
             self._internal_state = ActionStates.WAITING_FOR_ACTION_COMPLETE
@@ -337,6 +345,7 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
@@ -396,11 +405,38 @@ class ActionBase(Leaf):
 
     def _destroy_action_client(self) -> None:
         if self._action_client is not None:
-            self._action_client.destroy()
+            client = self._action_client
             self._action_client = None
+            if self._abandoned_goal_request_future is None:
+                client.destroy()
+            else:
+                # The client is needed to cancel a goal that is yet to be accepted
+                self._abandoned_goal_request_future.add_done_callback(
+                    lambda _: client.destroy()
+                )
+                self._abandoned_goal_request_future = None
+
+    def _cancel_goal_once_accepted(self) -> None:
+        """Give up a goal the server has not answered to yet."""
+        if self._new_goal_request_future is None:
+            return
+
+        def cancel_goal(future) -> None:
+            goal_handle = future.result()
+            if goal_handle is not None and goal_handle.accepted:
+                goal_handle.cancel_goal_async()
+
+        self._abandoned_goal_request_future = self._new_goal_request_future
+        self._new_goal_request_future = None
+        self._abandoned_goal_request_future.add_done_callback(cancel_goal)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state == ActionStates.WAITING_FOR_GOAL_ACCEPTANCE:
+            self._cancel_goal_once_accepted()
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
-- 
2.43.0


From 63207c4ab24bc603ffd331a8d588556fb834e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 17/78] fix: an Action node ignores feedback to goals it has
 given up

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index f5208c0..e4c986a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -145,6 +145,7 @@ class ActionBase(Leaf):
 
         self._lock = Lock()
         self._feedback = None
+        self._goal_count = 0
 
         self._internal_state = ActionStates.IDLE
 
@@ -161,10 +162,11 @@ class ActionBase(Leaf):
 
         return Ok(BTNodeState.IDLE)
 
-    def _feedback_cb(self, feedback) -> None:
+    def _feedback_cb(self, feedback, goal_count: int) -> None:
         self.logdebug(f"Received feedback message: {feedback}")
         with self._lock:
-            self._feedback = feedback
+            if goal_count == self._goal_count:
+                self._feedback = feedback
 
     def _do_tick_wait_for_action_complete(
         self,
@@ -272,8 +274,13 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        with self._lock:
+            self._goal_count += 1
+            self._feedback = None
+            goal_count = self._goal_count
         self._new_goal_request_future = self._action_client.send_goal_async(
-            goal=self._input_goal, feedback_callback=self._feedback_cb
+            goal=self._input_goal,
+            feedback_callback=lambda feedback: self._feedback_cb(feedback, goal_count),
         )
 
         self._input_goal = None
-- 
2.43.0


From c43359d0c21e611f1637e66cdd9098ad641b1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 18/78] fix: ThrottleSuccess looks at the state its child
 returned

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..363b0db 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,9 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err() or result.ok() == BTNodeState.RUNNING:
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From 89f9d54e02c75338d5d9ec118807af997d8f3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 19/78] fix: Throttle forgets its last result on reset

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index 363b0db..7cfd265 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -89,6 +89,8 @@ class Throttle(Decorator):
         return Ok(BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
+        self._last_tick = None
+        self._last_result = Ok(BTNodeState.FAILED)
         for child in self.children:
             return child.reset()
         return Ok(BTNodeState.IDLE)
-- 
2.43.0


From 3c57e907967d865c06a6c8e27004624996dda8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 20/78] fix: IterateList halts its child when the list turns
 empty

---
 ros_bt_py/ros_bt_py/nodes/list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/list.py b/ros_bt_py/ros_bt_py/nodes/list.py
index 95bc03e..3b5e79e 100644
--- a/ros_bt_py/ros_bt_py/nodes/list.py
+++ b/ros_bt_py/ros_bt_py/nodes/list.py
@@ -211,6 +211,13 @@ class IterateList(Decorator):
                     pass
         else:
             self.loginfo("Nothing to iterate, input list is empty")
+            for child in self.children:
+                if child.state == BTNodeState.RUNNING:
+                    match child.untick():
+                        case Err(e):
+                            return Err(e)
+                        case Ok(_):
+                            pass
             return Ok(BTNodeState.SUCCEEDED)
 
         if len(self.children) == 0:
-- 
2.43.0


From 5c88f12877096f7f7e67ced70eb6933b4590f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 21/78] fix: the utility of a Parallel can be calculated before
 its setup

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..8974abd 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,6 +161,12 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        # Utility may be asked for before setup
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                self._needed_successes = i
         if len(self.children) < self._needed_successes:
             return Err(
                 BehaviorTreeException(
@@ -395,6 +401,12 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        # Utility may be asked for before setup
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                self._needed_successes = i
         if len(self.children) < self._needed_successes:
             return Err(
                 BehaviorTreeException(
-- 
2.43.0


From 54eff842dd45be591d5ff82b98e9b45e00627371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 22/78] fix: serialising a dict whose values are not strings

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5d4838d..965c5cd 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -899,8 +899,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 30f326864c4b63235bec58f28c53901282783b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 23/78] fix: report malformed serialized values as errors

---
 ros_bt_py/ros_bt_py/data_types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 965c5cd..0ebb4b3 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -346,9 +346,15 @@ class DataContainer(Generic[ANY], abc.ABC):
         First pass the given serialized value to :obj:`json.loads`,
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
+        Malformed values and values of the wrong type are returned as :obj:`Err`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        try:
+            value = json.loads(ser_value)
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except Exception as e:
+            return Err(f"Serialized value {ser_value} is invalid: {e}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
-- 
2.43.0


From 167029e32f4647bb3a5f778199eac14ec14c114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 24/78] fix: report inconsistent type descriptions as errors

---
 ros_bt_py/ros_bt_py/data_types.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0ebb4b3..11626c4 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -179,11 +179,14 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                obj = cls(**d)
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
+                    obj = cls(**d)
+        except Exception as e:
+            return Err(f"Type description {msg} is invalid: {e}")
         return Ok(obj)
 
     @abc.abstractmethod
-- 
2.43.0


From 934bfe6a01894ea7397b903f198ce7200fc8fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 25/78] fix: restore nested iterable types in the order they
 are serialized in

---
 ros_bt_py/ros_bt_py/data_types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 11626c4..d479e1a 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -790,17 +790,18 @@ class IterableContainer(BuiltinContainer[ITER]):
                 f"Message {msg} is for an iterable but doesn't specify proper constraints"
             )
         inner_msg = deepcopy(msg)
-        inner_msg.type_identifier = msg.value_type_identifier[0]
-        inner_msg.value_type_identifier = msg.value_type_identifier[1:]
-        inner_msg.iterable_max_length = msg.iterable_max_length[1:]
-        inner_msg.iterable_strict_length = msg.iterable_strict_length[1:]  # type: ignore
+        # The outermost type is the last one that was appended, see `serialize_type`
+        inner_msg.type_identifier = msg.value_type_identifier[-1]
+        inner_msg.value_type_identifier = msg.value_type_identifier[:-1]
+        inner_msg.iterable_max_length = msg.iterable_max_length[:-1]
+        inner_msg.iterable_strict_length = msg.iterable_strict_length[:-1]  # type: ignore
         match get_iotype_for_msg(inner_msg):
             case Err(e):
                 return Err(e)
             case Ok(c):
                 config["element_type"] = c
-        config["max_length"] = msg.iterable_max_length[0]
-        config["strict_length"] = msg.iterable_strict_length[0]  # type: ignore
+        config["max_length"] = msg.iterable_max_length[-1]
+        config["strict_length"] = msg.iterable_strict_length[-1]  # type: ignore
         return Ok(config)
 
     def is_compatible(
-- 
2.43.0


From 467f157868344bb3fd04f007ed553fa295148532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 26/78] fix: compatible containers may only allow a subset of
 the valid values

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index d479e1a..3ddd6c2 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -660,8 +660,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From 826a834b34f67e2555d677304814f98db33428c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 27/78] fix: refuse integers too large for a float

---
 ros_bt_py/ros_bt_py/data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 3ddd6c2..0846e0f 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -596,7 +596,10 @@ class FloatType(NumericContainer[float]):
     def set_value(self, value: float | int) -> Result[None, str]:
         # Silently convert int to float
         if isinstance(value, int):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                return Err(f"Given value {value} is too large for a float")
         return super().set_value(value)
 
 
-- 
2.43.0


From 919cb42eaebb9c470c5b23ae31c1ba50b7559938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 28/78] fix: report a refused change of a static generic type

---
 ros_bt_py/ros_bt_py/data_types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0846e0f..6dda454 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1154,8 +1154,7 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
             case Err(e):
                 return Err(e)
             case Ok(None):
-                super().set_value(value)
-                return Ok(None)
+                return super().set_value(value)
 
     def is_compatible(
         self, other: DataContainer
-- 
2.43.0


From 6124ad2a9fc89f0a982a42720d371ba163ef76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 29/78] fix: refuse generic types whose element type has no
 identifier

---
 ros_bt_py/ros_bt_py/data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 6dda454..9d97776 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -977,6 +977,8 @@ GENERIC_TYPE_MAP: dict[type, dict] = {
 
 
 def match_dict_to_valid_types(value: dict, valid_types: list) -> Result[None, str]:
+    if not isinstance(value, dict) or IDENTIFIER_KEY not in value.keys():
+        return Err(f"{value} doesn't include an identifier")
     for option in valid_types:
         option_value = GENERIC_TYPE_MAP[option]
         if option_value[IDENTIFIER_KEY] != value[IDENTIFIER_KEY]:
-- 
2.43.0


From 178b2aa5a054f2677bb08d83d8cfe8763e46a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 30/78] fix: ignore the static flag of element types, as
 documented

---
 ros_bt_py/ros_bt_py/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 9d97776..79bab5e 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -766,8 +766,9 @@ class IterableContainer(BuiltinContainer[ITER]):
         if element_type is not None:
             self._element_type = element_type
 
-        # Force element_type to accept dynamic values
+        # Force element_type to accept dynamic and static values
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From cf8f91471a95c84f7a9b142aab02b42ff006af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 31/78] fix: refuse node messages with invalid static values

---
 ros_bt_py/ros_bt_py/node.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index bf9a4a7..d106397 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1034,15 +1034,27 @@ class Node(abc.ABC):
             if isinstance(container, ReferenceContainer):
                 reference_values[io_msg.key] = io_msg.serialized_value
             elif container.is_static:
-                container.deserialize_value(io_msg.serialized_value)
+                match container.deserialize_value(io_msg.serialized_value):
+                    case Err(e):
+                        return Err(NodeConfigError(f"Input {io_msg.key}: {e}"))
+                    case Ok(None):
+                        pass
         for key, value in reference_values.items():
             container = new_inputs[key]
             if not isinstance(container, ReferenceContainer):
                 # This should NEVER happen given how `reference_values` was built
                 continue
-            container.set_type_map(new_inputs)
+            match container.set_type_map(new_inputs):
+                case Err(e):
+                    return Err(NodeConfigError(f"Input {key}: {e}"))
+                case Ok(None):
+                    pass
             if container.is_static:
-                container.deserialize_value(value)
+                match container.deserialize_value(value):
+                    case Err(e):
+                        return Err(NodeConfigError(f"Input {key}: {e}"))
+                    case Ok(None):
+                        pass
 
         match ros_to_uuid(msg.node_id):
             case Err(e):
-- 
2.43.0


From dc5bb426d01d2e35cc3c4e195aa0b87e1ee7d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 32/78] fix: return exceptions raised by a node's constructor
 as errors

---
 ros_bt_py/ros_bt_py/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index d106397..ab2ce27 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1077,6 +1077,10 @@ class Node(abc.ABC):
             )
         except BehaviorTreeException as ex:
             return Err(ex)
+        except Exception as ex:
+            return Err(
+                NodeConfigError(f"Failed to instantiate {msg.node_class}: {repr(ex)}")
+            )
 
         return Ok(node_instance)
 
-- 
2.43.0


From 0cbaf13a5933244d9f127eeed68d0123b339a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 33/78] fix: report an output value of the wrong type as an
 error instead of an exception

---
 ros_bt_py/ros_bt_py/node_config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 22c859d..56b2935 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -29,7 +29,7 @@
 from copy import deepcopy
 from typing import Any, Optional, TypeVar
 
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 import itertools
 
@@ -112,7 +112,11 @@ class NodeOutputMap(NodeDataMap):
                 return Err(e)
             case Ok(c):
                 container = c
-        match container.set_value(value):
+        try:
+            result = container.set_value(value)
+        except TypeCheckError as e:
+            result = Err(str(e))
+        match result:
             case Err(s):
                 return Err(
                     NodeConfigError(
-- 
2.43.0


From 62df5ec08a2b545a0c246694b2da684df8b2eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 34/78] fix: report every failure to locate, read or parse a
 YAML file as a failed load

---
 ros_bt_py/ros_bt_py/nodes/file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..9f631fe 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (LookupError, ValueError) as ex:
+            raise LoadFileError(f"Error locating package {package_name}: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,13 +76,15 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except Exception as ex:
+            # Besides its own errors, the yaml parser passes on whatever reading the file
+            # or converting a value raises
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From 56dafeffbd56939778c0841574f7470f6da8a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 35/78] fix: EnumFields offers field defaults as constants

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index 2f551ea..1a4d71f 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -84,6 +84,8 @@ def get_message_constant_fields(message_class) -> Result[list[str], NodeConfigEr
             attr
             for attr in dir(message_class.__class__)
             if not attr.startswith("_")
+            # The metaclass also exposes the default values of fields
+            and not attr.endswith("__DEFAULT")
             and not callable(getattr(message_class.__class__, attr))
         ]
 
-- 
2.43.0


From 865998d0f17e5600f39feb52c2af4b9006b6512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 36/78] fix: lists refuse fixed-size message arrays

---
 ros_bt_py/ros_bt_py/data_types.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 79bab5e..7341f87 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -33,6 +33,8 @@ from copy import deepcopy
 import json
 import re
 
+from numpy import ndarray
+
 # TODO Include the import for `typing.Self` and apply it (check inline comments).
 from typing import (
     Any,
@@ -860,9 +862,10 @@ class ListType(IterableContainer[list[Any]]):
     _value = []
 
     @typechecked
-    def set_value(self, value: list | array.array) -> Result[None, str]:
-        if isinstance(value, array.array):
-            value = list(value)
+    def set_value(self, value: list | array.array | ndarray) -> Result[None, str]:
+        # Message fields with a fixed size are numpy arrays
+        if isinstance(value, (array.array, ndarray)):
+            value = value.tolist()
         for item in value:
             match self._element_type.set_value(item):
                 case Err(e):
-- 
2.43.0


From 796926e1dd4f9ebfbcb2d0003ae01ef3c71dc9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 37/78] fix: Parallel nodes claim utility bounds although a
 child has none

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 48 ++++++++++++++++++---------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8974abd..539eb25 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -217,9 +217,11 @@ class Parallel(FlowControl):
 
         success_threshold = self._needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        # A child without a bound is cheaper (more expensive) than any with one
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -229,7 +231,9 @@ class Parallel(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -250,9 +254,11 @@ class Parallel(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        # A child without a bound is cheaper (more expensive) than any with one
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -262,7 +268,9 @@ class Parallel(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
@@ -456,9 +464,11 @@ class ParallelFailureTolerance(FlowControl):
 
         success_threshold = self._needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        # A child without a bound is cheaper (more expensive) than any with one
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -468,7 +478,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -489,9 +501,11 @@ class ParallelFailureTolerance(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        # A child without a bound is cheaper (more expensive) than any with one
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -501,7 +515,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
-- 
2.43.0


From c0adbe169c9672d7b9fbbea14c0ae2e880e9884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 38/78] fix: the utility of ParallelFailureTolerance ignores
 tolerate_failures

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 539eb25..01a6ce7 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -415,6 +415,11 @@ class ParallelFailureTolerance(FlowControl):
                 return Err(e)
             case Ok(i):
                 self._needed_successes = i
+        match self.inputs.get_value_as("tolerate_failures", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                self._tolerate_failures = i
         if len(self.children) < self._needed_successes:
             return Err(
                 BehaviorTreeException(
@@ -493,13 +498,13 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
-        # docstring
+        # because of the semantics of ParallelFailureTolerance explained
+        # in the class docstring
 
-        # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        # The minimum number of child failures for an overall failure
+        failure_threshold = 1 + self._tolerate_failures
 
         # A child without a bound is cheaper (more expensive) than any with one
         best_failure_group = sorted(
-- 
2.43.0


From 20de13c8289491e1421dbfb7ee4a102acc718925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 39/78] fix: decorators that change their child's result report
 its utility unchanged

---
 ros_bt_py/ros_bt_py/nodes/decorators.py | 45 +++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/decorators.py b/ros_bt_py/ros_bt_py/nodes/decorators.py
index 223148c..7fb34e8 100644
--- a/ros_bt_py/ros_bt_py/nodes/decorators.py
+++ b/ros_bt_py/ros_bt_py/nodes/decorators.py
@@ -37,6 +37,25 @@ from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.exceptions import BehaviorTreeException
 
 
+def _either_result(bounds: UtilityBounds) -> UtilityBounds:
+    """Bounds of a node that returns the same result whatever its child returns."""
+    has_lower = bounds.has_lower_bound_success and bounds.has_lower_bound_failure
+    has_upper = bounds.has_upper_bound_success and bounds.has_upper_bound_failure
+    lower = min(bounds.lower_bound_success, bounds.lower_bound_failure)
+    upper = max(bounds.upper_bound_success, bounds.upper_bound_failure)
+    return UtilityBounds(
+        can_execute=bounds.can_execute,
+        has_lower_bound_success=has_lower,
+        lower_bound_success=lower if has_lower else 0.0,
+        has_upper_bound_success=has_upper,
+        upper_bound_success=upper if has_upper else 0.0,
+        has_lower_bound_failure=has_lower,
+        lower_bound_failure=lower if has_lower else 0.0,
+        has_upper_bound_failure=has_upper,
+        upper_bound_failure=upper if has_upper else 0.0,
+    )
+
+
 @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
 class IgnoreFailure(Decorator):
     """
@@ -75,6 +94,9 @@ class IgnoreFailure(Decorator):
             return child.untick()
         return Ok(BTNodeState.IDLE)
 
+    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        return super()._do_calculate_utility().map(_either_result)
+
 
 @define_bt_node(
     NodeConfig(
@@ -165,6 +187,9 @@ class IgnoreSuccess(Decorator):
             return child.untick()
         return Ok(BTNodeState.IDLE)
 
+    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        return super()._do_calculate_utility().map(_either_result)
+
 
 @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
 class UntilSuccess(Decorator):
@@ -253,6 +278,26 @@ class Inverter(Decorator):
             return child.untick()
         return Ok(BTNodeState.IDLE)
 
+    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        # The child's failures are our successes and vice versa
+        return (
+            super()
+            ._do_calculate_utility()
+            .map(
+                lambda bounds: UtilityBounds(
+                    can_execute=bounds.can_execute,
+                    has_lower_bound_success=bounds.has_lower_bound_failure,
+                    lower_bound_success=bounds.lower_bound_failure,
+                    has_upper_bound_success=bounds.has_upper_bound_failure,
+                    upper_bound_success=bounds.upper_bound_failure,
+                    has_lower_bound_failure=bounds.has_lower_bound_success,
+                    lower_bound_failure=bounds.lower_bound_success,
+                    has_upper_bound_failure=bounds.has_upper_bound_success,
+                    upper_bound_failure=bounds.upper_bound_success,
+                )
+            )
+        )
+
 
 @define_bt_node(
     NodeConfig(
-- 
2.43.0


From 78d46ef8e5ed0aed68335b84b4a324e191e2d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 40/78] fix: the utility of a switch is that of a single child

---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 47 +++++++++++++++++++-
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py |  7 ++-
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 546cdb1..ea00ec4 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -107,7 +107,7 @@ class NameSwitch(FlowControl):
         return Ok(BTNodeState.SHUTDOWN)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        return calculate_utility_fallback(self.children)
+        return calculate_utility_switch(self.children)
 
 
 @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
@@ -441,3 +441,48 @@ def calculate_utility_fallback(
             (b.has_upper_bound_success for b in success_bounds)
         )
     return Ok(bounds)
+
+
+def calculate_utility_switch(
+    children,
+) -> Result[UtilityBounds, BehaviorTreeException]:
+    """Shared Utility aggregation for NameSwitch and EnumSwitch."""
+    # Exactly one child determines the result. If there is none for the
+    # current input, the switch fails at no cost.
+    bounds = UtilityBounds(
+        can_execute=True,
+        has_lower_bound_success=True,
+        has_upper_bound_success=True,
+        has_lower_bound_failure=True,
+        has_upper_bound_failure=True,
+    )
+    child_bounds: list[UtilityBounds] = []
+    for child in children:
+        match child.calculate_utility():
+            case Err(e):
+                return Err(e)
+            case Ok(b):
+                child_bounds.append(b)
+    # Same simplification as for the fallback
+    if not all(b.can_execute for b in child_bounds):
+        return Ok(UtilityBounds(can_execute=False))
+    if not child_bounds:
+        return Ok(bounds)
+
+    bounds.has_lower_bound_success = all(b.has_lower_bound_success for b in child_bounds)
+    if bounds.has_lower_bound_success:
+        bounds.lower_bound_success = min(b.lower_bound_success for b in child_bounds)
+    bounds.has_upper_bound_success = all(b.has_upper_bound_success for b in child_bounds)
+    if bounds.has_upper_bound_success:
+        bounds.upper_bound_success = max(b.upper_bound_success for b in child_bounds)
+    bounds.has_lower_bound_failure = all(b.has_lower_bound_failure for b in child_bounds)
+    if bounds.has_lower_bound_failure:
+        bounds.lower_bound_failure = min(
+            0.0, *(b.lower_bound_failure for b in child_bounds)
+        )
+    bounds.has_upper_bound_failure = all(b.has_upper_bound_failure for b in child_bounds)
+    if bounds.has_upper_bound_failure:
+        bounds.upper_bound_failure = max(
+            0.0, *(b.upper_bound_failure for b in child_bounds)
+        )
+    return Ok(bounds)
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index fd46eaa..028c188 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -42,7 +42,9 @@ from ros_bt_py.node_config import NodeConfig
 from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.ros_helpers import get_message_constant_fields
 
-from ros_bt_py_interfaces.msg import NodeState
+from ros_bt_py.nodes.fallback import calculate_utility_switch
+
+from ros_bt_py_interfaces.msg import NodeState, UtilityBounds
 
 
 @define_bt_node(
@@ -174,3 +176,6 @@ class EnumSwitch(FlowControl):
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
+
+    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        return calculate_utility_switch(self.children)
-- 
2.43.0


From 975b377e6528adcfc41822ca709b11ce4ad71ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 41/78] fix: the utility of topic subscribers never finds a
 publisher

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..05d678e 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -52,6 +52,7 @@ from ros_bt_py.exceptions import BehaviorTreeException
 from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
+from ros_bt_py.ros_helpers import get_interface_name
 
 
 @define_bt_node(
@@ -228,7 +229,7 @@ class TopicSubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -238,7 +239,7 @@ class TopicSubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
@@ -431,7 +432,7 @@ class TopicMemorySubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -441,7 +442,7 @@ class TopicMemorySubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
-- 
2.43.0


From f92c15bb20f134c39bdc1a75473d8290991778dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 42/78] fix: a wiring with an unusable id at one end is not
 attributed to the node at its other end

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index 1a4d71f..4e3b2ea 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -29,7 +29,7 @@
 import inspect
 import uuid
 
-from ros_bt_py.vendor.result import Result, Ok, Err, do
+from ros_bt_py.vendor.result import Result, Ok, Err
 
 from rclpy import action
 from rclpy.node import Node, Publisher
@@ -53,11 +53,10 @@ def uuid_to_ros(uuid: uuid.UUID) -> ROS_UUID:
 
 
 def wiring_has_id(wiring: Wiring, node_id: uuid.UUID) -> bool:
-    return do(
-        Ok(source_id == node_id or target_id == node_id)
-        for source_id in ros_to_uuid(wiring.source.node_id)
-        for target_id in ros_to_uuid(wiring.target.node_id)
-    ).unwrap_or(False)
+    return Ok(node_id) in (
+        ros_to_uuid(wiring.source.node_id),
+        ros_to_uuid(wiring.target.node_id),
+    )
 
 
 def get_interface_name(msg_metaclass: type) -> str:
-- 
2.43.0


From 3558ea05a89ec09b2ca2f3ea954c76ecbd870fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 43/78] fix: all nodes of a class share its list of tags

---
 ros_bt_py/ros_bt_py/node_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 56b2935..6909c27 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -257,5 +257,5 @@ class NodeConfig:
             inputs=deepcopy(self.inputs),
             outputs=deepcopy(self.outputs),
             max_children=self.max_children,
-            tags=self.tags,
+            tags=list(self.tags),
         )
-- 
2.43.0


From 1edb33c949e2eaa658ff91581e01dc7b616d0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 44/78] fix: a node module that raises any exception on import
 is reported as not loadable

---
 ros_bt_py/ros_bt_py/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index ab2ce27..e25d751 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1305,8 +1305,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
-        rclpy.logging.get_logger(package_name).error(
+    except Exception as exc:
+        rclpy.logging.get_logger(package_name or "load_node_module").error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
         )
-- 
2.43.0


From eb5f4d1daff8f1855a26c4cd4d5a3d8d2cb3883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 45/78] fix: an Action node that abandons several unanswered
 goals cancels each of them

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index e4c986a..0a18738 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -150,7 +150,7 @@ class ActionBase(Leaf):
         self._internal_state = ActionStates.IDLE
 
         self._new_goal_request_future = None
-        self._abandoned_goal_request_future = None
+        self._abandoned_goal_request_futures = []
         self._running_goal_handle = None
         self._running_goal_future = None
         self._cancel_goal_future = None
@@ -414,14 +414,19 @@ class ActionBase(Leaf):
         if self._action_client is not None:
             client = self._action_client
             self._action_client = None
-            if self._abandoned_goal_request_future is None:
+            pending = [f for f in self._abandoned_goal_request_futures if not f.done()]
+            self._abandoned_goal_request_futures = []
+            if not pending:
                 client.destroy()
-            else:
-                # The client is needed to cancel a goal that is yet to be accepted
-                self._abandoned_goal_request_future.add_done_callback(
-                    lambda _: client.destroy()
-                )
-                self._abandoned_goal_request_future = None
+                return
+
+            # The client is needed to cancel the goals that are yet to be accepted
+            def destroy_client(_) -> None:
+                if all(f.done() for f in pending):
+                    client.destroy()
+
+            for future in pending:
+                future.add_done_callback(destroy_client)
 
     def _cancel_goal_once_accepted(self) -> None:
         """Give up a goal the server has not answered to yet."""
@@ -433,9 +438,10 @@ class ActionBase(Leaf):
             if goal_handle is not None and goal_handle.accepted:
                 goal_handle.cancel_goal_async()
 
-        self._abandoned_goal_request_future = self._new_goal_request_future
+        future = self._new_goal_request_future
         self._new_goal_request_future = None
-        self._abandoned_goal_request_future.add_done_callback(cancel_goal)
+        self._abandoned_goal_request_futures.append(future)
+        future.add_done_callback(cancel_goal)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if self._internal_state == ActionStates.WAITING_FOR_GOAL_ACCEPTANCE:
-- 
2.43.0


From 2c956f8087d4f61ebe7405f321a268b750b37281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 46/78] fix: feedback to a goal sent before a shutdown never
 reaches a goal sent after it

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0a18738..f7c92e8 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -90,6 +90,7 @@ class ActionBase(Leaf):
     _action_client: Optional[ActionClient] = None
     _action_client_name: Optional[str] = None
     _feedback = None
+    _goal_count = 0
     _internal_state: ActionStates
 
     # Returns the action goal message that should be send to the server.
@@ -145,7 +146,6 @@ class ActionBase(Leaf):
 
         self._lock = Lock()
         self._feedback = None
-        self._goal_count = 0
 
         self._internal_state = ActionStates.IDLE
 
@@ -440,7 +440,9 @@ class ActionBase(Leaf):
 
         future = self._new_goal_request_future
         self._new_goal_request_future = None
-        self._abandoned_goal_request_futures.append(future)
+        self._abandoned_goal_request_futures = [
+            f for f in self._abandoned_goal_request_futures if not f.done()
+        ] + [future]
         future.add_done_callback(cancel_goal)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From c02babdc86736be775274bfcced07a8c0b32a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 47/78] fix: refuse a second wiring to an already wired input

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 16 ++++++++++------
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..6ae0102 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -932,7 +932,11 @@ class TreeEditManager(TreeExecManager):
         """
         successful_wirings = []
         for wiring in request.wirings:
-            match self.validate_wiring(wiring):
+            match self.validate_wiring(wiring).and_then(
+                lambda _: self.validate_target_is_free(
+                    wiring, self.wirings + successful_wirings
+                )
+            ):
                 case Err(e):
                     if request.ignore_failure:
                         continue
@@ -966,9 +970,10 @@ class TreeEditManager(TreeExecManager):
 
         :returns: :class:`ros_bt_py_msgs.src.WireNodeDataResponse` or `None`
         """
-        successful_unwirings = []
+        # Only actually unwire any data if there were no errors
+        remaining_wirings = list(self.wirings)
         for wiring in request.wirings:
-            if wiring not in self.wirings:
+            if wiring not in remaining_wirings:
                 if request.ignore_failure:
                     continue
                 response.success = False
@@ -976,10 +981,9 @@ class TreeEditManager(TreeExecManager):
                     f'Failed to remove wiring "{wiring}": This wiring does not exist'
                 )
                 return response
-            successful_unwirings.append(wiring)
+            remaining_wirings.remove(wiring)
 
-        for wiring in successful_unwirings:
-            self.wirings.remove(wiring)
+        self.wirings = remaining_wirings
         response.success = True
         return response
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 817ae6d..bb35d42 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1441,6 +1441,25 @@ class TreeExecManager:
             )
         return Ok(None)
 
+    def validate_target_is_free(
+        self, wiring_msg: Wiring, wirings: list[Wiring]
+    ) -> Result[None, BehaviorTreeException]:
+        """Check that none of the given wirings already feeds the target of this wiring."""
+        target = wiring_msg.target
+        target_node_id = ros_to_uuid(target.node_id)
+        for wiring in wirings:
+            if (
+                ros_to_uuid(wiring.target.node_id) == target_node_id
+                and wiring.target.data_key == target.data_key
+            ):
+                return Err(
+                    BehaviorTreeException(
+                        f"Input {target.data_key} of node {target.node_id} "
+                        "is already wired"
+                    )
+                )
+        return Ok(None)
+
     def structure_to_msg(self) -> TreeStructure:
         root_result = self.find_root()
         if root_result.is_ok():
-- 
2.43.0


From a274509d0ec736b6acfff8e798f7e453b2cd2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 48/78] fix: a refused add_node leaves the tree unchanged,
 child_ids of a new node are looked up as UUIDs

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 44 ++++++++++++++----------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 6ae0102..7a38cf8 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -85,6 +85,10 @@ class TreeEditManager(TreeExecManager):
                 if current_node.node_id == starting_id:
                     nodes_in_cycles.extend(cycle_candidates)
                     break
+                if current_node.node_id in cycle_candidates[:-1]:
+                    # The chain of parents ends in a cycle that the starting node
+                    # is not a part of.
+                    break
                 if current_node.node_id in safe_node_ids:
                     # We've already checked for cycles from the parent node, no
                     # need to do that again.
@@ -138,6 +142,14 @@ class TreeEditManager(TreeExecManager):
         :param ros_bt_py_msgs.srv.AddNodeAtIndexRequest request:
             A request describing the node to add.
         """
+        match ros_to_uuid(request.parent_node_id):
+            case Err(e):
+                response.success = False
+                response.error_message = e
+                return response
+            case Ok(p_id):
+                parent_node_id = p_id
+
         node_msg = request.node
         node_msg.node_id = uuid_to_ros(uuid.uuid4())
         match self.instantiate_node_from_msg(
@@ -154,14 +166,6 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         response.node_id = node_msg.node_id
 
-        match ros_to_uuid(request.parent_node_id):
-            case Err(e):
-                response.success = False
-                response.error_message = e
-                return response
-            case Ok(p_id):
-                parent_node_id = p_id
-
         # Add node as child of the named parent, if any
         if parent_node_id != uuid.UUID(int=0):
             if parent_node_id not in self.nodes:
@@ -185,6 +189,13 @@ class TreeEditManager(TreeExecManager):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
+                    # Remove node from tree
+                    self.remove_node(
+                        request=RemoveNode.Request(
+                            node_id=uuid_to_ros(instance.node_id), remove_children=False
+                        ),
+                        response=RemoveNode.Response(),
+                    )
                     return response
                 case Ok(_):
                     pass
@@ -192,8 +203,10 @@ class TreeEditManager(TreeExecManager):
         # Add children from msg to node
         missing_children = []
         for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
+            child = self.nodes.get(ros_to_uuid(child_id).unwrap_or(None))
+            # A node can only have a single parent
+            if child is not None and child.parent is None:
+                match instance.add_child(child):
                     case Err(e):
                         self.get_logger().warn(f"Could not add child: {str(e)}")
                         missing_children.append(child_id)
@@ -214,6 +227,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -240,15 +254,7 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
-        if parent_node_id != uuid.UUID(int=0):
-            if parent_node_id not in self._children:
-                self._children[parent_node_id] = []
-            self._children[parent_node_id].append(instance.node_id)
-        if instance.node_id not in self._children:
-            self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
+        self._sync_children()
 
         return response
 
-- 
2.43.0


From 5726bb143d5a4e996304ebdc820f9c3870edf585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 49/78] fix: morph_node and set_options keep the old node if
 the new one cannot take its place

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7a38cf8..e122fb4 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -389,6 +389,19 @@ class TreeEditManager(TreeExecManager):
                 return response
             case Ok(n):
                 new_node = n
+        # The old node stays in place until it can actually be exchanged
+        self.nodes[node_id] = old_node
+
+        if (
+            new_node.node_config.max_children is not None
+            and len(old_node.children) > new_node.node_config.max_children
+        ):
+            response.success = False
+            response.error_message = (
+                f"New node {new_node.name} does not support the "
+                f"{len(old_node.children)} children of node {old_node.name}"
+            )
+            return response
 
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
@@ -548,6 +561,8 @@ class TreeEditManager(TreeExecManager):
                 return response
             case Ok(n):
                 new_node = n
+        # The old node stays in place until it can actually be exchanged
+        self.nodes[node_id] = node
 
         # Use this request to unwire any data connections the existing
         # node has - if we didn't do this, the node wouldn't ever be
-- 
2.43.0


From b103e6f0424b5469300585bfd77891231d58f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 50/78] fix: move_node refuses to make a node its own child and
 allows reordering in a full parent

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index e122fb4..51c68dc 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -99,6 +99,20 @@ class TreeEditManager(TreeExecManager):
 
         return nodes_in_cycles
 
+    @typechecked
+    def _get_subtree_ids(self, node_id: uuid.UUID) -> set[uuid.UUID]:
+        """Return the ids of the given node and of all nodes below it."""
+        self._sync_children()
+        subtree_ids: set[uuid.UUID] = set()
+        pending = [node_id]
+        while pending:
+            current_id = pending.pop()
+            if current_id in subtree_ids:
+                continue
+            subtree_ids.add(current_id)
+            pending.extend(self._children.get(current_id, []))
+        return subtree_ids
+
     ####################
     # Service Handlers #
     ####################
@@ -719,6 +733,7 @@ class TreeEditManager(TreeExecManager):
 
         if (
             new_parent.node_config.max_children is not None
+            and new_parent is not node.parent
             and len(new_parent.children) == new_parent.node_config.max_children
         ):
             response.success = False
@@ -732,15 +747,7 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
-        descendants = set()
-        pending = list(self._children.get(node_id, []))
-        while pending:
-            descendant_id = pending.pop()
-            if descendant_id in descendants:
-                continue
-            descendants.add(descendant_id)
-            pending.extend(self._children.get(descendant_id, []))
-        if new_parent.node_id in descendants:
+        if new_parent.node_id in self._get_subtree_ids(node_id):
             response.success = False
             response.error_message = (
                 f"Cannot move node {node.name} to new parent node {new_parent.name}. "
-- 
2.43.0


From 4a752feedee554f17444f6afadea46b8b539c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 51/78] fix: replace_node refuses replacements that would break
 the tree before changing anything

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 51c68dc..e94ff0e 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -826,9 +826,24 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        if old_node_id in self._get_subtree_ids(new_node_id) or (
+            new_node_id in self._get_subtree_ids(old_node_id)
+            and new_node.parent is not old_node
+        ):
+            response.success = False
+            response.error_message = (
+                f'Replacement node ("{new_node.name}") can neither be the node to be '
+                f'replaced ("{old_node.name}") nor be part of the same branch, '
+                "unless it is its direct child."
+            )
+            return response
+
+        number_of_children = len(new_node.children) + len(
+            [child for child in old_node.children if child is not new_node]
+        )
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and number_of_children > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
-- 
2.43.0


From fc6c43d90119e901c6ec5b0ed0402071a0c494d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 52/78] fix: reload_tree loads a copy of the structure,
 clearing the tree no longer empties it

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index bb35d42..0c1645a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -29,6 +29,7 @@
 from importlib import metadata
 import os
 import uuid
+from copy import deepcopy
 from functools import wraps
 from packaging.version import Version
 from threading import Thread, Lock, RLock
@@ -800,7 +801,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading starts by clearing the current structure, so pass on a copy
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From b0fb9420d1d3483b8ccce5ce409340159a1ca2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 53/78] fix: load_tree refuses trees with an invalid topology
 and keeps the current tree on failure

---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 21 +++++++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 62 ++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 32f2ff4..6edc074 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -28,7 +28,7 @@
 
 from copy import deepcopy
 from threading import Lock
-from typing import Any, Dict
+from typing import Any, Callable, Dict
 import uuid
 
 from typeguard import typechecked
@@ -137,6 +137,25 @@ class SubtreeManager(object):
             self.subtree_data.clear()
             self.nested_subtree_managers.clear()
 
+    def backup_subtrees(self) -> Callable[[], None]:
+        """Return a function that restores all subtrees known at this moment."""
+        registries = [
+            self.subtree_structures,
+            self.subtree_states,
+            self.subtree_data,
+            self.nested_subtree_managers,
+        ]
+        with self._lock:
+            backups = [registry.copy() for registry in registries]
+
+        def restore_subtrees() -> None:
+            with self._lock:
+                for registry, backup in zip(registries, backups):
+                    registry.clear()
+                    registry.update(backup)
+
+        return restore_subtrees
+
     def remove_subtree(self, node_id: uuid.UUID):
 
         def query_dict(node_id: uuid.UUID, dict: dict[uuid.UUID, Any]):
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0c1645a..6417c34 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -29,7 +29,7 @@
 from importlib import metadata
 import os
 import uuid
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import wraps
 from packaging.version import Version
 from threading import Thread, Lock, RLock
@@ -857,8 +857,36 @@ class TreeExecManager:
             response.error_message = load_response.error_message
             return response
 
-        tree = load_response.tree
+        restore_tree = self._backup_tree()
+        response = self._replace_tree(load_response.tree, response)
+        if not response.success:
+            restore_tree()
+        return response
 
+    def _backup_tree(self) -> Callable[[], None]:
+        """Return a function that restores the tree as it is now."""
+        tree = copy(self._tree_structure)
+        nodes, children = self.nodes, self._children
+        node_states = self._tree_state.node_states
+        wiring_data = self._tree_data.wiring_data
+        diagnostics_name = self.diagnostic_status.name
+        restore_subtrees = self.subtree_manager.backup_subtrees()
+
+        def restore_tree() -> None:
+            self.nodes, self._children = nodes, children
+            self.name = tree.name
+            self._tree_structure = tree
+            self._tree_state.node_states = node_states
+            self._tree_data.wiring_data = wiring_data
+            self.diagnostic_status.name = diagnostics_name
+            restore_subtrees()
+
+        return restore_tree
+
+    def _replace_tree(  # noqa: C901
+        self, tree: TreeStructure, response: LoadTree.Response
+    ) -> LoadTree.Response:
+        """Replace the current tree with the given one, which may fail halfway through."""
         # Clear existing tree, then replace it with the message's contents.
         clear_response = self.clear(None, ClearTree.Response())
         if not clear_response.success:
@@ -867,6 +895,12 @@ class TreeExecManager:
             return response
         # First just add all nodes to the tree, then restore tree structure
         for node in tree.nodes:
+            if ros_to_uuid(node.node_id).map(lambda n_id: n_id in self.nodes) == Ok(
+                True
+            ):
+                response.success = False
+                response.error_message = f"Multiple nodes have the id {node.node_id}"
+                return response
             match self.instantiate_node_from_msg(
                 node_msg=node,
                 ros_node=self.ros_node,
@@ -889,7 +923,15 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
-                match self.nodes[node_id].add_child(self.nodes[child_id]):
+                child = self.nodes.get(child_id)
+                if child is None or child.parent is not None:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node_id} is missing or already "
+                        "has another parent"
+                    )
+                    return response
+                match self.nodes[node_id].add_child(child):
                     case Err(e):
                         response.success = False
                         response.error_message = str(e)
@@ -900,10 +942,22 @@ class TreeExecManager:
         for n in self.nodes.values():
             self._children[n.node_id] = [c.node_id for c in n.children]
 
+        for n in self.nodes.values():
+            ancestor_ids = {n.node_id}
+            while n.parent is not None:
+                n = n.parent
+                if n.node_id in ancestor_ids:
+                    response.success = False
+                    response.error_message = f"Node {n.name} is part of a cycle"
+                    return response
+                ancestor_ids.add(n.node_id)
+
         # All nodes are added, now do the wiring
         updated_wirings = []
         for wiring in tree.data_wirings:
-            match self.validate_wiring(wiring):
+            match self.validate_wiring(wiring).and_then(
+                lambda _: self.validate_target_is_free(wiring, updated_wirings)
+            ):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
-- 
2.43.0


From d5a1bd11a3cf12e81839ac9286aa7415e4edfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 54/78] fix: a tick frequency that no rate can be created for
 falls back to the default like 0 does

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6417c34..78f83d2 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -27,6 +27,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 from importlib import metadata
+import math
 import os
 import uuid
 from copy import copy, deepcopy
@@ -458,7 +459,8 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            # Neither zero, negative, nor so small that the period is out of range
+            if not 1e-9 <= frequency < math.inf:
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From e339441994561f934ad19adfd10993525b390cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 55/78] fix: node ids in a tree file that are no strings are
 reported as invalid

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index 4e3b2ea..042222f 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -44,7 +44,7 @@ ROS_UUID = str
 def ros_to_uuid(ros_uuid_msg: ROS_UUID) -> Result[uuid.UUID, str]:
     try:
         return Ok(uuid.UUID(ros_uuid_msg))
-    except ValueError:
+    except (AttributeError, TypeError, ValueError):
         return Err(f"String {ros_uuid_msg} doesn't represent a valid uuid")
 
 
-- 
2.43.0


From ce65ff1b62f31f9b34755745b41d86a8d4ac7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 56/78] fix: tree files with absurdly deep nesting or huge
 numbers are refused

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 78f83d2..e4450fb 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -221,7 +221,14 @@ def load_tree_from_file(
 
         try:
             response = parse_tree_yaml(tree_yaml=tree_yaml)
-        except (yaml.YAMLError, AttributeError, TypeError, ValueError) as ex:
+        except (
+            yaml.YAMLError,
+            AttributeError,
+            OverflowError,
+            RecursionError,
+            TypeError,
+            ValueError,
+        ) as ex:
             response.success = False
             response.error_message = (
                 f"Encountered a {type(ex).__name__} while parsing the tree yaml: "
-- 
2.43.0


From 21e699f2c1cd40c1f5de690a0ae4c3ed0aeef906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 57/78] fix: publishing or saving a tree keeps its public
 inputs and outputs

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index e4450fb..312271a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -51,6 +51,7 @@ from typeguard import typechecked
 from ros_bt_py.migrate_tree_files import migrate_legacy_tree_structure
 from ros_bt_py.logging_manager import LoggingManager
 from ros_bt_py_interfaces.msg import (
+    NodeDataLocation,
     NodeStructure,
     TreeStructure,
     TreeStructureList,
@@ -78,6 +79,7 @@ import ament_index_python
 from ros_bt_py.data_flow_manager import DataFlowManager
 from ros_bt_py.debug_manager import DebugManager
 from ros_bt_py.subtree_manager import SubtreeManager
+from ros_bt_py.data_types import DataContainer
 from ros_bt_py.exceptions import (
     BehaviorTreeException,
     MissingParentError,
@@ -1538,8 +1540,6 @@ class TreeExecManager:
                 else:
                     subtree = get_subtree_msg_result.unwrap()[0]
                     self._tree_structure.nodes = subtree.nodes
-                    self._tree_structure.public_inputs = subtree.public_inputs
-                    self._tree_structure.public_outputs = subtree.public_outputs
             else:
                 self._tree_structure.nodes = []
         else:
@@ -1549,8 +1549,28 @@ class TreeExecManager:
             self._tree_structure.nodes = [
                 node.to_structure_msg() for node in self.nodes.values()
             ]
+        # Edits may have removed nodes or data that used to be public
+        self._tree_structure.public_inputs = [
+            location
+            for location in self._tree_structure.public_inputs
+            if self._find_config(location, "inputs") is not None
+        ]
+        self._tree_structure.public_outputs = [
+            location
+            for location in self._tree_structure.public_outputs
+            if self._find_config(location, "outputs") is not None
+        ]
         return self._tree_structure
 
+    def _find_config(
+        self, location: NodeDataLocation, side: str
+    ) -> Optional[DataContainer]:
+        """Return the container of the given data, if it exists in this tree."""
+        node = self.nodes.get(ros_to_uuid(location.node_id).unwrap_or(None))
+        if node is None:
+            return None
+        return getattr(node.node_config, side).get(location.data_key)
+
     def state_to_msg(self) -> TreeState:
         self._tree_state.node_states = [
             node.to_state_msg() for node in self.nodes.values()
-- 
2.43.0


From 66ddcfd61c102466d4e541098afd797137c0931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 58/78] fix: after stopping a tree that waits for its next
 tick, it is idle

The command's answer said so, but the tree kept reporting that it waits for a tick. DO_NOTHING reports the state, too.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 312271a..3cd3752 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1368,6 +1368,7 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
@@ -1381,6 +1382,7 @@ class TreeExecManager:
                         return response
                 else:
                     self.get_logger().info("Unticking a tree with no nodes.")
+                    self.state = TreeState.IDLE
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
@@ -1411,6 +1413,7 @@ class TreeExecManager:
 
         elif request.command == ControlTreeExecution.Request.DO_NOTHING:
             self.get_logger().info("Doing nothing in this request")
+            response.tree_state = self.state
             response.success = True
         else:
             response.error_message = f"Received unknown command {request.command}"
-- 
2.43.0


From 0ba28ce9397b6016fe276191a66d451a415e93ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 59/78] fix: an exception while ticking ends the execution in
 the error state

It used to kill the ticking thread, while the tree went on claiming to tick.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 3cd3752..386d805 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -647,7 +647,10 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as ex:
+            tick_result = Err(BehaviorTreeException(f"{type(ex).__name__}: {ex}"))
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From f19121c5ce07a94a9395a727442d652f17dee5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 60/78] fix: a tree whose nodes fail while being unticked,
 reset or shut down is in the error state

Exceptions of the nodes left the command unanswered, and errors left the tree
in a state from which shutting it down failed as well.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 386d805..97ec91b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1035,6 +1035,19 @@ class TreeExecManager:
         response.success = True
         return response
 
+    def _apply_to_root(
+        self, operation: Callable[[], Result[str, BehaviorTreeException]]
+    ) -> Result[str, BehaviorTreeException]:
+        """Untick, reset or shut down the root, a failure leads to the error state."""
+        try:
+            result = operation()
+        except Exception as ex:
+            result = Err(BehaviorTreeException(f"{type(ex).__name__}: {ex}"))
+        if result.is_err() and self.state != TreeState.EDITABLE:
+            self._last_error = f"{result.unwrap_err()}"
+            self.state = TreeState.ERROR
+        return result
+
     @typechecked
     def _control_execution_shutdown(
         self,
@@ -1060,9 +1073,10 @@ class TreeExecManager:
             return response
         root = find_root_result.unwrap()
         if root:
-            shutdown_result = root.shutdown()
+            shutdown_result = self._apply_to_root(root.shutdown)
             if shutdown_result.is_err():
                 response.success = False
+                response.tree_state = self.state
                 response.error_message = (
                     f"Failed to shutdown: {str(shutdown_result.unwrap_err())}"
                 )
@@ -1222,7 +1236,7 @@ class TreeExecManager:
                 response.success = True
                 response.tree_state = self.state
                 return response
-            reset_result = root.reset()
+            reset_result = self._apply_to_root(root.reset)
             if reset_result.is_err():
                 response.success = False
                 response.error_message = (
@@ -1368,13 +1382,15 @@ class TreeExecManager:
                     return response
                 root = find_root_result.unwrap()
                 if root:
-                    root.untick()
+                    untick_result = self._apply_to_root(root.untick)
                     state = root.state
-                    if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                    if untick_result.is_ok() and state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
                         self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
+                        self.publish_state()
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
-- 
2.43.0


From 77ae8f17c9812fc6ac1da1e8cebc689d07465f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 61/78] fix: execution commands neither interweave with each
 other nor with edits

Concurrent commands used to start two ticking threads, to shut down a tree while
it was being ticked, and to lose or overwrite the tree's state. Edits checked the
state before they waited for their turn, so a tree could be edited that was
being started.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 51 +++++++++++++++++-------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 97ec91b..718855c 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -110,20 +110,23 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
+        # Do not wait for a running execution
+        if self.state == TreeState.EDITABLE:
             with self._edit_lock:
-                return func(self, request, response, **kwds)
-        finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+                # An execution may have started in the meantime
+                if self.state == TreeState.EDITABLE:
+                    try:
+                        return func(self, request, response, **kwds)
+                    finally:
+                        # TODO Find a way to check if we're the outermost level
+                        #   to reduce repeating publish calls
+                        self.publish_structure()
+        response.success = False
+        response.error_message = (
+            f"Cannot edit tree in state {self.state}."
+            f"You need to shut down the tree to enable editing."
+        )
+        return response
 
     return service_handler
 
@@ -1266,6 +1269,23 @@ class TreeExecManager:
         stop or reset the entire tree.
 
         """
+        # Do not wait forever, the tree may need our thread's executor to go on
+        if not self._edit_lock.acquire(timeout=(1.0 / self.tick_frequency_hz) * 4.0):
+            response.success = False
+            response.error_message = "Another command is still being executed"
+            response.tree_state = self.state
+            return response
+        try:
+            return self._control_execution(request, response)
+        finally:
+            self._edit_lock.release()
+
+    @typechecked
+    def _control_execution(  # noqa: C901
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
         response.success = False
         if self._tick_thread is not None:
             is_idle = self.state == TreeState.IDLE
@@ -1328,7 +1348,10 @@ class TreeExecManager:
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
             if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
+                with self._tree_lock:
+                    # The execution may have ended by itself in the meantime
+                    if self._tree_state.state == TreeState.TICKING:
+                        self._tree_state.state = TreeState.STOP_REQUESTED
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
-- 
2.43.0


From 3c21d38c0e1de72aa0b5ad0d01ca6cbcbde95ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 62/78] fix: starting a tree just when its previous execution
 ends no longer fails

The ticking thread may die between the check that decides whether a new one is
needed and the one that decides whether it may be started.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 718855c..36c2d8c 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1106,8 +1106,8 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # Threads can only be started once
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
@@ -1178,8 +1178,8 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # Threads can only be started once
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
 
             find_root_result = self.find_root()
             if find_root_result.is_err():
-- 
2.43.0


From 8007fea955d0ee00f6969382b36e4a4bd5a11058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 63/78] fix: a subtree that joins while publishing is switched
 follows the switch

---
 ros_bt_py/ros_bt_py/subtree_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 6edc074..312cdec 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -125,9 +125,9 @@ class SubtreeManager(object):
             self.subtree_data[node_id] = subtree_msg
 
     def add_nested_manager(self, node_id: uuid.UUID, subtree_manager: "SubtreeManager"):
-        subtree_manager.publish_subtrees = self.publish_subtrees
-        subtree_manager.set_publish_data(self.get_publish_data())
         with self._lock:
+            subtree_manager.publish_subtrees = self._publish_subtrees
+            subtree_manager.set_publish_data(self._publish_data)
             self.nested_subtree_managers[node_id] = subtree_manager
 
     def clear_subtrees(self) -> None:
-- 
2.43.0


From f0eaa993591fe93ff5baf7d3803f95763db8a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 64/78] fix: diagnostics name the operation that begins, and
 may be switched on in the middle of one

---
 ros_bt_py/ros_bt_py/debug_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..833fe49 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
@@ -134,7 +135,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # There is nothing to complete if collecting was off at the beginning
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -180,7 +182,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # There is nothing to complete if collecting was off at the beginning
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From dab6107cb5cdc351af57935d9697e4e77c666dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 65/78] fix: a tree is only saved inside its storage folder,
 and file names that cannot exist are refused

---
 ros_bt_py/ros_bt_py/package_manager.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..28082b8 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -150,9 +150,19 @@ class PackageManager(object):
         #     return response
 
         try:
+            storage_path = os.path.abspath(request.storage_path)
             save_filepath = os.path.abspath(
-                os.path.join(request.storage_path, request.filepath)
+                os.path.join(storage_path, request.filepath)
             )
+            if (
+                save_filepath == storage_path
+                or os.path.commonpath([storage_path, save_filepath]) != storage_path
+            ):
+                response.success = False
+                response.error_message = (
+                    f'"{request.filepath}" is not a file in the storage folder'
+                )
+                return response
 
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
@@ -199,9 +209,9 @@ class PackageManager(object):
             response.success = True
             return response
 
-        except IOError:
+        except (IOError, ValueError) as exc:
             response.success = False
-            response.error_message = f'IOError on file: "{request.filepath}"'
+            response.error_message = f'IOError on file: "{request.filepath}": {exc}'
 
         return response
 
-- 
2.43.0


From 4877d1321c4aea852deb6edaf778be7e4527d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 66/78] fix: saving a tree that fails or is interrupted keeps
 the stored file

---
 ros_bt_py/ros_bt_py/package_manager.py | 37 +++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 28082b8..5eff02f 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -26,9 +26,12 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+import contextlib
 import json
 import os
 import inspect
+import shutil
+import uuid
 from importlib import metadata
 import ament_index_python
 from ament_index_python import PackageNotFoundError
@@ -76,6 +79,33 @@ def make_filepath_unique(filepath):
     return name + extension
 
 
+def write_file_atomically(filepath: str, content: str) -> None:
+    """
+    Write a file so that it has either its old or its new content at any time.
+
+    The content goes to a temporary file in the same folder first,
+    which takes the place of the actual file once it is complete.
+    """
+    filepath = os.path.realpath(filepath)
+    exists = os.path.exists(filepath)
+    if exists and not os.access(filepath, os.W_OK):
+        raise PermissionError(f"{filepath} is not writable")
+
+    temporary = os.path.join(os.path.dirname(filepath), f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(temporary, "x") as file:
+            if exists:
+                shutil.copymode(filepath, temporary)
+            file.write(content)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temporary, filepath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temporary)
+        raise
+
+
 def to_message_type(message: type) -> Optional[MessageType]:
     message_type_msg = MessageType()
     message_type_msg.name = get_interface_name(message)
@@ -201,10 +231,9 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
-            with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+            version = metadata.version("ros_bt_py")
+            msg = rosidl_runtime_py.message_to_yaml(request.tree)
+            write_file_atomically(split_save_filepath, f"version: {version}\n{msg}")
             response.file_path = split_save_filepath
             response.success = True
             return response
-- 
2.43.0


From 413761b2fc10fa087718bb69e7af0f418af39c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 67/78] fix: trees saved at the same time do not replace each
 other without permission

---
 ros_bt_py/ros_bt_py/package_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 5eff02f..80737e1 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -32,6 +32,7 @@ import os
 import inspect
 import shutil
 import uuid
+from threading import Lock
 from importlib import metadata
 import ament_index_python
 from ament_index_python import PackageNotFoundError
@@ -138,6 +139,7 @@ class PackageManager(object):
         publish_packages_list_callback: Optional[rclpy.publisher.Publisher] = None,
     ):
         self.item_id = 0
+        self._save_lock = Lock()
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
             self.tree_storage_directory_paths.append(
@@ -151,6 +153,13 @@ class PackageManager(object):
 
     def save_tree_to_path(
         self, request: SaveTree.Request, response: SaveTree.Response
+    ) -> SaveTree.Response:
+        """Save a tree message in the given package, one at a time."""
+        with self._save_lock:
+            return self._save_tree_to_path(request, response)
+
+    def _save_tree_to_path(
+        self, request: SaveTree.Request, response: SaveTree.Response
     ) -> SaveTree.Response:
         """
         Save a tree message in the given package.
-- 
2.43.0


From 127c1f4afe234554f638be574139cf78adfa7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 68/78] fix: listings requested at the same time do not mix up
 their item ids

---
 ros_bt_py/ros_bt_py/package_manager.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 80737e1..dc1a983 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -140,6 +140,7 @@ class PackageManager(object):
     ):
         self.item_id = 0
         self._save_lock = Lock()
+        self._listing_lock = Lock()
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
             self.tree_storage_directory_paths.append(
@@ -375,10 +376,11 @@ class PackageManager(object):
             package_path = ament_index_python.get_package_share_directory(
                 request.package
             )
-            self.reset_id()
-            package_structure = self.path_to_dict(
-                path=package_path, show_hidden=request.show_hidden
-            )
+            with self._listing_lock:
+                self.reset_id()
+                package_structure = self.path_to_dict(
+                    path=package_path, show_hidden=request.show_hidden
+                )
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
@@ -405,11 +407,12 @@ class PackageManager(object):
                 f"{self.tree_storage_directory_paths}!"
             )
             return response
-        self.reset_id()
-        package_structure = self.path_to_dict(
-            path=os.path.abspath(request.storage_folder),
-            show_hidden=request.show_hidden,
-        )
+        with self._listing_lock:
+            self.reset_id()
+            package_structure = self.path_to_dict(
+                path=os.path.abspath(request.storage_folder),
+                show_hidden=request.show_hidden,
+            )
 
         response.success = True
         response.storage_folder_structure = json.dumps(package_structure)
-- 
2.43.0


From d0e3dffd7faaeec16c63182d51d56cdbff5d2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 69/78] fix: listing a package or folder that does not exist
 fails with an answer

---
 ros_bt_py/ros_bt_py/package_manager.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index dc1a983..c2aef57 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -376,6 +376,12 @@ class PackageManager(object):
             package_path = ament_index_python.get_package_share_directory(
                 request.package
             )
+            if not os.path.isdir(package_path):
+                response.success = False
+                response.error_message = (
+                    f'Package "{request.package}" has no share folder'
+                )
+                return response
             with self._listing_lock:
                 self.reset_id()
                 package_structure = self.path_to_dict(
@@ -384,7 +390,7 @@ class PackageManager(object):
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
-        except PackageNotFoundError:
+        except (PackageNotFoundError, ValueError):
             response.success = False
             response.error_message = f'Package "{request.package}" does not exist'
 
@@ -407,6 +413,10 @@ class PackageManager(object):
                 f"{self.tree_storage_directory_paths}!"
             )
             return response
+        if not os.path.isdir(request.storage_folder):
+            response.success = False
+            response.error_message = f'Folder "{request.storage_folder}" does not exist'
+            return response
         with self._listing_lock:
             self.reset_id()
             package_structure = self.path_to_dict(
-- 
2.43.0


From 1353215d4b56fe3ca2326a5301777ecb4fa7a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 70/78] fix: listing the available nodes works while further
 nodes are being loaded

---
 ros_bt_py/ros_bt_py/package_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index c2aef57..5edf773 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -462,8 +462,8 @@ class PackageManager(object):
                 return response
 
         response.available_nodes = []
-        for module, nodes in Node.node_classes.items():
-            for class_name, node_class in nodes.items():
+        for module, nodes in list(Node.node_classes.items()):
+            for class_name, node_class in list(nodes.items()):
                 if not node_class._node_config:
                     LOGGER.warning(
                         f"Node class: {node_class.__name__} does not have node config!"
-- 
2.43.0


From a461c40e895e7e9be16294c95cf921a17390e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 71/78] fix: a tree file that cannot be migrated does not keep
 the others from being migrated

---
 ros_bt_py/ros_bt_py/migrate_tree_files.py | 27 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/migrate_tree_files.py b/ros_bt_py/ros_bt_py/migrate_tree_files.py
index 2fb38bb..fc2e180 100644
--- a/ros_bt_py/ros_bt_py/migrate_tree_files.py
+++ b/ros_bt_py/ros_bt_py/migrate_tree_files.py
@@ -30,12 +30,18 @@ import os
 import sys
 import yaml
 from importlib import metadata
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 from ros_bt_py.vendor.result import Result, Ok, Err
 
 
 def migrate_legacy_tree_structure(tree_dict: dict) -> Result[dict, str]:
-    tree_version = Version(tree_dict.get("version", "0.0.0"))
+    if not isinstance(tree_dict, dict):
+        return Err("This is not a tree")
+
+    try:
+        tree_version = Version(tree_dict.get("version", "0.0.0"))
+    except (InvalidVersion, TypeError):
+        return Err(f"Invalid version {tree_dict['version']!r}")
 
     if tree_version < Version("1.0.0"):
         return Err("Migrations from 0.x versions are not supported")
@@ -66,8 +72,12 @@ def main():
                 new_file = f"{name}_new_{counter}{ext}"
                 counter += 1
 
-        with open(file, "r") as f:
-            tree_dict = yaml.safe_load(f.read())
+        try:
+            with open(file, "r") as f:
+                tree_dict = yaml.safe_load(f.read())
+        except Exception as e:
+            print(f"Failed to read: {e}")
+            continue
 
         match migrate_legacy_tree_structure(tree_dict):
             case Err(e):
@@ -76,6 +86,11 @@ def main():
             case Ok(d):
                 new_tree_dict = d
 
-        with open(new_file, "w+") as f:
-            f.write(yaml.safe_dump(new_tree_dict, sort_keys=False))
+        try:
+            new_tree_yaml = yaml.safe_dump(new_tree_dict, sort_keys=False)
+            with open(new_file, "w+") as f:
+                f.write(new_tree_yaml)
+        except Exception as e:
+            print(f"Failed to write {new_file}: {e}")
+            continue
         print(f"Saved migration to {new_file}")
-- 
2.43.0


From 3698367bc2cdb5b72f66475b5507503f1bed5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 72/78] fix: the diagnostics of a tree carry its name

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 36c2d8c..879f330 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1003,7 +1003,7 @@ class TreeExecManager:
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-        if self.publish_diagnostic is None:
+        if self.publish_diagnostic is not None:
             self.set_diagnostics_name()
         return response
 
-- 
2.43.0


From 9168c330594698c81129a2dc94375e123b9d749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 73/78] fix: the published root is never a node that is no
 longer the root

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 879f330..efb0b3b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -624,6 +624,7 @@ class TreeExecManager:
         """
         self._sync_children()
         if not self.nodes:
+            self.root_id = uuid.UUID(int=0)
             return Ok(None)
         all_child_ids: set[uuid.UUID] = set()
         for child_list in self._children.values():
@@ -632,6 +633,8 @@ class TreeExecManager:
             node for node in self.nodes.values() if node.node_id not in all_child_ids
         ]
 
+        if len(possible_roots) != 1:
+            self.root_id = uuid.UUID(int=0)
         if len(possible_roots) > 1:
             return Err(
                 TreeTopologyError(
-- 
2.43.0


From a7892bf546a84254d63d75f2606f9c08725396da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 74/78] fix: the state of the nodes is published when an
 execution has ended

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index efb0b3b..91fb2d9 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -779,6 +779,7 @@ class TreeExecManager:
         # Ensure all nodes are stopped and not doing anything in
         # the background.
         untick_result = root.untick()
+        self.publish_state()
         return untick_result.map(lambda x: None)
 
     ####################
-- 
2.43.0


From 96e263f53cb8761af864d173e4e5000e311a106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 75/78] fix: shutting down a tree without a unique root
 publishes that its links are discarded

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 91fb2d9..57bd848 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1075,6 +1075,7 @@ class TreeExecManager:
                 node.parent = None
                 node.children = []
             self.state = TreeState.EDITABLE
+            self.publish_structure()
             response.tree_state = self.state
             response.success = True
             return response
-- 
2.43.0


From 05f497644e12a9d8e18e2259a785093ba78be197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 76/78] fix: checking a tree with SETUP_AND_SHUTDOWN does not
 forget its subtrees

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 57bd848..2d0c813 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1333,8 +1333,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
-- 
2.43.0


From 2e5cc6188906ccebfde589ec00debad7bd362b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 77/78] fix: exchanging a subtree node exchanges the reports of
 its subtree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index e94ff0e..63645c4 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -28,6 +28,7 @@
 
 import uuid
 from copy import deepcopy
+from functools import wraps
 from typing import Any
 
 from ros_bt_py.tree_exec_manager import TreeExecManager, is_edit_service
@@ -57,6 +58,29 @@ from ros_bt_py.debug_manager import DebugManager
 from ros_bt_py.ros_helpers import ros_to_uuid, uuid_to_ros, wiring_has_id
 
 
+def exchanges_subtrees(func):
+    """
+    Decorate handlers that exchange a node of the tree for a newly instantiated one.
+
+    The new node registers its subtrees when it is instantiated, so the
+    subtrees known before are restored if the nodes are not exchanged.
+    """
+
+    @wraps(func)
+    def service_handler(self: "TreeEditManager", request: Any, response: Any):
+        restore_subtrees = self.subtree_manager.backup_subtrees()
+        success = False
+        try:
+            response = func(self, request, response)
+            success = response.success
+        finally:
+            if not success:
+                restore_subtrees()
+        return response
+
+    return service_handler
+
+
 class TreeEditManager(TreeExecManager):
     """
     Provide methods to edit a Behavior Tree
@@ -375,6 +399,7 @@ class TreeEditManager(TreeExecManager):
         return response
 
     @is_edit_service
+    @exchanges_subtrees
     @typechecked
     def morph_node(
         self, request: MorphNode.Request, response: MorphNode.Response
@@ -396,6 +421,7 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[node_id]
         request.new_node.node_id = uuid_to_ros(node_id)
 
+        self.subtree_manager.remove_subtree(node_id)
         match self.instantiate_node_from_msg(request.new_node, self.ros_node):
             case Err(e):
                 response.success = False
@@ -517,6 +543,7 @@ class TreeEditManager(TreeExecManager):
         return response
 
     @is_edit_service
+    @exchanges_subtrees
     @typechecked
     def set_options(  # noqa: C901
         self, request: SetOptions.Request, response: SetOptions.Response
@@ -568,6 +595,7 @@ class TreeEditManager(TreeExecManager):
         node_msg.inputs = list(new_inputs.values())
         if request.rename_node:
             node_msg.name = request.new_name
+        self.subtree_manager.remove_subtree(node_id)
         match self.instantiate_node_from_msg(node_msg, ros_node=self.ros_node):
             case Err(e):
                 response.success = False
-- 
2.43.0


From 53f832c8ab625c130743f170df23b9304a64dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 78/78] fix: answer subtrees with the wirings of their nodes

---
 ros_bt_py/ros_bt_py/node.py              | 53 ++++++++++--------------
 ros_bt_py/ros_bt_py/tree_edit_manager.py |  2 +-
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index e25d751..d726e03 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1095,6 +1095,7 @@ class Node(abc.ABC):
     @typechecked
     def get_subtree_msg(
         self,
+        wirings: Optional[list[Wiring]] = None,
     ) -> Result[
         Tuple[TreeStructure, list[Wiring], list[Wiring]], BehaviorTreeException
     ]:
@@ -1107,6 +1108,8 @@ class Node(abc.ABC):
         The subtree message will have public node data for every piece
         of node data that is wired to a node outside the subtree.
 
+        :param wirings: The wirings of the whole tree.
+
         :returns:
 
         A tuple consisting of a :class:`ros_bt_py_msgs.msg.Tree`
@@ -1144,42 +1147,30 @@ class Node(abc.ABC):
         }
         incoming_connections: list[Wiring] = []
         outgoing_connections: list[Wiring] = []
-        for node in self.get_children_recursive():
-            for sub in node.subscriptions:
-                # Since this is internal data, we assume ids to be safe
-                source_node = node_map.get(ros_to_uuid(sub.source.node_id).unwrap())
-                target_node = node_map.get(ros_to_uuid(sub.target.node_id).unwrap())
-
-                # For subscriptions where source and target are in the subtree,
-                # add a wiring.
-                if source_node and target_node:
-                    subtree.data_wirings.append(
-                        Wiring(source=sub.source, target=sub.target)
-                    )
-                # In the other cases, add that datum to public_node_data
-                elif source_node:
-                    outgoing_connections.append(sub)
-                elif target_node:
-                    incoming_connections.append(sub)
-                else:
-                    return Err(
-                        BehaviorTreeException(
-                            "Subscription in subtree has source *AND* target "
-                            "outside of subtree!"
-                        )
-                    )
+        for wiring in wirings or []:
+            # Since this is internal data, we assume ids to be safe
+            source_inside = ros_to_uuid(wiring.source.node_id).unwrap() in node_map
+            target_inside = ros_to_uuid(wiring.target.node_id).unwrap() in node_map
 
-            for wiring, _, _ in node.subscribers:
-                # Since this is internal data, we assume ids to be safe
-                if ros_to_uuid(wiring.target.node_id).unwrap() not in node_map:
-                    outgoing_connections.append(wiring)
+            # For wirings where source and target are in the subtree, add a wiring.
+            if source_inside and target_inside:
+                subtree.data_wirings.append(
+                    Wiring(source=wiring.source, target=wiring.target)
+                )
+            # In the other cases, add that datum to the public node data
+            elif source_inside:
+                outgoing_connections.append(wiring)
+            elif target_inside:
+                incoming_connections.append(wiring)
 
         subtree.public_inputs = [
             connection.target for connection in incoming_connections
         ]
-        subtree.public_outputs = [
-            connection.source for connection in outgoing_connections
-        ]
+        subtree.public_outputs = []
+        for connection in outgoing_connections:
+            # One datum may be wired to any number of targets
+            if connection.source not in subtree.public_outputs:
+                subtree.public_outputs.append(connection.source)
 
         return Ok((subtree, incoming_connections, outgoing_connections))
 
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 63645c4..2111745 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1075,7 +1075,7 @@ class TreeEditManager(TreeExecManager):
             response.error_message = f'Node "{request.root_id}" does not exist!'
             return response
 
-        match self.nodes[root_id].get_subtree_msg():
+        match self.nodes[root_id].get_subtree_msg(list(self.wirings)):
             case Err(e):
                 response.error_message = (
                     f"Error retrieving subtree rooted at {request.root_id}: {str(e)}"
-- 
2.43.0

