From 6beba5d784a03d96120ebf8f2b04fa13cd66548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 01/25] fix: quote literal strings in CEL source without
 changing them

---
 src/koreo/cel/encoder.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..2d6eec5 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,6 @@
 from typing import Any
 import base64
+import re
 
 from celpy import celtypes
 
@@ -58,7 +59,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'"{_escape(f"{key}")}":{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -78,31 +79,30 @@ def encode_cel(value: Any) -> str:
         return '""'
 
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
-
         if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+            return f'"""{_escape(value)}"""'  # fmt: skip
 
-        return f'"{value}"'  # fmt: skip
+        return f'"{_escape(value)}"'  # fmt: skip
 
     return value.lstrip(CEL_PREFIX)
 
 
-def _encode_plain(maybe_number) -> bool:
-    if not isinstance(maybe_number, str):
-        return True
+# Only characters which are special within a (cooked) CEL string literal, or
+# which may not appear within one, need to be escaped.
+_ESCAPES = str.maketrans({"\\": r"\\", '"': r"\"", "\n": r"\n", "\r": r"\r"})
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
 
-    try:
-        float(maybe_number)
+def _escape(value: str) -> str:
+    return value.translate(_ESCAPES)
+
+
+# `int()` and `float()` accept much more than CEL does: padding, underscores,
+# non-ASCII digits, "inf", "nan", etc. Those are ordinary strings.
+_DECIMAL_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
+
+
+def _encode_plain(maybe_number) -> bool:
+    if not isinstance(maybe_number, str):
         return True
-    except ValueError:
-        pass
 
-    return False
+    return _DECIMAL_NUMERAL.fullmatch(maybe_number) is not None
-- 
2.43.0


From a635443d457a754143b5436f83056a99c33bf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 02/25] fix: find every statically named reference in any
 expression shape

Extracting the argument structure raised for receivers or indexes which are not
plain names (literals, parenthesized expressions, calls, computed indexes), and
step names were matched with a pattern which also matched unrelated names.
---
 src/koreo/cel/structure_extractor.py | 166 +++++++++++----------------
 src/koreo/workflow/prepare.py        |  39 ++-----
 2 files changed, 76 insertions(+), 129 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..e14e10c 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,96 @@
+from celpy.evaluation import celstr
 from lark import Tree, Token
 
 
 def extract_argument_structure(compiled: Tree) -> set[str]:
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
+        if thing.data not in ("member_dot", "member_index"):
+            continue
 
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+        path = _process_member(thing)
+        if path is None and thing.data == "member_index":
+            # The index is not statically known, but what is indexed might be.
+            path = _process_member(_unwrap(thing.children[0]))
 
-    return var_map
-
-
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
+        if path is not None:
+            var_map.add(path)
 
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
-
-
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
+    return var_map
 
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
 
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
+def extract_member_names(compiled: Tree, variable: str) -> set[str]:
+    """The statically known (direct) members of `variable` which are accessed by
+    name: `variable.NAME` or `variable['NAME']`."""
+    names: set[str] = set()
+    for thing in compiled.iter_subtrees():
+        if thing.data not in ("member_dot", "member_index"):
+            continue
 
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
+        if _process_member(_unwrap(thing.children[0])) != variable:
+            continue
 
+        name = _process_terminal(thing)
+        if name is not None:
+            names.add(name)
 
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
+    return names
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
 
-    terminal: Tree = tree.children[1]
+def _process_member(tree: Tree) -> str | None:
+    """The access path of statically named members, or `None` for anything else:
+    a call's result, a literal, a computed index, etc."""
+    if tree.data in ("ident", "dot_ident"):
+        return f"{tree.children[0]}"
 
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
+    if tree.data not in ("member_dot", "member_index"):
+        return None
 
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
+    root = _process_member(_unwrap(tree.children[0]))
+    if root is None:
+        return None
 
-            terminal: Tree = terminal.children[0]
+    terminal = _process_terminal(tree)
+    if terminal is None:
+        return None
 
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
+    return f"{root}.{terminal}"
 
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
 
-    root: Tree = tree.children[0].children[0]
+def _process_terminal(tree: Tree) -> str | None:
+    terminal = tree.children[1]
 
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
+    if tree.data == "member_dot":
+        return f"{terminal}"
 
-    return f"{root_value}.{terminal_value}"
+    index = _unwrap(terminal)
+    if index.data != "literal":
+        return None
 
+    literal: Token = index.children[0]
+    if literal.type in ("STRING_LIT", "MLSTRING_LIT"):
+        return f"{celstr(literal)}"
 
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+    return f"{literal.value}"
 
-    primary: Tree = tree.children[0]
 
-    # print(f"{len(tree.children)}: {primary}")
+# These only wrap when they have a single child; otherwise they're an operation.
+_WRAPPERS = {
+    "expr",
+    "conditionalor",
+    "conditionaland",
+    "relation",
+    "addition",
+    "multiplication",
+    "unary",
+    "member",
+    "primary",
+    "paren_expr",
+}
 
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
 
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+def _unwrap(tree: Tree) -> Tree:
+    while tree.data in _WRAPPERS and len(tree.children) == 1:
+        tree = tree.children[0]
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    return tree
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..8fe402d 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -9,7 +9,10 @@ from koreo import schema
 from koreo.cache import get_resource_from_cache
 from koreo.cel.functions import koreo_function_annotations
 from koreo.cel.prepare import prepare_expression, prepare_map_expression
-from koreo.cel.structure_extractor import extract_argument_structure
+from koreo.cel.structure_extractor import (
+    extract_argument_structure,
+    extract_member_names,
+)
 from koreo.resource_function.structure import ResourceFunction
 from koreo.result import (
     Ok,
@@ -99,8 +102,8 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+PARENT_NAME_PATTERN = re.compile(r"parent\.(?P<name>.*)")
+STEPS_VARIABLE = "steps"
 
 
 LogicRegistryResource = registry.Resource[
@@ -210,11 +213,7 @@ def _load_step(
                 if match
             )
 
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_steps.update(extract_member_names(logic.switch_on.ast, STEPS_VARIABLE))
 
     if step_label == "<missing label>":
         # Note, this should be impossible due to schema validation.
@@ -277,11 +276,7 @@ def _load_step(
                 if match
             )
 
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_steps.update(extract_member_names(skip_if.ast, STEPS_VARIABLE))
 
     for_each_spec = step_spec.get("forEach")
     match _prepare_for_each(cel_env=cel_env, step_label=step_label, spec=for_each_spec):
@@ -299,11 +294,7 @@ def _load_step(
             )
 
             needed_steps.update(
-                match.group("name")
-                for match in (
-                    STEPS_NAME_PATTERN.match(key) for key in for_each_input_keys
-                )
-                if match
+                extract_member_names(for_each.source_iterator.ast, STEPS_VARIABLE)
             )
 
     input_mapper_spec = step_spec.get("inputs")
@@ -331,11 +322,7 @@ def _load_step(
                 if match
             )
 
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_steps.update(extract_member_names(input_mapper.ast, STEPS_VARIABLE))
 
     condition_spec = step_spec.get("condition")
     if not condition_spec:
@@ -361,11 +348,7 @@ def _load_step(
                 if match
             )
 
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_steps.update(extract_member_names(state.ast, STEPS_VARIABLE))
         case PermFail() as failure:
             return (
                 resources,
-- 
2.43.0


From 99cefba82f52ddd2ba70fb8b16bfb588fc0caf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 03/25] fix: report timed-out and crashed steps truthfully in
 their condition

_reconcile_steps handed the StepResult wrapper to _condition_helper, which does
not recognise it as an outcome, so the condition for a step that timed out or
crashed claimed the Workflow was Ready.
---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..6a0b78c 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From f323fd1320ee766f4635d53dc3e719f18d1b38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 04/25] fix: notifying survives subscribers that were killed
 but not deregistered

---
 src/koreo/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..9df2ace 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,6 +102,9 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
+        except asyncio.QueueShutDown:
+            # Killed, but not yet deregistered. It wants no further events.
+            pass
         except asyncio.QueueFull:
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
-- 
2.43.0


From cba02a81e7d486e919c4dd471ec1fa6338ea3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 05/25] fix: watch a resource that is re-offered right after
 being deleted

The done-callback of the cancelled monitor ran after the re-offer and removed
the new registration, and the re-offer did not start a monitor because the
cancelled one was still recorded.
---
 src/koreo/cache.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..509af0f 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,11 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # Forget the monitor straight away: the resource may be offered again before
+    # the cancelled task gets to run, and must then be given its own monitor.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -271,8 +273,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If this is no longer the resource's monitor, then it was deleted. Any
+        # registration now belongs to whatever was offered since.
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From 3c9bd1d6243e2e787ee586d88847170383da04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 06/25] fix: hot reload misses no change that happens while
 something is being prepared

A change during the preparation of a dependent was lost if the dependent was
not subscribed yet, or if its monitor spent the event on the version being
replaced; and a re-preparation that finished late overwrote a newer version.
---
 src/koreo/cache.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 509af0f..b1d0061 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -132,6 +132,7 @@ async def delete_from_cache(
 
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     queue = registry.kill_resource(resource=resource)
+    _CHANGE_TIMES[resource] = deleted_at
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
     # Forget the monitor straight away: the resource may be offered again before
@@ -157,6 +158,10 @@ async def delete_from_cache(
 
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
 
+# When the cached resource last changed, so that a change which happens while a
+# dependent is being prepared is not missed.
+_CHANGE_TIMES: dict[registry.Resource, float] = {}
+
 
 async def _handle_notifications(
     resource: registry.Resource[T],
@@ -167,6 +172,7 @@ async def _handle_notifications(
 ):
     # We need to track the earliest possible time of prepare.
     _PREPARE_TIMES[resource] = prepare_started_at
+    _CHANGE_TIMES[resource] = prepare_finished_at
 
     if not subscriptions:
         subscriptions = []
@@ -189,6 +195,16 @@ async def _handle_notifications(
         _REPREPARE_TASKS[resource] = resource_task
         resource_task.add_done_callback(_deletor(resource))
 
+    # A watched resource might have changed during the preparation: before this
+    # was subscribed to it, or the event was spent on an older version of this.
+    for watched in subscriptions:
+        changed_at = _CHANGE_TIMES.get(watched)
+        if changed_at and changed_at > prepare_started_at:
+            registry.register(registerer=resource).put_nowait(
+                registry.ResourceEvent(resource=watched, event_time=changed_at)
+            )
+            break
+
 
 async def _monitor_and_reprepare(
     resource: registry.Resource[T],
@@ -237,13 +253,18 @@ async def _reprepare_and_update_cache(
 ) -> None:
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
-    cached = __CACHE.get(resource_key)
-    if not cached:
-        return
+    while True:
+        cached = __CACHE.get(resource_key)
+        if not cached:
+            return
 
-    prepare_started_at = time.monotonic()
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
-    prepare_finished_at = time.monotonic()
+        prepare_started_at = time.monotonic()
+        preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
+        prepare_finished_at = time.monotonic()
+
+        # If a newer version was offered in the meantime, that one must be kept.
+        if __CACHE.get(resource_key) is cached:
+            break
 
     if is_unwrapped_ok(preparer_outcome):
         prepared_resource, subscriptions = preparer_outcome
-- 
2.43.0


From a513278084af892976390dc91d3528a64b620391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 07/25] fix: an expression celpy can not dump fails like any
 other

celpy's tree_dump raises for some valid expressions, `1 in [to_ref({})]` for
instance, so describing their failure raised instead of returning PermFail.
type() of a failed expression also leaked celpy's error class as data.
---
 src/koreo/cel/evaluation.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..04bdf0e 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -136,17 +136,36 @@ def _overlay_applier(
     return overlaid
 
 
+def _dump_tree(tree) -> str:
+    """Source of the expression which failed, when celpy is able to dump it."""
+    if not tree:
+        return ""
+
+    try:
+        return tree_dump(tree)
+    except Exception:
+        # Not every valid expression can be dumped (`{}` can not, for instance).
+        return ""
+
+
 def check_for_celevalerror(
     value: celtypes.Value | celpy.CELEvalError, location: str | None
 ) -> None | PermFail:
     match value:
         case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+            tree = _dump_tree(error_tree)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
             )
 
+        case type() if issubclass(value, celpy.CELEvalError):
+            # This is `type(<failed expression>)`
+            return PermFail(
+                message=f"Error evaluating `{location}` (type of an error)",
+                location=location,
+            )
+
         case celtypes.MapType() | dict():
             for key, subvalue in value.items():
                 if eval_error := check_for_celevalerror(key, location):
-- 
2.43.0


From b12deb4f89337d8c60e22eef2d2e68ab0125c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 08/25] fix: string() of a failed expression fails

celpy's string() turned the failure into text, which was then returned,
published or sent to the API server in place of data.
---
 src/koreo/cel/functions.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..735cba0 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -372,6 +372,34 @@ def _replace(
         return celpy.CELEvalError(f"Replace error {err}")
 
 
+def _string(value: celtypes.Value) -> celtypes.StringType | celpy.CELEvalError:
+    # celpy's `string()` turns the failure of its argument into ordinary text.
+    if error := _find_error(value):
+        return error
+
+    return celtypes.StringType(value)
+
+
+def _find_error(
+    value: celtypes.Value | celpy.CELEvalError,
+) -> celpy.CELEvalError | None:
+    if isinstance(value, celpy.CELEvalError):
+        return value
+
+    if isinstance(value, dict):
+        nested = [*value.keys(), *value.values()]
+    elif isinstance(value, (list, tuple)):
+        nested = value
+    else:
+        return None
+
+    for subvalue in nested:
+        if error := _find_error(subvalue):
+            return error
+
+    return None
+
+
 koreo_function_annotations: dict[str, celpy.Annotation] = {
     "to_ref": celtypes.FunctionType,
     "self_ref": celtypes.FunctionType,
@@ -414,4 +442,5 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64encode": _b64encode,
     "b64decode": _b64decode,
     "replace": _replace,
+    "string": _string,
 }
-- 
2.43.0


From ee47a1a9e4036a80303c04e8d3036f395b8641fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 09/25] fix: type() of a failed expression fails, wherever it
 is used

---
 src/koreo/cel/evaluation.py | 7 -------
 src/koreo/cel/functions.py  | 9 +++++++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index 04bdf0e..df9bafc 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -159,13 +159,6 @@ def check_for_celevalerror(
                 location=tree,
             )
 
-        case type() if issubclass(value, celpy.CELEvalError):
-            # This is `type(<failed expression>)`
-            return PermFail(
-                message=f"Error evaluating `{location}` (type of an error)",
-                location=location,
-            )
-
         case celtypes.MapType() | dict():
             for key, subvalue in value.items():
                 if eval_error := check_for_celevalerror(key, location):
diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index 735cba0..678d411 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -372,6 +372,14 @@ def _replace(
         return celpy.CELEvalError(f"Replace error {err}")
 
 
+def _type(value: celtypes.Value) -> type | celpy.CELEvalError:
+    # There is no type of a failure.
+    if error := _find_error(value):
+        return error
+
+    return type(value)
+
+
 def _string(value: celtypes.Value) -> celtypes.StringType | celpy.CELEvalError:
     # celpy's `string()` turns the failure of its argument into ordinary text.
     if error := _find_error(value):
@@ -443,4 +451,5 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64decode": _b64decode,
     "replace": _replace,
     "string": _string,
+    "type": _type,
 }
-- 
2.43.0


From df75275954baa5c9b5244184ab4a6d30ffd2b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 10/25] fix: a malformed last-applied annotation does not crash
 reconciliation

---
 .../resource_function/reconcile/__init__.py    | 14 ++++++++++++--
 .../resource_function/reconcile/validate.py    | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..1891d6e 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -828,14 +828,24 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
     annotations = metadata.get("annotations")
-    if not annotations:
+    if not annotations or not isinstance(annotations, dict):
         return None
 
     last_applied = annotations.get(LAST_APPLIED_ANNOTATION)
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    # Anyone may edit the annotation, hence it may contain anything.
+    try:
+        last_applied_value = json.loads(last_applied)
+    except (TypeError, ValueError):
+        logger.warning(f"Ignoring malformed `{LAST_APPLIED_ANNOTATION}` annotation.")
+        return None
+
+    if not isinstance(last_applied_value, dict):
+        return None
+
+    return last_applied_value
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..17e9902 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -110,6 +110,12 @@ def _list_to_object(
     return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
+def _is_list_of_objects(value) -> bool:
+    return isinstance(value, (list, tuple)) and all(
+        isinstance(item, dict) for item in value
+    )
+
+
 def _validate_dict_match(
     target: dict, actual: dict, last_applied_value: dict | None = None
 ) -> ResourceMatch:
@@ -129,7 +135,8 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    # It is read from an annotation, so its shape might not match the target's.
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -159,8 +166,10 @@ def _validate_dict_match(
             key_match = validate_match(
                 target=_list_to_object(target[target_key], map_keys),
                 actual=_list_to_object(compare_value, map_keys),
-                last_applied_value=_list_to_object(
-                    last_applied_value[target_key], map_keys
+                last_applied_value=(
+                    _list_to_object(last_applied_value[target_key], map_keys)
+                    if _is_list_of_objects(last_applied_value[target_key])
+                    else None
                 ),
             )
         else:
@@ -203,7 +212,8 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    # It is read from an annotation, so its shape might not match the target's.
+    if last_applied_value and isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
         last_applied_len = 0
-- 
2.43.0


From 129c24b65c5bf13582ba0cd81481f9618b86ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 11/25] fix: compare set and map directed lists by typed
 values, whatever the live value is

---
 .../resource_function/reconcile/validate.py   | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 17e9902..63dc926 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -97,19 +97,27 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
+    return tuple(_simple_value_key(obj.get(field)) for field in fields)
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
+) -> dict[tuple, dict] | None:
     if not obj_list:
         return None
 
     return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
+def _simple_value_key(value) -> tuple:
+    # Bool is tagged, due to Python's int truthiness rules
+    if isinstance(value, (dict, list, tuple)):
+        return ("complex", f"{value}")
+
+    return (isinstance(value, bool), value)
+
+
 def _is_list_of_objects(value) -> bool:
     return isinstance(value, (list, tuple)) and all(
         isinstance(item, dict) for item in value
@@ -161,7 +169,13 @@ def _validate_dict_match(
 
             compare_value = actual[target_key]
 
-        if target_key in compare_as_map:
+        # Anything else can not be keyed, but it can be compared as usual.
+        if (
+            target_key in compare_as_map
+            and target[target_key]
+            and _is_list_of_objects(target[target_key])
+            and _is_list_of_objects(compare_value)
+        ):
             map_keys = compare_as_map[target_key]
             key_match = validate_match(
                 target=_list_to_object(target[target_key], map_keys),
@@ -250,8 +264,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # Bool is tagged, due to Python's int truthiness rules
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -275,10 +290,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From fb0fcc59671290e328417a8c25f261b65322bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 12/25] fix: a target's copy of the last-applied annotation is
 neither sent nor compared

---
 src/koreo/resource_function/reconcile/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 1891d6e..b7c9cea 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _strip_last_applied(convert_bools(expected_resource))
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -848,8 +848,19 @@ def _extract_last_applied(resource: dict) -> dict | None:
     return last_applied_value
 
 
+def _strip_last_applied(obj: dict) -> dict:
+    """The annotation is always set to match what is sent, so a target may not
+    specify it (it might be copied from some other managed resource).
+    """
+    match obj:
+        case {"metadata": {"annotations": dict() as annotations}}:
+            annotations.pop(LAST_APPLIED_ANNOTATION, None)
+
+    return obj
+
+
 def _prepare_for_api(obj: dict) -> dict:
-    prepared = _strip_koreo_directives(obj)
+    prepared = _strip_last_applied(_strip_koreo_directives(obj))
 
     dumped = json.dumps(prepared)
 
-- 
2.43.0


From 44bc4981da9d2f794bbe0c73004264e55cd93cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 13/25] fix: a patch keeps the live owner references when the
 target specifies owners

---
 .../resource_function/reconcile/__init__.py   | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index b7c9cea..6aa2362 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -355,8 +355,14 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            # A merge patch replaces lists, so the current owners must be kept
+            # within it when it sets any.
+            new_owner_refs = converted_resource["metadata"].get("ownerReferences")
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                new_owner_refs = [*(new_owner_refs or ()), owner_ref]
+
+            if new_owner_refs is not None:
+                owner_refs = _updated_owner_refs(api_resource.raw, new_owner_refs)
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
@@ -662,7 +668,7 @@ async def _create_api_resource(
 
     owner_namespace, owner_ref = owner
     if owned_resource and owner_namespace == namespace:
-        owner_refs = _updated_owner_refs(resource_view, owner_ref)
+        owner_refs = _updated_owner_refs(resource_view, [owner_ref])
         if not is_unwrapped_ok(owner_refs):
             return owner_refs
 
@@ -739,7 +745,7 @@ def _forced_overlay(resource_api: type[APIObject], name: str, namespace: str | N
     return forced_overlay
 
 
-def _updated_owner_refs(resource_view: dict, owner_ref: dict):
+def _updated_owner_refs(resource_view: dict, new_owner_refs: Sequence[dict]):
     match resource_view:
         case {"metadata": metadata}:
             pass
@@ -753,7 +759,7 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
         case {"ownerReferences": owner_refs}:
             pass
         case dict():
-            return [owner_ref]
+            owner_refs = None
         case _:
             return PermFail(
                 message=f"Corrupt `metadata` while adding owner ref",
@@ -761,22 +767,26 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
             )
 
     if not owner_refs:
-        return [owner_ref]
+        owner_refs = []
 
-    if not isinstance(owner_refs, (list, tuple)):
-        return PermFail(
-            message=f"Corrupt `ownerReferences` while adding owner ref",
-            location="<api-add-owner>",
-        )
+    for refs in (owner_refs, new_owner_refs):
+        if not isinstance(refs, (list, tuple)) or not all(
+            isinstance(ref, dict) for ref in refs
+        ):
+            return PermFail(
+                message=f"Corrupt `ownerReferences` while adding owner ref",
+                location="<api-add-owner>",
+            )
 
-    trigger_uid = owner_ref.get("uid")
+    updated_owners = copy.deepcopy(owner_refs)
+    for owner_ref in new_owner_refs:
+        owner_uid = owner_ref.get("uid")
 
-    for current_ref in owner_refs:
-        if current_ref.get("uid") == trigger_uid:
-            return owner_refs
+        if any(current_ref.get("uid") == owner_uid for current_ref in updated_owners):
+            continue
+
+        updated_owners.append(owner_ref)
 
-    updated_owners = copy.deepcopy(owner_refs)
-    updated_owners.append(owner_ref)
     return updated_owners
 
 
-- 
2.43.0


From cd63150229c192ba9eb55bc887c2ed7efc891921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 14/25] fix: a ResourceFunction uses exactly the kind its
 apiConfig states

---
 src/koreo/resource_function/prepare.py | 51 ++++++++++++++++++++------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..d61c58e 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -6,6 +6,7 @@ logger = logging.getLogger("koreo.valuefunction.prepare")
 
 from kr8s._objects import APIObject
 import kr8s
+import kr8s.asyncio.objects
 
 import celpy
 
@@ -192,9 +193,6 @@ def _prepare_api_config(
         )
 
     plural = spec.get("plural")
-    if not plural:
-        plural = constants.PLURAL_LOOKUP_NEEDED
-
     namespaced = spec.get("namespaced", True)
     owned = spec.get("owned", True)
     readonly = spec.get("readonly", False)
@@ -221,21 +219,50 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
+    match _prepare_resource_api(
+        api_version=api_version, kind=kind, plural=plural, namespaced=namespaced
+    ):
+        case PermFail() as err:
+            return err
+        case resource_api:
+            # Just needed to set resource_api
+            pass
+
+    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+
+
+def _prepare_resource_api(
+    api_version: str, kind: str, plural: str | None, namespaced: bool
+) -> type[APIObject] | PermFail:
+    # kr8s would read any of these as some other kind or version.
+    if "." in kind or "/" in kind or api_version.count("/") > 1:
+        return PermFail(message=f"Invalid kind or apiVersion: {kind} / {api_version}")
+
+    # `kr8s.objects.get_class` finds similarly named kinds and the classes other
+    # Functions use, only an exact match of a well known kind may be used.
+    match getattr(kr8s.asyncio.objects, kind, None):
+        case type(
+            kind=known_kind,
+            version=known_version,
+            plural=known_plural,
+            namespaced=known_namespaced,
+        ) as known_class if (
+            (known_kind, known_version) == (kind, api_version)
+            and known_namespaced == namespaced
+            and known_plural == (plural or known_plural).lower()
+        ):
+            return known_class
+
     try:
-        resource_api = kr8s.objects.get_class(
+        return kr8s.asyncio.objects.new_class(
             version=api_version,
             kind=kind,
-            _asyncio=True,
-        )
-    except KeyError:
-        resource_api = kr8s.objects.new_class(
-            version=api_version,
-            kind=kind,
-            plural=plural,
+            plural=plural or constants.PLURAL_LOOKUP_NEEDED,
             namespaced=namespaced,
             asyncio=True,
         )
-    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+    except ValueError as err:
+        return PermFail(message=f"Invalid kind: {err}")
 
 
 def _prepare_resource_template(
-- 
2.43.0


From 0d714d72e91926ed6c418496cf3cecb0fc239736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 15/25] fix: a name that evaluates to no name is not used to
 name an object

---
 .../resource_function/reconcile/__init__.py   | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 6aa2362..33447c6 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -154,8 +154,24 @@ async def reconcile_krm_resource(
             )
 
         case celtypes.MapType({"name": name_value}) as resource_name_values:
-            name = f"{name_value}"
             namespace_value = resource_name_values.get("namespace")
+            if not _names_object(name_value):
+                return ReconcileResult(
+                    result=PermFail(
+                        message=f"`{name_value}` is not a valid `name`",
+                        location="spec.apiConfig.name",
+                    )
+                )
+
+            if namespace_value and not _names_object(namespace_value):
+                return ReconcileResult(
+                    result=PermFail(
+                        message=f"`{namespace_value}` is not a valid `namespace`",
+                        location="spec.apiConfig.namespace",
+                    )
+                )
+
+            name = f"{name_value}"
             if namespace_value:
                 namespace = f"{namespace_value}"
             else:
@@ -382,6 +398,17 @@ async def reconcile_krm_resource(
             )
 
 
+def _names_object(value: celtypes.Value | None) -> bool:
+    # Anything else has no name-like text form, `null` would be named "None".
+    match value:
+        case bool() | celtypes.BoolType():
+            return False
+        case str():
+            return bool(value)
+        case _:
+            return isinstance(value, (int, float))
+
+
 async def load_api_resource(
     api: kr8s.Api,
     resource_api: type[APIObject],
-- 
2.43.0


From 90b62783f55388521cddcb5bf403df1b37891d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 16/25] fix: a plural looked up using one API is not used with
 another

---
 .../resource_function/reconcile/__init__.py   | 14 ++++++++++--
 .../reconcile/kind_lookup.py                  | 22 ++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 33447c6..d2ddff8 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -1,5 +1,6 @@
 from typing import NamedTuple, Sequence
 import copy
+import functools
 import json
 import logging
 
@@ -216,8 +217,10 @@ async def reconcile_krm_resource(
                 result=PermFail(message=message, location=f"spec.apiConfig.plural")
             )
 
-        crud_config.resource_api.endpoint = plural
-        crud_config.resource_api.plural = plural
+        # The prepared Function is shared, it is not only used with this `api`.
+        crud_config = crud_config._replace(
+            resource_api=_with_plural(crud_config.resource_api, plural)
+        )
 
     resource_id = {
         "apiVersion": crud_config.resource_api.version,
@@ -398,6 +401,13 @@ async def reconcile_krm_resource(
             )
 
 
+@functools.lru_cache
+def _with_plural(resource_api: type[APIObject], plural: str) -> type[APIObject]:
+    return type(
+        resource_api.__name__, (resource_api,), {"endpoint": plural, "plural": plural}
+    )
+
+
 def _names_object(value: celtypes.Value | None) -> bool:
     # Anything else has no name-like text form, `null` would be named "None".
     match value:
diff --git a/src/koreo/resource_function/reconcile/kind_lookup.py b/src/koreo/resource_function/reconcile/kind_lookup.py
index 3f0d1b9..b046f2d 100644
--- a/src/koreo/resource_function/reconcile/kind_lookup.py
+++ b/src/koreo/resource_function/reconcile/kind_lookup.py
@@ -1,3 +1,4 @@
+from weakref import WeakKeyDictionary
 import asyncio
 import logging
 
@@ -7,9 +8,10 @@ logger = logging.getLogger("koreo.resource_function.reconcile")
 
 LOOKUP_TIMEOUT = 15
 
-_plural_map: dict[str, str] = {}
+# What one API (such as the mock FunctionTests use) answers is not true of others.
+_plural_maps: WeakKeyDictionary[kr8s.asyncio.Api, dict[str, str]] = WeakKeyDictionary()
 
-_lookup_locks: dict[str, asyncio.Event] = {}
+_lookup_locks: dict[tuple[kr8s.asyncio.Api, str], asyncio.Event] = {}
 
 
 async def get_plural_kind(
@@ -20,10 +22,13 @@ async def get_plural_kind(
     else:
         lookup_kind = f"{kind}.{api_version}"
 
+    _plural_map = _plural_maps.setdefault(api, {})
+    lock_key = (api, lookup_kind)
+
     if lookup_kind in _plural_map:
         return _plural_map[lookup_kind]
 
-    lookup_lock = _lookup_locks.get(lookup_kind)
+    lookup_lock = _lookup_locks.get(lock_key)
     if lookup_lock:
         try:
             await asyncio.wait_for(lookup_lock.wait(), timeout=LOOKUP_TIMEOUT)
@@ -36,7 +41,7 @@ async def get_plural_kind(
         raise Exception(f"Waiting on {lookup_kind} failed.")
 
     lookup_lock = asyncio.Event()
-    _lookup_locks[lookup_kind] = lookup_lock
+    _lookup_locks[lock_key] = lookup_lock
 
     for _ in range(3):
         try:
@@ -45,16 +50,16 @@ async def get_plural_kind(
                     (_, plural_kind, _) = await api.lookup_kind(lookup_kind)
                     break
                 except ValueError:
-                    del _lookup_locks[lookup_kind]
+                    del _lookup_locks[lock_key]
                     logger.error(f"Failed to find Kind (`{lookup_kind}`) information.")
                     return None
         except asyncio.TimeoutError:
             continue
         except:
-            del _lookup_locks[lookup_kind]
+            del _lookup_locks[lock_key]
             raise
     else:
-        del _lookup_locks[lookup_kind]
+        del _lookup_locks[lock_key]
         raise Exception(
             f"Too many failed attempts to find plural kind for {lookup_kind} failed."
         )
@@ -62,13 +67,14 @@ async def get_plural_kind(
     _plural_map[lookup_kind] = plural_kind
 
     lookup_lock.set()
+    del _lookup_locks[lock_key]
 
     return plural_kind
 
 
 def _reset():
     """Helper for unit testing; not intended for usage in normal code."""
-    _plural_map.clear()
+    _plural_maps.clear()
 
     for lock in _lookup_locks.values():
         lock.set()
-- 
2.43.0


From 63b6a9b54cd08135ffaac06ba0fa4b8407d23c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 17/25] fix: watch every Logic a step or overlay names, even if
 it can not be loaded

---
 src/koreo/resource_function/prepare.py | 10 ++++----
 src/koreo/workflow/prepare.py          | 33 +++++++++++++++++++-------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index d61c58e..33383da 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -327,6 +327,12 @@ def _prepare_overlays(
     used_value_functions: set[registry.Resource[ValueFunction]] = set()
 
     for idx, overlay_spec in enumerate(spec):
+        overlay_name = (overlay_spec.get("overlayRef") or {}).get("name")
+        if overlay_name:
+            used_value_functions.add(
+                registry.Resource(resource_type=ValueFunction, name=overlay_name)
+            )
+
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
         match prepare_expression(
@@ -379,10 +385,6 @@ def _prepare_overlays(
                         )
 
             case {"overlayRef": {"name": overlay_name}, **extras}:
-                used_value_functions.add(
-                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
-                )
-
                 inputs_spec = extras.pop("inputs", None)
                 if extras:
                     extra_keys = ", ".join(f"{key}" for key in extras.keys())
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 8fe402d..d855bdc 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -141,6 +141,7 @@ def _load_steps(
                     condition=None,
                 )
             )
+            resources.update(_named_resources(step_spec))
             continue
         step_resources, step_logic, needed_parent_properties = _load_step(
             cel_env, step_spec, known_steps
@@ -166,6 +167,23 @@ def _load_steps(
     )
 
 
+def _named_resources(step_spec: dict) -> set[LogicRegistryResource]:
+    """Everything a step names, even if it can not be loaded."""
+    resources = set[LogicRegistryResource]()
+    for logic_ref in (
+        step_spec.get("ref"),
+        *(step_spec.get("refSwitch") or {}).get("cases", ()),
+    ):
+        if not logic_ref:
+            continue
+
+        logic_resources, _ = _load_logic(logic_ref=logic_ref, location="")
+        if logic_resources:
+            resources.update(logic_resources)
+
+    return resources
+
+
 def _load_step(
     cel_env: celpy.Environment, step_spec: dict, known_steps: set[str]
 ) -> tuple[
@@ -535,15 +553,18 @@ def _load_logic_switch(
 ) -> tuple[set[LogicRegistryResource] | None, PermFail | Retry | structure.LogicSwitch]:
     dynamic_input_keys: set[str] = set()
 
+    # A change to any of these might be what makes the switch usable.
+    resources = _named_resources({"refSwitch": logic_switch})
+
     switch_on_spec = logic_switch.get("switchOn")
     match prepare_expression(cel_env=cel_env, spec=switch_on_spec, location=location):
         case None:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Missing `{location}.switchOn`, can not prepare Workflow.",
                 location=f"{location}.switchOn",
             )
         case PermFail() as err:
-            return None, err
+            return resources, err
         case celpy.Runner() as switch_on:
             dynamic_input_keys.update(extract_argument_structure(switch_on.ast))
 
@@ -556,17 +577,16 @@ def _load_logic_switch(
 
     default_logic = None
     logic_map = {}
-    resources = set[LogicRegistryResource]()
     for idx, case_spec in enumerate(cases_spec):
         case = case_spec.get("case")
         is_default = case_spec.get("default")
         if is_default and default_logic:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Only one case in `{location}.cases` may be default, can not prepare Workflow.",
                 location=f"{location}.cases[{idx}].default",
             )
 
-        logic_resources, logic = _load_logic(
+        _, logic = _load_logic(
             logic_ref=case_spec, location=f"{location}[{idx}]"
         )
 
@@ -583,9 +603,6 @@ def _load_logic_switch(
         if is_default:
             default_logic = logic
 
-        if logic_resources:
-            resources.update(logic_resources)
-
     functions_ready = unwrapped_combine(logic_map.values())
     if is_error(functions_ready):
         return resources, functions_ready
-- 
2.43.0


From 581c0cacd268b8d274a43b4441c95eae5fa95c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 18/25] fix: a parser error celpy can not describe is a
 PermFail, like any other

---
 src/koreo/cel/prepare.py       | 5 +++++
 src/koreo/predicate_helpers.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..5ecaed4 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -27,6 +27,11 @@ def prepare_expression(
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
         )
+    except Exception as err:
+        # celpy is not able to describe some of the errors the parser finds.
+        return PermFail(
+            message=f"Parsing error '{err}' in {location} ('{encoded}')",
+        )
 
     value.logger.setLevel(logging.WARNING)
 
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..5b887bf 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -32,6 +32,9 @@ def predicate_extractor(
             message=f"Parsing error at line {err.line}, column {err.column}. "
             f"'{err}' in '{predicates}'",
         )
+    except Exception as err:
+        # celpy is not able to describe some of the errors the parser finds.
+        return result.PermFail(message=f"Parsing error '{err}' in '{predicates}'")
 
     program.logger.setLevel(logging.WARNING)
     return program
-- 
2.43.0


From 1a88f8997cad4e93c517482e949f0757e413d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 19/25] fix: an index with an invalid escape does not prevent
 extracting references

---
 src/koreo/cel/structure_extractor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index e14e10c..eafdfcf 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -69,7 +69,11 @@ def _process_terminal(tree: Tree) -> str | None:
 
     literal: Token = index.children[0]
     if literal.type in ("STRING_LIT", "MLSTRING_LIT"):
-        return f"{celstr(literal)}"
+        try:
+            return f"{celstr(literal)}"
+        except (ValueError, OverflowError):
+            # An escape which is no character: it can not be evaluated either.
+            return None
 
     return f"{literal.value}"
 
-- 
2.43.0


From 9101c4bd0789fc03625f1de9c9567319143a32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 20/25] fix: an integer delay may be written as a float (JSON
 schema allows it)

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 5b887bf..8737473 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -60,7 +60,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 84ecf2dc07969c286736f178458f0dc220677fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 21/25] fix: integers which can not be represented are rejected
 when preparing

---
 src/koreo/schema/__init__.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/koreo/schema/__init__.py b/src/koreo/schema/__init__.py
index 797b5a3..5767c66 100644
--- a/src/koreo/schema/__init__.py
+++ b/src/koreo/schema/__init__.py
@@ -54,6 +54,29 @@ def validate(
         ).replace("data ", "spec ")
         return PermFail(validation_err)
 
+    out_of_range = _find_out_of_range_integer(spec)
+    if out_of_range is not None:
+        return PermFail(f"spec must only contain 64-bit integers ({out_of_range})")
+
+    return None
+
+
+# Neither Koreo Expressions nor Kubernetes can represent anything else.
+_MIN_INTEGER = -(2**63)
+_MAX_INTEGER = 2**63 - 1
+
+
+def _find_out_of_range_integer(spec: Any) -> int | None:
+    remaining = [spec]
+    while remaining:
+        match remaining.pop():
+            case dict() as value:
+                remaining.extend(value.values())
+            case list() as value:
+                remaining.extend(value)
+            case int() as value if not _MIN_INTEGER <= value <= _MAX_INTEGER:
+                return value
+
     return None
 
 
-- 
2.43.0


From 795bedede446e4c00e886b9eb234420d3e1b5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 22/25] fix: reject specs holding values which are neither JSON
 nor known to the expression library

A YAML date (or bytes, a set, ...) in a ResourceTemplate or in the inputs of a
FunctionTest made preparing it raise ValueError.
---
 src/koreo/schema/__init__.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/koreo/schema/__init__.py b/src/koreo/schema/__init__.py
index 5767c66..036f3b5 100644
--- a/src/koreo/schema/__init__.py
+++ b/src/koreo/schema/__init__.py
@@ -1,4 +1,5 @@
 from importlib import resources
+import datetime
 import logging
 from pathlib import Path
 from typing import Any
@@ -54,9 +55,12 @@ def validate(
         ).replace("data ", "spec ")
         return PermFail(validation_err)
 
-    out_of_range = _find_out_of_range_integer(spec)
-    if out_of_range is not None:
-        return PermFail(f"spec must only contain 64-bit integers ({out_of_range})")
+    unrepresentable = _find_unrepresentable(spec)
+    if unrepresentable is not None:
+        return PermFail(
+            "spec must only contain JSON values and 64-bit integers "
+            f"({unrepresentable} is a {type(unrepresentable).__name__})"
+        )
 
     return None
 
@@ -66,16 +70,29 @@ _MIN_INTEGER = -(2**63)
 _MAX_INTEGER = 2**63 - 1
 
 
-def _find_out_of_range_integer(spec: Any) -> int | None:
+def _find_unrepresentable(spec: Any) -> Any | None:
     remaining = [spec]
+    seen = set()  # YAML aliases may even make a spec contain itself
     while remaining:
         match remaining.pop():
+            case dict() | list() | tuple() as value if id(value) in seen:
+                pass
             case dict() as value:
+                seen.add(id(value))
+                remaining.extend(value.keys())
                 remaining.extend(value.values())
-            case list() as value:
+            case list() | tuple() as value:
+                seen.add(id(value))
                 remaining.extend(value)
             case int() as value if not _MIN_INTEGER <= value <= _MAX_INTEGER:
                 return value
+            case None | str() | int() | float():
+                pass
+            # YAML may have these, the expression library converts them.
+            case datetime.datetime() | datetime.timedelta():
+                pass
+            case _ as value:
+                return value
 
     return None
 
-- 
2.43.0


From 1203a032b9858863f9a051f04b4f574a03cad3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 23/25] fix: a failed plural lookup wakes what is waiting on it

---
 .../reconcile/kind_lookup.py                  | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/kind_lookup.py b/src/koreo/resource_function/reconcile/kind_lookup.py
index b046f2d..3babdd8 100644
--- a/src/koreo/resource_function/reconcile/kind_lookup.py
+++ b/src/koreo/resource_function/reconcile/kind_lookup.py
@@ -33,12 +33,12 @@ async def get_plural_kind(
         try:
             await asyncio.wait_for(lookup_lock.wait(), timeout=LOOKUP_TIMEOUT)
         except asyncio.TimeoutError:
-            pass
+            raise Exception(f"Waiting on {lookup_kind} failed.")
 
         if lookup_kind in _plural_map:
             return _plural_map[lookup_kind]
 
-        raise Exception(f"Waiting on {lookup_kind} failed.")
+        # The lookup waited for failed, so find out why by looking it up.
 
     lookup_lock = asyncio.Event()
     _lookup_locks[lock_key] = lookup_lock
@@ -50,28 +50,35 @@ async def get_plural_kind(
                     (_, plural_kind, _) = await api.lookup_kind(lookup_kind)
                     break
                 except ValueError:
-                    del _lookup_locks[lock_key]
+                    _release(lock_key, lookup_lock)
                     logger.error(f"Failed to find Kind (`{lookup_kind}`) information.")
                     return None
         except asyncio.TimeoutError:
             continue
         except:
-            del _lookup_locks[lock_key]
+            _release(lock_key, lookup_lock)
             raise
     else:
-        del _lookup_locks[lock_key]
+        _release(lock_key, lookup_lock)
         raise Exception(
             f"Too many failed attempts to find plural kind for {lookup_kind} failed."
         )
 
     _plural_map[lookup_kind] = plural_kind
 
-    lookup_lock.set()
-    del _lookup_locks[lock_key]
+    _release(lock_key, lookup_lock)
 
     return plural_kind
 
 
+def _release(lock_key: tuple[kr8s.asyncio.Api, str], lookup_lock: asyncio.Event):
+    """Wakes everything waiting on a lookup, whether or not it succeeded."""
+    lookup_lock.set()
+
+    if _lookup_locks.get(lock_key) is lookup_lock:
+        del _lookup_locks[lock_key]
+
+
 def _reset():
     """Helper for unit testing; not intended for usage in normal code."""
     _plural_maps.clear()
-- 
2.43.0


From c8de1b3691281138e34aa811b5ad96385549fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 24/25] fix: a Workflow which refers to itself is PermFail
 instead of raising

---
 src/koreo/cache.py    | 19 +++++++++++++++++--
 src/koreo/registry.py |  9 +++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index b1d0061..4923741 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -5,7 +5,7 @@ import logging
 import time
 
 from koreo.constants import ACTIVE_LABEL
-from koreo.result import UnwrappedOutcome, is_unwrapped_ok
+from koreo.result import PermFail, UnwrappedOutcome, is_unwrapped_ok
 from koreo import registry
 
 
@@ -77,6 +77,9 @@ async def prepare_and_cache(
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if registry.closes_cycle(subscriber=resource, resources=subscriptions or []):
+        prepared_resource, subscriptions = _cyclic(resource), None
+
     __CACHE[resource_key] = __CachedResource[T](
         spec=spec,
         resource=prepared_resource,
@@ -156,6 +159,14 @@ async def delete_from_cache(
     return None
 
 
+def _cyclic(resource: registry.Resource) -> PermFail:
+    resource_type = resource.resource_type.__qualname__
+    return PermFail(
+        message=f"{resource_type} '{resource.name}' refers to itself, directly or indirectly.",
+        location=f"prepare:{resource_type}:{resource.name}",
+    )
+
+
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
 
 # When the cached resource last changed, so that a change which happens while a
@@ -266,12 +277,17 @@ async def _reprepare_and_update_cache(
         if __CACHE.get(resource_key) is cached:
             break
 
+    resource = registry.Resource(resource_type=resource_class, name=cache_key)
+
     if is_unwrapped_ok(preparer_outcome):
         prepared_resource, subscriptions = preparer_outcome
     else:
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if registry.closes_cycle(subscriber=resource, resources=subscriptions or []):
+        prepared_resource, subscriptions = _cyclic(resource), None
+
     __CACHE[resource_key] = cached._replace(
         resource=prepared_resource, prepared_at=prepare_started_at
     )
@@ -280,7 +296,6 @@ async def _reprepare_and_update_cache(
         f"Repreparing {cache_key} ({cached.resource_version}) in {resource_class.__qualname__} cache."
     )
 
-    resource = registry.Resource(resource_type=resource_class, name=cache_key)
     await _handle_notifications(
         resource=resource,
         subscriptions=subscriptions,
diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 9df2ace..692b729 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -74,6 +74,15 @@ def subscribe_only_to(subscriber: Resource, resources: Sequence[Resource]):
     logger.debug(f"{subscriber} subscribing to {resources}")
 
 
+def closes_cycle(subscriber: Resource, resources: Sequence[Resource]) -> bool:
+    try:
+        _check_for_cycles(subscriber, resources)
+    except SubscriptionCycle:
+        return True
+
+    return False
+
+
 def unsubscribe(unsubscriber: Resource, resource: Resource):
     _RESOURCE_SUBSCRIBERS[resource].remove(unsubscriber)
     _SUBSCRIBER_RESOURCES[unsubscriber].remove(resource)
-- 
2.43.0


From eb6ed8c151646befe655dfe01c9314a3c0182a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 25/25] fix: ownerReferences outside metadata are compared like
 any other field

---
 .../resource_function/reconcile/__init__.py   |  1 +
 .../resource_function/reconcile/validate.py   | 22 +++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index d2ddff8..2df82d2 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -346,6 +346,7 @@ async def reconcile_krm_resource(
         target=converted_resource,
         actual=api_resource.raw,
         last_applied_value=last_applied,
+        ignored_paths=(("metadata", "ownerReferences"),),
     )
     if resource_match.match and owner_reffed:
         logger.debug(f"{full_resource_name} matched spec, no update required.")
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 63dc926..3ac2d09 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -13,17 +13,20 @@ def validate_match(
     actual,
     last_applied_value=None,
     compare_list_as_set: bool = False,
+    ignored_paths: Sequence[tuple] = (("ownerReferences",),),
 ) -> ResourceMatch:
     """Compare the specified (`target`) state against the actual (`actual`)
     reosurce state. We compare all target fields and ignore anything extra so
     that defaults, controller set, or explicitly set values do not cause
-    compare issues.
+    compare issues. The keys `ignored_paths` lead to are not compared.
     """
 
     match (target, actual):
         # Objects need a special comparator
         case dict(), dict():
-            return _validate_dict_match(target, actual, last_applied_value)
+            return _validate_dict_match(
+                target, actual, last_applied_value, ignored_paths
+            )
         case dict(), _:
             return ResourceMatch(
                 match=False,
@@ -125,7 +128,10 @@ def _is_list_of_objects(value) -> bool:
 
 
 def _validate_dict_match(
-    target: dict, actual: dict, last_applied_value: dict | None = None
+    target: dict,
+    actual: dict,
+    last_applied_value: dict | None = None,
+    ignored_paths: Sequence[tuple] = (),
 ) -> ResourceMatch:
     target_keys = set(target.keys()) - KOREO_DIRECTIVE_KEYS
 
@@ -148,10 +154,7 @@ def _validate_dict_match(
         last_applied_value = {}
 
     for target_key in target_keys:
-        # TODO: At some point, this will appear outside metadata and eventually
-        # cause a problem. Perhaps `_extract_last_applied` should instead
-        # mutate the object for compare?
-        if target_key == "ownerReferences":
+        if (target_key,) in ignored_paths:
             continue
 
         # NOTE: I'm not sure this is correct.
@@ -185,6 +188,7 @@ def _validate_dict_match(
                     if _is_list_of_objects(last_applied_value[target_key])
                     else None
                 ),
+                ignored_paths=(),
             )
         else:
             key_match = validate_match(
@@ -192,6 +196,9 @@ def _validate_dict_match(
                 actual=compare_value,
                 last_applied_value=last_applied_value[target_key],
                 compare_list_as_set=(target_key in compare_list_as_set_keys),
+                ignored_paths=[
+                    path[1:] for path in ignored_paths if path[0] == target_key
+                ],
             )
 
         if not key_match.match:
@@ -242,6 +249,7 @@ def _validate_list_match(
             target=target_value,
             actual=actual_value,
             last_applied_value=last_applied_item_value,
+            ignored_paths=(),
         )
         if not item_match.match:
             differences = [f"at index '{idx}'"]
-- 
2.43.0

