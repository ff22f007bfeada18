From a46727b95321bcf740a27e84ef4c926c81bbf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 01/28] fix: notify_subscribers skips subscribers whose queue
 is shut down

A killed (but not yet deregistered) subscriber made put_nowait raise
QueueShutDown, aborting the notification of the remaining subscribers and
the call which triggered it.
---
 src/koreo/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..8e47c80 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,6 +102,9 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
+        except asyncio.QueueShutDown:
+            # Killed, but not yet deregistered. It no longer listens.
+            pass
         except asyncio.QueueFull:
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
-- 
2.43.0


From 1a3e24ff253393d803b5233417e15ed66f740f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 02/28] fix: deleting a cached resource forgets its monitor
 immediately

The cancelled monitor stayed registered until its done-callback ran, so a
resource which was offered again straight away got no new monitor, and the
callback then deregistered the new entry: it was never prepared again.
---
 src/koreo/cache.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..08b97fc 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,11 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # The monitor has not had a chance to see its queue shut down. Forget it now,
+    # so that the resource may be offered (and monitored) again straight away.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -271,8 +273,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If the resource was deleted this task was already forgotten, and the
+        # resource might have been offered again since.
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From e63e4c91b121e2daa374c5eefae8b4ac85a806b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 03/28] fix: the cache stays current when preparers are
 suspended

While a preparer is suspended a newer version may be offered, the resource may
be deleted, or something it depends on may change. The result of a superseded
preparation no longer overwrites the newer entry, an obsolete repreparation is
repeated for the current entry, and a change which happened before the
subscription existed triggers another preparation.
---
 src/koreo/cache.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 08b97fc..48b59b0 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -60,6 +60,10 @@ async def prepare_and_cache(
 
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
+    # Preparing may be suspended, this identifies the most recent offer.
+    offer = object()
+    _LATEST_OFFER[resource_key] = offer
+
     cached = __CACHE.get(resource_key)
 
     if cached and cached.resource_version == resource_metadata.resource_version:
@@ -77,6 +81,10 @@ async def prepare_and_cache(
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if _LATEST_OFFER[resource_key] is not offer:
+        # A newer version was offered while this was preparing.
+        return prepared_resource
+
     __CACHE[resource_key] = __CachedResource[T](
         spec=spec,
         resource=prepared_resource,
@@ -129,6 +137,7 @@ async def delete_from_cache(
 
     deleted_at = time.monotonic()
     del __CACHE[resource_key]
+    _CHANGE_TIMES[resource_key] = deleted_at
 
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     queue = registry.kill_resource(resource=resource)
@@ -155,7 +164,9 @@ async def delete_from_cache(
     return None
 
 
+_LATEST_OFFER: dict[registry.Resource, object] = {}
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
+_CHANGE_TIMES: dict[registry.Resource, float] = {}
 
 
 async def _handle_notifications(
@@ -167,12 +178,22 @@ async def _handle_notifications(
 ):
     # We need to track the earliest possible time of prepare.
     _PREPARE_TIMES[resource] = prepare_started_at
+    _CHANGE_TIMES[resource] = prepare_finished_at
 
     if not subscriptions:
         subscriptions = []
 
     registry.subscribe_only_to(subscriber=resource, resources=subscriptions)
 
+    # Anything which changed while this was preparing might not have been seen.
+    queue = registry.register(registerer=resource)
+    for subscription in subscriptions:
+        changed_at = _CHANGE_TIMES.get(subscription, 0)
+        if changed_at > prepare_started_at:
+            queue.put_nowait(
+                registry.ResourceEvent(resource=subscription, event_time=changed_at)
+            )
+
     # We need to send the latest possible time to subscribers.
     registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
 
@@ -237,13 +258,18 @@ async def _reprepare_and_update_cache(
 ) -> None:
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
-    cached = __CACHE.get(resource_key)
-    if not cached:
-        return
+    while True:
+        cached = __CACHE.get(resource_key)
+        if not cached:
+            return
 
-    prepare_started_at = time.monotonic()
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
-    prepare_finished_at = time.monotonic()
+        prepare_started_at = time.monotonic()
+        preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
+        prepare_finished_at = time.monotonic()
+
+        # If it was deleted or replaced while preparing, this is obsolete.
+        if __CACHE.get(resource_key) is cached:
+            break
 
     if is_unwrapped_ok(preparer_outcome):
         prepared_resource, subscriptions = preparer_outcome
-- 
2.43.0


From 19bded50a3efc40ce7c5b8b8049026f05bae19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 04/28] fix: the drift comparison copes with any shape of live
 and last-applied values

Last-applied values of another shape (or a corrupt annotation) crashed the
comparison, which then never corrected drift; map-directed lists that became
null or hold non-objects crashed or were taken for a match, distinct keys could
collapse, and set-directed lists did not tell true from 1.
---
 .../resource_function/reconcile/__init__.py   |   9 +-
 .../resource_function/reconcile/validate.py   | 101 +++++++++++++-----
 2 files changed, 83 insertions(+), 27 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..06e2b82 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -828,14 +828,19 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
     annotations = metadata.get("annotations")
-    if not annotations:
+    if not isinstance(annotations, dict):
         return None
 
     last_applied = annotations.get(LAST_APPLIED_ANNOTATION)
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        return json.loads(last_applied)
+    except (TypeError, ValueError):
+        # Others may have written the annotation.
+        logger.warning(f"Ignoring corrupt {LAST_APPLIED_ANNOTATION} annotation.")
+        return None
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..a58a5bf 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -1,4 +1,5 @@
 from typing import NamedTuple, Sequence
+import json
 
 from koreo.constants import KOREO_DIRECTIVE_KEYS
 
@@ -97,19 +98,72 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _typed(value):
+    """Python considers `True == 1` and `False == 0`, the API does not."""
+    return (isinstance(value, bool), value)
+
+
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
+    key = []
+    for field in fields:
+        value = obj.get(field)
+        if isinstance(value, (dict, list, tuple)):
+            value = json.dumps(value, sort_keys=True, default=str)
+        key.append(_typed(value))
+    return tuple(key)
+
+
+def _is_collection(value) -> bool:
+    return isinstance(value, (list, tuple)) and all(
+        isinstance(item, dict) for item in value
+    )
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
-    if not obj_list:
-        return None
-
+) -> dict[tuple, dict]:
     return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
+def _validate_collection_match(
+    target,
+    actual,
+    key_fields: Sequence[int | str],
+    last_applied_value=None,
+) -> ResourceMatch:
+    if not (target and _is_collection(target) and _is_collection(actual)):
+        return validate_match(
+            target=target, actual=actual, last_applied_value=last_applied_value
+        )
+
+    actual_items = _list_to_object(actual, key_fields)
+
+    if _is_collection(last_applied_value):
+        last_applied_items = _list_to_object(last_applied_value, key_fields)
+    else:
+        last_applied_items = {}
+
+    for item_key, target_item in _list_to_object(target, key_fields).items():
+        key_label = "$".join(f"{value}".strip() for _, value in item_key)
+
+        if item_key not in actual_items:
+            return ResourceMatch(
+                match=False, differences=[f"<missing '{key_label}' in resource>"]
+            )
+
+        item_match = validate_match(
+            target=target_item,
+            actual=actual_items[item_key],
+            last_applied_value=last_applied_items.get(item_key),
+        )
+        if not item_match.match:
+            differences = [f"'{key_label}'"]
+            differences.extend(item_match.differences)
+            return ResourceMatch(match=False, differences=differences)
+
+    return ResourceMatch(match=True, differences=())
+
+
 def _validate_dict_match(
     target: dict, actual: dict, last_applied_value: dict | None = None
 ) -> ResourceMatch:
@@ -129,7 +183,8 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    # What was last applied may have had any shape.
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -139,12 +194,10 @@ def _validate_dict_match(
         if target_key == "ownerReferences":
             continue
 
-        # NOTE: I'm not sure this is correct.
-        if target_key not in last_applied_value:
-            last_applied_value[target_key] = None
+        last_applied_key_value = last_applied_value.get(target_key)
 
         if target_key in compare_last_applied_keys:
-            compare_value = last_applied_value[target_key]
+            compare_value = last_applied_key_value
 
         else:
             if target_key not in actual:
@@ -155,19 +208,17 @@ def _validate_dict_match(
             compare_value = actual[target_key]
 
         if target_key in compare_as_map:
-            map_keys = compare_as_map[target_key]
-            key_match = validate_match(
-                target=_list_to_object(target[target_key], map_keys),
-                actual=_list_to_object(compare_value, map_keys),
-                last_applied_value=_list_to_object(
-                    last_applied_value[target_key], map_keys
-                ),
+            key_match = _validate_collection_match(
+                target=target[target_key],
+                actual=compare_value,
+                key_fields=compare_as_map[target_key],
+                last_applied_value=last_applied_key_value,
             )
         else:
             key_match = validate_match(
                 target=target[target_key],
                 actual=compare_value,
-                last_applied_value=last_applied_value[target_key],
+                last_applied_value=last_applied_key_value,
                 compare_list_as_set=(target_key in compare_list_as_set_keys),
             )
 
@@ -203,13 +254,13 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    if isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
         last_applied_len = 0
 
     for idx, (target_value, actual_value) in enumerate(zip(target, actual)):
-        if last_applied_value and idx < last_applied_len:
+        if idx < last_applied_len:
             last_applied_item_value = last_applied_value[idx]
         else:
             last_applied_item_value = None
@@ -240,8 +291,8 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        target_set = {_typed(value) for value in target}
+        actual_set = {_typed(value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -265,10 +316,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From 2b25b03680a118e47f351c7cfdc97b8b05c4c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 05/28] fix: cluster-scoped resources carry neither a namespace
 nor an owner in one

---
 src/koreo/resource_function/reconcile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 06e2b82..972ab96 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -156,7 +156,7 @@ async def reconcile_krm_resource(
         case celtypes.MapType({"name": name_value}) as resource_name_values:
             name = f"{name_value}"
             namespace_value = resource_name_values.get("namespace")
-            if namespace_value:
+            if namespace_value and crud_config.resource_api.namespaced:
                 namespace = f"{namespace_value}"
             else:
                 namespace = None
-- 
2.43.0


From b937307b2175c21bb4cde9caf27c5d66826441fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 06/28] fix: payloads are truthful: last-applied describes what
 is sent, live owners are kept

A target holding the last-applied annotation was sent with an annotation that
describes itself and never matched again; a target with owner references dropped
the live ones when patched; null annotations crashed.
---
 .../resource_function/reconcile/__init__.py   | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 972ab96..6788211 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _without_last_applied(convert_bools(expected_resource))
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -355,11 +355,20 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            # A patch replaces the whole list, so it must extend the live one.
+            new_refs = list(
+                converted_resource["metadata"].pop("ownerReferences", None) or ()
+            )
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                new_refs.append(owner_ref)
+
+            owners_view = api_resource.raw
+            for new_ref in new_refs:
+                owner_refs = _updated_owner_refs(owners_view, new_ref)
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
+                owners_view = {"metadata": {"ownerReferences": owner_refs}}
                 converted_resource["metadata"]["ownerReferences"] = owner_refs
 
             await api_resource.patch(_prepare_for_api(converted_resource))
@@ -843,15 +852,37 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
 
+def _without_last_applied(obj: dict) -> dict:
+    """The annotation is bookkeeping, it is never part of the specification."""
+    match obj:
+        case {"metadata": {"annotations": dict() as annotations} as metadata}:
+            if LAST_APPLIED_ANNOTATION not in annotations:
+                return obj
+
+            return obj | {
+                "metadata": metadata
+                | {
+                    "annotations": {
+                        key: value
+                        for key, value in annotations.items()
+                        if key != LAST_APPLIED_ANNOTATION
+                    }
+                }
+            }
+
+        case _:
+            return obj
+
+
 def _prepare_for_api(obj: dict) -> dict:
-    prepared = _strip_koreo_directives(obj)
+    prepared = _without_last_applied(_strip_koreo_directives(obj))
 
     dumped = json.dumps(prepared)
 
     if "metadata" not in prepared:
         prepared["metadata"] = {}
 
-    if "annotations" not in prepared["metadata"]:
+    if prepared["metadata"].get("annotations") is None:
         prepared["metadata"]["annotations"] = {}
 
     prepared["metadata"]["annotations"][LAST_APPLIED_ANNOTATION] = dumped
-- 
2.43.0


From cd3377087d533f528935f813512b1f2a33901b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 07/28] fix: apiConfig decides the API class, not what kr8s
 happens to know

kr8s finds a class of another API group for core kinds (v1 Service after
serving.knative.dev/v1 Service), other spellings of a kind, and the class of a
prior definition whose plural or scope was since corrected; it also reads another
apiVersion out of a kind with a dot.
---
 src/koreo/resource_function/prepare.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..86dba6b 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -221,6 +221,12 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
+    if "." in kind or "/" in kind or api_version.count("/") > 1:
+        # kr8s would read (parts of) another `apiVersion` from these.
+        return PermFail(
+            message=f"Invalid `kind` or `apiVersion` ({kind}, {api_version})"
+        )
+
     try:
         resource_api = kr8s.objects.get_class(
             version=api_version,
@@ -228,6 +234,16 @@ def _prepare_api_config(
             _asyncio=True,
         )
     except KeyError:
+        resource_api = None
+
+    # kr8s also finds other API groups, and prior definitions of this kind.
+    if (
+        resource_api is None
+        or resource_api.version != api_version
+        or resource_api.kind != kind
+        or (spec.get("plural") and resource_api.plural != plural.lower())
+        or ("namespaced" in spec and resource_api.namespaced != namespaced)
+    ):
         resource_api = kr8s.objects.new_class(
             version=api_version,
             kind=kind,
@@ -235,6 +251,7 @@ def _prepare_api_config(
             namespaced=namespaced,
             asyncio=True,
         )
+
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
 
-- 
2.43.0


From a0e2c9ee643ac18a93452e2359d9080a05254fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 08/28] fix: static reference analysis decodes indexes and
 never raises

---
 src/koreo/cel/structure_extractor.py   | 170 +++++++++----------------
 src/koreo/resource_function/prepare.py |   2 +-
 src/koreo/workflow/prepare.py          |   4 +-
 3 files changed, 65 insertions(+), 111 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..d31dae9 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,86 @@
-from lark import Tree, Token
+from lark import Token, Tree
+
+from celpy.evaluation import celstr
 
 
 def extract_argument_structure(compiled: Tree) -> set[str]:
+    """Dotted paths of the statically named member accesses in an expression.
+
+    Accesses whose path is not static (dynamic indexes, call results, literals)
+    have no name; the statically named accesses within them are still found,
+    because every subtree is considered.
+    """
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
-
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+        if thing.data in ("member_dot", "member_index"):
+            if member := _process_member(thing):
+                var_map.add(member)
 
     return var_map
 
 
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
-
-
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
-
-
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal: Tree = tree.children[1]
+def _process_member(tree: Tree) -> str | None:
+    """The dotted path of a member access, None when it is not static."""
+    names: list[str] = []
 
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
+    current: Tree | None = tree
+    while current is not None:
+        match current.data:
+            case "member_dot" | "member_dot_arg":
+                names.append(f"{current.children[1]}")
+                current = _unwrap(current.children[0])
 
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
+            case "member_index":
+                index_name = _literal_name(_unwrap(current.children[1]))
+                if index_name is None:
+                    return None
+                names.append(index_name)
+                current = _unwrap(current.children[0])
 
-            terminal: Tree = terminal.children[0]
+            case "ident" | "dot_ident":
+                names.append(f"{current.children[0]}")
+                return ".".join(reversed(names))
 
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
+            case "literal":
+                root_name = _literal_name(current)
+                if root_name is None:
+                    return None
+                names.append(root_name)
+                return ".".join(reversed(names))
 
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
+            case _:
+                return None
 
-    root: Tree = tree.children[0].children[0]
+    return None
 
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
 
-    return f"{root_value}.{terminal_value}"
+def _unwrap(tree: Tree | Token | None) -> Tree | None:
+    """Descend through parentheses and rules which only wrap another rule."""
+    while isinstance(tree, Tree):
+        if tree.data in ("literal", "ident", "dot_ident"):
+            return tree
 
+        if tree.data.startswith(("member_", "ident_", "dot_ident_", "list_", "map_")):
+            return tree
 
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+        children = [child for child in tree.children if child is not None]
+        if len(children) != 1:
+            return None
 
-    primary: Tree = tree.children[0]
+        tree = children[0]
 
-    # print(f"{len(tree.children)}: {primary}")
+    return None
 
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
 
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+def _literal_name(tree: Tree | None) -> str | None:
+    if tree is None or tree.data != "literal":
+        return None
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    literal = tree.children[0]
+    match literal.type:
+        case "STRING_LIT" | "MLSTRING_LIT":
+            return f"{celstr(literal)}"
+        case "BYTES_LIT":
+            return None
+        case _:
+            return f"{literal.value}"
diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 86dba6b..4cb0760 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -294,7 +294,7 @@ def _prepare_resource_template(
             )
 
 
-INPUTS_NAME_PATTERN = re.compile(r"inputs.(?P<name>[^.[]+)?\[?.*")
+INPUTS_NAME_PATTERN = re.compile(r"inputs\.(?P<name>[^.[]+)")
 
 
 def _prepare_overlays(
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..4693194 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -99,8 +99,8 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+PARENT_NAME_PATTERN = re.compile(r"parent\.(?P<name>.*)")
+STEPS_NAME_PATTERN = re.compile(r"steps\.(?P<name>[^.[]+)")
 
 
 LogicRegistryResource = registry.Resource[
-- 
2.43.0


From 931f53b11efa593d013dd59d5cd1fe3bdefa4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 09/28] fix: a crashed or timed-out step is not reported as
 ready

---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..6a0b78c 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From 7a19b46adfec19c4fc27c4390a833b8c5f1f0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 10/28] fix: preparing overlays does not strip skipIf from the
 cached spec

---
 src/koreo/resource_function/prepare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 4cb0760..583e7c6 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -317,6 +317,8 @@ def _prepare_overlays(
     used_value_functions: set[registry.Resource[ValueFunction]] = set()
 
     for idx, overlay_spec in enumerate(spec):
+        # The spec belongs to the cache, hence it must not be altered.
+        overlay_spec = dict(overlay_spec)
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
         match prepare_expression(
-- 
2.43.0


From 9e4e84c2eb4a662be47d21e58467d1a3aa74886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 11/28] fix: an argument which fails to evaluate fails the
 function call

group_ref, to_ref, config_connect_ready and the like ignored error values
inside their arguments and returned data; string() turned the error into
its text.
---
 src/koreo/cel/functions.py | 76 ++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..725f753 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,3 +1,4 @@
+from functools import wraps
 import copy
 import json
 import base64
@@ -394,24 +395,61 @@ koreo_function_annotations: dict[str, celpy.Annotation] = {
     "replace": celtypes.FunctionType,
 }
 
+def _find_error(value: celtypes.Value | celpy.CELEvalError):
+    match value:
+        case celpy.CELEvalError():
+            return value
+
+        case dict():
+            values = value.values()
+
+        case list() | tuple():
+            values = value
+
+        case _:
+            return None
+
+    for nested in values:
+        if (error := _find_error(nested)) is not None:
+            return error
+
+    return None
+
+
+def _propagate_errors(function: celpy.CELFunction) -> celpy.CELFunction:
+    """An argument that could not be evaluated must not be mistaken for data."""
+
+    @wraps(function, updated=())
+    def propagating(*args):
+        for arg in args:
+            if (error := _find_error(arg)) is not None:
+                return error
+
+        return function(*args)
+
+    return propagating
+
+
 koreo_cel_functions: dict[str, celpy.CELFunction] = {
-    "to_ref": _to_ref,
-    "self_ref": _self_ref,
-    "group_ref": _group_ref,
-    "kindless_ref": _kindless_ref,
-    "config_connect_ready": _config_connect_ready,
-    "overlay": _overlay,
-    "lower": _lower,
-    "flatten": _flatten,
-    "split": _split,
-    "split_first": _split_first,
-    "split_last": _split_last,
-    "split_index": _split_index,
-    "strip": _strip,
-    "rstrip": _rstrip,
-    "to_json": _to_json,
-    "from_json": _from_json,
-    "b64encode": _b64encode,
-    "b64decode": _b64decode,
-    "replace": _replace,
+    "to_ref": _propagate_errors(_to_ref),
+    "self_ref": _propagate_errors(_self_ref),
+    "group_ref": _propagate_errors(_group_ref),
+    "kindless_ref": _propagate_errors(_kindless_ref),
+    "config_connect_ready": _propagate_errors(_config_connect_ready),
+    "overlay": _propagate_errors(_overlay),
+    "lower": _propagate_errors(_lower),
+    "flatten": _propagate_errors(_flatten),
+    "split": _propagate_errors(_split),
+    "split_first": _propagate_errors(_split_first),
+    "split_last": _propagate_errors(_split_last),
+    "split_index": _propagate_errors(_split_index),
+    "strip": _propagate_errors(_strip),
+    "rstrip": _propagate_errors(_rstrip),
+    "to_json": _propagate_errors(_to_json),
+    "from_json": _propagate_errors(_from_json),
+    "b64encode": _propagate_errors(_b64encode),
+    "b64decode": _propagate_errors(_b64decode),
+    "replace": _propagate_errors(_replace),
+    # CEL's own conversion would turn an error's text into data.
+    "string": _propagate_errors(celtypes.StringType),
 }
-- 
2.43.0


From 6e428820b609d991e7b30e7a39808b68965f211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 12/28] fix: an error whose expression cannot be dumped is
 still reported

---
 src/koreo/cel/evaluation.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..1028a47 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _describe_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _describe_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _describe_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -136,12 +136,25 @@ def _overlay_applier(
     return overlaid
 
 
+def _describe_tree(tree) -> str:
+    if not tree:
+        return ""
+
+    # The dumper does not cope with every tree the parser produces. Failing to
+    # describe an error must not hide it.
+    try:
+        return tree_dump(tree)
+    except Exception:
+        logger.debug("Could not dump expression tree.", exc_info=True)
+        return ""
+
+
 def check_for_celevalerror(
     value: celtypes.Value | celpy.CELEvalError, location: str | None
 ) -> None | PermFail:
     match value:
         case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+            tree = _describe_tree(error_tree)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
-- 
2.43.0


From 2cd66feee2edfa99b33df6648477348fa8169466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 13/28] fix: static values are quoted so that they reach
 results unchanged

---
 src/koreo/cel/encoder.py            | 51 +++++++++++++++++------------
 src/koreo/value_function/prepare.py |  9 ++++-
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..92fc5a0 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,7 @@
 from typing import Any
 import base64
+import math
+import re
 
 from celpy import celtypes
 
@@ -58,7 +60,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'{_encode_str(f"{key}")}:{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -74,35 +76,42 @@ def encode_cel(value: Any) -> str:
     if _encode_plain(value):
         return f"{value}"
 
-    if not value:
-        return '""'
-
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
+        return _encode_str(value)
 
-        if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+    return value.lstrip(CEL_PREFIX)
 
-        return f'"{value}"'  # fmt: skip
 
-    return value.lstrip(CEL_PREFIX)
+_ESCAPES = str.maketrans(
+    {
+        "\\": r"\\",
+        '"': r"\"",
+        "\n": r"\n",
+        "\r": r"\r",
+        "\t": r"\t",
+    }
+)
+
+
+def _encode_str(value: str) -> str:
+    quote = '"""' if '"' in value else '"'
+    return f"{quote}{value.translate(_ESCAPES)}{quote}"
+
+
+_DECIMAL_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
+_INT_MIN, _INT_MAX = -(2**63), 2**63 - 1
 
 
 def _encode_plain(maybe_number) -> bool:
     if not isinstance(maybe_number, str):
         return True
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
+    if not (numeral := _DECIMAL_NUMERAL.fullmatch(maybe_number)):
+        return False
 
-    try:
-        float(maybe_number)
-        return True
-    except ValueError:
-        pass
+    # A numeral CEL can not represent stays the string it is.
+    if any(numeral.groups()):
+        return math.isfinite(float(maybe_number))
 
-    return False
+    digits = maybe_number.lstrip("-").lstrip("0")
+    return len(digits) <= 19 and _INT_MIN <= int(maybe_number) <= _INT_MAX
diff --git a/src/koreo/value_function/prepare.py b/src/koreo/value_function/prepare.py
index 2580d0c..df35da4 100644
--- a/src/koreo/value_function/prepare.py
+++ b/src/koreo/value_function/prepare.py
@@ -65,14 +65,21 @@ async def prepare_value_function(
         case celpy.Runner() as local_values:
             used_vars.update(extract_argument_structure(local_values.ast))
 
+    return_spec = spec.get("return")
     match prepare_overlay_expression(
-        cel_env=env, spec=spec.get("return"), location="spec.return"
+        cel_env=env, spec=return_spec, location="spec.return"
     ):
         case PermFail(message=message):
             return PermFail(
                 message=message,
                 location=_location(cache_key, "spec.return"),
             )
+        case None if return_spec is not None:
+            # An empty map is a value.
+            return_value = Overlay(
+                value_index={}, values=env.program(env.compile("[]"))
+            )
+
         case None:
             return_value = None
 
-- 
2.43.0


From 56d070e6bbb482fcd8490e7b3eafa06e30139c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 14/28] fix: logic named by a definition which is not ready is
 still watched

---
 src/koreo/resource_function/prepare.py | 11 +++++---
 src/koreo/workflow/prepare.py          | 35 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 583e7c6..30c88bc 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -321,6 +321,13 @@ def _prepare_overlays(
         overlay_spec = dict(overlay_spec)
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
+        match overlay_spec:
+            case {"overlayRef": {"name": overlay_name}}:
+                # Whatever else is wrong, the function it names is watched.
+                used_value_functions.add(
+                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
+                )
+
         match prepare_expression(
             cel_env=cel_env,
             spec=skip_if_spec,
@@ -371,10 +378,6 @@ def _prepare_overlays(
                         )
 
             case {"overlayRef": {"name": overlay_name}, **extras}:
-                used_value_functions.add(
-                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
-                )
-
                 inputs_spec = extras.pop("inputs", None)
                 if extras:
                     extra_keys = ", ".join(f"{key}" for key in extras.keys())
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 4693194..e44322b 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -138,6 +138,10 @@ def _load_steps(
                     condition=None,
                 )
             )
+            # It is not ready, yet the Logic it names must be watched.
+            step_resources, _, _ = _load_step(cel_env, step_spec, known_steps)
+            if step_resources:
+                resources.update(step_resources)
             continue
         step_resources, step_logic, needed_parent_properties = _load_step(
             cel_env, step_spec, known_steps
@@ -552,41 +556,47 @@ def _load_logic_switch(
 ) -> tuple[set[LogicRegistryResource] | None, PermFail | Retry | structure.LogicSwitch]:
     dynamic_input_keys: set[str] = set()
 
+    # The Logic a switch names is watched, even if the switch is not ready.
+    cases_spec = logic_switch.get("cases", [])
+    case_logics: list[PermFail | Retry | Logic] = []
+    resources = set[LogicRegistryResource]()
+    for idx, case_spec in enumerate(cases_spec):
+        logic_resources, logic = _load_logic(
+            logic_ref=case_spec, location=f"{location}[{idx}]"
+        )
+        case_logics.append(logic)
+        if logic_resources:
+            resources.update(logic_resources)
+
     switch_on_spec = logic_switch.get("switchOn")
     match prepare_expression(cel_env=cel_env, spec=switch_on_spec, location=location):
         case None:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Missing `{location}.switchOn`, can not prepare Workflow.",
                 location=f"{location}.switchOn",
             )
         case PermFail() as err:
-            return None, err
+            return resources, err
         case celpy.Runner() as switch_on:
             dynamic_input_keys.update(extract_argument_structure(switch_on.ast))
 
-    cases_spec = logic_switch.get("cases")
     if not cases_spec:
-        return None, PermFail(
+        return resources, PermFail(
             message=f"Must specify at least one case in `{location}.cases`, can not prepare Workflow.",
             location=f"{location}.cases",
         )
 
     default_logic = None
     logic_map = {}
-    resources = set[LogicRegistryResource]()
-    for idx, case_spec in enumerate(cases_spec):
+    for idx, (case_spec, logic) in enumerate(zip(cases_spec, case_logics)):
         case = case_spec.get("case")
         is_default = case_spec.get("default")
         if is_default and default_logic:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Only one case in `{location}.cases` may be default, can not prepare Workflow.",
                 location=f"{location}.cases[{idx}].default",
             )
 
-        logic_resources, logic = _load_logic(
-            logic_ref=case_spec, location=f"{location}[{idx}]"
-        )
-
         logic_map[case] = logic
 
         if is_unwrapped_ok(logic):
@@ -600,9 +610,6 @@ def _load_logic_switch(
         if is_default:
             default_logic = logic
 
-        if logic_resources:
-            resources.update(logic_resources)
-
     functions_ready = unwrapped_combine(logic_map.values())
     if is_error(functions_ready):
         return resources, functions_ready
-- 
2.43.0


From 9f55be252d51c6fac05c3e7016924a9b19aadb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 15/28] fix: a FunctionTest does not settle the plural of its
 function's kind

---
 src/koreo/function_test/run.py                | 24 +++++++------------
 .../reconcile/kind_lookup.py                  |  7 +++++-
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/koreo/function_test/run.py b/src/koreo/function_test/run.py
index 72ccfaf..4fe80a0 100644
--- a/src/koreo/function_test/run.py
+++ b/src/koreo/function_test/run.py
@@ -13,7 +13,11 @@ from koreo import result
 from koreo.cel.encoder import convert_bools
 from koreo.cel.evaluation import evaluate_overlay
 from koreo.cel.functions import _overlay
-from koreo.constants import KOREO_DIRECTIVE_KEYS, LAST_APPLIED_ANNOTATION
+from koreo.constants import (
+    KOREO_DIRECTIVE_KEYS,
+    LAST_APPLIED_ANNOTATION,
+    PLURAL_LOOKUP_NEEDED,
+)
 from koreo.resource_function.reconcile import reconcile_resource_function
 from koreo.resource_function.structure import ResourceFunction
 from koreo.value_function.reconcile import reconcile_value_function
@@ -53,23 +57,11 @@ class MockApi:
         return "FAKE-NAMESPACE"
 
     async def lookup_kind(self, kind: str):
-        return (None, kind.lower(), None)
+        # No cluster to ask; the Function Under Test must not be told a guess.
+        return (None, PLURAL_LOOKUP_NEEDED, None)
 
-    async def async_get(self, *args, **kwargs):
+    async def async_get(self, resource_class, *args, **kwargs):
         if self._current_resource:
-            # TODO: This should probably be loaded and built from the Function,
-            # using _build_resource_config
-
-            resource_class = kr8s.objects.new_class(
-                version=self._current_resource.get("apiVersion"),
-                kind=self._current_resource.get("kind"),
-                namespaced=(
-                    True
-                    if self._current_resource.get("metadata", {}).get("namespace")
-                    else False
-                ),
-                asyncio=True,
-            )
             yield resource_class(
                 api=self,
                 resource=self._current_resource,
diff --git a/src/koreo/resource_function/reconcile/kind_lookup.py b/src/koreo/resource_function/reconcile/kind_lookup.py
index 3f0d1b9..90a3719 100644
--- a/src/koreo/resource_function/reconcile/kind_lookup.py
+++ b/src/koreo/resource_function/reconcile/kind_lookup.py
@@ -3,6 +3,8 @@ import logging
 
 import kr8s.asyncio
 
+from koreo.constants import PLURAL_LOOKUP_NEEDED
+
 logger = logging.getLogger("koreo.resource_function.reconcile")
 
 LOOKUP_TIMEOUT = 15
@@ -59,7 +61,10 @@ async def get_plural_kind(
             f"Too many failed attempts to find plural kind for {lookup_kind} failed."
         )
 
-    _plural_map[lookup_kind] = plural_kind
+    if plural_kind == PLURAL_LOOKUP_NEEDED:
+        del _lookup_locks[lookup_kind]
+    else:
+        _plural_map[lookup_kind] = plural_kind
 
     lookup_lock.set()
 
-- 
2.43.0


From aa5607ad49aa623d6c9fbcff4d90a0b71dcd6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 16/28] fix: preparing a FunctionTest does not add to its
 cached spec

---
 src/koreo/function_test/prepare.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/koreo/function_test/prepare.py b/src/koreo/function_test/prepare.py
index fe79969..442a0f3 100644
--- a/src/koreo/function_test/prepare.py
+++ b/src/koreo/function_test/prepare.py
@@ -230,10 +230,9 @@ def _prepare_test_case(
         if assertion:
             return bad_assertions_failure
 
-        expected_outcome_spec["assert"] = True
         assertion = structure.ExpectOutcome(
             predicate_to_koreo_result(
-                celpy.json_to_cel([expected_outcome_spec]),
+                celpy.json_to_cel([expected_outcome_spec | {"assert": True}]),
                 location=f"{location}.expectOutcome",
             )
         )
-- 
2.43.0


From ea4fafef46697c7567c3adfaa26b0b870a95ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 17/28] fix: FunctionTests compare list members by value, in
 any shape

---
 src/koreo/function_test/run.py | 54 +++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/koreo/function_test/run.py b/src/koreo/function_test/run.py
index 4fe80a0..2fa8c3d 100644
--- a/src/koreo/function_test/run.py
+++ b/src/koreo/function_test/run.py
@@ -609,14 +609,45 @@ def _validate_match(target, actual, compare_list_as_set: bool = False) -> Resour
     )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _typed(value):
+    """Python considers `True == 1` and `False == 0`, they are not the same."""
+    return (isinstance(value, bool), value)
+
+
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
+    key = []
+    for field in fields:
+        value = obj.get(field)
+        if isinstance(value, (dict, list, tuple)):
+            value = json.dumps(value, sort_keys=True, default=str)
+        key.append(_typed(value))
+    return tuple(key)
+
+
+def _is_collection(value) -> bool:
+    return isinstance(value, (list, tuple)) and all(
+        isinstance(item, dict) for item in value
+    )
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict]:
-    return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
+) -> dict[tuple, list[dict]]:
+    items: dict[tuple, list[dict]] = {}
+    for obj in obj_list:
+        items.setdefault(_obj_to_key(obj, key_fields), []).append(obj)
+    return items
+
+
+def _validate_map_match(
+    target, actual, key_fields: Sequence[int | str]
+) -> ResourceMatch:
+    if not (_is_collection(target) and _is_collection(actual)):
+        return _validate_match(target, actual)
+
+    return _validate_match(
+        _list_to_object(target, key_fields), _list_to_object(actual, key_fields)
+    )
 
 
 def _validate_dict_match(target: dict, actual: dict) -> ResourceMatch:
@@ -643,9 +674,10 @@ def _validate_dict_match(target: dict, actual: dict) -> ResourceMatch:
 
     for compare_key in target_keys.intersection(actual_keys):
         if compare_key in compare_as_map:
-            key_match = _validate_match(
-                _list_to_object(target[compare_key], compare_as_map[compare_key]),
-                _list_to_object(actual[compare_key], compare_as_map[compare_key]),
+            key_match = _validate_map_match(
+                target[compare_key],
+                actual[compare_key],
+                key_fields=compare_as_map[compare_key],
             )
         else:
             key_match = _validate_match(
@@ -682,8 +714,8 @@ def _validate_list_match(target: list | tuple, actual: list | tuple) -> Resource
 
 def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceMatch:
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        target_set = {_typed(value) for value in target}
+        actual_set = {_typed(value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -707,12 +739,12 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
 
     differences = []
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         differences.append(
             f"<missing '{missing_value}'>",
         )
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         differences.append(
             f"<unexpectedly found '{unexpected_value}'>",
         )
-- 
2.43.0


From 55fb06ac0c65dbd5b07768180705b293ec057e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 18/28] fix: a deletion is not a create or patch for
 expectResource

---
 src/koreo/function_test/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/function_test/run.py b/src/koreo/function_test/run.py
index 2fa8c3d..5f41c71 100644
--- a/src/koreo/function_test/run.py
+++ b/src/koreo/function_test/run.py
@@ -373,7 +373,7 @@ def _validate_resource_match(
     materialized: dict | None,
     actual_outcome: result.UnwrappedOutcome[celtypes.Value] | None,
 ):
-    if materialized is None and expected is not None:
+    if not materialized and expected is not None:
         if actual_outcome and not result.is_unwrapped_ok(actual_outcome):
             outcome_message = actual_outcome.message
         else:
-- 
2.43.0


From 3b378705c3b36ea533b2df4a7e0b3f8eab52a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 19/28] Restore the test runner and kind lookup as they were

---
 src/koreo/function_test/prepare.py            |  3 +-
 src/koreo/function_test/run.py                | 80 +++++++------------
 .../reconcile/kind_lookup.py                  |  7 +-
 3 files changed, 31 insertions(+), 59 deletions(-)

diff --git a/src/koreo/function_test/prepare.py b/src/koreo/function_test/prepare.py
index 442a0f3..fe79969 100644
--- a/src/koreo/function_test/prepare.py
+++ b/src/koreo/function_test/prepare.py
@@ -230,9 +230,10 @@ def _prepare_test_case(
         if assertion:
             return bad_assertions_failure
 
+        expected_outcome_spec["assert"] = True
         assertion = structure.ExpectOutcome(
             predicate_to_koreo_result(
-                celpy.json_to_cel([expected_outcome_spec | {"assert": True}]),
+                celpy.json_to_cel([expected_outcome_spec]),
                 location=f"{location}.expectOutcome",
             )
         )
diff --git a/src/koreo/function_test/run.py b/src/koreo/function_test/run.py
index 5f41c71..72ccfaf 100644
--- a/src/koreo/function_test/run.py
+++ b/src/koreo/function_test/run.py
@@ -13,11 +13,7 @@ from koreo import result
 from koreo.cel.encoder import convert_bools
 from koreo.cel.evaluation import evaluate_overlay
 from koreo.cel.functions import _overlay
-from koreo.constants import (
-    KOREO_DIRECTIVE_KEYS,
-    LAST_APPLIED_ANNOTATION,
-    PLURAL_LOOKUP_NEEDED,
-)
+from koreo.constants import KOREO_DIRECTIVE_KEYS, LAST_APPLIED_ANNOTATION
 from koreo.resource_function.reconcile import reconcile_resource_function
 from koreo.resource_function.structure import ResourceFunction
 from koreo.value_function.reconcile import reconcile_value_function
@@ -57,11 +53,23 @@ class MockApi:
         return "FAKE-NAMESPACE"
 
     async def lookup_kind(self, kind: str):
-        # No cluster to ask; the Function Under Test must not be told a guess.
-        return (None, PLURAL_LOOKUP_NEEDED, None)
+        return (None, kind.lower(), None)
 
-    async def async_get(self, resource_class, *args, **kwargs):
+    async def async_get(self, *args, **kwargs):
         if self._current_resource:
+            # TODO: This should probably be loaded and built from the Function,
+            # using _build_resource_config
+
+            resource_class = kr8s.objects.new_class(
+                version=self._current_resource.get("apiVersion"),
+                kind=self._current_resource.get("kind"),
+                namespaced=(
+                    True
+                    if self._current_resource.get("metadata", {}).get("namespace")
+                    else False
+                ),
+                asyncio=True,
+            )
             yield resource_class(
                 api=self,
                 resource=self._current_resource,
@@ -373,7 +381,7 @@ def _validate_resource_match(
     materialized: dict | None,
     actual_outcome: result.UnwrappedOutcome[celtypes.Value] | None,
 ):
-    if not materialized and expected is not None:
+    if materialized is None and expected is not None:
         if actual_outcome and not result.is_unwrapped_ok(actual_outcome):
             outcome_message = actual_outcome.message
         else:
@@ -609,45 +617,14 @@ def _validate_match(target, actual, compare_list_as_set: bool = False) -> Resour
     )
 
 
-def _typed(value):
-    """Python considers `True == 1` and `False == 0`, they are not the same."""
-    return (isinstance(value, bool), value)
-
-
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
-    key = []
-    for field in fields:
-        value = obj.get(field)
-        if isinstance(value, (dict, list, tuple)):
-            value = json.dumps(value, sort_keys=True, default=str)
-        key.append(_typed(value))
-    return tuple(key)
-
-
-def _is_collection(value) -> bool:
-    return isinstance(value, (list, tuple)) and all(
-        isinstance(item, dict) for item in value
-    )
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
+    return "$".join(f"{obj.get(field)}".strip() for field in fields)
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[tuple, list[dict]]:
-    items: dict[tuple, list[dict]] = {}
-    for obj in obj_list:
-        items.setdefault(_obj_to_key(obj, key_fields), []).append(obj)
-    return items
-
-
-def _validate_map_match(
-    target, actual, key_fields: Sequence[int | str]
-) -> ResourceMatch:
-    if not (_is_collection(target) and _is_collection(actual)):
-        return _validate_match(target, actual)
-
-    return _validate_match(
-        _list_to_object(target, key_fields), _list_to_object(actual, key_fields)
-    )
+) -> dict[str, dict]:
+    return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
 def _validate_dict_match(target: dict, actual: dict) -> ResourceMatch:
@@ -674,10 +651,9 @@ def _validate_dict_match(target: dict, actual: dict) -> ResourceMatch:
 
     for compare_key in target_keys.intersection(actual_keys):
         if compare_key in compare_as_map:
-            key_match = _validate_map_match(
-                target[compare_key],
-                actual[compare_key],
-                key_fields=compare_as_map[compare_key],
+            key_match = _validate_match(
+                _list_to_object(target[compare_key], compare_as_map[compare_key]),
+                _list_to_object(actual[compare_key], compare_as_map[compare_key]),
             )
         else:
             key_match = _validate_match(
@@ -714,8 +690,8 @@ def _validate_list_match(target: list | tuple, actual: list | tuple) -> Resource
 
 def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceMatch:
     try:
-        target_set = {_typed(value) for value in target}
-        actual_set = {_typed(value) for value in actual}
+        target_set = set(target)
+        actual_set = set(actual)
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -739,12 +715,12 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
 
     differences = []
 
-    for _, missing_value in missing_values:
+    for missing_value in missing_values:
         differences.append(
             f"<missing '{missing_value}'>",
         )
 
-    for _, unexpected_value in unexpected_values:
+    for unexpected_value in unexpected_values:
         differences.append(
             f"<unexpectedly found '{unexpected_value}'>",
         )
diff --git a/src/koreo/resource_function/reconcile/kind_lookup.py b/src/koreo/resource_function/reconcile/kind_lookup.py
index 90a3719..3f0d1b9 100644
--- a/src/koreo/resource_function/reconcile/kind_lookup.py
+++ b/src/koreo/resource_function/reconcile/kind_lookup.py
@@ -3,8 +3,6 @@ import logging
 
 import kr8s.asyncio
 
-from koreo.constants import PLURAL_LOOKUP_NEEDED
-
 logger = logging.getLogger("koreo.resource_function.reconcile")
 
 LOOKUP_TIMEOUT = 15
@@ -61,10 +59,7 @@ async def get_plural_kind(
             f"Too many failed attempts to find plural kind for {lookup_kind} failed."
         )
 
-    if plural_kind == PLURAL_LOOKUP_NEEDED:
-        del _lookup_locks[lookup_kind]
-    else:
-        _plural_map[lookup_kind] = plural_kind
+    _plural_map[lookup_kind] = plural_kind
 
     lookup_lock.set()
 
-- 
2.43.0


From e7c0f4ad3ebb5d02b0fc60a6165159a7ffe2fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 20/28] fix: one API server's plural is not settled for every
 other

The plural found for a function without one was written to the function's own
class and a process-wide map, so a FunctionTest's guess reached live passes.
---
 .../resource_function/reconcile/__init__.py   | 17 +++++++++++--
 .../reconcile/kind_lookup.py                  | 25 +++++++++++++------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 6788211..7edbe7f 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -1,5 +1,6 @@
 from typing import NamedTuple, Sequence
 import copy
+import functools
 import json
 import logging
 
@@ -200,8 +201,9 @@ async def reconcile_krm_resource(
                 result=PermFail(message=message, location=f"spec.apiConfig.plural")
             )
 
-        crud_config.resource_api.endpoint = plural
-        crud_config.resource_api.plural = plural
+        crud_config = crud_config._replace(
+            resource_api=_with_plural(crud_config.resource_api, plural)
+        )
 
     resource_id = {
         "apiVersion": crud_config.resource_api.version,
@@ -724,6 +726,17 @@ async def _create_api_resource(
     )
 
 
+@functools.lru_cache(maxsize=256)
+def _with_plural(resource_api: type[APIObject], plural: str) -> type[APIObject]:
+    """`resource_api` belongs to the Function, so it must not be altered: what one
+    API server (or a FunctionTest) calls the kind need not hold for the next."""
+    return type(
+        resource_api.__name__,
+        (resource_api,),
+        {"endpoint": plural, "plural": plural},
+    )
+
+
 def _forced_overlay(resource_api: type[APIObject], name: str, namespace: str | None):
     # Only include namespace when the resource API is namespaced
     metadata: dict[str, str] = {"name": name}
diff --git a/src/koreo/resource_function/reconcile/kind_lookup.py b/src/koreo/resource_function/reconcile/kind_lookup.py
index 3f0d1b9..d33e2c9 100644
--- a/src/koreo/resource_function/reconcile/kind_lookup.py
+++ b/src/koreo/resource_function/reconcile/kind_lookup.py
@@ -1,5 +1,6 @@
 import asyncio
 import logging
+import weakref
 
 import kr8s.asyncio
 
@@ -7,7 +8,10 @@ logger = logging.getLogger("koreo.resource_function.reconcile")
 
 LOOKUP_TIMEOUT = 15
 
-_plural_map: dict[str, str] = {}
+# Plurals are facts about a specific API server.
+_plural_maps: weakref.WeakKeyDictionary[kr8s.asyncio.Api, dict[str, str]] = (
+    weakref.WeakKeyDictionary()
+)
 
 _lookup_locks: dict[str, asyncio.Event] = {}
 
@@ -20,8 +24,10 @@ async def get_plural_kind(
     else:
         lookup_kind = f"{kind}.{api_version}"
 
-    if lookup_kind in _plural_map:
-        return _plural_map[lookup_kind]
+    plural_map = _plural_maps.setdefault(api, {})
+
+    if lookup_kind in plural_map:
+        return plural_map[lookup_kind]
 
     lookup_lock = _lookup_locks.get(lookup_kind)
     if lookup_lock:
@@ -30,8 +36,12 @@ async def get_plural_kind(
         except asyncio.TimeoutError:
             pass
 
-        if lookup_kind in _plural_map:
-            return _plural_map[lookup_kind]
+        if lookup_kind in plural_map:
+            return plural_map[lookup_kind]
+
+        if _lookup_locks.get(lookup_kind) is not lookup_lock:
+            # The lookup being waited on was made for another API server.
+            return await get_plural_kind(api, kind, api_version)
 
         raise Exception(f"Waiting on {lookup_kind} failed.")
 
@@ -59,8 +69,9 @@ async def get_plural_kind(
             f"Too many failed attempts to find plural kind for {lookup_kind} failed."
         )
 
-    _plural_map[lookup_kind] = plural_kind
+    plural_map[lookup_kind] = plural_kind
 
+    del _lookup_locks[lookup_kind]
     lookup_lock.set()
 
     return plural_kind
@@ -68,7 +79,7 @@ async def get_plural_kind(
 
 def _reset():
     """Helper for unit testing; not intended for usage in normal code."""
-    _plural_map.clear()
+    _plural_maps.clear()
 
     for lock in _lookup_locks.values():
         lock.set()
-- 
2.43.0


From fae605fef7e8665c605940cf5597018e49358166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 21/28] fix: classes registered with kr8s by others do not
 reach apiConfig

kr8s' registry also holds the classes FunctionTests make up for their resources
(guessed plural and scope) and prior definitions of the kind.
---
 src/koreo/resource_function/prepare.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 30c88bc..1bb29b2 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -227,20 +227,13 @@ def _prepare_api_config(
             message=f"Invalid `kind` or `apiVersion` ({kind}, {api_version})"
         )
 
-    try:
-        resource_api = kr8s.objects.get_class(
-            version=api_version,
-            kind=kind,
-            _asyncio=True,
-        )
-    except KeyError:
-        resource_api = None
-
-    # kr8s also finds other API groups, and prior definitions of this kind.
+    # Only what kr8s ships is consulted: its registry also holds other API groups,
+    # prior definitions of this kind, and what FunctionTests made up.
+    resource_api = getattr(kr8s.asyncio.objects, kind, None)
     if (
-        resource_api is None
-        or resource_api.version != api_version
-        or resource_api.kind != kind
+        not isinstance(resource_api, type)
+        or getattr(resource_api, "version", None) != api_version
+        or getattr(resource_api, "kind", None) != kind
         or (spec.get("plural") and resource_api.plural != plural.lower())
         or ("namespaced" in spec and resource_api.namespaced != namespaced)
     ):
-- 
2.43.0


From d46aa1c6b2bbf15780a9a8ea4a4aec6d40d4f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 22/28] fix: an escape which is not a character names nothing

---
 src/koreo/cel/structure_extractor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index d31dae9..5046ba4 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -79,7 +79,11 @@ def _literal_name(tree: Tree | None) -> str | None:
     literal = tree.children[0]
     match literal.type:
         case "STRING_LIT" | "MLSTRING_LIT":
-            return f"{celstr(literal)}"
+            try:
+                return f"{celstr(literal)}"
+            except (ValueError, OverflowError):
+                # An escape which is not a character, hence there is no name.
+                return None
         case "BYTES_LIT":
             return None
         case _:
-- 
2.43.0


From 9b6bfe5367ac9201d775d6a09c84d2dc5e186674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 23/28] fix: whole delays and conditions nested too deeply do
 not raise

---
 src/koreo/predicate_helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..c0cb9e1 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -20,7 +20,13 @@ def predicate_extractor(
     if not isinstance(predicate_spec, (list, tuple)):
         return result.PermFail(message="Malformed conditions, expected a list")
 
-    predicates = encode_cel(predicate_spec)
+    try:
+        predicates = encode_cel(predicate_spec)
+    except Exception as err:
+        return result.PermFail(
+            message=f"Structural error in conditions, while building expression '{err}'.",
+        )
+
     conditions = f"{predicates}.filter(predicate, !predicate.assert)"
 
     try:
@@ -57,7 +63,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 90796186b1920af393b1f32d188f2334ec958a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 24/28] fix: a kind which can not name a class is a PermFail

---
 src/koreo/resource_function/prepare.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 1bb29b2..6f7850a 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -237,13 +237,18 @@ def _prepare_api_config(
         or (spec.get("plural") and resource_api.plural != plural.lower())
         or ("namespaced" in spec and resource_api.namespaced != namespaced)
     ):
-        resource_api = kr8s.objects.new_class(
-            version=api_version,
-            kind=kind,
-            plural=plural,
-            namespaced=namespaced,
-            asyncio=True,
-        )
+        try:
+            resource_api = kr8s.objects.new_class(
+                version=api_version,
+                kind=kind,
+                plural=plural,
+                namespaced=namespaced,
+                asyncio=True,
+            )
+        except ValueError as err:
+            return PermFail(
+                message=f"Invalid `kind` or `apiVersion` ({kind!a}, {api_version!a}): {err}"
+            )
 
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
-- 
2.43.0


From d42f85ee8bf4d10be886866c73de5db602e22c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 25/28] fix: an overlay nested too deeply is a PermFail

---
 src/koreo/cel/prepare.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..6e505ef 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -62,7 +62,12 @@ def prepare_overlay_expression(
     if not isinstance(spec, dict):
         return PermFail(message=f"Malformed {location}, expected a mapping")
 
-    overlay_index, overlay_values = _overlay_indexer(spec=spec, base=0)
+    try:
+        overlay_index, overlay_values = _overlay_indexer(spec=spec, base=0)
+    except RecursionError as err:
+        return PermFail(
+            message=f"Structural error in {location}, while indexing overlay '{err}'.",
+        )
 
     match prepare_expression(cel_env=cel_env, spec=overlay_values, location=location):
         case None:
-- 
2.43.0


From 8aa0e72507d7b0f54bc6882aad1a955432266b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 26/28] fix: a spec nested too deeply to be copied is a
 PermFail

---
 src/koreo/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 48b59b0..cd730b7 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -5,7 +5,7 @@ import logging
 import time
 
 from koreo.constants import ACTIVE_LABEL
-from koreo.result import UnwrappedOutcome, is_unwrapped_ok
+from koreo.result import PermFail, UnwrappedOutcome, is_unwrapped_ok
 from koreo import registry
 
 
@@ -72,7 +72,12 @@ async def prepare_and_cache(
     prepare_started_at = time.monotonic()
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     registry.register(registerer=resource)
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(spec))
+    try:
+        preparer_spec = copy.deepcopy(spec)
+    except RecursionError:
+        preparer_outcome = PermFail("Spec is nested too deeply to be prepared.")
+    else:
+        preparer_outcome = await preparer(cache_key, preparer_spec)
     prepare_finished_at = time.monotonic()
 
     if is_unwrapped_ok(preparer_outcome):
-- 
2.43.0


From deaeacde3861107dae17638fb7b9e0ac7db47b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 27/28] fix: static values CEL can not represent are a PermFail

---
 src/koreo/schema/__init__.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/koreo/schema/__init__.py b/src/koreo/schema/__init__.py
index 797b5a3..3ee10e1 100644
--- a/src/koreo/schema/__init__.py
+++ b/src/koreo/schema/__init__.py
@@ -5,6 +5,7 @@ from typing import Any
 
 logger = logging.getLogger("koreo.schema")
 
+import celpy
 import fastjsonschema
 import yaml
 
@@ -54,9 +55,28 @@ def validate(
         ).replace("data ", "spec ")
         return PermFail(validation_err)
 
+    try:
+        for value in _static_values(resource_type=resource_type, spec=spec):
+            celpy.json_to_cel(value)
+    except (ValueError, RecursionError) as err:
+        return PermFail(f"spec has a value which can not be represented: {err}")
+
     return None
 
 
+def _static_values(resource_type: type, spec: dict):
+    """The parts of a (valid) spec which are used as CEL values as they are."""
+    if resource_type is ResourceTemplate:
+        yield spec.get("template")
+        yield spec.get("context")
+
+    if resource_type is FunctionTest:
+        yield spec.get("inputs")
+        for test_case in spec.get("testCases", ()):
+            yield test_case.get("inputOverrides")
+            yield test_case.get("expectOutcome")
+
+
 def _get_validator(resource_type: type, version: str | None = None):
     if not _SCHEMA_VALIDATORS:
         load_bundled_schemas()
-- 
2.43.0


From 89e55f8bb86521f722a15d0071695824460ae9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 28/28] fix: compare ownerReferences which are not the
 resource's own

Only the resource's own metadata.ownerReferences are managed separately. In an
embedded manifest (or anywhere else) the key is a field like any other, so a
difference there must be corrected.
---
 .../resource_function/reconcile/validate.py   | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index a58a5bf..a7352eb 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -14,6 +14,7 @@ def validate_match(
     actual,
     last_applied_value=None,
     compare_list_as_set: bool = False,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     """Compare the specified (`target`) state against the actual (`actual`)
     reosurce state. We compare all target fields and ignore anything extra so
@@ -24,7 +25,7 @@ def validate_match(
     match (target, actual):
         # Objects need a special comparator
         case dict(), dict():
-            return _validate_dict_match(target, actual, last_applied_value)
+            return _validate_dict_match(target, actual, last_applied_value, path)
         case dict(), _:
             return ResourceMatch(
                 match=False,
@@ -43,7 +44,7 @@ def validate_match(
                 # already the compare value.
                 return _validate_set_match(target, actual)
 
-            return _validate_list_match(target, actual, last_applied_value)
+            return _validate_list_match(target, actual, last_applied_value, path)
 
         case (list() | tuple(), _):
             return ResourceMatch(
@@ -130,10 +131,14 @@ def _validate_collection_match(
     actual,
     key_fields: Sequence[int | str],
     last_applied_value=None,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     if not (target and _is_collection(target) and _is_collection(actual)):
         return validate_match(
-            target=target, actual=actual, last_applied_value=last_applied_value
+            target=target,
+            actual=actual,
+            last_applied_value=last_applied_value,
+            path=path,
         )
 
     actual_items = _list_to_object(actual, key_fields)
@@ -155,6 +160,7 @@ def _validate_collection_match(
             target=target_item,
             actual=actual_items[item_key],
             last_applied_value=last_applied_items.get(item_key),
+            path=(*path, "[]"),
         )
         if not item_match.match:
             differences = [f"'{key_label}'"]
@@ -165,7 +171,10 @@ def _validate_collection_match(
 
 
 def _validate_dict_match(
-    target: dict, actual: dict, last_applied_value: dict | None = None
+    target: dict,
+    actual: dict,
+    last_applied_value: dict | None = None,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     target_keys = set(target.keys()) - KOREO_DIRECTIVE_KEYS
 
@@ -188,10 +197,9 @@ def _validate_dict_match(
         last_applied_value = {}
 
     for target_key in target_keys:
-        # TODO: At some point, this will appear outside metadata and eventually
-        # cause a problem. Perhaps `_extract_last_applied` should instead
-        # mutate the object for compare?
-        if target_key == "ownerReferences":
+        # The owners of the resource itself are handled separately, elsewhere
+        # (such as in an embedded manifest) it is a field like any other.
+        if target_key == "ownerReferences" and path in ((), ("metadata",)):
             continue
 
         last_applied_key_value = last_applied_value.get(target_key)
@@ -213,6 +221,7 @@ def _validate_dict_match(
                 actual=compare_value,
                 key_fields=compare_as_map[target_key],
                 last_applied_value=last_applied_key_value,
+                path=(*path, target_key),
             )
         else:
             key_match = validate_match(
@@ -220,6 +229,7 @@ def _validate_dict_match(
                 actual=compare_value,
                 last_applied_value=last_applied_key_value,
                 compare_list_as_set=(target_key in compare_list_as_set_keys),
+                path=(*path, target_key),
             )
 
         if not key_match.match:
@@ -234,6 +244,7 @@ def _validate_list_match(
     target: list | tuple,
     actual: list | tuple,
     last_applied_value: list | tuple | None = None,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     if not target and not actual:
         return ResourceMatch(match=True, differences=())
@@ -269,6 +280,7 @@ def _validate_list_match(
             target=target_value,
             actual=actual_value,
             last_applied_value=last_applied_item_value,
+            path=(*path, "[]"),
         )
         if not item_match.match:
             differences = [f"at index '{idx}'"]
-- 
2.43.0

