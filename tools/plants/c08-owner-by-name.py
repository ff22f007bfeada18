PROPERTY = "C08"
NEEDS = "a live object owned by a previous parent of the same kind and name but another uid"
BREAKS = "the parent's owner reference is matched by kind and name, so a patch does not add it when the live object names the deleted parent"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", """    trigger_uid = owner_ref.get("uid")

    for current_ref in owner_refs:
        if current_ref.get("uid") == trigger_uid:
            return owner_refs
""", """    trigger_key = (owner_ref.get("kind"), owner_ref.get("name"))

    for current_ref in owner_refs:
        if (current_ref.get("kind"), current_ref.get("name")) == trigger_key:
            return owner_refs
"""), ("src/koreo/resource_function/reconcile/__init__.py", """    trigger_uid = owner_ref.get("uid")

    for current_ref in owner_refs:
        if current_ref.get("uid") == trigger_uid:
            return True
""", """    trigger_key = (owner_ref.get("kind"), owner_ref.get("name"))

    for current_ref in owner_refs:
        if (current_ref.get("kind"), current_ref.get("name")) == trigger_key:
            return True
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()
    stale = {**OWNER[1], "uid": "uid-of-the-previous-parent"}
    cluster.put(API["apiVersion"], "things", "ns1", "thing", thing({"a": 1}, ownerReferences=[stale]))
    await resource(cluster, {"apiConfig": API, "resource": {"spec": {"a": 2}}})
    refs = cluster.get(API["apiVersion"], "things", "ns1", "thing")["metadata"]["ownerReferences"]
    assert "uid-parent" in [r["uid"] for r in refs], refs


asyncio.run(main())
'''
