PROPERTY = "C06"
NEEDS = "an overlay which sets metadata.name, and a drifted live object (so the target is patched)"
BREAKS = "overlays are applied after the identity was pinned, so a patch carries the name the overlay chose"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", """    new_resource = functions._overlay(resource=new_resource, overlay=forced_overlay)
    if err := check_for_celevalerror(
        new_resource, location="spec.overlays<security overlay>"
    ):
        return err

    return new_resource
""", """    return new_resource
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()
    cluster.put(API["apiVersion"], "things", "ns1", "thing", thing({"a": 1}))
    await resource(cluster, {"apiConfig": API, "resource": {"spec": {"a": 2}},
                             "overlays": [{"overlay": {"metadata": {"name": "other"}}}]})
    assert verbs(cluster) == ["get", "patch"], verbs(cluster)
    assert cluster.log[-1]["body"]["metadata"]["name"] == "thing", cluster.log[-1]["body"]


asyncio.run(main())
'''
