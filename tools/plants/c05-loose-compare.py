PROPERTY = "C05"
NEEDS = "a live leaf holding the target's value with another type (a number as a string)"
BREAKS = "values are compared by their text, so a retyped leaf is not drift"
EDITS = [("src/koreo/resource_function/reconcile/validate.py", """    # Hopefully anything else is a simple type.
    if target == actual:""", """    # Hopefully anything else is a simple type.
    if target == actual or (actual is not None and f"{target}" == f"{actual}"):""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()
    cluster.put(API["apiVersion"], "things", "ns1", "thing", thing({"port": "80"}))
    out = await resource(cluster, {"apiConfig": API, "resource": {"spec": {"port": 80}}})
    assert verbs(cluster) == ["get", "patch"], (verbs(cluster), out)


asyncio.run(main())
'''
