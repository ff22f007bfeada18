PROPERTY = "C04"
NEEDS = "x-koreo-compare-last-applied inside an item of a list, on a field which the server rewrites"
BREAKS = "the last applied value is lost inside lists, so that the object is patched for ever"
EDITS = [("src/koreo/resource_function/reconcile/validate.py", """            last_applied_value=last_applied_item_value,
            path=(*path, "[]"),
""", """            path=(*path, "[]"),
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()

    def redact(obj):
        for item in obj.get("spec", {}).get("items", ()):
            item["password"] = "<hidden>"

    cluster.decorate = redact
    spec = {"apiConfig": {**API, "name": "x"},
            "resource": {"spec": {"items": [{"x-koreo-compare-last-applied": ["password"], "name": "a", "password": "s3"}]}}}
    fn = await offer(ResourceFunction, "keep", spec)
    for _ in range(4):
        await reconcile(cluster, fn)
    verbs = [r["verb"] for r in cluster.log if r["verb"] in ("create", "patch", "delete")]
    assert verbs == ["create"], verbs


asyncio.run(main())
'''
