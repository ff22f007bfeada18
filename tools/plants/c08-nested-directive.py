PROPERTY = "C08"
NEEDS = "a directive in a map inside a list which is itself an item of a list"
BREAKS = "comparison directives are left in payloads below nested lists"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", "            return [_strip_koreo_directives(sub_obj) for sub_obj in obj]", """            return [
                _strip_koreo_directives(sub_obj)
                if isinstance(sub_obj, dict)
                else sub_obj
                for sub_obj in obj
            ]""")]
DEMO = '''
import asyncio, json
from demolib import *


async def main():
    cluster = Cluster()
    spec = {"rules": [[{"x-koreo-compare-as-set": ["hosts"], "hosts": ["a"]}]]}
    await resource(cluster, {"apiConfig": API, "resource": {"spec": spec}})
    sent = cluster.log[-1]["body"]
    assert sent["spec"] == {"rules": [[{"hosts": ["a"]}]]}, sent


asyncio.run(main())
'''
