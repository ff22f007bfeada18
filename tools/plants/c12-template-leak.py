PROPERTY = "C12"
NEEDS = "a ResourceTemplate with a metadata map, used by two functions (or twice, with different inputs)"
BREAKS = "only the top level of the base is copied before the identity is merged in, so the cached template keeps the name of the object it was last used for"
EDITS = [("src/koreo/cel/functions.py", """    return _deep_overlay(resource, overlay)


def _deep_overlay(""", """    return _deep_overlay(copy.copy(resource), overlay)


def _deep_overlay("""), ("src/koreo/cel/functions.py", """    resource = copy.deepcopy(resource)

    for field, overlay_value in overlay.items():
        if field in resource:""", """    for field, overlay_value in overlay.items():
        if field in resource:""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    template = await offer(ResourceTemplate, "tpl", {
        "template": {"apiVersion": API["apiVersion"], "kind": API["kind"], "metadata": {"labels": {"a": "b"}}}})
    before = json.dumps(template.template)
    cluster = Cluster()
    await resource(cluster, {"apiConfig": API, "resourceTemplateRef": {"name": "tpl"}})
    assert verbs(cluster) == ["get", "create"], verbs(cluster)
    after = json.dumps(cache.get_resource_from_cache(ResourceTemplate, "tpl").template)
    assert before == after, after


asyncio.run(main())
'''
