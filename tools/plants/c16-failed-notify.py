PROPERTY = "C16"
NEEDS = "a chain a <- b <- c where a change of a makes preparing b again fail"
BREAKS = "a re-preparation that fails is stored without telling those who depend on it, and without renewing what it watches"
EDITS = [("src/koreo/cache.py", """    resource = registry.Resource(resource_type=resource_class, name=cache_key)
    await _handle_notifications(
        resource=resource,
        subscriptions=subscriptions,
        prepare_started_at=prepare_started_at,
        prepare_finished_at=prepare_finished_at,
    )


_REPREPARE""", """    resource = registry.Resource(resource_type=resource_class, name=cache_key)
    if not is_unwrapped_ok(prepared_resource):
        _PREPARE_TIMES[resource] = prepare_started_at
    else:
        await _handle_notifications(
            resource=resource,
            subscriptions=subscriptions,
            prepare_started_at=prepare_started_at,
            prepare_finished_at=prepare_finished_at,
        )


_REPREPARE""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    await offer(ValueFunction, "f", {"return": {"a": 1}})
    ref = lambda kind, name: {"steps": [{"label": "step", "ref": {"kind": kind, "name": name}}]}
    await offer(Workflow, "inner", ref("ValueFunction", "f"))
    seen = []

    async def preparer(key, spec):
        inner = cache.get_resource_from_cache(Workflow, "inner")
        seen.append(getattr(inner, "steps_ready", inner))
        return {"seen": inner}, [registry.Resource(resource_type=Workflow, name="inner")]

    async def fragile(key, spec):
        f = cache.get_resource_from_cache(ValueFunction, "f")
        watched = [registry.Resource(resource_type=ValueFunction, name="f")]
        if not result.is_unwrapped_ok(f):
            return result.PermFail("broken")
        return {"f": f}, watched

    await cache.prepare_and_cache(Workflow, fragile, {"name": "inner", "resourceVersion": "w1"}, {})
    await cache.prepare_and_cache(FunctionTest, preparer, {"name": "outer", "resourceVersion": "v1"}, {})
    await asyncio.sleep(0.05)
    await offer(ValueFunction, "f", {"return": "=1 +"})
    await asyncio.sleep(0.05)
    await asyncio.sleep(0.05)
    assert isinstance(seen[-1], result.PermFail), seen
    for kind, name in ((FunctionTest, "outer"), (Workflow, "inner"), (ValueFunction, "f")):
        await cache.delete_from_cache(kind, name)


asyncio.run(main())
'''
