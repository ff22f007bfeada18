PROPERTY = "C16"
NEEDS = "a dependency changing while the dependent's preparer is suspended"
BREAKS = "the dependent is considered as fresh as the end of its preparation, so the change is never picked up"
EDITS = [("src/koreo/cache.py", "    _PREPARE_TIMES[resource] = prepare_started_at\n", "    _PREPARE_TIMES[resource] = prepare_finished_at\n")]
DEMO = '''
import asyncio
from demolib import *

DEP = registry.Resource(ResourceTemplate, "dep")


async def main():
    gate = asyncio.Event()
    values = []

    async def prepare(name, spec):
        seen = cache.get_resource_from_cache(ResourceTemplate, "dep")
        values.append(seen and seen.template)
        if len(values) == 1:
            await gate.wait()
        return ("built", values[-1]), [DEP]

    async def dep(version):
        return await cache.prepare_and_cache(ResourceTemplate, prepare_resource_template, {"name": "dep", "resourceVersion": version},
            {"template": {"apiVersion": "v1", "kind": "Thing", "spec": {"version": version}}})

    await dep("1")
    task = asyncio.ensure_future(cache.prepare_and_cache(ValueFunction, prepare, {"name": "user", "resourceVersion": "1"}, {}))
    await asyncio.sleep(0.01)
    await dep("2")
    await asyncio.sleep(0.01)
    gate.set()
    await task
    for _ in range(50):
        await asyncio.sleep(0.005)
    now = cache.get_resource_from_cache(ValueFunction, "user")
    assert now[1]["spec"]["version"] == "2", f"built from {now}"


asyncio.run(main())
'''
