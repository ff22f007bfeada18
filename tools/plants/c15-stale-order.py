PROPERTY = "C15"
NEEDS = "a delete naming a stale version whose resourceVersion is textually greater than the cached one (9 vs 10)"
BREAKS = "a delete of a stale version removes the newer entry when the versions differ in length"
EDITS = [("src/koreo/cache.py", "    if version and version != cached.resource_version:", "    if version and version < cached.resource_version:")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    spec = {"return": {"a": 1}}
    for version in ("9", "10"):
        await cache.prepare_and_cache(ValueFunction, prepare_value_function, {"name": "f", "resourceVersion": version}, spec)
    await cache.delete_from_cache(ValueFunction, "f", version="9")
    assert cache.get_resource_from_cache(ValueFunction, "f") is not None, "the newer entry was removed"


asyncio.run(main())
'''
