PROPERTY = "C17"
NEEDS = "a subscribe which would close a cycle, then a look at the resource's subscribers or a notification"
BREAKS = "the refused subscriber stays registered as a subscriber, so the two views of the graph disagree and it is notified"
EDITS = [("src/koreo/registry.py", """    _check_for_cycles(subscriber, (resource,))

    _RESOURCE_SUBSCRIBERS[resource].add(subscriber)
""", """    _RESOURCE_SUBSCRIBERS[resource].add(subscriber)

    _check_for_cycles(subscriber, (resource,))

""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    a, b = (registry.Resource(resource_type=ValueFunction, name=n) for n in "ab")
    queue = registry.register(a)
    registry.register(b)
    registry.subscribe(b, a)
    try:
        registry.subscribe(a, b)
    except registry.SubscriptionCycle:
        pass
    else:
        raise AssertionError("a cycle was accepted")
    assert a not in registry.get_subscribers(b), registry.get_subscribers(b)
    before = queue.qsize()
    registry.notify_subscribers(b, 1.0)
    assert queue.qsize() == before


asyncio.run(main())
'''
