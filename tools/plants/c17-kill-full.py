PROPERTY = "C17"
NEEDS = "a resource with a bounded queue, killed while that queue is full, and a notification after something was taken from it"
BREAKS = "a killed resource whose queue was full stays alive and keeps receiving notifications"
EDITS = [("src/koreo/registry.py", """        return queue

    except asyncio.QueueFull:
        pass

    queue.shutdown()
""", """        return queue

    except asyncio.QueueFull:
        # It has something to do before it will notice.
        return queue

    queue.shutdown()
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    a, b = registry.Resource(ValueFunction, "a"), registry.Resource(ValueFunction, "b")
    queue = registry.register(a, asyncio.LifoQueue(maxsize=2))
    registry.subscribe(a, b)
    registry.notify_subscribers(b, 1)
    registry.notify_subscribers(b, 2)
    registry.kill_resource(a)
    queue.get_nowait()
    before = queue.qsize()
    registry.notify_subscribers(b, 3)
    assert queue.qsize() == before, "a killed resource was notified"


asyncio.run(main())
'''
