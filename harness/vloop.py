"""An asyncio event loop with virtual time: sleeping costs nothing."""

import asyncio
import selectors


class _Selector:
    def __init__(self, loop):
        self._inner = selectors.DefaultSelector()
        self._loop = loop

    def select(self, timeout=None):
        events = self._inner.select(0)
        if events:
            return events
        if timeout is None:
            self._loop.stuck = True
            raise Stuck("nothing can make progress")
        if timeout > 0:
            self._loop.now += timeout
        return []

    def __getattr__(self, name):
        return getattr(self._inner, name)


class Stuck(RuntimeError):
    pass


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        self.stuck = False
        super().__init__(_Selector(self))

    def time(self):
        return self.now


def run(coro, limit=None):
    """Run a coroutine to completion in a fresh virtual-time loop.

    Returns (result, elapsed virtual seconds).
    """
    loop = VirtualLoop()
    loop.set_exception_handler(lambda loop, ctx: None)
    asyncio.set_event_loop(loop)
    try:
        t0 = loop.time()
        task = loop.create_task(coro)
        if limit is not None:
            loop.call_later(limit, task.cancel)
        result = loop.run_until_complete(task)
        return result, loop.time() - t0
    finally:
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending:
                loop.call_later(1, lambda: None)
                loop.run_until_complete(
                    asyncio.wait(pending, timeout=5)
                )
        except Exception:
            pass
        asyncio.set_event_loop(None)
        loop.close()
