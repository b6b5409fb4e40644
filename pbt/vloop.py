"""Virtual-time asyncio loop: sleeping costs nothing, a deadlock is detected."""
import asyncio

MAX_TURNS = 400_000


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class _Selector:
    def __init__(self, inner, loop):
        self._inner = inner
        self._loop = loop

    def select(self, timeout=None):
        loop = self._loop
        loop.turns += 1
        if loop.turns > MAX_TURNS:
            raise Livelock(f"more than {MAX_TURNS} loop turns")
        events = self._inner.select(0)
        if events:
            return events
        if timeout is None:
            raise Deadlock("nothing left to run")
        if timeout > 0:
            loop.vtime += timeout
        return []

    def __getattr__(self, name):
        return getattr(self._inner, name)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vtime = 1000.0
        self.turns = 0
        super().__init__()
        self._selector = _Selector(self._selector, self)
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self.vtime


def run(coro):
    """Run `coro` on a fresh virtual loop; leftover tasks are cancelled."""
    loop = VirtualLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        try:
            loop.turns = 0
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in tasks:
                t.cancel()
            if tasks:
                try:
                    loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
                except (Deadlock, Livelock):
                    pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except (Deadlock, Livelock):
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()


async def settle(turns=50):
    for _ in range(turns):
        await asyncio.sleep(0)
