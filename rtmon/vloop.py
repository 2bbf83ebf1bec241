"""An asyncio event loop whose clock is virtual.

Sleeping costs nothing: when nothing is ready to run, the clock jumps to the next
timer. The order in which callbacks run is asyncio's own, so every schedule seen here
is one the real loop can have. A run that would wait forever raises `Deadlock`.
"""
from __future__ import annotations
import asyncio, selectors, contextvars


class Deadlock(BaseException):
    """Nothing is ready, no timer is pending and the main future is not done."""


class _Selector:
    def __init__(self, real):
        self.real = real
        self.loop = None

    def select(self, timeout=None):
        ev = self.real.select(0)
        if ev:
            return ev
        if timeout is None:
            if self.loop.threads:          # something outside may wake us up
                return self.real.select(0.05)
            raise Deadlock("nothing left to run")
        if timeout > 0:
            if self.loop.threads:
                ev = self.real.select(min(timeout, 0.001))
                if ev:
                    return ev
            self.loop.vtime += timeout
        return ev

    def __getattr__(self, n):
        return getattr(self.real, n)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        sel = _Selector(selectors.DefaultSelector())
        super().__init__(sel)
        sel.loop = self
        self.vtime = 0.0
        self.threads = 0
        self.steps = 0
        self.max_steps = 2_000_000
        self._clock_resolution = 1e-9
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self.vtime

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Deadlock("too many loop iterations")
        super()._run_once()


def run(coro_fn, *args, threads=0, loop_type=None):
    """Run `coro_fn(*args)` on a fresh virtual loop, return its result."""
    loop = (loop_type or VirtualLoop)()
    loop.threads = threads
    asyncio.set_event_loop(loop)
    try:
        # own context: nothing set by one run can reach the next
        return contextvars.copy_context().run(loop.run_until_complete, coro_fn(*args))
    finally:
        try:
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pend:
                t.cancel()
            if pend:
                try:
                    loop.threads = 0
                    loop.max_steps = loop.steps + 20000
                    loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
                except BaseException:
                    pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()


async def idle(rounds=1):
    """Yield until every callback that is ready right now (and what it starts) has run."""
    for _ in range(rounds):
        await asyncio.sleep(0)


async def settle(dt=5.0):
    """Let everything that can happen without outside input happen."""
    await asyncio.sleep(dt)


async def quiesce(probe, dt=30.0, limit=200):
    """Settle until `probe()` stops changing."""
    for _ in range(limit):
        before = probe()
        await asyncio.sleep(dt)
        if probe() == before:
            return
    raise Deadlock("never becomes quiet")


class InlineLoop(VirtualLoop):
    """A virtual loop on which work for threads is done at once."""

    def run_in_executor(self, executor, func, *args):
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except Exception as e:
            f.set_exception(e)
        return f
