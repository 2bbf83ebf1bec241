"""Drive one layout through serve_layout (or by pulling) with a scripted slow client."""
from __future__ import annotations
import asyncio
from .client import Client, BadPath
from .program import norm, first_diff


class Session:
    def __init__(self, res, layout, rng, send_delay=0.0, recv_delay=0.0, pull=False, keep=False):
        self.res, self.rng = res, rng
        self.layout = layout
        self.client = Client()
        self.inq = asyncio.Queue()
        self.send_delay, self.recv_delay = send_delay, recv_delay
        self.pull = pull
        self.messages = []
        self.keep = keep
        self.task = None
        self.on_update = None

    async def _send(self, m):
        self.res.counts["updates"] += 1
        if m.get("path"):
            self.res.counts["partial_updates"] += 1
        if self.keep:
            import json
            self.messages.append((m, json.dumps(m)))
        try:
            self.client.apply(m)
        except BadPath as e:
            self.res.bad("bad-path", e)
        if self.on_update:
            self.on_update(m)
        if self.send_delay:
            await asyncio.sleep(self.rng.random() * self.send_delay)

    async def _recv(self):
        m = await self.inq.get()
        if self.recv_delay:
            await asyncio.sleep(self.rng.random() * self.recv_delay)
        return m

    async def _pull(self):
        from reactpy.core.layout import Layout  # noqa
        async with self.layout:
            async def incoming():
                while True:
                    await self.layout.deliver(await self._recv())
            t = asyncio.create_task(incoming())
            try:
                while True:
                    import reactpy.config as C
                    if not C.REACTPY_ASYNC_RENDERING.current:
                        # serial mode renders inside this call: cancelling it cancels the render
                        await self._send(await self.layout.render())
                        continue
                    try:
                        m = await asyncio.wait_for(self.layout.render(), self.rng.choice([0.001, 0.01, 1]))
                    except asyncio.TimeoutError:
                        self.res.counts["render_timeouts"] += 1
                        continue
                    await self._send(m)
            finally:
                t.cancel()

    def start(self):
        from reactpy.core.serve import serve_layout
        self.task = asyncio.create_task(
            self._pull() if self.pull else serve_layout(self.layout, self._send, self._recv))
        return self

    @property
    def dead(self):
        return self.task.done()

    def why_dead(self):
        if self.task.cancelled():
            return "cancelled"
        e = self.task.exception()
        import traceback
        return "".join(traceback.format_exception(e))[-1500:] if e else "returned"

    async def event(self, target, data):
        await self.inq.put({"type": "layout-event", "target": target, "data": data})

    async def stop(self):
        self.task.cancel()
        try:
            await self.task
        except BaseException as e:
            if isinstance(e, asyncio.CancelledError):
                return None
            return e
        return None

    def compare(self, app, note=""):
        """At a quiet moment: the client's view is the view of the current state."""
        self.res.counts["quiescent_comparisons"] += 1
        want = app.expected()
        self.res.counts["view_nodes_compared"] += app.m_nodes
        d = first_diff(norm(self.client.view) if self.client.view else self.client.view, want)
        if d:
            self.res.bad("view-diverged", f"{note} {d}")
        return d is None
