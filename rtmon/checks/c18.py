"""C18: a websocket serves exactly one registered component and always ends (at the ASGI boundary)."""
import asyncio, json, random, sys, types, urllib.parse
from .. import vloop
from ..client import Client, BadPath, walk
from ..common import rngs

TECHNIQUE = "runtime monitoring: the real ASGI application is driven by scripted servers with faults at every point of the protocol; monitors check the message trace, mounts, clean-ups, event order and leftover tasks"
RULE = ("one case = one application (middleware with several components or standalone) and 1-5 sockets at once, each with a script: delayed or missing connect, "
        "events, malformed frames, failing or slow sends, disconnects and cancellation at any point; non-trivial if a session ended by a fault while another went on")
ASSUME = ["effects and handlers of the components end when they are cancelled", "a malformed frame may end its own session", "query strings are those a client builds"]
REQUIRE = {"sockets": 6000, "served": 4000, "refused": 500, "events": 15000, "updates": 15000, "malformed": 2000, "send_failures": 600, "cancelled": 600, "disconnects": 2000, "early_disconnects": 200,
           "accept_failures": 100, "late_connects": 500, "survivors": 600, "floods": 200, "big_views": 100, "events_without_data": 200}
CHUNK = 20


def cases(tier, seed):
    n = 9000 if tier == "quick" else 40000
    return [{"seed": s} for s in rngs(seed, n, "c18")]


def case(res, p):
    vloop.run(run, res, p, loop_type=vloop.InlineLoop)


class Broken(OSError):
    pass


JUNK = [{"text": "{"}, {"text": ""}, {"text": "[]"}, {"text": "null"}, {"text": "3"}, {"text": '"x"'}, {"bytes": b"\x00\x01"}, {}, {"text": '{"type": "layout-event"}'},
        {"text": '{"type": "layout-event", "target": null, "data": []}'}, {"text": '{"type": "layout-event", "target": "none", "data": 5}'}, {"text": '{"type": []}'},
        {"text": '{"type": "layout-event", "target": [], "data": []}'}, {"bytes": None, "text": None}, {"text": '{"type": "layout-event", "target": {}, "data": []}'}]
MILD = [{"text": '{"type": "other"}'}, {"text": "{}"}, {"text": '{"type": null}'}, {"text": '{"type": "layout-event", "target": "none", "data": []}'},
        {"text": '{"type": "layout-update", "path": "", "model": {"tagName": "x"}}'}, {"text": '{"type": "layout-event", "target": "x:onClick", "data": [{"a": 1}], "seq": "1"}'}]


class Peer:
    """One websocket with its scripted server."""

    def __init__(self, res, rng, idx, scope, want, location):
        self.res, self.rng, self.idx, self.scope, self.want, self.location = res, rng, idx, scope, want, location
        self.client = Client()
        self.inq = asyncio.Queue()
        self.trace = []
        self.accepted = self.closed = self.gone = False
        self.sends = 0
        self.fail_from = None
        self.delay = rng.choice([0, 0, 0, 0.05, 0.5])
        self.mounts = []
        self.started = self.cleaned = 0
        self.handled = {}
        self.sent_events = {}
        self.task = None
        self.why = None            # how this session was made to end
        self.doubt = False         # a malformed frame may have ended it
        self.accept_fault = False

    async def receive(self):
        m = await self.inq.get()
        if m["type"] == "websocket.disconnect":
            self.gone = True
        return m

    async def send(self, m):
        self.trace.append(m["type"])
        bad = self.res.bad
        if self.delay:
            await asyncio.sleep(self.rng.random() * self.delay)
        if m["type"] == "websocket.accept":
            if self.accepted:
                bad("accepted-twice", f"socket {self.idx}")
            if self.accept_fault:
                raise Broken("handshake aborted")
            self.accepted = True
        elif m["type"] == "websocket.close":
            if self.gone or self.fail_from is not None:
                raise Broken("already closed")
            self.closed = True
        elif m["type"] == "websocket.send":
            if not self.accepted:
                bad("sent-before-accept", f"socket {self.idx}: {self.trace}")
            if self.closed:
                bad("sent-after-close", f"socket {self.idx}: {self.trace[-5:]}")
            self.sends += 1
            if self.fail_from is not None and self.sends >= self.fail_from:
                self.why = self.why or "send"
                self.res.counts["send_failures"] += 1
                raise Broken("connection lost")
            self.res.counts["updates"] += 1
            if not isinstance(m.get("text"), str):
                bad("not-text", m)
            try:
                self.client.apply(json.loads(m["text"]))
            except BadPath as e:
                bad("bad-path", e)
        else:
            bad("unknown-message", m)

    def targets(self):
        return [e["target"] for _, el in walk(self.client.view or {}) for e in el.get("eventHandlers", {}).values()]


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_state, use_effect, use_async_effect, use_ref
    from reactpy.core.hooks import use_connection, use_scope, use_location
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.5
    C.REACTPY_MAX_QUEUE_SIZE.current = rng.choice([1, 2, 5, 1000])
    prefix = rng.choice(["/reactpy/", "/a.b/"])
    loop = asyncio.get_running_loop()
    peers = []
    strays = []

    def make(name):
        @component
        def Comp(*args, **kw):
            if args or kw:
                res.bad("arguments", f"{args} {kw}")
            conn = use_connection()
            me = next((q for q in peers if q.scope is conn.scope), None)
            if me is None:
                strays.append((name, conn.scope))
                return "stray"
            ref = use_ref(None)
            if ref.current is None:
                ref.current = object()
                me.mounts.append(name)
            if use_scope() is not me.scope:
                res.bad("scope", f"socket {me.idx}")
            loc = use_location()
            if (loc.path, loc.query_string) != me.location:
                res.bad("location", f"socket {me.idx}: {loc} instead of {me.location} ({me.scope['query_string']})")
            n, set_n = use_state(())

            @use_effect(dependencies=[])
            def eff():
                me.started += 1

                def clean():
                    me.cleaned += 1
                return clean

            @use_async_effect(dependencies=[])
            async def waits():
                await asyncio.sleep(1e9)

            def click(which):
                async def handler(*data):
                    v = data[0]["v"] if data else 0
                    me.handled.setdefault(which, []).append(v)
                    if slow:
                        await asyncio.sleep(slow)
                    if v % 7 == 6:
                        raise ValueError("handler failed")
                    set_n(lambda o: o + (v,))
                return handler
            return html.div(html.p(repr((name, len(n)))), html.pre(filler), html.button({"onClick": click("a"), "id": "a"}, "a"), html.button({"onClick": click("b"), "id": "b"}, "b"))
        return Comp
    slow = rng.choice([0, 0, 0.01, 0.3])
    filler = "\u00e9" * rng.choice([0] * 12 + [40000, 200000])
    res.counts["big_views"] += bool(filler)
    mod = types.ModuleType("c18mod")
    comps = {n: make(n) for n in ("One", "Two", "Evil", "\u00dcber", "Four_4")}
    for n, c in comps.items():
        setattr(mod, n, c)
    sys.modules["c18mod"] = mod
    # one in a package
    inner = types.ModuleType("c18mod.inner")
    comps["inner.One"] = inner.One = make("inner.One")
    mod.inner, mod.__path__ = inner, []
    sys.modules["c18mod.inner"] = inner
    standalone = rng.random() < 0.35
    if standalone:
        app = ReactPy(comps["One"], path_prefix=prefix)
        names = {}
    else:
        names = {f"c18mod.{n}": n for n in ("One", "Two", "\u00dcber", "Four_4", "inner.One")}

        async def user(scope, receive, send):
            raise RuntimeError("not for the user's application")
        app = ReactPyMiddleware(user, list(names), path_prefix=prefix)

    async def life(peer, start_delay):
        await asyncio.sleep(start_delay)
        await app(peer.scope, peer.receive, peer.send)

    def add(idx):
        path_text = rng.choice(["/", "/a/b", "/\u00e9 x", "/a&b=c", "/%2F", "", "/a+b", "/;x", "/#h"])
        qs = rng.choice(["", "?a=1", "?a=1&b=2", "?q=%20+x", "?x=\u00e9"])
        pairs = [("path", path_text), ("qs", qs)]
        if rng.random() < 0.2:
            pairs.insert(rng.randrange(3), ("other", "1"))
        if rng.random() < 0.1:
            pairs.reverse()
        query = urllib.parse.urlencode(pairs, quote_via=rng.choice([urllib.parse.quote, urllib.parse.quote_plus])).encode()
        if standalone:
            path, want = prefix, "One"
        elif rng.random() < 0.85:
            dotted = rng.choice(list(names))
            path, want = f"{prefix}{dotted}/", names[dotted]
        else:
            dotted = rng.choice(["c18mod.Evil", "c18mod.Onee", "c18mod.one", "One", "c18mod", "c18mod.One.", ".c18mod.One", "c18mod..One", "os.getcwd", "c18mod.One.render", "json.dumps", "c18mod.On"])
            path, want = f"{prefix}{dotted}/", None
        scope = {"type": "websocket", "path": path, "raw_path": path.encode(), "query_string": query, "headers": [(b"host", b"h")], "subprotocols": [], "root_path": "",
                 "scheme": "ws", "http_version": "1.1", "asgi": {"version": "3.0"}, "client": ("c", idx), "server": ("s", 1)}
        peer = Peer(res, rng, idx, scope, want, (path_text, qs))
        peers.append(peer)
        res.counts["sockets"] += 1
        r = rng.random()
        if r < 0.06:
            peer.accept_fault = True
            peer.why = "accept"
            res.counts["accept_failures"] += 1
        elif r < 0.3:
            peer.fail_from = rng.choice([1, 1, 2, 3, 5])
        peer.task = asyncio.create_task(life(peer, rng.choice([0, 0, 0.1])))
        return peer

    async def drive(peer, faulty):
        await asyncio.sleep(rng.choice([0, 0, 0.2, 2]))
        if rng.random() < 0.06 and faulty:
            res.counts["early_disconnects"] += 1
            peer.why = peer.why or "early"
            peer.inq.put_nowait({"type": "websocket.disconnect", "code": 1006})
            return
        if rng.random() < 0.2:
            res.counts["late_connects"] += 1
            await asyncio.sleep(5)
        peer.inq.put_nowait({"type": "websocket.connect"})
        steps = rng.randrange(0, 14)
        fault_at = rng.randrange(steps + 1) if faulty else None
        for i in range(steps + 1):
            if fault_at == i:
                kind = rng.choice(["disconnect", "disconnect", "cancel", "junk", "flood"])
                if kind == "disconnect":
                    break
                if kind == "cancel":
                    res.counts["cancelled"] += 1
                    peer.why = peer.why or "cancel"
                    peer.task.cancel()
                    return
                if kind == "junk":
                    peer.doubt = True
                    peer.why = peer.why or "junk"
                    for _ in range(rng.choice([1, 1, 3])):
                        res.counts["malformed"] += 1
                        peer.inq.put_nowait({"type": "websocket.receive", **rng.choice(JUNK)})
                    if rng.random() < 0.5:
                        await asyncio.sleep(1)
                if kind == "flood":
                    res.counts["floods"] += 1
                    for _ in range(12):
                        event(peer)
            if i == steps:
                break
            x = rng.random()
            if x < 0.75:
                event(peer)
            elif x < 0.85 and (peer.fail_from is None):
                res.counts["malformed"] += 1
                peer.inq.put_nowait({"type": "websocket.receive", **rng.choice(MILD)})
            await asyncio.sleep(rng.choice([0, 0, 0.01, 0.2, 1]))
        if faulty:
            if peer.fail_from is not None and rng.random() < 0.5:
                await asyncio.sleep(3)
                for _ in range(rng.choice([3, 10])):
                    event(peer)
                await asyncio.sleep(rng.choice([0, 3]))
            res.counts["disconnects"] += 1
            peer.why = peer.why or "disconnect"
            peer.inq.put_nowait({"type": "websocket.disconnect", "code": rng.choice([1000, 1001, 1006])})

    def event(peer):
        ts = peer.targets()
        t = rng.choice(ts) if ts and rng.random() < 0.95 else "unknown"
        v = rng.randrange(50)
        res.counts["events"] += 1
        if t in ts:
            peer.sent_events.setdefault("ab"[ts.index(t) % 2], []).append(v)
        peer.inq.put_nowait({"type": "websocket.receive", "text": json.dumps({"type": "layout-event", "target": t, "data": [{"v": v}] if v else []})})
        res.counts["events_without_data"] += not v

    n = rng.choice([1, 2, 3, 5])
    drivers = []
    for i in range(n):
        peer = add(i)
        drivers.append(asyncio.create_task(drive(peer, rng.random() < 0.7)))
        await asyncio.sleep(rng.choice([0, 0, 0.3]))
    for d in drivers:
        await d
    await vloop.settle(60)

    def judge(peer, final):
        tag = f"socket {peer.idx} ({peer.scope['path']}, ended by {peer.why}, send fails from {peer.fail_from}, trace {peer.trace[:4]}..{peer.trace[-2:]})"
        connected = peer.accepted
        want = [peer.want] if peer.want and connected else []
        if peer.mounts != want and not (peer.mounts == [] and peer.why) and not (peer.why == "accept" and peer.mounts == []):
            res.bad("mounts", f"{tag}: mounted {peer.mounts} instead of {want}")
        if peer.want is None and peer.sends:
            res.bad("served-unregistered", f"{tag}: {peer.sends} updates")
        ended = peer.why is not None and peer.why not in ("send", "junk")
        if final or ended:
            if not peer.task.done():
                res.bad("never-ends", f"{tag}: the application still runs")
            if peer.cleaned != peer.started:
                res.bad("not-cleaned-up", f"{tag}: {peer.started} effects, {peer.cleaned} clean-ups")
        elif peer.why == "send":
            if peer.cleaned != peer.started:
                res.bad("not-cleaned-up", f"{tag}: {peer.started} effects, {peer.cleaned} clean-ups although nothing can be sent")
        elif peer.why is None:
            if peer.task.done():
                res.bad("ended-by-itself", f"{tag}: {peer.task}")
            if peer.cleaned:
                res.bad("ended-by-itself", f"{tag}: {peer.cleaned} clean-ups")
            for k, v in peer.sent_events.items():
                if peer.handled.get(k, []) != v:
                    res.bad("events", f"{tag}: {k} handled {peer.handled.get(k)} instead of {v}")
            if peer.want:
                total = sum(1 for v in peer.sent_events.values() for x in v if x % 7 != 6)
                text = repr((peer.want, total))
                if text not in json.dumps(peer.client.view, ensure_ascii=False):
                    res.bad("view", f"{tag}: {text} is not in {peer.client.view}")
                res.counts["survivors"] += 1
        for k, v in peer.handled.items():
            s = peer.sent_events.get(k, [])
            if v != s[:len(v)]:
                res.bad("event-order", f"{tag}: {k} handled {v} of {s}")
        if peer.task.done() and not peer.task.cancelled() and (e := peer.task.exception()) is not None and peer.why in (None, "disconnect") and peer.fail_from is None and not peer.doubt:
            res.bad("application-failed", f"{tag}: {e!r}")

    for peer in peers:
        judge(peer, False)
    mixed = any(q.why is None for q in peers) and any(q.why for q in peers)
    # the server goes away: what is left is disconnected or cancelled
    for peer in peers:
        if not peer.task.done():
            peer.why = peer.why or "final"
            if rng.random() < 0.5:
                peer.inq.put_nowait({"type": "websocket.disconnect", "code": 1001})
            else:
                peer.task.cancel()
    await vloop.settle(60)
    for peer in peers:
        judge(peer, True)
        res.counts["served" if peer.mounts else "refused"] += 1
        if peer.sends and not peer.mounts:
            res.bad("updates-without-component", f"socket {peer.idx}")
    if strays:
        res.bad("foreign-scope", strays[:2])
    left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
    if left:
        res.bad("tasks-left", "; ".join(repr(t)[:200] for t in left[:3]))
    res.done(p["seed"], mixed, {"sockets": n, "standalone": standalone, "ends": [q.why for q in peers]})
