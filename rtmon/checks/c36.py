"""C36: what is busy or stuck holds nothing else up."""
import asyncio, random
from .. import vloop
from ..client import walk
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: sessions with endless, stuck and slow parts beside which states are set and events sent; a monitor requires each to show within a bounded number of turns of the event loop"
RULE = ("one case = 1-3 sessions, each with 1-4 busy parts (components that render endlessly, effects that loop or never end, handlers and clean-ups that wait, clients that stop reading) and 2-5 components that are probed 6-14 times by state, event or a change of their place; "
        "non-trivial if something was stuck and something endless while probes were answered")
ASSUME = ["a component that is removed is waited for by the renders of its ancestors, and with REACTPY_ASYNC_RENDERING off by all renders of its session", "handlers do not block the thread"]
REQUIRE = {"probes": 4000, "state_probes": 1800, "event_probes": 1600, "place_probes": 400, "beside_endless": 2500, "beside_stuck_handlers": 2000, "beside_stuck_unmounts": 1000, "beside_stuck_effects": 2000, "beside_stuck_clients": 1000, "below_endless": 400,
           "released": 600, "endings": 800, "endless_renders": 5000, "roots_waiting": 100, "ended_while_stuck": 60}
CHUNK = 20
TURNS = 1500


def cases(tier, seed):
    n = 900 if tier == "quick" else 9000
    return [{"seed": s} for s in rngs(seed, n, "c36")]


def case(res, p):
    rng = random.Random(p["seed"])
    import reactpy.config as C
    C.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.6
    C.REACTPY_MAX_QUEUE_SIZE.current = rng.choice([1000, 1000, 1, 2])
    vloop.run(run, res, rng, C.REACTPY_ASYNC_RENDERING.current)
    c = res.counts
    res.done((p["seed"], sorted(c.items())), c["probes"] and c["beside_endless"] and (c["beside_stuck_handlers"] or c["beside_stuck_unmounts"]), {"counts": dict(c)})


class Page:
    """One session; `busy` says what goes on in it."""

    def __init__(self, res, rng, concurrent, number):
        from reactpy import component, hooks, html
        self.res, self.rng, self.number = res, rng, number
        kinds = ["spin", "spin", "loop", "handler", "handler", "effect", "cleanup"] + ["unmount"] * 2 * concurrent
        self.busy = [rng.choice(kinds) for _ in range(rng.randrange(1, 5))]
        self.items = [f"p{i}" for i in range(rng.randrange(2, 6))]
        self.setters, self.shown_n, self.handled, self.effects = {}, {}, [], {}
        self.gates, self.endless, self.stuck_unmounts, self.blocked = {}, 0, 0, False
        self.root_waits = self.root_shown = 0
        page = self

        @component
        def Probe(name):
            n, set_n = hooks.use_state(0)
            page.setters[name] = set_n
            hooks.use_effect(lambda: page.effects.__setitem__(name, n), [n])

            def click(e):
                page.handled.append((name, e["v"]))
                set_n(lambda o: o + 1)
            return html.button({"id": name, "onClick": click}, f"{name}:{n}")

        @component
        def Busy(i, kind):
            n, set_n = hooks.use_state(0)
            page.setters["busy", i] = set_n
            if kind == "spin":
                page.endless += 1
                hooks.use_effect(lambda: set_n(n + 1), None)
                return html.div(Probe(f"b{i}"), html.i(str(n)))
            if kind == "loop":
                page.endless += 1

                @hooks.use_async_effect(dependencies=[])
                async def loop():
                    while True:
                        set_n(lambda o: o + 1)
                        await asyncio.sleep(0)
                return html.i(str(n))
            gate = page.gates.setdefault(i, asyncio.Event())
            if kind == "handler":
                async def wait(e):
                    await gate.wait()
                    page.handled.append((f"h{i}", e["v"]))
                return html.button({"id": f"h{i}", "onClick": wait})
            if kind == "effect":
                @hooks.use_async_effect(dependencies=[])
                async def forever():
                    await asyncio.Event().wait()
                return html.i(f"e{n}")
            if kind == "cleanup":
                # a former run goes on; the component itself renders as ever
                @hooks.use_async_effect(dependencies=[n], shield=True)
                async def slow():
                    await gate.wait()
                return html.i({"id": f"c{i}"}, f"c{n}")
            return html.div(Leaving(i, n, key=str(n)))

        @component
        def Leaving(i, n):
            gate = page.gates.setdefault(i, asyncio.Event())

            @hooks.use_async_effect(dependencies=[], shield=True)
            async def slow():
                await gate.wait()
            return html.i({"id": f"u{i}"}, f"u{n}")

        @component
        def Root():
            page.root_shown, page.setters["root"] = hooks.use_state(0)
            return html.div([Busy(i, k, key=f"busy{i}") for i, k in enumerate(page.busy)], [Probe(n, key=n) for n in page.items])
        from reactpy.core.layout import Layout
        self.s = Session(res, Layout(Root()), rng)
        self.reading = asyncio.Event()
        self.reading.set()
        send = self.s._send

        async def wait_and_send(m):
            await page.reading.wait()
            await send(m)
        self.s._send = wait_and_send
        self.s.start()

    def view(self):
        return {m["attributes"]["id"]: m for _, m in walk(self.s.client.view or {}) if isinstance(m, dict) and "id" in m.get("attributes", {})}

    def text(self, name):
        m = self.view().get(name)
        return m["children"][0] if m and m.get("children") else None

    async def reach(self, cond, what):
        """Wait until it is so, for a number of turns that is far more than it takes."""
        for _ in range(TURNS):
            if cond():
                return True
            if self.s.dead:
                self.res.bad("session-died", self.s.why_dead())
                return False
            await asyncio.sleep(0)
        self.res.bad("held-up", f"session {self.number} ({self.busy}, {self.stuck_unmounts} unmounts stuck): {what} did not happen in {TURNS} turns")
        return False


async def run(res, rng, concurrent):
    pages = [Page(res, rng, concurrent, i) for i in range(rng.choice([1, 1, 2, 3]))]
    for g in pages:
        names = {*g.items, *(f"b{i}" for i, k in enumerate(g.busy) if k == "spin")}
        if not await g.reach(lambda: names <= set(g.view()), "the first view"):
            return
    # get the stuck parts stuck
    for g in pages:
        for i, k in enumerate(g.busy):
            if k == "handler":
                for v in range(rng.randrange(1, 5)):
                    await g.s.event(g.view()[f"h{i}"]["eventHandlers"]["onClick"]["target"], [{"v": v}])
            elif k == "cleanup":
                for v in range(1, rng.randrange(2, 5)):
                    g.setters["busy", i](v)
                    if not await g.reach(lambda: g.text(f"c{i}") == f"c{v}", f"a render of a component whose former effect goes on"):
                        return
            elif k == "unmount":
                g.setters["busy", i](1)
                await vloop.idle(5)
                g.stuck_unmounts += 1
    if len(pages) > 1 and rng.random() < 0.6:
        g = pages.pop(rng.randrange(len(pages)))
        g.reading.clear()
        g.setters[g.items[0]](5)
        stuck_client = [g]
    else:
        stuck_client = []
    count = 0
    for _ in range(rng.randrange(6, 15)):
        g = rng.choice(pages)
        before = g.endless
        names = list(g.items) + [f"b{i}" for i, k in enumerate(g.busy) if k == "spin"]
        name = rng.choice(names)
        act = rng.random()
        old = g.text(name)
        n = int(old.split(":")[1])
        if act < 0.45:
            k = rng.choice([1, 1, 2, 5])
            for _ in range(k):
                g.setters[name](lambda o: o + 1)
            ok = await g.reach(lambda: g.text(name) == f"{name}:{n + k}" and g.effects[name] == n + k, f"the state of {name} being {n + k}, and its effect,")
            res.count(state_probes=1)
        elif act < 0.85:
            count += 1
            had = len(g.handled)
            await g.s.event(g.view()[name]["eventHandlers"]["onClick"]["target"], [{"v": count}])
            ok = await g.reach(lambda: (name, count) in g.handled[had:] and g.text(name) == f"{name}:{n + 1}", f"an event of {name}, and what it sets,")
            res.count(event_probes=1)
        elif g.stuck_unmounts:
            # the root has to wait for them, the others do not have to wait for the root
            count += 1
            g.setters["root"](count)
            g.root_waits = count
            res.count(roots_waiting=1)
            continue
        else:
            g.items = [x for x in g.items if rng.random() < 0.7 or x == g.items[0]] + [f"n{count}-{rng.randrange(1000)}"]
            rng.shuffle(g.items)
            count += 1
            g.setters["root"](count)
            want = list(g.items)
            ok = await g.reach(lambda: [x for x in g.view() if x in set(want) | set(names) and x[0] in "pn"] == want, f"{want} being shown in place of {names}")
            res.count(place_probes=1)
        if not ok:
            return
        res.count(probes=1, beside_endless="spin" in g.busy or "loop" in g.busy, beside_stuck_handlers="handler" in g.busy, beside_stuck_unmounts=bool(g.stuck_unmounts), beside_stuck_effects="effect" in g.busy or "cleanup" in g.busy,
                  beside_stuck_clients=bool(stuck_client), below_endless=name[0] == "b", endless_renders=g.endless - before)
    # let them go on: what waited happens now
    for g in pages + stuck_client:
        if rng.random() < 0.5 and not {"cleanup", "unmount"} & set(g.busy):
            # the end of the session has to do without
            res.count(ended_while_stuck="handler" in g.busy)
            continue
        g.reading.set()
        for e in g.gates.values():
            e.set()
        for i, k in enumerate(g.busy):
            if k == "unmount":
                if not await g.reach(lambda: g.text(f"u{i}") == "u1", "the render that waited for a removed component"):
                    return
                res.count(released=1)
                if g.root_waits and not await g.reach(lambda: g.root_shown == g.root_waits, "the render of the root that waited for them"):
                    return
            elif k == "handler":
                if not await g.reach(lambda: (f"h{i}", 0) in g.handled, "the handler that waited"):
                    return
                res.count(released=1)
    for g in pages + stuck_client:
        if rng.random() < 0.5:
            g.reading.clear()
        g.s.task.cancel()
        for _ in range(TURNS):
            if g.s.task.done():
                break
            await asyncio.sleep(0)
        else:
            res.bad("held-up", f"session {g.number} ({g.busy}) did not end in {TURNS} turns")
            return
        res.count(endings=1)
        if not g.s.task.cancelled() and g.s.task.exception() is not None:
            res.bad("session-died", g.s.why_dead())
