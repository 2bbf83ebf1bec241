"""C13: sessions release everything and long sessions do not grow."""
import asyncio, gc, random, sys, weakref
from .. import vloop
from ..common import rngs
from ..client import walk
from ..session import Session

TECHNIQUE = ("runtime monitoring: weak references to tokens captured by states, handlers, effects and clean-ups, live-task and "
             "live-object censuses (gc, allocator) at equal states of long sessions and across sessions")
RULE = ("one case = one session (or a series of sessions) mounting, re-rendering, failing and unmounting components whose states, refs, "
        "memos, handlers, effects and context values hold tracked tokens, with events to current, stale and unknown targets, "
        "ended normally, by a failing send or by cancellation at a random moment; or the same work repeated for many cycles while "
        "live objects are counted; non-trivial if tokens had been created and given up")
ASSUME = ["CPython's collector is run before counting; what the harness itself holds is dropped first"]
REQUIRE = {"tokens": 20000, "released_while_live": 5000, "ends_stop": 100, "ends_send": 100, "ends_render": 50, "cycles": 1000,
           "stale_events": 500, "unknown_events": 500, "task_censuses": 500, "live_censuses": 1500}
CHUNK = 6


def cases(tier, seed):
    n, m = (1200, 80) if tier == "quick" else (8000, 400)
    out = []
    for s in rngs(seed, n, "c13"):
        r = random.Random(s)
        out.append({"kind": "tokens", "seed": s, "async": r.random() < 0.7, "comps": r.choice([1, 2, 3]),
                    "end": r.choice(["stop", "stop", "send", "render"])})
    for s in rngs(seed, m, "c13g"):
        r = random.Random(s)
        out.append({"kind": r.choice(["growth", "growth", "sessions"]), "seed": s, "async": r.random() < 0.7, "comps": r.choice([1, 2]),
                    "mix": r.sample(["render", "remount", "async", "events", "stale", "unknown", "keyed", "fail", "ctx", "input", "swap"],
                                    r.choice([1, 2, 4, 8]))})
    return out


class Ctl(dict):
    def __missing__(self, k):
        return lambda f: None       # not mounted yet


class Token:
    __slots__ = ("what", "owner", "gen", "__weakref__")

    def __init__(self, reg, what, owner, gen):
        self.what, self.owner, self.gen = what, owner, gen
        reg.append(weakref.ref(self))


def case(res, p):
    gc.collect()
    if p["kind"] == "tokens":
        vloop.run(tokens, res, p)
    elif p["kind"] == "growth":
        vloop.run(growth, res, p)
    else:
        vloop.run(sessions, res, p)


def build_app(rng, ncomps, reg, ids, live, ctl, res):
    """Shared component definitions; everything that could be retained holds tokens."""
    from reactpy import component, html, use_state, use_ref, use_memo, use_callback, use_effect, use_reducer
    from reactpy.core.hooks import create_context, use_context, use_async_effect
    Ctx = create_context(None)

    def tok(what, owner, gen):
        return Token(reg, what, owner, gen)

    @component
    def Leaf(owner_hint):
        uid = use_ref(None)
        if uid.current is None:
            uid.current = [next(ids), 0]
        me, gen = uid.current[0], uid.current[1] + 1
        uid.current[1] = gen
        v, set_v = use_state(lambda: (0, tok("state", me, 1)))
        use_ref(tok("ref", me, 1) if gen == 1 else None)
        use_memo(lambda: tok("memo", me, gen), [v[0]])
        cbt = tok("callback", me, gen)
        use_callback(lambda: cbt, dependencies=[v[0]])
        use_reducer(lambda s, a: s, tok("reducer", me, 1) if gen == 1 else None)
        use_context(Ctx)
        et, ct, at = tok("effect", me, gen), tok("cleanup", me, gen), tok("async", me, gen)

        @use_effect(dependencies=None)
        def every():
            et.what
            return lambda: ct.what

        @use_effect(dependencies=[])
        def once():
            live[me] = set_v
            return lambda: live.pop(me, None)

        @use_async_effect(dependencies=None, shield=me % 3 == 0)
        async def slow():
            await asyncio.sleep([0, 0.01, 0.05][me // 3 % 3])
            at.what
            return lambda: at.what
        ht = tok("handler", me, gen)

        async def click(*a):
            ht.what
            if ctl.get("slow"):
                try:
                    await asyncio.sleep([0.3, 7][gen % 2])
                finally:        # also when cancelled at the end of the session
                    if gen % 4 < 2:
                        set_v(lambda o: (o[0] + 1, tok("state", me, o[1].gen + 1)))
                    if me % 2:
                        ctl["root"](lambda o: o ^ 1)
            set_v(lambda o: (o[0] + 1, tok("state", me, o[1].gen + 1)))
        kt = tok("handler", me, gen)

        def key(*a):
            kt.what
        if ctl.get("fail") == me % 3:
            raise RuntimeError("render fails")
        kids = [html.p({"key": f"{me}-{gen % 2}", "onClick": click}, str(v[0])), html.input({"onChange": key, "value": str(v[0])})]
        if gen % 3 == 0:
            kids.append(html.button({"onClick": key}))
        return html.div({"onKeyDown": key}, *kids)

    @component
    def Mid(i):
        n, set_n = use_state(0)
        ctl[f"mid{i}"] = set_n
        vt = tok("context", f"mid{i}", n)
        keys = [f"k{n}", f"k{n + 1}"] if n % 2 else [f"k{n}", "stay"]
        return Ctx(html.div(*[Leaf(vt, key=k) for k in keys]), value=vt)

    @component
    def Root():
        show, ctl["root"] = use_state(0)
        return html.main(*[Mid(i, key=f"m{i}") for i in range(ncomps) if not (show >> i) & 1])
    return Root


def targets(view):
    return [t["target"] for _, m in walk(view) for t in (m.get("eventHandlers") or {}).values()] if view else []


async def act(rng, res, s, live, ctl, ncomps, op, uid):
    if op == "render" and live:
        live[rng.choice(sorted(live))](lambda o: (o[0] + 1, o[1]))
    elif op == "remount":
        ctl["root"](lambda o: o ^ (1 << rng.randrange(ncomps)))
    elif op in ("keyed", "ctx"):
        ctl[f"mid{rng.randrange(ncomps)}"](lambda o: o + 1)
    elif op == "events":
        t = targets(s.client.view)
        if t:
            await s.event(rng.choice(t), [{}])
            res.counts["events"] += 1
    elif op == "stale":
        t = targets(s.client.view)
        ctl[f"mid{rng.randrange(ncomps)}"](lambda o: o + 1)
        await asyncio.sleep(0.5)
        if t:
            await s.inq.put({"type": "layout-event", "target": rng.choice(t), "data": [{}], "seq": uid})
            res.counts["stale_events"] += 1
    elif op == "unknown":
        await s.inq.put({"type": "layout-event", "target": f"unknown-{uid}", "data": [], "seq": uid})
        res.counts["unknown_events"] += 1
    elif op == "fail":
        ctl["fail"] = rng.randrange(3)
        ctl["root"](lambda o: o ^ 1)
        await asyncio.sleep(0.5)
        if live:
            live[rng.choice(sorted(live))](lambda o: (o[0] + 1, o[1]))
        await asyncio.sleep(0.5)
        ctl.pop("fail", None)
        ctl["root"](lambda o: o ^ 1)
    elif op == "input":
        t = [h["onChange"]["target"] for _, m in walk(s.client.view) for h in [m.get("eventHandlers") or {}] if "onChange" in h] if s.client.view else []
        if t:
            await s.inq.put({"type": "layout-event", "target": rng.choice(t), "data": [{}], "seq": uid})
    elif op == "swap":
        for i in range(ncomps):
            ctl[f"mid{i}"](lambda o: o + 1)


async def tokens(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    reg, live, ctl = [], {}, Ctl()
    ids = iter(range(1 << 30))
    n = p["comps"]
    Root = build_app(rng, n, reg, ids, live, ctl, res)
    fail_send = [False]
    layout = Layout(Root())
    s = Session(res, layout, rng, send_delay=rng.choice([0, 0, 0.02]))
    wr = weakref.ref(layout) if type(layout).__weakrefoffset__ else None
    del layout
    send = s._send

    async def sender(m):
        if fail_send[0]:
            raise ConnectionError("gone")
        await send(m)
    s._send = sender
    s.start()
    ops = ["render", "remount", "keyed", "events", "stale", "unknown", "fail", "input", "swap"]
    for k in range(rng.randrange(4, 12)):
        for _ in range(rng.randrange(1, 4)):
            await act(rng, res, s, live, ctl, n, rng.choice(ops), k)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0.01]))
        if rng.random() < 0.6:
            await asyncio.sleep(3)
            if s.dead:
                res.bad("session-died", s.why_dead())
                return
            gc.collect()
            # what is gone, or was replaced by later renders, is released
            alive = [r() for r in reg if r() is not None]
            res.counts["live_censuses"] += 1
            gens = {}
            for t in alive:
                gens.setdefault(t.owner, set()).add(t.gen)
            for t in alive:
                if isinstance(t.owner, int) and t.owner not in live and "fail" not in ctl:
                    res.bad("retained-after-unmount", f"{t.what} of component {t.owner}, render {t.gen}: {where(t)}")
                    return
            per = {}
            for t in alive:
                per[t.owner, t.what] = per.get((t.owner, t.what), 0) + 1
            limit = {"handler": 4}      # two per render; a re-render in which the component failed keeps none
            for (o, w), k2 in per.items():
                if isinstance(o, int) and k2 > limit.get(w, 2):
                    res.bad("retained-after-render", f"{k2} {w} tokens of component {o}: {[where(t) for t in alive if t.owner == o and t.what == w][:2]}")
                    return
            res.counts["released_while_live"] += len(reg) - len(alive)
            t = None
            del alive
    if p["end"] == "send":
        fail_send[0] = True
        for i in range(n):
            ctl[f"mid{i}"](lambda o: o + 1)
        await asyncio.sleep(rng.choice([0, 0.01, 2]))
    elif p["end"] == "render":
        for i in range(n):
            ctl[f"mid{i}"](lambda o: o + 1)
        for _ in range(rng.randrange(8)):
            await asyncio.sleep(0)
    if rng.random() < 0.5:
        ctl["slow"] = True
        for t in rng.sample(t, min(len(t), 3)) if (t := targets(s.client.view)) else ():
            await s.event(t, [{}])
            res.counts["slow_at_end"] += 1
        await asyncio.sleep(rng.choice([0, 0.01, 0.2]))
        if live and rng.random() < 0.7:
            for me in rng.sample(sorted(live), rng.randrange(1, len(live) + 1)):
                live[me](lambda o: (o[0] + 1, o[1]))
            for _ in range(rng.choice([2, 5, 10])):
                await asyncio.sleep(0)
    await s.stop()
    res.counts["ends_" + p["end"]] += 1
    tasks = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
    if tasks:
        res.bad("tasks-left", f"right after the end: {tasks[:4]}")
        for t in tasks:
            t.cancel()
    del tasks
    await asyncio.sleep(5)
    tasks = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
    res.counts["task_censuses"] += 1
    if tasks:
        res.bad("tasks-left", f"{tasks[:4]}")
    ltask = s.task
    s.task = s.layout = s._send = send = sender = None
    ctl.clear()
    if live:
        res.bad("cleanup-missing", f"components {sorted(live)} were not cleaned up")
    live.clear()
    del s, ltask, Root, tasks
    gc.collect()
    unhandled = [f"{e.get('message')}: {e.get('exception')!r}" for e in asyncio.get_running_loop().errors]
    asyncio.get_running_loop().errors.clear()
    if unhandled:
        res.bad("unhandled", f"{unhandled[:2]}")
    gc.collect()
    left = [r() for r in reg if r() is not None]
    if left:
        res.bad("retained-after-end", f"{len(left)} tokens, e.g. {left[0].what} of {left[0].owner}: {where(left[0])}")
    if wr is not None and wr() is not None:
        res.bad("layout-retained", where(wr()))
    del left
    res.counts["tokens"] += len(reg)
    res.done((p["seed"], len(reg)), len(reg) > 20, {"tokens": len(reg), "end": p["end"]})


def where(obj, depth=14):
    """The shortest chain of referrers from something of the framework or the loop, for the report."""
    import types
    queue, seen = [(obj, "")], {id(obj)}
    best = ""
    while queue and len(seen) < 4000:
        o, path = queue.pop(0)
        for r in gc.get_referrers(o):
            if id(r) in seen or isinstance(r, types.FrameType) or r is queue:
                continue
            if isinstance(r, types.CoroutineType) and r.__qualname__ == "tokens" or isinstance(r, (types.ModuleType,)):
                continue
            if isinstance(r, tuple) and len(r) == 2 and r[0] is o and isinstance(r[1], str):
                continue
            if isinstance(r, list) and r and all(isinstance(x, Token) for x in r):
                continue
            seen.add(id(r))
            name = f"{path} < {type(r).__name__} {getattr(r, '__qualname__', '')}".rstrip()
            best = max(best, name, key=len)
            if type(r).__name__ in ("Layout", "Task", "VirtualLoop"):
                return name
            queue.append((r, name))
    return best


async def cycle(rng, res, s, live, ctl, n, mix, k):
    for op in mix:
        await act(rng, res, s, live, ctl, n, op, k)
        await asyncio.sleep(2)
    # back to the same state
    ctl["root"](lambda o: 0)
    await asyncio.sleep(2)
    for i in range(n):
        ctl[f"mid{i}"](lambda o: o + (o % 2) + 2)
    await asyncio.sleep(2)
    res.counts["cycles"] += 1


async def growth(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    reg = Sink()
    live, ctl = {}, Ctl()
    ids = iter(range(1 << 30))
    n = p["comps"]
    Root = build_app(rng, n, reg, ids, live, ctl, res)
    s = Session(res, Layout(Root()), rng).start()
    await asyncio.sleep(2)
    points, unit = [], 12
    for k in range(3 * unit):
        await cycle(rng, res, s, live, ctl, n, p["mix"], k)
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        if (k + 1) % unit == 0:
            gc.collect()
            points.append((len(gc.get_objects()), sys.getallocatedblocks(), len(asyncio.all_tasks())))
    res.counts["growth_sessions"] += 1
    (g1, b1, t1), (g2, b2, t2), (g3, b3, t3) = points
    # per cycle less than one object or block, in both spans
    if min(g2 - g1, g3 - g2) >= unit or min(b2 - b1, b3 - b2) >= 2 * unit or min(t2 - t1, t3 - t2) >= unit // 2:
        res.bad("growth", f"{p['mix']}: objects {g1} {g2} {g3}, blocks {b1} {b2} {b3}, tasks {t1} {t2} {t3} at {unit} cycle steps")
    await s.stop()
    res.done((p["seed"], points), True, {"mix": p["mix"], "objects": [x[0] for x in points], "blocks": [x[1] for x in points]})


class Sink:
    """Does not keep the tokens' references."""

    def append(self, r):
        pass


async def sessions(res, p):
    """The same work in one session after the other."""
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    live, ctl = {}, Ctl()
    ids = iter(range(1 << 30))
    n = p["comps"]
    Root = build_app(rng, n, Sink(), ids, live, ctl, res)
    points, unit = [], 8
    for k in range(3 * unit):
        s = Session(res, Layout(Root()), rng).start()
        await asyncio.sleep(1)
        for op in p["mix"]:
            await act(rng, res, s, live, ctl, n, op, k)
            await asyncio.sleep(rng.choice([0, 0.01, 2]))
        await s.stop()
        await asyncio.sleep(1)
        res.counts["cycles"] += 1
        del s
        ctl.clear()
        if live:
            res.bad("cleanup-missing", f"components {sorted(live)}")
            return
        if (k + 1) % unit == 0:
            gc.collect()
            points.append((len(gc.get_objects()), sys.getallocatedblocks(), len(asyncio.all_tasks())))
    (g1, b1, t1), (g2, b2, t2), (g3, b3, t3) = points
    if min(g2 - g1, g3 - g2) >= unit or min(b2 - b1, b3 - b2) >= 2 * unit or t3 > 1:
        res.bad("growth-across-sessions", f"{p['mix']}: objects {g1} {g2} {g3}, blocks {b1} {b2} {b3}, tasks {t1} {t2} {t3}")
    res.done((p["seed"], points), True, {"sessions": 3 * unit, "objects": [x[0] for x in points]})
