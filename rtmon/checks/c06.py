"""C06: events reach their handler exactly once, in order, independently of each other."""
import asyncio, copy, random
from .. import vloop
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: exactly-once / FIFO / independence checker over delivered and handled event logs, virtual-time schedules"
RULE = ("one case = one session with several elements (some appearing and disappearing) whose handlers are sync, async, slow, "
        "failing or state changing, and a random storm of events incl. unknown targets and bursts beyond the queue limit; "
        "non-trivial if events of several targets overlapped in time")
ASSUME = ["the grace for an absent handler is 3 x 10 ms per event of that target"]
REQUIRE = {"delivered": 20000, "handled": 15000, "failed": 800, "failed_by_cancellation": 200, "slow": 800, "ignored": 300, "overlapping": 1000,
           "queue_overflow_cases": 150, "reappeared_in_grace": 20, "given_up": 300, "stale_checked": 10000, "fields_read": 200000}
CHUNK = 20
GRACE = 0.0301


def cases(tier, seed):
    n = 4000 if tier == "quick" else 40000
    out = []
    for s in rngs(seed, n, "c06"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "elems": r.choice([1, 2, 3, 5]), "limit": r.choice([1, 2, 3, 1000, 1000]),
                    "explicit": r.random() < 0.3, "debug": r.random() < 0.2})
    for s in rngs(seed, n // 10, "c06a"):
        r = random.Random(s)
        out.append({"kind": "abandon", "seed": s, "async": r.random() < 0.7, "limit": r.choice([1, 2, 3]), "elems": r.choice([1, 2])})
    return out


def case(res, p):
    vloop.run(abandon if p.get("kind") else run, res, p)


async def abandon(res, p):
    """Callers of deliver() that give up while the queue is full: theirs may be lost, nobody else's."""
    import reactpy.config as C
    from reactpy import component, html
    from reactpy.core.layout import Layout
    from ..client import walk
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_MAX_QUEUE_SIZE.current = p["limit"]
    started = []

    def handler(i):
        async def click(e):
            started.append((i, e["id"]))
            await asyncio.sleep(rng.choice([0.1, 0.5]))
        return click

    @component
    def Root():
        return html.div(*[html.button({"onClick": handler(i), "id": i}) for i in range(p["elems"])])

    try:
        async with Layout(Root()) as layout:
            update = await layout.render()
            targets = {m["attributes"]["id"]: m["eventHandlers"]["onClick"]["target"] for _, m in walk(update["model"]) if m.get("eventHandlers")}
            for i, t in targets.items():
                await layout.deliver({"type": "layout-event", "target": t, "data": [{"id": -1}]})
            await asyncio.sleep(60)
            started.clear()
            idle = len(asyncio.all_tasks())
            for rounds in range(3):
                sent, quits = [], []
                for k in range(rng.randrange(3, 14)):
                    i, id = rng.randrange(p["elems"]), len(sent) + rounds * 100
                    t = asyncio.create_task(layout.deliver({"type": "layout-event", "target": targets[i], "data": [{"id": id}], "seq": id}))
                    sent.append((i, id, t))
                    for _ in range(rng.choice([0, 1, 3])):
                        await asyncio.sleep(0)
                    if rng.random() < 0.3:
                        await asyncio.sleep(rng.choice([0.01, 0.3]))
                    if rng.random() < 0.4:
                        j, jd, t = rng.choice(sent)
                        if not t.done() and t.cancel():
                            quits.append((j, jd))
                await asyncio.sleep(60)
                for i, id, t in sent:
                    n = started.count((i, id))
                    if n > 1 or n == 0 and (i, id) not in quits:
                        res.bad("dropped" if n == 0 else "handled-twice", f"event {id} of element {i} after others gave up {quits}: handled {n} times")
                    if not t.done():
                        res.bad("never-delivered", f"event {id} of element {i}")
                for i in range(p["elems"]):
                    ids = [id for j, id in started if i == j]
                    if ids != sorted(ids):
                        res.bad("reordered", f"element {i} handled {ids}, given up {quits}")
                left = len(asyncio.all_tasks()) - idle
                if left > 0:
                    res.bad("still-processing", f"{left} tasks are left although all events have been handled or given up {quits}")
                res.counts["given_up"] += len(quits)
                if res.violations:
                    break
    finally:
        C.REACTPY_MAX_QUEUE_SIZE.current = 1000
    res.done((p["seed"], started), True, {"handled": started[:10]})


NAMES = ["target", "value", "checked", "currentTarget", "dataset", "elements", "type", "key", "detail", "data_x", "é"]


def plain(rng, depth=3):
    x = rng.random()
    if depth and x < 0.35:
        return {k: plain(rng, depth - 1) for k in rng.sample(NAMES, rng.randrange(4))}
    if depth and x < 0.45:
        return [plain(rng, depth - 1) for _ in range(rng.randrange(3))]
    return rng.choice([1, 0, "x", "", None, True, False, 2.5, [1, {"a": 2}]])


def reads(res, got, sent, where):
    """What the handler reads from its event, by name and by key."""
    for k in NAMES:
        try:
            v = getattr(got, k)
        except Exception as e:
            res.bad("wrong-data", f"{where}.{k}: {e!r}, sent {sent}")
            return
        want = sent.get(k)
        if v != want or type(v) is not type(want) and not (isinstance(v, dict) and isinstance(want, dict)):
            res.bad("wrong-data", f"{where}.{k} is {v!r}, sent {want!r}")
        elif k in sent and got[k] != want:
            res.bad("wrong-data", f"{where}[{k!r}] is {got[k]!r}, sent {want!r}")
        elif isinstance(want, dict):
            reads(res, v, want, f"{where}.{k}")
        res.counts["fields_read"] += 1


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_state
    from reactpy.core.events import EventHandler
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_MAX_QUEUE_SIZE.current = p["limit"] if p["async"] else 1000
    C.REACTPY_DEBUG.current = p["debug"]
    loop = asyncio.get_running_loop()
    n = p["elems"]
    log = []                   # (what, time, target, id)
    running = {}
    shown_since, hidden_since = {}, {}
    version = {}               # element -> version given by its latest render
    kinds = [rng.choice(["sync", "async", "async"]) for _ in range(n)]
    toggles = [rng.random() < 0.3 for _ in range(n)]
    events = {}                # id -> dict
    ctl = {}

    def handler_for(i, ver):
        async def body(d, *rest):
            ev = events[d["id"]]
            now = loop.time()
            ev["handled"] += 1
            ev["at"] = now
            res.counts["handled"] += 1
            if ev["handled"] > 1:
                res.bad("handled-twice", f"event {ev}")
            if ev["elem"] != i:
                res.bad("wrong-handler", f"event for element {ev['elem']} reached element {i}: {ev}")
            if ver != version.get(i):
                res.bad("stale-handler", f"element {i}: handler of render {ver} used, the latest is {version.get(i)}")
            res.counts["stale_checked"] += 1
            if d != ev["sent"] or list(rest) != ev["rest"]:
                res.bad("wrong-data", f"sent {ev['sent']} and {ev['rest']}, got {dict(d)} and {rest}")
            reads(res, d, ev["sent"], "event")
            for r, w in zip(rest, ev["rest"]):
                if isinstance(w, dict):
                    reads(res, r, w, "second argument")
            if running.get(i) is not None:
                res.bad("not-one-at-a-time", f"element {i}: event {d['id']} starts while {running[i]} is handled")
            running[i] = d["id"]
            if any(v is not None for j, v in running.items() if j != i):
                res.counts["overlapping"] += 1
            log.append(("start", i, d["id"]))
            return ev

        def finish(ev):
            running[i] = None
            ev["end"] = loop.time()

        def act(ev):
            if ev["do"] == "set":
                ctl["set"](lambda old: {**old, "x": old["x"] + 1})
            if ev["do"] == "fail":
                res.counts["failed"] += 1
                finish(ev)
                if ev["id"] % 4 == 0:
                    # as if something it waited for had been cancelled
                    res.counts["failed_by_cancellation"] += 1
                    raise asyncio.CancelledError()
                raise RuntimeError("handler fails")
        if kinds[i] == "sync":
            def sync_handler(*data):
                c = body(*data)
                try:
                    c.send(None)
                except StopIteration as s:
                    ev = s.value
                act(ev)
                finish(ev)
            return sync_handler

        async def async_handler(*data):
            ev = await body(*data)
            if ev["do"] == "slow":
                res.counts["slow"] += 1
                await asyncio.sleep(ev["dur"])
            elif ev["do"] == "yield":
                await asyncio.sleep(0)
            act(ev)
            finish(ev)
        return async_handler

    @component
    def Elem(i, x):
        ver = version[i] = version.get(i, 0) + 1
        h = handler_for(i, ver)
        if p["explicit"] and i % 2:
            inner = h

            async def h2(data):
                r = inner(*data)
                if asyncio.iscoroutine(r):
                    await r
            h = EventHandler(h2, target=f"explicit-{i}")
        return html.button({"onClick": h, "id": i}, str(x))

    @component
    def Root():
        st, ctl["set"] = use_state({"x": 0, "show": tuple([True] * n)})
        ctl["st"] = st
        return html.div(*[Elem(i, st["x"], key=f"e{i}") for i in range(n) if st["show"][i]])

    s = Session(res, Layout(Root()), rng, send_delay=rng.choice([0, 0, 0.02]), recv_delay=0).start()
    await vloop.settle(1)
    targets = {}

    def learn():
        from ..client import walk
        for _, m in walk(s.client.view):
            if m.get("eventHandlers"):
                targets[m["attributes"]["id"]] = m["eventHandlers"]["onClick"]["target"]
    learn()
    if len(targets) != n:
        res.bad("no-target", str(s.client.view)[:500])
        return
    presence = {i: [(loop.time(), True)] for i in range(n)}
    ids = 0
    overlap = False
    if p["limit"] < 10:
        res.counts["queue_overflow_cases"] += 1
    order = {i: [] for i in range(n)}
    for burst in range(rng.randrange(2, 6)):
        calm = rng.random() < 0.4
        for _ in range(rng.choice([3, 8, 20, 40])):
            x = rng.random()
            if x < 0.06 and any(toggles):
                i = rng.choice([j for j in range(n) if toggles[j]])
                ctl["set"](lambda old, i=i: {**old, "show": tuple((not b) if j == i else b for j, b in enumerate(old["show"]))})
                presence[i].append((loop.time(), None))
            elif x < 0.1:
                await s.event(f"unknown-{rng.randrange(3)}", [{"id": -1}])
            elif x < 0.14:
                ctl["set"](lambda old: {**old, "x": old["x"] + 1})
            else:
                i = rng.randrange(n) if rng.random() < 0.7 else 0
                ids += 1
                do = rng.choice(["ok", "ok", "set", "fail", "slow", "yield"])
                ev = {"id": ids, "elem": i, "do": do, "dur": rng.choice([0.001, 0.01, 0.3, 2.0]), "handled": 0, "sent_at": loop.time(),
                      "sent": {"id": ids, "v": rng.choice([1, "x", None, [1, {"a": 2}]]), **{k: plain(rng) for k in rng.sample(NAMES, rng.randrange(4))}},
                      "rest": [plain(rng)] if rng.random() < 0.2 else []}
                events[ids] = ev
                order[i].append(ids)
                res.counts["delivered"] += 1
                await s.event(targets[i], copy.deepcopy([ev["sent"], *ev["rest"]]))
            y = rng.random()
            if y < (0.1 if not calm else 0.7):
                await asyncio.sleep(rng.choice([0.0, 0.001, 0.008, 0.015, 0.1]))
            elif y < 0.3:
                for _ in range(rng.randrange(1, 5)):
                    await asyncio.sleep(0)
        if rng.random() < 0.5:
            await vloop.quiesce(lambda: (res.counts["handled"], res.counts["updates"]), dt=5)
            if s.dead:
                break
    await vloop.quiesce(lambda: (res.counts["handled"], res.counts["updates"]), dt=20)
    if s.dead:
        res.bad("session-died", s.why_dead())
        return
    for i in range(n):
        started = [e for w, j, e in log if w == "start" and j == i]
        if started != sorted(started):
            res.bad("reordered", f"element {i} handled {started}")
        free = 0.0            # when the previous event of this target was done with
        for e in order[i]:
            ev = events[e]
            if not toggles[i] and not ev["handled"]:
                res.bad("dropped", f"element {i} always shown: event {ev} was never handled")
            if ev["handled"]:
                if not toggles[i]:
                    # nothing but its own predecessors delays an event
                    late = ev["at"] - max(ev["sent_at"], free)
                    if late > 0.0005:
                        res.bad("delayed", f"element {i}: event {ev} started {late:.4f} s after it could have")
                else:
                    wait = ev["at"] - max(ev["sent_at"], free)
                    if wait > GRACE:
                        res.bad("delayed", f"element {i}: event {ev} waited {wait:.4f} s")
                    if wait > 0.005:
                        res.counts["reappeared_in_grace"] += 1
                free = max(free, ev["end"])
            else:
                res.counts["ignored"] += 1
                free = max(free, ev["sent_at"]) + GRACE
    overlap = res.counts["overlapping"] > 0
    err = await s.stop()
    if err is not None:
        res.bad("session-end-raised", repr(err))
    res.done((p["seed"], len(log)), overlap or n == 1 and len(log) > 20, {"handled": log[:20]})
