"""C29: typing is never undone by a stale server value."""
import asyncio, json, random
from .. import vloop
from ..client import walk
from ..common import rngs
from ..node import Endless, Node

TECHNIQUE = "runtime monitoring: the real client in Node and the real server layout run together in virtual time over a slow line while a scripted user types; every write into a field is compared with what the server had taken up when it rendered the value, every event sent with the events that happened and the limits on them"
RULE = ("one case = one page with 1-3 inputs, selects and text areas (controlled by the server through transformations, values it sets itself, slow and asynchronous handlers, debounce and throttle, other handlers), a limited button, re-renders, moves, remounts and reconnects, and 10-60 things a user does over a line with 10-200 ms of delay and jitter; "
        "non-trivial if the server's value was shown at least twice and something was typed while an update was under way")
ASSUME = ["lines keep the order of messages", "what a handler has been started with counts as known to the server, as in C08", "one handler for each event of an element; its limits do not change", "a field whose value has no handler is not protected"]
REQUIRE = {"resumed": 1, "edits": 8000, "writes": 3000, "stale_messages": 3000, "fresh_writes": 1500, "limited_events": 3000, "collapsed": 1000, "unlimited_events": 8000, "converged": 500, "pushes": 500, "remounts": 300, "reconnects": 50, "prevented": 2000, "numbers": 30, "overlaps": 2000}
CHUNK = 10
node = Node("c29")
VALUE = ("onInput", "onChange")


def cases(tier, seed):
    n = 700 if tier == "quick" else 12000
    return [{"seed": s, "async": i % 5 != 0} for i, s in enumerate(rngs(seed, n, "c29"))]


def case(res, p):
    import reactpy.config as C
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    try:
        vloop.run(run, res, p)
    except Endless as e:
        res.bad("endless", e)


TRANSFORMS = [lambda v: v, lambda v: v, lambda v: v, lambda v: v.upper(), lambda v: v.strip("!"), lambda v: "" if v.endswith("!") else v, lambda v: v[:6], lambda v: "fixed"]


class Field:
    def __init__(self, i, rng):
        r = rng
        self.id, self.key = f"f{i}", f"k{i}"
        self.tag = r.choice(["input", "input", "input", "textarea", "select"])
        self.number = self.tag == "input" and r.random() < 0.15
        self.transform = r.choice(TRANSFORMS) if self.tag != "select" else TRANSFORMS[0]
        self.handlers = {}
        for name in [r.choice(["onInput", "onChange"]), *r.sample(["onKeyDown", "onKeyUp", "onBlur", "onInput", "onChange"], r.choice([0, 0, 1, 1, 2]))]:
            self.handlers[name] = {"throttle": r.choice([None] * 3 + [50, 300]) if r.random() < 0.5 else None, "debounce": r.choice([30, 100, 200]) if r.random() < (0.4 if name in VALUE else 0.1) else None,
                                   "prevent": r.random() < 0.2, "slow": r.choice([None, None, None, ("before", 0.02), ("before", 0.15), ("after", 0.1)]), "sets": name in VALUE and r.random() < 0.93, "bump": r.random() < 0.3}
        if r.random() < 0.06:
            self.handlers = {k: v for k, v in self.handlers.items() if k not in VALUE}
        self.protected = any(k in VALUE for k in self.handlers)
        self.initial = 0 if self.number else r.choice(["", "", "ab", None]) if self.tag != "select" else "b"
        self.own = r.random() < 0.5
        self.tagged = self.tag


class Server:
    """One connection."""

    def __init__(self, page):
        from reactpy import component, hooks, html
        from reactpy.core.events import event
        from reactpy.core.layout import Layout
        from reactpy.core.serve import serve_layout
        from reactpy.core.vdom import Vdom
        self.page, self.res, self.out, self.inq = page, page.res, [], asyncio.Queue()
        self.taken, self.snaps, self.setters, self.values = {}, [], {}, {}
        self.clicks, self.active = [], 0
        me = self

        def control(f, value, set_value, bump):
            snap = min((me.taken.get((f.id, h), -1) for h in f.handlers if h in VALUE), default=None)
            me.snaps.append(snap)
            me.setters[f.id] = (set_value, bump)
            attrs = {"id": f.id, "key": f.key + page.epochs.get(f.id, ""), "data-r": len(me.snaps) - 1}
            if value is not None:
                attrs["value"] = value

            def make(name, h):
                async def handle(e):
                    n = e["detail"]
                    me.active = page.time()
                    if n <= me.taken.get((f.id, name), -1):
                        me.res.bad("order", f"{name} of {f.id}: event {n} came after {me.taken[f.id, name]}")
                    me.taken[f.id, name] = n
                    when, t = h["slow"] or (None, 0)
                    if when == "before":
                        await asyncio.sleep(t)
                    if h["sets"]:
                        v = f.transform(e["target"]["value"])
                        set_value(int(v) if f.number and v.isdigit() else v)
                    if h["bump"]:
                        bump(lambda x: x + 1)
                    if when == "after":
                        await asyncio.sleep(t)
                    me.active = page.time()
                return event(handle, prevent_default=h["prevent"], debounce=h["debounce"], throttle=h["throttle"])
            for name, h in f.handlers.items():
                attrs[name] = make(name, h)
            kids = [html.option({"value": v}, v) for v in "abcd"] if f.tag == "select" else []
            return Vdom(f.tagged)(attrs, *kids)

        @component
        def field(f):
            value, set_value = hooks.use_state(f.initial)
            _, bump = hooks.use_state(0)
            return control(f, value, set_value, bump)

        @component
        def root():
            values, set_values = hooks.use_state({f.id: f.initial for f in page.fields})
            _, me.refresh = hooks.use_state(0)

            def setter(i):
                return lambda v: set_values(lambda old: {**old, i: v})
            rows = [field(f, key=f.key + page.epochs.get(f.id, "")) if f.own else control(f, values[f.id], setter(f.id), me.refresh) for f in page.fields if f.id not in page.hidden]

            async def click(e):
                me.clicks.append(e["detail"])
                if page.click_refresh:
                    me.refresh(lambda x: x + 1)
            button = html.button({"id": "b", "onClick": event(click, throttle=page.throttle, prevent_default=True)}, "go")
            return Vdom(page.wrap)({}, *rows, button)

        async def send(m):
            self.out.append((self.page.time(), json.dumps(m)))
        self.task = asyncio.create_task(serve_layout(Layout(root()), send, self.inq.get))

    async def end(self):
        self.task.cancel()
        try:
            await self.task
        except BaseException:
            pass


class Page:
    def __init__(self, res, rng):
        self.res, self.rng = res, rng
        self.fields = [Field(i, rng) for i in range(rng.choice([1, 1, 2, 3]))]
        self.hidden, self.epochs, self.wrap = set(), {}, "div"
        self.throttle = rng.choice([None, 40, 250])
        self.click_refresh = rng.random() < 0.5
        self.loop = asyncio.get_running_loop()
        self.t0 = self.loop.time()
        self.events = {}            # n -> what the user did
        self.sent = []              # (at, session, frame)
        self.delivered = []         # {id: (value, knowledge)} of each message
        self.gone, self.drops = {}, []
        self.edits = []             # (n, id, node, session at that time, at)

    def offline(self, start, end):
        """Whether the line was cut in this time, so that messages may have waited for it"""
        return any(a <= end and start <= b for a, b in self.drops)

    def resumed(self, w, session):
        e = self.events.get(w["last"])
        return e is not None and e["session"] != session and any(
            s == session and at <= w["at"] and self.events.get(f["data"][0]["detail"], {}).get("id") == w["id"] for at, s, f in self.sent)

    def time(self):
        return round((self.loop.time() - self.t0) * 1000, 6)


async def run(res, p):
    rng = random.Random(p["seed"])
    page = Page(res, rng)
    node.call("open")
    base = rng.choice([10, 10, 30, 50, 200])
    jitter = rng.choice([0, 0, 20, 100])
    server, session = Server(page), 0
    servers = [server]
    up, down = [], []               # (at, session, what)
    last_up = last_down = 0
    script, later, n = [], [], 0
    t = rng.choice([0, 50, 300])
    pace = rng.choice([3, 15, 40, 80, 150])
    for _ in range(rng.randrange(10, 60)):
        t += rng.randrange(1, 2 * pace)
        if rng.random() < 0.06:
            t += rng.choice([300, 700])
        k = rng.random()
        if k < 0.78:
            f = rng.choice(page.fields) if rng.random() < 0.3 or not script else page.fields[0]
            n += 1
            types = ["keydown", "EDIT", "input", "change", "keyup"] if rng.random() < 0.9 else ["blur", "keyup"]
            if types[-1] == "keyup" and rng.random() < 0.5:
                # keys are held for a while
                types = types[:-1]
                later.append((t + rng.randrange(1, 200), f.id))
            script.append({"at": t, "id": f.id, "op": "set" if f.number else rng.choice(["type"] * 8 + ["back"]), "ch": str(n) if f.number else rng.choice("abcdefgh!"), "n": n, "types": types})
        elif k < 0.84:
            n += 1
            script.append({"at": t, "id": "b", "op": "", "ch": "", "n": n, "types": ["click"]})
        else:
            script.append({"at": t, "server": rng.choice(["push", "push", "refresh", "bump", "bump", "bump", "wrap", "epoch", "hide", "order", "tag", "drop"])})
    script += [{"at": at, "id": id, "op": "", "ch": "", "n": 0, "types": ["keyup"]} for at, id in later]
    script.sort(key=lambda s: s["at"])
    for n, s in enumerate([s for s in script if "n" in s]):
        s["n"] = n + 1
        if s["op"] == "set":
            s["ch"] = str(n + 1)
    script = [s for s in script if s.get("server") != "drop" or rng.random() < 0.4]
    end = t + 1500 + 8 * (base + jitter)
    clock, calm = 0, 0
    while clock < end:
        until = clock + base
        # ---- the user and what arrives, in this window
        acts = [s for s in script if clock <= s["at"] < until]
        mine = [s for s in acts if "server" not in s]
        while down and down[0][0] < until:
            at, s, text = down.pop(0)
            if s == session:
                mine.append({"at": at, "message": text})
                page.delivered.append(fields_of(text, servers[s]))
                if any(x[1] < (max((e[0] for e in page.edits if e[1] == i), default=-1)) for i, x in page.delivered[-1].items() if x[1] is not None):
                    res.counts["stale_messages"] += 1
        drop = any(s.get("server") == "drop" for s in acts)
        mine.sort(key=lambda a: a["at"])
        out = node.call("step", until, mine)
        judge(res, page, out, servers, session)
        page.gone.update((nd, at) for nd, at in out["gone"])
        for e in out["edits"]:
            a = next(s for s in mine if s.get("n") == e["n"])
            page.events[e["n"]] = {**e, "id": a["id"], "session": session}
            if e["ok"] and "value" in e:
                res.counts["edits"] += 1
                page.edits.append((e["n"], a["id"], e["node"], session, e["at"]))
        for f in out["frames"]:
            page.sent.append((f["at"], session, f["frame"]))
            at = max(last_up + 0.001, f["at"] + base + rng.random() * jitter)
            last_up = at
            up.append((at, session, f["frame"]))
        judge(res, page, out, servers, session)
        # ---- the server, in this window
        for s in acts:
            if s.get("server") not in (None, "drop"):
                page.loop.call_at(page.t0 + s["at"] / 1000, change, res, page, server, rng, s["server"])
        while up and up[0][0] < until:
            at, s, frame = up.pop(0)
            if s == session:
                page.loop.call_at(page.t0 + at / 1000, server.inq.put_nowait, frame)
        await asyncio.sleep((page.t0 + until / 1000) - page.loop.time())
        if server.out or server.active >= clock:
            end = max(end, until + 1200 + 4 * (base + jitter))
        for at, text in server.out:
            last_down = max(last_down, at + base + rng.random() * jitter)
            down.append((last_down, session, text))
        server.out.clear()
        if server.task.done():
            res.bad("session-died", repr(server.task))
        clock = until
        if drop:
            # the line is cut, what was under way is lost
            page.drops.append((clock, clock + 40))
            out = node.call("step", clock, [{"at": clock, "drop": True}])
            await server.end()
            up, down, session = [], [], session + 1
            clock = out["now"]
            for f in out["frames"]:
                page.sent.append((f["at"], session, f["frame"]))
                up.append((clock + base + 0.001 * len(up), session, f["frame"]))
            await asyncio.sleep(max(0, (page.t0 + clock / 1000) - page.loop.time()))
            last_up = last_down = max([clock, *(x[0] for x in up)])
            page.epochs, page.hidden, page.wrap = {}, set(), page.wrap
            server = Server(page)
            servers.append(server)
            res.counts["reconnects"] += 1
            end = max(end, clock + 1500 + 8 * (base + jitter))
        if res.violations:
            break
    if not res.violations:
        finish(res, page, servers, session)
    await server.end()
    res.done(p["seed"], res.counts["fresh_writes"] > 1 and res.counts["overlaps"] > 0)


def fields_of(text, server):
    """The fields in a message: {id: (value, what was known, (handlers))}"""
    out = {}
    m = json.loads(text)
    for _, x in walk(m["model"]):
        a = x.get("attributes") or {}
        if "data-r" in a:
            out[a["id"]] = (a.get("value"), server.snaps[a["data-r"]])
    return out


def change(res, page, server, rng, what):
    f = rng.choice(page.fields)
    if f.id not in server.setters:
        return
    set_value, bump = server.setters[f.id]
    if what == "push":
        res.counts["pushes"] += 1
        set_value(rng.randrange(9) if f.number else rng.choice("abcd") if f.tag == "select" else f"push{rng.randrange(9)}")
    elif what == "bump":
        bump(lambda x: x + 1)
    elif what == "tag":
        if f.tag != "select" and not f.number:
            f.tagged = "input" if f.tagged == "textarea" else "textarea"
            res.counts["remounts"] += 1
            bump(lambda x: x + 1)
            server.refresh(lambda x: x + 1)
    else:
        if what == "wrap":
            page.wrap = "div" if page.wrap == "section" else "section"
            res.counts["remounts"] += 1
        elif what == "epoch":
            page.epochs[f.id] = page.epochs.get(f.id, "") + "x"
            res.counts["remounts"] += 1
        elif what == "hide":
            page.hidden ^= {f.id}
        elif what == "order":
            rng.shuffle(page.fields)
        server.refresh(lambda x: x + 1)


def known(page, id, upto):
    """[(value, knowledge)] of the messages delivered so far that show this field."""
    return [d[id] for d in page.delivered[:upto] if id in d]


def shows(shown, v):
    """Whether a field that shows a text stands for this value. Numbers have many notations."""
    if isinstance(v, int):
        try:
            return float(shown) == v
        except ValueError:
            return False
    return shown == ("" if v is None else v)


def judge(res, page, out, servers, session):
    for e in out["errors"]:
        res.bad("error", e)
    by = {f.id: f for f in page.fields}
    for w in out["writes"]:
        f = by.get(w["id"])
        if f is None:
            continue
        res.counts["writes"] += 1
        if not f.protected:
            continue
        seen = known(page, w["id"], w["delivered"])
        if not any(shows(w["value"], v) for v, _ in seen):
            res.bad("unknown-value", f"at {w['at']} {w['id']} was set to {w['value']!r}, which the server never sent: {seen[-4:]}")
        elif page.resumed(w, session):
            # what an earlier session knew is lost; with any event, the new one takes over
            res.counts["resumed"] += 1
        elif not any(shows(w["value"], v) and k >= w["last"] for v, k in seen):
            res.bad("typing-undone", f"at {w['at']} {w['id']} ({f.tagged}) was set from {w['old']!r} to {w['value']!r} though the server had not yet seen edit {w['last']} when it rendered that: {seen[-4:]}; handlers {f.handlers}")
        res.counts["fresh_writes"] += 1


def finish(res, page, servers, session):
    shown = node.call("look")
    latest = {}
    for d in page.delivered:
        latest.update(d)
    for f in page.fields:
        if f.id not in shown or f.id not in latest or not f.protected:
            continue
        s, (v, k) = shown[f.id], latest[f.id]
        if v is None:
            continue
        res.counts["numbers"] += f.number
        if k >= s["last"]:
            res.counts["converged"] += 1
            if not shows(s["value"], v):
                res.bad("not-converged", f"{f.id} ({s['tag']}) shows {s['value']!r}, the server's value is {v!r} and it has seen edit {k} of {s['last']}; handlers {f.handlers}")
    # ---- events
    gone = page.gone                # an element that goes away sends what was waiting
    kinds = {}
    for at, s, frame in page.sent:
        d = (frame.get("data") or [{}])[0]
        n, type = d.get("detail"), d.get("type")
        if frame.get("type") != "layout-event" or n not in page.events:
            res.bad("bad-frame", json.dumps(frame)[:300])
            continue
        e = page.events[n]
        ev = next(x for x in e["events"] if x["type"] == type)
        # preact dispatches what React calls change as it is
        if not d.get("currentTarget") or d["currentTarget"].get("id") != e["id"] or (d.get("target") or {}).get("value", None) != ev["value"]:
            res.bad("event-data", f"{type} {n} of {e['id']} when it was {ev['value']!r} was sent as {json.dumps(d)[:400]}")
        kinds.setdefault((e["node"], type), []).append((at, n, s))
    done = {}
    for n, e in page.events.items():
        for ev in e["events"]:
            done.setdefault((e["node"], ev["type"]), []).append((e["at"], n, e["id"], ev["prevented"], e["session"]))
    edits = sorted(x[4] for x in page.edits)
    res.counts["overlaps"] += sum(1 for a, b in zip(edits, edits[1:]) if b - a < 20)
    names = {"input": "onInput", "change": "onChange", "keydown": "onKeyDown", "keyup": "onKeyUp", "blur": "onBlur", "click": "onClick"}
    for (nd, type), happened in done.items():
        id = happened[0][2]
        f = next((f for f in page.fields if f.id == id), None)
        h = f.handlers.get(names[type]) if f else {"throttle": page.throttle, "debounce": None, "prevent": True}
        sent = kinds.pop((nd, type), [])
        where = f"{type} of {id}"
        if h is None:
            if sent:
                res.bad("unhandled-event", f"{where} has no handler but was sent: {sent}")
            continue
        res.counts["prevented"] += len(happened) if h["prevent"] else 0
        if any(x[3] != h["prevent"] for x in happened):
            res.bad("not-prevented", f"{where}: prevent_default={h['prevent']}, throttle={h['throttle']}, debounce={h['debounce']}: {[x[3] for x in happened]}")
        ns = [x[1] for x in sent]
        if ns != sorted(set(ns)):
            res.bad("repeated-event", f"{where}: {h}: sent {sent}")
        T, D = h["throttle"], h["debounce"]
        if T is None and D is None:
            res.counts["unlimited_events"] += len(happened)
            if ns != [x[1] for x in happened]:
                res.bad("event-lost", f"{where}: happened {[x[1] for x in happened]}, sent {ns}")
            if any(at != page.events[n]["at"] for at, n, _ in sent):
                res.bad("event-late", f"{where}: no limits, but sent {sent}")
            continue
        res.counts["limited_events"] += len(happened)
        res.counts["collapsed"] += len(happened) - len(sent)
        if ns[-1:] != [happened[-1][1]]:
            res.bad("final-event-lost", f"{where}: {T} {D}: happened {[x[:2] for x in happened]}, sent {sent}")
        if T and any(b[0] - a[0] < T - 1e-6 and b[0] != gone.get(nd) and not page.offline(a[0], b[0]) for a, b in zip(sent, sent[1:])):
            res.bad("throttle-exceeded", f"{where}: {T}: sent {sent}")
        if D:
            for at, n, _ in sent:
                before = [x[0] for x in happened if x[1] <= n or x[0] < at]
                if at != gone.get(nd) and at - before[-1] < D - 1e-6:
                    res.bad("debounce-early", f"{where}: {D}: sent {n} at {at}, {at - before[-1]} after the last event")
        # nothing waits for longer than the limits ask for
        for at, n, s in sent:
            if at - page.events[n]["at"] > (T or 0) + (D or 0) + 1 and s == page.events[n]["session"] and not page.offline(page.events[n]["at"], at):
                res.bad("event-late", f"{where}: {T} {D}: event {n} of {page.events[n]['at']} was sent at {at}")
    if kinds:
        res.bad("unknown-events", str(kinds)[:500])
