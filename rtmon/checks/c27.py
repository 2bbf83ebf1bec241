"""C27: the JavaScript client applies updates faithfully."""
import asyncio, itertools, json, random
from .. import vloop
from ..common import rngs
from ..node import Endless, Node
from .c26 import Programs as _Programs, Trees as _Trees

TECHNIQUE = "runtime monitoring: the real client runs in Node on a stand-in document and preact, fed by the real server layout; at every quiet moment the document is compared with the view of the reference model, and every event with the messages and handlers it must cause"
RULE = ("one case = one page: a random program of components, a changing tree of elements, or a list of scripts, inline JavaScript, failing components and components imported from up to 3 modules (own, preact or react bindings; pending, failing or never arriving), with 4-9 bursts of changes, events, calls from imported components and lost connections; "
        "non-trivial if the document changed after the first render and an event was sent")
ASSUME = ["the stand-in document and preact behave as real ones, with React's conversion of attributes", "each message is a task of its own", "bindings keep to their contract: create, render and unmount"]
REQUIRE = {"comparisons": 6000, "nodes": 60000, "events": 3000, "frames": 3000, "bubbled": 300, "prevented": 300, "stopped": 150, "updates": 6000, "sessions": 300, "scripts": 300, "clicks": 250, "imports": 4000, "fallbacks": 300,
           "calls": 1200, "nested": 1500, "contexts": 150, "failed": 500, "root_failed": 60, "debug_sessions": 250, "call_events": 400}
CHUNK = 20
node = Node("c27")
KINDS = ("bind", "bind", "preact", "react")


def cases(tier, seed):
    n = 4000 if tier == "quick" else 25000
    return [{"seed": s, "async": i % 5 != 0, "debug": i % 3 == 0} for i, s in enumerate(rngs(seed, n, "c27"))]


class Trees(_Trees):
    calls = ()
    with_inline = with_images = False


class Programs(_Programs):
    calls = ()


class Pending(str):
    """Only this text is shown for now."""


class Mixed:
    """A list of things, each with a key."""

    def __init__(self, rng, res, modules, debug, keys):
        self.keys = keys
        self.rng, self.res, self.modules, self.debug = rng, res, modules, debug
        self.renders, self.handled, self.set = 0, [], None
        self.runs, self.clicks, self.loaded, self.boom = [], {}, set(), None
        self.items = [self.fresh() for _ in range(rng.randrange(1, 6))]
        self.version = 0
        # which root: everything starts anew with another
        self.section = rng.random() < 0.5
        self.epoch, self.renewed = 0, False
        app = self
        from reactpy import component, hooks

        @component
        def root():
            v, app.set = hooks.use_state(0)
            app.renders += 1
            if app.boom:
                raise ValueError(app.boom)
            return app.build()

        @component
        def failing(item):
            if item["fails"]:
                raise ValueError(f"no {item['key']}")
            from reactpy import html
            return html.b(f"fine {item['n']}")
        self.failing, self.root = failing, root
        self.shown_scripts = {}

    # ---- content
    def fresh(self, kind=None, key=None):
        r = self.rng
        if key is None:
            key = f"k{next(self.keys)}"
        kind = kind or r.choice(["script", "inline", "fail", "text", "import", "import", "import"] if self.modules else ["script", "inline", "fail", "text"])
        it = {"key": key, "kind": kind, "n": r.randrange(100), "fails": r.random() < 0.6}
        if kind == "script":
            it["attrs"] = dict(r.sample([("type", "text/x"), ("async", None), ("defer", False), ("data-n", 5), ("id", f"s{key}")], r.randrange(0, 4)))
            it["text"] = r.choice([f"run {key} < & é", f"run {key} < & é", ""])
        if kind == "import":
            it["el"] = self.element(2)
        return it

    def element(self, depth, module=None):
        """An imported element: same-module, other-module and plain children."""
        r = self.rng
        m = module or r.choice(self.modules)
        kids = []
        for _ in range(r.randrange(0, 3) if depth else 0):
            k = r.random()
            kids.append(r.choice(["t", "é<&>", "5"]) if k < 0.3 else ("p", r.randrange(10), [self.element(depth - 1, m)] if r.random() < 0.3 else ["in p"]) if k < 0.5 else self.element(depth - 1, m if r.random() < 0.6 else None))
        return {"module": m, "name": r.choice(["Comp", "Comp", "Other", "Ns.Deep.Er"]), "n": r.randrange(100), "attrs": dict(r.sample([("label", 'x "<é'), ("num", 7), ("data-o", {"a": [1, None]}), ("nothing", None)], r.randrange(0, 4))),
                "handlers": r.sample(["onDo", "onOther"], r.choice([0, 1, 1, 2])), "prevent": r.random() < 0.3, "stop": r.random() < 0.2, "children": kids}

    def change(self, rng):
        if self.set is None:
            return
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.random()
            if op < 0.1 and self.renewed:
                continue
            if op < 0.06:
                self.boom = None if self.boom else f"root {self.version}"
                self.renew()
            elif op < 0.1:
                self.section = not self.section
                self.renew()
            elif op < 0.25 or not self.items:
                self.items.insert(rng.randrange(len(self.items) + 1), self.fresh())
            elif op < 0.4:
                self.items.pop(rng.randrange(len(self.items)))
            elif op < 0.5:
                rng.shuffle(self.items)
            elif op < 0.6:
                i = rng.randrange(len(self.items))
                same = rng.random() < 0.5 and self.items[i]["kind"] in ("fail", "text", "import")
                self.items[i] = self.fresh(rng.choice(["fail", "text", "import"] if self.modules else ["fail", "text"]), self.items[i]["key"]) if same else self.fresh()
            else:
                self.vary(rng.choice(self.items))
        self.version += 1
        self.set(self.version)

    def renew(self):
        self.epoch += 1
        self.renewed = True
        self.clicks.clear()

    def vary(self, it):
        r = self.rng
        it["n"], it["fails"] = r.randrange(100), not it["fails"]
        if it["kind"] == "import":
            e = it["el"]
            el = {**e, "n": r.randrange(100), "children": list(e["children"])}
            k = r.random()
            if k < 0.15:
                el = self.element(2)
            elif k < 0.3 and el["children"]:
                el["children"].pop(r.randrange(len(el["children"])))
            elif k < 0.5:
                el["children"].append(self.element(1, e["module"] if r.random() < 0.5 else None))
            elif k < 0.7:
                el["handlers"] = r.sample(["onDo", "onOther"], r.choice([0, 1, 2]))
            elif k < 0.8:
                el["name"] = r.choice(["Comp", "Other"])
            it["el"] = el

    # ---- what the component returns
    def build(self):
        from reactpy import html
        out = []
        for it in self.items:
            k = it["kind"]
            if k == "script":
                inner = html.script({**it["attrs"], "key": it["key"]}, *([it["text"]] if it["text"] else []))
            elif k == "inline":
                inner = html.button({"onClick": f"this.setAttribute('data-clicked', {it['n']})" if it["n"] % 2 else f"(event) => event.currentTarget.setAttribute('data-clicked', event.detail + {it['n']})"}, "press")
            elif k == "fail":
                inner = self.failing(it)
            elif k == "text":
                inner = html.fragment(f"text {it['n']}", html.i("x"))
            else:
                inner = self.imported(it["el"], (it["key"],))
            # what is in the wrapper is looked for only there
            out.append(html.div({"key": it["key"] + k, "data-i": it["key"]}, inner))
        return html.fragment(*out) if not self.section else html.section({}, *out)

    def imported(self, e, path):
        from reactpy.core.vdom import Vdom
        m = e["module"]
        source = {"source": m["url"] if m["type"] == "URL" else m["name"], "sourceType": m["type"], "fallback": m["fallback"], "unmountBeforeUpdate": m["before"]}
        attrs = {**e["attrs"], "data-n": e["n"]}
        for name in e["handlers"]:
            attrs[name] = self.handler(path, name)
            if e["prevent"] or e["stop"]:
                from reactpy import event
                attrs[name] = event(attrs[name], prevent_default=e["prevent"], stop_propagation=e["stop"])
        return Vdom(e["name"], import_source=source)(attrs, *[self.child(c, (*path, i)) for i, c in enumerate(e["children"])])

    def child(self, c, path):
        from reactpy import html
        if isinstance(c, str):
            return c
        if isinstance(c, tuple):
            return html.p({"title": f"t{c[1]}"}, *[self.child(x, (*path, i)) for i, x in enumerate(c[2])])
        return self.imported(c, path)

    def handler(self, path, name):
        def handle(*args):
            self.handled.append((path, name, json.loads(json.dumps(args))))
        return handle

    # ---- what must be shown
    def expected(self):
        self.calls, self.renewed = [], False
        if self.boom:
            self.res.counts["root_failed"] += 1
            return [("pre", {}, [f"ValueError: {self.boom}"], {})] if self.debug else []
        out = []
        for it in self.items:
            k = it["kind"]
            if k == "script":
                a = {n: str(v) for n, v in it["attrs"].items() if v not in (None, False) or v == 0 and v is not False}
                inner = [("div", {}, [("script", a, [it["text"]] if it["text"] else [], {})], {})]
            elif k == "inline":
                c = self.clicks.get(it["key"])
                inner = [("button", {"data-clicked": str(c)} if c is not None else {}, ["press"], {"click": it})]
            elif k == "fail":
                self.res.counts["failed"] += it["fails"]
                inner = ([("pre", {}, [f"ValueError: no {it['key']}"], {})] if self.debug else []) if it["fails"] else [("b", {}, [f"fine {it['n']}"], {})]
            elif k == "text":
                inner = [f"text {it['n']}", ("i", {}, ["x"], {})]
            elif (it["el"]["module"]["name"] in self.loaded):
                inner = [("span", {}, [self.model(it["el"], (it["key"],))], {})]
            else:
                f = it["el"]["module"]["fallback"]
                inner = Pending(f if isinstance(f, str) else "falling back" if f else "")
                self.res.counts["fallbacks"] += 1
            out.append(("div", {"data-i": it["key"]}, inner, {}))
        live = {it["key"] for it in self.items if it["kind"] == "inline"}
        self.clicks = {k: v for k, v in self.clicks.items() if k in live}
        return out if not self.section else [("section", {}, out, {})]

    def model(self, e, path):
        self.res.counts["imports"] += 1
        tag = {"Comp": "imp-comp", "Other": "imp-other", "Ns.Deep.Er": "imp-deep"}[e["name"]] + "-" + e["module"]["name"]
        a = {k: json.dumps(v, separators=(",", ":")) if isinstance(v, dict) else str(v) for k, v in {**e["attrs"], "data-n": e["n"]}.items() if v is not None}
        if e["handlers"]:
            a["data-has"] = " ".join(sorted(n.lower() for n in e["handlers"]))
        kids = []
        for i, c in enumerate(e["children"]):
            kids += self.mchild(c, (*path, i), e["module"])
        out = (tag, a, kids, {})
        self.calls.append((out, path, e))
        return out

    def mchild(self, c, path, module):
        if isinstance(c, str):
            return [c]
        if isinstance(c, tuple):
            return [("p", {"title": f"t{c[1]}"}, [y for i, x in enumerate(c[2]) for y in self.mchild(x, (*path, i), module)], {})]
        if c["module"] is module:
            return [self.model(c, path)]
        self.res.counts["nested"] += 1
        inner = [self.model(c, path)] if c["module"]["name"] in self.loaded else []
        return [("reactpy-child", {}, [("div", {"style": "display: contents"}, inner, {})], {})]

    def reach(self, el):
        return {}


# ---- comparing

def merged(nodes):
    out = []
    for n in nodes:
        if not isinstance(n, str):
            out.append(n)
        elif n:
            if out and isinstance(out[-1], str):
                out[-1] += n
            else:
                out.append(n)
    return out


def text(n):
    return n if isinstance(n, str) else "".join(map(text, n[3]))


def differs(res, got, want, path, pairs, up=None):
    if isinstance(want, Pending):
        t = "".join(map(text, got))
        return None if t == want else f"{path}: {t!r} instead of the fallback {str(want)!r}"
    got, want = merged(got), merged(want)
    if len(got) != len(want):
        return f"{path}: {len(got)} nodes instead of {len(want)}: {[g if isinstance(g, str) else g[1] for g in got]} instead of {[w if isinstance(w, str) else w[0] for w in want]}"
    for i, (g, w) in enumerate(zip(got, want)):
        res.counts["nodes"] += 1
        if isinstance(g, str) or isinstance(w, str):
            if g != w:
                return f"{path}/{i}: {g!r} instead of {w!r}"
            continue
        if g[1] != w[0]:
            return f"{path}/{i}: <{g[1]}> instead of <{w[0]}>"
        a, b = dict(g[2]), w[1]
        if "data-has" in a:
            a["data-has"] = " ".join(sorted(a["data-has"].split()))
        if "style" in b and "style" in a:
            a["style"], b = a["style"].rstrip(";"), {**b, "style": b["style"].rstrip(";")}
        res.counts["attributes"] += len(b)
        if set(a) != set(b) or any(a[k] != b[k] and not (b[k] is True and a[k] in ("", "true", k)) for k in b):
            return f"{path}/{i} <{g[1]}>: attributes {a} instead of {b}"
        pairs.append((g, w, up))
        d = differs(res, g[3], w[2], f"{path}/{i}", pairs, len(pairs) - 1)
        if d:
            return d
    return None


class Server:
    """One connection: a layout whose messages are kept until they are delivered."""

    def __init__(self, res, root):
        from reactpy.core.layout import Layout
        from reactpy.core.serve import serve_layout
        self.res, self.out, self.inq = res, [], asyncio.Queue()

        async def send(m):
            res.counts["updates"] += 1
            self.out.append(json.dumps(m))
        self.task = asyncio.create_task(serve_layout(Layout(root()), send, self.inq.get))

    async def end(self):
        self.task.cancel()
        try:
            await self.task
        except BaseException:
            pass


def case(res, p):
    import reactpy.config as C
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    try:
        vloop.run(run, res, p)
    except Endless as e:
        res.bad("endless", e)
    finally:
        C.REACTPY_DEBUG.current = False


class Page:
    def __init__(self, res, rng, p):
        self.res, self.rng, self.p = res, rng, p
        kinds = rng.sample(range(3), 3)
        self.modules = []
        for i in range(rng.choice([0, 1, 2, 3, 3])):
            name, type = f"mod{i}", rng.choice(["URL", "NAME"])
            self.modules.append({"name": name, "type": type, "url": f"http://{'cdn/' if type == 'URL' else 'stand.in/_r/modules/'}{name}", "kind": KINDS[kinds[i] + 1 if i else rng.randrange(4)],
                                 "delay": rng.choice([0, 0, 0, 60, 200, 200, -1, -2]), "before": rng.random() < 0.3, "fallback": rng.choice([None, None, "loading…", {"tagName": "i", "children": ["falling ", {"tagName": "b", "children": ["back"]}]}])})
        if len(self.modules) > 1 and rng.random() < 0.4:
            # the same source, once the name of a module and once the address of another (as an import map gives it)
            self.modules[0].update(type="NAME", url="http://stand.in/_r/modules/mod0")
            self.modules[1].update(type="URL", url="mod0")
        if any(m["kind"] == "react" for m in self.modules):
            for m in self.modules:
                m["kind"] = "react" if m["kind"] == "preact" else m["kind"]
        self.frames, self.keys = [], itertools.count()

    def make(self):
        r = self.rng.random()
        if r < 0.25:
            return Trees(self.rng, self.res)
        if r < 0.5:
            return Programs(self.rng, self.res)
        return Mixed(self.rng, self.res, self.modules, self.p["debug"], self.keys)

    async def open(self):
        node.call("open", {"modules": self.modules})
        await self.session()

    async def session(self):
        self.prog = self.make()
        import reactpy.config as C
        C.REACTPY_DEBUG.current = p_debug = self.p["debug"] and isinstance(self.prog, Mixed)
        self.res.counts["debug_sessions"] += p_debug
        if isinstance(self.prog, Mixed):
            self.prog.loaded = self.arrived
        node.call("accept")
        self.server = Server(self.res, self.prog.root)
        self.res.counts["sessions"] += 1

    arrived = frozenset()

    async def quiet(self):
        await vloop.quiesce(lambda: (self.prog.renders, len(self.server.out)))

    def deliver(self, at_once=False):
        out, self.server.out = self.server.out, []
        if out:
            self.give(node.call("receive", out, [0 if at_once else self.rng.choice([0, 0, 0, 5, 40]) for _ in out]))

    def give(self, frames):
        for f in frames:
            self.server.inq.put_nowait(f)
            self.frames.append(f)

    async def settle(self, what):
        for _ in range(20):
            await self.quiet()
            self.deliver()
            s = node.call("settle")
            self.give(s["frames"])
            if not s["frames"] and not self.server.out:
                break
        if self.server.task.done():
            self.res.bad("session-died", f"{what}: {self.server.task}")
        self.arrived = frozenset(m["name"] for m in self.modules if m["delay"] >= 0)
        return self.compare(s, what)

    def compare(self, s, what):
        for v in s["violations"]:
            self.res.bad(v["kind"], f"{what}: {v['detail']}")
        if isinstance(self.prog, Mixed):
            self.prog.loaded = self.arrived
        self.pairs = []
        self.state = s
        want = self.prog.expected()
        d = differs(self.res, s["tree"], want, "", self.pairs)
        self.res.counts["comparisons"] += 1
        if d:
            self.res.bad("view-diverged", f"{what}: {d}")
        return d is None


async def run(res, p):
    rng = random.Random(p["seed"])
    page = Page(res, rng, p)
    await page.open()
    # the first moment: modules that take long have not arrived
    await page.quiet()
    page.deliver(at_once=True)
    s = node.call("advance", 45)
    page.give(s["frames"])
    page.arrived = frozenset(m["name"] for m in page.modules if m["delay"] == 0)
    page.compare(s, "first render")
    if res.violations:
        return
    await page.settle("first render, later")
    n, events, changes = 0, 0, 0
    for step in range(rng.randrange(4, 10)):
        if res.violations:
            break
        what = f"step {step}"
        before = {it["key"]: (it["kind"], g[0], page.prog.epoch) for g, it in script_nodes(page)}
        op = rng.random()
        if op < 0.08:
            node.call("drop")
            old = page.server
            if rng.random() < 0.5:
                page.prog.change(rng)
            await page.quiet()
            await old.end()
            await page.session()
            await page.settle(f"{what}, reconnected")
            continue
        if op < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                page.prog.change(rng)
                changes += 1
                for _ in range(rng.choice([0, 0, 1, 3, 8])):
                    await asyncio.sleep(0)
                if rng.random() < 0.2:
                    await page.quiet()
                    if rng.random() < 0.5:
                        page.deliver()
            await page.settle(what)
        elif op < 0.57 and isinstance(page.prog, Mixed):
            n += 2
            c = node.call("context", n)
            if c is not None:
                res.counts["contexts"] += 1
                if c.get("got") != [n] or [(f.get("type"), f.get("n")) for f in c["frames"]] != [("from-binding", n)]:
                    res.bad("binding-context", f"{what}: what a binding sends and receives: {c}")
        elif isinstance(page.prog, Mixed):
            for _ in range(rng.choice([1, 2, 3])):
                n += 1
                await act(res, rng, page, n, what)
                events += 1
                if res.violations:
                    return
        else:
            for _ in range(rng.choice([1, 2, 4])):
                n += 1
                events += await dispatch(res, rng, page, n, what)
                if res.violations:
                    return
        if isinstance(page.prog, Mixed):
            for g, it in script_nodes(page):
                if before.get(it["key"], (None,))[0] == "script" and before[it["key"]][2] == page.prog.epoch and before[it["key"]][1] != g[0]:
                    res.bad("script-repeated", f"{what}: the script of {it['key']} ran again")
                res.counts["scripts"] += 1
    await page.server.end()
    res.done(p["seed"], changes and events)


def script_nodes(page):
    """The script elements shown, with their items."""
    if not isinstance(page.prog, Mixed) or page.prog.boom:
        return
    items = {it["key"]: it for it in page.prog.items if it["kind"] == "script"}
    for g, w, up in page.pairs:
        if "data-i" in w[1] and w[1]["data-i"] in items and g[3]:
            yield g[3][0][3][0], items[w[1]["data-i"]]


async def act(res, rng, page, n, what):
    """Press a button with inline JavaScript, or let an imported component call a handler."""
    prog = page.prog
    buttons = [(g, w) for g, w, _ in page.pairs if w[0] == "button"]
    calls = [(w, path, e) for w, path, e in prog.calls if e["handlers"]]
    if buttons and rng.random() < 0.5:
        g, w = rng.choice(buttons)
        it = w[3]["click"]
        got = node.call("event", g[0], "click", n)
        prog.clicks[it["key"]] = it["n"] if it["n"] % 2 else n + it["n"]
        res.counts["clicks"] += 1
        if got["frames"]:
            res.bad("unexpected-frame", f"{what}: pressing a button without server handlers sent {got['frames']}")
    elif calls:
        w, path, e = rng.choice(calls)
        hs = e["handlers"]
        g = next((g for g, x, _ in page.pairs if x is w), None)
        if g is None:
            return
        name = rng.choice(hs)
        args = rng.choice([[], [n], [n, "s"], [{"a": [n, {"b": "c"}]}], [None, n], [True, "é", {"n": n}], [[n, [2], {"b": []}]], [{"$event": n}], [{"$event": n}, "v", [n]], [{"$event": n}, None, {"v": n}]])
        got = node.call("call", g[0], name, args)
        frames = got["frames"]
        res.counts["calls"] += 1
        if got["error"]:
            res.bad("call-failed", f"{what}: {name}(*{args}) of an imported component (prevent {e['prevent']}, stop {e['stop']}) fails: {got['error']}")
            return
        if got["event"]:
            res.counts["call_events"] += 1
            if (got["event"]["prevented"], got["event"]["stopped"]) != (e["prevent"], e["stop"]):
                res.bad("call-options", f"{what}: {name} (prevent {e['prevent']}, stop {e['stop']}): {got['event']}")
            sent = frames[0].get("data") if len(frames) == 1 else None
            if not sent or not isinstance(sent[0], dict) or sent[0].get("detail") != n or sent[0].get("type") != "custom":
                res.bad("call-frames", f"{what}: {name} of an imported component called with an event sent {json.dumps(frames)[:500]}")
                return
            args = [sent[0], *args[1:]]
        if len(frames) != 1 or frames[0].get("type") != "layout-event" or frames[0].get("data") != args:
            res.bad("call-frames", f"{what}: {name}(*{args}) of an imported component sent {frames}")
            return
        start = len(prog.handled)
        page.give(frames)
        await page.settle(what)
        if prog.handled[start:] != [(path, name, args)]:
            res.bad("call-misdelivered", f"{what}: {name}(*{args}) at {path} reached {prog.handled[start:]}")
        return
    await page.settle(what)


async def dispatch(res, rng, page, n, what):
    prog, pairs = page.prog, page.pairs
    if not pairs:
        return 0
    type = rng.choice(["click", "click", "input", "keydown", "custom"])
    fits = [i for i, (g, w, up) in enumerate(pairs) if type in w[3]]
    at = rng.choice(fits) if fits and rng.random() < 0.8 else rng.randrange(len(pairs))
    race = rng.random() < 0.2
    if race:
        prog.change(rng)
        await asyncio.sleep(0)
        if rng.random() < 0.5:
            await page.quiet()
    want, ids, prevented, stopped = [], [], False, False
    x = at
    fake = type_, number_ = type, n

    class E:
        pass
    E.n = n
    while x is not None and not stopped:
        r = prog.reach(pairs[x][1]).get(type)
        if r:
            want.append(r[0](E))
            ids.append(pairs[x][0][0])
            prevented |= r[1]
            stopped |= r[2]
        x = pairs[x][2]
    got = node.call("event", pairs[at][0][0], type, n)
    res.counts["events"] += 1
    frames = got["frames"]
    res.counts["frames"] += len(frames)
    if len(frames) != len(want):
        res.bad("event-frames", f"{what}: {type} on <{pairs[at][0][1]}> sent {len(frames)} events instead of {len(want)}: {want}")
        return 1
    for f, id in zip(frames, ids):
        d = f.get("data") or [{}]
        if f.get("type") != "layout-event" or len(d) != 1 or d[0].get("detail") != n or (d[0].get("currentTarget") or {}).get("rtid") != id or (d[0].get("target") or {}).get("rtid") != pairs[at][0][0]:
            res.bad("event-data", f"{what}: {type} {n} at {id} sent {json.dumps(f)[:300]}")
    if (got["prevented"], got["stopped"]) != (prevented, stopped):
        res.bad("event-options", f"{what}: {type}: prevented, stopped = {got['prevented'], got['stopped']} instead of {prevented, stopped}")
    start = len(prog.handled)
    page.give(frames)
    await page.settle(what)
    reached = prog.handled[start:]
    if race:
        if len({repr(g[:-1]) for g in reached}) != len(reached) or any(g[-1] != n for g in reached):
            res.bad("event-twice", f"{what}: {type} reached {reached}")
    elif sorted(map(repr, reached)) != sorted(map(repr, want)):
        res.bad("event-misdelivered", f"{what}: {type} reached {reached} instead of {want}")
    res.counts["bubbled"] += len(want) > 1
    res.counts["prevented"] += prevented
    res.counts["stopped"] += stopped
    return 1
