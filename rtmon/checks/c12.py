"""C12: concurrent sessions never see each other's state."""
import asyncio, random, sys, threading
from .. import vloop
from ..common import rngs
from ..program import App, Cfg, norm, first_diff
from ..client import walk
from ..session import Session

TECHNIQUE = ("runtime monitoring: taint-style tags (session ids in paths, connections, states, events) checked online in every render, "
             "handler and effect; each session's view compared with its own reference model")
RULE = ("one case = 2-5 sessions of one shared application (same component functions, contexts, component objects and static "
        "elements with handlers) interleaved on one event loop or spread over 2-3 threads, with bursts of state changes, events, "
        "failing renders, sessions that die or end at odd moments and sessions setting each other's state through public setters; "
        "non-trivial if two sessions had partial updates")
ASSUME = ["threads run one event loop each, as servers with several workers in one process do"]
REQUIRE = {"tag_checks": 30000, "events": 3000, "sessions": 3000, "ended_early": 300, "threads": 300, "view_comparisons": 5000,
           "static_clicks": 500, "cross_sets": 200, "leaf_comparisons": 3000}
CHUNK = 10


def cases(tier, seed):
    n = 3000 if tier == "quick" else 20000
    out = []
    for s in rngs(seed, n, "c12"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "defs": r.choice([2, 3, 4]), "threads": r.choice([1, 1, 1, 2, 3]),
                    "ctx": r.choice([0, 1, 2]), "sessions": r.choice([2, 2, 3, 5]), "fails": r.choice([0, 0, 0.3]),
                    "queue": r.choice([1000, 1])})
    return out


class SharedApp(App):
    def __init__(self, rng, cfg, res):
        super().__init__(rng, cfg)
        self.res = res
        self.scopes = {}
        self.delivered = {}

    def on_render(self, inst, d):
        from reactpy import use_connection, use_location, use_scope
        from reactpy.core.hooks import use_effect
        sid = inst.path[0]
        self.res.counts["tag_checks"] += 1
        conn = use_connection()
        if conn is not self.scopes[sid] or use_scope() is not conn.scope or use_location() is not conn.location:
            self.res.bad("connection", f"{inst.path} sees the connection of {conn.scope.get('sid')}")
        if inst.log and inst.log[-1] != sid:
            self.res.bad("state-shared", f"{inst.path} uses the state of session {inst.log[-1]}")
        inst.log[:] = [sid]
        thread = threading.get_ident()

        @use_effect(dependencies=None)
        def where():
            if threading.get_ident() != thread or self.threads[sid] != thread:
                self.res.bad("thread", f"{inst.path}: effect runs in another thread")

    def _handler(self, inst, path, ev):
        inner = super()._handler(inst, path, ev)

        async def handler(*data):
            self.res.counts["tag_checks"] += 1
            got = data[0].get("sid") if data and isinstance(data[0], dict) else None
            if got != path[0]:
                self.res.bad("handler", f"handler of {path[0]} got an event sent by {got}")
            if self.threads[path[0]] != threading.get_ident():
                self.res.bad("thread", f"handler of {path} runs in another thread")
            self.delivered[path[0]] = self.delivered.get(path[0], 0) + 1
            await inner(*data)
        return handler

    def live_in(self, sid):
        self.expected_of(sid)
        return [i for i in self.m_live if not i.unmounted]

    def expected_of(self, sid):
        self.m_kinds, self.m_handlers = {}, []
        self.m_nodes, self.m_missing, self.m_live, self.m_failed, self.m_props = 0, [], [], [], {}
        return self._model_comp(self.defs[0], (sid,), sid, tuple(self.ctx_default))


def case(res, p):
    import reactpy.config as C
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_MAX_QUEUE_SIZE.current = p["queue"]
    C.REACTPY_DEBUG.current = False
    rng = random.Random(p["seed"])
    shared = Shared(res, p, rng)
    sids = [f"s{i}" for i in range(p["sessions"])]
    if p["threads"] == 1:
        vloop.run(drive, res, p, shared, sids, rng.random())
    else:
        res.counts["threads"] += p["threads"]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        errs = []
        lock = threading.Lock()
        # the reference model of the application keeps scratch state: one model per thread, same components

        def work(part, seed):
            try:
                vloop.run(drive, res, p, shared, part, seed)
            except BaseException as e:
                with lock:
                    errs.append(e)
        ts = [threading.Thread(target=work, args=(sids[k::p["threads"]], rng.random())) for k in range(p["threads"])]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
    n = sum(1 for v in shared.partial.values() if v)
    res.done((p["seed"], sorted(shared.log.items())), n >= 2, {"partial updates per session": shared.partial, "ops": {k: v[:5] for k, v in shared.log.items()}})


class Shared:
    """Everything the sessions have in common."""

    def __init__(self, res, p, rng):
        from reactpy import component, html, use_state, use_connection, use_ref
        from reactpy.core.events import event
        self.res = res
        self.cfg = Cfg(defs=p["defs"], contexts=p["ctx"], fails=p["fails"], handlers=0.5)
        self.apps = {}
        self.partial, self.log, self.clicks = {}, {}, {}
        self.leaf = {}
        self.app = SharedApp(rng, self.cfg, res)
        self.app.threads = {}
        shared = self

        @component
        def Leaf():
            sid = use_connection().scope["sid"]
            owner = use_ref(sid)
            if owner.current != sid:
                res.bad("state-shared", f"the shared component object has the ref of {owner.current} in {sid}")
            n, set_n = use_state(0)
            shared.leaf[sid] = [n, set_n]
            return html.b(f"{sid}:{n}")

        async def static_click(*data):
            sid = data[0]["sid"]
            shared.clicks[sid] = shared.clicks.get(sid, 0) + 1
            if shared.app.threads[sid] != threading.get_ident():
                res.bad("thread", f"static handler of {sid} runs in another thread")

        self.leaf_obj = Leaf()
        self.static = html.div({"id": "static", "onClick": static_click, "class": "x"},
                               html.p({"onKeyDown": event(static_click, prevent_default=True)}, "text"), self.leaf_obj)

        @component
        def Root():
            sid = use_connection().scope["sid"]
            return html.main(shared.static, shared.app.defs[0].func((sid,), sid))
        self.Root = Root
        self.root_obj = Root()      # one component object for all sessions

    def model(self):
        """A view of the application with scratch state of its own (one per thread)."""
        me = threading.get_ident()
        if me not in self.apps:
            m = object.__new__(SharedApp)
            m.__dict__ = dict(self.app.__dict__)
            self.apps[me] = m
        return self.apps[me]


def static_view(sid, n):
    return {"tagName": "div", "attributes": {"class": "x", "id": "static"}, "eventHandlers": ["onClick"],
            "children": [{"tagName": "p", "eventHandlers": ["onKeyDown"], "children": ["text"]},
                         {"tagName": "", "children": [{"tagName": "b", "children": [f"{sid}:{n}"]}]}]}


class Dead(Exception):
    pass


async def drive(res, p, sh, sids, seed):
    from reactpy.core.hooks import ConnectionContext
    from reactpy.core.layout import Layout
    from reactpy.types import Connection, Location
    rng = random.Random(seed)
    model = sh.model()
    me = threading.get_ident()
    open_, sent, expected_clicks, leaf_n = {}, {}, {}, {}
    dying = {}

    def start(sid):
        sh.app.threads[sid] = me
        conn = Connection(scope={"sid": sid}, location=Location(f"/{sid}", ""), carrier=None)
        sh.app.scopes[sid] = conn
        root = sh.root_obj if rng.random() < 0.6 else sh.Root()
        s = Session(res, Layout(ConnectionContext(root, value=conn)), rng, send_delay=rng.choice([0, 0, 0.02]))
        send = s._send

        async def watch(m, sid=sid):
            if m.get("path"):
                sh.partial[sid] = sh.partial.get(sid, 0) + 1
            text = repr(m)
            for o in all_sids:
                if o != sid and f"{o}:" in text:
                    res.bad("update", f"an update of {sid} contains content of {o}: {text[:300]}")
            if dying.get(sid):
                raise Dead()
            await send(m)
        s._send = watch
        open_[sid] = s.start()
        sent[sid], expected_clicks[sid], leaf_n[sid] = 0, 0, 0
        sh.log[sid] = []
        res.counts["sessions"] += 1

    all_sids = [f"s{i}" for i in range(p["sessions"])]
    for sid in sids:
        start(sid)
        if rng.random() < 0.4:
            await asyncio.sleep(rng.choice([0, 0, 0.01]))

    def probe():
        return [(k, s.client.updates) for k, s in open_.items()], res.counts["updates"] if p["threads"] == 1 else 0

    async def quiet(final=False):
        await vloop.quiesce(probe, dt=5)
        for sid, s in open_.items():
            if s.dead:
                res.bad("session-died", f"{sid}: {s.why_dead()}")
                return
            view = norm(s.client.view)
            try:
                main = view["children"][0]["children"][0]["children"][0]
            except (KeyError, IndexError):
                res.bad("view", f"{sid}: {view}")
                return
            res.counts["view_comparisons"] += 1
            res.counts["leaf_comparisons"] += 1
            d = first_diff(main["children"][0], static_view(sid, leaf_n[sid]))
            d = d or first_diff(main["children"][1], model.expected_of(sid))
            if d:
                res.bad("view-diverged", f"{sid}: {d}")
            if sh.clicks.get(sid, 0) != expected_clicks[sid]:
                res.bad("static-handler", f"{sid}: {sh.clicks.get(sid, 0)} calls for {expected_clicks[sid]} events")
            if sh.app.delivered.get(sid, 0) != sent[sid]:
                res.bad("events", f"{sid}: {sh.app.delivered.get(sid, 0)} handled of {sent[sid]}")

    for burst in range(rng.randrange(3, 7)):
        await quiet()
        if res.violations:
            break
        targets = {sid: [(m, t["target"]) for _, m in walk(s.client.view) for t in (m.get("eventHandlers") or {}).values()]
                   for sid, s in open_.items()}
        for _ in range(rng.randrange(2, 9)):
            if not open_:
                break
            sid = rng.choice(sorted(open_))
            s = open_[sid]
            x = rng.random()
            live = [i for i in model.live_in(sid) if i.setters]
            if x < 0.5 and live:
                inst = rng.choice(live)
                model.set(inst, rng.randrange(len(inst.values)), rng.randrange(9))
                sh.log[sid].append(inst.path)
            elif x < 0.6 and sid in sh.leaf and s.client.view:
                leaf_n[sid] += 1
                sh.leaf[sid][1](lambda o: o + 1)
            elif x < 0.9 and targets.get(sid):
                m, t = rng.choice(targets[sid])
                static = (m.get("attributes") or {}).get("id") == "static" or m.get("children") == ["text"]
                if static:
                    expected_clicks[sid] += 1
                    res.counts["static_clicks"] += 1
                    await s.event(t, [{"sid": sid}])
                else:
                    # a handler of the application: other session's handlers may change this session's state
                    others = sorted(set(open_) - {sid})
                    name = f"x{sid}{burst}{rng.random()}"
                    if others and rng.random() < 0.5:
                        o = rng.choice(others)
                        ol = [i for i in model.live_in(o) if i.setters]
                        if ol:
                            inst, slot, v = rng.choice(ol), 0, rng.randrange(9)

                            async def script(app, inst=inst, slot=slot, v=v):
                                if not inst.unmounted:
                                    model.set(inst, slot, v)
                                    res.counts["cross_sets"] += 1
                            sh.app.scripts[name] = script
                    await vloop.quiesce(probe, dt=1)
                    cur = {t2["target"] for _, m2 in walk(s.client.view) for t2 in (m2.get("eventHandlers") or {}).values()}
                    if t not in cur:
                        continue
                    sent[sid] += 1
                    await s.event(t, [{"sid": sid, "script": name}])
                    await asyncio.sleep(rng.choice([0.05, 0.2]))
                res.counts["events"] += 1
            y = rng.random()
            if y < 0.3:
                for _ in range(rng.choice([0, 1, 2, 4])):
                    await asyncio.sleep(0)
            elif y < 0.5:
                await asyncio.sleep(rng.choice([0.001, 0.02]))
        if len(open_) > 1 and rng.random() < 0.25:
            sid = rng.choice(sorted(open_))
            s = open_.pop(sid)
            res.counts["ended_early"] += 1
            if rng.random() < 0.5:
                err = await s.stop()
                if err is not None:
                    res.bad("session-end-raised", repr(err))
            else:
                dying[sid] = True
                live = [i for i in model.live_in(sid) if i.setters]
                if live:
                    model.update(rng.choice(live), 0, 1)
                await asyncio.sleep(rng.choice([0, 0.01, 0.1]))
                await s.stop()
    if not res.violations:
        await quiet()
    for k, info in sh.app.violations[:3]:
        res.bad(k, info)
    for sid, s in open_.items():
        err = await s.stop()
        if err is not None:
            res.bad("session-end-raised", repr(err))
    for inst in sh.app.instances:
        if inst.path and inst.path[0] in sids and inst.mounted != inst.unmounted:
            res.bad("mounts", f"{inst.path} mounted {inst.mounted} unmounted {inst.unmounted}")
