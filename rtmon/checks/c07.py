"""C07: every target the client holds leads to that element's latest handler."""
import asyncio, random
from .. import vloop
from ..client import walk
from ..common import rngs
from ..program import App, Cfg, norm, first_diff
from ..session import Session

TECHNIQUE = "runtime monitoring: at quiet moments every target of the client's view is fired and the handler that ran is checked against the reference model"
RULE = ("one case = one random application (keys incl. separators, digits and empty strings) or one set of elements trading "
        "explicit targets, taken through state changes; at quiet moments the targets in the client's view, and targets it "
        "held earlier, are fired; non-trivial if at least 3 targets were live at once and some target became stale")
ASSUME = ["events are fired at quiet moments, when client and server agree on the view"]
REQUIRE = {"fired": 20000, "stale_fired": 2000, "target_sets": 3000, "explicit_moves": 500, "odd_keys": 200, "conditional_handlers": 300}
CHUNK = 20
ODD = [0, 1, 2, "a", "0", "1", "2", "a/0", "0/a", "a:onClick", "", "/", "a/", ":", "é", "~1", "%2F", "'0'", "i0", "00", "'", "\\"]


def cases(tier, seed):
    n = 5000 if tier == "quick" else 30000
    out = []
    for s in rngs(seed, n, "c07"):
        r = random.Random(s)
        mode = r.choice(["app", "app", "app", "explicit", "nested"])
        out.append({"seed": s, "async": r.random() < 0.7, "mode": mode, "defs": r.choice([2, 3, 4]),
                    "fails": r.choice([0, 0, 0, 0.2]), "odd": r.random() < 0.5})
    return out


def case(res, p):
    vloop.run({"app": run_app, "explicit": run_explicit, "nested": run_nested}[p["mode"]], res, p)


async def run_app(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    keys = rng.sample(ODD, 6) if p["odd"] else ["a", "b", "c", "d", "e"]
    app = App(rng, Cfg(defs=p["defs"], handlers=0.8, fails=p["fails"], key_pool=keys, each=0.45))
    s = Session(res, Layout(app.root()), rng, send_delay=rng.choice([0, 0, 0.02])).start()
    if p["odd"]:
        res.counts["odd_keys"] += 1
    held = set()
    most = stale_seen = 0
    for step in range(rng.randrange(3, 9)):
        await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        want = app.expected()
        if first_diff(norm(s.client.view), want):
            s.compare(app)
            return
        have = [(m, sorted(m["eventHandlers"])) for _, m in walk(s.client.view) if m.get("eventHandlers")]
        res.counts["target_sets"] += 1
        where = {}
        for (path, evs), (m, evs2) in zip(app.m_handlers, have):
            assert evs == evs2
            for ev in evs:
                t = m["eventHandlers"][ev]["target"]
                if not isinstance(t, str):
                    res.bad("target-type", repr(t))
                if t in where:
                    res.bad("target-not-unique", f"{t!r} belongs to {where[t]} and {(path, ev)}")
                where[t] = (path, ev)
        most = max(most, len(where))
        for t in rng.sample(sorted(where), min(len(where), 8)):
            n = len(app.handled)
            token = rng.random()
            await s.event(t, [{"token": token}])
            await vloop.settle(0.5)
            res.counts["fired"] += 1
            got = app.handled[n:]
            if [(pa, ev) for pa, ev, _ in got] != [where[t]]:
                res.bad("wrong-handler", f"target {t!r} of {where[t]} reached {[(pa, ev) for pa, ev, _ in got]}")
            elif app.handled_serial[n] != app.built[where[t]]:
                res.bad("old-handler", f"target {t!r}: handler {app.handled_serial[n]}, the latest render gave {app.built[where[t]]}")
        stale = sorted(held - set(where))
        for t in rng.sample(stale, min(len(stale), 4)):
            n = len(app.handled)
            await s.event(t, [{}])
            await vloop.settle(0.5)
            res.counts["stale_fired"] += 1
            stale_seen += 1
            if app.handled[n:]:
                res.bad("gone-handler-invoked", f"target {t!r} is not in the view, reached {app.handled[n:]}")
        held |= set(where)
        live = app.live()
        for _ in range(rng.choice([1, 1, 2, 3])):
            inst = rng.choice(live)
            app.set(inst, rng.randrange(len(inst.values)), rng.randrange(8))
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0.001]))
        if res.violations:
            return
    await s.stop()
    for k, info in app.violations[:3]:
        res.bad(k, info)
    res.done((p["seed"], len(app.handled)), most >= 3 and stale_seen > 0, {"targets": sorted(held)[:12]})


async def run_explicit(res, p):
    """Elements of several components trade a few explicit targets; others have handlers now and then."""
    import reactpy.config as C
    from reactpy import component, html, use_state
    from reactpy.core.events import EventHandler
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    handled = []
    version = {}
    ctl = {}
    names = [f"n{i}" for i in range(rng.choice([2, 3, 5]))]
    T = ["T0", "T1", "T2"]

    def build(name, spec):
        if spec is None:
            return None
        attrs = {"id": name}
        for ev, t in spec.items():
            v = version[(name, ev)] = version.get((name, ev), 0) + 1

            def f(data, name=name, ev=ev, v=v):
                handled.append((name, ev, v))
            attrs[ev] = EventHandler(f, target=t) if t else (lambda *d, f=f: f(d))
        return html.button(attrs)

    @component
    def Wrap(name, spec):
        mine, ctl[name] = use_state("unset")
        return html.div(build(name, spec if mine == "unset" else mine))

    style = {n: rng.choice(["own", "comp", "deep"]) for n in names}

    def layout_of():
        out, pool = {}, rng.sample(T, len(T))
        for n in names:
            x = rng.random()
            if x < 0.2:
                out[n] = None
            else:
                sp = {}
                for ev in ("onClick", "onFocus"):
                    y = rng.random()
                    if y < 0.4:
                        sp[ev] = None
                    elif y < 0.75 and pool:
                        sp[ev] = pool.pop()
                out[n] = sp
        return out

    @component
    def Root():
        st, ctl["root"] = use_state(first)
        kids = []
        for n in (sorted(names, key=lambda k: (hash_(k, st["order"])))):
            sp = st["spec"][n]
            if style[n] == "own":
                kids.append(build(n, sp))
            elif sp is None and st["drop"]:
                kids.append(None)
            elif style[n] == "comp":
                kids.append(Wrap(n, sp, key=n))
            else:
                kids.append(html.section({"key": n}, html.p(Wrap(n, sp))))
        return html.div(*[k for k in kids if k is not None])

    first = {"spec": layout_of(), "order": 0, "drop": True}
    s = Session(res, Layout(Root()), rng).start()
    held = set()
    stale_seen = most = 0
    for step in range(rng.randrange(4, 10)):
        await vloop.quiesce(lambda: res.counts["updates"], dt=2)
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        where = {}
        for _, m in walk(s.client.view):
            if "error" in m:
                res.bad("render-error", str(m)[:300])
            for ev, h in (m.get("eventHandlers") or {}).items():
                if h["target"] in where:
                    res.bad("target-not-unique", f"{h['target']!r}")
                where[h["target"]] = (m["attributes"]["id"], ev)
        res.counts["target_sets"] += 1
        most = max(most, len(where))
        for t in sorted(where):
            n = len(handled)
            await s.event(t, [{}])
            await vloop.settle(0.2)
            res.counts["fired"] += 1
            want = (*where[t], version[where[t]])
            if handled[n:] != [want]:
                res.bad("wrong-handler", f"target {t!r} should reach {want}, reached {handled[n:]}")
        for t in sorted(held - set(where)):
            n = len(handled)
            await s.event(t, [{}])
            await vloop.settle(0.2)
            res.counts["stale_fired"] += 1
            stale_seen += 1
            if handled[n:]:
                res.bad("gone-handler-invoked", f"target {t!r} reached {handled[n:]}")
        held |= set(where)
        if res.violations:
            return
        res.counts["explicit_moves"] += 1
        ctl["root"]({"spec": layout_of(), "order": rng.choice([0, 0, rng.randrange(100)]), "drop": rng.random() < 0.5})
    await s.stop()
    res.done((p["seed"], len(handled)), most >= 3 and stale_seen > 0, {"handled": handled[:10]})


def hash_(k, order):
    return random.Random(f"{k}{order}").random() if order else 0


async def run_nested(res, p):
    """Keyed, unkeyed and nested elements whose handlers come and go."""
    import reactpy.config as C
    from reactpy import component, html, use_state
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    handled, version, ctl = [], {}, {}

    def gen(depth, path):
        """A tree spec: (key or None, name, events, children, is component)."""
        kids = []
        keys = rng.sample(ODD, rng.randrange(0, 4 if depth < 3 else 1))
        entries = [(k,) for k in keys] + [(None,)] * rng.randrange(0, 3)
        rng.shuffle(entries)
        for i, (k,) in enumerate(entries):
            pth = path + (i if k is None else f"key {k}" if isinstance(k, int) else k,)
            kids.append((k, pth, [e for e in ("onClick", "onFocus", "a:b", "onBlur") if rng.random() < 0.4],
                         gen(depth + 1, pth) if depth < 3 and rng.random() < 0.6 else [], rng.random() < 0.2))
        return kids

    def names_of(tree):
        for k, pth, evs, kids, comp in tree:
            yield pth, evs
            yield from names_of(kids)

    def build(node):
        k, pth, evs, kids, comp = node
        attrs = {"id": repr(pth)}
        if k is not None:
            attrs["key"] = k
        for ev in evs:
            v = version[(repr(pth), ev)] = version.get((repr(pth), ev), 0) + 1
            attrs[ev] = h = lambda *d, n=repr(pth), ev=ev, v=v: handled.append((n, ev, v))
        el = html.div({a: b for a, b in attrs.items() if not callable(b)}, *[build(c) for c in kids])
        if evs:
            from reactpy.core.events import EventHandler, to_event_handler_function
            el["eventHandlers"] = {ev: EventHandler(to_event_handler_function(attrs[ev])) for ev in evs}
        if comp:
            return Wrap(el, key=k) if k is not None else Wrap(el)
        return el

    @component
    def Wrap(el):
        return el

    @component
    def Root():
        tree, ctl["set"] = use_state(lambda: first)
        return html.div(*[build(c) for c in tree])

    first = gen(0, ())
    s = Session(res, Layout(Root()), rng).start()
    held = set()
    stale_seen = most = 0
    cur = first
    for step in range(rng.randrange(3, 7)):
        await vloop.quiesce(lambda: res.counts["updates"], dt=2)
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        where = {}
        for _, m in walk(s.client.view):
            if "error" in m:
                res.bad("render-error", str(m)[:300])
            for ev, h in (m.get("eventHandlers") or {}).items():
                me = (m["attributes"]["id"], ev)
                if h["target"] in where:
                    res.bad("target-not-unique", f"{h['target']!r} for {where[h['target']]} and {me}")
                where[h["target"]] = me
        want = sorted((repr(pth), ev) for pth, evs in names_of(cur) for ev in evs)
        if sorted(where.values()) != want and not res.violations:
            res.bad("handlers-differ", f"in the view {sorted(where.values())}, rendered {want}")
        res.counts["target_sets"] += 1
        most = max(most, len(where))
        for t in rng.sample(sorted(where), min(6, len(where))):
            n = len(handled)
            await s.event(t, [{}])
            await vloop.settle(0.2)
            res.counts["fired"] += 1
            w = (*where[t], version[where[t]])
            if handled[n:] != [w]:
                res.bad("wrong-handler", f"target {t!r} should reach {w}, reached {handled[n:]}")
        stale = sorted(held - set(where))
        for t in rng.sample(stale, min(6, len(stale))):
            n = len(handled)
            await s.event(t, [{}])
            await vloop.settle(0.2)
            res.counts["stale_fired"] += 1
            stale_seen += 1
            if handled[n:]:
                res.bad("gone-handler-invoked", f"target {t!r} reached {handled[n:]}")
        held |= set(where)
        if res.violations:
            return
        if rng.random() < 0.5:
            cur = gen(0, ())
        else:            # same elements, other handlers
            def redo(tree):
                return [(k, pth, [e for e in ("onClick", "onFocus", "a:b") if rng.random() < 0.4], redo(kids), comp)
                        for k, pth, evs, kids, comp in tree]
            cur = redo(cur)
            res.counts["conditional_handlers"] += 1
        ctl["set"](lambda old: cur)
    await s.stop()
    res.done((p["seed"], len(handled)), most >= 3 and stale_seen > 0, {"targets": sorted(held)[:12]})
