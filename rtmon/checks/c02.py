"""C02: no state change is lost, duplicated or reordered; renders are due and bounded."""
import asyncio, random, threading, time
from .. import vloop
from ..common import rngs
from ..session import Session
from .c11 import KINDS, fresh, tag

TECHNIQUE = ("runtime monitoring: states are logs of the operations done to them; conservation, order and exactly-once of all operations are checked in every render and at the end, "
             "with writers in tasks, handlers, effects, renders and preempting threads; renders are counted against the changes that make them due")
RULE = ("one case = a random static tree of components whose states are append-only operation logs, written through "
        "setters, updaters and reducers from tasks, event handlers, effects, render bodies and threads; non-trivial if "
        "at least two effective changes were made to one instance")
ASSUME = ["with threads each component instance is written by a single thread; real preemption with a short switch interval"]
REQUIRE = {"effective_changes": 2000, "noop_sets": 200, "thread_changes": 200, "reducer_actions": 200, "checked_instances": 1000, "values_changed": 5000, "values_kept": 1000}
CHUNK = 20


def cases(tier, seed):
    n = 1600 if tier == "quick" else 40000
    out = []
    for i, s in enumerate(rngs(seed, n, "c02")):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "threads": i % 12 == 0,
                    "queue": r.choice([1000, 1, 2])})
    return out


class Node:
    def __init__(self, name, parent):
        self.name, self.parent, self.kids = name, parent, []
        self.log = ()            # what the state must be
        self.total = 0           # what the reducer's state must be
        self.seen = self.rseen = None
        self.renders = 0
        self.changes = 0         # effective changes since the last quiet moment
        self.body_ops = []       # changes to make from inside the next render body
        self.effect_ops = []
        self.set = self.dispatch = self.put = None
        self.held, self.held_tag, self.shown = None, ("none",), None     # a state of any value
        self.bad = []


def case(res, p):
    import sys
    if p["threads"]:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            asyncio.run(run(res, p))
        finally:
            sys.setswitchinterval(old)
    else:
        vloop.run(run, res, p)


async def run(res, p):
    import reactpy
    import reactpy.config as C
    from reactpy import component, html
    from reactpy.core.hooks import use_effect, use_reducer, use_state
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_MAX_QUEUE_SIZE.current = p["queue"]
    threads = p["threads"]
    nodes = []

    def make(parent, depth):
        n = Node(len(nodes), parent)
        nodes.append(n)
        if depth < 3:
            for _ in range(rng.choice([0, 1, 2, 2] if depth else [1, 2, 3])):
                if len(nodes) < 9:
                    n.kids.append(make(n, depth + 1))
        return n
    root = make(None, 0)
    opid = [0]
    keyed = rng.random() < 0.5

    @component
    def Comp(n):
        n.renders += 1
        log, n.set = use_state(())
        n.shown, n.put = use_state(None)
        total, n.dispatch = use_reducer(lambda s, a: s * 3 + a, 0)
        if not threads:
            if log != n.log:
                res.bad("wrong-state-in-render", f"component {n.name} saw {log}, made changes {n.log}")
            if total != n.total:
                res.bad("wrong-reducer-state", f"component {n.name} saw {total}, want {n.total}")
        elif n.seen is not None and log[:len(n.seen)] != n.seen:
            res.bad("state-went-back", f"component {n.name} saw {log} after {n.seen}")
        n.seen, n.rseen = log, total
        while n.body_ops and not threads:
            change(n.body_ops.pop(), ["append"])
        todo, n.effect_ops = n.effect_ops, []
        if todo:
            use_eff = todo
        else:
            use_eff = []

        @use_effect(dependencies=None)
        def eff():
            for t in use_eff:
                change(t)

        async def on_click(e):
            await handlers[e["h"]]()
        return html.div({"id": f"n{n.name}", "onClick": on_click}, f"{len(log)}",
                        [Comp(k, key=f"k{k.name}" if keyed else None) for k in n.kids])

    handlers = {}

    def change(n, kinds=None):
        if n.set is None:
            return
        k = rng.choice(kinds or ["append", "append", "plain", "noop", "reduce", "mixed"])
        opid[0] += 1
        i = opid[0]
        if k == "append":
            n.log = (*n.log, i)
            n.changes += 1
            n.set(lambda old: (*old, i))
        elif k == "plain":
            n.log = (*n.log, i)
            n.changes += 1
            n.set(n.log)
        elif k == "noop":
            res.counts["noop_sets"] += 1
            n.set(rng.choice([lambda old: old, n.log]))
            return
        elif k == "reduce":
            a = rng.randrange(1, 9)
            n.total = n.total * 3 + a
            n.changes += 1
            res.counts["reducer_actions"] += 1
            n.dispatch(a)
        else:
            n.log = (*n.log, -i, i)
            n.changes += 2
            n.set(lambda old: (*old, -i))
            n.set(lambda old: (*old, i))
        res.counts["effective_changes"] += 1

    s = Session(res, Layout(Comp(root)), rng, send_delay=0 if threads else rng.choice([0, 0, 0.05]),
                pull=rng.random() < 0.15 and not threads).start()

    async def quiet():
        if not threads:
            await vloop.quiesce(lambda: (s.client.updates, sum(n.renders for n in nodes)))
            return True
        last = None
        for _ in range(400):                  # real time: wait for a fixed point
            await asyncio.sleep(0.01)
            now = (s.client.updates, [n.renders for n in nodes], [n.changes for n in nodes])
            if now == last and all(n.seen == n.log for n in nodes):
                return True
            last = now
        return True
    await quiet()
    for n in nodes:
        if n.renders != 1:
            res.bad("first-render-count", f"component {n.name} rendered {n.renders} times")
    most = 0
    for rnd in range(rng.randrange(2, 6) if not threads else 2):
        if res.violations:
            break
        for n in nodes:
            n.renders = n.changes = 0
        if threads:
            def work(mine, seed):
                r = random.Random(seed)
                for _ in range(r.randrange(3, 25)):
                    n = r.choice(mine)
                    i = r.randrange(1 << 30)
                    n.log = (*n.log, i)
                    n.changes += 1
                    n.set(lambda old: (*old, i))
                    res.counts["thread_changes"] += 1
                    if r.random() < 0.5:
                        time.sleep(r.choice([0, 0.0001, 0.001]))
            k = rng.choice([1, 2, 3])
            ts = [threading.Thread(target=work, args=(nodes[i::k], rng.random())) for i in range(min(k, len(nodes)))]
            for t in ts:
                t.start()
            while any(t.is_alive() for t in ts):
                await asyncio.sleep(rng.choice([0, 0.001]))
        else:
            src = rng.choice(["task", "task", "handler", "effect", "body", "many"])
            n = rng.choice(nodes)
            if src == "effect":
                n.effect_ops = [rng.choice(nodes) for _ in range(rng.randrange(1, 4))]
                change(n, ["append"])
            elif src == "body":
                n.body_ops = [rng.choice(nodes) for _ in range(rng.randrange(1, 3))]
                change(n, ["append"])
            else:
                async def work():
                    for _ in range(rng.randrange(1, 7)):
                        change(rng.choice(nodes))
                        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
                            await asyncio.sleep(0)
                        if rng.random() < 0.1:
                            await asyncio.sleep(rng.choice([0.001, 0.05]))
                if src == "handler":
                    h = opid[0] = opid[0] + 1
                    handlers[h] = work
                    tgt = _target(s.client.view, f"n{n.name}")
                    await s.event(tgt, [{"h": h}])
                elif src == "many":
                    await asyncio.gather(*(work() for _ in range(3)))
                else:
                    await work()
        await quiet()
        if s.dead:
            res.bad("session-died", s.why_dead())
            break
        for n in nodes:
            res.counts["checked_instances"] += 1
            anc, c = n, 0
            while anc is not None:
                c += anc.changes
                anc = anc.parent
            most = max(most, n.changes)
            if n.seen != n.log:
                res.bad("change-not-rendered", f"component {n.name} last rendered {n.seen}, state is {n.log}")
            if n.rseen != n.total:
                res.bad("reducer-not-rendered", f"component {n.name} last rendered {n.rseen}, state is {n.total}")
            if n.changes and not n.renders:
                res.bad("change-without-render", f"component {n.name}: {n.changes} changes, no render")
            if n.renders > c:
                res.bad("more-renders-than-changes", f"component {n.name}: {n.renders} renders for {c} changes of it or above it")
    # values of all kinds, one at a time: only one that differs causes a render, which shows the very value
    for _ in range(0 if threads or s.dead else 12):
        if res.violations:
            break
        n = rng.choice(nodes)
        kind, i = rng.choice(KINDS), rng.randrange(3)
        if rng.random() < 0.4 and n.held_tag[0] not in ("none", "bool"):
            kind, i = n.held_kind       # the same value, or the same number in another type
            kind = rng.choice([kind, kind, "small", "float", "bool"])
        value, label = fresh(kind, i), tag(kind, i)
        for x in nodes:
            x.renders = 0
        if callable(value) or rng.random() < 0.5:
            n.put(lambda old: value)
        else:
            n.put(value)
        await quiet()
        changed = label != n.held_tag
        res.counts["values_changed" if changed else "values_kept"] += 1
        if n.renders != changed:
            res.bad("value-renders", f"component {n.name}: {n.renders} renders as {n.held!r} became {value!r}")
        if changed:
            n.held, n.held_tag, n.held_kind = value, label, (kind, i)
        if n.shown is not n.held:
            res.bad("value-not-rendered", f"component {n.name} shows {n.shown!r}, its state is {n.held!r}")
    err = await s.stop()
    if err is not None and not res.violations:
        res.bad("session-end-raised", repr(err))
    res.done((p["seed"], len(nodes)), most >= 2, {"components": len(nodes), "ops": opid[0], "updates": s.client.updates})


def _target(view, id):
    from ..client import walk
    for _, m in walk(view):
        if m.get("attributes", {}).get("id") == id:
            return m["eventHandlers"]["onClick"]["target"]
