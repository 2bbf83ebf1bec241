"""C01: the client's view converges to the view of the current state."""
import asyncio, random
from .. import vloop
from ..common import rngs
from ..program import App, Cfg
from ..session import Session

TECHNIQUE = ("runtime monitoring: random applications run in real sessions under virtual-time schedules; at every quiet moment the view a strict client has built from the updates "
             "is compared with the view of the same templates over the states recorded at the setters")
RULE = ("one case = one random component tree driven by bursts of state changes (plain sets, functional updates, "
        "event scripts with pauses, state set by effects) under one schedule of slow sends and slow unmounts, in "
        "concurrent or serial mode; non-trivial if at least one partial update was applied and one burst changed the view")
ASSUME = ["the reference view is computed from state values recorded at the setters, props and templates",
          "schedules are those asyncio produces under a virtual clock with random delays at real suspension points"]
REQUIRE = {"quiescent_comparisons": 500, "partial_updates": 500, "bursts_with_ancestor_and_descendant": 50}
CHUNK = 20


def cases(tier, seed):
    n = 2600 if tier == "quick" else 60000
    out = []
    for i, s in enumerate(rngs(seed, n, "c01")):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.8, "slow": r.choice([0, 0, 0, 0.3]),
                    "fails": r.choice([0, 0, 0, 0.3]), "ctx": r.choice([0, 0, 2]),
                    "pull": r.random() < 0.15, "defs": r.choice([2, 3, 4, 5, 6]),
                    "queue": r.choice([1000, 1000, 1, 2])})
    return out


class EffApp(App):
    """Some components set state of others from an effect after they rendered."""
    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        self.chain = {}

    def on_render(self, inst, d):
        todo = self.chain.pop(inst.path, None)
        from reactpy.core.hooks import use_effect
        app = self

        @use_effect(dependencies=None)
        def maybe():
            if todo:
                for path, slot, v in todo:
                    t = app.at.get(path)
                    if t is not None and t.setters is not None and slot < len(t.values):
                        app.set(t, slot, v)


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_MAX_QUEUE_SIZE.current = p["queue"]
    app = EffApp(rng, Cfg(defs=p["defs"], slow=p["slow"], fails=p["fails"], contexts=p["ctx"]))
    sd = rng.choice([0, 0, 0.01, 0.2])
    s = Session(res, Layout(app.root()), rng, send_delay=sd, recv_delay=rng.choice([0, 0, 0.01]), pull=p["pull"]).start()
    await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
    views = set()
    log = []
    ok = s.compare(app, "first render:") if not s.dead else False
    if s.dead:
        res.bad("session-died", s.why_dead())
    nsc = 0
    for burst in range(rng.randrange(3, 9)):
        if res.violations or not ok:
            break
        gap = rng.choice(["none", "none", "yields", "yields", "time"])

        async def ops(app, n=rng.randrange(1, 6), gap=gap, rnd=random.Random(rng.random())):
            touched = []
            for _ in range(n):
                live = app.live()
                if not live:
                    return touched
                inst = rnd.choice(live)
                slot = rnd.randrange(len(inst.values))
                x = rnd.random()
                if x < 0.25:
                    app.update(inst, slot, rnd.choice([-1, 1, 2]))
                elif x < 0.4:
                    other = rnd.choice(live)
                    app.chain[inst.path] = [(other.path, rnd.randrange(len(other.values)), rnd.randrange(8))]
                    app.set(inst, slot, rnd.randrange(8))
                else:
                    app.set(inst, slot, rnd.randrange(8))
                touched.append(inst.path)
                log.append((inst.path, slot))
                res.counts["state_changes"] += 1
                if gap == "yields":
                    for _ in range(rnd.choice([0, 0, 1, 2, 3, 5, 8])):
                        await asyncio.sleep(0)
                elif gap == "time":
                    await asyncio.sleep(rnd.choice([0, 0.001, 0.03, 0.2]))
            return touched
        targets = [h["target"] for _, m in _handlers(s.client.view) for h in m.values()]
        if targets and rng.random() < 0.35:
            nsc += 1
            key = f"s{nsc}"
            app.scripts[key] = ops
            await s.event(rng.choice(targets), [{"script": key}])
            res.counts["event_scripts"] += 1
        else:
            touched = await ops(app)
            if any(a != b and b[:len(a)] == a for a in touched for b in touched):
                res.counts["bursts_with_ancestor_and_descendant"] += 1
        await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
        if s.dead:
            res.bad("session-died", s.why_dead())
            break
        ok = s.compare(app, f"after burst {burst}:")
        views.add(repr(s.client.view))
    for k, info in app.violations[:3]:
        res.bad(k, info)
    err = await s.stop()
    if err is not None and not res.violations:
        res.bad("session-end-raised", repr(err))
    res.counts["renders"] += app.renders
    res.counts["instances"] += len(app.instances)
    res.done((p["seed"], log), len(views) > 1 and s.client.updates > 1,
             {"bursts": log[:12], "updates": s.client.updates, "instances": len(app.instances)})


def _handlers(view):
    from ..client import walk
    for path, m in walk(view):
        if m.get("eventHandlers"):
            yield path, m["eventHandlers"]
