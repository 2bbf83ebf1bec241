"""C03: component state follows identity (same place, key and type)."""
import random
from .. import vloop
from ..common import rngs
from ..program import App, Cfg
from ..session import Session

TECHNIQUE = ("runtime monitoring: every component instance carries a serial number; after every structural step the set of live instances and their states is compared with a reference reconciliation")
RULE = ("one case = one random tree with keyed/unkeyed, conditional and reordered children driven through 8-25 single "
        "structural steps; at each quiet moment the set of live instances is compared with a reference reconciliation; "
        "non-trivial if some instance survived a step in which another was replaced")
ASSUME = ["elements are matched by key or index only (not by tag), as ReactPy documents for keys"]
REQUIRE = {"steps": 3000, "kept": 5000, "fresh": 1000, "gone": 1000, "moved": 300}
CHUNK = 20


def cases(tier, seed):
    n = 2200 if tier == "quick" else 50000
    out = []
    for s in rngs(seed, n, "c03"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.6, "ctx": r.choice([0, 2]), "defs": r.choice([2, 3, 4, 5, 6]),
                    "fails": r.choice([0, 0, 0, 0.25]), "pool": r.choice(["abcde", "abcde", "01ab", "ab/c", "int"])})
    return out


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    pool = {"abcde": list("abcde"), "01ab": ["0", "1", "a", "b", "2"], "int": [0, 1, 2, "0", "a"], "ab/c": ["a", "a/b", "b", "/", "a b"]}[p["pool"]]
    app = App(rng, Cfg(defs=p["defs"], contexts=p["ctx"], fails=p["fails"], each=0.5, cond=0.4, keyed_body=0.3, key_pool=pool))
    setters = {}

    def on_render(inst, d):
        old = setters.setdefault(inst.id, inst.setters)
        if any(a is not b for a, b in zip(old, inst.setters)):
            res.bad("setter-identity-changed", f"instance {inst.id} at {inst.path}")
    app.on_render = on_render
    s = Session(res, Layout(app.root()), rng).start()
    await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
    mixed = False

    def snapshot():
        app.expected()
        kinds = dict(app.m_kinds)
        live = {i.path: i for i in app.m_live}
        return kinds, live, list(app.m_missing), list(app.m_failed)
    kinds, live, missing, failed = snapshot()
    pos = {}
    log = []
    for step in range(rng.randrange(8, 25)):
        if s.dead:
            res.bad("session-died", s.why_dead())
        if res.violations:
            break
        before_kinds, before, before_failed = kinds, {k: v.id for k, v in live.items()}, failed
        hi = max(i.id for i in app.instances)
        inst = rng.choice(list(live.values()))
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            slot = rng.randrange(len(inst.values))
            v = rng.randrange(12)
            app.set(inst, slot, v)
            ops.append((inst.path, slot, v))
        log.append(ops)
        await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
        res.counts["steps"] += 1
        kinds, live, missing, failed = snapshot()
        if missing:
            res.bad("component-not-mounted", f"step {ops}: nothing rendered at {missing[:3]}")
            break
        ids = [i.id for i in live.values()]
        if len(set(ids)) != len(ids):
            res.bad("instance-shared", f"step {ops}: {[(i.path, i.id) for i in live.values()]}")
        kept = fresh = 0
        for path, i in live.items():
            # does every level above, and this one, continue?
            same = all(path[:k] in before_kinds and before_kinds[path[:k]] == kinds.get(path[:k])
                       and (k == len(path) or path[:k] not in before_failed) for k in range(len(path) + 1) if path[:k] in kinds)
            same = same and path in before
            if same:
                kept += 1
                if i.id != before[path]:
                    res.bad("state-not-kept", f"step {ops}: component {i.deff.idx} at {path} was instance {before[path]}, is {i.id}")
            else:
                fresh += 1
                if i.id <= hi:
                    res.bad("state-not-reset", f"step {ops}: component {i.deff.idx} at {path} continues instance {i.id}")
            if app.cfg.track and path not in failed and (i.mounted, i.unmounted) != (1, 0):
                res.bad("mount-count", f"step {ops}: live instance {i.id} at {path} mounted {i.mounted}, unmounted {i.unmounted}")
        gone = [i for i in app.instances if i.id not in ids]
        for i in gone:
            if i.unmounted != i.mounted:
                res.bad("not-unmounted", f"step {ops}: instance {i.id} once at {i.path} still mounted")
        res.counts["kept"] += kept
        res.counts["fresh"] += fresh
        res.counts["gone"] += len(before) - kept
        res.counts["moved"] += sum(1 for path, k in pos.items() if path in live)
        pos = {}
        mixed = mixed or (kept > 1 and fresh)
        for path in live:
            if path and isinstance(path[-1], str):
                pos[path] = 1
        s.compare(app, f"step {ops}")
    for k, info in app.violations[:3]:
        res.bad(k, info)
    await s.stop()
    for i in app.instances:
        if i.mounted != i.unmounted:
            res.bad("not-unmounted-at-end", f"instance {i.id} once at {i.path}: mounted {i.mounted}, unmounted {i.unmounted}")
    res.done((p["seed"], log), mixed, {"steps": log[:6], "instances": len(app.instances)})
