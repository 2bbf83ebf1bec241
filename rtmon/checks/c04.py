"""C04: effects run and clean up exactly once, in order, only when due."""
import asyncio, random
from .. import vloop
from ..common import rngs
from ..program import App, Cfg
from ..session import Session

TECHNIQUE = ("runtime monitoring: a log of due, run and clean-up events of every effect is checked online against the automaton (run clean)* and the order rules")
RULE = ("one case = one random application whose components use effects with various dependencies (none, once, slot, "
        "prop, inferred), some raising or with raising clean-ups, some setting state, over a history of changes and an "
        "end of session; a log of due/run/clean events per effect is checked against the automaton (run clean)*; "
        "non-trivial if some effect ran twice and some component with a clean-up was unmounted mid-session")
ASSUME = ["an effect is due when its dependencies, as the body passed them, differ from the last body evaluation"]
REQUIRE = {"ordered": 1000, "runs": 5000, "cleanups": 3000, "reruns": 1000, "unmounts": 300, "effect_errors": 50, "cleanup_errors": 50}
CHUNK = 20


def cases(tier, seed):
    n = 1500 if tier == "quick" else 40000
    out = []
    for s in rngs(seed, n, "c04"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "defs": r.choice([2, 3, 4, 5]), "slow": r.choice([0, 0, 0.3]),
                    "fails": r.choice([0, 0, 0.2]), "raises": r.choice([0, 0, 0.25]), "pull": r.random() < 0.1})
    return out


class EffApp(App):
    def __init__(self, rng, cfg, res, raises):
        super().__init__(rng, cfg)
        self.res = res
        self.log = []
        self.last_run = {}
        self.specs = {}
        self.gone = set()
        for d in self.defs:
            n = rng.choice([0, 1, 2, 3])
            self.specs[d.idx] = [dict(
                deps=rng.choice(["none", "once", "slot", "slot", "prop", "both", "infer"]), slot=rng.randrange(len(d.init)),
                clean=rng.choice(["yes", "yes", "no"]), raises=rng.random() < raises, craises=rng.random() < raises,
                style=rng.choice(["call", "deco"]), sets=rng.random() < 0.15) for _ in range(n)]

    def on_render(self, inst, d):
        from reactpy.core.hooks import use_effect
        self.log.append(("render", inst.id))
        for e, sp in enumerate(self.specs[d.idx]):
            v, prop = inst.seen[sp["slot"]], inst.prop
            deps = {"none": None, "once": [], "slot": [v], "prop": [prop], "both": [v, prop], "infer": [v]}[sp["deps"]]
            st = inst.effects.setdefault(e, {"deps": "unset", "due": 0, "runs": 0, "open": None, "cleans": 0, "expect": []})
            if st["deps"] == "unset" or deps is None or st["deps"] != _k(deps):
                st["due"] += 1
                st["expect"].append(_k(deps))
            st["deps"] = _k(deps)
            func = self._effect(inst, e, sp, st, st["due"], v, d, self.renders)
            if sp["deps"] == "infer":
                # dependencies are inferred from the closure: only `v` differs between renders
                self.res.counts["inferred"] += 1
                key = (id(self), inst.id, e)
                _FUNCS[key] = func
                use_effect(_infer(key, v))
            elif sp["style"] == "call":
                use_effect(func, deps)
            else:
                use_effect(dependencies=deps)(func)

    def _effect(self, inst, e, sp, st, n, v, d, render):
        app, res = self, self.res

        def run(*_):
            st["runs"] += 1
            res.counts["runs"] += 1
            if st["runs"] > 1:
                res.counts["reruns"] += 1
            app.log.append(("run", inst.id, e, n))
            if sp["deps"] != "infer":
                last = app.last_run.get(inst.id)
                if last and last[0] == render:
                    res.counts["ordered"] += 1
                    if last[1] > e:
                        res.bad("effects-swapped", f"instance {inst.id}: effect {e} of a render ran after effect {last[1]} of that render")
                app.last_run[inst.id] = (render, e)
            if st["open"] is not None:
                res.bad("run-before-cleanup", f"instance {inst.id} effect {e} run {st['runs']}: run {st['open']} not cleaned up")
            if st["runs"] > st["due"]:
                res.bad("effect-not-due", f"instance {inst.id} effect {e} ({sp}) ran {st['runs']} times, due {st['due']}")
            if n != st["runs"] and sp["deps"] != "infer":
                res.bad("effect-out-of-order", f"instance {inst.id} effect {e}: run {st['runs']} belongs to change {n}")
            if inst.id in app.gone:
                # while it is being unmounted, a run that is cleaned up at once is fine
                res.bad("effect-after-unmount", f"instance {inst.id} effect {e}")
            mine = st["runs"]
            if sp["sets"] and mine <= 3:
                app.set(inst, len(inst.values) - 1, inst.values[-1] + 1)
            if sp["raises"] and mine % 2 == 1:
                res.counts["effect_errors"] += 1
                raise RuntimeError("effect fails")
            if sp["clean"] == "no":
                return None
            st["open"] = mine

            def clean():
                res.counts["cleanups"] += 1
                st["cleans"] += 1
                app.log.append(("clean", inst.id, e, mine))
                if st["open"] != mine:
                    res.bad("cleanup-twice-or-wrong", f"instance {inst.id} effect {e}: clean-up of run {mine}, open is {st['open']}")
                st["open"] = None
                if sp["craises"] and mine % 2 == 0:
                    res.counts["cleanup_errors"] += 1
                    raise RuntimeError("clean-up fails")
            return clean
        return run


_FUNCS = {}


def _infer(key, v):
    def eff():
        return _FUNCS[key](v)
    return eff


def _k(deps):
    return None if deps is None else [(type(x).__name__, x) for x in deps]


def case(res, p):
    _FUNCS.clear()
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    app = EffApp(rng, Cfg(defs=p["defs"], slow=p["slow"], fails=p["fails"], fail_kinds=["before", "mid"]), res, p["raises"])
    s = Session(res, Layout(app.root()), rng, send_delay=rng.choice([0, 0, 0.02]), pull=p["pull"]).start()
    early = rng.random() < 0.1          # end the session right in the middle of things
    reran = unm = False

    def live_check(when):
        live = {i.id for i in app.live()}
        for i in app.instances:
            for e, st in i.effects.items():
                if i.id in live:
                    if st["runs"] != st["due"]:
                        res.bad("effect-missing", f"{when}: live instance {i.id} effect {e} {app.specs[i.deff.idx][e]}: due {st['due']}, ran {st['runs']}")
                elif st["open"] is not None:
                    res.bad("cleanup-missing", f"{when}: unmounted instance {i.id} effect {e}: run {st['open']} not cleaned up")
            if i.id not in live:
                app.gone.add(i.id)
            if i.id not in live and i.mounted:
                res.counts["unmounts"] += 1
    if not early:
        await vloop.quiesce(lambda: (len(app.log), res.counts["updates"]))
        # the first pass: every render comes before every effect
        kinds = [x[0] for x in app.log]
        first_run = kinds.index("run") if "run" in kinds else len(kinds)
        first_ids = [x[1] for x in app.log if x[0] == "render"]
        fresh = {}
        for k, x in enumerate(app.log):
            if x[0] == "render":
                fresh.setdefault(x[1], k)
        live0 = {i.id for i in app.live() if i.path is not None}
        if not any(sp["sets"] for l in app.specs.values() for sp in l):
            for i in live0:
                if i in fresh and fresh[i] > first_run:
                    res.bad("effect-before-layout", f"an effect ran before instance {i} of the first view was rendered")
        live_check("first view")
    for burst in range(rng.randrange(3, 10)):
        if res.violations or s.dead:
            break
        before = len(app.instances), sum(1 for i in app.instances if i.unmounted)
        gap = rng.choice(["none", "yields", "time"])
        for _ in range(rng.randrange(1, 4)):
            live = app.live() if not early else app.instances
            if not live:
                break
            inst = rng.choice(live)
            app.set(inst, rng.randrange(len(inst.values)), rng.randrange(8))
            if gap == "yields":
                for _ in range(rng.choice([0, 1, 2, 3, 7])):
                    await asyncio.sleep(0)
            elif gap == "time":
                await asyncio.sleep(rng.choice([0.001, 0.02]))
        if early:
            for _ in range(rng.randrange(6)):
                await asyncio.sleep(0)
            continue
        await vloop.quiesce(lambda: (len(app.log), res.counts["updates"]))
        live_check(f"burst {burst}")
        unm = unm or any(i.unmounted and any(st["cleans"] for st in i.effects.values()) for i in app.instances)
    if s.dead:
        res.bad("session-died", s.why_dead())
    err = await s.stop()
    if err is not None and not res.violations:
        res.bad("session-end-raised", repr(err))
    # every clean-up has run when the session is over, not some time later
    for i in app.instances:
        app.gone.add(i.id)
        for e, st in i.effects.items():
            if st["open"] is not None:
                res.bad("cleanup-missing-at-end", f"instance {i.id} effect {e}: run {st['open']}")
            reran = reran or st["runs"] > 1
    n = len(app.log)
    await vloop.settle(10)
    if len(app.log) != n:
        res.bad("activity-after-end", repr(app.log[n:n + 3]))
    for k, info in app.violations[:3]:
        res.bad(k, info)
    res.done((p["seed"], len(app.log)), reran and (unm or early), {"log": [list(x) for x in app.log[:25]]})
