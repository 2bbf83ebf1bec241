"""C05: async effects are exclusive, cancelled or shielded, cleaned up once."""
import asyncio, random
from .. import vloop
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: per-effect automaton over a recorded log of due/start/end/cancel/clean-up events, virtual-time schedules"
RULE = ("one case = one session with several components using async effects (shielded or not; quick, slow, failing, "
        "swallowing cancellation, slow to stop, with and without clean-ups) under bursts of re-renders, unmounts and an "
        "end of session timed around the runs; non-trivial if a run in progress was superseded or unmounted")
ASSUME = ["a run counts as superseded once a later body evaluation with changed dependencies was laid out"]
REQUIRE = {"starts": 3000, "superseded_in_progress": 500, "cancelled": 300, "shielded_completions": 100,
           "cleanups": 1000, "unmounted_in_progress": 100, "failed": 50, "swallowed": 30}
CHUNK = 20


def cases(tier, seed):
    n = 6000 if tier == "quick" else 60000
    out = []
    for s in rngs(seed, n, "c05"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "comps": r.choice([1, 1, 2, 3]), "fail": r.choice([0, 0, 0.3])})
    return out


class Use:
    """One use of an async effect in one component instance, and its automaton."""

    def __init__(self, res, name, spec, rng):
        self.res, self.name, self.spec, self.rng = res, name, spec, rng
        self.due = 0
        self.prev = "unset"
        self.running = None
        self.open = None            # completed run whose clean-up is outstanding
        self.started = 0
        self.unmounting = False
        self.gone = False
        self.laid = {}              # run -> when the render that asked for it was laid out
        self.left = None            # when the component was unmounted
        self.runs = {}
        self.log = []

    def bad(self, kind, what):
        self.res.bad(kind, f"{self.name} {self.spec}: {what}; log {self.log[-12:]}")

    def note(self, ev, n):
        self.log.append((ev, n, round(asyncio.get_running_loop().time(), 4)))

    def outdated(self, n):
        """Since when run n is not wanted any more, if that was at an earlier instant."""
        if self.spec["shield"]:
            return None
        at = [t for m, t in self.laid.items() if m > n] + [self.left] * (self.left is not None)
        return min(at) if at and min(at) < asyncio.get_running_loop().time() else None

    def make(self, n):
        res, sp = self.res, self.spec

        async def run():
            self.note("start", n)
            res.counts["starts"] += 1
            if self.running is not None:
                self.bad("overlapping-runs", f"run {n} starts while run {self.running} is in progress")
            if n <= self.started:
                self.bad("run-out-of-order", f"run {n} starts after run {self.started}")
            if self.open is not None:
                self.bad("run-before-cleanup", f"run {n} starts, run {self.open} is not cleaned up")
            if self.gone:
                self.bad("run-after-unmount", f"run {n}")
            if (t := self.outdated(n)) is not None:
                self.bad("outdated-run-started", f"run {n} starts, superseded or unmounted at {t:.4f}")
            self.started, self.running = n, n
            end = "failed"
            try:
                for d in sp["steps"]:
                    await asyncio.sleep(d)
                    if (t := self.outdated(n)) is not None:
                        self.bad("not-cancelled", f"run {n} goes on, superseded or unmounted at {t:.4f}")
                if sp["fails"] and n % 3 == 1:
                    res.counts["failed"] += 1
                    raise RuntimeError("effect fails")
                end = "end"
            except asyncio.CancelledError:
                end = "cancelled"
                res.counts["cancelled"] += 1
                self.note("cancel", n)
                if sp["shield"]:
                    self.bad("shielded-run-cancelled", f"run {n}")
                elif n == self.due and not self.unmounting:
                    self.bad("current-run-cancelled", f"run {n} is the latest and its component is mounted")
                if sp["stop"]:
                    try:
                        await asyncio.sleep(sp["stop"])     # slow to stop
                    except asyncio.CancelledError:
                        res.counts["cancelled_twice"] += 1
                        if sp["swallow"]:
                            end = "end"
                            res.counts["swallowed"] += 1
                            return self.clean_of(n)
                        raise
                if not sp["swallow"]:
                    raise
                res.counts["swallowed"] += 1
                end = "end"
            finally:
                self.running = None
                self.note(end, n)
                self.runs[n] = end
            if sp["shield"] and (n < self.due or self.unmounting):
                res.counts["shielded_completions"] += 1
            return self.clean_of(n)
        return run

    def clean_of(self, n):
        if self.spec["clean"] == "no":
            return None
        self.open = n

        def clean():
            self.res.counts["cleanups"] += 1
            self.note("clean", n)
            if self.open != n:
                self.bad("cleanup-twice-or-wrong", f"clean-up of run {n}, outstanding is {self.open}")
            self.open = None
            if self.spec["clean"] == "raises" and n % 2:
                raise RuntimeError("clean-up fails")
        return clean


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_effect, use_state, use_ref
    from reactpy.core.hooks import use_async_effect
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    DELAYS = [0, 0, 0.001, 0.01, 0.05, 0.2]
    specs = []
    for _ in range(p["comps"]):
        specs.append([dict(deps=rng.choice(["none", "v", "v", "once"]), shield=rng.random() < 0.4,
                           steps=[rng.choice(DELAYS) for _ in range(rng.choice([0, 1, 2, 3]))],
                           stop=rng.choice([0, 0, 0.003, 0.08]), swallow=rng.random() < 0.2,
                           fails=rng.random() < p["fail"], clean=rng.choice(["yes", "yes", "yes", "no", "raises" if p["fail"] else "yes"]))
                      for _ in range(rng.choice([1, 1, 2]))])
    uses = []           # every use ever
    live = {}           # component index -> (value setter, uses)
    shown = {}

    def make(i):
        @component
        def Comp():
            v, set_v = use_state(0)
            mine = use_ref(None)
            if mine.current is None:
                mine.current = [Use(res, f"comp {i} effect {e}", sp, rng) for e, sp in enumerate(specs[i])]
                uses.extend(mine.current)
            live[i] = (set_v, mine.current)

            @use_effect(dependencies=[])
            def mounted():
                def gone():
                    for u in mine.current:
                        u.unmounting = True
                        u.left = asyncio.get_running_loop().time()
                        if u.running is not None:
                            res.counts["unmounted_in_progress"] += 1
                    if live.get(i, (0, 0))[1] is mine.current:
                        del live[i]
                return gone
            for e, u in enumerate(mine.current):
                sp = u.spec
                deps = {"none": None, "v": [v], "once": []}[sp["deps"]]
                if deps is None or deps != u.prev:
                    u.due += 1
                    u.note("due", u.due)
                    if u.running is not None:
                        res.counts["superseded_in_progress"] += 1
                u.prev = deps
                use_async_effect(u.make(u.due), deps, sp["shield"])

                @use_effect(dependencies=deps)
                def laid_out(u=u, n=u.due):
                    u.laid[n] = asyncio.get_running_loop().time()
            return html.p(str(v))
        return Comp

    comps = [make(i) for i in range(p["comps"])]
    ctl = {}

    @component
    def Root():
        show, ctl["set"] = use_state(tuple([True] * p["comps"]))
        ctl["show"] = show
        return html.div(*[c(key=str(i)) for i, c in enumerate(comps) if show[i]])

    s = Session(res, Layout(Root()), rng, send_delay=rng.choice([0, 0, 0.02])).start()
    interrupted = False
    for burst in range(rng.randrange(3, 8)):
        for _ in range(rng.randrange(1, 6)):
            x = rng.random()
            if x < 0.75 and live:
                i = rng.choice(sorted(live))
                live[i][0](lambda old: old + 1)
            elif "show" in ctl:
                i = rng.randrange(p["comps"])
                ctl["set"](lambda old, i=i: tuple(not b if j == i else b for j, b in enumerate(old)))
            y = rng.random()
            if y < 0.35:
                for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
                    await asyncio.sleep(0)
            elif y < 0.8:
                await asyncio.sleep(rng.choice([0.0005, 0.001, 0.005, 0.01, 0.02, 0.06, 0.2]))
        if rng.random() < 0.3:
            continue
        await vloop.quiesce(lambda: (s.client.updates, sum(len(u.log) for u in uses)))
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        mounted = {id(u) for _, us in live.values() for u in us}
        for u in uses:
            if u.running is not None:
                u.bad("never-ends", f"run {u.running} is still in progress")
            if id(u) in mounted:
                if u.started != u.due:
                    u.bad("latest-run-not-started", f"due {u.due}, started {u.started}")
                # exactly the latest run may have a clean-up outstanding
                if u.open is not None and u.open != u.due:
                    u.bad("cleanup-missing", f"clean-up of run {u.open} outstanding, latest run is {u.due}")
                if u.open is None and u.runs.get(u.due) == "end" and u.spec["clean"] != "no":
                    u.bad("cleanup-early", f"the latest run {u.due} was already cleaned up")
            else:
                u.gone = True
                if u.open is not None:
                    u.bad("cleanup-missing", f"unmounted, clean-up of run {u.open} outstanding")
        for u in uses:
            interrupted = interrupted or "cancelled" in u.runs.values() or (u.spec["shield"] and u.due > 1)
        if res.violations:
            return
    if rng.random() < 0.5:
        await asyncio.sleep(rng.choice([0, 0.0005, 0.002, 0.02]))
    for u in uses:
        if u.running is not None and not u.unmounting:
            res.counts["session_end_in_progress"] += 1
        u.unmounting = True
    err = await s.stop()
    if err is not None:
        res.bad("session-end-raised", repr(err))
    for u in uses:
        u.gone = True
        if u.running is not None:
            u.bad("in-progress-after-end", f"run {u.running}")
        if u.open is not None:
            u.bad("cleanup-missing-at-end", f"run {u.open}")
    n = sum(len(u.log) for u in uses)
    await vloop.settle(10)
    if sum(len(u.log) for u in uses) != n:
        res.bad("activity-after-end", [u.log[-3:] for u in uses])
    res.done((p["seed"], n), interrupted, {"log": [u.log[:12] for u in uses][:3]})
