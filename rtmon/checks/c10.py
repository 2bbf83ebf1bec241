"""C10: reading a context gives the value of the closest enclosing provider."""
import asyncio, random, traceback
from .. import vloop
from ..common import rngs
from ..session import Session

TECHNIQUE = ("runtime monitoring: every context read of every render is checked online against the lexically determined "
             "nearest provider; the client view shows the values read")
RULE = ("one case = one random tree of components, providers (several contexts, nested, keyed, moved, added, removed, with "
        "falsy, absent and changing values), and wrappers placing elements made elsewhere, re-rendered at random places in "
        "serial or concurrent mode, some renders failing; non-trivial if a component re-rendered on its own read a changed value")
ASSUME = ["the value an element's provider was last rendered with is its current value"]
REQUIRE = {"reads": 50000, "own_rerenders": 3000, "default_reads": 2000, "nested_reads": 2000, "hole_reads": 1000,
           "changed_reads": 3000, "late_reads": 1000}
CHUNK = 20
VALUES = [None, 0, "", False, "v", 7, (1, 2), "other"]


def cases(tier, seed):
    n = 2500 if tier == "quick" else 40000
    out = []
    for s in rngs(seed, n, "c10"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "comps": r.choice([3, 4, 5, 6]), "ctx": r.choice([1, 2, 3]),
                    "fails": r.choice([0, 0, 0.1])})
    return out


class Base:
    """The contexts in force at the place where a fragment is put."""

    def __init__(self, m):
        self.map = m


class Cell:
    def __init__(self, base, rel, depth, hole=False):
        self.base, self.rel, self.depth, self.hole = base, rel, depth, hole

    def now(self):
        return {**self.base.map, **dict(self.rel)}


def gen(rng, i, n, nctx, depth, in_wrap=False, budget=None):
    """A list of template nodes of component i."""
    budget = budget if budget is not None else [9]
    out = []
    for j in range(rng.choice([1, 1, 2, 3]) if depth == 0 else rng.choice([0, 1, 1, 2])):
        budget[0] -= 1
        if budget[0] < 0:
            break
        x = rng.random()
        key = f"k{j}" if rng.random() < 0.5 else None
        cond = rng.choice([None, None, (rng.randrange(2), rng.choice([2, 3]))])
        if x < 0.35 and depth < 4:
            node = ("prov", rng.randrange(nctx), key, rng.choice(["state", "state", "const", "absent"]), gen(rng, i, n, nctx, depth + 1, in_wrap, budget))
        elif x < 0.5 and depth < 3:
            node = ("div", key, gen(rng, i, n, nctx, depth + 1, in_wrap, budget))
        elif x < 0.62 and i + 1 < n and not in_wrap:
            node = ("wrap", rng.randrange(i + 1, n), key, gen(rng, i, n, nctx, depth + 1, True, budget))
        elif i + 1 < n:
            node = ("comp", rng.randrange(i + 1, n), key)
        else:
            node = ("div", key, [])
        out.append((cond, node))
    if rng.random() < 0.4 and all(nd[2 if nd[0] != "div" else 1] for _, nd in out):
        out.append("shuffle")
    return out


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_state, use_ref
    from reactpy.core.hooks import create_context, use_context, use_effect
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    nctx, n = p["ctx"], p["comps"]
    default = [rng.choice(["default", None, 0, "d"]) for _ in range(nctx)]
    ctxs = [create_context(d) for d in default]
    templates = [gen(rng, i, n, nctx, 0) for i in range(n)]
    for i in range(1, n):
        # somewhere to put elements of others
        def put(nodes):
            opts = [nd for it in nodes if it != "shuffle" for nd in [it[1]] if nd[0] in ("prov", "div")]
            if opts and rng.random() < 0.7:
                return put(rng.choice(opts)[-1])
            if "shuffle" in nodes:
                nodes.remove("shuffle")
            nodes.append((None, ("hole",)))
        put(templates[i])
    live, stats = {}, {"own": False}
    ids = iter(range(1 << 30))

    def build(nodes, env, base, rel, depth, hole):
        """Real elements of template nodes; `base` and `rel` say what contexts apply there."""
        items = [x for x in nodes if x != "shuffle"]
        if "shuffle" in nodes:
            items = items[:]
            random.Random(env["v"][0]).shuffle(items)
        out = []
        for cond, nd in items:
            if cond is not None and env["v"][0] % cond[1] == cond[0]:
                out.append(None)
                continue
            if nd[0] == "hole":
                if env["hole"] is not None:
                    hb, el = env["hole"]
                    hb.map = Cell(base, rel, depth).now()
                    out.append(html.fragment(*el))
                continue
            kw = {"key": nd[2] if nd[0] != "div" else nd[1]}
            kw = {k: v for k, v in kw.items() if v is not None}
            if nd[0] == "div":
                out.append(html.div(kw, *build(nd[2], env, base, rel, depth, hole)))
            elif nd[0] == "prov":
                c = nd[1]
                val = {"state": VALUES[env["v"][1] % len(VALUES)], "const": "const", "absent": default[c]}[nd[3]]
                if nd[3] != "absent":
                    kw["value"] = val
                out.append(ctxs[c](*build(nd[4], env, base, rel + ((c, val),), depth + 1, hole), **kw))
            elif nd[0] == "comp":
                out.append(comps[nd[1]](Cell(base, rel, depth, hole), None, **kw))
            else:
                hb = Base(None)
                el = build(nd[3], env, hb, (), 0, True)
                out.append(comps[nd[1]](Cell(base, rel, depth, hole), (hb, el), **kw))
        return out

    def make(i):
        reads = [c for c in range(nctx) if rng.random() < 0.8] or [0]

        @component
        def Comp(cell, hole):
            v, set_v = use_state((0, 0))
            me = use_ref(None)
            if me.current is None:
                me.current = {"id": next(ids), "seen": None, "set": set_v, "order": None}
            early = rng.random() < 0.2
            late = not early and rng.random() < 0.3
            want = cell.now()
            got = {}

            def read():
                for c in reads:
                    got[c] = use_context(ctxs[c])
            if not late:
                read()
            if p["fails"] and rng.random() < p["fails"]:
                raise RuntimeError("render fails")
            env = {"v": v, "hole": hole}
            out = build(templates[i], env, Base(want), (), cell.depth, cell.hole)
            if late:
                read()
                res.counts["late_reads"] += 1
            for c in reads:
                res.counts["reads"] += 1
                if want[c] is default[c]:
                    res.counts["default_reads"] += 1
                if type(got[c]) is not type(want[c]) or got[c] != want[c]:
                    res.bad("context-value", f"component {i}#{me.current['id']} read context {c}: {got[c]!r}, nearest provider has {want[c]!r}")
            if cell.depth > 1:
                res.counts["nested_reads"] += 1
            if cell.hole:
                res.counts["hole_reads"] += 1
            seen = tuple((c, repr(got[c])) for c in reads)
            if me.current["seen"] is not None and me.current["seen"] != seen:
                res.counts["changed_reads"] += 1
                stats["own"] = True
            me.current["seen"] = seen
            if me.current.pop("own", None):
                res.counts["own_rerenders"] += 1

            @use_effect(dependencies=[])
            def mounted():
                live[me.current["id"]] = me.current
                return lambda: live.pop(me.current["id"], None)
            return html.section({"data-ctx": repr(seen)}, *out)
        return Comp

    comps = [make(i) for i in range(n)]
    s = Session(res, Layout(comps[0](Cell(Base({c: default[c] for c in range(nctx)}), (), 0), None)), rng,
                send_delay=rng.choice([0, 0, 0.02])).start()
    await vloop.settle(1)
    for _ in range(rng.randrange(8, 25)):
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not live:
                break
            me = live[rng.choice(sorted(live)) if rng.random() < 0.7 else min(live)]
            me["own"] = True
            if rng.random() < 0.5:
                me["set"](lambda o: (o[0] + rng.choice([0, 1, 2, 3]), o[1] + 1))
            else:
                me["set"](lambda o: (o[0] + 1, o[1]))
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 0, 0.001, 0.02]))
        if rng.random() < 0.6:
            await asyncio.sleep(rng.choice([0.01, 0.1]))
        if res.violations:
            break
    await vloop.settle(10)
    if s.dead:
        res.bad("session-died", s.why_dead())
    # what is shown is what was read last
    shown = []

    def collect(m):
        if isinstance(m, dict):
            a = (m.get("attributes") or {}).get("data-ctx")
            if a:
                shown.append(a)
            for ch in m.get("children") or []:
                collect(ch)
    collect(s.client.view)
    if not p["fails"] and not res.violations:
        want = sorted(repr(m["seen"]) for m in live.values())
        if sorted(shown) != want:
            res.bad("shown", f"{sorted(shown)} instead of {want}")
    await s.stop()
    res.done((p["seed"], res.counts["reads"]), stats["own"], {"reads": res.counts["reads"], "changed": res.counts["changed_reads"]})
