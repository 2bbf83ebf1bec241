"""C08: input acknowledgements never run ahead of the server."""
import asyncio, random
from .. import vloop
from ..client import walk
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: every rendered input's acknowledgement is compared with the log of events its handlers have taken up"
RULE = ("one case = one session with inputs, selects, text areas and other elements in components that re-render, lose and "
        "gain handlers, move, are replaced and remounted, under numbered, unnumbered and oddly numbered events; "
        "non-trivial if acknowledgements were seen on at least two elements or after a remount")
ASSUME = ["an input without any attribute carries no acknowledgement (there is no value to protect)",
          "an element that replaces another in the same update under the same target may inherit its acknowledgement, "
          "since the client may keep the DOM element"]
REQUIRE = {"acks": 4000, "absent": 2000, "events": 10000, "remounts": 500, "handler_changes": 500, "odd_seq": 500, "other_elements": 1000,
           "replaced": 300, "moved": 300, "after_handler_removed": 100, "slow": 1000, "held_back": 250, "reused": 2000}
CHUNK = 20


def cases(tier, seed):
    n = 2500 if tier == "quick" else 40000
    return [{"seed": s, "async": random.Random(s).random() < 0.7, "fields": random.Random(s + 1).choice([1, 2, 3, 4])}
            for s in rngs(seed, n, "c08")]


def case(res, p):
    vloop.run(run, res, p)


class Inst:
    def __init__(self, name, pred):
        self.name, self.pred = name, pred
        self.own = None         # highest valid number its handlers have taken up
        self.all = set()
        self.snap = {}          # render number -> what was known when its body ran
        self.acks = {None}      # what it may have been acknowledged with so far
        self.renders = 0
        self.last = None
        self.gone_at = None
        self.element = None


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, use_effect, use_ref, use_state
    from reactpy.core.layout import Layout
    from reactpy.core.vdom import Vdom
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    n = p["fields"]
    ctl, current, insts = {}, {}, []
    waiting, meta = {}, {}
    clock = {"quiet": 0}
    tagsB = [rng.choice(["input", "input", "textarea", "div"]) for _ in range(n)]
    tags = [rng.choice(["input", "input", "select", "textarea", "div", "button"]) for _ in range(n)]

    def make(kind):
        @component
        def Field(i, style):
            ref = use_ref(None)
            bump, set_bump = use_state(0)
            if ref.current is None:
                old = current.get(i)
                # replaced right away, or after a time without it?
                pred = old if old is not None and (old.gone_at is None or old.gone_at == clock["quiet"]) else None
                if old is not None:
                    res.counts["remounts"] += 1
                ref.current = Inst(f"f{i}", pred)
                insts.append(ref.current)
            me = ref.current
            current[i] = me
            ctl[i] = set_bump

            @use_effect(dependencies=[])
            def track():
                def gone():
                    me.gone_at = clock["quiet"]
                return gone
            me.renders += 1
            # events that wait for a busy handler hold the number back; those whose
            # handler has been away may have been dropped meanwhile
            for w in waiting.values():
                if w["field"] == i and w["event"] not in style["events"]:
                    w["maybe"] = True
            sure = [w["seq"] for w in waiting.values() if w["field"] == i and not w["maybe"]]
            maybe = [w["seq"] for w in waiting.values() if w["field"] == i and w["maybe"]]
            capped = {_cap(me.own, min([*sure, *x], default=None)) for x in [(), *((m,) for m in maybe)]}
            if capped != {me.own}:
                res.counts["held_back"] += 1
            me.acks = {_max(a, c) for a in me.acks for c in capped}
            allowed = (None, set(me.acks))
            if me.pred is not None:
                most, old = me.own, me.pred
                while old is not None:
                    most, old = max([x for x in (most, *old.all) if x is not None], default=None), old.pred
                allowed = (most, set(me.acks))
            me.snap[me.renders] = allowed

            def handler(ev):
                async def h(e):
                    res.counts["handled"] += 1
                    q = e.get("seq_copy")
                    waiting.pop(e["uid"], None)
                    if isinstance(q, int) and not isinstance(q, bool) and q >= 0:
                        me.own = _max(me.own, q)
                        me.all.add(q)
                    if e.get("slow"):
                        # meanwhile later events wait and other causes render
                        res.counts["slow"] += 1
                        set_bump(lambda b: b + 1)
                        await asyncio.sleep(e["slow"])
                    if e.get("then") == "render":
                        set_bump(lambda b: b + 1)
                return h
            attrs = {"id": f"{i}", "data-r": f"{len(insts)}", "value": f"{bump}", "data-inst": insts.index(me), "data-render": me.renders}
            for ev in style["events"]:
                attrs[ev] = handler(ev)
            if style["keyed"]:
                attrs["key"] = f"k{i}"
            tag = style["tag" if kind == "A" else "tagB"]
            if not style["once"]:
                return Vdom(tag)(attrs)
            # an element that is made once for each style and rendered many times
            if me.element is None or me.element[0] != (tag, style):
                del attrs["data-render"]
                me.element = (tag, style), Vdom(tag)(attrs)
            else:
                res.counts["reused"] += 1
                if "_reactpy_ack_seq" in me.element[1]["attributes"]:
                    res.bad("attributes-changed", f"the user's own element now holds {me.element[1]['attributes']}")
            return Vdom("label")({"data-of": insts.index(me), "data-render": me.renders}, me.element[1])
        return Field

    A, B = make("A"), make("B")

    def style_of(i):
        return {"tag": tags[i], "tagB": tagsB[i],
                "events": [e for e in ("onChange", "onInput", "onBlur") if rng.random() < 0.6], "keyed": keyed[i], "once": once[i]}
    once = [rng.random() < 0.25 for _ in range(n)]
    keyed = [rng.random() < 0.3 for _ in range(n)]
    first = {"show": [True] * n, "type": ["A"] * n, "order": list(range(n)), "style": [style_of(i) for i in range(n)]}
    state = {k: list(v) for k, v in first.items()}

    @component
    def Root():
        st, ctl["root"] = use_state(first)
        return Vdom("form")(*[(A if st["type"][i] == "A" else B)(i, st["style"][i], key=f"x{i}")
                              for i in st["order"] if st["show"][i]])

    seen = {}       # instance -> highest acknowledgement seen

    def on_update(m):
        render = {}
        for _, el in walk(m["model"]):
            a = el.get("attributes") or {}
            if "data-of" in a:
                render[a["data-of"]] = a["data-render"]
            elif a.get("data-inst") in render:
                a = {**a, "data-render": render[a["data-inst"]]}
            if "data-inst" not in a:
                if "_reactpy_ack_seq" in a:
                    res.bad("ack-on-other", str(el)[:300])
                continue
            me = insts[a["data-inst"]]
            ack = a.get("_reactpy_ack_seq")
            if el["tagName"] not in ("input", "select", "textarea"):
                res.counts["other_elements"] += 1
                if ack is not None:
                    res.bad("ack-on-other", f"{el['tagName']} carries {ack}")
                continue
            if set(a) - {"_reactpy_ack_seq", "id", "data-r", "value", "data-inst", "data-render", "key"}:
                res.bad("attributes-changed", str(a))
            allowed = me.snap[a["data-render"]]
            res.counts["acks" if ack is not None else "absent"] += 1
            if ack is not None and not el.get("eventHandlers"):
                res.counts["after_handler_removed"] += 1
            if ack not in allowed[1] and not (ack is not None and allowed[0] is not None and ack <= allowed[0]):
                res.bad("wrong-ack", f"{me.name} (instance {a['data-inst']}) render {a['data-render']}: acknowledges {ack}, "
                        f"its handlers had taken up {allowed}")
            prev = seen.get(a["data-inst"])
            if prev is not None and (ack is None or ack < prev) and a["data-render"] == me.renders:
                res.bad("ack-decreased", f"{me.name}: {prev} -> {ack}")
            if ack is not None:
                seen[a["data-inst"]] = ack

    layout = Layout(Root())
    deliver = layout.deliver

    async def arrive(ev):
        d, q = ev["data"][0], ev.get("seq")
        if isinstance(q, int) and not isinstance(q, bool) and q >= 0:
            f, name = meta[d["uid"]]
            here = current.get(f)
            waiting[d["uid"]] = {"field": f, "event": name, "seq": q, "maybe": here is None or here.gone_at is not None}
        await deliver(ev)
    layout.deliver = arrive
    s = Session(res, layout, rng, send_delay=rng.choice([0, 0, 0, 0.02]))
    s.on_update = on_update
    s.start()
    seqs = [0] * n
    for step in range(rng.randrange(4, 12)):
        await vloop.quiesce(lambda: res.counts["updates"], dt=3)
        clock["quiet"] += 1
        waiting.clear()
        if s.dead:
            res.bad("session-died", s.why_dead())
            return
        if res.violations:
            return
        targets = {}
        for _, m in walk(s.client.view):
            if m.get("eventHandlers"):
                targets[int(m["attributes"]["id"])] = [(name, h["target"]) for name, h in m["eventHandlers"].items()]
        for _ in range(rng.randrange(1, 8)):
            x = rng.random()
            if x < 0.7 and targets:
                i = rng.choice(sorted(targets))
                y = rng.random()
                if y < 0.75:
                    q = seqs[i]
                    seqs[i] += rng.choice([1, 1, 1, 3])
                elif y < 0.85:
                    q = max(0, seqs[i] - rng.randrange(5))      # an older number
                else:
                    q = rng.choice([None, -1, "7", 2.5, [1]])
                    res.counts["odd_seq"] += 1
                d = {"seq_copy": q}
                if rng.random() < 0.6:
                    d["then"] = "render"
                if rng.random() < 0.15:
                    d["slow"] = rng.choice([0.001, 0.1])
                name, target = rng.choice(targets[i])
                d["uid"] = len(meta)
                meta[d["uid"]] = i, name
                ev = {"type": "layout-event", "target": target, "data": [d]}
                if q is not None:
                    ev["seq"] = q
                res.counts["events"] += 1
                await s.inq.put(ev)
                if rng.random() < 0.4:
                    await asyncio.sleep(rng.choice([0, 0, 0.001]))
            else:
                y = rng.random()
                i = rng.randrange(n)
                if y < 0.25:
                    state["style"][i] = style_of(i)
                    res.counts["handler_changes"] += 1
                elif y < 0.45:
                    state["show"][i] = not state["show"][i]
                    if not state["show"][i] and rng.random() < 0.5:
                        seqs[i] = 0         # a fresh client element counts from 0 again
                elif y < 0.65:
                    state["type"][i] = "B" if state["type"][i] == "A" else "A"
                    res.counts["replaced"] += 1
                    if rng.random() < 0.5:
                        seqs[i] = 0
                elif y < 0.85:
                    rng.shuffle(state["order"])
                    res.counts["moved"] += 1
                elif i in ctl:
                    ctl[i](lambda b: b + 1)
                    continue
                ctl["root"]({k: list(v) for k, v in state.items()})
    await vloop.settle(5)
    await s.stop()
    res.done((p["seed"], sorted(seen.items())), len(seen) > 1, {"acks": sorted(seen.items())[:10]})


def _cap(own, lowest):
    if own is None or lowest is None or lowest > own:
        return own
    return lowest - 1 if lowest > 0 else None


def _max(a, b):
    return b if a is None else a if b is None else max(a, b)
