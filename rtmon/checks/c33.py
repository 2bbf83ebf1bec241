"""C33: linked inputs share one value, images carry exactly what they were given."""
import asyncio, base64, copy, random, urllib.parse
from .. import vloop
from ..client import walk
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: edits in bursts over groups of linked inputs in real sessions, every callback logged and every quiet view compared with an independent model; images decoded back"
RULE = ("one case = 1-3 groups of 0-4 linked inputs (varying number, attributes, casts, callbacks that fail, set state or reorder the inputs) receiving 30 edits in bursts, and 5 images of random content; "
        "non-trivial if edits in different inputs of a group overlapped")
ASSUME = ["edits reach the server in the order of the session's messages", "callbacks are synchronous functions"]
REQUIRE = {"edits": 40000, "bursts": 9000, "called": 24000, "ignored": 7000, "cast_failed": 4000, "callback_failed": 1800, "inputs_compared": 90000, "images": 8000, "resized": 3000}
CHUNK = 20


def cases(tier, seed):
    n = 2000 if tier == "quick" else 12000
    return [{"seed": s} for s in rngs(seed, n, "c33")]


def case(res, p):
    vloop.run(run, res, p)


class Group:
    def __init__(self, rng, i):
        self.i, self.calls, self.want = i, [], []
        self.initial = rng.choice([None, "", "x", "7"])
        self.value = self.initial or ""
        self.ignore = rng.choice([None, True, True, False])
        self.cast = rng.choice([None, int, str.upper, lambda v: [v]])
        self.fails = rng.random() < 0.3
        self.grows = rng.random() < 0.3
        self.quiet = rng.random() < 0.15
        self.serial = 0
        self.inputs = [self.new(rng) for _ in range(rng.randrange(0, 5))]
        self.rerender = None
        self.shown = 0

    def new(self, rng):
        self.serial += 1
        a = {"id": f"g{self.i}-{self.serial}", "key": self.serial}
        if rng.random() < 0.6:
            a[rng.choice(["type", "title", "data-x", "style", "className", "onBlur"])] = "v" + str(rng.randrange(9))
        if "style" in a:
            a["style"] = {"width": "1px"}
        if "onBlur" in a:
            a["onBlur"] = lambda e: None
        if rng.random() < 0.15:
            a["value"] = "own"          # replaced by the common one
        if rng.random() < 0.15:
            a["onChange"] = lambda e: None
        return a

    def edited(self, value):
        """The model."""
        self.value = value
        if not value and self.ignore is not False:
            return "ignored"
        try:
            v = self.cast(value) if self.cast else value
        except ValueError:
            return "cast_failed"
        if self.quiet:
            return "called"
        self.want.append(v)
        return "callback_failed" if self.fails and len(self.want) % 3 == 0 else "called"


async def run(res, p):
    rng = random.Random(p["seed"])
    from reactpy import component, html, hooks, config
    from reactpy.core.layout import Layout
    from reactpy.widgets import use_linked_inputs, image
    config.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.5
    groups = [Group(rng, i) for i in range(rng.randrange(1, 4))]

    @component
    def Linked(g):
        _, g.rerender = hooks.use_state(0)

        def on_change(v):
            g.calls.append(v)
            if g.grows:
                g.rerender(len(g.calls))
            if g.fails and len(g.calls) % 3 == 0:
                raise RuntimeError("callback")
        kw = {}
        if not g.quiet:
            kw["on_change"] = on_change
        if g.cast:
            kw["cast"] = g.cast
        if g.initial is not None:
            kw["initial_value"] = g.initial
        if g.ignore is not None:
            kw["ignore_empty"] = g.ignore
        before = [dict(a) for a in g.inputs]
        out = use_linked_inputs(list(g.inputs) if rng.random() < 0.5 else tuple(g.inputs), **kw)
        if g.inputs != before:
            res.bad("arguments-changed", f"{before} became {g.inputs}")
        if len(out) != len(g.inputs):
            res.bad("count", f"{len(out)} inputs for {len(g.inputs)} attributes")
        return html.div(*out)

    @component
    def Root():
        return html.div(*[Linked(g, key=g.i) for g in groups])
    s = Session(res, Layout(Root()), rng, send_delay=rng.choice([0, 0, 0.02])).start()
    await vloop.settle(1)

    def look():
        return {m["attributes"]["id"]: m for _, m in walk(s.client.view) if m.get("tagName") == "input"}

    def judge(what):
        view = look()
        for g in groups:
            for a in g.inputs:
                m = view.get(a["id"])
                if m is None:
                    res.bad("missing-input", f"{a} is not shown {what}")
                    continue
                res.count(inputs_compared=1)
                have = {k: v for k, v in m["attributes"].items() if k != "_reactpy_ack_seq"}
                want = {**{k: v for k, v in a.items() if k not in ("onBlur", "onChange")}, "value": g.value}
                if have != want:
                    res.bad("wrong-input", f"{what}: input is {have}, expected {want}")
                if "onBlur" in a and "onBlur" not in m.get("eventHandlers", {}):
                    res.bad("wrong-input", f"{what}: the input's own handler is gone")
        if len(view) != sum(len(g.inputs) for g in groups):
            res.bad("missing-input", f"{what}: {sorted(view)} are shown")
        for g in groups:
            if g.calls != g.want:
                res.bad("callbacks", f"{what}: group {g.i} was called with {g.calls[-8:]} ({len(g.calls)}), expected {g.want[-8:]} ({len(g.want)})")
    judge("at first")
    overlapped = False
    todo = 30
    while todo > 0 and not res.violations:
        if rng.random() < 0.15:
            # the group gets other inputs
            g = rng.choice(groups)
            g.inputs = [a for a in g.inputs if rng.random() < 0.8] + [g.new(rng) for _ in range(rng.choice([0, 1]))]
            if rng.random() < 0.5:
                rng.shuffle(g.inputs)
            g.shown += 1
            g.rerender(-g.shown)
            res.count(resized=1)
            await vloop.settle(1)
            judge("after other inputs")
            continue
        burst, view = rng.choice([1, 1, 2, 5]), look()
        touched = []
        todo -= burst
        for _ in range(burst):
            g = rng.choice([g for g in groups if g.inputs] or [None])
            if g is None:
                break
            a = rng.choice(g.inputs)
            value = rng.choice(["", "", "1", "42", "abc", "\u00e9", " ", str(rng.randrange(1000))])
            if touched and touched[-1][:2] != (g.i, a["id"]):
                await asyncio.sleep(0.001)      # only the events of one element are promised to be handled in order
            touched.append((g.i, a["id"], value))
            res.count(edits=1, **{g.edited(value): 1})
            await s.event(view[a["id"]]["eventHandlers"]["onChange"]["target"], [{"target": {"value": value}}])
        res.count(bursts=burst > 1)
        overlapped |= len({t for t in {t[:2] for t in touched}}) > len({t[0] for t in touched})
        await vloop.settle(1)
        if s.dead:
            res.bad("session-ended", s.why_dead())
            break
        judge(f"after {touched}")
    await s.stop()
    # ---- images
    for _ in range(5):
        kind = rng.choice(["png", "jpeg", "svg", "svg+xml", "webp"])
        data = rng.choice([b"", rng.randbytes(rng.randrange(1, 300)), "<svg>\u00e9</svg>", "", b"\xff\xfe"])
        attrs = rng.choice([None, {}, {"alt": "x"}, {"className": "c", "width": 3}])
        given = copy.deepcopy(attrs)
        m = image(kind, data, attrs) if attrs is not None or rng.random() < 0.5 else image(kind, data)
        head, _, body = m["attributes"]["src"].partition(",")
        want = data.encode() if isinstance(data, str) else data
        if m["tagName"] != "img" or head != f"data:image/{'svg+xml' if kind == 'svg' else kind};base64" or base64.b64decode(body, validate=True) != want:
            res.bad("image", f"{kind} {data!r}: {m}")
        if {k: v for k, v in m["attributes"].items() if k != "src"} != (given or {}) or attrs != given:
            res.bad("image", f"attributes {given}: {m}")
        res.count(images=1)
    res.done((p["seed"], [g.calls for g in groups].__repr__()), overlapped, {"groups": [[g.value, len(g.inputs), len(g.calls)] for g in groups]})
