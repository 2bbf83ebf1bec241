"""C35: debug mode tells more and changes nothing else."""
import asyncio, json, logging, random, re, warnings
from .. import vloop
from ..common import rngs
from ..program import App, Cfg
from ..session import Session

TECHNIQUE = ("runtime monitoring: the same random program run under several settings of the diagnostic options, which change during the session, each judged by the reference view; "
             "log records, warnings and their places in the user's code, and rejected attributes compared with models")
RULE = ("one case = one random application under 3 settings of debug mode and checks, one session of components that log debug values while debug mode is switched, 12 elements with random attributes and "
        "2 generated user modules with nested lists of keyed and unkeyed children; non-trivial if debug mode was on and off and something was logged, warned about and rejected")
ASSUME = ["dependencies of debug values are plain numbers and texts"]
REQUIRE = {"quiescent_comparisons": 6000, "switches": 6000, "debug_renders": 8000, "plain_renders": 8000, "logged_values": 2000, "kept_values": 2000, "recomputed": 2000, "rejected": 800, "accepted": 4000,
           "key_warnings": 2000, "unkeyed_quiet": 800, "errors_hidden": 200, "errors_told": 200}
CHUNK = 20


def cases(tier, seed):
    n = 1200 if tier == "quick" else 9000
    return [{"seed": s} for s in rngs(seed, n, "c35")]


def options(debug, spec=None, attrs=None):
    import reactpy.config as C
    # the checks follow every change of debug mode
    C.REACTPY_DEBUG.current = not debug
    C.REACTPY_DEBUG.current = debug
    for o, v in ((C.REACTPY_CHECK_VDOM_SPEC, spec), (C.REACTPY_CHECK_JSON_ATTRS, attrs)):
        if v is not None:
            o.current = v


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.NOTSET)
        self.seen = []

    def emit(self, r):
        self.seen.append(r)


def case(res, p):
    rng = random.Random(p["seed"])
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root = logging.getLogger("reactpy")
    level, handlers, propagate = root.level, root.handlers, root.propagate
    root.propagate = False
    records = Records()
    try:
        root.handlers = [records]
        for _ in range(3):
            vloop.run(app, res, p, random.Random(rng.random()), records)
        vloop.run(values, res, rng, records)
        attributes(res, rng)
        for _ in range(2):
            keys(res, rng)
        vloop.run(errors, res, rng)
    finally:
        options(False)
        root.handlers, root.propagate = handlers, propagate
        root.setLevel(level)
        logging.disable(disabled)
    res.done((p["seed"], sorted(res.counts.items())), all(res.counts[k] for k in ("debug_renders", "plain_renders", "logged_values", "rejected", "key_warnings")), {"counts": dict(res.counts)})


def switch(res, rng):
    """Other settings; what they imply for logging holds at once."""
    debug = rng.random() < 0.5
    options(debug, *(rng.choice([None, None, True, False]) for _ in range(2)))
    res.count(switches=1)
    log = logging.getLogger("reactpy.core.layout")
    if log.isEnabledFor(logging.DEBUG) != debug or not log.isEnabledFor(logging.INFO):
        res.bad("level", f"debug mode {debug}: level {log.getEffectiveLevel()}")
    return debug


async def app(res, p, how, records):
    """The same application (its random choices come from p) under settings of its own."""
    import reactpy.config as C
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    debug = switch(res, how)
    C.REACTPY_ASYNC_RENDERING.current = how.random() < 0.5
    C.REACTPY_MAX_QUEUE_SIZE.current = how.choice([1000, 1])
    a = App(random.Random(rng.random()), Cfg(defs=rng.choice([2, 3, 4])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = Session(res, Layout(a.root()), rng, send_delay=how.choice([0, 0.02])).start()
        await vloop.quiesce(lambda: (a.renders, res.counts["updates"]))
        for step in range(6):
            if s.dead:
                res.bad("session-died", s.why_dead())
            if res.violations or not s.compare(a, f"debug {debug}, step {step}:"):
                break
            if how.random() < 0.4:
                debug = switch(res, how)
            live = sorted(a.live(), key=lambda i: i.path.__repr__())
            if not live:
                break
            for _ in range(rng.randrange(1, 4)):
                i = rng.choice(live)
                a.set(i, rng.randrange(len(i.values)), rng.randrange(8))
            before = a.renders
            await vloop.quiesce(lambda: (a.renders, res.counts["updates"]))
            res.counts["debug_renders" if debug else "plain_renders"] += a.renders - before
        await s.stop()
    for r in records.seen:
        if r.levelno >= logging.WARNING:
            res.bad("complaint", f"debug {debug}: {r.getMessage()} {r.exc_info}")
    records.seen.clear()


async def values(res, rng, records):
    """use_debug_value logs in debug mode what has changed since it was last logged."""
    from reactpy import component, html, hooks, config
    from reactpy.core.layout import Layout
    config.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.5
    n = rng.randrange(1, 4)
    kinds = [rng.choice(["value", "value", "infer", "deps", "none", "once"]) for _ in range(n)]
    shown, calls, want, state = [object()] * n, [0] * n, [], {"debug": False}
    now, memo = [rng.randrange(3) for _ in range(n)], [None] * n
    setters = {}
    other = [0] * n

    @component
    def Tracked(i):
        _, setters[i] = hooks.use_state(0)
        v, o = now[i], other[i]

        def compute():
            calls[i] += 1
            return f"v{int(v) // 2}"
        before = calls[i]
        due = False
        if kinds[i] == "value":
            hooks.use_debug_value(v)
            text = v
        else:
            deps = {"infer": ..., "deps": [o], "none": None, "once": []}[kinds[i]]
            key = {"infer": (type(v), v), "deps": o, "none": object(), "once": 0}[kinds[i]]
            due = memo[i] is None or memo[i][0] != key
            if due:
                memo[i] = key, f"v{int(v) // 2}"
            text = memo[i][1]
            if kinds[i] == "infer":
                mine = calls_of(i)

                def infer():
                    mine()
                    return f"v{int(v) // 2}"
                hooks.use_debug_value(infer)
            else:
                hooks.use_debug_value(compute, deps)
            if calls[i] - before != due:
                res.bad("recomputed", f"{kinds[i]}: computed {calls[i] - before} times, expected {int(due)}")
            res.count(recomputed=due)
        if state["debug"] and text != shown[i]:
            shown[i] = text
            want.append((i, str(text)))
        elif state["debug"]:
            res.count(kept_values=1)
        return html.p(str(i))
    fs = {}

    def calls_of(i):
        if i not in fs:
            def call():
                calls[i] += 1
            fs[i] = call
        return fs[i]

    @component
    def Root():
        return html.div([Tracked(i, key=f"t{i}") for i in range(n)])
    state["debug"] = switch(res, rng)
    records.seen.clear()
    s = Session(res, Layout(Root()), rng).start()
    await vloop.settle(1)
    for _ in range(14):
        if s.dead:
            res.bad("session-died", s.why_dead())
        if res.violations:
            break
        if rng.random() < 0.25:
            state["debug"] = switch(res, rng)
            records.seen[:] = [r for r in records.seen if "Tracked" in r.getMessage()]
        i = rng.randrange(n)
        if rng.random() < 0.6:
            now[i] = rng.choice([0, 1, 2, 3, True, 1.0, False])
        if rng.random() < 0.4:
            other[i] += 1
        setters[i](lambda o: o + 1)
        await vloop.settle(0.5)
        have = [r.getMessage() for r in records.seen if "Tracked" in r.getMessage()]
        if len(have) != len(want) or any(not re.search(r"Tracked\(.*\) " + re.escape(t) + r"\Z", m) or str(k) not in m for m, (k, t) in zip(have, want)):
            res.bad("debug-values", f"{kinds}, debug {state}: logged {have}, expected {want}")
        res.count(logged_values=len(want))
        want.clear()
        records.seen.clear()
    await s.stop()


def attributes(res, rng):
    """With the check on, an element is rejected exactly if its attributes cannot be serialized; otherwise it is the same."""
    from reactpy import html

    def value(d=0):
        x = rng.random()
        if x < 0.12:
            return rng.choice([object(), {1, 2}, b"x", 1j, datetime_, range(3)])
        if d < 3 and x < 0.16:
            return tuple(value(d + 1) for _ in range(rng.randrange(3)))
        if d < 3 and x < 0.35:
            return [value(d + 1) for _ in range(rng.randrange(3))]
        if d < 3 and x < 0.55:
            return {rng.choice(["a", "b", "c", 1, None]): value(d + 1) for _ in range(rng.randrange(3))}
        if x < 0.57:
            loop = []
            loop.append(loop)
            return loop
        return rng.choice(["", "x", "\u2028", 0, -1, 2.5, True, None])
    import datetime
    datetime_ = datetime.datetime(2020, 1, 1)
    for _ in range(12):
        attrs = {rng.choice(["id", "data-x", "style", "className", "title"]): value() for _ in range(rng.randrange(4))}
        full = {**attrs, **({"onClick": lambda e: None} if rng.random() < 0.3 else {})}
        try:
            json.dumps(attrs)
            fine = True
        except (TypeError, ValueError):
            fine = False
        options(False)
        plain = html.div(dict(full), "x")
        check = rng.choice([(True, None, None), (True, None, True), (False, None, True), (True, None, False), (False, None, False), (False, True, None)])
        options(*check)
        on = check[2] if check[2] is not None else check[0]
        try:
            got = html.div(dict(full), "x")
        except (TypeError, ValueError) as e:
            if fine or not on:
                res.bad("rejected", f"{attrs} with {check}: {e!r}")
            res.count(rejected=1)
            continue
        finally:
            options(False)
        if on and not fine:
            res.bad("accepted", f"{attrs} with {check}")
        res.count(accepted=1)
        if set(got) != set(plain) or repr(got.get("attributes")) != repr(plain.get("attributes")) or got["children"] != plain["children"]:
            res.bad("element", f"{got} with {check}, {plain} otherwise")


def keys(res, rng):
    """Children in lists without a key are warned about in debug mode only, each at the user's line."""
    from reactpy import component, html

    @component
    def Item():
        return None
    lines, expected = ["from reactpy import html; from itertools import chain", "class Once:", "    def __init__(self, items): self.items = iter(items)", "    def __iter__(self): return self.items", "def build(Item):", "    out = []"], []

    def child():
        x = rng.random()
        keyed = rng.random() < 0.5
        k = f"k{rng.randrange(99)}"
        if x < 0.35:
            return (f"Item(key={k!r})" if keyed else "Item()"), not keyed
        if x < 0.7:
            return (f"html.i({{'key': {k!r}}})" if keyed else rng.choice(["html.i()", "html.i({'id': 'x'}, 'y')", "html.i('z')"])), not keyed
        return rng.choice(["'text'", "5", "None"]), False

    def group(depth):
        """A list of children as code, and how often it is warned about."""
        items, n = [], 0
        for _ in range(rng.randrange(0, 4)):
            if depth < 2 and rng.random() < 0.25:
                code, m = group(depth + 1)
            else:
                code, m = child()
            items.append(code)
            n += m
        if rng.random() < 0.12:
            # each of its lists is looked at, the generator itself cannot be
            res.counts["iterators"] += 1
            return rng.choice(["(x for x in [{}])", "map(lambda x: x, [{}])", "iter([{}])", "filter(lambda x: True, ({}))", "chain([{}], ())", "Once([{}])"]).format(", ".join(items) + ("," if items else "")), 1 + n - direct(items)
        return (f"[{', '.join(items)}]" if rng.random() < 0.7 else f"({''.join(i + ', ' for i in items)})"), n

    def direct(items):
        return sum(i in ("Item()", "html.i()", "html.i({'id': 'x'}, 'y')", "html.i('z')") for i in items)
    for _ in range(rng.randrange(2, 8)):
        for _ in range(rng.randrange(0, 3)):
            lines.append("    #")
        parts, n = [], 0
        for _ in range(rng.randrange(0, 4)):
            code, m = group(0) if rng.random() < 0.6 else (child()[0], 0)     # direct children need no key
            parts.append(code)
            n += m
        tag = rng.choice(["html.ul", "html.div", "html._", "html.custom"])
        lines.append(f"    out.append({tag}({', '.join(parts)}))")
        expected += [len(lines)] * n
    lines.append("    return out")
    user = {"__name__": "userapp.views", "__file__": "userapp/views.py"}
    exec(compile("\n".join(lines), "userapp/views.py", "exec"), user)
    debug = rng.random() < 0.7
    options(debug, *(rng.choice([None, True, False]) for _ in range(2)))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        got = user["build"](Item)
    options(False)
    plain = user["build"](Item)
    if json.dumps(got, default=str_) != json.dumps(plain, default=str_):
        res.bad("element", f"{got} in debug mode, {plain} otherwise")
    have = [(w.filename, w.lineno) for w in seen]
    want = [("userapp/views.py", n) for n in expected] if debug else []
    if sorted(have) != sorted(want):
        res.bad("key-warnings", f"debug {debug}: warned at {have}, expected {want}:\n" + "\n".join(f"{i + 1}: {x}" for i, x in enumerate(lines)))
    res.count(**{"key_warnings" if debug else "unkeyed_quiet": len(expected)})


def str_(o):
    return [type(o).__name__, o.key] if hasattr(o, "key") else type(o).__name__


async def errors(res, rng):
    """What went wrong is told to the client in debug mode only."""
    from reactpy import component, html, config
    from reactpy.core.layout import Layout
    config.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.5
    secret = f"secret-{rng.randrange(10 ** 9)}"

    class Weird(Exception):
        def __str__(self):
            return "weird " + secret

    @component
    def Bad():
        raise rng.choice([ValueError, KeyError, Weird, RuntimeError])(secret)

    @component
    def Root():
        return html.div(html.p("before"), Bad(), html.p("after"))
    debug = switch(res, rng)
    async with Layout(Root()) as layout:
        m = await layout.render()
    text = json.dumps(m)
    if (secret in text) != debug or "before" not in text or "after" not in text:
        res.bad("error", f"debug {debug}: {text}")
    if debug:
        res.count(errors_told=1)
    else:
        res.count(errors_hidden=1)
