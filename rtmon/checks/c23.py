"""C23: handler options found by inspection agree with the handler's code."""
import asyncio, functools, random, types
from .. import vloop
from ..client import walk
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: generated handlers of every callable kind run through real sessions; the options sent to the client are compared with the operations written into their code, and with those observed on a recording event when they run"
RULE = ("one case = 24 handlers: function bodies of random operations on the event among decoys, as function, coroutine, lambda, method, partial, decorated function, callable object, builtin or proxy, on elements of one session and fired; "
        "and 6 merges of 2-4 of them, some failing or slow; non-trivial if options of both kinds were found and a wrapped callable ran")
ASSUME = ["an operation counts wherever in the handler's own body it is written, not in functions nested in it", "an event argument that the body assigns anew is left out"]
REQUIRE = {"handlers": 80000, "fired": 80000, "prevent": 30000, "stop": 30000, "debounce": 10000, "uncertain": 15000, "decoys": 100000, "wrapped": 50000, "odd": 3000, "large": 3000, "merges": 15000, "merge_failures": 20000, "refused_merges": 3000}
CHUNK = 10


def cases(tier, seed):
    return [{"seed": s} for s in rngs(seed, 4000 if tier == "quick" else 60000, "c23")]


def case(res, p):
    vloop.run(run, res, p)


class Ctx:
    def __init__(self):
        self.__dict__.update(ran=[], ops=[])


class Other:
    def preventDefault(self):
        pass

    def stopPropagation(self):
        pass
    debounce = None

    def __getattr__(self, n):
        if n.startswith("attr"):
            return None
        raise AttributeError(n)


def body(rng, ev, ind):
    """Source lines of a body and the options it names."""
    d = rng.random
    lines, want = [], {"prevent": False, "stop": False, "debounce": None, "uncertain": False}
    ops = [o for o in ("prevent", "stop", "debounce") if d() < 0.45]
    rng.shuffle(ops)
    params, closure = [], {}
    decoys = 0
    nested = d() < 0.25
    if d() < 0.06:
        lines.append("; ".join(f"other.attr{i}" for i in range(140)))
        want["large"] = True
    if nested:
        lines.append(rng.choice([f"later = lambda: {ev}.value", f"def later():\n    return {ev}", f"later = [x for x in [1] if {ev} is not None]"]))
    items = []
    for o in ops:
        if o == "prevent":
            items.append([f"{ev}.preventDefault()"])
            want["prevent"] = True
        elif o == "stop":
            items.append([f"{ev}.stopPropagation()"])
            want["stop"] = True
        else:
            v = rng.choice([0, 1, 50, 255, 256, 1000, 70000])
            k = rng.choice(["literal", "literal", "default", "kwdefault", "closure", "local", "call", "cond", "twice", "or", "redefault", "text", "other", "late"])
            if k == "literal":
                items.append([f"{ev}.debounce = {v}"])
                want["debounce"] = v
            elif k in ("default", "kwdefault"):
                params.append(("kw" if k == "kwdefault" else "pos", "ms", v))
                items.append([f"{ev}.debounce = ms"])
                want["debounce"], want["param"] = v, "ms"
            elif k == "closure":
                closure["wait"] = v
                items.append([f"{ev}.debounce = wait"])
                want["debounce"] = v
            else:
                want["uncertain"] = True
                if k == "local":
                    items.append([f"ms = {v}", f"{ev}.debounce = ms"])
                elif k == "call":
                    items.append([f"{ev}.debounce = int({v})"])
                elif k == "cond":
                    items.append([f"{ev}.debounce = int(7) if other else {v}"])
                elif k == "or":
                    items.append([f"{ev}.debounce = int(7) {rng.choice(['or', 'and'])} {v}"])
                elif k == "redefault":
                    params.append(("pos", "ms", v))
                    items.append(["ms = int(9)", f"{ev}.debounce = ms"])
                elif k == "other":
                    # no number, wherever it comes from
                    x = rng.choice(["True", "False", "None", "'soon'", "1.5"])
                    where = rng.choice(["kw", "pos", "closure"])
                    if where == "closure":
                        closure["wait"] = eval(x)
                    else:
                        params.append((where, "ms", x))
                    items.append([f"{ev}.debounce = {'wait' if where == 'closure' else 'ms'}"])
                elif k == "text":
                    items.append([f"{ev}.debounce = {rng.choice(['None', 'True', repr('soon'), '1.5'])}"])
                elif k == "twice":
                    items.append([f"if other:", f"    {ev}.debounce = int(3)", "else:", f"    {ev}.debounce = {v}"])
                else:
                    items.append([f"if other:", f"    {ev}.debounce = {v}", "else:", f"    {ev}.debounce = int(3)"])
    for _ in range(rng.choice([0, 1, 2, 3])):
        decoys += 1
        items.append([rng.choice(["other.preventDefault()", "other.stopPropagation()", "other.debounce = 77", f"'{ev}.preventDefault()'", f"x = {ev}.value; other.preventDefault()", f"{ev}.get('preventDefault')",
                                  f"f'{{{ev}}}.stopPropagation()'", f"(lambda {ev}: {ev}.preventDefault())", "preventDefault = stopPropagation = debounce = 5", f"f = lambda q: q.stopPropagation()", f"{ev}.target; other.debounce = 5",
                                  f"str({ev}); other.stopPropagation()", f"print.__name__, {ev}, other.preventDefault()"])])
    rng.shuffle(items)
    for it in items:
        k = d()
        if k < 0.1:
            it = ["try:"] + ["    " + x for x in it] + ["finally:", "    pass"]
        elif k < 0.18:
            it = ["with null():"] + ["    " + x for x in it]
        elif k < 0.26:
            it = ["for _ in [1]:"] + ["    " + x for x in it]
        elif k < 0.32:
            it = ["if other:"] + ["    " + x for x in it]
        lines += it
    lines.insert(0, f"ran.append({ev})") if d() < 0.5 else lines.append(f"ran.append({ev})")
    out = []
    for l in lines:
        out += l.split("\n")
    return ["    " * ind + l for l in out], want, params, closure, decoys


COUNT = [0]


def make_function(rng, ran, lead=0, asynchronous=None):
    """A function with `lead` leading parameters before its event."""
    ev = rng.choice(["event", "e", "ev", "self" if not lead else "e", "data"])
    lines, want, params, closure, decoys = body(rng, ev, 2)
    asynchronous = rng.random() < 0.4 if asynchronous is None else asynchronous
    head = [f"p{i}" for i in range(lead)] + [ev + rng.choice(["", "", ": dict" ])]
    more = rng.random() < 0.15 and not [x for x in params if x[0] == "pos"]
    pos = [f"{n}={v}" for k, n, v in params if k == "pos"] + (["more='m'"] if more else [])
    kw = [f"{n}={v}" for k, n, v in params if k == "kw"]
    star = ["*" + ("rest" if rng.random() < 0.3 else "")] if kw else []
    COUNT[0] += 1
    src = [f"def outer({', '.join(closure)}):", f"    {'async ' if asynchronous else ''}def handler{COUNT[0]}({', '.join(head + pos + star + kw)}):"] + lines
    if asynchronous:
        src.append("        await sleep(0)")
        src.append("        ran.append('finished')")
    src.append(f"    return handler{COUNT[0]}")
    ns = {"ran": ran, "other": Other(), "sleep": asyncio.sleep, "null": __import__("contextlib").nullcontext}
    try:
        exec("\n".join(src), ns)
    except SyntaxError:
        raise AssertionError("\n".join(src))
    f = ns["outer"](**closure)
    want.update(src="\n".join(src), decoys=decoys, asynchronous=asynchronous, lead=lead)
    return f, want


def decorate(rng, f, asynchronous):
    k = rng.choice(["plain", "async"]) if asynchronous else "plain"
    if k == "async":
        async def wrapper(*a, **k):
            return await f(*a, **k)
    else:
        def wrapper(*a, **k):
            return f(*a, **k)
    return functools.wraps(f)(wrapper)


def make(rng, ran):
    """A callable taking one event, with what it names."""
    k = rng.choice(["function", "function", "lambda", "method", "method", "classmethod", "static", "partial", "partial", "partial_positional", "nested_partial", "wraps", "wraps", "wraps_partial", "partial_wraps", "object", "object", "object_partial", "wrapped_method",
                    "odd", "coroutine_lambda", "cache"])
    wrapped = k not in ("function", "lambda", "static", "odd", "coroutine_lambda")
    if k == "odd":
        return odd(rng, ran), {"prevent": False, "stop": False, "debounce": None, "kind": "odd", "wrapped": False, "asynchronous": False, "src": "odd", "odd": True, "decoys": 0, "uncertain": False}
    if k == "lambda":
        ev = rng.choice(["e", "event"])
        pick = [o for o in ("preventDefault", "stopPropagation") if rng.random() < 0.5]
        src = f"lambda {ev}: (ran.append({ev}), {''.join(f'{ev}.{o}(), ' for o in pick)}other.{rng.choice(['preventDefault', 'stopPropagation'])}())"
        f = eval(src, {"ran": ran, "other": Other()})
        want = {"prevent": "preventDefault" in pick, "stop": "stopPropagation" in pick, "debounce": None, "src": src, "asynchronous": False, "decoys": 1, "uncertain": False}
    elif k == "coroutine_lambda":
        g, w = make_function(rng, ran, asynchronous=True)
        f = lambda e: g(e)
        want = {"prevent": False, "stop": False, "debounce": None, "src": "lambda e: g(e)\n" + w["src"], "asynchronous": True, "decoys": 0, "uncertain": False}
    elif k == "function":
        f, want = make_function(rng, ran)
    elif k in ("method", "classmethod", "static", "object", "object_partial", "wrapped_method"):
        lead = 0 if k == "static" else 1
        g, want = make_function(rng, ran, lead=lead)
        if k == "wrapped_method":
            g = decorate(rng, g, want["asynchronous"])
        if k == "method" or k == "wrapped_method":
            f = type("C", (), {"m": g})().m
        elif k == "classmethod":
            f = rng.choice([lambda c: c.m, lambda c: c().m])(type("C", (), {"m": classmethod(g)}))
        elif k == "static":
            f = type("C", (), {"m": staticmethod(g)})().m
        else:
            f = type("C", (), {"__call__": g})()
            if k == "object_partial":
                f = functools.partial(f)
    elif k in ("partial", "partial_wraps", "wraps_partial", "nested_partial"):
        g, want = make_function(rng, ran)
        kw = {}
        if want.get("param") and rng.random() < 0.7:
            kw = {"ms": rng.choice([5, 600])}
            want["debounce"] = kw["ms"]
            want["override"] = kw
        if k == "partial_wraps":
            g = decorate(rng, g, want["asynchronous"])
        f = functools.partial(g, **kw)
        if k == "nested_partial":
            class Sub(functools.partial):       # partials of partials are merged unless of another kind
                pass
            f = Sub(f) if rng.random() < 0.5 else functools.partial(decorate(rng, f, want["asynchronous"]))
        if k == "wraps_partial":
            w = decorate(rng, g, want["asynchronous"])
            w.__wrapped__ = f
            inner = f
            if want["asynchronous"]:
                async def w2(*a):
                    return await inner(*a)
            else:
                def w2(*a):
                    return inner(*a)
            w2.__wrapped__ = f
            f = w2
    elif k == "partial_positional":
        n = rng.choice([1, 2])
        g, want = make_function(rng, ran, lead=n)
        f = functools.partial(g, *[Other() for _ in range(n)])
    elif k == "cache":
        g, want = make_function(rng, ran, asynchronous=False)
        f = functools.singledispatch(g)
    else:
        g, want = make_function(rng, ran)
        f = decorate(rng, g, want["asynchronous"])
        if rng.random() < 0.3:
            f = decorate(rng, f, want["asynchronous"])
    want.update(kind=k, wrapped=wrapped)
    return f, want


class Permissive:
    """A proxy that has every attribute."""

    def __init__(self, ran):
        self.__dict__["ran"] = ran

    def __getattr__(self, n):
        return Permissive(self.__dict__["ran"])

    def __call__(self, *a):
        self.__dict__["ran"].append(a[0])
        return None


class Raises:
    def __init__(self, ran):
        object.__setattr__(self, "ran", ran)

    def __getattr__(self, n):
        raise AttributeError(n)

    def __call__(self, e):
        self.ran.append(e)


def odd(rng, ran):
    import unittest.mock
    def loops(e):
        ran.append(e)
    loops.__wrapped__ = loops
    return rng.choice([ran.append, Permissive(ran), Raises(ran), unittest.mock.Mock(side_effect=ran.append), unittest.mock.MagicMock(side_effect=ran.append), functools.partial(ran.append),
                       unittest.mock.AsyncMock(side_effect=ran.append), loops, lambda *a: ran.append(a[0]), type("K", (), {"__init__": lambda self, e: ran.append(e)}), functools.partial(Permissive(ran)), types.MethodType(lambda s, e: ran.append(e), 5)])


async def run(res, p):
    import reactpy
    from reactpy import component, html
    from reactpy.core.events import EventHandler, event, merge_event_handlers
    from reactpy.core.layout import Layout
    from reactpy.types import Event
    rng = random.Random(p["seed"])
    made = []
    for i in range(24):
        ran = []
        f, want = make(rng, ran)
        declared = {}
        if rng.random() < 0.35:
            declared = {k: v for k, v in [("prevent_default", True), ("stop_propagation", True), ("debounce", 33), ("throttle", 44)] if rng.random() < 0.5 and not (k == "debounce" and (want["debounce"] is not None))}
        made.append((f, want, ran, declared))

    def given(f, declared):
        if declared:
            return event(f, **declared) if rng.random() < 0.5 else event(**declared)(f)
        return f
    handlers = []
    for f, want, ran, declared in made:
        try:
            handlers.append(given(f, declared))
        except Exception as e:
            res.bad("inspection-failed", f"{want['kind']} {want['src']}: {e!r}")
            return

    @component
    def root():
        return html.div(*[html.button({"onClick": h, "id": i}) for i, h in enumerate(handlers)])
    s = Session(res, Layout(root()), rng).start()
    await vloop.settle(1)
    if s.dead:
        res.bad("session-died", s.why_dead())
        return
    got = {m["attributes"]["id"]: m["eventHandlers"]["onClick"] for _, m in walk(s.client.view) if m.get("eventHandlers")}
    kinds = set()
    for i, (f, want, ran, declared) in enumerate(made):
        res.counts["handlers"] += 1
        g = got.get(i)
        expect = {"preventDefault": want["prevent"] or "prevent_default" in declared, "stopPropagation": want["stop"] or "stop_propagation" in declared}
        deb = want["debounce"] if want["debounce"] is not None else declared.get("debounce")
        if deb is not None:
            expect["debounce"] = deb
        if "throttle" in declared:
            expect["throttle"] = 44
        have = {k: v for k, v in (g or {}).items() if k != "target"}
        if have != expect:
            res.bad("options", f"{want['kind']} declared {declared} {want.get('override', '')}: client was told {have} instead of {expect}\n{want['src']}")
            return
        for k, w in (("prevent", want["prevent"]), ("stop", want["stop"]), ("debounce", want["debounce"] is not None), ("uncertain", want["uncertain"]), ("wrapped", want["wrapped"]), ("odd", want.get("odd", 0)), ("large", want.get("large", 0))):
            res.counts[k] += bool(w)
            if w:
                kinds.add(k)
        res.counts["decoys"] += want["decoys"]
        token = rng.random()
        await s.event(g["target"], [{"token": token, "value": 1, "target": {"a": 1}}])
        await vloop.settle(0.3)
        res.counts["fired"] += 1
        calls = [x for x in ran if x != "finished"]
        if len(calls) != 1 or not isinstance(calls[0], dict) or calls[0].get("token") != token or calls[0]["target"] != {"a": 1}:
            res.bad("not-run-once", f"{want['kind']}: ran with {calls} for token {token}\n{want['src']}")
            return
        if ran.count("finished") != bool(want["asynchronous"]):
            res.bad("not-finished", f"{want['kind']}: {ran}\n{want['src']}")
            return
        if s.dead:
            res.bad("session-died", f"{s.why_dead()} {want['kind']} {want['src']}")
            return
    await s.stop()
    for _ in range(6):
        await merge(res, rng, EventHandler, event, merge_event_handlers, Event)
        if res.violations:
            return
    res.done(p["seed"], len(kinds & {"prevent", "stop", "debounce"}) > 1 and "wrapped" in kinds)


FAILURES = (ValueError, OSError, KeyError, LookupError, ZeroDivisionError, ConnectionError, TimeoutError)


async def merge(res, rng, EventHandler, event, merge_event_handlers, Event):
    n = rng.choice([2, 2, 3, 4])
    log, fails = [], []
    opts = {"prevent_default": rng.random() < 0.5, "stop_propagation": rng.random() < 0.5, "debounce": rng.choice([None, 0, 50]), "throttle": rng.choice([None, 10])}
    target = rng.choice([None, None, "t"])

    def handler(i):
        k = rng.choice(["sync", "async", "slow", "sync-fail", "fail", "slow-fail"])
        if "fail" in k:
            fails.append(i)
        kind = rng.choice(FAILURES)

        async def a(e):
            log.append((i, "start", e))
            if "slow" in k:
                await asyncio.sleep(rng.random())
            else:
                await asyncio.sleep(0)
            log.append((i, "end", e))
            if "fail" in k:
                raise kind(i)

        def s(e):
            log.append((i, "start", e))
            log.append((i, "end", e))
            if "fail" in k:
                raise kind(i)
        return s if k.startswith("sync") else a
    hs = [event(handler(i), **opts) for i in range(n)]
    for h in hs:
        h.target = target
    if rng.random() < 0.2:
        res.counts["refused_merges"] += 1
        victim, attr = rng.choice(hs), rng.choice(["prevent_default", "stop_propagation", "debounce", "throttle", "target"])
        was = getattr(victim, attr)
        setattr(victim, attr, (not was) if isinstance(was, bool) else "other" if attr == "target" else 999)
        try:
            merge_event_handlers(hs)
            res.bad("merged-conflict", f"{n} handlers with different {attr}")
        except ValueError:
            pass
        return
    m = merge_event_handlers(hs)
    res.counts["merges"] += 1
    have = {k: getattr(m, k) for k in opts}
    if have != opts or m.target != target:
        res.bad("merged-options", f"{have} target {m.target} instead of {opts} {target}")
        return
    for round in range(2):
        log.clear()
        e = Event({"n": rng.random()})
        err = None
        try:
            await m.function([e])
        except Exception as x:
            err = x
        res.counts["merge_failures"] += bool(fails)
        if bool(fails) != (err is not None):
            res.bad("merged-error", f"handlers {fails} fail: {err!r}")
            return
        if err is not None:
            flat = list(_flat(err))
            if not flat or any(not isinstance(x, FAILURES) or x.args[0] not in fails for x in flat):
                res.bad("merged-error", f"handlers {fails} fail: {err!r}")
                return
        starts = sorted(i for i, w, x in log if w == "start" and x is e)
        ends = sorted(i for i, w, x in log if w == "end" and x is e)
        if starts != list(range(n)) or ends != list(range(n)) or len(log) != 2 * n:
            res.bad("merged-not-all-run", f"{n} handlers, {fails} fail: started {starts}, finished {ends}")
            return


def _flat(e):
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from _flat(x)
    else:
        yield e
