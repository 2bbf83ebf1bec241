"""C09: render errors stay local, are reported, and heal."""
import asyncio, copy, json, random
from .. import vloop
from ..common import rngs
from ..program import App, Cfg, Boom
from ..session import Session

TECHNIQUE = "runtime monitoring: fault injection into component renders; client view, mounts and clean-ups compared with a reference model at every quiet moment"
RULE = ("one case = one random component tree in which components fail to render at injected moments (before, between and "
        "after their hooks, by their state, by an outside cause, by returning something that cannot be rendered, by duplicate "
        "keys, by children of children) and heal, in debug or normal mode, serial or concurrent; non-trivial if a component "
        "failed and showed its right view again later")
ASSUME = ["a failing component's own state and effects survive the failure; everything below it is unmounted"]
REQUIRE = {"failures": 3000, "healed": 1500, "unmounted_by_failure": 500, "views_with_errors": 2000, "root_failures": 100,
           "debug_messages": 500, "bad_results": 500, "any_exception": 300, "broken_in_place": 300, "first_render_failures": 200, "quiescent_comparisons": 10000}
CHUNK = 20


def cases(tier, seed):
    n = 2500 if tier == "quick" else 40000
    out = []
    for s in rngs(seed, n, "c09"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.7, "debug": r.random() < 0.3, "defs": r.choice([2, 3, 4, 5, 6]),
                    "slow": r.choice([0, 0, 0.3]), "ctx": r.choice([0, 0, 2]), "pull": r.random() < 0.1})
    return out


class Odd(Exception):
    def __str__(self):
        return "odd <b>message</b> \u00e9 \U0001f600"


class Angry(Exception):
    def __str__(self):
        raise ValueError("no message for you")


class BadStr:
    def __str__(self):
        raise Boom("no text")


KINDS = ["before", "mid", "end", "odd", "angry", "no-tag", "bad-key", "key-error", "bad-text", "duplicate-keys", "deep", "bad-ctor",
         "assert", "stop-iteration", "type-error", "any", "any", "in-place", "in-place"]
# whatever a body may raise: none of these is the framework's own
ANY = [OSError("disk"), ConnectionRefusedError("no database"), BrokenPipeError(32, "pipe"), FileNotFoundError(2, "missing", "x.txt"), PermissionError("p"),
       TimeoutError("late"), InterruptedError("i"), RecursionError("deep"), MemoryError("m"), RuntimeError("r"), NotImplementedError("n"),
       LookupError("l"), IndexError("x"), AttributeError("at"), NameError("nm"), ImportError("im"), ModuleNotFoundError("mm"), EOFError("e"),
       ArithmeticError("ar"), OverflowError("o"), FloatingPointError("f"), BufferError("b"), ReferenceError("weak"), StopAsyncIteration(4),
       SyntaxError("s"), SystemError("sy"), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), UserWarning("w"), DeprecationWarning("d"),
       ExceptionGroup("group", [ValueError("inner")]), asyncio.QueueEmpty("q"), asyncio.InvalidStateError("st"), asyncio.IncompleteReadError(b"", 3),
       json.JSONDecodeError("js", "{", 1), Exception(), Exception("a", 1), KeyError(("k", 2))]


def in_place(rng, el):
    """The same view but for one thing in it which cannot be rendered: what comes before it is at the place where it always is."""
    if not isinstance(el, dict):
        return BadStr()
    kids = list(el.get("children") or [])
    inner = [i for i, k in enumerate(kids) if isinstance(k, dict)]
    if inner and rng.random() < 0.5:
        i = rng.choice(inner)
        kids[i] = in_place(rng, kids[i])
    elif kids and rng.random() < 0.4:
        kids[rng.randrange(len(kids))] = BadStr()
    else:
        kids.append(BadStr())
    return {**el, "children": kids}


class FailApp(App):
    def __init__(self, rng, cfg, res, debug):
        super().__init__(rng, cfg)
        self.res, self.debug = res, debug
        self.cause = {}         # definition -> kind of failure while it lasts
        self.failed_at = {}     # (path, definition) -> message of the failure of the last render there, or None
        self.rendered = set()

    def fail_now(self, d, path, kind, msg):
        self.res.counts["failures"] += 1
        if path == ():
            self.res.counts["root_failures"] += 1
        if (path, d.idx) not in self.rendered:
            self.res.counts["first_render_failures"] += 1
        self.failed_at[path, d.idx] = (kind, msg)

    def before_hooks(self, d, path):
        if self.failed_at.pop((path, d.idx), None) is not None and d not in self.cause:
            self.res.counts["healed"] += 1
        if self.cause.get(d) == "before":
            self.fail_now(d, path, "before", "Boom: before all hooks")
            raise Boom("before all hooks")

    def on_render(self, inst, d):
        if self.cause.get(d) == "mid":
            self.fail_now(d, inst.path, "mid", "ZeroDivisionError: division by zero")
            1 / 0

    def after_body(self, d, path, inst, result):
        from reactpy import html
        kind = self.cause.get(d)
        self.rendered.add((path, d.idx))
        if kind is None:
            return result
        if kind == "in-place":
            self.res.counts["broken_in_place"] += 1
        if kind in ("no-tag", "bad-key", "bad-text", "duplicate-keys", "deep", "bad-ctor", "in-place"):
            self.res.counts["bad_results"] += 1
            self.fail_now(d, path, kind, None)
            return {
                    "in-place": lambda: in_place(self.rng, result),
                    "no-tag": lambda: {"children": [result]},
                    "bad-key": lambda: html.div(result, html.p({"key": []})),
                    "bad-text": lambda: html.div(result, BadStr()),
                    "duplicate-keys": lambda: html.div(result, html.p({"key": "x"}), html.i({"key": "x"})),
                    "deep": lambda: html.div(html.section(result), html.div(html.p(html.b(BadStr()), "x"))),
                    "bad-ctor": lambda: html.div(result, {"tagName": "p", "attributes": 7, "children": []}),
                    }[kind]()
        if kind == "angry":
            self.fail_now(d, path, kind, None)
            raise Angry()
        err = {"end": Boom("end of the body"), "odd": Odd(), "key-error": KeyError("k"), "assert": AssertionError("a"),
               "stop-iteration": StopIteration(3), "type-error": TypeError("t")}.get(kind)
        if kind == "any":
            err = copy.copy(self.rng.choice(ANY))
            self.res.counts["any_exception"] += 1
        if err is None:
            return result
        self.fail_now(d, path, kind, f"{type(err).__name__}: {err}")
        raise err

    def _model_comp(self, d, path, prop, ctxmap):
        f = self.failed_at.get((path, d.idx))
        if f is None:
            return super()._model_comp(d, path, prop, ctxmap)
        inst = self.at.get(path)
        if inst is not None and inst.deff is d and inst.setters is not None and not inst.unmounted:
            self.m_live.append(inst)
        self.m_failed.append(path)
        # None: any message will do
        return {"tagName": "", "error": f[1] if self.debug else ""}


def same_errors(view, want):
    """Take over messages whose text is not specified."""
    if isinstance(want, dict) and isinstance(view, dict):
        if "error" in want and want["error"] is None and view.get("error"):
            want["error"] = view["error"]
        for a, b in zip(view.get("children") or [], want.get("children") or []):
            same_errors(a, b)


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy.core.layout import Layout
    from ..program import norm, first_diff
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_DEBUG.current = p["debug"]
    C.REACTPY_CHECK_VDOM_SPEC.current = False
    app = FailApp(rng, Cfg(defs=p["defs"], contexts=p["ctx"], slow=p["slow"]), res, p["debug"])
    if rng.random() < 0.3:
        app.cause[rng.choice(app.defs)] = rng.choice(KINDS)
    s = Session(res, Layout(app.root()), rng, send_delay=rng.choice([0, 0, 0.05]), pull=p["pull"]).start()
    log, errors = [], 0
    try:
        for burst in range(rng.randrange(4, 12)):
            await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
            if s.dead:
                res.bad("session-died", s.why_dead())
                return
            want = app.expected()
            view = norm(s.client.view)
            same_errors(view, want)
            res.counts["quiescent_comparisons"] += 1
            d = first_diff(view, want)
            if d:
                res.bad("view-diverged", f"{d}; causes {[(x.idx, k) for x, k in app.cause.items()]}; log {log[-6:]}")
                return
            if app.m_failed:
                errors += 1
                res.counts["views_with_errors"] += 1
                if p["debug"]:
                    res.counts["debug_messages"] += 1
            live = list(app.m_live)
            for inst in app.instances:
                if inst in live:
                    ok = inst.unmounted == 0 and inst.mounted <= 1
                else:
                    ok = inst.unmounted == inst.mounted
                if not ok:
                    res.bad("mounts", f"instance {inst.id} of {inst.deff.idx} at {inst.path}: mounted {inst.mounted}, unmounted "
                            f"{inst.unmounted}, live {inst in live}; log {log[-6:]}")
            for k, info in app.violations[:3]:
                res.bad(k, info)
            if res.violations:
                return
            # change causes, then make components render
            for _ in range(rng.choice([0, 1, 1, 2])):
                df = rng.choice(app.defs if rng.random() < 0.12 else app.defs[1:] or app.defs)
                if df in app.cause and rng.random() < 0.7:
                    del app.cause[df]
                else:
                    app.cause[df] = rng.choice(KINDS)
                log.append(("cause", df.idx, app.cause.get(df)))
            before = [i for i in live if i.mounted > i.unmounted]
            for _ in range(rng.randrange(1, 5)):
                live_now = [i for i in live if not i.unmounted and i.setters]
                if not live_now:
                    break
                inst = rng.choice(live_now[:1] if rng.random() < 0.3 else live_now)
                app.set(inst, rng.randrange(len(inst.values)), rng.randrange(50))
                log.append(("set", inst.path))
                y = rng.random()
                if y < 0.3:
                    for _ in range(rng.choice([0, 1, 2, 3])):
                        await asyncio.sleep(0)
                elif y < 0.6:
                    await asyncio.sleep(rng.choice([0.001, 0.02, 0.2]))
            await vloop.quiesce(lambda: (app.renders, res.counts["updates"]))
            for i in before:
                if i.unmounted and any(i.path[:len(pth)] == pth and pth != i.path for pth, _ in app.failed_at):
                    res.counts["unmounted_by_failure"] += 1
    finally:
        C.REACTPY_DEBUG.current = False
        err = await s.stop()
    if err is not None:
        res.bad("session-end-raised", repr(err))
    for inst in app.instances:
        if inst.mounted != inst.unmounted:
            res.bad("mounts", f"after the end: instance {inst.id} mounted {inst.mounted}, unmounted {inst.unmounted}")
    res.done((p["seed"], log), errors and res.counts["healed"], {"log": log[:14]})
