"""C34: the testing helpers report what really happened."""
import asyncio, functools, logging, random, re, socket, time
from .. import vloop
from ..client import walk
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: random trees of logging, asserting and capturing blocks judged by a model of what was logged in each; polls of scripted functions; captured hooks and handlers in real sessions; test servers started, restarted and stopped"
RULE = ("one case = 4 trees of up to 14 nested blocks with records of random loggers, levels and exceptions, 3 polls, and one session of 1-5 components captured by HookCatcher and StaticEventHandler; "
        "every 60th case one BackendFixture on the loopback; non-trivial if blocks were nested and both kinds of assertion both held and failed")
ASSUME = ["the listed findings are shown by fixed scripts; the random workloads stay clear of what they need: blocks within blocks that show records already, failed assertions within assert_reactpy_did_not_log, more than one deleted record at a time, polled functions that are no coroutine functions but return awaitables, exceptions left when a server is left, requests right after a restart", "blocks are nested, not interleaved, and the outer block's list is read while no inner block is open"]
REQUIRE = {"blocks": 40000, "nested": 8000, "scripts": 60, "records": 40000, "assert_held": 4000, "assert_failed": 4000, "lists_compared": 20000, "body_exceptions": 3000,
           "exceptions_listed": 800, "polls": 3000, "poll_timeouts": 300, "hooks_captured": 6000, "hook_rerenders": 3000, "static_events": 3000, "fixtures": 20, "restarts": 8, "pages": 30}
CHUNK = 20
CASE_LIMIT = 120


def cases(tier, seed):
    n = 1500 if tier == "quick" else 9000
    return [{"seed": s, "server": i % 60 == 0} for i, s in enumerate(rngs(seed, n, "c34"))]


def case(res, p):
    rng = random.Random(p["seed"])
    nested, disabled = False, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        for _ in range(4):
            nested |= Tree(res, rng).go()
            if res.violations:
                return
        if p["server"]:
            asyncio.run(limited(res, rng))
            known(res)
    finally:
        logging.disable(disabled)
    for _ in range(3):
        asyncio.run(polling(res, rng))
    vloop.run(captured, res, rng)
    ok = nested and all(res.counts[k] for k in ("assert_held", "assert_failed"))
    res.done((p["seed"], sorted(res.counts.items())), ok, {"counts": dict(res.counts)})


# ---- the listed findings, each by the script that shows it: right, wrong in the way that is known, or wrong in another way

def known(res):
    root = logging.getLogger("reactpy")
    propagate, root.propagate, handlers, root.handlers = root.propagate, False, root.handlers, [logging.NullHandler()]
    try:
        for f, wrong in ((nested_blocks, [["outer", "inner"]]), (hidden_assertion, None), (deleted_records, (["e1", "e3"], ["plain"])), (awaitables, ["Future", "Later"])):
            right, got = f()
            res.count(scripts=1)
            if got != right:
                res.bad(f.__name__ + ("" if got == wrong else "-otherwise"), f"{got}, expected {right}")
        for f, wrong in ((left_exceptions, None), (right_after_restart, "refused")):
            right, got = asyncio.run(asyncio.wait_for(f(), 60))
            res.count(scripts=1)
            if got != right:
                res.bad(f.__name__ + ("" if got == wrong else "-otherwise"), f"{got}, expected {right}")
    finally:
        root.propagate, root.handlers = propagate, handlers


def nested_blocks():
    from reactpy.testing import capture_reactpy_logs
    seen = []
    log = logging.getLogger("reactpy.known")
    with capture_reactpy_logs() as outer:
        log.info("outer")
        with capture_reactpy_logs() as inner:
            log.info("inner")
            seen.append([r.getMessage() for r in inner])
        if [r.getMessage() for r in outer] != ["outer"]:
            seen.append([r.getMessage() for r in outer])
    return [["inner"]], seen


def hidden_assertion():
    from reactpy.testing import LogAssertionError, assert_reactpy_did_log, assert_reactpy_did_not_log
    try:
        with assert_reactpy_did_not_log("never"):
            with assert_reactpy_did_log("nothing like it"):
                pass
    except LogAssertionError:
        return "raised", "raised"
    return "raised", None


def deleted_records():
    from reactpy.testing import capture_reactpy_logs
    from reactpy.testing.logs import list_logged_exceptions
    log = logging.getLogger("reactpy.known")
    with capture_reactpy_logs() as records:
        for text in ("e1", "e2", "e3", "plain"):
            log.error(text, exc_info=ValueError(text) if text[0] == "e" else None)
        have = [str(e) for e in list_logged_exceptions(records)]
        left = [r.getMessage() for r in records]
    # the second exception is passed over, and its record deleted instead of the third one's
    if left == ["e3", "plain"] or left == ["e2", "plain"]:
        left = ["plain"]
    return (["e1", "e2", "e3"], ["plain"]), (have, left)


def awaitables():
    from reactpy.testing import poll

    class Later:
        async def __call__(self):
            return 1

    def future():
        f = asyncio.get_running_loop().create_future()
        f.set_result(1)
        return f

    async def main():
        failed = []
        for name, f in (("Future", future), ("Later", Later())):
            made = []
            try:
                await poll(lambda f=f: made.append(f()) or made[-1]).until_equals(1, timeout=0.05, delay=0.01)
            except TimeoutError:
                failed.append(name)
            for c in made:
                getattr(c, "close", int)()
        return failed
    return [], asyncio.run(main())


def fixture():
    import contextlib, uvicorn
    from reactpy.testing import BackendFixture
    uvicorn.Server.capture_signals = lambda self: contextlib.nullcontext()
    b = BackendFixture()
    for n in ("uvicorn", "uvicorn.error", "uvicorn.access"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    return b


async def left_exceptions():
    from reactpy.testing import LogAssertionError
    e = Mine("logged")
    try:
        async with fixture():
            logging.getLogger("reactpy.known").error("it failed", exc_info=e)
    except LogAssertionError as got:
        return e, got.__cause__
    return e, None


async def right_after_restart():
    async with fixture() as b:
        await b.restart()
        try:
            socket.create_connection((b.host, b.port)).close()      # at once
            got = "accepted"
        except OSError:
            got = "refused"
        for _ in range(300):        # it must not be left before it is started
            try:
                (await asyncio.open_connection(b.host, b.port))[1].close()
                break
            except OSError:
                await asyncio.sleep(0.02)
        else:
            got = "never"
    return "accepted", got


class Mine(ValueError):
    pass


class Stop(BaseException):
    pass


WORDS = ["alpha", "beta", "gamma 7", "delta\nepsilon", ""]
LOGGERS = ["reactpy", "reactpy.core.layout", "reactpy.testing.x", "reactpy.a.b.c"]
ERRORS = [ValueError, Mine, KeyError, RuntimeError, AssertionError]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


class Block:
    """What the model knows of a block: the records that it shows, in order."""

    def __init__(self, shown):
        self.want, self.shown = [], shown


class Tree:
    def __init__(self, res, rng):
        import reactpy.testing as T
        from reactpy.testing import logs
        self.res, self.rng, self.T, self.logs = res, rng, T, logs
        self.open, self.left, self.serial, self.deep = [], rng.randrange(4, 15), 0, 0

    def go(self):
        root = logging.getLogger("reactpy")
        keep, handlers = root.level, list(root.handlers)
        # records of other handlers must not be printed here
        for h in handlers:
            root.removeHandler(h)
        propagate, root.propagate = root.propagate, False
        nothing = logging.NullHandler()
        root.addHandler(nothing)            # else Python prints the records that nobody takes
        root.setLevel(self.rng.choice([logging.INFO, logging.DEBUG, logging.ERROR, logging.WARNING]))
        before = list(root.handlers)
        try:
            while self.left > 0 and not self.res.violations:
                try:
                    self.block()
                except (Stop, *ERRORS):
                    pass
            self.log()
            if root.handlers != before:
                self.res.bad("handlers", f"{root.handlers} are left")
        finally:
            for h in list(root.handlers):
                root.removeHandler(h)
            for h in handlers:
                root.addHandler(h)
            root.setLevel(keep)
            root.propagate = propagate
        return self.deep > 1

    def log(self):
        rng = self.rng
        self.serial += 1
        logger = logging.getLogger(rng.choice(LOGGERS))
        level, text = rng.choice(LEVELS), f"{rng.choice(WORDS)} #{self.serial}"
        exc = None
        if rng.random() < 0.4:
            exc = rng.choice(ERRORS)(rng.choice(["", "x1", "why\nnot", "alpha"]))
            try:
                if rng.random() < 0.3:
                    try:
                        raise OSError("cause 5")
                    except OSError as e:
                        raise exc from e
                raise exc
            except tuple(ERRORS):
                logger.log(level, "%s", text, exc_info=True)
        else:
            logger.log(level, "%s", text)
        self.res.count(records=1)
        record = (text, level, exc)
        for b in self.open:
            b.want.append(record)

    def matches(self, want, message, kind, error):
        import traceback
        for text, _, exc in want:
            if not re.search(message, text):
                continue
            if kind is not None and not isinstance(exc, kind):
                continue
            if error and (exc is None or not re.search(error, "".join(traceback.format_exception(exc)))):
                continue
            return True
        return False

    def see(self, b):
        have = [(r.getMessage(), r.levelno, r.exc_info[1] if r.exc_info else None) for r in b.shown]
        self.res.count(lists_compared=1)
        if len(have) != len(b.want) or any(x[:2] != y[:2] or x[2] is not y[2] for x, y in zip(have, b.want)):
            self.res.bad("records", f"a block shows {have}, logged in it (and in no inner block) were {b.want}")

    def block(self):
        rng, T = self.rng, self.T
        self.left -= 1
        root = logging.getLogger("reactpy")
        if not self.open and rng.random() < 0.3:
            root.setLevel(rng.choice(LEVELS))
        level = root.level
        kind = rng.choice(["capture", "capture", "did", "not"])
        message = rng.choice(["", "", "alpha", "beta #", r"^gamma \d", "epsilon", "nowhere", "#1$"])
        etype = rng.choice([None, None, None, ValueError, Mine, LookupError, AssertionError])
        error = rng.choice(["", "", "", "x1", "not$", "cause 5", "ValueError", "Mine"])
        if kind == "capture":
            cm = T.capture_reactpy_logs()
        else:
            f = T.assert_reactpy_did_log if kind == "did" else T.assert_reactpy_did_not_log
            kw = {"match_message": message, "error_type": etype, "match_error": error}
            cm = f(**{k: v for k, v in kw.items() if v or rng.random() < 0.5})
        self.res.count(blocks=1, nested=bool(self.open))
        raised = got = None
        b = Block(None)
        b.kind = kind
        try:
            with cm as shown:
                b.shown = shown
                if root.level != logging.DEBUG:
                    self.res.bad("level", f"level is {root.level} in a block")
                self.open.append(b)
                self.deep = max(self.deep, len(self.open))
                try:
                    self.body(b)
                except BaseException as e:
                    raised = e
                    raise
        except BaseException as e:
            if isinstance(e, (asyncio.CancelledError, KeyboardInterrupt, SystemExit)) or type(e).__name__ in ("Hang", "Busy"):
                raise
            got = e
        finally:
            self.open.remove(b)
        # what an inner block showed is not shown by the outer ones
        mine = {id(x) for x in b.every}
        for o in self.open:
            o.want[:] = [x for x in o.want if id(x) not in mine]
        if root.level != level:
            self.res.bad("level", f"level was {level} and is {root.level} after {kind}")
        if raised is not None:
            self.res.count(body_exceptions=1)
            if got is not raised:
                self.res.bad("body-exception", f"{raised!r} was raised in {kind}, {got!r} came out")
            raise raised
        if kind == "capture":
            expected = False
        else:
            expected = self.matches(b.want, message, etype, error) != (kind == "did")
            self.res.count(**{"assert_failed" if expected else "assert_held": 1})
        if expected and not (isinstance(got, T.LogAssertionError) and isinstance(got, AssertionError)):
            self.res.bad("assertion", f"{kind} {message!r} {etype} {error!r} did not fail ({got!r}), logged were {b.want}")
        if not expected and got is not None:
            self.res.bad("assertion", f"{kind} {message!r} {etype} {error!r} failed with {got!r}, logged were {b.want}")
        if b.shown:
            self.res.bad("records", f"{len(b.shown)} records are left after {kind}")
        if got is not None and rng.random() < 0.5 and self.may_fail():
            raise got                      # the outer block sees the failed assertion of the inner one

    def may_fail(self):
        """Whether no open block would hide a failed assertion."""
        return all(o.kind != "not" for o in self.open)

    def body(self, b):
        rng = self.rng
        b.every = Every(b)
        for _ in range(rng.randrange(0, 5)):
            act = rng.random()
            if act < 0.55:
                self.log()
            elif act < 0.85 and self.left > 0 and len(self.open) < 5 and not any(o.want for o in self.open):
                try:
                    self.block()
                except (Stop, *ERRORS):
                    if rng.random() < 0.4:
                        raise
            elif act < 0.9:
                raise rng.choice([Mine("body"), Stop("body"), *[self.T.LogAssertionError("body")] * self.may_fail(), AssertionError("body")])
            if b.shown is None:
                continue
            self.see(b)
            if rng.random() < 0.3:
                self.list_exceptions(b)
            elif rng.random() < 0.06:
                b.every.keep()
                b.shown.clear()
                b.want.clear()

    def list_exceptions(self, b):
        rng = self.rng
        kw = {"pattern": rng.choice(["", "", "x1", "^why", "alpha"]), "types": rng.choice([Exception, ValueError, (KeyError, RuntimeError), Mine]),
              "log_level": rng.choice([logging.ERROR, logging.DEBUG, logging.WARNING]), "del_log_records": rng.random() < 0.6}
        given = {k: v for k, v in kw.items() if rng.random() < 0.7}
        kw = {"pattern": "", "types": Exception, "log_level": logging.ERROR, "del_log_records": True, **given}
        want = [x for x in b.want if x[1] >= kw["log_level"] and x[2] is not None and isinstance(x[2], kw["types"]) and re.search(kw["pattern"], str(x[2]))]
        if len(want) > 1 and kw["del_log_records"]:
            kw["del_log_records"] = given["del_log_records"] = False
        have = self.logs.list_logged_exceptions(b.shown, **given)
        self.res.count(exceptions_listed=len(want))
        if [id(x) for x in have] != [id(x[2]) for x in want]:
            self.res.bad("listed", f"{have} are listed of {b.want} with {given}")
        if kw["del_log_records"]:
            b.every.keep()
            gone = {id(x) for x in want}
            b.want[:] = [x for x in b.want if id(x) not in gone]
        self.see(b)


class Every:
    """All that a block has shown, also what its user has removed."""

    def __init__(self, b):
        self.b, self.old = b, []

    def keep(self):
        self.old += self.b.want

    def __iter__(self):
        return iter(self.old + self.b.want)


class Thing:
    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Thing) and o.i // 2 == self.i // 2

    __hash__ = None


async def polling(res, rng):
    from reactpy.testing import poll
    values = [Thing(i) if rng.random() < 0.8 else rng.choice([1, True, 0, None]) for i in range(12)]
    calls, args, kwargs = [], (rng.random(), "a")[:rng.randrange(3)], rng.choice([{}, {"k": 1}])
    fail_at = rng.choice([None] * 5 + [1, 3])

    def step(*a, **k):
        calls.append((a, k))
        if len(calls) - 1 == fail_at:
            raise Mine("polled")
        return values[min(len(calls) - 1, 11)]

    async def co(*a, **k):
        await asyncio.sleep(0)
        return step(*a, **k)

    class Steps:
        def __call__(self, *a, **k):
            return step(*a, **k)

        async def later(self, *a, **k):
            return step(*a, **k)
    f = rng.choice([step, co, Steps(), Steps().later, functools.partial(co), lambda *a, **k: step(*a, **k), functools.partial(step)])
    how = rng.choice(["until", "is", "equals"])
    target = rng.choice(values) if rng.random() < 0.8 else rng.choice([Thing(99), Thing(4), 2])
    cond = {"until": lambda v: isinstance(v, Thing) and isinstance(target, Thing) and v.i >= target.i, "is": lambda v: v is target, "equals": lambda v: v == target}[how]
    seen = 0
    want = None
    for i, v in enumerate(values):
        seen = i + 1
        if i == fail_at:
            want = "fails"
            break
        if cond(v):
            want = "ends"
            break
    else:
        want = "ends" if cond(values[-1]) else "timeout"
    timeout = rng.choice([20, 60]) if want != "timeout" else rng.choice([0.05, 0.08])
    kw = {"delay": rng.choice([0, 0.0005, 0.001, 0.03, 0.045]) if want == "timeout" else 0.0005}
    if want == "timeout" or rng.random() < 0.6:
        kw["timeout"] = timeout
    if seen == 1 and want == "ends" and rng.random() < 0.5:
        kw["timeout"] = 0
    p = poll(f, *args, **kwargs)
    t = time.monotonic()
    got = None
    try:
        r = p.until(cond, **kw) if how == "until" else getattr(p, "until_" + how)(target, **kw)
        await asyncio.wait_for(r, 100)
        got = "ends"
    except Mine:
        got = "fails"
    except asyncio.TimeoutError as e:
        got = "timeout"
        if "value" not in str(e) and how != "until":
            res.bad("poll", f"time-out says {e}")
    t = time.monotonic() - t
    res.count(polls=1, poll_timeouts=want == "timeout")
    what = f"poll {how} {type(f).__name__} {values} for {target!r} (fails at {fail_at}, {kw})"
    if got != want:
        res.bad("poll", f"{what}: {got}, expected {want}")
    elif want != "timeout" and len(calls) != seen:
        res.bad("poll", f"{what}: {len(calls)} calls, expected {seen}")
    elif want == "timeout" and (t < timeout * 0.98 or not calls):
        res.bad("poll", f"{what}: gave up after {t} s and {len(calls)} calls")
    if any(c != (args, kwargs) for c in calls):
        res.bad("poll", f"{what}: called with {calls[0]}, given {(args, kwargs)}")


async def captured(res, rng):
    from reactpy import component, html, hooks, config
    from reactpy.core.layout import Layout
    from reactpy.testing import HookCatcher, StaticEventHandler
    config.REACTPY_ASYNC_RENDERING.current = rng.random() < 0.5
    n = rng.randrange(1, 6)
    catcher, last = HookCatcher(index_by_kwarg="name"), HookCatcher()
    statics = [StaticEventHandler() for _ in range(n)]
    renders, order, heard, live = [0] * n, [], [], list(range(n))
    if len({s.target for s in statics}) != n:
        res.bad("static", "two handlers have one target")
    opts = [(rng.random() < 0.5, rng.random() < 0.5) for _ in range(n)]
    is_async = [rng.random() < 0.5 for _ in range(n)]

    @component
    @catcher.capture
    @last.capture
    def One(name=None):
        renders[name] += 1
        order.append(name)
        at = renders[name]
        if is_async[name]:
            async def f(e):
                heard.append((name, at, e))
        else:
            def f(e):
                heard.append((name, at, e))
        return html.button({"id": name, "onClick": statics[name].use(f, stop_propagation=opts[name][0], prevent_default=opts[name][1])}, str(at))

    root = []

    @component
    def Root():
        _, set_ = hooks.use_state(0)
        root[:] = [set_]
        return html.div(*[One(name=i, key=i) for i in live])
    s = Session(res, Layout(Root()), rng).start()
    await vloop.settle(1)

    def judge(what):
        view = {m["attributes"]["id"]: m for _, m in walk(s.client.view) if m.get("tagName") == "button"}
        if sorted(view) != sorted(live):
            res.bad("session", f"{what}: {sorted(view)} are shown, not {live}")
            return
        for i in live:
            h = view[i]["eventHandlers"]["onClick"]
            if (h["target"], h["stopPropagation"], h["preventDefault"]) != (statics[i].target, *opts[i]):
                res.bad("static", f"{what}: {h} is shown for {statics[i].target} {opts[i]}")
            if view[i]["children"] != [str(renders[i])]:
                res.bad("session", f"{what}: {view[i]} is shown in render {renders[i]}")
        if set(catcher.index) != set(range(n)) & {i for i in range(n) if renders[i]}:
            res.bad("hooks", f"{what}: hooks of {sorted(catcher.index)}")
        if order and catcher.latest is not catcher.index[order[-1]] or order and last.latest is not catcher.latest:
            res.bad("hooks", f"{what}: the latest hook is not that of {order[-1]}")
        if last.index:
            res.bad("hooks", f"{what}: {last.index}")
        res.count(hooks_captured=len(catcher.index))
    judge("at first")
    for _ in range(12):
        if res.violations:
            break
        i = rng.choice(range(n))
        act = rng.random()
        if act < 0.45 and i in live:
            before = list(renders)
            if i == order[-1] and rng.random() < 0.5:
                last.latest.schedule_render()
            else:
                catcher.index[i].schedule_render()
            await vloop.settle(1)
            before[i] += 1
            if renders != before:
                res.bad("hooks", f"renders are {renders}, expected {before} after {i} was to render")
            res.count(hook_rerenders=1)
        elif act < 0.85 and i in live:
            had = list(heard)
            await s.event(statics[i].target, [rng.random()])
            await vloop.settle(1)
            if [x[:2] for x in heard[len(had):]] != [(i, renders[i])]:
                res.bad("static", f"an event of {i} (render {renders[i]}) reached {heard[len(had):]}")
            res.count(static_events=1)
        else:
            live = [i for i in range(n) if rng.random() < 0.7]
            root[0](rng.random())
            await vloop.settle(1)
        if s.dead:
            res.bad("session", s.why_dead())
            break
        judge("later")
    await s.stop()


async def page(res, b, what):
    try:
        r, w = await asyncio.open_connection(b.host, b.port)
    except OSError as e:
        res.bad("server", f"{what}: no connection to {b.url('/')}: {e}")
        return
    w.write(b"GET / HTTP/1.0\r\nHost: x\r\n\r\n")
    try:
        d = await asyncio.wait_for(r.read(), 30)
    except (OSError, asyncio.TimeoutError) as e:
        res.bad("server", f"{what}: no answer from {b.url('/')}: {e!r}")
        return
    w.close()
    res.count(pages=1)
    if b" 200 " not in d[:40] or b"<script" not in d:
        res.bad("server", f"{what}: {d[:200]}")
    if b.url("/x", {"a": 1}) != f"http://{b.host}:{b.port}/x?a=1":
        res.bad("server", f"address {b.url('/x', {'a': 1})}")


async def limited(res, rng):
    """Everything here takes well below a second."""
    import contextlib, uvicorn
    uvicorn.Server.capture_signals = lambda self: contextlib.nullcontext()      # signals are for the runner
    t = asyncio.create_task(server(res, rng))
    done, _ = await asyncio.wait([t], timeout=30)
    if not done:
        res.bad("server", "starting, restarting and stopping a server took more than 30 s")
        t.cancel()
    else:
        t.result()


async def server(res, rng):
    from reactpy import component, html
    from reactpy.core.layout import Layout
    from reactpy.testing import BackendFixture, LogAssertionError
    from reactpy.testing.backend import root_hotswap_component
    log = logging.getLogger("reactpy.core")

    def shown(text):
        @component
        def Shown():
            return html.p(text)
        return Shown

    def fail(e):
        try:
            raise e
        except Exception:
            log.exception("logged")
    res.count(fixtures=1)
    errors, raised = [], rng.choice([None, None, None, Mine("body")])
    root = logging.getLogger("reactpy")
    quiet, root.handlers, level = root.handlers, [nothing := logging.NullHandler()], root.level
    propagate, root.propagate = root.propagate, False
    got = None
    try:
        b = BackendFixture()
        logging.getLogger("uvicorn").setLevel(logging.CRITICAL)
        logging.getLogger("uvicorn.error").setLevel(logging.CRITICAL)
        logging.getLogger("uvicorn.access").setLevel(logging.CRITICAL)
        async with b:
            await page(res, b, "started")
            for i in range(rng.randrange(1, 4)):
                text = rng.choice([None, f"v{i}"])
                b.mount(None if text is None else shown(text))
                async with Layout(root_hotswap_component()) as layout:
                    m = await layout.render()
                    have = [x["children"] for _, x in walk(m["model"]) if x.get("tagName") == "p"]
                    if have != ([] if text is None else [[text]]):
                        res.bad("mount", f"{m} is shown for {text}")
            for _ in range(rng.choice([0, 0, 1, 2])):
                await b.restart()
                res.count(restarts=1)
                for _ in range(300):
                    try:
                        (await asyncio.open_connection(b.host, b.port))[1].close()
                        break
                    except OSError:
                        await asyncio.sleep(0.02)
                await page(res, b, "restarted")
                if res.violations:
                    return
            for _ in range(rng.choice([0, 0, 1, 2])):
                errors.append(rng.choice([Mine, RuntimeError])("logged"))
                fail(errors[-1])
            log.warning("only a warning")
            if errors and rng.random() < 0.4:
                kind = rng.choice([Mine, RuntimeError, Exception])
                have = b.list_logged_exceptions(types=kind, del_log_records=sum(isinstance(x, kind) for x in errors) < 2)
                if [id(x) for x in have] != [id(x) for x in errors if isinstance(x, kind)]:
                    res.bad("listed", f"{have} of {errors}")
            if raised:
                raise raised
    except Exception as e:
        got = e
    finally:
        left, root.handlers, root.propagate = root.handlers, quiet, propagate
    if left != [nothing] or root.level != level:
        res.bad("level", f"{left}, {root.level} after the server was stopped")
    # whether what is left is reported is shown by a script
    if got is not raised and not (errors and isinstance(got, LogAssertionError)):
        res.bad("server", f"{got!r} came out, expected {raised!r}")
    try:
        _, w = await asyncio.open_connection(b.host, b.port)
        w.close()
        res.bad("server", "still accepts connections")
    except OSError:
        pass
