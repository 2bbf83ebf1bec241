"""C20: configuration options always report the value in force."""
import importlib.util, os, pathlib, random, warnings
from ..common import rngs

TECHNIQUE = "runtime monitoring: random histories on real options (alone, in parent-child trees and the framework's own), every read, error and subscriber call compared with an independent model after every step"
RULE = ("one case = one tree of 1-5 options (validators that convert, reject or normalise; defaults, parents, mutability, environment) and 40 operations, "
        "or one load of the framework's options under a random environment; non-trivial if values were rejected, passed on by a parent or removed")
ASSUME = ["a child's default is its parent's default and removing a child's value restores that default, as documented for `unset`",
          "subscribers do not fail and do not set the option they watch", "options are used from one thread"]
REQUIRE = {"ops": 120000, "rejected": 8000, "notified": 15000, "from_parent": 5000, "env_loads": 1500, "env_children": 300, "reloads": 5000, "immutable_refusals": 1500, "set_defaults": 4000, "late_subscribers": 100}
CHUNK = 40


def cases(tier, seed):
    n = 24000 if tier == "quick" else 600000
    return [{"seed": s, "kind": "config" if i % 8 == 0 else "tree"} for i, s in enumerate(rngs(seed, n, "c20"))]


TRUE, FALSE = ("true", "1"), ("false", "0")


class Reject(Exception):
    pass


def m_bool(v):
    if isinstance(v, (bool, int)):
        return bool(v)
    if not isinstance(v, str):
        raise Reject
    if v.lower() in TRUE:
        return True
    if v.lower() in FALSE:
        return False
    raise Reject


def m_conv(t):
    def f(v):
        try:
            return t(v)
        except (ValueError, TypeError, OverflowError):
            raise Reject from None
    return f


def even(v):
    v = int(v)
    if v % 2:
        raise ValueError("odd")
    return v


def norm(v):
    return str(v).strip().lower()


def typed(v):
    if not isinstance(v, str):
        raise TypeError("not a string")
    if not v:
        raise ValueError("empty")
    return v + "!" if not v.endswith("!") else v


VALUES = [0, 1, 2, 3, -1, 7.5, "0", "1", "TRUE", "False", "no", "", " x ", "X", "4", "9", "1e3", "inf", None, True, False, (), (1, 2), "a!", "\u00e9", 10 ** 20, "None", b"1", "1000000000000000000001"]


def run_bool():
    from reactpy.config import boolean
    return boolean


def case(res, p):
    rng = random.Random(p["seed"])
    saved = dict(os.environ)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (config_case if p["kind"] == "config" else tree_case)(res, rng, p)
    finally:
        for k in set(os.environ) - set(saved):
            del os.environ[k]
        for k, v in saved.items():
            if os.environ.get(k) != v:
                os.environ[k] = v


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


class Model:
    def __init__(self, name, default, mutable, val, parent):
        self.name, self.default, self.mutable, self.val, self.parent = name, default, mutable, val, parent
        self.set = False
        self.children = []
        self.subs = []
        self.value = None

    @property
    def current(self):
        return self.value if self.set else self.default

    def announce(self, old):
        if self.current != old:
            for s in list(self.subs):
                s(self.current)

    def assign(self, raw):
        """Gives 'ok' or 'rejected' or 'immutable'."""
        old = self.current
        if raw is old:
            return "ok"
        if not self.mutable:
            return "immutable"
        try:
            v = self.val(raw)
        except Reject:
            return "rejected"
        self.value, self.set = v, True
        self.announce(old)
        return "ok"

    def remove(self):
        if not self.mutable:
            return "immutable"
        old = self.current
        self.set = False
        self.announce(old)
        return "ok"


def tree_case(res, rng, p):
    from reactpy._option import Option, DeprecatedOption, UNDEFINED
    boolean = run_bool()
    kinds = [(lambda x: x, lambda x: x), (boolean, m_bool), (int, m_conv(int)), (float, m_conv(float)), (even, m_conv(even)), (norm, m_conv(norm)), (typed, m_conv(typed))]
    opts = []
    trace = []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        name = f"C20_OPT_{i}" if rng.random() < 0.9 else "C20_SHARED"
        able = [q for q in opts if q[3]]
        parent = rng.choice(able) if able and rng.random() < 0.6 else None
        odd = False
        k = parent[2] if parent else rng.randrange(len(kinds))
        real_v, model_v = kinds[k]
        default = rng.choice([v for v in VALUES])
        try:
            default = model_v(default)
            if rng.random() < 0.15:
                raise Reject        # a default need not be acceptable as a value
        except Reject:
            default, odd = None, True
        mutable = rng.random() < 0.85
        if rng.random() < 0.35:
            os.environ[name] = str(rng.choice(VALUES)).replace("\x00", "")
        else:
            os.environ.pop(name, None)
        kw = {"validator": real_v}
        if not mutable or rng.random() < 0.3:
            kw["mutable"] = mutable
        if parent:
            kw["parent"] = parent[0]
        else:
            kw["default"] = default
        want_error = None
        model = Model(name, parent[1].default if parent else default, mutable, model_v, parent and parent[1])
        if name in os.environ:
            try:
                model.value, model.set = model_v(os.environ[name]), True
            except Reject:
                want_error = True
        if parent and not (mutable and parent[1].mutable):
            want_error = True
        if parent and not want_error and not model.set:
            model.assign(parent[1].current) == "rejected" and (want_error := True)
        what = f"Option({name}, env {os.environ.get(name)!r}, {kw}, {'child of ' + parent[1].name if parent else ''})"
        trace.append(what)
        dep = rng.random() < 0.1
        try:
            o = DeprecatedOption(name, message="old", **kw) if dep else Option(name, **kw)
        except (ValueError, TypeError) as e:
            if not want_error:
                res.bad("creation-failed", f"{what}: {e!r}")
            if parent and parent[1].mutable:
                return res.done(p["seed"], False)    # a half-made child may listen to its parent
            continue
        if want_error:
            res.bad("creation-accepted", f"{what}: reads {o.current!r}")
            return
        if parent:
            res.counts["env_children"] += name in os.environ
            m = model

            def passed(v, m=m):
                res.counts["from_parent"] += 1
                m.assign(v)
            parent[1].subs.append(passed)
        if o.name != name or o.mutable is not mutable or not same(o.default, model.default):
            res.bad("attributes", f"{what}: {o.name} {o.mutable} {o.default!r}")
        opts.append((o, model, k, parent[3] if parent else not odd))
    if not opts:
        return res.done(p["seed"], False)
    seen, want = {}, {}
    rejected = moved = 0

    def check(what):
        for i, (o, m, *_) in enumerate(opts):
            cur = o.current
            if not same(cur, m.current):
                res.bad("wrong-value", f"{trace} {what}: {m.name} reads {cur!r} instead of {m.current!r}")
            if not same(o.default, m.default):
                res.bad("default-changed", f"{trace} {what}: {o.default!r} instead of {m.default!r}")
            if m.set and not same(m.value, m.default) and not o.is_set() or not m.set and o.is_set():
                res.bad("is-set", f"{trace} {what}: {m.name} is_set() is {o.is_set()}")
            if repr(m.current) not in repr(o) or m.name not in repr(o):
                res.bad("repr", f"{what}: {o!r}")
        if seen != want:
            res.bad("subscribers", f"{trace} {what}: subscribers saw {seen} instead of {want}")

    check("creation")
    for step in range(40):
        if res.violations:
            break
        res.counts["ops"] += 1
        o, m, *_ = rng.choice(opts)
        op = rng.choice(["set", "set", "set", "set", "assign", "unset", "del", "reload", "set_default", "subscribe", "env", "again"])
        v = rng.choice(VALUES)
        if rng.random() < 0.1:
            v = rng.choice([m.current, m.default])
        if op == "again":
            v, op = o.current, "set"
        err = None
        try:
            if op == "set":
                o.set_current(v)
            elif op == "assign":
                o.current = v
            elif op == "unset":
                o.unset()
            elif op == "del":
                del o.current
            elif op == "reload":
                o.reload()
            elif op == "set_default":
                got = o.set_default(v)
            elif op == "subscribe":
                key = f"{m.name}/{step}"
                nested = m.mutable and rng.random() < 0.15
                made = []

                def sub(x, key=key, nested=nested, o=o, made=made):
                    seen.setdefault(key, []).append(x)
                    res.counts["notified"] += 1
                    if nested and len(seen[key]) == 2 and not made:
                        made.append(1)
                        res.counts["late_subscribers"] += 1
                        o.subscribe(lambda y: seen.setdefault(key + "+", []).append(y))
                if o.subscribe(sub) is not sub:
                    res.bad("subscribe-result", key)
            elif op == "env":
                if rng.random() < 0.6:
                    os.environ[m.name] = str(v).replace("\x00", "")
                else:
                    os.environ.pop(m.name, None)
        except (ValueError, TypeError, OverflowError) as e:
            err = e
        what = f"step {step}: {op} {v!r} on {m.name} (env {os.environ.get(m.name)!r}, error {err!r})"
        trace.append(what)
        # the model
        out = "ok"
        if op in ("set", "assign"):
            out = m.assign(v)
        elif op in ("unset", "del"):
            out = m.remove()
            moved += out == "ok"
        elif op == "reload":
            res.counts["reloads"] += 1
            if m.name in os.environ:
                out = m.assign(os.environ[m.name])
            elif m.mutable or m.set and not same(m.current, m.default):
                out = m.remove()
        elif op == "set_default":
            res.counts["set_defaults"] += 1
            if not m.set:
                out = m.assign(v)
            if not err and not same(got, m.current):
                res.bad("set-default-result", f"{what}: {got!r} instead of {m.current!r}")
        elif op == "subscribe":
            if not m.mutable:
                out = "immutable"
            else:
                want.setdefault(key, []).append(m.current)
                made2 = []

                def wsub(x, key=key, nested=nested, m=m, made2=made2):
                    want.setdefault(key, []).append(x)
                    if nested and len(want[key]) == 2 and not made2:
                        made2.append(1)
                        want.setdefault(key + "+", []).append(x)
                        m.subs.append(lambda y: want.setdefault(key + "+", []).append(y))
                m.subs.append(wsub)
        if out == "immutable":
            res.counts["immutable_refusals"] += 1
            must = op in ("unset", "del", "subscribe") or op != "reload" and not same(v, m.current)
            if err is None and must or err is not None and not isinstance(err, TypeError):
                res.bad("immutable-changed", f"{trace[-1]}: no TypeError after {trace}")
        elif out == "rejected":
            res.counts["rejected"] += 1
            rejected += 1
            if err is None:
                res.bad("accepted", f"{trace}: no error")
        elif err is not None and not (not m.mutable and isinstance(err, TypeError) and (op == "reload" or same(v, m.current))):
            res.bad("refused", f"{trace[-1]} after {trace}")
        check(what)
    res.done(p["seed"], rejected or moved, {"options": [m.name for _, m, *_ in opts], "trace": trace[:6]})


FRAMEWORK = {"REACTPY_DEBUG": (m_bool, False), "REACTPY_CHECK_VDOM_SPEC": (m_bool, "REACTPY_DEBUG"), "REACTPY_CHECK_JSON_ATTRS": (m_bool, "REACTPY_DEBUG"),
             "REACTPY_ASYNC_RENDERING": (m_bool, None), "REACTPY_RECONNECT_INTERVAL": (m_conv(int), None), "REACTPY_RECONNECT_MAX_INTERVAL": (m_conv(int), None),
             "REACTPY_RECONNECT_MAX_RETRIES": (m_conv(int), None), "REACTPY_RECONNECT_BACKOFF_MULTIPLIER": (m_conv(float), None), "REACTPY_PATH_PREFIX": (m_conv(str), None),
             "REACTPY_MAX_QUEUE_SIZE": (m_conv(int), None), "REACTPY_TESTS_DEFAULT_TIMEOUT": (m_conv(float), None), "REACTPY_WEB_MODULES_DIR": (m_conv(pathlib.Path), None)}
GOOD = {"int": ["5", "0", " 7 ", "1_0"], "bool": ["1", "0", "true", "FALSE", "True"], "float": ["2", "1.5", "1e3"], "str": ["/x/", ""], "Path": ["/tmp/c20-none"]}


def load_config():
    import reactpy.config
    spec = importlib.util.spec_from_file_location("c20_config", reactpy.config.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def config_case(res, rng, p):
    res.counts["env_loads"] += 1
    for n in FRAMEWORK:
        os.environ.pop(n, None)
    plain = load_config()
    base = {n: getattr(plain, n).default for n in FRAMEWORK}
    env = {}
    for n in FRAMEWORK:
        if rng.random() < 0.4:
            val = FRAMEWORK[n][0]
            pool = ["1", "0", "true", "FALSE", "5", " 7 ", "1.5", "1e3", "/x/", "junk", "2"]
            ok = []
            for c in pool:
                try:
                    val(c)
                    ok.append(c)
                except Reject:
                    pass
            env[n] = rng.choice(ok) if rng.random() < 0.97 else rng.choice(pool)
    os.environ.update(env)
    bad = []
    want = {}
    for n, (val, parent) in FRAMEWORK.items():
        try:
            want[n] = val(env[n]) if n in env else want[parent] if isinstance(parent, str) else base[n]
        except Reject:
            bad.append(n)
            want[n] = None
    try:
        cfg = load_config()
    except (ValueError, TypeError) as e:
        if not bad:
            res.bad("environment-refused", f"{env}: {e!r}")
        return res.done(p["seed"], bool(bad))
    if bad:
        res.bad("environment-accepted", f"{ {n: env[n] for n in bad} } gave { {n: getattr(cfg, n).current for n in bad} }")
        return
    res.counts["env_children"] += any(isinstance(FRAMEWORK[n][1], str) for n in env)

    def check(what):
        for n, w in want.items():
            got = getattr(cfg, n).current
            if n == "REACTPY_WEB_MODULES_DIR" and n not in env and not changed:
                ok = isinstance(got, pathlib.Path)
            else:
                ok = same(got, w)
            if not ok:
                res.bad("environment", f"{env} {what}: {n} reads {got!r} instead of {w!r}")
    changed = []
    check("loaded")
    children = [n for n, (_, q) in FRAMEWORK.items() if q == "REACTPY_DEBUG"]
    for _ in range(6):
        # turning debugging on or off turns its checks on or off
        v = rng.random() < 0.5
        res.counts["ops"] += 1
        if rng.random() < 0.7:
            before = want["REACTPY_DEBUG"]
            cfg.REACTPY_DEBUG.current = v
            want["REACTPY_DEBUG"] = v
            if v != before:
                for c in children:
                    want[c] = v
                    res.counts["from_parent"] += 1
        else:
            c = rng.choice(children)
            getattr(cfg, c).current = v
            want[c] = v
        check(f"debug {v}")
    res.done(p["seed"], True, {"env": env})
