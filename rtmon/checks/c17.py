"""C17: HTTP requests are routed, answered and cached correctly (at the ASGI boundary)."""
import asyncio, email.utils, os, random, re, time
from ..common import rngs

TECHNIQUE = "runtime monitoring: every ASGI request and response of the real applications is recorded and judged by an independent model of the routes, the page and HTTP caching rules"
RULE = ("one case = one application (middleware or standalone, random path prefix, page, headers and user routes) given 40 requests of every "
        "scope type with hostile and look-alike paths and conditional headers; non-trivial if framework, user and conditional requests occurred")
ASSUME = ["paths arrive decoded in scope['path'], as ASGI defines", "conditional requests other than GET are not judged", "settings are global, so applications run one at a time"]
REQUIRE = {"requests": 60000, "to_static": 1500, "to_modules": 1500, "to_app": 15000, "to_routes": 1500, "index": 6000, "not_modified": 600, "conditional": 4000,
           "sockets": 6000, "sockets_framework": 1500, "non_ascii_pages": 300, "lookalikes": 8000, "etag_pairs": 500, "lifespans": 300, "refused_settings": 400, "tags": 200}
CHUNK = 20


def init():
    os.environ["TZ"] = "Asia/Kathmandu"
    time.tzset()


def cases(tier, seed):
    n = 7000 if tier == "quick" else 30000
    return [{"seed": s} for s in rngs(seed, n, "c17")]


PREFIXES = ["/reactpy/", "/reactpy/", "/", "/a/b/", "/r.p/", "/a+b/", "/x(y)/", "/a|b/", "/\u00e9/", "/[z]/", "/\\d/", "/$x/", "/a b/", "/a*/"]
_mods = {}


def prepare(tier, seed):
    pass


class Seen:
    def __init__(self):
        self.calls = []

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive, send))
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 299, "headers": []})
            await send({"type": "http.response.body", "body": b"user"})


def case(res, p):
    import os, shutil, tempfile, pathlib
    d = pathlib.Path(tempfile.mkdtemp(prefix="c17-"))
    try:
        asyncio.run(asyncio.wait_for(run(res, p, d), 60))
    finally:
        shutil.rmtree(d)


def lookalikes(rng, prefix):
    """Paths around those of the framework."""
    base = rng.choice([prefix, prefix, prefix, prefix.upper(), prefix[:-1], prefix + "/", "/" + prefix, prefix.replace(".", "x").replace("+", "").replace("*", "a"), "/", "/x" + prefix,
                       re.sub(r"[\[\]()\\$|]", "", prefix), prefix.strip("/").split("|")[0], "/" + prefix.strip("/").split("|")[-1] + "/"])
    tail = rng.choice(["", "static", "static/", "staticx/", "static/index.js", "static//index.js", "modules", "modules/", "modules/mod.js", "modulesx/mod.js", "Static/index.js",
                       "comp.Name", "comp.Name/", "comp.Name//", "comp.Name/\n", "/comp.Name/", "comp-Name/", "comp.Name/x/", "comp.Name/?x", "a", "a/", "_/", "./", "../", "\u00e9.Comp/",
                       "static\n", "static/index.js\n", "x/static/index.js", ".static/index.js", "comp Name/", "comp.Name/\u2028", "1/", "", "", "index.html", "page"])
    return base + tail


def classify(kind, path, prefix, standalone, routes):
    if kind == "websocket":
        if standalone:
            if path == prefix:
                return "framework"
        else:
            m = path[len(prefix):] if path.startswith(prefix) else ""
            if m.endswith("/") and m[:-1] and all(c in "._" or c.isalnum() for c in m[:-1]):
                return "framework"
    if kind == "http":
        if path.startswith(prefix + "static/"):
            return "static"
        if path.startswith(prefix + "modules/"):
            return "modules"
    for (typ, pattern), name in routes:
        if typ == kind and re.fullmatch("(?:%s)" % pattern, path):
            return name
    return "app"


async def request(app, scope, incoming=None, timeout=None):
    sent, queue = [], list(incoming if incoming is not None else [{"type": "http.request", "body": b"", "more_body": False}])

    async def receive():
        if queue:
            return queue.pop(0)
        if scope["type"] == "websocket":
            return {"type": "websocket.disconnect", "code": 1000}
        await asyncio.sleep(3600)

    async def send(m):
        sent.append(m)
    err = None
    try:
        await asyncio.wait_for(app(scope, receive, send), 20)
    except Exception as e:
        err = e
    return sent, err, receive, send


def scope_for(kind, path, method="GET", headers=()):
    s = {"type": kind, "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "path": path, "raw_path": path.encode(), "query_string": b"path=%2F", "root_path": "",
         "scheme": "http", "headers": [tuple(h) for h in headers], "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80)}
    if kind == "http":
        s["method"] = method
    if kind == "websocket":
        s["subprotocols"] = []
    if kind == "lifespan":
        s = {"type": "lifespan", "asgi": {"version": "3.0"}}
    return s


PIECES = ["plain", "\u00e9t\u00e9", "\U0001f600", "<&>", "\"q\"", "\u4e2d\u6587"]


def page(rng, res):
    from reactpy import html
    title = " ".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 3])))
    spec = {"title": title, "lang": rng.choice(["en", "de-AT", "zh-Hant"]), "body": rng.choice(["default", None, "\u00fcber " + title, "b", "hr"]), "meta": rng.random() < 0.3}

    def build():
        kw = {"html_lang": spec["lang"]}
        if spec["title"] or spec["meta"]:
            kw["html_head"] = html.head(html.title(spec["title"]), *([html.meta({"name": "d", "content": spec["title"]})] if spec["meta"] else []))
        if spec["body"] != "default":
            kw["prepend_body"] = spec["body"] and (html.hr({"id": "in-front"}) if spec["body"] == "hr" else html.p(spec["body"]))
        return kw
    if any(ord(c) > 127 for c in title) or spec["body"] and "\u00fc" in spec["body"]:
        res.counts["non_ascii_pages"] += 1
    return spec, build


def expect_text(spec):
    import html as h
    out = []
    if spec["title"]:
        out.append(h.escape(spec["title"], quote=False))
    if spec["body"] == "hr":
        out.append('<hr id="in-front"')
    elif spec["body"] not in ("default", None):
        out.append(h.escape(spec["body"], quote=False))
    return out


async def run(res, p, d):
    import reactpy.config as C
    from reactpy import component, html
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    rng = random.Random(p["seed"])
    prefix = rng.choice(PREFIXES)
    (d / "mod.js").write_bytes(b"export const a = 1;\n")
    standalone = rng.random() < 0.6
    app_seen = Seen()
    routes, seen = [], {}
    settings = {"path_prefix": prefix, "web_modules_dir": d}
    if rng.random() < 0.2:
        # settings that cannot work are refused at once, wrong paths without any effect
        before = C.REACTPY_PATH_PREFIX.current, C.REACTPY_WEB_MODULES_DIR.current
        wrong = rng.choice([{"path_prefix": x} for x in ("", "/x", "x/", "x", "reactpy/", None, 5)] + [{"web_modules_dir": d / "missing"}, {"no_such_setting": 1}, {"reactpy_debug": True}])
        try:
            ReactPyMiddleware(app_seen, [], **{**settings, **wrong})
            res.bad("setting-accepted", f"{wrong}")
        except (ValueError, TypeError, AttributeError):
            res.count(refused_settings=1)
        if not {"path_prefix", "web_modules_dir"}.isdisjoint(wrong) and before != (C.REACTPY_PATH_PREFIX.current, C.REACTPY_WEB_MODULES_DIR.current):
            res.bad("setting-kept", f"{wrong}: {C.REACTPY_PATH_PREFIX} {C.REACTPY_WEB_MODULES_DIR}")
    if rng.random() < 0.1:
        # nor does the template tag take arguments it does not know
        import jinja2
        env = jinja2.Environment(extensions=["reactpy.templatetags.ReactPyJinja"])
        known = rng.random() < 0.4
        extra = rng.choice(["", ', class="x"']) if known else rng.choice([', foo="x"', ', klass="x", class="y"', ', key="1"'])
        try:
            out = env.from_string("{% component \"c17comp.Name\"" + extra + " %}").render()
            if not known:
                res.bad("tag-argument-accepted", f"{extra}: {out!r}")
            elif "c17comp.Name" not in out:
                res.bad("tag-output", f"{extra}: {out!r}")
        except (ValueError, TypeError) as e:
            if known:
                res.bad("tag-refused", f"{extra}: {e!r}")
        res.count(tags=1)
    for k in list(settings):
        # the application may leave it to the configuration (or the environment)
        if rng.random() < 0.2:
            getattr(C, f"REACTPY_{k.upper()}").current = settings.pop(k)
            res.count(configured=1)

    @component
    def Comp():
        return html.p("x")
    if not standalone:
        import types, sys
        m = types.ModuleType("c17comp")
        m.Name = Comp
        sys.modules["c17comp"] = m
        app = ReactPyMiddleware(app_seen, ["c17comp.Name"], **settings)
        spec = None
    else:
        spec, build = page(rng, res)
        extra = {}
        if rng.random() < 0.4:
            extra = {rng.choice(["X-Test", "x-test", "Cache-Control", "cache-control", "Access-Control-Allow-Origin"]): "v", **rng.choice([{}, {}, {"Content-Type": "text/html; charset=x"}])}
        app = ReactPy(Comp, http_headers=dict(extra) if extra else None, **build(), **settings)
        pats = rng.sample(["/example/", "/a|/b", "/n/[0-9]+", "/(x|y)z", "^/full$", "/p\\$", "/page", "/a/.*", prefix.replace("\\", "") and "/zz/\\d", "(?i:/ci)", "/m\\n?"], rng.choice([0, 2, 4]))
        for pat in pats:
            typ = rng.choice(["http", "http", "websocket"])
            s = Seen()
            app.route(pat, typ)(s) if typ != "http" or rng.random() < 0.5 else app.route(pat)(s)
            seen[pat] = s
            routes.append(((typ, pat), pat))
        life = None
        if rng.random() < 0.4:
            life = Seen()
            app.lifespan(life)
    last = None
    kinds = set()
    for _ in range(40):
        kind = rng.choice(["http", "http", "http", "http", "websocket", "lifespan"] if rng.random() < 0.3 else ["http", "http", "http", "websocket"])
        path = lookalikes(rng, prefix)
        if rng.random() < 0.35 and standalone:
            path = rng.choice(["/", "/example/", "/example/x", "/a", "/ab", "/a|", "/b", "/xb", "/n/12", "/n/1x", "/xz", "/yz", "/x", "/full", "/full2", "/p$", "/p", "/page", "/page\n", "/a/b/c",
                               "/zz/5", "/zz/5\n", "/ci", "/CI", "/m", "/m\n", "/example/\n"])
        if not path.startswith("/"):
            path = "/" + path
        method = rng.choice(["GET", "GET", "GET", "HEAD", "POST", "OPTIONS"]) if kind == "http" else "GET"
        headers = [(b"host", b"h")]
        cond = None
        if kind == "http" and last and rng.random() < 0.5:
            cond = conditional(rng, last, headers)
        res.counts["requests"] += 1
        want = classify(kind, path, prefix, standalone, routes) if kind != "lifespan" else "lifespan"
        scope = scope_for(kind, path, method, headers)
        before = repr(scope)
        n_app = len(app_seen.calls)
        n_seen = {k: len(s.calls) for k, s in seen.items()}
        if want == "framework":
            res.counts["sockets_framework"] += 1
        sent, err, receive, send = await request(app, scope, [{"type": "websocket.connect"}] if kind == "websocket" else None)
        what = f"{kind} {method} {path!r} prefix {prefix!r} standalone {standalone} routes {[r[0] for r in routes]}"
        if repr(scope) != before and want != "framework":
            res.bad("scope-modified", f"{what}: {before} is now {scope!r}")
        got = []
        if len(app_seen.calls) > n_app:
            got.append("app")
        got += [k for k, s in seen.items() if len(s.calls) > n_seen[k]]
        if kind == "websocket":
            res.counts["sockets"] += 1
            if want == "framework":
                if got or err or not sent or sent[0]["type"] != "websocket.accept":
                    res.bad("socket-not-taken", f"{what}: went to {got}, error {err!r}, sent {sent[:2]}")
            elif standalone and want == "app":
                if got or not isinstance(err, NotImplementedError) or sent:
                    res.bad("socket-misrouted", f"{what}: went to {got}, error {err!r}, sent {sent[:2]}")
            elif got != [want] or err or sent:
                res.bad("socket-misrouted", f"{what}: went to {got} instead of {want}, error {err!r}, sent {sent[:2]}")
        elif kind == "lifespan":
            res.counts["lifespans"] += 1
            if standalone:
                if life is not None and (len(life.calls) != 1 or life.calls.pop()[0] is not scope):
                    res.bad("lifespan", f"{what}: {len(life.calls)} calls")
                if err or got or sent:
                    res.bad("lifespan", f"{what}: {err!r} {got} {sent}")
            elif got != ["app"] or err:
                res.bad("lifespan", f"{what}: {err!r} {got}")
        elif want in ("static", "modules"):
            res.counts["to_" + want] += 1
            if got or err or not sent:
                res.bad("misrouted", f"{what}: went to {got} instead of {want}, {err!r}")
            else:
                res.counts["framework_http"] += 1
                st, body = response(res, sent, method, what)
                if want == "modules" and prefix.isascii() and "\\" not in prefix and path == prefix + "modules/mod.js" and method == "GET" and not (cond or any(k == b"if-modified-since" for k, _ in headers)) and (st["status"], body) != (200, b"export const a = 1;\n"):
                    res.bad("module-not-served", f"{what}: {st} {body[:100]!r}")
        elif want == "app" and standalone:
            res.counts["index"] += 1
            if got or err:
                res.bad("misrouted", f"{what}: went to {got} instead of the index page, {err!r}")
            else:
                last = index(res, rng, what, method, sent, spec, cond, last, extra, headers)
        else:
            res.counts["to_app" if want == "app" else "to_routes"] += 1
            if got != [want] or err:
                res.bad("misrouted", f"{what}: went to {got} instead of {want}, {err!r}")
            else:
                s = app_seen if want == "app" else seen[want]
                if s.calls[-1][0] is not scope or s.calls[-1][1] is not receive or s.calls[-1][2] is not send or sent[0].get("status") != 299 or len(sent) != 2:
                    res.bad("request-changed", f"{what}: {s.calls[-1]} {sent}")
        if want == "app":
            res.counts["lookalikes"] += 1
        kinds.add(want)
        if res.violations:
            break
    if standalone and last and not res.violations:
        res.counts["etag_pairs"] += 1
        other = ReactPy(Comp, **build(), **settings)
        sent, *_ = await request(other, scope_for("http", "/nowhere"))
        et = dict(sent[0]["headers"])[b"etag"]
        if (et == last["etag"]) != (sent[1]["body"] == last["body"]):
            res.bad("etag", f"the etag is {'the same' if et == last['etag'] else 'different'} for {'the same' if sent[1]['body'] == last['body'] else 'another'} page")
        spec2 = dict(spec, title=spec["title"] + rng.choice(["!", "\u00e9", " "]))
        kw = build()
        kw["html_head"] = html.head(html.title(spec2["title"]))
        sent, *_ = await request(ReactPy(Comp, **kw, **settings), scope_for("http", "/nowhere"))
        if dict(sent[0]["headers"])[b"etag"] == last["etag"] and sent[1]["body"] != last["body"]:
            res.bad("etag", "the etag is the same for another page")
    res.done(p["seed"], len(kinds) > 2, {"prefix": prefix, "standalone": standalone, "kinds": sorted(map(str, kinds))})


def response(res, sent, method, what):
    st = [m for m in sent if m["type"] == "http.response.start"]
    if len(st) != 1 or sent[0] is not st[0]:
        res.bad("protocol", f"{what}: {[m['type'] for m in sent]}")
        return {"status": 0, "headers": []}, b""
    body = b"".join(m.get("body", b"") for m in sent[1:])
    if len(sent) < 2 or sent[-1].get("more_body") or any(not m.get("more_body") for m in sent[1:-1]):
        res.bad("protocol", f"{what}: the response is not ended exactly once")
    lengths = [v for k, v in st[0]["headers"] if k.lower() == b"content-length"]
    if len(lengths) > 1 or (lengths and method != "HEAD" and st[0]["status"] not in (304,) and int(lengths[0]) != len(body)):
        res.bad("content-length", f"{what}: content-length {lengths} of {len(body)} bytes")
    return st[0], body


def conditional(rng, last, headers):
    """Adds conditional headers; gives whether the copy is current (None: not to be judged)."""
    et, lm = last["etag"], last["modified"]
    t = email.utils.parsedate_to_datetime(lm.decode()).timestamp()
    inm = rng.choice([None, None, et, b'"other"', b"W/" + et, b'"x", ' + et, b'"x",' + et + b', "y"', b"*", et[:-1] + b'x"', et.strip(b'"'), b"", b'"a,b", W/"c"', b'W/"x" , W/' + et])
    ims = rng.choice([None, None, lm, email.utils.formatdate(t + 3600, usegmt=True).encode(), email.utils.formatdate(t - 3600, usegmt=True).encode(), b"garbage", b"", b"0", lm.replace(b"GMT", b"-0000"), lm.replace(b"GMT", b"")])
    if inm is not None:
        headers.append((b"if-none-match", inm))
    if ims is not None:
        headers.append((b"if-modified-since", ims))
    if inm is not None:
        if inm == b"":
            return None if ims is not None else False
        return inm == b"*" or et in re.findall(rb'"[^"]*"', inm)
    if ims is None:
        return False
    if not ims.endswith(b"GMT") and ims.startswith(lm[:10]):
        return None             # without a time zone it may be taken as any
    try:
        return email.utils.parsedate_to_datetime(ims.decode()).timestamp() >= t
    except Exception:
        return False


def dated(value):
    """Whether it is a date of HTTP, within the last hour."""
    if not re.fullmatch(rb"[A-Z][a-z]{2}, \d\d [A-Z][a-z]{2} \d{4} \d\d:\d\d:\d\d GMT", value or b""):
        return False
    return -3600 < email.utils.parsedate_to_datetime(value.decode()).timestamp() - time.time() < 2


def index(res, rng, what, method, sent, spec, cond, last, extra, headers):
    st, body = response(res, sent, method, what)
    names = [k.lower() for k, _ in st["headers"]]
    if len(names) != len(set(names)):
        res.bad("header-twice", f"{what} extra {extra}: {st['headers']}")
    h = {k.lower(): v for k, v in st["headers"]}
    for k, v in extra.items():
        if h.get(k.lower().encode()) != v.encode():
            res.bad("extra-header", f"{what}: {k} is {h.get(k.lower().encode())}")
    info = f"{what} {headers}"
    if not h.get(b"etag", b"").startswith((b'"', b'W/"')) or (last and h[b"etag"] != last["etag"]):
        res.bad("etag", f"{info}: etag {h.get(b'etag')} after {last and last['etag']}")
        return last
    if method not in ("GET", "HEAD"):
        return last
    if not dated(h.get(b"last-modified")):
        res.bad("last-modified", f"{info}: {h.get(b'last-modified')} at {email.utils.formatdate(usegmt=True)}")
    if last and h.get(b"last-modified") != last["modified"]:
        res.bad("last-modified", f"{info}: {h.get(b'last-modified')} after {last['modified']}")
    if method == "GET":
        res.counts["conditional"] += cond is not None
        if cond is True or st["status"] == 304:
            res.counts["not_modified"] += 1
            if cond is False:
                res.bad("not-modified-wrongly", f"{info}: etag {h[b'etag']} modified {h.get(b'last-modified')}")
            elif cond is True and st["status"] != 304:
                res.bad("sent-again", f"{info}: status {st['status']} although the copy is current")
            if body:
                res.bad("body-of-304", info)
            return last
    if st["status"] not in (200, 304):
        res.bad("status", f"{info}: {st['status']}")
    if not h.get(b"content-type", b"").startswith(b"text/html"):
        res.bad("content-type", f"{info}: {h.get(b'content-type')}")
    if method == "HEAD":
        if body:
            res.bad("body-of-head", info)
        if last and st["status"] == 200 and h.get(b"content-length") != str(len(last["body"])).encode():
            res.bad("content-length", f"{info}: {h.get(b'content-length')} instead of {len(last['body'])}")
        return last
    if h.get(b"content-length") != str(len(body)).encode():
        res.bad("content-length", f"{info}: {h.get(b'content-length')} of {len(body)} bytes")
    text = body.decode()
    for t in expect_text(spec):
        if t not in text:
            res.bad("page", f"{info}: {t!r} is missing in {text[:500]}")
    if f'lang="{spec["lang"]}"' not in text:
        res.bad("page", f"{info}: language {spec['lang']}")
    if spec["body"] is None and "<noscript" in text:
        res.bad("page", f"{info}: noscript although none is wanted")
    if last and body != last["body"]:
        res.bad("page-changed", info)
    return {"etag": h[b"etag"], "modified": h[b"last-modified"], "body": body}
