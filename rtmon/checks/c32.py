"""C32: a served page starts the components it names (server, page and JavaScript client together)."""
import asyncio, itertools, json, pathlib, random, sys, tempfile, types, urllib.parse
from .. import common, markup
from ..common import rngs
from ..node import Node, Endless
from .c17 import scope_for

TECHNIQUE = "runtime monitoring: pages made by the real applications run in the real JavaScript client over a stand-in document; the sockets it opens are bridged to the same application, an oracle follows addresses, components, locations and reconnects end to end"
RULE = ("one case = one application (standalone, or middleware with a template of 1-4 component tags) with random prefix, reconnect settings and import map, a page at a random address run in the client, each component's socket bridged, clicked and finally cut off; "
        "non-trivial if a component was shown and answered a click")
ASSUME = ["the browser, the bundled assets and the HTML parser are stand-ins", "the server passes paths decoded, as ASGI defines", "prefixes and module names are ASCII (the static file server decodes others wrongly) and hold no '%', '?', '#', quotes or backslashes"]
REQUIRE = {"pages": 700, "sockets": 1000, "shown": 1000, "clicks": 1100, "addresses": 2700, "modules": 180, "retries": 3000, "templates": 300, "own_maps": 300}
CHUNK = 20
node = Node("c32")
PREFIXES = ["/reactpy/", "/reactpy/", "/", "/a/b/", "/r.p/", "/a+b/", "/x(y)/", "/$x/", "/a b/", "/~u/", "/a&b/", "/-/_/"]
ASSETS = ["index.js", "preact.js", "preact-dom.js", "preact-jsx-runtime.js"]


def cases(tier, seed):
    n = 1000 if tier == "quick" else 15000
    return [{"seed": s} for s in rngs(seed, n, "c32")]


def prepare(tier, seed):
    # stand-ins for the bundles, which no build made here
    for n in ASSETS:
        (common.CODE / "reactpy/static" / n).write_text(f"// {n}")


def make_module(name, spec, made):
    from reactpy import component, html, hooks
    m = types.ModuleType(name)

    def add(cname, i, widget):
        @component
        def comp():
            n, set_n = hooks.use_state(0)
            loc = hooks.use_location()
            made.append(i)
            return html.section(
                html.p({"id": f"state-{i}"}, json.dumps([i, n, loc.path, loc.query_string])),
                html.button({"id": f"more-{i}", "onClick": lambda e: set_n(lambda x: x + 1)}, "more"),
                widget() if widget else "")
        setattr(m, cname, comp)
    for i, (cname, widget) in enumerate(spec):
        add(cname, i, widget)
    sys.modules[name] = m
    return m


def case(res, p):
    rng = random.Random(p["seed"])
    from reactpy import config, html
    from reactpy.reactjs import component_from_string, import_reactjs
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    options = [config.REACTPY_PATH_PREFIX, config.REACTPY_WEB_MODULES_DIR, config.REACTPY_RECONNECT_INTERVAL, config.REACTPY_RECONNECT_MAX_INTERVAL, config.REACTPY_RECONNECT_MAX_RETRIES, config.REACTPY_RECONNECT_BACKOFF_MULTIPLIER]
    was = [o.current for o in options]
    uid = f"{p['seed']:x}"
    name = rng.choice(["c32m", "c32m_é", "c32.pages.main"]) + uid
    with tempfile.TemporaryDirectory() as web:
        try:
            config.REACTPY_WEB_MODULES_DIR.current = pathlib.Path(web)
            prefix = rng.choice(PREFIXES)
            retry = {"reconnect_interval": rng.choice([1, 100, 750, 5000]), "reconnect_max_interval": rng.choice([1, 200, 60000]), "reconnect_max_retries": rng.choice([0, 1, 3, 6]), "reconnect_backoff_multiplier": rng.choice([1.0, 1.25, 2.0, 1])}
            settings = {"path_prefix": prefix, **{k: v for k, v in retry.items() if rng.random() < 0.9}}
            widget = None
            if rng.random() < 0.5:
                # modules outlive their application's settings, so each has a name of its own
                source = f"// {uid}\nexport const Widget = 1;\n"
                mod_name = rng.choice(["mod", "@s/mod", "dir/mod.js", "m x"]) + uid
                widget = component_from_string(source, "Widget", name=mod_name)
            made = []
            standalone = rng.random() < 0.5
            names = rng.sample(["App", "Käse", "_x", "B2", "Other"], 1 if standalone else rng.randrange(1, 5))
            mod = make_module(name, [(n, widget if rng.random() < 0.5 else None) for n in names], made)
            own_map = rng.choice([None, None, {"use_local": True}, {"framework": "react"}, {"framework": "preact", "version": "10.2"}])
            asyncio.run(asyncio.wait_for(run(res, rng, locals()), 60))
        except Endless as e:
            res.bad("endless", e)
        finally:
            for o, v in zip(options, was):
                o.current = v
            sys.modules.pop(name, None)
    if not res.violations and res.sig is None:
        res.done(p["seed"], False)


async def fetch(app, path):
    sent = []

    async def send(m):
        sent.append(m)

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}
    u = urllib.parse.urlsplit(path)
    s = scope_for("http", urllib.parse.unquote(u.path))
    s["query_string"] = u.query.encode()
    await app(s, receive, send)
    return sent[0]["status"], b"".join(m.get("body", b"") for m in sent[1:])


def parts_of(page):
    """The page as the client's stand-in document takes it."""
    out, toks = [], markup.tokens(page)
    script = None
    for t in toks:
        if t[0] == "start":
            if t[1] == "script":
                script = [t[2], ""]
            else:
                out.append(["open", t[1], t[2]])
        elif t[0] == "text" or t[0] == "raw":
            if script:
                script[1] += t[1]
            else:
                out.append(["text", t[1]])
        elif t[0] == "end":
            if t[1] == "script" and script:
                out.append(["script", *script])
                script = None
            else:
                out.append(["close", t[1]])
    return out


class Socket:
    def __init__(self, app, url):
        u = urllib.parse.urlsplit(url)
        self.scope = scope_for("websocket", urllib.parse.unquote(u.path))
        self.scope["query_string"] = u.query.encode()
        self.incoming, self.outgoing = asyncio.Queue(), asyncio.Queue()
        self.incoming.put_nowait({"type": "websocket.connect"})
        self.task = asyncio.create_task(app(self.scope, self.incoming.get, self.outgoing.put))

    async def next(self, why):
        try:
            return await asyncio.wait_for(self.outgoing.get(), 5)
        except asyncio.TimeoutError:
            return None

    async def text(self, why):
        m = await self.next(why)
        return m and m.get("text")

    async def close(self):
        self.incoming.put_nowait({"type": "websocket.disconnect", "code": 1000})
        await asyncio.wait({self.task}, timeout=5)


async def run(res, rng, g):
    from reactpy import html
    from reactpy.reactjs import import_reactjs
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    prefix, names, name, settings, retry, own_map = (g[k] for k in ("prefix", "names", "name", "settings", "retry", "own_map"))
    klass = rng.choice(["", "box", "a b"])
    if g["standalone"]:
        head = html.head(html.title("t"), *([import_reactjs(**own_map)] if own_map else []))
        # the head is made under the application's own settings
        if own_map and own_map.get("use_local"):
            from reactpy import config
            config.REACTPY_PATH_PREFIX.current = prefix
            head = html.head(import_reactjs(**own_map))
        app = ReactPy(getattr(g["mod"], names[0]), html_head=head, **settings)
        used = [0]
    else:
        from jinja2 import Environment
        from reactpy.templatetags import ReactPyJinja
        from reactpy.utils import reactpy_to_string
        used = [rng.randrange(len(names)) for _ in range(rng.randrange(1, 4))]
        tags = "".join(f'<main>{{% component "{name}.{names[i]}"{f", class=" + chr(34) + klass + chr(34) if klass else ""} %}}</main>' for i in used)
        env = Environment(extensions=[ReactPyJinja])

        async def user_app(scope, receive, send):
            text = "<!doctype html><html><head><title>t</title>" + (reactpy_to_string(import_reactjs(**own_map)) if own_map else "") + "</head><body>" + env.from_string(tags).render() + "</body></html>"
            await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/html")]})
            await send({"type": "http.response.body", "body": text.encode()})
        app = ReactPyMiddleware(user_app, [f"{name}.{n}" for n in names], **settings)
        res.count(templates=1)
    res.count(own_maps=own_map is not None)
    # ---- the page
    base = "/" if prefix != "/" else "/"
    pathname, search = base + rng.choice(["", "page", "p/q/", "a%20b", "%C3%A9", "x+y", "%2Fz"]), rng.choice(["", "?q=1", "?a=b&c=%20d", "?x=%26&y=%C3%A9", "?path=/evil&qs=1", "?a+b"])
    if prefix == "/" and g["standalone"]:
        pathname = "/"      # the root prefix leaves only this to pages
    location = {"pathname": pathname, "search": search, "protocol": rng.choice(["http:", "https:"]), "host": "stand.in"}
    location["origin"] = f"{location['protocol']}//stand.in"
    status, page = await fetch(app, pathname + search)
    if status != 200:
        return res.bad("no-page", f"{pathname}{search} answered {status}")
    res.count(pages=1)
    where = f"{'standalone' if g['standalone'] else 'middleware'} at {prefix}, page {pathname}{search}"
    got = node.call("open", {"location": location, "parts": parts_of(page.decode())})
    if got["errors"]:
        res.bad("script-failed", f"{where}: {got['errors'][0]}\n{page.decode()[:1500]}")
    # ---- the addresses the page names
    maps = []
    for mid, text in got["importmaps"]:
        try:
            maps.append(json.loads(text)["imports"])
        except (ValueError, KeyError) as e:
            res.bad("import-map", f"{where}: {text!r}: {e}")
    if len(got["importmaps"]) != 1:
        res.bad("import-map", f"{where}: {len(got['importmaps'])} import maps: {got['importmaps']}")
    remote = own_map and not own_map.get("use_local")
    addresses = list(got["addresses"])
    for m in maps:
        if set(m) != {"react", "react-dom", "react-dom/client", "react/jsx-runtime"}:
            res.bad("import-map", f"{where}: {m}")
        for v in m.values():
            if remote:
                if not v.startswith("https://esm.sh/"):
                    res.bad("import-map", f"{where}: {v} though {own_map}")
            else:
                addresses.append(v)
    for a in addresses:
        full = urllib.parse.urljoin(location["origin"] + pathname, a)
        u = urllib.parse.urlsplit(full)
        res.count(addresses=1)
        if f"{u.scheme}://{u.netloc}" != location["origin"] or not urllib.parse.unquote(u.path).startswith(prefix + "static/"):
            res.bad("address", f"{where}: {a} leads to {full}")
            continue
        st, body = await fetch(app, u.path)
        if st != 200 or body != f"// {u.path.rsplit('/', 1)[1]}".encode():
            res.bad("address", f"{where}: {full} answered {st} {body[:40]!r}")
    # ---- the sockets
    if len(got["sockets"]) != len(used) and not res.violations:
        res.bad("mounts", f"{where}: {len(got['sockets'])} sockets for {len(used)} components: {got['sockets']}")
    if res.violations:
        return
    socks = [Socket(app, u) for u in got["sockets"]]
    try:
        for i, s in enumerate(socks):
            res.count(sockets=1)
            u = got["sockets"][i]
            if not u.startswith({"http:": "ws:", "https:": "wss:"}[location["protocol"]] + "//stand.in/"):
                res.bad("socket-address", f"{where}: {u}")
            m = await s.next("accept")
            if not m or m["type"] != "websocket.accept":
                return res.bad("not-accepted", f"{where}: {u} was answered with {m}")
        node.call("accept")
        look = None
        for i in rng.sample(range(len(socks)), len(socks)):
            t = await socks[i].text("view")
            if t is None:
                return res.bad("no-view", f"{where}: {got['sockets'][i]} got no view")
            look = node.call("receive", i, t)
        counts = dict.fromkeys(range(len(used)), 0)

        def judge(what):
            want = sorted(json.dumps([c, counts[k], pathname, search]) for k, c in enumerate(used))
            have = sorted(b["text"] for b in look["boxes"])
            if want != have:
                res.bad("wrong-view", f"{where} {what}: shows {have}, expected {want}")
            if look["errors"]:
                res.bad("client-error", f"{where} {what}: {look['errors'][:2]}")
        judge("at first")
        res.count(shown=len(used))
        if len({b["box"] for b in look["boxes"]}) != len(used) or any(b["cls"] != (klass if not g["standalone"] else "") for b in look["boxes"]):
            res.bad("boxes", f"{where}: {look['boxes']} for class {klass!r}")
        # ---- modules
        if g["widget"]:
            for a in set(look["imports"]):
                u = urllib.parse.urlsplit(a)
                if f"{u.scheme}://{u.netloc}" != location["origin"]:
                    res.bad("module-address", f"{where}: {a}")
                st, body = await fetch(app, u.path)
                if st != 200 or body.decode() != g["source"]:
                    res.bad("module-address", f"{where}: {a} answered {st} {body[:60]!r}")
                res.count(modules=1)
            if not look["imports"] and any(g["mod"].__dict__[n] for n in names) and "importSource" in str(t):
                res.bad("module-address", f"{where}: no module was imported")
        # ---- events there and back; a component used twice shares no state, but ids: click only those used once
        once = [k for k, c in enumerate(used) if used.count(c) == 1]
        for _ in range(rng.randrange(1, 4)):
            if not once or res.violations:
                break
            k = rng.choice(once)
            c = node.call("click", f"more-{used[k]}")
            if not c["found"] or [f[0] for f in c["frames"]] != [k]:
                res.bad("event", f"{where}: a click in component {used[k]} (socket {k}) sent {c}")
                break
            res.count(clicks=1)
            socks[k].incoming.put_nowait({"type": "websocket.receive", "text": c["frames"][0][1]})
            t = await socks[k].text("update")
            if t is None:
                res.bad("no-update", f"{where}: no update after a click in {used[k]}")
                break
            counts[k] += 1
            look = node.call("receive", k, t)
            judge("after a click")
    finally:
        for s in socks:
            await s.close()
    # ---- the settings reach the client
    from reactpy import config
    want = {k: getattr(config, f"REACTPY_{k.upper()}").current for k in retry}
    for k in settings.keys() & want.keys():
        if want[k] != settings[k]:
            res.bad("setting", f"{k} is {want[k]} after setting {settings[k]}")
    limit = min(want["reconnect_max_retries"], 8)
    tries = node.call("outage", 3 * (limit + 2) * len(socks))
    for url, delays in tries:
        expect, d = [], min(want["reconnect_interval"], want["reconnect_max_interval"])
        for _ in range(limit):
            expect.append(d)
            d = min(d * want["reconnect_backoff_multiplier"], want["reconnect_max_interval"])
        same = got["sockets"].count(url)
        if same > 1:
            continue
        if len(delays) < limit or want["reconnect_max_retries"] == limit and len(delays) != limit or any(not e - 1 <= x <= e + 2 for e, x in zip(expect, delays)):
            res.bad("reconnect", f"{where}: tried again after {delays}, expected {expect} ({want})")
        res.count(retries=len(delays))
    res.done((prefix, g["standalone"], used, pathname, search, own_map, tries), bool(once), {"prefix": prefix, "page": pathname + search, "sockets": got["sockets"], "retries": tries})
