"""C19: served files never come from outside the published directories; module names stay in their directory."""
import asyncio, gzip, os, pathlib, random, shutil, sys, tempfile
from ..common import rngs
from .c17 import request, scope_for

TECHNIQUE = "runtime monitoring: real requests against directories surrounded by marked secrets, plus an interpreter audit hook and directory snapshots that record every file touched while modules are registered under hostile names"
RULE = ("one case = a scratch tree (published directory, look-alike siblings, secrets, links) and an application with a random prefix given 60 requests with hostile path spellings and headers, "
        "then 12 registrations under hostile names; non-trivial if hostile requests and rejected names occurred and inside files were served")
ASSUME = ["links that registering with symlink=True creates are meant to be served", "file names are ASCII (the static file library decodes paths twice)", "one operating system: POSIX paths"]
REQUIRE = {"requests": 60000, "served": 8000, "hostile": 20000, "ranges": 600, "not_found": 20000, "registrations": 10000, "outside_names": 2000, "inside_names": 3000, "audited": 20000, "framework_files": 300}
CHUNK = 10
CASE_LIMIT = 400


def cases(tier, seed):
    n = 1600 if tier == "quick" else 20000
    return [{"seed": s} for s in rngs(seed, n, "c19")]


TYPES = {".js": ("text/javascript", "application/javascript"), ".mjs": ("text/javascript", "application/javascript"), ".css": ("text/css",), ".json": ("application/json",),
         ".svg": ("image/svg+xml",), ".html": ("text/html",), ".wasm": ("application/wasm",), ".txt": ("text/plain",), ".png": ("image/png",)}
_audit = {"on": False, "events": []}


def _hook(event, args):
    if _audit["on"] and (event == "open" or event.startswith(("os.", "shutil."))):
        _audit["events"].append((event, args))


def init():
    if not _audit.get("installed"):
        _audit["installed"] = True
        sys.addaudithook(_hook)


def case(res, p):
    root = pathlib.Path(tempfile.mkdtemp(prefix="c19-"))
    cwd = os.getcwd()
    try:
        os.chdir(root)
        asyncio.run(asyncio.wait_for(run(res, p, root), 300))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


def content(rng):
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.2:
        return rng.randbytes(rng.choice([8191, 8192, 8193, 70000]))
    return b"export const a = '" + rng.randbytes(8).hex().encode() + b"';\n"


async def run(res, p, root):
    import reactpy
    from reactpy import component, html
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    rng = random.Random(p["seed"])
    secret = b"SECRET-" + rng.randbytes(6).hex().encode()
    web = root / "a/b/c/d/web"
    web.mkdir(parents=True)
    inside = {}
    names = ["x.js", "y.mjs", "sub/z.js", "sub/deep/w.css", "d.json", "i.svg", "p.html", "m.wasm", "t.txt", "@scope/pkg@1.2.3.js", "with space.js", "..js", "a..b.js", ".hidden.js", "UP.JS", "noext", "x.js.map",
             "sub/x.js", "-_.~!$&'()*+,;=:@.js", "%2e%2e.js", "a%2fb.js", "sub/index.html", "q?.js", "h#.js", "index.html", "y.mjs.tmp", "x.png"]
    for n in rng.sample(names, rng.randrange(6, len(names))):
        f = web / n
        f.parent.mkdir(parents=True, exist_ok=True)
        inside[n] = content(rng)
        f.write_bytes(inside[n])
    if "x.js" in inside and rng.random() < 0.5:
        (web / "x.js.gz").write_bytes(gzip.compress(inside["x.js"]))
    outside = []
    for n in ["a/b/c/d/secret.js", "a/b/c/d/web-x/secret.js", "a/b/c/d/webs", "a/b/c/secret.js", "a/b/secret.js", "secret.js", "a/b/c/d/modules/secret.js", "a/b/c/d/web.js", "a/b/c/d/sub/z.js"]:
        f = root / n
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(secret)
        outside.append(f)
    prefix = rng.choice(["/reactpy/", "/", "/a/b/", "/r.p/"])
    Comp = component(lambda: html.p("x"))

    async def user(scope, receive, send):
        await send({"type": "http.response.start", "status": 404, "headers": []})
        await send({"type": "http.response.body", "body": b"user"})
    kw = {"path_prefix": prefix, "web_modules_dir": web}
    app = ReactPy(Comp, **kw) if rng.random() < 0.5 else ReactPyMiddleware(user, [], **kw)
    served = hostile = 0
    static_root = pathlib.Path(reactpy.__file__).parent / "static"
    static = [f for f in static_root.rglob("*") if f.is_file()]
    for i in range(60):
        headers = [(b"host", b"h")]
        method = rng.choice(["GET"] * 9 + ["HEAD"])
        exact = None
        base = prefix + rng.choice(["modules/", "modules/", "modules/", "static/"])
        r = rng.random()
        if r < 0.3:
            exact = rng.choice(list(inside))
            path = prefix + "modules/" + exact
        elif r < 0.36 and static:
            exact = rng.choice(static)
            path = prefix + "static/" + exact.relative_to(static_root).as_posix()
        else:
            hostile += 1
            path = spell(rng, base, root, web, outside, inside)
        if rng.random() < 0.2:
            headers.append((b"range", rng.choice([b"bytes=0-3", b"bytes=2-", b"bytes=-4", b"bytes=5-2", b"bytes=0-999999", b"items=0-1", b"bytes=999999-"])))
        if rng.random() < 0.2:
            headers.append((b"accept-encoding", rng.choice([b"gzip", b"br, gzip;q=1.0", b"identity"])))
        res.counts["requests"] += 1
        scope = scope_for("http", path, method, headers)
        sent, err, *_ = await request(app, scope)
        info = f"{method} {path!r} {headers[1:]} (prefix {prefix}, tree {web})"
        if err is not None:
            res.bad("request-failed", f"{info}: {err!r}")
            break
        body = b"".join(m.get("body", b"") for m in sent[1:])
        st = sent[0]["status"]
        h = {k.lower().decode(): v.decode() for k, v in sent[0]["headers"]}
        if secret in body or b"SECRET-" in body:
            res.bad("leak", f"{info}: status {st}, {body[:80]!r}")
            break
        if h.get("content-encoding") == "gzip" and body:
            res.counts["encoded"] += 1
            if "content-range" not in h:
                body = gzip.decompress(body)
        if exact is not None:
            fw = isinstance(exact, pathlib.Path)
            data = exact.read_bytes() if fw else inside[exact]
            name = exact.name if fw else exact
            if name.endswith(".gz"):
                continue
            res.counts["framework_files" if fw else "served"] += 1
            served += 1
            rng_h = dict(headers).get(b"range")
            if st == 206:
                res.counts["ranges"] += 1
                lo, hi = h["content-range"].split(" ")[1].split("/")[0].split("-")
                part = data[int(lo):int(hi) + 1]
                if "content-encoding" not in h and (rng_h is None or method == "GET" and body != part):
                    res.bad("wrong-range", f"{info}: {h.get('content-range')} {body[:60]!r} instead of {part[:60]!r}")
            elif st == 416 and rng_h:
                pass
            elif st != 200:
                res.bad("not-served", f"{info}: status {st}")
            elif method == "GET" and body != data:
                res.bad("wrong-bytes", f"{info}: {body[:60]!r} ({len(body)}) instead of {data[:60]!r} ({len(data)})")
            elif method == "HEAD" and body:
                res.bad("body-of-head", info)
            if st in (200, 206):
                want = TYPES.get(os.path.splitext(name)[1].lower())
                if want and not h.get("content-type", "").startswith(want):
                    res.bad("content-type", f"{info}: {h.get('content-type')}")
        elif st in (200, 206) and method == "GET" and st == 200:
            known = set(inside.values()) | {f.read_bytes() for f in static}
            tail = path[len(base):] if path.startswith(base) else None
            if body not in known and not body.startswith(b"<!doctype html>"):
                res.bad("unknown-bytes", f"{info}: {body[:80]!r}")
        else:
            res.counts["not_found"] += 1
        if res.violations:
            break
    res.counts["hostile"] += hostile
    if not res.violations:
        rejected = names_case(res, rng, root, web, outside, secret)
        res.done(p["seed"], served and hostile and rejected, {"prefix": prefix, "inside": len(inside)})
        # what the application serves is still nothing from outside
        for tail in ("secret.js", "../secret.js", "web-x/secret.js"):
            sent, err, *_ = await request(app, scope_for("http", prefix + "modules/" + tail))
            if any(b"SECRET-" in m.get("body", b"") for m in sent):
                res.bad("leak", f"{tail} after registrations")


def spell(rng, base, root, web, outside, inside):
    target = rng.choice(outside)
    rel = os.path.relpath(target, web)
    if base.endswith("static/") and rng.random() < 0.5:
        rel = rng.choice(["../config.py", "../core/layout.py", "../../../pyproject.toml", "../__init__.py", "wheels/../../config.py"])
    dots = rng.choice(["..", "..", "%2e%2e", "%2E%2E", ".%2e", "%252e%252e", "..;", "..%00", "...", "....", ".. ", "\uff0e\uff0e", "..\\", "%c0%ae%c0%ae"])
    sep = rng.choice(["/", "/", "//", "\\", "%2f", "%5c", "/./", "\\/", "\uff0f"])
    variants = [
        lambda: base + rel,
        lambda: base + rel.replace("..", dots).replace("/", sep),
        lambda: base + str(target),
        lambda: base + "/" + str(target),
        lambda: base + "//" + str(target).lstrip("/"),
        lambda: base + "sub/../" + rel,
        lambda: base + "sub/deep/../../" + rel,
        lambda: base + "nothere/../" + rel,
        lambda: base + "file://" + str(target),
        lambda: base + "~/" + rel,
        lambda: base[:-1] + "-x/secret.js",
        lambda: base[:-1] + "/" + rel[3:],
        lambda: base[:-1] + rel,
        lambda: base[:-1] + "/..\x00/" + rel,
        lambda: base + rel + "\x00.js",
        lambda: base + rel + rng.choice(["/", "/.", "?x", "#x", " ", "\n"]),
        lambda: base + "../" * rng.randrange(1, 20) + str(target).lstrip("/"),
        lambda: base + "../web-x/secret.js",
        lambda: base + "../webs",
        lambda: base + "../web/" + rng.choice(list(inside)),
        lambda: base + "../../modules/" + rng.choice(list(inside)),
        lambda: base + rng.choice(["", ".", "..", "/", "sub", "sub/", "sub/deep", "...", "\x00", "a" * 5000, "/".join("a" * 300)]),
        lambda: base + rng.choice(list(inside)) + rng.choice(["/", "/x", "/..", "/../../secret.js", "x", "%00", ".gz", "\x00"]),
        lambda: rng.choice(["/", ""]) + ".." + base + rel,
        lambda: base.replace("modules", "static/../modules") + rel,
    ]
    path = rng.choice(variants)()
    return path if path.startswith("/") else "/" + path


def snapshot(root, web):
    out = {}
    for d, dirs, files in os.walk(root):
        if pathlib.Path(d) == web:
            dirs[:] = []
            continue
        dirs.sort()
        for n in files + [x for x in dirs if pathlib.Path(d, x) != web]:
            f = os.path.join(d, n)
            s = os.lstat(f)
            isdir = os.path.isdir(f) and not os.path.islink(f)
            out[f] = (s.st_mode, s.st_ino, None if isdir else (s.st_size, s.st_mtime_ns, pathlib.Path(f).read_bytes() if os.path.isfile(f) else None))
    return out


def names_case(res, rng, root, web, outside, secret):
    from reactpy.reactjs import component_from_file, component_from_string
    from reactpy.reactjs.module import file_to_module, string_to_module
    import time
    source = root / "source.js"
    source.write_bytes(b"export function A() {}\n")
    rejected = 0
    time_sleep = time.sleep
    try:
        time.sleep = lambda s: None
        for i in range(12):
            tag = f"n{i}{rng.randrange(1 << 30)}"
            rel = os.path.relpath(rng.choice(outside), web)[:-3]
            hostile = [f"../{tag}", f"../web-x/{tag}", f"a/../../{tag}", f"../../{tag}", "../secret", rel, "../", "../..", f"sub/../../{tag}", f"./../{tag}",
                       f"@scope/../../{tag}", f"@scope/pkg@1/../../../{tag}", f"..//{tag}", f"a/../../web-x/{tag}", f"../web/../{tag}", f"../web-{tag}"]
            fine = [tag, f"sub/{tag}", f"@scope/{tag}@1.0", f"{tag}@2/x/y.js", f"{tag}.js", f"{tag} x", f"..{tag}", f"{tag}..", f"a/b/c/{tag}", "..", "...", f"{tag}/..", f"{tag}.min.js", f"sub/{tag}.css", f"\u00e9{tag}", f"~{tag}", f"%2e%2e{tag}", f"..\\{tag}"]
            odd = [f"a/../{tag}", f"./{tag}", f"a//{tag}", f"../web/{tag}", f"{tag}/", "", str(root / tag), f"//{str(root).lstrip('/')}/{tag}", str(web.parent / tag), ".", f"{tag}\x00", str(web / tag)]
            r = rng.random()
            kind, name = ("outside", rng.choice(hostile)) if r < 0.5 else ("inside", rng.choice(fine)) if r < 0.85 else ("odd", rng.choice(odd))
            text = f"export function A() {{}} // {tag}\n"
            how = rng.choice(["string", "file", "link", "component-string", "component-file"])
            before = snapshot(root, web)
            _audit["events"].clear()
            err = out = None
            _audit["on"] = True
            try:
                if how == "string":
                    out = string_to_module(name, text, resolve_imports=rng.random() < 0.5)
                elif how == "component-string":
                    component_from_string(text, "A", name=name, resolve_imports=rng.random() < 0.5)
                elif how == "component-file":
                    component_from_file(source, "A", name=name, resolve_imports=rng.random() < 0.5)
                else:
                    out = file_to_module(name, source, symlink=how == "link", resolve_imports=rng.random() < 0.5)
            except Exception as e:
                err = e
            finally:
                _audit["on"] = False
            what = f"{how} named {name!r} (module directory {web}, error {err!r})"
            res.counts["registrations"] += 1
            res.counts[kind + "_names"] += 1
            after = snapshot(root, web)
            if after != before:
                diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                res.bad("wrote-outside", f"{what}: {diff[:4]}")
                return
            for ev, args in _audit["events"]:
                res.counts["audited"] += 1
                for a in args[:2 if ev in ("os.rename", "os.link", "os.symlink") or ev.startswith("shutil.") else 1]:
                    if isinstance(a, (str, bytes, os.PathLike)):
                        f = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(a)))
                        if f.startswith(str(root)) and f != str(source) and f != str(web) and not f.startswith(str(web) + os.sep) and not str(web).startswith(f):
                            res.bad("touched-outside", f"{what}: {ev} {f}")
                            return
            if kind == "outside":
                rejected += 1
                if err is None:
                    res.bad("outside-name-accepted", what)
                    return
            elif kind == "inside":
                if err is not None:
                    res.bad("name-refused", what)
                    return
                if out is not None:
                    f = pathlib.Path(out.file)
                    if f.is_symlink():
                        ok = f.resolve() == source.resolve()
                    else:
                        ok = f.read_bytes() == (text.encode() if how == "string" else source.read_bytes())
                    if not ok or not os.path.abspath(f).startswith(str(web) + os.sep):
                        res.bad("module-file", f"{what}: {f}")
                        return
    finally:
        time.sleep = time_sleep
        _audit["on"] = False
    return rejected
