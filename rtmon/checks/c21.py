"""C21: web modules: what is served is what was registered."""
import asyncio, json, os, pathlib, random, resource, shutil, signal, sys, tempfile, threading, time, warnings
from ..common import rngs
from .c17 import request, scope_for

TECHNIQUE = "runtime monitoring: histories of registrations against an independent model (files served, constructors produced), concurrent threads with polling readers, and processes crashed or starved of disk at every step by an audit hook or a file size limit"
RULE = ("one case = a history of 25 registrations over few names, sources, files, URLs and options; or 2-6 threads registering while readers poll; or one registration killed at its n-th system interaction or by a size limit "
        "followed by a new one; non-trivial if names were registered again with something else, readers saw several contents, or the victim died half way")
ASSUME = ["a name registered again stands for what was registered last", "the network is a stand-in", "one file system, POSIX"]
REQUIRE = {"registrations": 25000, "replaced": 4000, "served": 8000, "fallbacks": 3000, "links": 1000, "reads": 20000, "races": 90, "crashes": 60, "starved": 40, "recovered": 110, "cross_kind": 500, "constructors": 20000, "refused": 600, "reexports": 300, "unreachable": 100, "two_steps": 1500, "back": 100, "unnamed": 2000}
CHUNK = 10
CASE_LIMIT = 400


def cases(tier, seed):
    n = 2200 if tier == "quick" else 30000
    return [{"seed": s, "kind": "race" if i % 12 == 0 else "crash" if i % 5 == 0 else "history"} for i, s in enumerate(rngs(seed, n, "c21"))]


def case(res, p):
    root = pathlib.Path(tempfile.mkdtemp(prefix="c21-"))
    from reactpy import config
    old = config.REACTPY_WEB_MODULES_DIR.current
    cwd = os.getcwd()
    try:
        web = root / "web"
        web.mkdir()
        config.REACTPY_WEB_MODULES_DIR.current = web
        os.chdir(root)
        {"race": race, "crash": crash, "history": history}[p["kind"]](res, random.Random(p["seed"]), root, web, p)
    finally:
        os.chdir(cwd)
        config.REACTPY_WEB_MODULES_DIR.current = old
        shutil.rmtree(root)


def js(rng, tag, big=False):
    names = rng.sample(["A", "B", "C", "D"], rng.randrange(1, 4))
    eol = rng.choice(["\n", "\r\n", "\n\n"])
    text = f"// {tag} \u00e9\u4e2d{eol}" + eol.join(f"export function {n}() {{ return '{tag}'; }}" for n in names) + (eol if rng.random() < 0.5 else "")
    if big:
        text += "// " + "x" * rng.choice([5000, 200000]) + f"\n// end {tag}\n"
    return text, set(names)


def suffix_of(name):
    base = name[1:] if name.startswith("@") else name
    head, _, tail = base.partition("@")
    tail = tail.partition("/")[2]
    return pathlib.PurePosixPath(tail or head).suffix or ".js"


def history(res, rng, root, web, p):
    import requests
    from reactpy import html, component
    from reactpy.web import module as older
    from reactpy.reactjs import component_from_file, component_from_string, component_from_url, component_from_npm
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    tag = f"{p['seed']:x}"
    pool = [f"m{tag}", f"@s{tag}/m", f"d{tag}/n.js", f"e{tag}/f/g", f"m{tag}T", f"m{tag}True", f"v{tag}@1.2", f"m{tag}5"]
    names = rng.sample(pool, rng.choice([1, 2, 3]))
    more = {}               # text -> the address of what it re-exports as well
    urls = {}
    for i in range(2):
        urls[f"https://cdn.example/{tag}/sub/{i}"] = js(rng, f"{tag}-s{i}")

    def text_of(t, local=False):
        text, own = js(rng, t)
        if rng.random() < 0.3:
            sub = rng.choice([u for u in urls if "/sub/" in u])
            text = f'export * from "{sub if not local or rng.random() < 0.5 else sub.replace("https://cdn.example/" + tag, ".")}";\n{text}'
            more[text] = sub
        return text, own
    texts = [text_of(f"{tag}-{i}") for i in range(3)]
    for text, own in texts[:1]:
        # the same but for white space
        other = rng.choice([text + "\n", "\n" + text, text.replace("\n", "\r\n"), " " + text, text + "\ufeff"])
        if text in more:
            more[other] = more[text]
        texts.append((other, own))
    same_named = rng.random() < 0.5
    files = []
    for i in range(3):
        t = text_of(f"{tag}-f{i}")
        f = root / f"d{i}" / "src.js" if same_named else root / f"src{i}.js"
        f.parent.mkdir(exist_ok=True)
        f.write_bytes(t[0].encode())
        files.append([f, t])
    for i in range(2):
        urls[f"https://cdn.example/{tag}/{i}"] = text_of(f"{tag}-u{i}", True)
    urls[f"https://cdn.example/{tag}/0True"] = js(rng, f"{tag}-u9")

    class Reply:
        def __init__(self, t):
            self.text, self.status_code, self.ok = t, 200, True
            self.content = t.encode()

        def raise_for_status(self):
            pass
    real_get = requests.get
    fail_net = [None]

    def get(url, *a, **k):
        if fail_net[0] and url.startswith(fail_net[0]):
            raise requests.exceptions.ConnectionError("down")
        return Reply(urls[url][0] if url in urls else urls.get(url.split("@")[0], ("export {}", ()))[0])
    requests.get = get

    async def none(scope, receive, send):
        raise RuntimeError("not a module")
    app = ReactPyMiddleware(none, [], web_modules_dir=web)
    now = {}                # file name in the directory -> (bytes or link source)
    kind_of = {}
    nameless = {}
    replaced = 0
    made = []               # (constructor, expected tag name, expected import source)
    try:
        for step in range(25):
            res.counts["registrations"] += 1
            how = rng.choice(["string", "string", "file", "file", "url", "npm"])
            imports = rng.choice([rng.choice("ABCD"), rng.sample("ABCD", 2), ("A",), "A.x"])
            first = [imports] if isinstance(imports, str) else list(imports)
            kw = {}
            if rng.random() < 0.5:
                kw["fallback"] = rng.choice([None, "loading", "wait", "", html.p("wait"), {"tagName": "i"}, 0])
            if rng.random() < 0.4:
                kw["unmount_before_update"] = rng.random() < 0.5
            if rng.random() < 0.4:
                kw["allow_children"] = rng.random() < 0.5
            if rng.random() < 0.6:
                kw["resolve_imports"] = rng.random() < 0.7
            if rng.random() < 0.3:
                kw["resolve_imports_depth"] = rng.choice([1, 5, 15])
            # the network is down for everything, or for what is re-exported
            fail_net[0] = rng.choice(["https://", f"https://cdn.example/{tag}/sub/"]) if rng.random() < 0.2 else None
            named = rng.random() < 0.8
            if how in ("string", "file") and not named:
                kw["resolve_imports"] = False      # if refused, the name is not known
            what = [step, how, imports, dict(kw)]
            src_type, exported = "NAME", set()
            call = None
            target = None
            if how == "string":
                text, exported = rng.choice(texts)
                if named:
                    name = rng.choice(names)
                    kw["name"] = name
                else:
                    name = None
                call = lambda: component_from_string(text, imports, **kw)
                data = text.encode()
                what += [name, text[:12]]
            elif how == "file":
                slot = rng.choice(files)
                if rng.random() < 0.3:
                    slot[1] = text_of(f"{tag}-f{step}")      # the file has changed meanwhile
                    slot[0].write_bytes(slot[1][0].encode())
                file, (text, exported) = slot
                if named:
                    name = rng.choice(names)
                    kw["name"] = name
                else:
                    name = None
                if rng.random() < 0.4:
                    kw["symlink"] = rng.random() < 0.6
                rel = file.relative_to(root)
                given = rng.choice([file, str(file), str(rel), rel])
                call = lambda: component_from_file(given, imports, **kw)
                data = text.encode()
                what += [name, str(given), kw.get("symlink"), text[:12]]
            elif how == "url":
                url = rng.choice(list(urls))
                text, exported = urls[url]
                call = lambda: component_from_url(url, imports, **kw)
                src_type, source = "URL", url
                what += [url]
            else:
                pkg = rng.choice(["pkg", "@s/pkg", "pkg/sub"])
                ver = rng.choice([None, "1", "2"])
                cdn = rng.choice([None, "https://esm.sh/v135", "https://cdn.x", "https://esm.sh/?a=b"])
                kw["resolve_imports"] = False
                if ver:
                    kw["version"] = ver
                if cdn:
                    kw["cdn"] = cdn
                bundle = rng.choice([None, True, False])
                if bundle is not None:
                    kw["bundle"] = bundle
                call = lambda: component_from_npm(pkg, imports, **kw)
                base = cdn or "https://esm.sh/v135"
                source = f"{base}/{pkg}@{ver or 'latest'}"
                if "esm.sh" in base:
                    opts = "external=react,react-dom,react/jsx-runtime" + ("&bundle" if bundle is not False else "") + "&target=es2020"
                    source += ("&" if "?" in source else "?") + opts
                src_type = "URL"
                what += [pkg, ver, cdn, bundle]
            own = None
            if (kw.get("name") or how == "url") and rng.random() < 0.2:
                # the older way, in two steps
                res.counts["two_steps"] += 1
                own = rng.choice([None, None, "", 0, "mine", html.p("mine")])
                what += ["two steps", own]
                old_kw = {k.replace("imports", "exports"): v for k, v in kw.items() if k not in ("name", "allow_children")}

                def call():
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore", DeprecationWarning)
                        m = {"string": lambda: older.module_from_string(kw["name"], text, **old_kw), "file": lambda: older.module_from_file(kw["name"], given, **old_kw),
                             "url": lambda: older.module_from_url(url, **old_kw)}[how]()
                        return older.export(m, imports, **({"fallback": own} if own is not None or rng.random() < 0.5 else {}), **({"allow_children": kw["allow_children"]} if "allow_children" in kw else {}))
            resolve = kw.get("resolve_imports", False)
            if resolve and text in more and kw.get("resolve_imports_depth", 5) > 1:
                res.counts["reexports"] += 1
                exported = exported | urls[more[text]][1]
            fail = resolve and any(n.split(".")[0] not in exported for n in first)
            touched = resolve and fail_net[0] and (how == "url" and url.startswith(fail_net[0]) or text in more)
            err = None
            try:
                out = call()
            except Exception as e:
                err = e
            if touched and isinstance(err, ValueError):
                res.counts["unreachable"] += 1      # until the network is back
                err = True if how in ("string", "file") and kw.get("name") else None
                if err is None:
                    continue
            elif fail:
                res.counts["refused"] += 1
                if not isinstance(err, ValueError):
                    res.bad("missing-name-accepted", f"{what}: exports {exported}, error {err!r}")
                    return
            elif err is not None:
                res.bad("registration-failed", f"{what}: exports {exported}, {err!r}")
                return
            if err is None and touched:
                # the network is back: the names that could not be found are there
                fail_net[0] = None
                res.counts["back"] += 1
                kept, imports = imports, rng.sample(sorted(exported), len(exported))
                try:
                    again = call()
                    if [c()["tagName"] for c in again] != imports:
                        raise ValueError(again)
                except Exception as e:
                    res.bad("missing-for-ever", f"{what}, again for {imports}: {e!r}")
                    return
                imports = kept
            if how in ("string", "file"):
                # it is registered even if a name was missing
                if err is None:
                    c = out if not isinstance(out, list) else out[0]
                    real = c("x") if kw.get("allow_children", True) else c()
                    source = real["importSource"]["source"]
                    if kw.get("name"):
                        want_source = kw["name"] + suffix_of(kw["name"])
                        if source != want_source:
                            res.bad("source-name", f"{what}: {source} instead of {want_source}")
                            return
                elif kw.get("name"):
                    source = kw["name"] + suffix_of(kw["name"])
                else:
                    source = None
                if source:
                    if not kw.get("name"):
                        # without a name, each string and each file has its own
                        res.counts["unnamed"] += 1
                        if nameless.setdefault(source, text if how == "string" else file) != (text if how == "string" else file):
                            res.bad("shared-name", f"{what}: {source} is that of {nameless[source]!r}")
                            return
                    old = now.get(source)
                    if old is not None and old != data:
                        replaced += 1
                        res.counts["replaced"] += 1
                    if kind_of.get(source, how) != how:
                        res.counts["cross_kind"] += 1
                    kind_of[source] = how
                    link = how == "file" and kw.get("symlink", False)
                    now[source] = file if link else data
                    res.counts["links"] += link
                    problem = look(app, web, source, now, res)
                    if problem:
                        res.bad("wrong-content", f"{what} after {[(w[1:2], w[4:]) for w, *_ in made[-4:]]}: {problem}")
                        return
            if err is None:
                outs = out if isinstance(out, list) else [out]
                if isinstance(imports, str) == isinstance(out, list) or len(outs) != len(first):
                    res.bad("constructors", f"{what}: {out}")
                    return
                fb = kw.get("fallback") if own is None else own
                res.counts["fallbacks"] += fb is not None
                want_src = {"source": source, "sourceType": src_type, "fallback": fb, "unmountBeforeUpdate": kw.get("unmount_before_update", False)}
                for c, n in zip(outs, first):
                    made.append((what, c, n, want_src, kw.get("allow_children", True)))
            # constructors made before still mean what they meant
            for w, c, n, src, children in rng.sample(made, min(4, len(made))):
                res.counts["constructors"] += 1
                got = c({"a": 1})
                if got["tagName"] != n or not same_source(got["importSource"], src):
                    res.bad("wrong-constructor", f"{w} at step {step}: {got} instead of {n} from {src}")
                    return
                try:
                    c("child")
                    ok = True
                except TypeError:
                    ok = False
                if ok != children:
                    res.bad("allow-children", f"{w}: children {'accepted' if ok else 'refused'}")
                    return
            if step % 6 == 5:
                for s in now:
                    problem = look(app, web, s, now, res)
                    if problem:
                        res.bad("wrong-content", f"after {what}: {problem}")
                        return
        junk = [f for f in web.rglob("*") if f.is_file() and f.relative_to(web).as_posix() not in now and kindless(f, now, web)]
        if junk:
            res.bad("left-over", [str(f) for f in junk])
    finally:
        requests.get = real_get
    res.done(p["seed"], replaced, {"names": names, "replaced": replaced})


def kindless(f, now, web):
    # registered without a name: the file name is the framework's choice
    return f.name.endswith((".lock", ".tmp")) or not f.name.endswith((".js", ".2", ".2.2"))


def same_source(got, want):
    got = dict(got)
    fb, wfb = got.pop("fallback", None), want["fallback"]
    rest = {k: v for k, v in want.items() if k != "fallback"}
    return got == rest and (fb == wfb and type(fb) is type(wfb) or wfb in ("", 0) and not fb)


def look(app, web, source, now, res):
    want = now[source]
    f = web / source
    if isinstance(want, pathlib.Path):
        if f.resolve() != want.resolve() and f.stat().st_ino != want.stat().st_ino:
            return f"{source} is not linked to {want}"
        want = want.read_bytes()
    elif f.is_symlink():
        return f"{source} is a link to {f.resolve()} although a copy is wanted"
    got = f.read_bytes() if f.exists() else None
    if got != want:
        return f"{source} holds {got and got[:60]!r} instead of {want[:60]!r}"
    res.counts["served"] += 1
    path = f"/reactpy/modules/{source}"
    from reactpy import config
    path = f"{config.REACTPY_PATH_PREFIX.current}modules/{source}"
    sent, err, *_ = asyncio.run(request(app, scope_for("http", path)))
    body = b"".join(m.get("body", b"") for m in sent[1:])
    if err or sent[0]["status"] != 200 or body != want:
        return f"GET {path}: {err!r} status {sent and sent[0]['status']}, {body[:60]!r} instead of {want[:60]!r}"


def race(res, rng, root, web, p):
    """Threads register the same names with different contents while others read the files."""
    from reactpy.reactjs.module import file_to_module, string_to_module
    from reactpy.reactjs import component_from_string
    tag = f"{p['seed']:x}"
    name = rng.choice([f"r{tag}", f"sub{tag}/r"])
    path = web / f"{name}.js"
    kinds = rng.choice([["string"], ["string"], ["file"], ["link"], ["string", "file"], ["file", "link"], ["string", "file", "link"]])
    contents = [js(rng, f"{tag}-{i}", True)[0].encode() for i in range(4)]
    legal = set(contents)
    srcs = []
    for i, c in enumerate(contents):
        f = root / f"s{i}.js"
        f.write_bytes(c)
        srcs.append(f)
    stop = threading.Event()
    seen, problems, errors = set(), [], []
    first_done = threading.Event()

    def reader():
        while not stop.is_set():
            exists = first_done.is_set()
            try:
                data = path.read_bytes()
            except FileNotFoundError:
                if exists:
                    problems.append("the file is missing although it was registered before")
                    return
                continue
            except NotADirectoryError:
                continue
            res.counts["reads"] += 1
            if data not in legal:
                problems.append(f"{len(data)} bytes {data[:40]!r}..{data[-30:]!r}")
                return
            seen.add(data)
            time.sleep(0)

    def writer(seed):
        r = random.Random(seed)
        try:
            for _ in range(r.choice([3, 6, 10])):
                i = r.randrange(len(contents))
                k = r.choice(kinds)
                if k == "string":
                    m = r.choice([string_to_module, None])
                    m(name, contents[i].decode(), resolve_imports=False) if m else component_from_string(contents[i].decode(), "A", name=name, resolve_imports=False)
                else:
                    file_to_module(name, srcs[i], resolve_imports=False, symlink=k == "link")
                first_done.set()
                res.counts["registrations"] += 1
        except Exception as e:
            errors.append(repr(e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 0.001]))
    try:
        readers = [threading.Thread(target=reader) for _ in range(2)]
        writers = [threading.Thread(target=writer, args=(rng.random(),)) for _ in range(rng.choice([2, 3, 5]))]
        child = None
        if rng.random() < 0.4:
            child = os.fork()
            if child == 0:
                try:
                    writer(rng.random())
                    os._exit(1 if errors else 0)
                except BaseException:
                    os._exit(2)
        for t in readers + writers:
            t.start()
        for t in writers:
            t.join()
        if child:
            _, status = os.waitpid(child, 0)
            if status:
                errors.append(f"the other process failed ({status})")
        stop.set()
        for t in readers:
            t.join()
    finally:
        sys.setswitchinterval(old)
    res.counts["races"] += 1
    if errors:
        res.bad("concurrent-registration-failed", f"{kinds} {name}: {errors[:2]}")
    if problems:
        res.bad("half-written", f"{kinds} {name}: {problems[:2]}")
    if not res.violations:
        data = path.read_bytes()
        if data not in legal:
            res.bad("half-written", f"{kinds} in the end: {data[:60]!r}")
        for f, c in zip(srcs, contents):
            if f.read_bytes() != c:
                res.bad("source-changed", f"{kinds}: {f}")
        rest = [f.name for f in web.rglob("*") if f.is_file() and f != path]
        if rest:
            res.bad("left-over", f"{kinds}: {rest}")
    res.done(p["seed"], len(seen) > 1, {"kinds": kinds, "contents_seen": len(seen)})


def crash(res, rng, root, web, p):
    """A process registering a module dies or runs out of space at some point; then another registers."""
    from reactpy.reactjs.module import file_to_module, string_to_module
    tag = f"{p['seed']:x}"
    name = rng.choice([f"c{tag}", f"sub{tag}/c", "plain"])
    path = web / f"{name}.js"
    big = rng.random() < 0.7
    before_text = js(rng, f"{tag}-old", big)[0]
    after_text = js(rng, f"{tag}-new", big)[0]
    last_text = js(rng, f"{tag}-last", big)[0]
    src = root / "s.js"
    had = rng.random() < 0.6

    def register(how, text):
        if how == "string":
            string_to_module(name, text, resolve_imports=False)
        else:
            src.write_bytes(text.encode())
            file_to_module(name, src, resolve_imports=False, symlink=how == "link")
    if had:
        register(rng.choice(["string", "file"]), before_text)
    how = rng.choice(["string", "string", "file", "file", "link"])
    if how != "string":
        src.write_bytes(after_text.encode())
    mode = rng.choice(["die", "die", "die", "size-kill", "size-error"])
    nth = rng.randrange(1, 14)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(2)
            if mode.startswith("size"):
                if mode == "size-error":
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                n = rng.choice([0, 10, 4096])
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            else:
                left = [nth]

                def hook(ev, args):
                    if ev == "open" or ev.startswith(("os.", "shutil.")):
                        if any(isinstance(a, (str, os.PathLike)) and str(root) in os.fspath(a) for a in args if not isinstance(a, bytes)):
                            left[0] -= 1
                            if left[0] <= 0:
                                os._exit(77)
                sys.addaudithook(hook)
            if how == "string":
                string_to_module(name, after_text, resolve_imports=False)
            else:
                file_to_module(name, src, resolve_imports=False, symlink=how == "link")
            os._exit(0)
        except BaseException:
            os._exit(5)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    what = f"{how} {mode} at {nth} (exit {code}), {'replacing' if had else 'new'}, {len(after_text)} characters"
    died = code != 0
    res.counts["crashes"] += code == 77
    res.counts["starved"] += mode.startswith("size") and died
    got = path.read_bytes() if path.exists() else None
    ok = {after_text.encode()} | ({before_text.encode()} if had else {None})
    if code == 0:
        ok = {after_text.encode()}
    if got not in ok:
        res.bad("half-written" if got is not None else "lost", f"{what}: {path.name} holds {got and (len(got), got[:40])!r}")
    if how == "link" and src.read_bytes() != after_text.encode():
        res.bad("source-changed", what)
    if died and not res.violations:
        # whatever is left behind, the next one succeeds
        clock, sleep = time.time, time.sleep
        skew = [0.0]
        time.time = lambda: clock() + skew[0]

        def skip(s):
            skew[0] += s
        time.sleep = skip
        h2 = rng.choice(["string", "file"])
        try:
            register(h2, last_text)
            res.counts["recovered"] += 1
        except Exception as e:
            res.bad("not-recovered", f"{what}, then {h2}: {e!r} with {[f.name for f in web.rglob('*')]}")
        finally:
            time.time, time.sleep = clock, sleep
        if not res.violations and path.read_bytes() != last_text.encode():
            res.bad("not-recovered", f"{what}, then {h2}: {path.read_bytes()[:60]!r}")
    res.done(p["seed"], died, {"how": how, "mode": mode, "exit": code})
