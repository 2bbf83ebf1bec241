"""C25: PyScript: the browser receives the same program and config."""
import asyncio, copy, json, pathlib, random, re, shutil, sys, tempfile, textwrap, types
from ..common import rngs
from ..markup import span, tokens

TECHNIQUE = "runtime monitoring: the program delivered by every entry point is extracted from the page as a browser would and executed next to the source files it was made from; pages and configurations are judged by an independent HTML tokenizer and model of the merge"
RULE = ("one case = one set of generated source files (strings of every form, comments, docstrings, layouts, future imports, roots of several forms) delivered by one of four entry points, or one setup page with generated options; "
        "non-trivial if the program ran to a value with at least 5 entries, or the options were not the defaults")
ASSUME = ["the code may stand in a function: no star imports, global statements or module level names that hide builtins", "docstrings are layout", "settings in pyscript_config replace the defaults of the same name"]
REQUIRE = {"programs": 1500, "values": 20000, "hash_strings": 2000, "multiline_strings": 2000, "markup_strings": 1500, "future": 300, "missing_roots": 80, "direct": 300, "jinja": 250, "csr": 250, "component": 250,
           "setups": 500, "extra_js": 300, "extra_py": 300, "user_config": 300, "quotes": 150, "heads": 150, "files": 2500, "docstrings": 1000, "annotated_roots": 120, "regenerated": 0, "async_functions": 300, "imported_roots": 50, "siblings": 100}
CHUNK = 20
TAGS = ["</script>", "<script>", "<!--", "<!-- <script>", "</SCRIPT ", "-->", "<b>&amp;</b>", "]]>", "</script", "&lt;", "<!--<script></script>"]


def cases(tier, seed):
    n = 2400 if tier == "quick" else 30000
    return [{"seed": s, "kind": ["direct", "jinja", "csr", "component", "setup"][i % 5]} for i, s in enumerate(rngs(seed, n, "c25"))]


class Source:
    def __init__(self, rng, res, prefix):
        self.rng, self.res, self.p, self.n, self.names = rng, res, prefix, 0, []

    def name(self):
        self.n += 1
        return f"{self.p}{self.n}"

    def piece(self):
        r = self.rng
        k = r.random()
        if k < 0.25:
            self.res.counts["hash_strings"] += 1
            return r.choice(["#fff", "a # b", "#", "# no comment", "url#frag"])
        if k < 0.45:
            self.res.counts["markup_strings"] += 1
            return r.choice(TAGS)
        return r.choice(["x", "é", "中", " ", "  two  ", "def root():", "from __future__ import annotations", "__future__", "    def root(): ...", "return root()", "UUID", "it", "{", "\U0001f600", "", "%s", "a\u2028b", "\x7f"])

    def string(self):
        r = self.rng
        k = r.randrange(9)
        t = " ".join(self.piece() for _ in range(r.randrange(4)))
        if k == 0:
            return repr(t)
        if k == 1:
            return json.dumps(t)
        if k < 5:
            self.res.counts["multiline_strings"] += 1
            q = r.choice(['"""', "'''"])
            ls = [r.choice(["", "    ", "\t", "  ", " \t"]) + (self.piece()) + r.choice(["", "", "  ", "\t"]) for _ in range(r.randrange(1, 5))]
            t = ("\n" * r.choice([1, 1, 2, 3])).join(ls)
            t = t.replace("\u2028", "")
            return r.choice(["", "", "r" if "\\" not in t else ""]) + q + t + (" " if t.endswith(q[0]) else "") + q
        if k == 5:
            t = t.replace("'", "").replace("\u2028", "")
            return f"r'\\d{t}\\\\'"
        if k == 6:
            t = t.encode("ascii", "ignore").decode().replace("'", "").replace("\x7f", "")
            return f"b'{t}\\x00'"
        if k == 7:
            t = t.replace("'", "").replace("\u2028", "").replace("{", "{{").replace("}", "}}")
            return r.choice(["f", "rf", "F"]) + f"'{t}{{1 + 2}}{{\"q#r\"!r:>8}} {{ {{1: [2]}}[1][0] = }}'"
        return f"({repr(t)}  # c\n      {repr(self.piece())}\n)"

    def value(self, d=2):
        r = self.rng
        k = r.randrange(8) if d else 0
        if k < 3:
            return self.string()
        if k == 3:
            return "[" + ", ".join(self.value(d - 1) for _ in range(r.randrange(3))) + "]"
        if k == 4:
            return "{'k#': " + self.value(d - 1) + ",  # '\n }"
        if k == 5:
            return r.choice(["1", "0x1F", "1_000", "1.5e3", "2j", "None", "...", "-1", "not 1", "3 if 0 else 4", "1 < 2 < 3"])
        if k == 6:
            return "len(\n" + self.string() + ")"
        return "(lambda *a, b=" + self.value(0) + ": (a, b))(" + self.value(0) + ")"

    def comment(self):
        return self.rng.choice(["", "  # c", "  # def root():", "  # '", '  # """', "  # </script>", "  #"])

    def doc(self, ind):
        r = self.rng
        if r.random() < 0.6:
            return []
        self.res.counts["docstrings"] += 1
        return [ind + r.choice(['"""Doc."""', "'''Doc # x\n   </script>\n'''", '"""A\n\n  B\n"""', "'one'", 'r"""\\d"""', '"""first"""\n' + ind + '"""second"""'])]

    def statements(self, annotated):
        r, out = self.rng, []
        for _ in range(r.randrange(2, 9)):
            k = r.randrange(17)
            n = self.name()
            c = self.comment()
            i = r.choice(["    ", "  ", "\t", "        "])
            if k < 5:
                out.append(f"{n} = {self.value()}{c}")
            elif k == 5:
                out += [f"def {n}f(a, b={self.value(0)}):{c}", *(self.doc(i) or [i + "pass"]), f"{n} = {n}f(1)" if 0 else f"{n} = {n}f(a=1)"]
            elif k == 6:
                out += [f"def {n}f(a, *b, c={self.value(0)}, **d):{c}", *self.doc(i), f"{i}x = {self.value(1)}", "" if r.random() < 0.5 else i + "# comment", f"{i}'a string' ; y = 5", f"{i}return [a, b, c, d, x, y]", f"{n} = {n}f({self.value(0)}, 2, e={self.value(0)})"]
            elif k == 7:
                out += [f"class {n}C({r.choice(['', 'object', 'dict'])}):{c}", *self.doc(i), f"{i}x = {self.value(1)}", f"{i}def m(self):", *self.doc(i + i), f"{i}{i}return [self.x, {self.value(0)}]", f"{n} = {n}C().m()"]
            elif k == 8:
                out += [f"if {r.choice(['1', '0', repr('#')])}:{c}", f"{i}{n} = {self.value()}", "# comment at the margin", "elif 1:" if r.random() < 0.3 else "else:", f"{i}{n} = {self.value()}"]
            elif k == 9:
                out += ["try:" + c, f"{i}raise ValueError({self.value(1)})", "except (ValueError,\n   KeyError) as e:", f"{i}{n} = e.args", "finally:", f"{i}{n}b = {self.string()}"]
                self.names.append(n + "b")
            elif k == 10:
                out += [f"{n} = []", f"for q in range(2):{c}", f"{i}{n} += [q,", f" {self.string()}]", f"else:", f"{i}{n}.append({self.string()})"]
            elif k == 11:
                out += [f"{n} = [z for z in [{self.value(1)}, 2]  # c", "   if z != 2]"]
            elif k == 12:
                out += ["import json as j, math", "from collections import (OrderedDict as OD,  # c", "   deque)", f"{n} = OD(a=j.dumps({self.string() if 0 else 'math.pi'}))"]
            elif k == 13:
                out += [f"def {n}g():", f"{i}x = 1", *self.doc(i), f"{i}def h():{c}", f"{i}{i}nonlocal x", f"{i}{i}x += 1", f"{i}{i}yield {self.value(1)}", f"{i}{i}yield x", f"{i}return list(h())", f"{n} = {n}g()"]
            elif k == 14:
                out += [f"match {self.value(1)}:", f"{i}case [*{n}]:{c}", f"{i}{i}pass", f"{i}case {n}: pass"]
            elif k == 15:
                out += [f"async def {n}f(a={self.value(0)}, *b):{c}", *(self.doc(i) or [i + "pass"]), *([f"{i}return [a, {self.string()}]"] if r.random() < 0.6 else []),
                        "try:", f"{i}{n}f().send(None)", "except StopIteration as e:", f"{i}{n} = e.value"]
                self.res.counts["async_functions"] += 1
            elif annotated:
                out += [f"def {n}f(a: Missing, b: 'quoted # x', *c: dict[Missing, \"</script>\"]) -> Missing[0]: return a", f"{n} = {n}f.__annotations__"]
            else:
                out += [f"{n} = (w := {self.string()}); {n}c = w \\", "   * 2"]
                self.names.append(n + "c")
            self.names.append(n)
            if r.random() < 0.4:
                out.append(r.choice(["", "\n\n", "# a comment", "#", "   ", '"""A string\n  in between"""', "# 'quote", "\x0c"]))
        return out


def program(rng, res):
    """Texts of the files, the name of the root, whether it is missing."""
    annotated = rng.random() < 0.3
    k = rng.choice([1, 1, 2, 3])
    root = rng.choice(["root", "root", "main", "my_root", "Root", "r\u00f6\u00f6t"])
    files, names = [], []
    for i in range(k):
        s = Source(rng, res, "abc"[i])
        body = s.statements(annotated)
        if annotated and (i == 0 or rng.random() < 0.5):
            body.insert(0, rng.choice(["from __future__ import annotations", "from __future__ import (annotations,  # c\n  )", "from __future__ import annotations; seven = 7"]))
            res.counts["future"] += 1
        if rng.random() < 0.3:
            body.insert(0, rng.choice(["# a first comment", '"""Module docs\n\n  def root():\n"""', "#!/usr/bin/env python\n# -*- coding: utf-8 -*-"]))
        names += s.names
        files.append(body)
    if annotated:
        # without it in the other files they would not mean the same on their own
        pass
    missing = rng.random() < 0.06
    defined = "_" + root + "_" if missing else root
    at = rng.randrange(k)
    inner = "return {" + ", ".join(f"{n!r}: {n}" for n in names) + "}"
    style = rng.randrange(9)
    deco = rng.choice(["", "@component\n", "@component  # c\n", "# c\n"])
    if style < 3:
        files[at].append(f"{deco}def {defined}():\n    '''Root.'''\n    {inner}")
    elif style == 3:
        res.counts["annotated_roots"] += 1
        files[at].append(f"{deco}def {defined}() -> 'dict # x':  # c\n\t{inner}")
    elif style == 4:
        files[at].append(f"{deco}def {defined}(a=1, *, b={rng.choice(['2', repr('#')])}):\n\n    {inner}")
    elif style == 5:
        files[at].append(f"def make(x):\n  def inner():\n   {inner}\n  return inner\n{defined} = make(1)")
    elif style == 6:
        res.counts["imported_roots"] += 1
        files[at].append(f"from collections import (deque, OrderedDict  # c\n  as {defined})")
    elif style == 7:
        files[at].append(rng.choice(["if 1:\n", "with open('/dev/null'):\n", "try:\n"]) + f" def {defined}():\n    {inner}\n" )
        if files[at][-1].startswith("try"):
            files[at][-1] += "finally: pass"
    else:
        files[at].append(f"{deco}def {defined} ( ) :\n     # c\n\n     {inner}")
    if missing:
        files[at].append(rng.choice([f"# def {root}():", "", f"class K:\n    def {root}(self): pass"]))
    head = "from reactpy import component\n"
    j = 1 if files[0][0].startswith(("#", '"""')) else 0
    while j < len(files[0]) and files[0][j].startswith("from __future__"):
        j += 1
    files[0].insert(j, head)
    return [rng.choice(["\n", "\n", "\n\n"]).join(f) + rng.choice(["\n", "", "\n\n  \n"]) for f in files], root, missing


def call_root(root):
    v = root()
    return v.render() if hasattr(v, "render") and not isinstance(v, dict) else v


def run_files(texts, root):
    """The value of the root of the source files themselves."""
    ns = {"__name__": "__main__"}
    for t in texts:
        exec(compile(t, "<user>", "exec", dont_inherit=True), ns)
    return call_root(ns[root])


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, *map(plain, v)]
    return v


class Mounts(list):
    pass


async def run_delivered(code):
    """What the browser's interpreter makes of a script: mounted ids and values."""
    mounts = []

    class ReactPyLayoutHandler:
        def __init__(self, uuid):
            self.uuid = uuid

        async def run(self, workspace):
            mounts.append((self.uuid, call_root(workspace if not isinstance(workspace, type) else workspace)))
    stub = types.ModuleType("reactpy.executors.pyscript.layout_handler")
    stub.ReactPyLayoutHandler = ReactPyLayoutHandler
    name = stub.__name__
    old = sys.modules.get(name)
    sys.modules[name] = stub
    before = asyncio.all_tasks()
    try:
        ns = {"__name__": "__main__", "ReactPyLayoutHandler": ReactPyLayoutHandler, "asyncio": asyncio}
        exec(compile(textwrap.dedent(code), "<pyscript>", "exec", dont_inherit=True), ns)
        tasks = [t for t in asyncio.all_tasks() if t not in before]
        await asyncio.gather(*tasks)
    finally:
        if old is None:
            del sys.modules[name]
        else:
            sys.modules[name] = old
    return mounts


def nested(toks):
    depth = []
    for t in toks:
        if t[0] == "start" and t[1] not in ("link", "meta", "br", "img", "input", "hr"):
            depth.append(t[1])
        elif t[0] == "end":
            if not depth or depth.pop() != t[1]:
                return f"</{t[1]}> ends nothing"
        elif t[0] == "broken":
            return f"broken markup {t[1]!r}"
    return f"{depth} never end" if depth else None


def find_component(toks):
    """[(attributes of the element, its content, code of the script after it)]"""
    out = []
    for i, t in enumerate(toks):
        if t[0] == "start" and t[1] == "div" and "pyscript" in t[2].get("class", "").split():
            j = span(toks, i)
            if j < len(toks) and toks[j][0] == "start" and toks[j][1] == "script" and toks[j][2].get("type") == "py":
                out.append((t[2], toks[i + 1:j - 1], toks[j + 1][1] if toks[j + 1][0] == "raw" else ""))
    return out


async def http_get(app, path="/"):
    sent = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        sent.append(m)
    await app({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "GET", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "scheme": "http",
               "headers": [], "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80)}, receive, send)
    return b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body").decode()


def vdom_tokens(v, out):
    """The markup a tree of VDOM stands for."""
    if v is None or v is False or v == "":
        return out
    if isinstance(v, str):
        out.append(("text", v))
        return out
    if isinstance(v, (list, tuple)):
        for c in v:
            vdom_tokens(c, out)
        return out
    attrs = {}
    for k, x in (v.get("attributes") or {}).items():
        attrs["class" if k == "className" else k.lower()] = x if isinstance(x, str) else str(x)
    if v["tagName"]:
        out.append(("start", v["tagName"], attrs))
    if v["tagName"] == "script":
        out.append(("raw", "".join(c for c in v.get("children") or [] if isinstance(c, str))))
    else:
        vdom_tokens(v.get("children") or [], out)
    if v["tagName"]:
        out.append(("end", v["tagName"]))
    return out


def keyless(toks):
    """Without the keys that elements may have besides."""
    return [(*t[:2], {k: v for k, v in t[2].items() if k != "key"}) if t[0] == "start" else t for t in toks]


def join_text(toks):
    out = []
    for t in toks:
        if t[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + t[1])
        else:
            out.append(t)
    return [t for t in out if t != ("text", "")]


async def deliver(kind, rng, res, paths, root, initial, page):
    from reactpy import html
    kw = {} if root == "root" and rng.random() < 0.5 else {"root": root}
    if kind == "direct":
        from reactpy.executors.pyscript.utils import pyscript_component_html
        return tokens(pyscript_component_html(tuple(paths), initial, root))
    if kind == "jinja":
        import jinja2
        env = jinja2.Environment(extensions=["reactpy.templatetags.ReactPyJinja"])
        t = env.from_string("<p>before</p>{% pyscript_component " + ", ".join(json.dumps(p) for p in paths) + ", initial=initial, root=root %}<p>after</p>")
        toks = tokens(t.render(initial=initial, root=root))
        if toks[:3] != [("start", "p", {}), ("text", "before"), ("end", "p")] or toks[-3:] != [("start", "p", {}), ("text", "after"), ("end", "p")]:
            res.bad("page", f"around a component: {toks[:4]} {toks[-4:]}")
        return toks
    if kind == "csr":
        from reactpy.executors.asgi.pyscript import ReactPyCsr
        head = html.head(html.title("T </head> é"), html.script("const x = '</head>';"), html.meta({"name": "n"})) if rng.random() < 0.5 else None
        keep = copy.deepcopy(dict(head)) if head else None
        options, want = setup_options(rng, res)
        app = ReactPyCsr(*[p if rng.random() < 0.5 else pathlib.Path(p) for p in paths], root_name=root, initial=initial, html_head=head, html_lang="fr",
                         **{k: v for k, v in (("extra_py", options["extra_py"]), ("extra_js", options["extra_js"]), ("pyscript_config", options["config"])) if v})
        text = await http_get(app)
        toks = tokens(text)
        if keep is not None and dict(head) != keep:
            res.bad("changed-head", f"{keep} became {dict(head)}")
        if toks[:2] != [("decl", "<!doctype html>"), ("start", "html", {"lang": "fr"})]:
            res.bad("page", toks[:3])
        hs = next((i for i, t in enumerate(toks) if t[:2] == ("start", "head")), None)
        if hs is None:
            res.bad("page", f"no head in {text[:500]!r}")
            return toks
        he = span(toks, hs)
        page["head"] = toks[hs + 1:he - 1]
        if head:
            res.counts["heads"] += 1
            mine = [("start", "title", {}), ("text", "T </head> é"), ("end", "title"), ("start", "script", {}), ("raw", "const x = '</head>';"), ("end", "script"), ("start", "meta", {"name": "n"})]
            if keyless(page["head"][:len(mine)]) != mine:
                res.bad("page", f"the given head became {page['head'][:9]}")
        check_setup(res, page["head"], want, "client side rendering")
        return toks
    from reactpy import pyscript_component
    from reactpy.core.layout import Layout
    given = [p if rng.random() < 0.5 else pathlib.Path(p) for p in paths]
    keys = rng.sample(["a", "b", 1, 0, "c/d", root], rng.choice([2, 3])) if rng.random() < 0.5 else [None]
    make = lambda k: pyscript_component(*given, initial=initial, **kw, **({} if k is None else {"key": k}))
    if len(keys) > 1:
        from reactpy import component

        @component
        def row():
            return html.div([make(k) for k in keys])
        comp = row()
    else:
        comp = make(*keys)
    async with Layout(comp) as layout:
        shown = {}
        for _ in range(1 + 2 * len(keys)):
            try:
                update = await asyncio.wait_for(layout.render(), 3)
            except asyncio.TimeoutError:
                break
            if __import__("os").environ.get("RTMON_VERBOSE"):
                print(update)
            toks = join_text(vdom_tokens(update["model"], []))
            found = find_component(toks)
            if found and len(keys) == 1:
                return toks
            for i, f in enumerate(found):
                shown[update["path"], i] = f, toks
            if len(shown) == len(keys):
                # several of them side by side, each for itself
                res.counts["siblings"] += 1
                ids = {f[0].get("id") for f, _ in shown.values()}
                if len(ids) != len(keys) or len({str(f[1:]).replace(f[0].get("data-uuid", " "), "") for f, _ in shown.values()}) != 1:
                    res.bad("identity", f"{keys} are shown as {[f[0] for f, _ in shown.values()]}")
                at = next(i for i, t in enumerate(toks) if t[0] == "start" and "pyscript" in t[2].get("class", "").split())
                return toks[at:span(toks, span(toks, at))]
    return []


def setup_options(rng, res):
    """Options, and the configuration they make apart from the wheel."""
    js, py, conf = {}, [], {}
    nasty = lambda: rng.choice(["a", "it's", '"q"', "</script>", "&amp;", "é", "<!--", "'", "a>b", "\\", "x'/>"])
    if rng.random() < 0.6:
        js = {f"/static/{nasty()}{i}.js": nasty() for i in range(rng.randrange(1, 4))}
        res.counts["extra_js"] += 1
    if rng.random() < 0.6:
        py = [rng.choice(["orjson", "tabulate==1.*", "pkg[extra]>=1,<2", "https://x.y/z.whl?a&b", nasty(), "/local/p-1.0-py3-none-any.whl"]) for _ in range(rng.randrange(1, 4))]
        res.counts["extra_py"] += 1
    if rng.random() < 0.6:
        conf = {rng.choice(["packages_cache", "experimental_create_proxy", "name", nasty()]): rng.choice(["always", "auto", nasty(), {"a": nasty()}, [1, nasty()], True, None]) for _ in range(rng.randrange(1, 3))}
        res.counts["user_config"] += 1
    res.counts["quotes"] += "'" in json.dumps([js, py, conf])
    return {"extra_py": py, "extra_js": js, "config": conf}, (list(py), dict(js), dict(conf))


def check_setup(res, toks, want, what):
    """The part of a page that sets PyScript up."""
    from reactpy import config
    import zipfile, reactpy
    from urllib.parse import unquote
    toks = [(*t[:2], {k: unquote(v) if k in ("src", "href") else v for k, v in t[2].items()}) if t[0] == "start" else t for t in toks]
    py, js, conf = want
    prefix = config.REACTPY_PATH_PREFIX.current
    cores = [t for t in toks if t[0] == "start" and t[1] == "script" and t[2].get("src") == f"{prefix}static/pyscript/core.js"]
    links = [t[2].get("href") for t in toks if t[0] == "start" and t[1] == "link"]
    configs = [t[2]["config"] for t in toks if t[0] == "start" and t[1] == "script" and "config" in t[2]]
    if len(cores) != 1 or cores[0][2].get("type") != "module":
        res.bad("setup", f"{what}: core script {cores} in {str(toks)[:900]}")
    if links.count(f"{prefix}static/pyscript/core.css") != 1 or (f"{prefix}static/pyscript-hide-debug.css" in links) == bool(config.REACTPY_DEBUG.current):
        res.bad("setup", f"{what}: links {links}, debug {config.REACTPY_DEBUG.current}")
    if len(configs) != 1:
        res.bad("setup", f"{what}: configurations {configs}; {toks}")
        return
    try:
        got = json.loads(configs[0])
    except ValueError as e:
        res.bad("config", f"{what}: {configs[0]!r}: {e}")
        return
    default = {"packages": [..., ..., *py], "packages_cache": "never", "js_modules": {"main": {f"{prefix}static/morphdom/morphdom-esm.js": "morphdom", **js}}}
    expect = {**default, **conf}
    g = json.loads(json.dumps(got))
    if isinstance(g.get("packages"), list) and len(g["packages"]) >= 2:
        first, second = g["packages"][:2]
        wheel = pathlib.Path(reactpy.__file__).parent / "static" / "wheels" / first.rsplit("/", 1)[-1]
        if first != f"{prefix}static/wheels/{wheel.name}" or not wheel.is_file() or not second.startswith("jsonpointer"):
            res.bad("config", f"{what}: packages {g['packages']}")
        g["packages"][:2] = [..., ...]
    if g != expect:
        res.bad("config", f"{what}: {g} instead of {expect}")
    handler = next((toks[i + 1] for i, t in enumerate(toks) if t[0] == "start" and t[1] == "script" and "config" in t[2]), None)
    if not handler or handler[0] != "raw" or "class ReactPyLayoutHandler" not in handler[1]:
        res.bad("setup", f"{what}: no handler in the script, but {str(handler)[:300]}")
    else:
        compile(handler[1], "<handler>", "exec")
    bad = nested(toks)
    if bad:
        res.bad("setup", f"{what}: {bad}")


async def setup(rng, res):
    from reactpy import config, html
    options, want = setup_options(rng, res)
    debug, prefix = rng.random() < 0.3, rng.choice(["/reactpy/", "/reactpy/", "/r/x/", "/é/"])
    how = rng.choice(["html", "jinja", "standalone", "standalone"])
    config.REACTPY_DEBUG.current, config.REACTPY_PATH_PREFIX.current = debug, prefix
    try:
        for _ in range(2):
            keep = copy.deepcopy(options)
            if how == "html":
                from reactpy.executors.pyscript.utils import pyscript_setup_html
                o = options if rng.random() < 0.5 else {**options, "extra_js": json.dumps(options["extra_js"]), "config": json.dumps(options["config"])}
                toks = tokens(pyscript_setup_html(o["extra_py"], o["extra_js"], o["config"]))
            elif how == "jinja":
                import jinja2
                env = jinja2.Environment(extensions=["reactpy.templatetags.ReactPyJinja"])
                args = [f"p{i}" for i in range(len(options["extra_py"]))]
                t = env.from_string("{% pyscript_setup " + ", ".join([*args, *(["extra_js=js"] if options["extra_js"] else []), *(["config=config"] if options["config"] else [])]) + " %}")
                toks = tokens(t.render(js=options["extra_js"] if rng.random() < 0.5 else json.dumps(options["extra_js"]), config=options["config"] if rng.random() < 0.5 else json.dumps(options["config"]),
                                       **dict(zip(args, options["extra_py"]))))
            else:
                from reactpy import component
                from reactpy.executors.asgi import ReactPy

                @component
                def root():
                    return html.div()
                if rng.random() < 0.3:
                    head = None
                elif _ == 0 or "head" not in locals() or head is None:
                    head = html.head(*rng.choice([[], [html.title("é")], [html.title("a"), html.meta({"name": "b"})]]))
                kept = copy.deepcopy(dict(head)) if head else None
                app = ReactPy(root, html_head=head, pyscript_setup=True, pyscript_options={k: v for k, v in options.items() if v}, path_prefix=prefix, debug=debug)
                if head is not None and dict(head) != kept:
                    res.bad("changed-head", f"{kept} became {dict(head)}")
                toks = tokens(await http_get(app))
                hs = next(i for i, t in enumerate(toks) if t[:2] == ("start", "head"))
                toks = [t for t in toks[hs + 1:span(toks, hs) - 1] if t[:2] not in (("start", "head"), ("end", "head"))]
                if head is not None:
                    res.counts["heads"] += 1
                    mine = join_text(vdom_tokens(kept.get("children", []), []))
                    mine = [t for t in mine if t != ("end", "meta")]
                    if keyless(toks[:len(mine)]) != mine:
                        res.bad("page", f"the given head {mine} became {toks[:len(mine) + 1]}")
            check_setup(res, toks, want, f"{how} {options}")
            if options != keep:
                res.bad("changed-options", f"{how}: {keep} became {options}")
            res.counts["setups"] += 1
            if res.violations:
                return
    finally:
        config.REACTPY_DEBUG.current, config.REACTPY_PATH_PREFIX.current = False, "/reactpy/"


def case(res, p):
    rng = random.Random(p["seed"])
    asyncio.run(asyncio.wait_for(setup(rng, res) if p["kind"] == "setup" else component_case(rng, res, p), 120))
    if p["kind"] == "setup":
        res.done(p["seed"], True)


async def component_case(rng, res, p):
    from reactpy import html
    kind = p["kind"]
    root_dir = pathlib.Path(tempfile.mkdtemp(prefix="c25-"))
    try:
        while True:
            # generated again if the files alone do not run
            texts, root, missing = program(rng, res)
            try:
                for t in texts:
                    compile("def f():\n" + textwrap.indent("x = 1\n", "    "), "", "exec")
                want = run_files(texts, root if not missing else f"_{root}_")
                break
            except (SyntaxError, NameError):
                res.counts["regenerated"] += 1
        paths = []
        for i, t in enumerate(texts):
            f = root_dir / rng.choice([f"m{i}.py", f"é {i}.py", f"d'{i}.py"])
            f.write_text(t, encoding="utf-8", newline=rng.choice(["\n", "\n", "\r\n"]))
            paths.append(str(f))
        initial, content = rng.choice([
            lambda: ("", []),
            lambda: ("<p id='i'>L é &amp; x</p><b>y</b>", [("start", "p", {"id": "i"}), ("text", "L é & x"), ("end", "p"), ("start", "b", {}), ("text", "y"), ("end", "b")]),
            lambda: (html.p({"id": "i"}, "L <é>"), [("start", "p", {"id": "i"}), ("text", "L <é>"), ("end", "p")]),
            lambda: ("just text", [("text", "just text")])])()
        what = f"{kind}: {texts!r}"
        res.counts["files"] += len(texts)
        seen = set()
        for _ in range(2):
            page = {}
            try:
                toks = await deliver(kind, rng, res, paths, root, initial, page)
            except ValueError as e:
                if missing:
                    res.counts["missing_roots"] += 1
                    break
                res.bad("refused", f"{what}: {e}")
                return
            found = find_component(toks)
            if missing and not found:
                res.counts["missing_roots"] += 1
                break
            if missing:
                res.bad("no-root", f"{what} has no {root}, but delivered {found}")
                return
            if len(found) != 1:
                res.bad("component", f"{what}: delivered {toks}")
                return
            bad = nested(toks)
            if bad:
                res.bad("component", f"{what}: {bad}")
            attrs, inside, code = found[0]
            uuid = attrs.get("data-uuid", "")
            if not re.fullmatch(r"\w+", uuid) or attrs.get("id") != f"pyscript-{uuid}" or uuid in seen:
                res.bad("identity", f"{attrs} after {seen}")
            seen.add(uuid)
            inside = keyless(inside)
            if inside != content:
                res.bad("initial", f"{initial!r} became {inside}")
            try:
                mounts = await run_delivered(code)
            except Exception as e:
                res.bad("does-not-run", f"{what}: {code!r}: {e!r}")
                return
            if [m[0] for m in mounts] != [uuid]:
                res.bad("mounts", f"{uuid}: mounted {[m[0] for m in mounts]}")
                return
            got = mounts[0][1]
            if plain(got) != plain(want):
                ks = [k for k in want if plain(got.get(k)) != plain(want[k])]
                res.bad("another-program", f"{what}: {ks[0]} is {got.get(ks[0])!r} instead of {want[ks[0]]!r} in {code!r}")
                return
            res.counts["values"] += len(want)
            res.counts["programs"] += 1
            res.counts[kind] += 1
        res.done(p["seed"], len(want) >= 5)
    finally:
        shutil.rmtree(root_dir)
