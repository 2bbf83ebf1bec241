"""C22: resolved exports are exactly the module's exports."""
import json, os, pathlib, random, shutil, subprocess, tempfile
from ..common import ROOT, rngs

TECHNIQUE = "runtime monitoring: generated and real module texts and re-export graphs served from files and from a stand-in network; the reported names are compared with those the TypeScript parser finds and with a model of the graph"
RULE = ("one case = 25 module texts of 1-12 statements in every export form among decoys (strings, templates, regular expressions, comments, properties) in random formatting; or 40 real module files found in the sandbox; "
        "or 14 graphs of 2-9 modules re-exporting one another by file and by URL, some missing, with a depth limit; non-trivial if names are exported (texts), or followed over two levels (graphs)")
ASSUME = ["destructured exports with renaming are left out: the test suite pins that the names of the properties, not of the variables, are reported", "a name re-exported by two modules counts as exported",
          "the network is a stand-in below requests"]
REQUIRE = {"texts": 2500, "names": 12000, "decoys": 60000, "graphs": 1000, "followed": 1200, "urls": 1100, "too_deep": 150, "missing": 200, "real_files": 1500, "real_names": 1500, "accepted": 2000, "refused": 1000}
CHUNK = 4
NODE = "/opt/veriftools/node/node_modules"


def cases(tier, seed):
    n = 280 if tier == "quick" else 4000
    return [{"seed": s, "kind": "graph" if i % 3 == 1 else "real" if i % 5 == 0 else "text"} for i, s in enumerate(rngs(seed, n, "c22"))]


def parse(texts):
    out = subprocess.run(["node", str(ROOT / "rtmon/js/exports.cjs")], input=json.dumps({"texts": texts}), capture_output=True, text=True, check=True)
    return json.loads(out.stdout)


def case(res, p):
    root = pathlib.Path(tempfile.mkdtemp(prefix="c22-"))
    from reactpy import config
    old = config.REACTPY_WEB_MODULES_DIR.current
    try:
        (root / "web").mkdir()
        config.REACTPY_WEB_MODULES_DIR.current = root / "web"
        {"text": text_case, "graph": graph_case, "real": real_case}[p["kind"]](res, random.Random(p["seed"]), root, p)
    finally:
        config.REACTPY_WEB_MODULES_DIR.current = old
        shutil.rmtree(root)


# ---- module texts

WORDS = ["a", "b", "Foo", "x1", "$el", "_p", "Button", "\u00e9t\u00e9", "asyncThing", "defaultValue", "fromX", "exports", "letter", "constant", "of", "get", "classy", "functional"]


class Gen:
    def __init__(self, rng, tag=""):
        self.rng, self.n, self.tag = rng, 0, tag
        self.style = rng.choice(["tight", "loose", "odd", "odd"])
        self.fakes = set()

    def name(self):
        self.n += 1
        return f"{self.rng.choice(WORDS)}{self.tag}{self.n}"

    def fake(self):
        n = "Fake" + self.name()
        self.fakes.add(n)
        return n

    def decoy(self, quote=""):
        n = self.fake()
        t = self.rng.choice(["export const %s = 1;", "export {%s};", "export function %s() {}", "export { y as %s }", "export * as %s from q;", "export class %s {}", "\\nexport let %s;", "; export var %s ", "}\\nexport {%s}"]) % n
        if quote:
            t = t.replace(quote, "")
        return t

    def join(self, *toks):
        """Tokens in some formatting."""
        out = ""
        for t in toks:
            if out:
                word = (out[-1].isalnum() or out[-1] in "_$") and (t[0].isalnum() or t[0] in "_$")
                if self.style == "tight":
                    sep = " " if word else ""
                elif self.style == "loose":
                    sep = " "
                else:
                    sep = self.rng.choice([" ", "  ", "\t", "\n", "\r\n", "/* c */", "/* %s */" % self.decoy("*"), "// %s\n" % self.decoy("\n").replace("\\n", ""), "\u00a0"] + ["", " "] * 3)
                    if word and not sep:
                        sep = " "
                    if out.endswith("/") and sep[:1] in ("/", ""):
                        sep = " " + sep
                out += sep
            out += t
        return out

    def string(self):
        r = self.rng
        q = r.choice("\"'")
        o = "'" if q == '"' else '"'
        return q + r.choice(["", "x", "\\" + q, o, "// no", "/* no", self.decoy(q), "\\\\", "`", "${", "}", "\\\n", "\\u0041", "é;"]) + q

    def template(self, d):
        r = self.rng
        parts = []
        for _ in range(r.randrange(4)):
            parts.append(r.choice(["text", "\\`", "\\${", "$", "{", "}", "'", '"', "//", "/*", "\n" + self.decoy("`").replace("\\n", "\n") + "\n", "${" + self.expr(d - 1) + "}", "${" + self.expr(d - 1) + "}"]))
        return "`" + "".join(parts) + "`"

    def regex(self):
        r = self.rng
        return "/" + r.choice(["a", "[/]", "\\/", "['\"`]", "[^/\\]]+", "(?:x|y)", "\\{", "{1,2}a".replace("{1,2}a", "b{1,2}"), "export \\{" + self.fake() + "\\}", "[{]", "\\("]) + "x/" + r.choice(["", "g", "gi"])

    def expr(self, d=2):
        r = self.rng
        k = r.randrange(17) if d > 0 else r.randrange(7)
        if k == 0:
            return r.choice(["1", "0x1f", "1.5e3", ".5", "null", "true", "this"])
        if k in (1, 2):
            return self.string()
        if k == 3:
            return self.template(d)
        if k == 4:
            return self.regex()
        if k == 5:
            return r.choice(["x", "y.z", "x.export", "x.default", "q.class", "x?.export", "x.return"])
        if k == 6:
            return "f(" + r.choice(["", "x", "x, y", "x, 'a,b'"]) + ")"
        if k == 7:
            return self.join("{", r.choice(["export", "default", "a", "'x'", "async"]), ":", self.expr(d - 1), ",", "...", "x", "}") if r.random() < 0.7 else "{}"
        if k == 8:
            return self.join("[", self.expr(d - 1), ",", self.expr(d - 1), "]")
        if k == 9:
            return self.join("(", "a", ",", "b", ")", "=>") + " " + self.block(d - 1)
        if k == 10:
            return self.join("x", "/", "y", "/", r.choice(["z", "2", "(w)"]))
        if k == 11:
            return self.join("(", self.expr(d - 1), ",", self.expr(d - 1), ")")
        if k == 12:
            return self.join("class", *r.choice([[], [self.fake()], [self.fake(), "extends", "B"], ["extends", "B"]]), "{", "m", "(", ")") + self.block(d - 1) + "}"
        if k == 13:
            return self.join("function", "(", "a", ")") + r.choice(["", "", " ", "\n"]) + self.block(d - 1)
        if k == 14:
            return self.join("x", "?", self.expr(d - 1), ":", self.expr(d - 1))
        if k == 15:
            return r.choice([lambda: self.join("typeof", "x", "===", self.string()), lambda: self.join("typeof", "x", "===", self.string()), lambda: self.join("x", r.choice(["++", "--"])), lambda: self.join(r.choice(["++", "--"]), "x"), lambda: self.join("x", "in", "y"), lambda: self.join("x", "instanceof", "B")])()
        return self.join("a", "[", self.expr(d - 1), "]", "/", "b")

    def block(self, d=1):
        r = self.rng
        body = []
        for _ in range(r.randrange(3)):
            body.append(r.choice([
                lambda: f"let {self.name()} = {self.expr(d - 1)};", lambda: f"return {self.regex()};", lambda: f"if (x) {{ y = {self.expr(d - 1)}; }}", lambda: f"if (x) {self.regex()}.test(y);",
                lambda: f"for (const i of j) {{ {self.name()}({self.expr(d - 1)}); }}", lambda: f"// {self.decoy().replace(chr(10), '')}\n", lambda: f"/* {self.decoy('*')} */", lambda: f"const {self.fake()} = {self.expr(d - 1)};",
                lambda: f"function {self.fake()}() {{}}", lambda: "x = {export: 1, default: 2};", lambda: "{ x++; }\n", lambda: "return;"])())
        return "{" + " ".join(body) + "}"

    def statement(self):
        """(text, whether it needs a semicolon or line end)"""
        r = self.rng
        k = r.choice(["let", "let", "let2", "list", "list", "func", "func", "class", "default", "ns", "from", "from", "unpack", "filler", "filler", "filler", "star"])
        j = self.join
        if k == "let":
            kw = r.choice(["let", "const", "var"])
            if kw != "const" and r.random() < 0.3:
                return j("export", kw, self.name()), True
            return j("export", kw, self.name(), "=") + " " + self.expr(), True
        if k == "unpack":
            # without renaming
            square = r.random() < 0.4
            toks = ["export", r.choice(["let", "const", "var"]), "[" if square else "{"]
            n = r.randrange(1, 4)
            for i in range(n):
                if i == n - 1 and r.random() < 0.2:
                    toks += ["...", self.name()]
                else:
                    toks += [self.name()] + (["=", self.expr(r.choice([0, 1]))] if r.random() < 0.4 else []) + ([","] if i < n - 1 else [])
            toks += ["]" if square else "}", "=", self.expr(1)]
            if r.random() < 0.3:
                toks += [",", self.name(), "=", self.expr(0)]
            return j(*toks), True
        if k == "let2":
            toks = ["export", r.choice(["let", "const", "var"])]
            for i in range(r.choice([2, 3])):
                toks += [self.name(), "=", self.expr(r.choice([0, 1, 2])), ","]
            return j(*toks[:-1]), True
        if k in ("list", "from"):
            toks = ["export", "{"]
            for _ in range(r.randrange(5)):
                a = self.name()
                toks += r.choice([[a], [self.fake(), "as", a], ["default", "as", a] if k == "from" else [a], [a]]) + [","]
            if len(toks) > 2 and r.random() < 0.6:
                toks.pop()
            if r.random() < 0.1:
                toks += ([","] if toks[-1] not in (",", "{") else []) + [self.fake(), "as", "default"]
            toks += ["}"]
            if k == "from":
                toks += ["from", r.choice(["'./m.js'", '"https://x.y/z"', "'pkg'"])]
            return j(*toks), True
        if k == "func":
            pre = r.choice([["function"], ["function"], ["async", "function"], ["function", "*"], ["async", "function", "*"]])
            head = " ".join(["export", "async function"] + pre[2:]) if pre[0] == "async" else j("export", *pre)
            return j(head, self.name(), "(", r.choice(["", "a", "a, b", "{a, b}", "...r"]), ")") + " " + self.block(), False
        if k == "class":
            return j("export", "class", self.name(), *r.choice([[], ["extends", "B"], ["extends", "f(x)"]])) + " { m() " + self.block() + " static x = 1; }", False
        if k == "default":
            if self.__dict__.setdefault("has_default", False):
                return "x = 1", True
            self.has_default = True
            return r.choice([lambda: (j("export", "default", self.expr(1)) if r.random() < .5 else "export default " + self.fake(), True), lambda: ("export default function " + self.fake() + "() " + self.block(), False),
                             lambda: ("export default{a: 1}", True), lambda: ("export default class " + self.fake() + " {}", False), lambda: ("export default (x) => " + self.block(), True), lambda: ("export default[1, 2]", True), lambda: ("export default async () => 1", True)])()
        if k == "ns":
            return j("export", "*", "as", r.choice([self.name(), self.name(), "'a b%d'" % self.n]), "from", "'./q.js'"), True
        if k == "star":
            return j("export", "*", "from", "'./none%d.js'" % r.randrange(9)), True
        return r.choice([
            lambda: ("x = " + self.expr(), True), lambda: ("// " + self.decoy().replace("\n", "") + "\n", False), lambda: ("/* " + self.decoy("*").replace("\\n", "\n") + " */", False), lambda: ("const " + self.fake() + " = " + self.expr(), True),
            lambda: ("function " + self.fake() + "() " + self.block(2), False), lambda: ("import { " + self.fake() + ", y as " + self.fake() + " } from 'z'", True), lambda: ("import 'side'", True), lambda: ("if (x) " + self.block(2) + " else " + self.block(1), False),
            lambda: ("f(" + self.expr() + ", " + self.expr() + ")", True), lambda: ("(() => " + self.block(2) + ")()", True), lambda: ("x.export", True), lambda: ("import(" + self.string() + ")", True), lambda: ("y = " + self.template(2), True), lambda: ("class " + self.fake() + " { export() {} default = 1; }", False),
            lambda: (r.choice(["let", "const", "var"]) + " " + ", ".join(self.fake() + " = " + self.expr(1) for _ in range(r.choice([2, 3]))), True), lambda: ("x = 1, " + self.fake() + " = " + self.expr(1), True),
            lambda: (r.choice(["++x", "x++", "await x", "new X", "throw x, y", "import.meta, x"]), True), lambda: ("import.meta.url", True), lambda: ("for (let i = 0; i < 1; i++) " + self.block(1), False)])()

    def module(self):
        r = self.rng
        out = r.choice(["", "", "", "\ufeff", "#!/usr/bin/env node\n", "'use strict';\n"])
        bare = r.random() < 0.3        # without semicolons, wherever the line ends a statement by itself
        for _ in range(r.randrange(1, 13)):
            t, end = self.statement()
            out += t
            if end and bare and r.random() < 0.9:
                out += r.choice(["\n", "\n", "\r\n", "\n\n", " // c, d\n", " /* e */\n"])
            elif end:
                out += r.choice([";", ";\n", ";", " ;\r\n"])
            else:
                out += r.choice(["\n", " ", "\n\n", "\r\n"] + ([""] if not self.style == "odd" else []))
        return out


def check(res, what, mod, want, exclude=()):
    got = mod.import_names
    if got is None or set(got) != set(want):
        got = set(got or ())
        res.bad("wrong-names", f"{what}: missing {sorted(set(want) - got)[:6]}, reported {sorted(got - set(want))[:6]} though not exported")
        return False
    return True


def text_case(res, rng, root, p):
    from reactpy.reactjs import component_from_string
    from reactpy.reactjs.module import string_to_module, file_to_module
    gens = []
    for i in range(25):
        g = Gen(random.Random(rng.random()))
        gens.append((g, g.module()))
    total = 0
    for i, ((g, text), info) in enumerate(zip(gens, parse([t for _, t in gens]))):
        if info["errors"]:
            res.counts["not_a_module"] += 1
            if res.sample is None:
                res.sample = [info, text[:2000]]
            continue
        res.counts["texts"] += 1
        want = info["names"]
        total += len(want)
        res.counts["names"] += len(want)
        res.counts["decoys"] += len(g.fakes)
        name = f"t{p['seed']:x}-{i}"
        if rng.random() < 0.5:
            mod = string_to_module(name, text)
        else:
            f = root / f"{name}.js"
            f.write_bytes(text.encode())
            mod = file_to_module(name, f)
        if not check(res, repr(text), mod, want):
            return
        if want:
            some = rng.sample(want, min(2, len(want)))
            component_from_string(text, some, name=name, resolve_imports=True)
            res.counts["accepted"] += len(some)
        for n in rng.sample(sorted(g.fakes), min(1, len(g.fakes))):
            if n in want:
                continue
            try:
                component_from_string(text, n, name=name, resolve_imports=True)
                res.bad("missing-name-accepted", f"{n} in {text!r}")
                return
            except ValueError:
                res.counts["refused"] += 1
    res.done(p["seed"], total > 0, res.sample)


_REAL = []


def real_files():
    if not _REAL:
        for d, ds, fs in os.walk(NODE):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".mjs", ".js")):
                    _REAL.append(os.path.join(d, f))
    return _REAL


def real_case(res, rng, root, p):
    from reactpy.reactjs.module import string_to_module
    files, texts = rng.sample(real_files(), 400), []
    for f in files:
        t = pathlib.Path(f).read_text(errors="replace")
        if "export" in t and len(t) < 60000:
            texts.append((f, t))
        if len(texts) == 100:
            break
    names = 0
    for (f, t), info in zip(texts, parse([t for _, t in texts])):
        if info["errors"] or info["destructured"] or info["stars"]:
            continue
        if any(w in t for w in ("export type ", "export interface ", "@flow")):
            continue
        res.counts["real_files"] += 1
        res.counts["real_names"] += len(info["names"])
        names += len(info["names"])
        if not check(res, f, string_to_module(f"r{p['seed']:x}-{len(f)}", t), info["names"]):
            return
    res.done(p["seed"], names > 0)


# ---- re-export graphs

def graph_case(res, rng, root, p):
    import requests
    from reactpy.reactjs.module import file_to_module, string_to_module, url_to_module
    pages = {}
    real = requests.adapters.HTTPAdapter.send

    def send(self, request, **kw):
        url = request.url
        page = pages.get(url)
        if isinstance(page, Exception):
            raise page
        r = requests.Response()
        r.request, r.url = request, url
        r.status_code = 200 if page is not None else 404
        r._content = page if page is not None else b"export const NotFoundPage = 1;"
        r.headers["content-type"] = rng.choice(["text/javascript", "application/javascript; charset=utf-8", "text/plain"])
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.reason = "x"
        return r
    requests.adapters.HTTPAdapter.send = send
    deep = False
    try:
        for gi in range(14):
            deep |= one_graph(res, rng, root / f"g{gi}", pages, requests, file_to_module, string_to_module, url_to_module)
            if res.violations:
                return
    finally:
        requests.adapters.HTTPAdapter.send = real
    res.done(p["seed"], deep)


def one_graph(res, rng, root, pages, requests, file_to_module, string_to_module, url_to_module):
    pages.clear()
    n = rng.randrange(2, 10)
    dirs = ["", "a", "a/b", "c"]
    hosts = [("https://cdn.x", ""), ("https://cdn.x", "p/q"), ("http://other.y:8080", "v1")]
    mode = rng.choice(["files", "urls", "both"])
    nodes = []
    for i in range(n):
        if mode == "files" or mode == "both" and i < n // 2:
            d = rng.choice(dirs)
            nodes.append(["file", d, f"m{i}.js"])
        else:
            h, d = rng.choice(hosts)
            q = rng.choice(["", "", "?v=1", "?deps=a/b"])
            nodes.append(["url", h, d, f"m{i}.js", q])

    def address(x):
        return root / x[1] / x[2] if x[0] == "file" else f"{x[1]}/{x[2] + '/' if x[2] else ''}{x[3]}{x[4]}"

    def ref(a, b):
        """How a can refer to b, or None."""
        if a[0] == "file":
            if b[0] == "url":
                return address(b)
            rel = os.path.relpath(root / b[1] / b[2], root / a[1])
            return rel if rel.startswith("..") else "./" + rel
        if b[0] == "file":
            return None
        opts = [address(b)]
        if a[1] == b[1]:
            opts.append("/" + address(b).split("/", 3)[3])
            base = a[2].split("/") if a[2] else []
            rel = os.path.relpath("/" + "/".join((b[2].split("/") if b[2] else []) + [b[3]]), "/" + "/".join(base)) + b[4]
            opts += [rel if rel.startswith("..") else "./" + rel] * 2
            if a[1].startswith("https:") and rng.random() < 0.3:
                opts.append("//" + address(b).split("//", 1)[1])
        return rng.choice(opts)
    own, stars, texts = [], [], []
    missing_any = 0
    for i, x in enumerate(nodes):
        g = Gen(random.Random(rng.random()), tag=f"_{i}_")
        g.style = rng.choice(["tight", "loose"])
        names, lines, st = set(), [], []
        for _ in range(rng.randrange(0, 3)):
            nm = g.name()
            names.add(nm)
            lines.append(rng.choice([f"export const {nm} = 1;", f"export {{ q as {nm} }};", f"export function {nm}() {{}}", f"export * as {nm} from './none.js';", f"export {{ x as {nm} }} from './none.js';"]))
        if rng.random() < 0.4:
            names.add("default")
            lines.append("export default 1;")
        for j in range(n):
            if rng.random() < 1.7 / n:
                r = ref(x, nodes[j])
                if r:
                    st.append(j)
                    q = rng.choice("'\"")
                    lines.append(g.join("export", "*", "from", q + r + q) + ";")
        if rng.random() < 0.25:
            missing_any += 1
            lines.append(f"export * from '{rng.choice(['./gone.js', 'react', '@s/pkg/x.js', 'https://gone.z/x.js', 'https://down.z/x.js', 'https://slow.z/x.js', 'https://loop.z/x.js'])}';")
        lines.append(rng.choice([f"// export * from './m{rng.randrange(n)}.js';", f"/* export * from './m{rng.randrange(n)}.js'; */", f"const s = \"export * from './m{rng.randrange(n)}.js'\";", "", ""]))
        rng.shuffle(lines)
        own.append(names)
        stars.append(st)
        texts.append("\n".join(lines) if not any(t.startswith("//") for t in lines) or True else "")
    pages["https://down.z/x.js"] = requests.exceptions.ConnectionError("down")
    pages["https://slow.z/x.js"] = requests.exceptions.ReadTimeout("slow")
    pages["https://loop.z/x.js"] = requests.exceptions.TooManyRedirects("loop")
    for x, t in zip(nodes, texts):
        if x[0] == "file":
            address(x).parent.mkdir(parents=True, exist_ok=True)
            address(x).write_text(t, encoding="utf-8")
        else:
            pages[address(x)] = t.encode()
    depth = rng.choice([1, 2, 2, 3, 3, 5])
    start = rng.randrange(n)
    # the model: breadth first, `depth` levels of modules
    dist, level = {start: 0}, [start]
    while level:
        level, cur = [], level
        for a in cur:
            for b in stars[a]:
                if b not in dist:
                    dist[b] = dist[a] + 1
                    level.append(b)
    want = set(own[start])
    for i, d in dist.items():
        if d < depth:
            want |= own[i] - {"default"}
    if depth == 0:
        want = set()
    x = nodes[start]
    if x[0] == "file":
        how = "file"
        mod = file_to_module(f"g{start}", address(x), resolve_imports_depth=depth)
    else:
        how = "url"
        mod = url_to_module(address(x), resolve_imports_depth=depth)
    # the entry's own default counts even where a cycle leads back to it
    ok = check(res, f"depth {depth} from {address(x)} of {[(str(address(a)), t) for a, t in zip(nodes, texts)]}", mod, want)
    res.counts["graphs"] += 1
    res.counts["followed"] += sum(0 < d < depth for d in dist.values())
    res.counts["urls"] += sum(nodes[i][0] == "url" for i, d in dist.items() if d < depth)
    res.counts["too_deep"] += any(d >= depth for d in dist.values())
    res.counts["missing"] += missing_any
    return ok and sum(1 < d < depth for d in dist.values()) > 0
