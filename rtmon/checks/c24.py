"""C24: source rewriting tools change only what they must."""
import ast, io, os, pathlib, random, re, shutil, tempfile, tokenize
from ..common import REPO, rngs

TECHNIQUE = "runtime monitoring: the rewriting commands run over scratch trees of generated and real source files; an independent model of the documented rewrite over syntax trees, and comment, line and byte ledgers, judge every file"
RULE = ("one case = a directory of 10 generated modules (element calls in every kind of statement and expression, non-ASCII text, multi-line calls with comments, f-strings, decorators, one-line blocks, continuation lines, CRLF, BOM and declared encodings) or 10 real files with some of their props in snake case, "
        "rewritten by one of the commands twice; non-trivial if files were rewritten and others left alone")
ASSUME = ["a plain name is an element constructor if it is a standard tag; other callees as documented", "a comment inside a rewritten call may move, but stays", "sources are valid Python 3.12"]
REQUIRE = {"files": 4500, "rewritten": 2000, "untouched": 1000, "calls": 7000, "comments": 15000, "lines_kept": 60000, "fstrings": 150, "encodings": 300, "crlf": 500, "real": 900, "non_ascii": 1500}
CHUNK = 6


def cases(tier, seed):
    n = 540 if tier == "quick" else 8000
    return [{"seed": s, "kind": "real" if i % 4 == 3 else "made"} for i, s in enumerate(rngs(seed, n, "c24"))]


TAGS = None


def is_constructor(func):
    if isinstance(func, ast.Attribute):
        v = func.value
        return func.attr if isinstance(v, ast.Name) and v.id == "html" or isinstance(v, ast.Attribute) and v.attr == "html" else None
    if isinstance(func, ast.Name) and (func.id == "vdom" or func.id in TAGS):
        return func.id
    return None


def is_props(n):
    return isinstance(n, ast.Dict) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict"


def conv(name):
    import keyword
    if keyword.iskeyword(name) or "_" not in name:
        return name
    a, *b = name.split("_")
    return a + "".join(x.title() for x in b)


class Model:
    """The documented rewrites; `changed` are the calls they change."""

    def __init__(self, tree, mode):
        self.changed = []
        for n in list(ast.walk(tree)):
            if isinstance(n, ast.Call):
                name = is_constructor(n.func)
                if name and (self.keys if mode == "keys" else self.props)(n, int(name == "vdom")):
                    self.changed.append(n)

    def keys(self, n, i):
        kw = next((k for k in n.keywords if k.arg == "key"), None)
        if kw is None or len(n.args) < i or any(isinstance(a, ast.Starred) for a in n.args[:i + 1]):
            return False
        if len(n.args) == i or isinstance(n.args[i], (ast.Constant, ast.JoinedStr)):
            n.args.insert(i, ast.Dict(keys=[], values=[]))
        p = n.args[i]
        if not is_props(p):
            return False
        if isinstance(p, ast.Dict):
            p.keys.append(ast.Constant("key"))
            p.values.append(kw.value)
        elif any(k.arg == "key" for k in p.keywords):
            return False
        else:
            p.keywords.append(ast.keyword("key", kw.value))
        n.keywords.remove(kw)
        return True

    def props(self, n, i):
        return len(n.args) > i and not any(isinstance(a, ast.Starred) for a in n.args[:i]) and is_props(n.args[i]) and self.convert(n.args[i])

    def convert(self, p, style=False):
        did = False
        if isinstance(p, ast.Dict):
            for j, k in enumerate(p.keys):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    if k.value == "style" and is_props(p.values[j]):
                        did |= not style and self.convert(p.values[j], True)
                    elif conv(k.value) != k.value:
                        p.keys[j] = ast.Constant(conv(k.value))
                        did = True
        else:
            import keyword
            names = {k.arg for k in p.keywords}
            for k in p.keywords:
                if k.arg == "style" and is_props(k.value):
                    did |= not style and self.convert(k.value, True)
                elif k.arg and conv(k.arg) != k.arg:
                    new = conv(k.arg)
                    if new.isidentifier() and not keyword.iskeyword(new) and new not in names:
                        names.add(new)
                        k.arg = new
                        did = True
        return did


def dump(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
            n.kind = None
    return ast.dump(tree)


def lines_of(text):
    return [x for x in re.split(r"(?<=\n)|(?<=\r)(?!\n)", text) if x]


def comments_of(text):
    return sorted(t.string for t in tokenize.generate_tokens(iter(lines_of(text)).__next__) if t.type == tokenize.COMMENT)


def kept_lines(text, tree, changed):
    """Lines outside of every changed call (and of f-strings around them)."""
    touched = set()

    def visit(n, outer):
        if isinstance(n, ast.JoinedStr):
            outer = outer or n
        if any(n is c for c in changed):
            m = outer or n
            touched.update(range(m.lineno, m.end_lineno + 1))
        for c in ast.iter_child_nodes(n):
            visit(c, outer)
    visit(tree, None)
    return [l for i, l in enumerate(lines_of(text), 1) if i not in touched]


def is_subsequence(small, big):
    it = iter(big)
    return next((s for s in small if not any(s == b for b in it)), None)


# ---- generated modules

class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0
        self.exotic = rng.random() < 0.6

    def comment(self):
        self.n += 1
        return f"# c{self.n} {self.rng.choice(['', 'é', 'html.div(key=1)', '中文', '\"', chr(39), '(', 'a_b'])}"

    def gap(self, d, nl=0.3):
        """Space inside brackets."""
        r = self.rng
        if r.random() < nl:
            out = ""
            if r.random() < 0.3:
                out += "  " + self.comment()
            out += "\n" + " " * r.choice([0, 2, 4, 8, d * 2])
            if r.random() < 0.15:
                out += self.comment() + "\n" + " " * r.choice([0, 4])
            return out
        return r.choice(["", "", " "])

    def string(self, safe=False):
        r = self.rng
        t = r.choice(["x", "é", "中文字", "a_b", "#no", "(", "", "it's" if not safe else "its"]) if self.exotic else r.choice(["x", "a_b", "#no", ""])
        if safe:
            return repr(t) if '"' not in t else "'q'"
        k = r.random()
        if k < 0.08:
            return '"""multi\n  line é\n"""' if self.exotic else '"""multi\n  line\n"""'
        if k < 0.14:
            return f"r'\\d{t.replace(chr(39), '')}'"
        if k < 0.2:
            return f"b'x'"
        if k < 0.24:
            return '"\\u4e2d\\n"'
        return r.choice([repr(t), '"' + t + '"', "'a' " + repr(t)])

    def atom(self):
        r = self.rng
        return r.choice([lambda: r.choice(["x", "y", "props", "children"] + (["naïve", "été"] if self.exotic else [])), lambda: self.string(), lambda: str(r.randrange(100)), lambda: "None", lambda: "x.y", lambda: "f(x)"])()

    def expr(self, d):
        """An expression that may stand anywhere (atomic or in its own brackets)."""
        r = self.rng
        if d <= 0:
            return self.atom()
        k = r.randrange(16)
        g = self.gap
        if k < 5:
            return self.element(d)
        if k == 5:
            return "[" + g(d) + ("," + g(d)).join(self.expr(d - 1) for _ in range(r.randrange(1, 3))) + g(d) + "]"
        if k == 6:
            return "{" + g(d) + self.string().replace("b'x'", "'b'").replace("r'", "'").replace("\\d", "d") + ":" + g(d) + self.expr(d - 1) + "}"
        if k == 7:
            return "(" + self.expr(d - 1) + g(d) + r.choice([" + ", " if x else ", ", ", " or "]).replace(" if x else ", " if x else ") + g(d) + self.expr(d - 1) + ")"
        if k == 8:
            return "(lambda a: " + self.expr(d - 1) + ")"
        if k == 9:
            return "[" + self.expr(d - 1) + g(d) + " for i in " + g(d, 0.1) + "range(3)" + g(d) + "]"
        if k == 10:
            return r.choice(["f", "sorted", "max", "json.dumps", "print", "not_html.div", "obj.render"]) + "(" + g(d) + self.expr(d - 1) + r.choice(["", ", key=x", ", some_key=1"]) + g(d) + ")"
        if k == 11:
            q = r.choice(["\"", "'", '"""'])
            inner = self.element(1, flat=True)
            if q in inner or "\\" in inner or "#" in inner or (q == '"""' and '"' in inner):
                inner = "x"
            else:
                self.fs = getattr(self, "fs", 0) + 1
            return f"f{q}{r.choice(['', 'é ' if self.exotic else 'e '])}{{{inner}}}{r.choice(['', '{y!r}', ':>'])}{q}"
        if k == 12:
            return "(" + g(d) + self.expr(d - 1) + g(d) + ")"
        if k == 13:
            return "f(" + g(d) + "*" + self.expr(d - 1) + ", " + "**" + self.expr(d - 1) + ")"
        if k == 14:
            return "(z := " + self.expr(d - 1) + ")"
        return self.atom()

    def prop_name(self):
        return self.rng.choice(["on_click", "class_name", "className", "id", "data-x_y", "aria-label", "style", "key2", "a__b", "font_size", "_private", "for_", "class_", "_", "x_1"] + (["größe_x"] if self.exotic else []))

    def props(self, d, flat=False):
        r = self.rng
        g = (lambda *a: r.choice(["", " "])) if flat else self.gap
        kv = lambda: (self.string(True) if flat else self.expr(d - 1)) if d > 0 else r.choice(["1", "x"])
        if r.random() < 0.65:
            items = []
            for _ in range(r.randrange(4)):
                n = self.prop_name()
                if n == "style" and r.random() < 0.8:
                    v = r.choice(["{'font_size': 1, 'style': {'a_b': 1}}", "dict(font_size=1)", "{'fontSize': 1}", "{}", "style", "f(a_b=1)"])
                else:
                    v = kv()
                items.append(f"{repr(n)}:{g(d)}{v}")
            if r.random() < 0.15:
                items.append("**props")
            if r.random() < 0.1:
                items.append("x: 1")
            return "{" + g(d) + ("," + g(d)).join(items) + ("," if items and r.random() < 0.2 else "") + g(d) + "}"
        names = [n for n in {self.prop_name() for _ in range(r.randrange(4))} if n.isidentifier()]
        names.sort()
        r.shuffle(names)
        items = [f"{n}={'dict(font_size=1)' if n == 'style' else kv()}" for n in names]
        if r.random() < 0.2:
            items.insert(0, "base")
        if r.random() < 0.2:
            items.append("**props")
        if r.random() < 0.06 and "key" not in names:
            items.append("key=5")
        return "dict(" + g(d) + ("," + g(d)).join(items) + g(d) + ")"

    def element(self, d, flat=False):
        r = self.rng
        g = (lambda *a: r.choice(["", " "])) if flat else self.gap
        name = r.choice(["html.div", "html.span", "html.custom_el", "reactpy.html.p", "a.b.html.button", "div", "vdom", "vdom", "html.div"])
        args = []
        if name == "vdom" and r.random() < 0.95:
            args.append(r.choice(["'div'", "tag", "*parts"]) if r.random() < 0.9 else "'a'")
        k = r.random()
        if k < 0.6:
            args.append(self.props(d - 1, flat))
        elif k < 0.75:
            args.append(self.string(True) if flat else self.string())
        for _ in range(r.choice([0, 0, 1, 2])):
            args.append((r.choice(["x", "'c'"]) if flat else self.expr(d - 1)))
        if r.random() < 0.1:
            args.append("*children")
        if r.random() < 0.5:
            args.append("key=" + (r.choice(["x", "1"]) if flat else self.expr(min(d - 1, 1))))
        if r.random() < 0.08:
            args.append("other_kw=1")
        if r.random() < 0.06:
            args.append("**kw")
        return name + ("" if r.random() < 0.95 or flat else " ") + "(" + g(d) + ("," + g(d)).join(args) + ("," if args and r.random() < 0.15 else "") + g(d) + ")"

    def simple(self):
        r = self.rng
        e = self.expr(r.choice([1, 2, 3]))
        return r.choice([lambda: f"v = {e}", lambda: e if not e.startswith(("f'", 'f"')) else e, lambda: f"v: int = {e}", lambda: f"v += {e}", lambda: f"assert {e}, {self.atom()}", lambda: f"v = w = {e}", lambda: f"del a[{e}]", lambda: f"v = {self.atom()} + {e}",
                         lambda: f"v = {self.atom()}, {e}", lambda: f"v = \\\n    {e}", lambda: f"v = {self.atom()} if \\\n x else {e}", lambda: f"v = not {e}", lambda: f"import a_b; v = {e}", lambda: f"v = {self.string()}; {e}; w = {self.expr(1)}"])()

    def tail(self):
        return self.rng.choice(["", "", "  " + self.comment(), " ;" if self.rng.random() < 0.2 else ""])

    def block(self, depth, ind, infunc=None):
        """Lines of an indented block."""
        r = self.rng
        out = []
        pad = self.unit * ind
        if r.random() < 0.2:
            out.append(pad + self.comment())
        for _ in range(r.randrange(1, 4)):
            out += self.statement(depth, ind, infunc)
            if r.random() < 0.2:
                out.append(r.choice(["", pad + self.comment(), " ", self.comment()]))
        return out

    def statement(self, depth, ind, infunc):
        r = self.rng
        pad = self.unit * ind
        k = r.randrange(14) if depth > 0 else r.randrange(4)
        e = lambda: self.expr(r.choice([1, 2]))
        if k < 4:
            if infunc and r.random() < 0.4:
                kinds = ["return "] + (["await ", "yield "] if infunc == "async" else ["yield "] if infunc == "gen" else [])
                if infunc == "async":
                    kinds = ["yield ", "await ", "v = await "]
                return [pad + r.choice(kinds) + e() + self.tail().replace(" ;", "")]
            return [pad + self.simple() + self.tail()]
        if k == 4 or k == 5:
            head = pad + f"if {e()}:"
            if r.random() < 0.3:
                out = [head + " " + self.simple_flat() + self.tail().replace(" ;", "")]
            else:
                out = [head + self.tail().replace(" ;", "")] + self.block(depth - 1, ind + 1, infunc)
            for _ in range(r.randrange(3)):
                out.append(pad + f"elif {e()}:" + (" " + self.simple_flat() if r.random() < 0.4 else self.tail().replace(" ;", "") + "\n" + "\n".join(self.block(depth - 1, ind + 1, infunc))))
            if r.random() < 0.5:
                out.append(pad + "else:" + (" " + self.simple_flat() if r.random() < 0.4 else "\n" + "\n".join(self.block(depth - 1, ind + 1, infunc))))
            return out
        if k == 6:
            return [pad + f"for i in {e()}:" + self.tail().replace(" ;", "")] + self.block(depth - 1, ind + 1, infunc)
        if k == 7:
            return [pad + f"with {e()} as q, {e()}:"] + self.block(depth - 1, ind + 1, infunc)
        if k == 8:
            return [pad + "try:"] + self.block(depth - 1, ind + 1, infunc) + [pad + f"except {e()}:"] + self.block(depth - 1, ind + 1, infunc)
        if k == 9:
            return [pad + f"match {e()}:", pad + self.unit + f"case 1 if {e()}:"] + self.block(depth - 1, ind + 2, infunc)
        if k == 10:
            return [pad + f"while {e()}: {self.simple_flat()}"]
        if k in (11, 12):
            kind = r.choice(["def", "async"])
            out = [pad + f"@{r.choice(['deco', 'deco(' + e() + ')'])}" + self.tail().replace(" ;", "") for _ in range(r.choice([0, 0, 1, 2]))]
            head = pad + ("async def" if kind == "async" else "def") + f" fn(a, b={e()}, *, c: {e()} = {e()})" + (f" -> {e()}" if r.random() < 0.3 else "") + ":"
            if r.random() < 0.3:
                return out + [head + f" {r.choice(['return ', ''])}{self.expr(1)}"]
            doc = [pad + self.unit + '"""Doc é\n    more\n  # not a comment\n"""'] if r.random() < 0.3 else []
            return out + [head] + doc + self.block(depth - 1, ind + 1, "async" if kind == "async" else r.choice(["def", "gen"]))
        return [pad + f"class K({e()}, metaclass={e()}):"] + self.block(depth - 1, ind + 1)

    def simple_flat(self):
        return self.rng.choice(["pass", "v = " + self.element(1, True), self.element(1, True), "v = 1; " + self.element(1, True), "v = " + self.element(2)])

    def module(self):
        r = self.rng
        self.unit = r.choice(["    ", "    ", "  ", "\t"])
        out = []
        for _ in range(r.randrange(1, 7)):
            out += self.statement(2, 0, None)
            if r.random() < 0.3:
                out.append(r.choice(["", self.comment(), "\x0c", "\n", "# type: ignore"]))
        return "\n".join(out) + r.choice(["\n", "\n", "", "\n\n"])


def made(rng):
    for _ in range(30):
        g = Gen(rng)
        text = g.module()
        enc = None
        k = rng.random()
        if k < 0.1:
            enc, text = "utf-8-sig", text
        elif k < 0.15:
            enc, text = "utf-8", "# -*- coding: utf-8 -*-\n" + text
        elif k < 0.2:
            enc, text = "latin-1", "#!/usr/bin/python\n# -*- coding: latin-1 -*-\n" + text
        elif k < 0.23:
            enc, text = "cp1252", "# vim: set fileencoding=cp1252 :\n" + text
        crlf = rng.random() < 0.2
        if crlf:
            text = text.replace("\n", "\r\n")
        try:
            ast.parse(text)
            data = text.encode(enc or "utf-8")
        except (SyntaxError, UnicodeEncodeError, ValueError):
            continue
        return data, enc, crlf, getattr(g, "fs", 0)
    return b"x = 1\n", None, False, 0


_REAL = []


def real(rng):
    if not _REAL:
        for root in (REPO / "docs", REPO / "src", REPO / "tests", pathlib.Path(os.__file__).parent):
            fs = sorted(str(f) for f in root.rglob("*.py") if "test" not in str(f.relative_to(root)) or root.name == "tests" and "test_console" not in str(f))
            _REAL.append([f for f in fs if os.path.getsize(f) < 60000])
    for _ in range(50):
        pool = rng.choice(_REAL)
        if not pool:
            continue
        data = pathlib.Path(rng.choice(pool)).read_bytes()
        text = data.decode("utf-8", "surrogateescape")
        if rng.random() < 0.7:
            def snake(m):
                return m[1] + m[2] + re.sub(r"[A-Z]", lambda c: "_" + c[0].lower(), m[3]) + m[4] if rng.random() < 0.6 else m[0]
            text = re.sub(r"""([{,]\s*)(["'])([a-z]+(?:[A-Z][a-z]+)+)(["']\s*:)""", snake, text)
        if rng.random() < 0.7:
            # a key on some element calls without arguments after the first line
            text = re.sub(r"html\.(\w+)\(\n?\s*([\"'][^\"'\n]*[\"'])\)", lambda m: f"html.{m[1]}({m[2]}, key='k')" if rng.random() < 0.5 else m[0], text)
        try:
            tokenize.detect_encoding(io.BytesIO(text.encode("utf-8", "surrogateescape")).readline)
            ast.parse(text)
            return text.encode("utf-8"), None, "\r\n" in text, 0
        except (SyntaxError, ValueError, RecursionError):
            continue
    return b"x = 1\n", None, False, 0


def decode(data):
    enc, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
    return data.decode(enc)


def case(res, p):
    global TAGS
    from click.testing import CliRunner
    from reactpy import html
    from reactpy._console.rewrite_keys import rewrite_keys
    from reactpy._console.rewrite_props import rewrite_props
    TAGS = TAGS or {"fragment", *type(html).__annotations__}
    rng = random.Random(p["seed"])
    mode = rng.choice(["keys", "props"])
    command = rewrite_keys if mode == "keys" else rewrite_props
    root = pathlib.Path(tempfile.mkdtemp(prefix="c24-"))
    try:
        files = {}
        for i in range(10):
            f = root / rng.choice(["", "sub", "sub/deep"]) / f"m{i}.py"
            f.parent.mkdir(parents=True, exist_ok=True)
            files[f] = (made if p["kind"] == "made" else real)(rng)
            f.write_bytes(files[f][0])
        other = {root / "notes.txt": b"html.div(key=1)\r\n", root / "sub2.pyi": b"html.div({'a_b': 1}, key=1)"}
        for f, d in other.items():
            f.write_bytes(d)
        given = [str(root)] if rng.random() < 0.7 else [str(f) for f in files]
        n = 0
        first = {}
        for turn in (1, 2):
            r = CliRunner().invoke(command, given)
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                last = None
                for f, d in files.items():
                    if CliRunner().invoke(command, [str(f)]).exception is not None:
                        last = decode(d[0])
                        break
                res.bad("failed", f"{mode}: {r.exception!r} on {last!r}")
                return
            for f, (data, enc, crlf, fs) in files.items():
                new = f.read_bytes()
                if turn == 2:
                    if new != first[f]:
                        res.bad("not-idempotent", f"{mode}: {decode(data)!r} became {decode(first[f])!r} and then {decode(new)!r}")
                        return
                    continue
                first[f] = new
                n += judge(res, mode, data, new, enc, crlf, fs)
                if res.violations:
                    return
                res.counts["real"] += p["kind"] == "real"
        for f, d in other.items():
            if f.read_bytes() != d:
                res.bad("other-file-changed", f.name)
        rest = {f for f in root.rglob("*") if f.is_file()} - set(files) - set(other)
        if rest:
            res.bad("left-over", rest)
        res.done(p["seed"], 0 < n < 10)
    finally:
        shutil.rmtree(root)


def judge(res, mode, data, new, enc, crlf, fs):
    res.counts["files"] += 1
    text = decode(data)
    plain = text
    tree = ast.parse(plain)
    original = ast.parse(plain)
    index = {id(n): m for n, m in zip(ast.walk(tree), ast.walk(original))}
    model = Model(tree, mode)
    if not model.changed:
        res.counts["untouched"] += 1
        if new != data:
            res.bad("changed-without-need", f"{mode}: {text!r} became {new!r}")
        return 0
    res.counts["rewritten"] += 1
    res.counts["calls"] += len(model.changed)
    res.counts["fstrings"] += fs
    res.counts["encodings"] += enc is not None
    res.counts["crlf"] += crlf
    res.counts["non_ascii"] += not text.isascii()
    what = f"{mode} ({enc or 'utf-8'}): {text!r} became "
    try:
        result = decode(new)
        got = ast.parse(result)
    except (SyntaxError, UnicodeDecodeError) as e:
        res.bad("does-not-parse", f"{what}{new!r}: {e!r}")
        return 1
    if new[:3] == b"\xef\xbb\xbf" and data[:3] != b"\xef\xbb\xbf" or data[:3] == b"\xef\xbb\xbf" and new[:3] != b"\xef\xbb\xbf":
        res.bad("byte-order-mark", what + repr(new))
    if dump(got) != dump(tree):
        res.bad("another-program", f"{what}{result!r}, which is {first_difference(dump(got), dump(tree))}")
        return 1
    a, b = comments_of(text), comments_of(result)
    res.counts["comments"] += len(a)
    if a != b:
        res.bad("comments", f"{what}{result!r}: {sorted(set(a) - set(b))} lost, {[c for c in b if b.count(c) > a.count(c)]} added")
        return 1
    kept = kept_lines(text, original, [index[id(c)] for c in model.changed])
    res.counts["lines_kept"] += len(kept)
    lost = is_subsequence(kept, lines_of(result))
    if lost is not None:
        res.bad("line-changed", f"{what}{result!r}: the line {lost!r} is gone")
    return 1


def first_difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 60):i + 60]}... instead of ...{b[max(0, i - 60):i + 60]}..."
