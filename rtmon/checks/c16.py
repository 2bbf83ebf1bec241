"""C16: HTML conversion is safe and faithful in both directions."""
import asyncio, html as pyhtml, html.parser, random, re, urllib.parse
from ..common import rngs

TECHNIQUE = ("runtime monitoring: markup produced from random views is parsed back by an independent HTML parser and compared; views "
             "produced from random and damaged markup are compared with the generated document, the parsed tree and the form state a browser gives it")
RULE = ("one case = 25 views converted to HTML (hostile text and attribute values, raw text elements, fragments, components, styles) and 25 "
        "documents converted to views (entities, quirks of writing, form controls, styles, links, void elements), plus damaged documents; "
        "a part is rendered; non-trivial if form controls or hostile text occurred")
ASSUME = ["text consists of characters XML allows (others are rejected with an error)", "elements are nested as HTML allows",
          "handlers and inline scripts have no place in HTML output", "URL valued attributes may come out percent-encoded",
          "white space between block elements is not significant"]
REQUIRE = {"to_html": 10000, "from_html": 10000, "texts": 30000, "attributes": 30000, "selects": 2000, "options": 4000, "inputs": 2000,
           "textareas": 1000, "raw_text": 500, "rendered": 800, "damaged": 3000, "styles": 2000, "void_in_flow": 500, "style_numbers": 500, "text_components": 300, "inline_blanks": 300, "flags": 5000, "replaced": 3000, "svg": 6000}
CHUNK = 20
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
HOSTILE = ["<", ">", "&", "\"", "'", "&amp;", "&lt;b&gt;", "<b>", "</div>", "</p><script>", "<!--", "-->", "]]>", "&#39;", "&nbsp", "\u00a0", "\u00e9", "\U0001f600",
           "\u2028", "\x85", "\x93", "a", "b c", "0", "=", "`", "{}", "&{x}", "<?pi?>", "<![CDATA[", "javascript:alert(1)", "\t", "x\ny", "\\", "%20", "onload=x"]
BOOLEAN = {"checked", "disabled", "multiple", "required", "readonly", "hidden", "autofocus", "defer", "async", "controls", "loop", "muted", "open", "selected", "novalidate",
           "defaultchecked", "ismap", "nowrap", "noshade", "compact", "declare", "noresize"}
# the client sets a property of the same name, for which an empty string is false
PROPERTIES = {"async", "autofocus", "autoplay", "controls", "default", "checked", "defer", "disabled", "formnovalidate", "hidden", "inert", "loop", "multiple", "muted", "nomodule", "open",
              "readonly", "required", "reversed"}
FLAGS = {"video": ["autoplay", "controls", "loop", "muted", "playsinline"], "details": ["open"], "ol": ["reversed"], "form": ["novalidate"], "iframe": ["allowfullscreen"],
         "button": ["disabled", "formnovalidate", "autofocus"], "input": ["required", "readonly", "autofocus", "formnovalidate", "multiple"], "script": ["async", "defer", "nomodule"],
         "track": ["default"], "textarea": ["required", "readonly", "disabled"], "select": ["required", "disabled"], "fieldset": ["disabled"], "": ["hidden", "inert", "itemscope"]}
URLS = {"href", "src", "action", "name"}


def cases(tier, seed):
    n = 2400 if tier == "quick" else 30000
    return [{"seed": s, "n": 25} for s in rngs(seed, n, "c16")]


class Builder(html.parser.HTMLParser):
    """Tokens of Python's HTML parser put together to a tree, without any repair."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ["", {}, []]
        self.stack = [self.root]
        self.problems = []

    def handle_starttag(self, tag, attrs):
        d = {}
        for k, v in attrs:
            if k in d:
                self.problems.append(f"attribute {k} twice")
            d[k] = "" if v is None else v
        el = [tag, d, []]
        self.stack[-1][2].append(el)
        if tag not in VOID:
            self.stack.append(el)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if len(self.stack) == 1 or self.stack[-1][0] != tag:
            self.problems.append(f"unexpected </{tag}>")
        else:
            if tag == "script" and never_ends("".join(self.stack[-1][2])):
                self.problems.append(f"to a browser </script> does not end the script {self.stack[-1][2]}")
            self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][2].append(data)

    def handle_comment(self, data):
        self.problems.append(f"comment {data!r}")

    def handle_decl(self, d):
        self.problems.append(f"declaration {d!r}")

    def handle_pi(self, d):
        self.problems.append(f"instruction {d!r}")

    def unknown_decl(self, d):
        self.problems.append(f"declaration {d!r}")


def never_ends(script):
    """Whether a browser takes the end tag of this script for a part of it ("script data double escaped state")."""
    i = script.find("<!--")
    while i >= 0:
        j = script.find("-->", i + 2)
        if j < 0:
            return re.search(r"<script[\s/>]", script[i + 4:], re.I) is not None
        i = script.find("<!--", j + 3)
    return False


def parse(markup):
    b = Builder()
    b.feed(markup.replace("\r\n", "\n").replace("\r", "\n"))
    b.close()
    if len(b.stack) > 1:
        b.problems.append(f"<{b.stack[-1][0]}> not closed")
    return merge(b.root), b.problems


def merge(node):
    tag, attrs, kids = node
    out = []
    for k in kids:
        if isinstance(k, str):
            if k == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += k
            else:
                out.append(k)
        else:
            out.append(merge(k))
    return [tag, attrs, out]


def text(rng, res):
    res.counts["texts"] += 1
    return "".join(rng.choice(HOSTILE) for _ in range(rng.choice([1, 1, 2, 4])))


# ---------------------------------------------------------------------------- view -> HTML

def kebab(k):
    if k.startswith("--"):
        return k
    return re.sub("([A-Z])", lambda m: "-" + m.group(1).lower(), k)


# whether a number stands for pixels
STYLES = {"color": True, "fontSize": True, "backgroundColor": True, "--myVar": False, "WebkitFilter": True, "z-index": False, "zIndex": False, "lineHeight": False, "marginLeft": True,
          "flexGrow": False, "opacity": False, "WebkitLineClamp": False, "margin-top": True, "MozTabSize": False, "fontWeight": False, "outlineOffset": True, "order": False, "objectPosition": True}


def pixels(res, k, v):
    if isinstance(v, str):
        return v
    res.counts["style_numbers"] += 1
    return f"{v}px" if STYLES[k] else str(v)


def gen_attrs(rng, res, tag):
    """(attributes given, attributes expected in the markup)"""
    given, want = {}, {}
    names = ["id", "title", "className", "htmlFor", "href", "data-x", "data-camelCase", "aria-label", "tabIndex", "style", "alt", "disabled", "value", "x-y",
             "onclick", "role", "acceptCharset", "httpEquiv", "type", "lang", "hidden", "autoFocus", "key"]
    for n in rng.sample(names, rng.choice([0, 0, 1, 2, 5])):
        res.counts["attributes"] += 1
        low = {"className": "class", "htmlFor": "for", "acceptCharset": "accept-charset", "httpEquiv": "http-equiv"}.get(n, n.lower())
        if n == "style" and rng.random() < 0.8:
            res.counts["styles"] += 1
            v = {k: rng.choice(["red", 5, 0, 1.5, "1px solid \"x\"", "url('a;b')", "<x>", None]) for k in
                 rng.sample(list(STYLES), rng.choice([0, 1, 2, 3]))}
            given[n], want[low] = v, ";".join(f"{kebab(k)}:{pixels(res, k, x)}" for k, x in v.items() if x is not None)
            continue
        v = rng.choice([text(rng, res), text(rng, res), "", 0, 1.5, True, False, None])
        given[n] = v
        if v is None or (v is False and not low.startswith(("data-", "aria-"))):
            continue
        want[low] = str(v)
    return given, want


def gen_view(rng, res, depth=0, inline=False):
    """(what is given to ReactPy, list of expected nodes)"""
    from reactpy import component
    from reactpy import html as h
    x = rng.random()
    if depth and x < 0.3:
        v = rng.choice([text(rng, res), text(rng, res), text(rng, res), "", 0, 1.5, None])
        return v, ([] if v is None else [str(v)])
    if depth < 5 and x < 0.38:
        pairs = [gen_view(rng, res, depth + 1, inline) for _ in range(rng.randrange(4))]
        return h.fragment(*[p[0] for p in pairs if type(p[0]) is not dict or True]) if not (pairs and type(pairs[0][0]) is dict) else h.fragment({}, *[p[0] for p in pairs]), \
            [n for p in pairs for n in p[1]]
    if depth < 5 and x < 0.48:
        g, w = gen_view(rng, res, depth + 1, inline)
        if g is not None and not isinstance(g, dict) and not hasattr(g, "render"):
            if inline:
                return g, w
            res.counts["text_components"] += 1
            w = [["div", {}, [x for x in w if x]]]   # the element around it is pinned by the existing tests

        @component
        def C():
            return g
        return C(), w
    g, w = gen_el(rng, res, depth, inline)
    return g, [w]


def gen_el(rng, res, depth, inline):
    from reactpy import event
    from reactpy.core.vdom import Vdom
    x = rng.random()
    if x < 0.1:
        tag = rng.choice(["br", "img", "input", "wbr", "hr" if not inline else "br", "embed"])
        given, want = gen_attrs(rng, res, tag)
        return Vdom(tag)(given), [tag, want, []]
    given, want = gen_attrs(rng, res, "div")
    if x < 0.2:
        tag = rng.choice(["script", "style"])
        res.counts["raw_text"] += 1
        s = "".join(rng.choice(["let x = 1;", "a<b && c>d", "'\u00e9'", "&lt;", "\U0001f600", "</div>", "'</script>'", "\"</STYLE >\"", "/* <!-- */", "<script>", "\x93", "a > b {}", "/*<!--\n", "<!--", "-->", "<SCRIPT src=x>"])
                    for _ in range(rng.choice([0, 1, 2, 3])))
        return Vdom(tag)(given, s), [tag, want, [s] if s else []]
    if x < 0.25:
        tag = rng.choice(["textarea", "title", "option"])
        s = text(rng, res).lstrip("\n")
        return Vdom(tag)(given, s), [tag, want, [s] if s else []]
    tag = rng.choice(["b", "span", "em", "i", "my-elem"] if inline else ["div", "section", "ul", "span", "p", "h1", "my-elem", "b", "nav", "td"])
    inline = inline or tag in ("span", "p", "h1", "b", "em", "i")
    if rng.random() < 0.2:
        given["onClick"] = rng.choice([lambda e: None, event(lambda e: None, prevent_default=True)])
        want.pop("onclick", None)
        given.pop("onclick", None)
    kids = [gen_view(rng, res, depth + 1, inline) for _ in range(rng.choice([0, 1, 2, 3] if depth < 5 else [0]))]
    args = [k[0] for k in kids]
    if rng.random() < 0.15 and "onClick" not in given:
        el = {"tagName": tag, "attributes": given, "children": args}
    else:
        el = Vdom(tag)(given, *args)
    return el, [tag, want, [n for k in kids for n in k[1]]]


def raw_back(s):
    return s.replace("<\\/", "</").replace("\\u003c", "<").replace("\\u003C", "<").replace("\\x3c", "<").replace("\\x3C", "<").replace("<\\!", "<!").replace("\\3c ", "<")


def compare(got, want, path=""):
    if isinstance(want, str) or isinstance(got, str):
        return None if got == want else f"{path}: {got!r} instead of {want!r}"
    if got[0] != want[0]:
        return f"{path}: <{got[0]}> instead of <{want[0]}>"
    a, b = got[1], want[1]
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f"{path}/{got[0]}: attribute {k} {a.get(k)!r} instead of {b.get(k)!r}"
        if k in BOOLEAN or a[k].replace("\r", "\n") == b[k].replace("\r", "\n"):
            continue
        if k in URLS and urllib.parse.unquote(a[k]).strip() == urllib.parse.unquote(b[k]).strip():
            continue
        return f"{path}/{got[0]}: attribute {k} {a[k]!r} instead of {b[k]!r}"
    x, y = got[2], want[2]
    if got[0] in ("script", "style"):
        x, y = [raw_back(s) if isinstance(s, str) else s for s in x], [raw_back(s) for s in y]
    if len(x) != len(y):
        return f"{path}/{got[0]}: children {x!r} instead of {y!r}"
    for i, (g, w) in enumerate(zip(x, y)):
        d = compare(g, w, f"{path}/{got[0]}[{i}]")
        if d:
            return d
    return None


def to_html(res, rng):
    from reactpy.utils import reactpy_to_string
    from reactpy import html as h
    view, want = gen_view(rng, res)
    if not isinstance(view, dict) and not hasattr(view, "render"):
        return
    before = repr(view)
    try:
        out = reactpy_to_string(view)
    except Exception as e:
        res.bad("to-html-failed", f"{view!r}: {type(e).__name__} {e}")
        return
    res.counts["to_html"] += 1
    got, problems = parse(out)
    wanted = merge(["", {}, want])
    d = ("; ".join(problems[:2]) if problems else None) or compare(got, wanted)
    if d:
        res.bad("to-html", f"{d}\nview {view!r}\nmarkup {out!r}")
    if repr(view) != before:
        res.bad("view-modified", f"{before} is now {view!r}")


# ---------------------------------------------------------------------------- HTML -> view

def esc(rng, s, quote):
    out = []
    for c in s:
        if c == "&" or c == "<" or (c == quote and quote) or (c == ">" and rng.random() < 0.5):
            out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#39;"}[c])
        elif ord(c) > 127 and rng.random() < 0.5:
            # references in this range denote Windows characters
            out.append(c if 0x80 <= ord(c) < 0xa0 else f"&#{ord(c)};" if rng.random() < 0.5 else f"&#x{ord(c):x};")
        else:
            out.append(c)
    return "".join(out)


def write(rng, node):
    if isinstance(node, str):
        return esc(rng, node, None)
    tag, attrs, kids = node
    t = tag.upper() if rng.random() < 0.1 else tag
    s = f"<{t}"
    for k, v in attrs.items():
        if rng.random() < 0.1:
            k = k.upper()
        if v == "" and rng.random() < 0.5:
            s += f" {k}"
        elif re.fullmatch(r"[a-zA-Z0-9]+", v) and rng.random() < 0.3:
            s += f" {k}={v}"
        else:
            q = rng.choice("\"'")
            s += f"{rng.choice([' ', ' ', chr(10)])}{k}={q}{esc(rng, v, q)}{q}"
    if tag in VOID:
        return s + rng.choice([">", ">", " />"])
    s += ">"
    if tag in ("script", "style"):
        return s + "".join(kids) + f"</{t}>"
    for k in kids:
        if rng.random() < 0.08 and tag not in ("textarea", "title"):
            s += rng.choice(["<!-- c -->", "<!---->", "<!-- <b> -->"])
        s += write(rng, k)
    return s + f"</{t}>"


def doc_attrs(rng, res, tag):
    out = {}
    for n in rng.sample(["id", "title", "class", "data-x", "aria-label", "style", "onclick", "onmouseup", "tabindex", "x-y", "lang", "key", "hidden", "dir"], rng.choice([0, 0, 1, 2, 4])):
        res.counts["attributes"] += 1
        if n == "style":
            out[n] = rng.choice(["", " "]).join(f"{k}{rng.choice([':', ': ', ' : '])}{v};" for k, v in gen_style(rng, res))
        elif n in ("id", "key"):
            out[n] = f"{n}{rng.randrange(10 ** 6)}"
        else:
            out[n] = rng.choice([text(rng, res), "x", ""]) if n != "hidden" else ""
    out.update(flags(rng, res, tag))
    return out


def flags(rng, res, tag):
    """Attributes that are true if they are there."""
    out = {n: "" for n in FLAGS.get(tag, []) + FLAGS[""] if rng.random() < 0.12}
    res.counts["flags"] += len(out)
    return out


def gen_style(rng, res):
    res.counts["styles"] += 1
    names = rng.sample(["color", "font-size", "--my-var", "--X", "-webkit-filter", "background", "content", "COLOR-SCHEME", "my-x3d-prop"], rng.choice([0, 1, 2, 3]))
    return [(n, rng.choice(["red", "1px", "url(data:image/png;base64,AA==)", "url(\"a;b:c\")", "'a;b'", "a:b", "\"it's; b:c\"", "f((1;2);3)", "calc(1px + (2px * 3))", "\"\\\";\""])) for n in names]


# white space between these is visible (and kept by the parser)
PHRASING = {"b", "span", "em", "i", "a", "code"}
INLINE = ["b", "span", "em", "i", "a", "label", "code", "my-elem"]


def gen_doc(rng, res, depth=0, inline=False):
    """A tree as HTML allows it."""
    x = rng.random()
    if depth and x < 0.35:
        t = text(rng, res)
        return t if t.strip() else t + "."
    if depth < 5 and x < 0.45:
        return gen_form(rng, res)
    if x < 0.52 and depth:
        tag = rng.choice(["br", "img", "wbr"] + ([] if inline else ["hr"]))
        if tag == "wbr":
            res.counts["void_in_flow"] += 1
        return [tag, doc_attrs(rng, res, tag), []]
    if x < 0.56 and depth and not inline:
        res.counts["void_in_flow"] += 1
        return ["video", flags(rng, res, "video"), [[t := rng.choice(["source", "track"]), {"src": f"s{i}", **flags(rng, res, t)}, []] for i in range(rng.choice([1, 2, 3]))] + rng.choice([[], ["fallback"]])]
    if x < 0.6 and depth and not inline:
        return [t := rng.choice(["script", "style"]), flags(rng, res, t), [rng.choice(["if (a < b && c) x('\u00e9')", "a > b { c: d }", "&amp;"])]]
    if x < 0.64 and depth and not inline:
        return ["table", {}, [["tbody", {}, [["tr", {}, [["td", doc_attrs(rng, res, "td"), [gen_doc(rng, res, depth + 2)]] for _ in range(rng.choice([1, 2]))]] for _ in range(rng.choice([1, 2]))]]]]
    tag = rng.choice(INLINE if inline else ["div", "section", "p", "ul", "h2", "nav", "article", "details", "fieldset"] + INLINE)
    attrs = doc_attrs(rng, res, tag)
    if tag == "ul":
        tag = rng.choice(["ul", "ol"])
        return [tag, {**attrs, **flags(rng, res, tag)}, [["li", doc_attrs(rng, res, "li"), [gen_doc(rng, res, depth + 2, inline)]] for _ in range(rng.choice([0, 1, 3]))]]
    if tag == "a":
        attrs["href"] = rng.choice(["/x?a=1&b=2", "#", "http://h/\u00e9"])
    if tag == "label":
        attrs["for"] = "x"
    kids = [gen_doc(rng, res, depth + 1, inline or tag in INLINE or tag in ("p", "h2")) for _ in range(rng.choice([0, 1, 2, 3] if depth < 5 else [0, 1]) if depth < 6 else 0)]
    if tag == "a" or tag == "label":
        # neither may contain itself
        kids = [k for k in kids if isinstance(k, str)]
    spaced = []
    for i, k in enumerate(kids):
        spaced.append(k)
        if not isinstance(k, str) and k[0] in PHRASING and i + 1 < len(kids) and not isinstance(kids[i + 1], str) and kids[i + 1][0] in PHRASING and rng.random() < 0.7:
            res.counts["inline_blanks"] += 1
            spaced.append(rng.choice([" ", "\n", "  "]))
    return [tag, attrs, spaced]


def gen_form(rng, res):
    x = rng.random()
    if x < 0.4:
        res.counts["selects"] += 1
        attrs = {k: v for k, v in doc_attrs(rng, res, "select").items() if k != "hidden"}
        if rng.random() < 0.4:
            attrs["multiple"] = ""
        if rng.random() < 0.5:
            attrs["name"] = rng.choice(["n", "m"])
        n = 0

        def option():
            nonlocal n
            n += 1
            res.counts["options"] += 1
            a = {}
            if rng.random() < 0.6:
                a["value"] = f"v{n}" if rng.random() < 0.8 else ""
            if rng.random() < 0.35:
                a["selected"] = ""
            if rng.random() < 0.15:
                a["disabled"] = ""
            return ["option", a, [] if rng.random() < 0.15 else [f"text {n} {rng.choice(['', '&', '<b>'])}".strip()]]
        kids = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            kids.append(option() if rng.random() < 0.8 else ["optgroup", {"label": "g"}, [option() for _ in range(rng.choice([0, 1, 2]))]])
        return ["select", attrs, kids]
    if x < 0.75:
        res.counts["inputs"] += 1
        attrs = {"type": rng.choice(["text", "checkbox", "radio", "submit", "hidden", "password"])}
        for k, vals in (("value", ["", "x", text(rng, res)]), ("name", ["n", "m"]), ("checked", [""]), ("disabled", [""]), ("placeholder", ["p"]), ("id", [f"i{rng.randrange(10 ** 6)}"])):
            if rng.random() < 0.4:
                attrs[k] = rng.choice(vals)
        return ["input", {**attrs, **flags(rng, res, "input")}, []]
    if x < 0.9:
        res.counts["textareas"] += 1
        s = "".join(rng.choice(["a", "<b>", "&", " x ", "\n", "\"", "\u00e9"]) for _ in range(rng.randrange(4)))
        attrs = {**({"name": "t"} if rng.random() < 0.5 else {}), **flags(rng, res, "textarea")}
        if s and s != "\n" and rng.random() < 0.15:
            attrs["defaultvalue"] = "no attribute of HTML"
        return ["textarea", attrs, [s] if s else []]
    return ["button", doc_attrs(rng, res, "button"), ["go"]]


def html_name(tag, k):
    """The HTML name of a prop."""
    k = {"className": "class", "htmlFor": "for", "defaultChecked": "checked", "acceptCharset": "accept-charset", "httpEquiv": "http-equiv"}.get(k, k)
    if k == "defaultValue":
        k = "value"
    return k.lower()


def prop_style(v):
    """The declarations of a style attribute, by the tokenizer of CSS."""
    out, cur, depth, quote, i = [], "", 0, None, 0
    while i < len(v):
        c = v[i]
        if quote:
            cur += c
            if c == "\\" and i + 1 < len(v):
                i += 1
                cur += v[i]
            elif c == quote:
                quote = None
        elif c in "\"'":
            quote = c
            cur += c
        elif c == ";" and not depth:
            out.append(cur)
            cur = ""
        else:
            depth += (c == "(") - (c == ")")
            cur += c
        i += 1
    out.append(cur)
    d = {}
    for part in out:
        if ":" in part:
            k, x = part.split(":", 1)
            k = k.strip()
            if not k.startswith("--"):
                k = re.sub("-([a-z])", lambda m: m.group(1).upper(), k.lower())
            d[k] = x.strip()
    return d


def check_el(res, el, node, opts, path=""):
    """First difference between a view and the element it was made from."""
    if not isinstance(el, dict):
        return f"{path}: {el!r} instead of {node!r}"
    tag, src, kids = node
    here = f"{path}/{tag}"
    if el.get("tagName") != tag:
        return f"{path}: <{el.get('tagName')}> instead of <{tag}>"
    attrs = dict(el.get("attributes", {}))
    inline = {k.lower(): v for k, v in el.get("inlineJavaScript", {}).items()}
    got = {}
    for k, v in attrs.items():
        if k == "key" and "key" not in src:
            continue
        got[html_name(tag, k)] = v
    want = dict(src)
    for k in list(want):
        if k.startswith("on"):
            if inline.pop(k, got.pop(k, None)) != want.pop(k):
                return f"{here}: inline script {k} of {src} became {el.get('inlineJavaScript')}"
    if inline:
        return f"{here}: additional inline scripts {inline}"
    handlers = set(el.get("eventHandlers", {}))
    if handlers != ({"onClick"} if tag == "a" and opts["intercept"] else set()):
        return f"{here}: handlers {handlers}"
    if handlers and not el["eventHandlers"]["onClick"].prevent_default:
        return f"{here}: the link is not intercepted"
    if handlers and el["eventHandlers"]["onClick"].stop_propagation:
        return f"{here}: the click does not reach the elements around the link"
    if tag == "select":
        got.pop("value", None)
        options = list(find(el, "option"))
        chosen = attrs.get("defaultValue", attrs.get("value"))
        chosen = [] if chosen is None else chosen if isinstance(chosen, list) else [chosen]
        srcs = list(find_src(node))
        wanted = [o[1].get("value", "".join(o[2])) for o in srcs if "selected" in o[1]]
        if "multiple" not in src:
            wanted = wanted[-1:]  # what a browser does
        if not [o for o in options if "selected" in o.get("attributes", {})] or chosen:
            if list(chosen) != wanted:
                return f"{here}: {chosen} chosen instead of {wanted}"
        for o, s in zip(options, srcs):
            v = o.get("attributes", {}).get("value", "".join(map(str, o.get("children", []))))
            if v != s[1].get("value", "".join(s[2])):
                return f"{here}: option {s} has value {v!r}"
    if tag == "input" and src.get("type") in (None, "text", "password") and "value" in attrs:
        return f"{here}: what is typed into it is undone by the next update"
    if tag == "option":
        want.pop("selected", None)
        got.pop("selected", None)
        if "value" not in src:
            got.pop("value", None)
    if tag == "textarea":
        s = "".join(kids)
        s = s[1:] if s.startswith("\n") else s
        v = got.pop("value", None)
        want.pop("defaultvalue", None)
        if v is None:
            v = "".join(el.get("children", []))
        if v != s:
            return f"{here}: value {v!r} instead of {s!r}"
        kids = el.get("children", [])
    if "style" in want:
        st = got.pop("style", None)
        st = prop_style(st) if isinstance(st, str) else st
        w = prop_style(want.pop("style"))
        if (st or {}) != w:
            return f"{here}: style {st!r} instead of {w!r} ({src['style']!r})"
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        if k not in got or k not in want:
            return f"{here}: attribute {k} {a!r} instead of {b!r}"
        if b == "" and k in {x for l in FLAGS.values() for x in l} | BOOLEAN:
            if not a and (k in PROPERTIES or a != ""):
                return f"{here}: boolean attribute {k} is {a!r}, which is false to the client"
        elif a != b:
            return f"{here}: attribute {k} {a!r} instead of {b!r}"
    c = merge(["", {}, [k if isinstance(k, str) else ["x", k, []] for k in el.get("children", [])]])[2] if tag != "textarea" else []
    w = merge(["", {}, [k if isinstance(k, str) else ["x", k, []] for k in kids]])[2] if tag != "textarea" else []
    if len(c) != len(w):
        return f"{here}: children {[k if isinstance(k, str) else k[1] for k in c]} instead of {[k if isinstance(k, str) else k[1] for k in w]}"
    for i, (g, k) in enumerate(zip(c, w)):
        if isinstance(k, str) or isinstance(g, str):
            if g != k:
                return f"{here}[{i}]: {g!r} instead of {k!r}"
        else:
            d = check_el(res, g[1], k[1], opts, f"{here}[{i}]")
            if d:
                return d
    keys = [k["attributes"]["key"] for k in el.get("children", []) if isinstance(k, dict) and "key" in k.get("attributes", {})]
    if len(keys) != len(set(keys)):
        return f"{here}: siblings share keys {keys}, so that this cannot be rendered"
    return None


def find(el, tag):
    if isinstance(el, dict):
        if el.get("tagName") == tag:
            yield el
        for c in el.get("children", []):
            yield from find(c, tag)


def elements(el):
    if isinstance(el, dict):
        yield el
        for c in el.get("children", []):
            yield from elements(c)


def find_src(node):
    if not isinstance(node, str):
        if node[0] == "option":
            yield node
        for c in node[2]:
            yield from find_src(c)


def from_html(res, rng):
    from reactpy.utils import string_to_reactpy
    tree = gen_doc(rng, res)
    tree = merge(["div", {"id": "root"}, [tree, *[gen_doc(rng, res) for _ in range(rng.choice([0, 1]))]]])
    markup = write(rng, tree)
    opts = {"intercept": rng.random() < 0.5, "strict": rng.random() < 0.3}
    seen = []

    replacing = rng.random() < 0.5

    def transform(vdom):
        seen.append(vdom["tagName"])
        if replacing:
            # another element is what the view has
            new = {**vdom, "attributes": {**vdom.get("attributes", {}), "data-seen": "1"}}
            vdom.clear()
            vdom["tagName"] = "replaced"
            return new
        return vdom
    transforms = [transform] if rng.random() < 0.3 else []
    try:
        view = string_to_reactpy(rng.choice(["", " ", "\n"]) + markup, *transforms, strict=opts["strict"], intercept_links=opts["intercept"])
    except Exception as e:
        from reactpy.utils import HTMLParseError
        if opts["strict"] and isinstance(e, HTMLParseError):
            res.counts["strict_errors"] += 1
            return
        res.bad("from-html-failed", f"{markup!r}: {type(e).__name__} {e}")
        return
    res.counts["from_html"] += 1
    if transforms and replacing:
        res.counts["replaced"] += 1
        for el in elements(view):
            if el.get("attributes", {}).pop("data-seen", None) != "1":
                res.bad("transforms", f"{el} is not what the transform made of it, in {markup!r}")
                return
    d = check_el(res, view, tree, opts)
    if d:
        res.bad("from-html", f"{d}\nmarkup {markup!r}\nview {view!r}")
        return
    if transforms:
        n = sum(1 for _ in nodes(tree))
        if len(seen) != n:
            res.bad("transforms", f"{len(seen)} calls for {n} elements of {markup!r}")
    if rng.random() < 0.12:
        render(res, view, markup)


def render(res, view, markup):
    from reactpy import component
    from reactpy.core.layout import Layout

    @component
    def Root():
        return view

    async def go():
        async with Layout(Root()) as layout:
            return await layout.render()
    m = asyncio.run(go())
    res.counts["rendered"] += 1

    def errors(x):
        if isinstance(x, dict):
            if "error" in x:
                yield x["error"]
            for c in x.get("children", []):
                yield from errors(c)
    bad = list(errors(m["model"]))
    if bad:
        res.bad("not-renderable", f"{markup!r}: {bad}")


def nodes(tree):
    if not isinstance(tree, str):
        yield tree
        for c in tree[2]:
            yield from nodes(c)


def damaged(res, rng):
    """Whatever lxml makes of it is what the view must contain."""
    from lxml import etree
    from lxml.html import fromstring
    from reactpy.utils import string_to_reactpy, HTMLParseError
    markup = write(rng, ["div", {}, [gen_doc(rng, res) for _ in range(2)]])
    markup = re.sub("(?i)defaultvalue", "data-none", markup)
    for _ in range(rng.choice([1, 2, 4])):
        i, j = sorted(rng.randrange(len(markup) + 1) for _ in range(2))
        j = min(j, i + 12)
        markup = rng.choice([markup[:i] + markup[j:], markup[:j] + markup[i:j] + markup[j:], markup[:i] + rng.choice(["<", ">", "</p>", "<b>", "&", "\"", "<p>", "<option>"]) + markup[i:]])
    if "<" not in markup or ">" not in markup or not markup.strip():
        return
    try:
        root = fromstring(markup.strip(), parser=etree.HTMLParser(remove_comments=True, remove_pis=True, remove_blank_text=True, recover=True))
    except Exception:
        return
    want = list(flow(root))
    tags = {t[1] for t in want if t[0] == "tag"}
    if any(not re.fullmatch("[a-z][a-z0-9-]*", t) for t in tags):
        return
    res.counts["damaged"] += 1
    try:
        view = string_to_reactpy(markup, strict=False)
    except (HTMLParseError, ValueError):
        return
    except Exception as e:
        res.bad("damaged-failed", f"{markup!r}: {type(e).__name__} {e}")
        return
    got = list(flow_view(view))
    if tags & VOID & {"source", "track", "wbr", "embed"}:
        # what follows these was put inside of them by the parser
        if got[:1] in ([("tag", "div")], [("tag", "span")]) and len([t for t in got if t[0] == "tag"]) == len([t for t in want if t[0] == "tag"]) + 1:
            got = got[1:]
    text_w, text_g = "".join(t[1] for t in want if t[0] == "text"), "".join(t[1] for t in got if t[0] == "text")
    if [t for t in got if t[0] == "tag"] != [t for t in want if t[0] == "tag"]:
        res.bad("damaged", f"elements {[t[1] for t in got if t[0] == 'tag']} instead of {[t[1] for t in want if t[0] == 'tag']} in {markup!r}")
    elif re.sub(r"\s", "", text_w) != re.sub(r"\s", "", text_g):
        res.bad("damaged", f"text {text_g!r} instead of {text_w!r} in {markup!r}")


def flow(el):
    yield ("tag", el.tag)
    if el.tag == "textarea":
        # its markup is text to a browser
        yield ("text", "".join(t for t in [el.text or ""] + [c.tail or "" for c in el]))
        return
    if el.text:
        yield ("text", el.text)
    for c in el:
        yield from flow(c)
        if c.tail:
            yield ("text", c.tail)


def flow_view(v):
    if isinstance(v, str):
        yield ("text", v)
        return
    yield ("tag", v["tagName"])
    if v["tagName"] == "textarea":
        yield ("text", str(v.get("attributes", {}).get("defaultValue", "")))
    for c in v.get("children", []):
        yield from flow_view(c)


# ---------------------------------------------------------------------------- SVG, whose names are case-sensitive

SVG_TAGS = {"": ["g", "g", "animateMotion", "defs", "linearGradient", "radialGradient", "clipPath", "mask", "pattern", "marker", "filter", "symbol", "text", "svg", "switch"], "linearGradient": ["stop"], "radialGradient": ["stop"],
            "filter": ["feGaussianBlur", "feColorMatrix", "feComponentTransfer", "feMerge", "feOffset", "feTurbulence"], "feMerge": ["feMergeNode"], "feComponentTransfer": ["feFuncR", "feFuncA"],
            "text": ["tspan", "textPath"], "leaf": ["circle", "path", "rect", "use", "line", "ellipse", "polygon", "polyline"], "move": ["animate", "animateTransform", "set"]}
SVG_ATTRS = ["viewBox", "preserveAspectRatio", "gradientUnits", "gradientTransform", "patternUnits", "clipPathUnits", "maskUnits", "markerWidth", "markerHeight", "refX", "refY", "stdDeviation", "numOctaves",
             "baseFrequency", "attributeName", "attributeType", "calcMode", "keyTimes", "repeatCount", "repeatDur", "startOffset", "textLength", "lengthAdjust", "pathLength", "spreadMethod", "xChannelSelector",
             "tableValues", "edgeMode", "primitiveUnits", "d", "fill", "cx", "x1", "offset", "transform", "points", "values", "from", "to", "dur", "result", "in2", "xmlns"]
SVG_DASHED = {"strokeWidth": "stroke-width", "strokeDasharray": "stroke-dasharray", "strokeLinecap": "stroke-linecap", "fillRule": "fill-rule", "clipRule": "clip-rule", "clipPath": "clip-path", "stopColor": "stop-color",
              "stopOpacity": "stop-opacity", "textAnchor": "text-anchor", "dominantBaseline": "dominant-baseline", "fontSize": "font-size", "fontFamily": "font-family", "markerEnd": "marker-end", "vectorEffect": "vector-effect",
              "colorInterpolationFilters": "color-interpolation-filters", "pointerEvents": "pointer-events", "floodColor": "flood-color", "shapeRendering": "shape-rendering", "fillOpacity": "fill-opacity"}


def svg_tree(rng, res, tag="svg", depth=3):
    attrs = {k: rng.choice(["0 0 1 1", "none", "a&b", "<", "5", "é", "url(#x)"]) for k in rng.sample(SVG_ATTRS, rng.randrange(4))}
    for k in rng.sample(sorted(SVG_DASHED), rng.randrange(3)):
        attrs[k] = rng.choice(["1", "x y", "\"q\""])
    kids = []
    if tag == "foreignObject":
        kids = [["div", {"title": "t"}, ["t<"]]]
    elif tag in SVG_TAGS["leaf"] or tag in SVG_TAGS["move"] or tag in ("stop", "set") or tag.startswith("fe") and tag not in SVG_TAGS or not depth:
        kids = []
    else:
        for _ in range(rng.randrange(4)):
            if tag in ("text", "tspan", "textPath") and rng.random() < 0.6:
                kids.append("t" + text(rng, res) + "t")
            else:
                names = SVG_TAGS.get(tag) or rng.choice([SVG_TAGS[""], SVG_TAGS["leaf"], ["foreignObject"]])
                kids.append(svg_tree(rng, res, rng.choice(names), depth - 1))
    return [tag, attrs, kids]


def svg_write(rng, node, how):
    if isinstance(node, str):
        return esc(rng, node, "")
    tag, attrs, kids = node
    tag, attrs = how(tag), {SVG_DASHED.get(k, how(k)): v for k, v in attrs.items()}
    head = f"<{tag}" + "".join(f' {k}="{esc(rng, v, chr(34))}"' for k, v in attrs.items())
    if not kids and rng.random() < 0.7:
        return head + rng.choice(["/>", " />"])
    return head + ">" + "".join(svg_write(rng, k, how) for k in kids) + f"</{tag}>"


def svg_differs(el, node, dashed, path):
    if isinstance(node, str) or isinstance(el, str):
        return None if el == node else f"{path} is {el!r} instead of {node!r}"
    tag, attrs, kids = node
    attrs = {SVG_DASHED.get(k, k): v for k, v in attrs.items()} if dashed else attrs
    gtag, gattrs, gkids = el
    if gtag != tag or gattrs != attrs:
        return f"{path} is {gtag} {gattrs} instead of {tag} {attrs}"
    if len(gkids) != len(kids):
        return f"{path} has {gkids} instead of {kids}"
    return next((d for i, (a, b) in enumerate(zip(gkids, kids)) if (d := svg_differs(a, b, dashed, f"{path}/{i}"))), None)


def svg(res, rng):
    from reactpy import h, reactpy_to_string
    from reactpy.utils import string_to_reactpy
    tree = merge(svg_tree(rng, res))
    # ---- from HTML, where the case of names does not matter
    how = rng.choice([str, str, str.lower, str.upper])
    markup = svg_write(rng, tree, how)
    try:
        view = string_to_reactpy(f"<div>{markup}</div>", strict=False)
    except Exception as e:
        res.bad("from-html-failed", f"{markup!r}: {e!r}")
        return

    def as_tree(v):
        return v if isinstance(v, str) else [v["tagName"], dict(v.get("attributes", {})), [as_tree(c) for c in v.get("children", [])]]
    shown = [as_tree(c) for c in view.get("children", [])]
    d = "several elements" if len(shown) != 1 else svg_differs(merge(shown[0]), tree, True, "svg")
    if d:
        res.bad("from-html", f"{d}\nmarkup {markup!r}\nview {view!r}")
        return
    # ---- and to HTML

    def build(node, at=h):
        tag, attrs, kids = node
        return getattr(at, tag)(dict(attrs), *[k if isinstance(k, str) else build(k, h if tag == "foreignObject" else h.svg) for k in kids])
    out = reactpy_to_string(build(tree))
    back, problems = parse(out)

    def lower(node):
        return node if isinstance(node, str) else [node[0].lower(), {SVG_DASHED.get(k, k.lower()): v for k, v in node[1].items()}, [lower(k) for k in node[2]]]
    d = str(problems) if problems or len(back[2]) != 1 else svg_differs(back[2][0], lower(tree), False, "svg")
    if d:
        res.bad("to-html", f"{d}\nmarkup {out!r}")
    res.counts["svg"] += 1


def case(res, p):
    rng = random.Random(p["seed"])
    for i in range(p["n"]):
        if i % 5 == 0:
            svg(res, rng)
        to_html(res, rng)
        from_html(res, rng)
        if rng.random() < 0.5:
            damaged(res, rng)
        if res.violations:
            break
    res.done(p["seed"], True, {"n": p["n"]})
