"""A small HTML tokenizer that ends scripts where browsers do."""
import html, re

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
TAG = re.compile(r"<(/?)([a-zA-Z][^\s/>]*)")
ATTR = re.compile(r"""\s*/?\s*([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?""")


def script_end(s, pos):
    """Where the end tag of a script whose text starts at pos begins (HTML's script data states)."""
    escaped = double = False
    for m in re.compile(r"<!--|-->|<(/?)script(?=[\s/>])", re.I).finditer(s, pos):
        t = m[0]
        if t == "<!--":
            if not escaped:
                escaped = True
                # <!--> and <!---> end at once
                if re.compile(r"-?>").match(s, m.end()):
                    escaped = False
        elif t == "-->":
            escaped = double = False
        elif m[1]:
            if double:
                double = False
            else:
                return m.start()
        elif escaped:
            double = True
    return len(s)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("<!--", i):
            j = s.find("-->", i + 4)
            j = len(s) if j < 0 else j + 3
            out.append(("comment", s[i:j]))
            i = j
            continue
        if s.startswith("<!", i):
            j = s.find(">", i)
            out.append(("decl", s[i:j + 1]))
            i = j + 1
            continue
        m = TAG.match(s, i)
        if not m:
            j = s.find("<", i + 1)
            j = len(s) if j < 0 else j
            out.append(("text", html.unescape(s[i:j])))
            i = j
            continue
        tag, i, attrs = m[2].lower(), m.end(), {}
        while True:
            e = re.compile(r"\s*/?>").match(s, i)
            if e:
                i = e.end()
                break
            a = ATTR.match(s, i)
            if not a or a.end() == i:
                out.append(("broken", s[i:i + 100]))
                return out
            attrs.setdefault(a[1].lower(), html.unescape(next((x for x in a.groups()[1:] if x is not None), "")))
            i = a.end()
        if m[1]:
            out.append(("end", tag))
            continue
        out.append(("start", tag, attrs))
        if tag == "script":
            j = script_end(s, i)
            out.append(("raw", s[i:j]))
            i = j
        elif tag in ("style", "title", "textarea"):
            e = re.compile(rf"</{tag}(?=[\s/>])", re.I).search(s, i)
            j = e.start() if e else len(s)
            out.append(("raw" if tag == "style" else "text", s[i:j] if tag == "style" else html.unescape(s[i:j])))
            i = j
    merged = []
    for t in out:
        if t[0] == "text" and merged and merged[-1][0] == "text":
            merged[-1] = ("text", merged[-1][1] + t[1])
        elif t != ("text", "") and t != ("raw", ""):
            merged.append(t)
    return merged


def span(toks, i):
    """The index after the end tag of the element that starts at toks[i]."""
    if toks[i][1] in VOID:
        return i + 1
    depth = 0
    for j in range(i, len(toks)):
        if toks[j][0] == "start" and toks[j][1] not in VOID:
            depth += 1
        elif toks[j][0] == "end":
            depth -= 1
            if depth == 0:
                return j + 1
    return len(toks) + 1
