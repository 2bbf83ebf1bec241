"""C26: the in-browser Python executor keeps the same view as the server would."""
import asyncio, html as h, json, pathlib, random, shutil, subprocess, sys, tempfile, types
from .. import vloop
from ..common import HarnessError, rngs
from ..dom import HTML, MATHML, SVG, Document, Element, Event, Text, js_string, morphdom
from ..markup import tokens
from ..program import App, Cfg

TECHNIQUE = "runtime monitoring: the delivered setup and component scripts run over a stand-in document with morphdom's algorithm; at every quiet moment the document is compared with the view of the reference model, and every dispatched event with the handlers it must reach"
RULE = ("one case = one page with up to 3 generated components (random programs with state, contexts and failures, or changing trees of elements with attributes, styles and handlers), 4-10 bursts of state changes, events and (re)mounts; "
        "non-trivial if the document changed after the first render and an event was dispatched")
ASSUME = ["the stand-in document, its conversions to strings and its morphdom agree with real ones", "attributes that are numbers, strings or booleans; events named like DOM events", "no element with an id changes its depth (morphdom itself fails then)", "what an element handles when an event is dispatched decides where it goes"]
REQUIRE = {"comparisons": 8000, "nodes": 60000, "events": 8000, "reached": 4000, "bubbled": 500, "prevented": 500, "stopped": 300, "unreached": 500, "mounts": 2000, "ended": 300, "kept_nodes": 2000, "attributes": 20000, "changes": 8000, "inline": 5000, "race_events": 500, "bare": 800, "image_nodes": 3000}
CHUNK = 20
MOD = "rtmon_case"


def cases(tier, seed):
    n = 4000 if tier == "quick" else 60000
    return [{"seed": s, "async": i % 5 != 0} for i, s in enumerate(rngs(seed, n, "c26"))]


def init():
    """The modules there are in a browser."""
    js = types.ModuleType("js")
    js.document = None
    js.console = types.SimpleNamespace(log=print, error=print)
    ffi = types.ModuleType("pyodide.ffi")
    ffi.create_proxy = lambda f: f
    ffi.to_js = lambda v, **_: v
    wrappers = types.ModuleType("pyodide.ffi.wrappers")
    wrappers.add_event_listener = lambda el, name, fn: el.addEventListener(name, fn)
    wrappers.remove_event_listener = lambda el, name, fn: el.removeEventListener(name, fn)
    ffi.wrappers = wrappers
    mods = types.ModuleType("pyscript.js_modules")
    mods.morphdom = types.SimpleNamespace(default=morphdom)
    pyodide, pyscript = types.ModuleType("pyodide"), types.ModuleType("pyscript")
    pyodide.ffi, pyscript.js_modules, pyscript.document, pyscript.ffi = ffi, mods, None, ffi
    case_mod = types.ModuleType(MOD)
    case_mod.ROOTS = {}
    sys.modules.update({"js": js, "pyodide": pyodide, "pyodide.ffi": ffi, "pyodide.ffi.wrappers": wrappers, "pyscript": pyscript, "pyscript.js_modules": mods, MOD: case_mod})


_setup = []


def setup_code():
    if not _setup:
        from reactpy.executors.pyscript.utils import pyscript_setup_html
        toks = tokens(pyscript_setup_html([], {}, {}))
        i = next(i for i, t in enumerate(toks) if t[0] == "start" and t[1] == "script" and t[2].get("type") == "py")
        _setup.append(compile(toks[i + 1][1], "<setup>", "exec"))
    return _setup[0]


def number(e):
    """Which event it is: in the browser it is an object, on the server what was sent of it."""
    return e.n if e.n is not None else e.detail


# ---- changing trees of elements

ATTRS = [("title", "é \"<"), ("title", ""), ("title", None), ("hidden", True), ("hidden", False), ("hidden", None), ("disabled", True), ("disabled", False), ("data-x", 1), ("data-x", 2.5), ("data-x", "z"),
         ("data-x", True), ("data-x", False), ("data-x", None), ("aria-label", False), ("aria-label", "l"), ("draggable", False), ("lang", "en"), ("tabIndex", 3), ("className", "a b"), ("className", "c"), ("className", None),
         ("style", {"color": "red"}), ("style", {"color": "blue", "margin": "1px"}), ("style", {}), ("style", None), ("value", "v"),
         ("style", {"width": 5, "zIndex": 3, "--Some-Var": "x"}), ("style", {"marginLeft": 0, "opacity": 0.5, "lineHeight": 2, "fontSize": "1em", "color": None}), ("htmlFor", "i1"), ("httpEquiv", "refresh"), ("acceptCharset", "utf-8")]
EVENTS = ["onClick", "onClick", "onInput", "onKeyDown", "onCustom", "onDoubleClick"]
NAMES = {"className": "class", "htmlFor": "for", "httpEquiv": "http-equiv", "acceptCharset": "accept-charset"}
IMAGE_NAMES = {"strokeWidth": "stroke-width", "fillOpacity": "fill-opacity", "textAnchor": "text-anchor", "clipPath": "clip-path", "fontSize": "font-size", "tabIndex": "tabindex"}
PLAIN = {"zIndex", "opacity", "lineHeight", "--Some-Var"}


def dom_name(event):
    n = event.lower()[2:]
    return "dblclick" if n == "doubleclick" else n


# ---- inline JavaScript

CODES = ["this.value = 'Clicked!'", "(e) => { log('arrow', e.type, this === undefined); e.currentTarget.value = 1 }", "(function (e) { log('function', e.type, arguments.length) })", "log('one'); log(\"two\", this.value)",
         "log('<é&>\\n\\u2028\\'\"')", "let r = 3; log(r)", "var result = 5; log(result)", "'text'", "// nothing\n", "null", "5\nlog(6)", "if (this.value) { log('set') } else { log('unset') }", "false"]
RUN = """
const out = [];
for (const [attr, code] of JSON.parse(require("fs").readFileSync(0, "utf8"))) {
  const seen = (f) => {
    const logged = [], el = { value: "" }, event = { type: "t", currentTarget: el, target: el };
    globalThis.log = (...a) => logged.push(a);
    let left = null;
    try { left = f.call(el, event) === false; } catch (e) { logged.push("" + e); }
    return JSON.stringify([logged, el.value, left]);
  };
  const got = seen(function (event) { return new Function("event", attr).call(this, event); });
  const want = seen(function (event) {
    const f = (function () { return eval(code); }).call(this);
    if (typeof f == "function") f(event);
  });
  out.push(got === want ? null : got + " instead of " + want);
}
console.log(JSON.stringify(out));
"""
_ran = {}


def run_inline(attr, code):
    """How what an attribute does differs from what the code would do on a page the server renders."""
    if (attr, code) not in _ran:
        p = subprocess.run(["node", "-e", RUN], input=json.dumps([[attr, code]]).encode(), capture_output=True)
        if p.returncode:
            raise HarnessError(p.stderr.decode()[-300:])
        _ran[attr, code] = json.loads(p.stdout)[0]
    return _ran[attr, code]


SVG_ATTRS = [("viewBox", "0 0 4 4"), ("strokeWidth", 2), ("fillOpacity", 0.5), ("pathLength", 3), ("stroke-linecap", "round"), ("textAnchor", "end"), ("className", "s"), ("className", "a b"), ("tabIndex", 0), ("x", 1), ("fill", None),
             ("fill", "red"), ("style", {"color": "red"}), ("clipPath", "none"), ("preserveAspectRatio", "none"), ("data-x", True), ("gradientUnits", "objectBoundingBox"), ("fontSize", 3)]
SVG_TAGS = ["g", "rect", "linearGradient", "a", "text", "svg", "title", "clipPath"]


def gen_svg(rng, depth, tag="svg", attributes=SVG_ATTRS):
    """An image, or a formula."""
    handlers = {e: (rng.random() < 0.3, rng.random() < 0.3, rng.choice([None, None, 0, 1])) for e in EVENTS if rng.random() < 0.15}
    kids = []
    for _ in range(rng.randrange(0, 4) if depth else 0):
        kind = rng.random()
        if kind < 0.2:
            kids.append(rng.choice(["t", "é<&>"]))
        elif tag == "math" or kind < 0.8:
            kids.append(gen_svg(rng, depth - 1, rng.choice(["mi", "mo", "mrow", "semantics"] if tag in ("math", "mrow", "semantics") else SVG_TAGS)))
        else:
            kids.append({"inline": {}, "tag": "foreignObject", "attrs": {}, "handlers": {}, "children": [gen_tree(rng, depth - 1, []) for _ in range(2)]})
    return {"inline": {}, "tag": tag, "attrs": dict(rng.sample(attributes, rng.randrange(0, 5))), "handlers": handlers, "children": kids}


def gen_tree(rng, depth, ids, images=True):
    if images and depth and rng.random() < 0.06:
        return gen_svg(rng, depth, rng.choice(["svg", "svg", "svg", "math"]))
    if depth == 0 or rng.random() < 0.2:
        return rng.choice(["t", "é<&>", "", "5", " x "])
    attrs = dict(rng.sample(ATTRS, rng.randrange(0, 5)))
    if rng.random() < 0.2 and ids:
        attrs["id"] = ids.pop()
    handlers = {}
    for e in EVENTS:
        if rng.random() < 0.22:
            handlers[e] = (rng.random() < 0.3, rng.random() < 0.3, rng.choice([None, None, None, 0, 1, 2, 3]))
    inline = {e: rng.choice(CODES) for e in dict.fromkeys(EVENTS) if e not in handlers and rng.random() < 0.05}
    return {"inline": inline, "tag": rng.choice(["div", "p", "button", "span", "div", "div", ""]), "attrs": attrs, "handlers": handlers, "children": [gen_tree(rng, depth - 1, ids, images) for _ in range(rng.randrange(0, 4))]}


NOTHING, FAILS, TEXT = -1, -2, -3


class Trees:
    with_inline = with_images = True

    """A component that shows one of a few trees."""

    def __init__(self, rng, res):
        self.rng, self.res = rng, res
        fresh = lambda x: gen_tree(rng, 3, [f"{x}{n}" for n in range(4)], self.with_images)
        base = fresh("i")
        while isinstance(base, str) or not base["tag"]:
            base = fresh("i")
        self.views = [base]
        for n in "jkl":
            self.views.append(self.vary(self.views[rng.randrange(len(self.views))]) if rng.random() < 0.7 else fresh(n))
        self.view, self.tick, self.set, self.ended, self.renders = 0, 0, None, 0, 0
        self.handled = []
        app = self
        from reactpy import component, hooks

        @component
        def tree():
            (v, t), app.set = hooks.use_state((0, 0))
            app.renders += 1

            @hooks.use_effect(dependencies=[])
            def life():
                def end():
                    app.ended += 1
                return end
            if v < 0:
                if v == FAILS:
                    raise ValueError("no view")
                return {NOTHING: None, TEXT: "only <text>"}[v]
            return app.build(app.views[v], v, (), t)

        @component
        def outer():
            from reactpy import html
            return html.fragment(tree())
        self.root = tree if rng.random() < 0.5 else outer

    def vary(self, t):
        """A copy with some differences."""
        r = self.rng
        if isinstance(t, str):
            return t if r.random() < 0.7 else "new"
        out = {**t, "attrs": dict(t["attrs"]), "handlers": dict(t["handlers"])}
        if r.random() < 0.3:
            k, v = r.choice(ATTRS)
            out["attrs"][k] = v
        if r.random() < 0.2:
            for k in list(out["attrs"])[:1]:
                del out["attrs"][k]
        if r.random() < 0.3:
            out["handlers"][r.choice(EVENTS)] = (r.random() < 0.3, r.random() < 0.3, None)
        if r.random() < 0.3 and out["handlers"]:
            del out["handlers"][r.choice(list(out["handlers"]))]
        out["inline"] = {e: c for e, c in t["inline"].items() if e not in out["handlers"] and r.random() < 0.8}
        if r.random() < 0.1 and t["tag"]:
            out["tag"] = r.choice(["div", "p", "span"])
        kids = [self.vary(c) for c in t["children"]]
        if r.random() < 0.2 and kids:
            kids.pop(r.randrange(len(kids)))
        if r.random() < 0.2:
            kids.insert(r.randrange(len(kids) + 1), gen_tree(r, 1, [], self.with_images))
        out["children"] = kids
        return out

    def build(self, t, v, path, tick):
        from reactpy import event, html
        from reactpy.core.vdom import Vdom
        if isinstance(t, str):
            return t
        kids = [self.build(c, v, (*path, i), tick) for i, c in enumerate(t["children"])]
        if not t["tag"]:
            return html.fragment(*kids)
        attrs = dict(t["attrs"])
        if not path:
            attrs["data-tick"] = tick
        for name, (prevent, stop, go) in t["handlers"].items():
            attrs[name] = event(self.handler(v, path, name, go), prevent_default=prevent, stop_propagation=stop)
        return Vdom(t["tag"])({**attrs, **(t["inline"] if self.with_inline else {})}, *kids)

    def handler(self, v, path, name, go):
        async def handle(e):
            self.handled.append((v, path, name, number(e)))
            if go is not None:
                self.show(go)
        return handle

    def show(self, v):
        self.view = v
        self.set((v, self.tick))

    def expected(self):
        if self.view < 0:
            self.res.counts["bare"] += 1
            return ["only <text>"] if self.view == TEXT else []
        return self.model(self.views[self.view], (), HTML)

    def model(self, t, path, around):
        """[(tag, attributes, children, handlers, inline JavaScript, namespace)] or text"""
        if isinstance(t, str):
            return [t]
        ns = {"svg": SVG, "math": MATHML}.get(t["tag"], HTML) if around == HTML else around
        inside = HTML if ns == SVG and t["tag"] == "foreignObject" else ns
        kids = [x for i, c in enumerate(t["children"]) for x in self.model(c, (*path, i), inside)]
        if not t["tag"]:
            return kids
        attrs = {}
        for k, x in t["attrs"].items():
            if x is None or x is False and k[:5] not in ("data-", "aria-") and k != "draggable":
                continue
            if k == "style":
                if x:
                    attrs[k] = "; ".join(f"{a}: {b if isinstance(b, str) or a in PLAIN else f'{b}px'}" for a, b in sorted(x.items()) if b is not None)
            else:
                attrs[NAMES.get(k) or IMAGE_NAMES.get(k) or (k.lower() if ns == HTML else k)] = x if x is True else js_string(x)
        if not path:
            attrs["data-tick"] = str(self.tick)
        return [(t["tag"], attrs, kids, {dom_name(n): (path, n, *f) for n, f in t["handlers"].items()}, {dom_name(n): c for n, c in t["inline"].items()}, ns)]

    def change(self, rng):
        if self.set is None:
            return
        if rng.random() < 0.3:
            self.tick += 1
            self.set((self.view, self.tick))
        else:
            self.show(rng.randrange(4) if rng.random() < 0.85 else rng.choice([NOTHING, FAILS, TEXT]))

    def reach(self, el):
        return {n: (lambda e, v=self.view, path=p, name=nm: (v, path, name, e.n), prevent, stop, go) for n, (p, nm, prevent, stop, go) in el[3].items()}


class Programs:
    """A random program of components."""

    def __init__(self, rng, res):
        self.res = res
        cfg = Cfg(defs=rng.choice([2, 3, 4, 5]), contexts=rng.choice([0, 1]), fails=rng.choice([0, 0, 0.3]), handlers=0.6)
        self.app = App(rng, cfg)
        self.root = self.app.root
        self.ended_before = None

    @property
    def handled(self):
        return [(p, ev, number(d[0])) for p, ev, d in self.app.handled]

    @property
    def renders(self):
        return self.app.renders

    @property
    def ended(self):
        return all(i.unmounted == i.mounted for i in self.app.instances)

    def expected(self):
        want = self.app.expected()
        for k, info in self.app.violations[:3]:
            self.res.bad(k, info)
        paths = iter(self.app.m_handlers)

        def model(v):
            if isinstance(v, str):
                return [v]
            mine = next(paths) if v.get("eventHandlers") else None
            kids = [x for c in v.get("children", []) for x in model(c)]
            if not v["tagName"]:
                return kids
            attrs = {k: x if x is True else js_string(x) for k, x in (v.get("attributes") or {}).items() if k != "key"}
            return [(v["tagName"], attrs, kids, {n.lower()[2:]: (mine[0], n) for n in (mine[1] if mine else [])})]
        return model(want)

    def change(self, rng):
        live = self.app.live()
        if live:
            i = rng.choice(live)
            self.app.set(i, rng.randrange(len(i.values)), rng.randrange(8))

    def reach(self, el):
        return {n: (lambda e, path=p, name=nm: (path, name, e.n), False, False, None) for n, (p, nm) in el[3].items()}


# ---- comparing

def merged(nodes):
    out = []
    for n in nodes:
        t = n if isinstance(n, str) else n.nodeValue if isinstance(n, Text) else None
        if t is None:
            out.append(n)
        elif t:
            if out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)
    return out


def differs(res, got, want, path, pairs):
    got, want = merged(got), merged(want)
    if len(got) != len(want):
        return f"{path}: {len(got)} nodes instead of {len(want)}: {[g if isinstance(g, str) else g.tag for g in got]} instead of {[w if isinstance(w, str) else w[0] for w in want]}"
    for i, (g, w) in enumerate(zip(got, want)):
        res.counts["nodes"] += 1
        if isinstance(g, str) or isinstance(w, str):
            if g != w:
                return f"{path}/{i}: {g!r} instead of {w!r}"
            continue
        if g.tag != w[0]:
            return f"{path}/{i}: <{g.tag}> instead of <{w[0]}>"
        ns = w[5] if len(w) > 5 else HTML
        if ns != HTML:
            res.counts["image_nodes"] += 1
        if g.namespaceURI != ns:
            return f"{path}/{i}: <{g.tag}> of {g.namespaceURI} instead of {ns}"
        a = {k: v for k, v in g.attrs.items() if not k.startswith("data-reactpy") and k != "key"}
        inline = {k[2:]: a.pop(k) for k in list(a) if k.startswith("on")}
        code = w[4] if len(w) > 4 else {}
        if set(inline) != set(code):
            return f"{path}/{i} <{g.tag}>: inline JavaScript for {set(inline)} instead of {set(code)}"
        for k in code:
            res.counts["inline"] += 1
            d = run_inline(inline[k], code[k])
            if d:
                return f"{path}/{i} <{g.tag}>: inline JavaScript {code[k]!r} has the effects {d}"
        b = w[1]
        res.counts["attributes"] += len(b)
        if set(a) != set(b) or any(a[k] != b[k] and not (b[k] is True and a[k] in ("", "true", k)) for k in b):
            return f"{path}/{i} <{g.tag}>: attributes {a} instead of {b}"
        pairs.append((g, w))
        d = differs(res, g.childNodes, w[2], f"{path}/{i}", pairs)
        if d:
            return d
    return None


class Page:
    def __init__(self, res, rng, folder):
        self.res, self.rng, self.folder = res, rng, folder
        sys.modules["js"].document = sys.modules["pyscript"].document = self.document = Document()
        self.ns = {"__name__": "__main__"}
        for m in [m for m in sys.modules if m == "reactpy.executors.pyscript.layout_handler"]:
            del sys.modules[m]
        exec(setup_code(), self.ns)
        self.shown = {}
        self.gone = []

    def mount(self, prog):
        from reactpy.executors.pyscript.utils import pyscript_component_html
        name = f"r{len(sys.modules[MOD].ROOTS)}"
        sys.modules[MOD].ROOTS[name] = prog.root
        f = self.folder / f"{name}.py"
        f.write_text(f"from {MOD} import ROOTS\n\n\ndef root():\n    return ROOTS[{name!r}]()\n")
        toks = tokens(pyscript_component_html((str(f),), "<i>loading</i>", "root"))
        box = Element("div")
        for k, v in toks[0][2].items():
            box.setAttribute(k, v)
        box.appendChild(Element("i")).appendChild(Text("loading"))
        self.document.body.appendChild(box)
        code = next(t[1] for t in toks if t[0] == "raw")
        exec(compile(code, "<component>", "exec"), self.ns)
        self.shown[prog] = box
        self.res.counts["mounts"] += 1

    def compare(self, what):
        """{program: [(element, expected element)]}"""
        out = {}
        for prog, box in self.shown.items():
            pairs = []
            d = differs(self.res, box.childNodes, prog.expected(), "", pairs)
            self.res.counts["comparisons"] += 1
            if d:
                self.res.bad("view-diverged", f"{what}: {d}")
            out[prog] = pairs
        return out


def case(res, p):
    import reactpy.config as C
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    folder = pathlib.Path(tempfile.mkdtemp(prefix="c26-"))
    try:
        vloop.run(run, res, p, folder)
    finally:
        shutil.rmtree(folder)
        sys.modules[MOD].ROOTS.clear()


async def run(res, p, folder):
    rng = random.Random(p["seed"])
    page = Page(res, rng, folder)
    make = lambda: (Trees if rng.random() < 0.6 else Programs)(rng, res)
    for _ in range(rng.choice([1, 1, 2, 3])):
        page.mount(make())
    quiet = lambda: vloop.quiesce(lambda: sum(x.renders for x in page.shown))
    await quiet()
    pairs = page.compare("first render")
    events, changed, n = 0, False, 0
    for step in range(rng.randrange(4, 11)):
        if res.violations:
            return
        before = {prog: [g for g, _ in ps] for prog, ps in pairs.items()}
        op = rng.random()
        what = f"step {step}"
        if op < 0.12 and len(page.shown) < 4:
            for prog in list(page.shown):
                if rng.random() < 0.5:
                    page.shown.pop(prog).remove()
                    page.gone.append(prog)
            page.mount(make())
            await quiet()
            for prog in page.gone:
                if not prog.ended:
                    res.bad("lives-on", f"{what}: a component removed from the page was not unmounted when another was added")
                prog.seen = prog.renders
                res.counts["ended"] += 1
        elif op < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                rng.choice(list(page.shown)).change(rng)
                res.counts["changes"] += 1
                for _ in range(rng.choice([0, 0, 1, 3, 8])):
                    await asyncio.sleep(0)
            await quiet()
        elif op < 0.6:
            # only a tick: nothing is replaced
            for prog in page.shown:
                if isinstance(prog, Trees):
                    prog.tick += 1
                    prog.show(prog.view)
                    res.counts["changes"] += 1
            await quiet()
            pairs = page.compare(what)
            for prog, ps in pairs.items():
                if isinstance(prog, Trees) and prog in before:
                    if len(ps) == len(before[prog]) and any(a is not b for a, (b, _) in zip(before[prog], ps)):
                        res.bad("replaced", f"{what}: elements were replaced though only an attribute changed")
                    res.counts["kept_nodes"] += len(ps)
            continue
        else:
            for _ in range(rng.choice([1, 2, 4])):
                prog = rng.choice(list(page.shown))
                ps = pairs.get(prog) or []
                if not ps:
                    continue
                race = rng.random() < 0.15
                n += 1
                events += 1
                res.counts["events"] += 1
                e = Event(rng.choice(["click", "click", "input", "keydown", "custom", "dblclick", "blur", "focus"]), n)
                el, w = rng.choice([x for x in ps if e.type in x[1][3]] or ps) if rng.random() < 0.8 else rng.choice(ps)
                if race:
                    res.counts["race_events"] += 1
                    prog.change(rng)
                    for _ in range(rng.choice([0, 1, 3])):
                        await asyncio.sleep(0)
                want, prevented, stopped = [], False, False
                wanted = {id(g): x for g, x in ps}
                x = el
                while x is not None and id(x) in wanted and not stopped:
                    r = prog.reach(wanted[id(x)]).get(e.type)
                    if r:
                        want.append(r[0](e))
                        prevented |= r[1]
                        stopped |= r[2]
                    x = x.parentNode
                start = len(prog.handled)
                el.dispatch(e)
                await quiet()
                got = prog.handled[start:]
                if race:
                    if len({repr(g[:-1]) for g in got}) != len(got) or any(g[-1] != n for g in got):
                        res.bad("event-twice", f"{what}: {e.type} reached {got}")
                else:
                    if sorted(map(repr, got)) != sorted(map(repr, want)):
                        res.bad("event-lost" if len(got) < len(want) else "event-misdelivered", f"{what}: {e.type} on <{el.tag}> reached {got} instead of {want}")
                    if (e.prevented, e.stopped) != (prevented, stopped):
                        res.bad("event-options", f"{what}: {e.type} on <{el.tag}>: prevented, stopped = {e.prevented, e.stopped} instead of {prevented, stopped}")
                    res.counts["reached"] += len(want)
                    res.counts["bubbled"] += len(want) > 1
                    res.counts["unreached"] += not want
                    res.counts["prevented"] += prevented
                    res.counts["stopped"] += stopped
                pairs = page.compare(what)
                if res.violations:
                    return
        pairs = page.compare(what)
        after = {prog: [g for g, _ in ps] for prog, ps in pairs.items()}
        changed |= any(len(a) != len(before.get(k, a)) or a != before.get(k, a) for k, a in after.items()) or bool(events)
    for prog in page.gone:
        if prog.renders != prog.seen:
            res.bad("lives-on", "a component that is gone rendered again")
    res.done(p["seed"], changed and events)
