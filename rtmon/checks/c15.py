"""C15: VDOM construction keeps content and sorts attributes correctly."""
import asyncio, collections, functools, random, types
from ..common import rngs

TECHNIQUE = ("runtime monitoring: every element constructed from random attributes and nested iterables is compared with a reference "
             "of flattening and attribute sorting; one-shot iterables count how often they are read and inputs are compared afterwards")
RULE = ("one case = 40 elements built through html.*, html.svg.*, Vdom with and without import sources and custom constructors, fragments "
        "and scripts, from random attributes (handlers of every callable kind, strings, inline scripts, values) and children nested up to "
        "60 deep in lists, tuples, generators, sets, views and user iterables, with debug checks on or off; non-trivial if something was nested")
ASSUME = ["a plain dict in the first place is taken for the attributes (documented)", "iterables are finite"]
REQUIRE = {"elements": 15000, "children": 100000, "one_shot": 5000, "handlers": 10000, "handlers_called": 10000, "inline": 3000, "rejected": 1000,
           "fragments": 500, "scripts": 500, "debug_on": 100, "components": 3000}
CHUNK = 20
VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]
OPEN = ["div", "p", "a", "span", "ul", "table", "button", "select", "textarea", "video", "my_elem", "del_", "h1", "section", "title", "svg", "dialog", "details", "summary", "template", "slot", "object", "option", "optgroup", "canvas", "audio", "picture", "map", "label", "pre", "style", "x_"]
SVG = ["g", "defs", "marker", "mask", "symbol", "clipPath", "pattern", "svg", "my_shape", "text", "tspan", "textPath", "title", "desc", "style", "linearGradient", "radialGradient", "filter", "feMerge", "feComponentTransfer", "foreignObject", "switch", "a"]
SVG_VOID = ["circle", "path", "rect", "line", "polygon", "use", "stop", "ellipse", "polyline", "image", "feMergeNode", "feBlend"]


def cases(tier, seed):
    n = 3000 if tier == "quick" else 8000
    return [{"seed": s, "n": 40} for s in rngs(seed, n, "c15")]


class Once:
    """Readable once, like a file or a database cursor."""

    def __init__(self, items, res, log):
        self.items, self.res, self.log = items, res, log
        self.used = 0
        log.append(self)

    def __iter__(self):
        self.used += 1
        it, self.items = self.items, []
        return iter(it)


class Sized(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class MyDict(dict):
    pass


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def method(self, *a):
        return self.f(*a)


def case(res, p):
    import reactpy.config as C
    rng = random.Random(p["seed"])
    debug = rng.random() < 0.5
    res.counts["debug_on"] += debug
    C.REACTPY_DEBUG.current = debug
    C.REACTPY_CHECK_JSON_ATTRS.current = False
    import reactpy
    sigs, nested = [], False
    loop = asyncio.new_event_loop()
    try:
        for _ in range(p["n"]):
            sig, nest = one(res, rng, reactpy, loop)
            sigs.append(sig)
            nested = nested or nest
            if res.violations:
                break
    finally:
        loop.close()
        C.REACTPY_DEBUG.current = False
    res.done((p["seed"], len(sigs)), nested, {"elements": sigs[:3]})


def leaf(rng, reactpy, res, depth=0):
    x = rng.random()
    if x < 0.35:
        return rng.choice(["", "a", "text", "<b>", "\u00e9", "onClick"])
    if x < 0.55:
        return rng.choice([0, 1, -1, 2.5, True, False, None, 10 ** 30])
    if x < 0.7:
        return reactpy.html.div({"key": rng.choice("abc")}, "x") if rng.random() < 0.5 else reactpy.html.p("y")
    if x < 0.8:
        return {"tagName": "b", "attributes": {"key": "k"}} if rng.random() < 0.5 else {"tagName": "i"}
    if x < 0.9:
        res.counts["components"] += 1
        return COMP(reactpy)(rng.random(), key=rng.choice([None, "k", 0]))
    if x < 0.95:
        return MyDict(tagName="u")
    return types.MappingProxyType({"tagName": "s"})


_comp = []


def COMP(reactpy):
    if not _comp:
        @reactpy.component
        def C(x):
            return reactpy.html.div(x)
        _comp.append(C)
    return _comp[0]


def children(rng, reactpy, res, once, depth=0):
    """(values to pass, flattened leaves)"""
    vals, flat = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5] if depth else [0, 1, 2, 3, 8])):
        if depth < 6 and rng.random() < 0.35:
            kind = rng.choice(["list", "tuple", "gen", "iter", "map", "once", "sized", "values", "deque", "chain", "range", "set", "deep"])
            v, f = ([], []) if kind in ("range", "set") else children(rng, reactpy, res, once, depth + 1)
            if kind == "list":
                v = list(v)
            elif kind == "tuple":
                v = tuple(v)
            elif kind == "gen":
                v = (x for x in v)
                res.counts["one_shot"] += 1
            elif kind == "iter":
                v = iter(v)
                res.counts["one_shot"] += 1
            elif kind == "map":
                v = map(lambda x: x, v)
                res.counts["one_shot"] += 1
            elif kind == "once":
                v = Once(v, res, once)
                res.counts["one_shot"] += 1
            elif kind == "sized":
                v = Sized(v)
            elif kind == "values":
                v = dict(enumerate(v)).values()
            elif kind == "deque":
                v = collections.deque(v)
            elif kind == "chain":
                import itertools
                v = itertools.chain(v[:1], v[1:])
                res.counts["one_shot"] += 1
            elif kind == "range":
                n = rng.randrange(4)
                v, f = range(n), list(range(n))
            elif kind == "set":
                v = {rng.random(), rng.randrange(99), "s"}
                f = list(v)
            else:
                for _ in range(rng.choice([3, 60])):
                    v = [v] if rng.random() < 0.7 else (v,)
            vals.append(v)
            flat += f
        else:
            x = leaf(rng, reactpy, res)
            vals.append(x)
            flat.append(x)
    return vals, flat


def attributes(rng, reactpy, res):
    from reactpy import event
    from reactpy.core.events import EventHandler
    from reactpy.types import InlineJavaScript, BaseEventHandler
    attrs, want, handlers, inline = {}, {}, {}, {}
    names = ["id", "className", "data-x", "key", "style", "on", "onto", "once", "online", "onclick", "onClick", "onMouseUp", "onKeyDown2", "children",
             "tagName", "eventHandlers", "\u00e9", "a b", "click", "x.y", "On", "OnClick", "Xon Click", "data-onClick", "format", "attributes"]
    for name in rng.sample(names, rng.choice([0, 0, 1, 2, 4, 8])):
        kind = rng.choice(["value", "value", "str", "str", "fn", "handler", "js"])
        if kind == "value":
            v = rng.choice([0, 1, None, True, 2.5, [], [1, "x"], {"a": {"b": 1}}, (), b"x"])
            attrs[name] = want[name] = v
        elif kind == "str":
            v = rng.choice(["", "x", "alert(1)", "function(){}"])
            attrs[name] = v
            if name in ("onClick", "onMouseUp", "onKeyDown2"):
                inline[name] = v
            else:
                want[name] = v
        elif kind == "js":
            v = InlineJavaScript(rng.choice(["", "alert(1)"]))
            attrs[name] = v
            inline[name] = v
        elif kind == "fn":
            calls = []
            x = rng.randrange(8)
            if x == 0:
                def v(*a, calls=calls):
                    calls.append(a)
            elif x == 1:
                async def v(*a, calls=calls):
                    await asyncio.sleep(0)
                    calls.append(a)
            elif x == 2:
                v = Callable(lambda *a, calls=calls: calls.append(a)).method
            elif x == 3:
                v = functools.partial(lambda q, *a, calls=calls: calls.append(a), 5)
            elif x == 4:
                @functools.wraps(case)
                def v(*a, calls=calls):
                    calls.append(a)
            elif x == 5:
                v = staticmethod(lambda *a, calls=calls: calls.append(a))
            elif x == 6:
                v = functools.lru_cache(lambda *a, calls=calls: calls.append(a))
            else:
                v = lambda *a, calls=calls: calls.append(a)
            attrs[name] = v
            handlers[name] = (None, calls, v)
        else:
            calls = []
            x = rng.randrange(3)
            if x == 0:
                v = event(lambda *a, calls=calls: calls.append(a), prevent_default=rng.random() < 0.5)
            elif x == 1:
                v = EventHandler(lambda a, calls=calls: calls.append(tuple(a)))
            else:
                class Mine(BaseEventHandler):
                    stop_propagation = prevent_default = False
                    debounce = throttle = target = None

                    async def function(self, a, calls=calls):
                        calls.append(tuple(a))
                v = Mine()
            attrs[name] = v
            handlers[name] = (v, calls, v)
    return attrs, want, handlers, inline


def same_seq(a, b):
    return len(a) == len(b) and all(x is y or (type(x) is type(y) and x == y) for x, y in zip(a, b))


def one(res, rng, reactpy, loop):
    from reactpy.core.vdom import Vdom
    html = reactpy.html
    once = []
    vals, flat = children(rng, reactpy, res, once)
    attrs, want, handlers, inline = attributes(rng, reactpy, res)
    x = rng.random()
    kind, source, closed = "plain", None, False
    if x < 0.3:
        name = rng.choice(OPEN)
        ctor, tag = getattr(html, name), name.rstrip("_").replace("_", "-")
    elif x < 0.4:
        name = rng.choice(SVG)
        ctor, tag = getattr(html.svg, name), name.replace("_", "-")
    elif x < 0.48:
        tag = rng.choice(VOID)
        ctor, closed = getattr(html, tag), True
    elif x < 0.52:
        tag = rng.choice(SVG_VOID)
        ctor, closed = getattr(html.svg, tag), True
    elif x < 0.6:
        tag, ctor, kind = "", rng.choice([html.fragment, html, reactpy.h, reactpy.h.fragment]), "fragment"
        if rng.random() < 0.6:
            attrs, want, handlers, inline = {}, {}, {}, {}
            if rng.random() < 0.5:
                attrs["key"] = want["key"] = rng.choice(["k", 0, 1.5])
    elif x < 0.68:
        tag, ctor, kind = "script", html.script, "script"
        y = rng.random()
        if y < 0.8:
            vals = flat = [rng.choice(["", "let x", "</script>"])] if rng.random() < 0.7 else []
            once = []
            vals = [flat] if flat and rng.random() < 0.3 else flat
            if rng.random() < 0.7:
                attrs = {k: v for k, v in attrs.items() if k not in handlers and k not in inline}
                handlers, inline = {}, {}
            if rng.random() < 0.4:
                attrs["src"] = want["src"] = "s.js"
    elif x < 0.78:
        source = {"source": "x.js"}
        tag = rng.choice(["Comp", "Comp.Sub", "Comp.Sub.Sub"])
        ctor = Vdom("Comp", import_source=source)
        closed = rng.random() < 0.3
        if closed:
            ctor = Vdom("Comp", import_source=source, allow_children=False)
        for part in tag.split(".")[1:]:
            ctor = getattr(ctor, part)
    elif x < 0.86:
        kind, tag = "custom", "cust"
        seen = []

        def make(attributes, children, event_handlers):
            seen.append((dict(attributes), list(children), dict(event_handlers)))
            return {"tagName": "ignored", "attributes": {"mine": 1}}
        ctor = Vdom(tag, custom_constructor=make)
        closed = rng.random() < 0.2
        if closed:
            ctor = Vdom(tag, allow_children=False, custom_constructor=make)
    else:
        tag = rng.choice(["div", "x-y", "a.b", "constructor"])
        ctor = Vdom(tag)
        if rng.random() < 0.2:
            ctor, closed = Vdom(tag, allow_children=False), True
    # snapshots of what the user gave
    before_attrs = dict(attrs)
    lists = [(v, list(v)) for v in vals if isinstance(v, (list, tuple, collections.deque))]
    dicts = [(v, dict(v)) for v in flat if isinstance(v, dict)]
    explicit = attrs or rng.random() < 0.5 or (vals and type(vals[0]) is dict)
    args = ([attrs] if explicit else []) + vals
    res.counts["elements"] += 1
    res.counts["children"] += len(flat)
    res.counts["handlers"] += len(handlers)
    res.counts["inline"] += len(inline)
    where = f"{kind} {tag!r}({args!r})"
    must_fail = None
    if closed and flat:
        must_fail = TypeError
    if kind == "fragment" and (set(want) - {"key"} or handlers or inline):
        must_fail = TypeError
    if kind == "script":
        if handlers or len(flat) > 1 or (flat and not isinstance(flat[0], str)):
            must_fail = ValueError
    try:
        el = ctor(*args)
    except (TypeError, ValueError) as e:
        if must_fail is None:
            res.bad("rejected", f"{where}: {type(e).__name__} {e}")
        elif not isinstance(e, must_fail):
            res.bad("wrong-error", f"{where}: {type(e).__name__} {e}")
        res.counts["rejected"] += 1
        return tag, False
    if must_fail:
        res.bad("accepted", f"{where} gave {el!r}")
        return tag, False
    res.counts["fragments"] += kind == "fragment"
    res.counts["scripts"] += kind == "script"
    if not reactpy.core.vdom.is_vdom(el):
        res.bad("not-vdom", f"{where} gave {type(el)}")
    if el.get("tagName") != tag:
        res.bad("tag", f"{where}: tagName {el.get('tagName')!r}")
    if el.get("importSource") != source:
        res.bad("import-source", f"{where}: {el.get('importSource')}")
    if set(el) - {"tagName", "attributes", "children", "eventHandlers", "inlineJavaScript", "importSource"}:
        res.bad("fields", f"{where} gave {el!r}")
    if kind == "custom":
        a, c, h = seen[0]
        if len(seen) != 1 or el.get("attributes") != {"mine": 1}:
            res.bad("custom", f"{where}: custom constructor called {len(seen)} times, gave {el}")
    else:
        a, c, h = el.get("attributes", {}), el.get("children", []), el.get("eventHandlers", {})
    if kind == "script" and want.get("key") is None:
        # the documented inference of a key
        k = flat[0] if flat else want.get("src")
        if k is not None:
            want = {**want, "key": k}
    if not same_seq(list(c), flat):
        res.bad("children", f"{where}: children {c!r} instead of {flat!r}")
    if list(a.items()) != list(want.items()) and (dict(a) != want or any(type(a[k]) is not type(want[k]) for k in want)):
        res.bad("attributes", f"{where}: attributes {a!r} instead of {want!r}")
    if dict(el.get("inlineJavaScript", {})) != inline:
        res.bad("inline", f"{where}: inline scripts {el.get('inlineJavaScript')!r} instead of {inline!r}")
    if set(h) != set(handlers):
        res.bad("handlers", f"{where}: handlers {h!r} instead of {set(handlers)}")
    else:
        for name, (exact, calls, _) in handlers.items():
            if exact is not None and h[name] is not exact:
                res.bad("handler-identity", f"{where}: handler {name} was replaced")
                continue
            data = [rng.randrange(99) for _ in range(rng.choice([1, 1, 2]))]
            try:
                loop.run_until_complete(h[name].function(data))
            except Exception as e:
                res.bad("handler-call", f"{where}: handler {name} {type(e).__name__} {e}")
                continue
            res.counts["handlers_called"] += 1
            if [tuple(map(str, q)) for q in calls] != [tuple(map(str, data))]:
                res.bad("handler-call", f"{where}: handler {name} given {data} was called as {calls}")
    for o in once:
        if o.used != 1:
            res.bad("iterations", f"{where}: an iterable was read {o.used} times")
    if attrs != before_attrs or any(attrs[k] is not before_attrs[k] for k in attrs):
        res.bad("input-modified", f"{where}: attributes were {before_attrs!r}")
    for v, b in lists:
        if not same_seq(list(v), b):
            res.bad("input-modified", f"{where}: {v!r} was {b!r}")
    for v, b in dicts:
        if dict(v) != b:
            res.bad("input-modified", f"{where}: {v!r} was {b!r}")
    # the result is the caller's own: changing it changes nothing else
    if kind == "plain" and isinstance(el.get("attributes"), dict) and explicit:
        el["attributes"]["added"] = 1
        if "added" in attrs:
            res.bad("shared", f"{where}: the element shares its attributes with the caller")
    return tag, bool(flat) and len(flat) != len(vals)
