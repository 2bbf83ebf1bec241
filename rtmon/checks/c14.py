"""C14: updates are valid, self-contained and immutable messages."""
import asyncio, copy, json, random
from .. import vloop
from ..common import rngs
from ..session import Session

TECHNIQUE = ("runtime monitoring: every update handed to the transport is validated by an independent schema checker, serialized, "
             "compared with the content rendered, and compared again with its serialization at the end of the session")
RULE = ("one case = one session of components rendering random content (odd text, nested attribute values, handlers with options and "
        "targets, inline scripts, import sources, fragments, None, keys, raw dictionaries) which they replace again and again, with "
        "partial updates, slow sends and failures; non-trivial if content was replaced in place")
ASSUME = ["user objects nested in attributes are not modified by the user after they were rendered"]
REQUIRE = {"updates": 10000, "partial_updates": 3000, "nodes": 100000, "with_inline": 1000, "edited_elements": 1000, "with_import": 1000, "with_handlers": 5000,
           "replaced_in_place": 3000, "immutability_checks": 10000, "schema_probes": 100, "spec_check_on": 200, "error_nodes": 200}
CHUNK = 20
TEXT = ["", "x", "a b", "<b>", "&amp;", "\u00e9", "\U0001f600", "\u2028", "\n", "{}", "None", "0", "'\""]
SCALARS = TEXT + [0, 1, -7, 2.5, 1e100, True, False, None, 10 ** 20]


def cases(tier, seed):
    n = 4000 if tier == "quick" else 25000
    out = []
    for s in rngs(seed, n, "c14"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.6, "spec": r.random() < 0.5, "comps": r.choice([1, 2, 3]),
                    "fails": r.choice([0, 0, 0.1]), "slow": r.choice([0, 0.02])})
    return out


def check_schema(m, path="model"):
    """The published schema, written down independently; returns the first problem."""
    if not isinstance(m, dict):
        return f"{path}: not an object: {m!r}"
    extra = set(m) - {"tagName", "error", "children", "attributes", "eventHandlers", "inlineJavaScript", "importSource"}
    if extra:
        return f"{path}: unexpected {extra}"
    if type(m.get("tagName")) is not str:
        return f"{path}: tagName {m.get('tagName')!r}"
    if "error" in m and (type(m["error"]) is not str or m["tagName"] != ""):
        return f"{path}: error node {m}"
    if "attributes" in m and (not isinstance(m["attributes"], dict) or not all(type(k) is str for k in m["attributes"])):
        return f"{path}: attributes {m['attributes']!r}"
    for ev, h in (m.get("eventHandlers", {}) or {}).items():
        if type(ev) is not str or not isinstance(h, dict) or type(h.get("target")) is not str:
            return f"{path}: handler {ev}: {h!r}"
        if set(h) - {"target", "preventDefault", "stopPropagation", "debounce", "throttle"}:
            return f"{path}: handler {ev}: {h!r}"
        for k in ("preventDefault", "stopPropagation"):
            if type(h.get(k, False)) is not bool:
                return f"{path}: handler {ev}: {h!r}"
        for k in ("debounce", "throttle"):
            if k in h and (type(h[k]) is not int or h[k] < 0):
                return f"{path}: handler {ev}: {h!r}"
    if not isinstance(m.get("eventHandlers", {}), dict):
        return f"{path}: handlers"
    js = m.get("inlineJavaScript", {})
    if not isinstance(js, dict) or not all(type(k) is str and isinstance(v, str) for k, v in js.items()):
        return f"{path}: inlineJavaScript {js!r}"
    if "importSource" in m:
        i = m["importSource"]
        if not isinstance(i, dict) or type(i.get("source")) is not str or i.get("sourceType", "URL") not in ("URL", "NAME"):
            return f"{path}: importSource {i!r}"
        if type(i.get("unmountBeforeUpdate", False)) is not bool:
            return f"{path}: importSource {i!r}"
        f = i.get("fallback")
        if f is not None and type(f) is not str:
            p = check_schema(json.loads(json.dumps(f)), path + "/fallback")
            if p:
                return p
    if "children" in m:
        if not isinstance(m["children"], (list, tuple)):
            return f"{path}: children {m['children']!r}"
        for n, c in enumerate(m["children"]):
            if isinstance(c, str):
                continue
            p = check_schema(c, f"{path}/children/{n}")
            if p:
                return p
    return None


def value(rng, depth=0):
    x = rng.random()
    if depth < 3 and x < 0.12:
        return {rng.choice(["color", "fontSize", "--x", "a b", "\u00e9"]): value(rng, depth + 1) for _ in range(rng.randrange(3))}
    if depth < 3 and x < 0.2:
        return [value(rng, depth + 1) for _ in range(rng.randrange(3))]
    return rng.choice(SCALARS)


class Gen:
    """Random content: what is given to ReactPy along with the JSON that has to come out."""

    def __init__(self, rng, res, comps, kinds):
        self.rng, self.res, self.comps, self.kinds = rng, res, comps, kinds
        self.n = 0

    def node(self, depth, key=None, allow=()):
        """(what the user writes, what the client gets or None)"""
        from reactpy import html, event
        from reactpy.core.vdom import Vdom
        from reactpy.core.events import EventHandler
        from reactpy.types import InlineJavaScript
        rng, res = self.rng, self.res
        x = rng.random()
        if key is None and x < 0.28:
            v = rng.choice(SCALARS)
            return v, (None if v is None else f"{v}")
        if allow and x < 0.45:
            i = allow.pop()
            from_comp = self.comps[i]
            return (from_comp(key=key) if key is not None else from_comp()), ("comp", i)
        res.counts["nodes"] += 1
        attrs, jattrs, handlers, inline = {}, {}, {}, {}
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            name = rng.choice(["id", "data-x", "aria-label", "style", "className", "x:y", "value", "href", "key2", "\u00e9", "on", "once", "ontology"])
            attrs[name] = jattrs[name] = value(rng)
        if key is not None:
            attrs["key"] = jattrs["key"] = key
        tag = rng.choice(["div", "p", "input", "my-elem", "svg", "script"])
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            ev = rng.choice(["onClick", "onFocus", "onMouseUp", "custom-event"])
            self.n += 1
            k = rng.random()
            opt = {}
            if k < 0.4:
                h = lambda *a: None
            elif k < 0.8:
                opt = {a: b for a, b in [("prevent_default", True), ("stop_propagation", True), ("debounce", rng.choice([0, 5, 200])),
                                         ("throttle", rng.choice([0, 100]))] if rng.random() < 0.5}
                h = event(**opt)(lambda *a: None) if opt else event(lambda *a: None)
            else:
                h = event(lambda *a: None, prevent_default=False)
                opt = {"target": f"target-{id(self)}-{self.n}"}
                h = EventHandler(h.function, target=opt["target"])
            attrs[ev] = h
            handlers[ev] = {"target": opt.get("target", ...), "preventDefault": bool(opt.get("prevent_default")),
                            "stopPropagation": bool(opt.get("stop_propagation")),
                            **{a: opt[a] for a in ("debounce", "throttle") if a in opt}}
        for _ in range(rng.choice([0, 0, 0, 0, 1])):
            if rng.random() < 0.5:
                nm, js = rng.choice(["onInput", "onKeyUp"]), rng.choice(TEXT)
                attrs[nm] = js
            else:
                nm, js = rng.choice(["onWheel", "init", "data-js"]), rng.choice(TEXT)
                attrs[nm] = InlineJavaScript(js)
            jattrs.pop(nm, None)
            inline[nm] = js
        kids, jkids = [], []
        if depth < 4:
            keys = rng.sample(["a", "b", "0", "1", 0, 1, 2, "/"], 4)
            for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
                k, j = self.node(depth + 1, keys.pop() if keys and rng.random() < 0.3 else None, allow)
                y = rng.random()
                kids.append([k] if y < 0.1 else (k,) if y < 0.2 else [[k]] if y < 0.25 else (q for q in [k]) if y < 0.3 else k)
                if j is not None:
                    jkids.append(j)
        model = {"tagName": tag}
        if jattrs:
            model["attributes"] = jattrs
        if handlers:
            model["eventHandlers"] = handlers
        if inline:
            model["inlineJavaScript"] = inline
        if jkids:
            model["children"] = jkids
        # a plain dictionary in the first place is taken for attributes
        explicit = attrs or rng.random() < 0.5 or (kids and type(kids[0]) is dict)
        z = rng.random()
        if z < 0.12:
            src = {"source": rng.choice(["mod.js", "https://x/\u00e9.js"]), "sourceType": rng.choice(["URL", "NAME"]),
                   "fallback": rng.choice([None, "loading", {"tagName": "p", "children": ["..."]}]), "unmountBeforeUpdate": rng.random() < 0.5}
            ctor = Vdom("Widget", import_source=src)
            if rng.random() < 0.4:
                ctor = ctor.Sub
                model["tagName"] = "Widget.Sub"
            else:
                model["tagName"] = "Widget"
            model["importSource"] = copy.deepcopy(src)
            el = ctor(attrs, *kids) if explicit else ctor(*kids)
        elif z < 0.2 and not jattrs.keys() - {"key"} and not handlers and not inline:
            model["tagName"] = ""
            el = html.fragment(attrs, *kids) if explicit else html.fragment(*kids)
        elif z < 0.3 and not handlers and not inline:
            el = {"tagName": tag, **({"attributes": attrs} if attrs else {}), **({"children": list(flat(kids))} if kids else {})}
            res.counts["raw_dicts"] += 1
        else:
            el = Vdom(tag)(attrs, *kids) if explicit else Vdom(tag)(*kids)
        res.counts["with_inline"] += bool(inline)
        res.counts["with_handlers"] += bool(handlers)
        res.counts["with_import"] += "importSource" in model
        return el, model


def flat(kids):
    for k in kids:
        if isinstance(k, (list, tuple)) or hasattr(k, "send"):
            yield from flat(k)
        else:
            yield k


def case(res, p):
    vloop.run(run, res, p)


def norm(m):
    """Canonical: unspecified targets, tuples, acknowledgements, empty containers."""
    if isinstance(m, str):
        return m
    out = dict(m)
    kids = [norm(c) for c in m.get("children") or []]
    out.pop("children", None)
    if kids:
        out["children"] = kids
    for k in ("attributes", "eventHandlers", "inlineJavaScript"):
        if k in out and not out[k]:
            del out[k]
    return out


def same(got, want, path=""):
    """First difference between what the client has and what was rendered."""
    if isinstance(got, str) or isinstance(want, str):
        return None if got == want else f"{path}: {got!r} instead of {want!r}"
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        if k not in got:
            return f"{path}: {k} is missing, rendered {b!r}"
        if k not in want:
            return f"{path}: additional {k} {a!r}"
        if k == "children":
            if len(a) != len(b):
                return f"{path}: children {a} instead of {b}"
            for i, (x, y) in enumerate(zip(a, b)):
                d = same(x, y, f"{path}/{i}")
                if d:
                    return d
        elif k == "eventHandlers":
            if set(a) != set(b):
                return f"{path}: handlers {a} instead of {b}"
            for ev in a:
                y = {**b[ev]}
                if y["target"] is ...:
                    y["target"] = a[ev]["target"]
                if a[ev] != y:
                    return f"{path}: handler {ev} {a[ev]} instead of {y}"
        elif typed(a) != typed(b):
            return f"{path}: {k} {a!r} instead of {b!r}"
    return None


def typed(v):
    """1, 1.0 and True are different things to a client."""
    return json.dumps(v, sort_keys=True)


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_state
    from reactpy.core.hooks import use_effect
    from reactpy.core.layout import Layout
    from reactpy.core.vdom import validate_vdom_json
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    C.REACTPY_CHECK_VDOM_SPEC.current = p["spec"]
    res.counts["spec_check_on"] += p["spec"]
    setters, shown, kept = {}, {}, {}
    n = p["comps"]

    def make(i):
        @component
        def Comp():
            v, set_v = use_state(0)

            @use_effect(dependencies=[])
            def mounted():
                setters[i] = set_v
                return lambda: setters.pop(i, None)
            if p["fails"] and i and rng.random() < p["fails"]:
                shown[i] = {"tagName": "", "error": ""}
                res.counts["error_nodes"] += 1
                raise RuntimeError("render fails")
            if kept.get(i) and rng.random() < 0.3:
                # the element of the last render once more, with entries replaced in place
                res.counts["edited_elements"] += 1
                el, model = kept[i]
                model = {**model}
                for k in ("attributes", "inlineJavaScript"):
                    if k in el and k in model:
                        el[k]["data-edit"] = f"edit {v}"
                        model[k] = {**model[k], "data-edit": f"edit {v}"}
                kept[i] = el, model
                shown[i] = {"tagName": "", "children": [model]}
                return el
            allow = [i + 1] if i + 1 < n else []
            el, model = Gen(rng, res, comps, None).node(0, key=rng.choice([None, None, "top", 3]) if v % 3 else "k", allow=allow)
            if allow and rng.random() < 0.8:
                # make sure the next one has a place
                allow.pop()
                el, model = html.section({}, el, comps[i + 1]()), {"tagName": "section", "children": [m for m in [model, ("comp", i + 1)] if m is not None]}
            shown[i] = {"tagName": "", **({"children": [model]} if model is not None else {})}
            kept[i] = (el, model) if isinstance(el, dict) and isinstance(model, dict) else None
            return el
        return Comp

    def full(m):
        if isinstance(m, tuple):
            return full(shown[m[1]])
        if isinstance(m, str):
            return m
        return {**m, **({"children": [full(c) for c in m["children"]]} if "children" in m else {})}

    comps = [make(i) for i in range(n)]
    # one component object may be needed at most once per view: node() hands each out once
    s = Session(res, Layout(comps[0]()), rng, send_delay=p["slow"], keep=True)
    send = s._send

    async def watch(m):
        if set(m) != {"type", "path", "model"}:
            res.bad("message", f"{set(m)}")
        try:
            json.dumps(m, allow_nan=False)
        except (TypeError, ValueError) as e:
            res.bad("not-serializable", f"{e}: {m}")
            return
        bad = check_schema(m["model"])
        if bad:
            res.bad("schema", bad)
        else:
            try:
                validate_vdom_json(m["model"])
            except Exception as e:
                res.bad("own-validator", f"{e}: {m['model']}")
        await send(m)
    s._send = watch
    s.start()
    await vloop.settle(2)
    for step in range(rng.randrange(3, 9)):
        if s.dead:
            res.bad("session-died", s.why_dead())
            break
        d = same(norm(s.client.view), norm(full(shown[0])))
        if d:
            res.bad("content", d)
        if res.violations:
            break
        for _ in range(rng.choice([1, 1, 2])):
            if setters:
                setters[rng.choice(sorted(setters))](lambda o: o + 1)
                res.counts["replaced_in_place"] += 1
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0, 0.001]))
        await vloop.settle(3)
    for m, before in s.messages:
        res.counts["immutability_checks"] += 1
        if json.dumps(m) != before:
            res.bad("update-changed", f"handed out as {before[:800]}, now {json.dumps(m)[:800]}")
            break
    if s.messages and not res.violations:
        probe_schema(res, rng, json.loads(rng.choice(s.messages)[1])["model"])
    await s.stop()
    for m, before in s.messages:
        if json.dumps(m) != before and not res.violations:
            res.bad("update-changed", f"at the end of the session: {before[:800]}, now {json.dumps(m)[:800]}")
    C.REACTPY_CHECK_VDOM_SPEC.current = False
    res.done((p["seed"], len(s.messages)), s.client.updates > 2, {"updates": s.client.updates, "last": s.messages[-1][1][:400] if s.messages else ""})


def probe_schema(res, rng, model):
    """The published schema accepts exactly what it should."""
    from reactpy.core.vdom import validate_vdom_json
    nodes = []

    def collect(m):
        if isinstance(m, dict):
            nodes.append(m)
            for c in m.get("children") or []:
                collect(c)
    collect(model)
    for _ in range(2):
        good = copy.deepcopy(model)
        nodes = []
        collect(good)
        m = rng.choice(nodes)
        kind = rng.choice(["tagName", "no-tag", "attributes", "handler", "target", "inline", "inline-value", "children", "child", "debounce", "source"])
        if kind == "tagName":
            m["tagName"] = 5
        elif kind == "no-tag":
            del m["tagName"]
        elif kind == "attributes":
            m["attributes"] = ["a"]
        elif kind == "handler":
            m["eventHandlers"] = {"onClick": "x"}
        elif kind == "target":
            m["eventHandlers"] = {"onClick": {"preventDefault": True}}
        elif kind == "debounce":
            m["eventHandlers"] = {"onClick": {"target": "x", "debounce": -1}}
        elif kind == "inline":
            m["inlineJavaScript"] = ["x"]
        elif kind == "inline-value":
            m["inlineJavaScript"] = {"onClick": 5}
        elif kind == "children":
            m["children"] = "text"
        elif kind == "child":
            m["children"] = [5]
        else:
            m["importSource"] = {"fallback": None}
        res.counts["schema_probes"] += 1
        try:
            validate_vdom_json(good)
        except Exception:
            continue
        res.bad("schema-too-lax", f"{kind} wrong in {m}")
