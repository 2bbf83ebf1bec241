"""Random ReactPy applications with an executable reference model.

An `App` is a set of component definitions generated from a random source. The same
templates are evaluated twice: into real ReactPy elements (inside the real components)
and into the plain view the client should show (`App.expected`). State values are
tracked here, at the user's side of the setters, independently of ReactPy.
"""
from __future__ import annotations
import asyncio, itertools
import reactpy
from reactpy import component, html
from reactpy.core.hooks import create_context, use_context, use_effect, use_ref, use_state
from reactpy.core.hooks import use_async_effect
from reactpy.core.vdom import Vdom

TAGS = ["div", "p", "span", "ul", "section", ""]
KEYS = ["a", "b", "c", "d", "e"]


class Boom(Exception):
    pass


class Instance:
    __slots__ = ("id", "deff", "path", "values", "setters", "renders", "prop", "ctx",
                 "mounted", "unmounted", "seen", "sets", "log", "__weakref__", "effects")

    def __init__(self, id, deff):
        self.id, self.deff = id, deff
        self.path = None
        self.values = list(deff.init)
        self.setters = None
        self.renders = 0
        self.prop = None
        self.ctx = ()
        self.mounted = self.unmounted = 0
        self.seen = None
        self.sets = 0
        self.log = []
        self.effects = {}


class Def:
    def __init__(self, idx):
        self.idx = idx
        self.init = []
        self.body = None
        self.fail = None        # (slot, modulus, residue) -> raise in the body
        self.reads = []         # contexts read
        self.slow = 0           # seconds an unmount takes (shielded async effect)
        self.func = None


class Cfg:
    """What a generated application may contain."""
    def __init__(self, **kw):
        self.defs = 4
        self.depth = 3
        self.fanout = 3
        self.keys = True
        self.contexts = 0
        self.fails = 0.0
        self.slow = 0.0
        self.handlers = 0.3
        self.inputs = False
        self.each = 0.35
        self.cond = 0.35
        self.track = True       # mount/unmount tracking effects
        self.key_pool = KEYS
        self.keyed_body = 0.0
        self.fail_kinds = ["before", "mid", "end"]
        self.__dict__.update(kw)


class App:
    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        self.ids = itertools.count(1)
        self.at = {}            # path -> instance that rendered there last
        self.instances = []
        self.violations = []
        self.events = 0
        self.renders = 0
        self.handled = []
        self.handled_serial = []
        self.builds = 0
        self.built = {}         # (path, event) -> serial of the handler given by the latest render
        self.scripts = {}
        self.contexts = [create_context(f"default{i}") for i in range(cfg.contexts)]
        self.ctx_default = [f"default{i}" for i in range(cfg.contexts)]
        self.defs = []
        for i in range(cfg.defs):
            self.defs.append(Def(i))
        for d in reversed(self.defs):
            self._gen_def(d)
        # components are told apart by their functions, not by the names of these
        self.same_names = rng.random() < 0.5
        for d in self.defs:
            d.func = self._make_component(d)

    # ------------------------------------------------------------------ generation
    def _gen_def(self, d):
        r, c = self.rng, self.cfg
        d.init = [r.randrange(0, 4) for _ in range(r.choice([1, 1, 2, 3]))]
        d.reads = [i for i in range(c.contexts) if r.random() < 0.6]
        if d.idx and r.random() < c.fails:
            d.fail = (r.randrange(len(d.init)), 3, r.randrange(3), r.choice(c.fail_kinds))
        if d.idx and r.random() < c.slow:
            d.slow = r.choice([0.001, 0.02, 0.3])
        self._budget = 10
        kind = r.random()
        if d.idx + 1 < len(self.defs) and kind < 0.12:
            d.body = self._gen_comp(d)                       # component returns component
        elif kind < 0.2:
            d.body = ("if", self._cond(d), self._gen_el(d, 1), None)   # may return None
        else:
            d.body = self._gen_el(d, 0)
        if c.keys and d.body[0] == "el" and r.random() < c.keyed_body:
            d.body = self._with_key(d.body, r.choice(c.key_pool))
        elif c.keys and d.body[0] == "if" and r.random() < c.keyed_body * 2:
            b = self._with_key(self._gen_el(d, 1), r.choice(c.key_pool))
            d.body = ("if", d.body[1], d.body[2], b)

    def _expr(self, d):
        r = self.rng
        ch = ["slot", "slot", "prop", "const"] + (["ctx"] if d.reads else [])
        k = r.choice(ch)
        if k == "slot":
            return ("slot", r.randrange(len(d.init)))
        if k == "ctx":
            return ("ctx", r.choice(d.reads))
        if k == "const":
            return ("const", r.choice([0, 1, "x", "é<&\"", 2.5, True]))
        return ("prop",)

    def _cond(self, d):
        m = self.rng.choice([2, 2, 3])
        return (self.rng.randrange(len(d.init)), m, self.rng.randrange(m))

    def _gen_el(self, d, depth):
        r, c = self.rng, self.cfg
        self._budget -= 1
        tag = r.choice(TAGS)
        attrs = {}
        if r.random() < 0.5 and tag:
            attrs["data-" + r.choice("uvw")] = self._expr(d)
        handlers = {}
        if r.random() < c.handlers and tag:
            handlers[r.choice(["onClick", "onFocus"])] = True
        children = self._gen_children(d, depth + 1) if depth < c.depth else [("text", self._expr(d))]
        return ("el", tag, None, attrs, handlers, children)

    def _gen_comp(self, d):
        j = self.rng.randrange(d.idx + 1, len(self.defs))
        return ("comp", j, None, self._expr(d))

    def _gen_node(self, d, depth):
        r, c = self.rng, self.cfg
        x = r.random()
        can_comp = d.idx + 1 < len(self.defs) and self._budget > 0
        if x < 0.35 and can_comp:
            self._budget -= 1
            return self._gen_comp(d)
        if x < 0.62 and depth < c.depth and self._budget > 0:
            return self._gen_el(d, depth)
        if x < 0.72 and c.contexts and self._budget > 0:
            self._budget -= 1
            return ("prov", r.randrange(c.contexts), None, self._expr(d),
                    self._gen_children(d, depth + 1, 2) if depth < c.depth else [("text", self._expr(d))])
        return ("text", self._expr(d))

    def _gen_children(self, d, depth, fan=None):
        r, c = self.rng, self.cfg
        out = []
        for _ in range(r.randrange(0, (fan or c.fanout) + 1)):
            x = r.random()
            if x < c.each and c.keys and self._budget > 2 and not any(n[0] == "each" for n in out):
                pool = r.sample(c.key_pool, r.randrange(2, len(c.key_pool) + 1))
                items = []
                for k in pool:
                    n = self._gen_node(d, depth)
                    while n[0] == "text":
                        n = self._gen_el(d, c.depth) if not (d.idx + 1 < len(self.defs)) else self._gen_comp(d)
                    n = self._with_key(n, k)
                    alt = None
                    if r.random() < 0.3:     # same key, sometimes a different kind of node
                        alt = self._gen_node(d, depth)
                        alt = self._with_key(alt, k) if alt[0] != "text" else alt
                    items.append((k, n, alt))
                out.append(("each", r.randrange(len(d.init)), items))
            elif x < c.each + c.cond:
                a = self._gen_node(d, depth)
                b = None if r.random() < 0.5 else self._gen_node(d, depth)
                out.append(("if", self._cond(d), a, b))
            else:
                out.append(self._gen_node(d, depth))
        return out

    @staticmethod
    def _with_key(n, k):
        n = list(n)
        n[2] = k
        return tuple(n)

    # ------------------------------------------------------------------ evaluation
    def _val(self, e, env):
        k = e[0]
        if k == "slot":
            return env["slots"][e[1]]
        if k == "prop":
            return env["prop"]
        if k == "ctx":
            return env["ctx"][e[1]]
        return e[1]

    def _ok(self, cond, env):
        s, m, res = cond
        return env["slots"][s] % m == res

    def _order(self, node, env):
        """Which keyed items are shown and in which order, from the value of a slot."""
        _, slot, items = node
        v = env["slots"][slot] * 2654435761 % (1 << 32)
        show = []
        for i, (k, n, alt) in enumerate(items):
            b = (v >> (3 * i)) & 7
            if b in (0, 1):
                continue
            show.append(((v >> (5 * i)) & 15, k, alt if (alt is not None and b in (2, 3)) else n))
        show.sort(key=lambda t: (t[0], str(t[1])))
        return [n for _, _, n in show]

    def _flat(self, nodes, env):
        """Children as the user passes them: None stays, keyed lists are spliced."""
        out = []
        for n in nodes:
            if n is None:
                out.append(None)
            elif n[0] == "if":
                n2 = n[2] if self._ok(n[1], env) else n[3]
                out.append(n2)
            elif n[0] == "each":
                out.extend(self._order(n, env))
            else:
                out.append(n)
        # a text that took a keyed item's place has no key
        return out

    # real elements -------------------------------------------------------------
    def _build(self, n, env, path):
        k = n[0]
        if k == "text":
            return self._show(self._val(n[1], env))
        if k == "if":
            n2 = n[2] if self._ok(n[1], env) else n[3]
            return None if n2 is None else self._build(n2, env, path)
        if k == "comp":
            # other arguments have no part in a component's identity
            extra = {"id": f"i{self.renders % 5}", "name": self.renders, "index": self.renders % 3} if self.renders % 3 == 0 else {}
            return self.defs[n[1]].func(path, self._val(n[3], env), **extra, **({"key": n[2]} if n[2] is not None else {}))
        if k == "prov":
            kids = self._kids(n[4], env, path + (0,))
            return self.contexts[n[1]](*kids, value=f"v:{self._show(self._val(n[3], env))}", **({"key": n[2]} if n[2] is not None else {}))
        _, tag, key, attrs, handlers, children = n
        a = {name: self._val(e, env) for name, e in attrs.items()}
        if key is not None:
            a["key"] = key
        for ev in handlers:
            a[ev] = self._handler(env["inst"], path, ev)
        kids = self._kids(children, env, path)
        ctor = Vdom(tag) if tag else html.fragment
        if not tag:
            a = {k: v for k, v in a.items() if k == "key"}
        return ctor(a, *kids) if a else ctor(*kids)

    def _kids(self, nodes, env, path):
        flat = self._flat(nodes, env)
        out = []
        for i, n in enumerate(flat):
            if n is None:
                out.append(None)
            else:
                out.append(self._build(n, env, path + (self._key(n, i),)))
        return out

    @staticmethod
    def _key(n, i):
        k = n[2] if n[0] in ("el", "comp", "prov") else None
        # a key is never the same as an index
        return i if k is None else (k if isinstance(k, str) else ("key", k))

    @staticmethod
    def _show(v):
        return v if isinstance(v, str) else (f"{v}" if not isinstance(v, tuple) else "/".join(map(str, v)))

    # expected view ---------------------------------------------------------------
    def _model(self, n, env, path):
        k = n[0]
        if k != "if":
            self.m_kinds[path] = (k, n[1] if k in ("comp", "prov") else None)
        if k == "text":
            return self._show(self._val(n[1], env))
        if k == "if":
            n2 = n[2] if self._ok(n[1], env) else n[3]
            return None if n2 is None else self._model(n2, env, path)
        if k == "comp":
            return self._model_comp(self.defs[n[1]], path, self._val(n[3], env), env["ctxmap"])
        if k == "prov":
            ctxmap = list(env["ctxmap"])
            ctxmap[n[1]] = f"v:{self._show(self._val(n[3], env))}"
            env2 = {**env, "ctxmap": tuple(ctxmap)}
            self.m_kinds[path + (0,)] = ("el", None)
            kids = self._mkids(n[4], env2, path + (0,))
            return {"tagName": "", "children": [{"tagName": "", **({"children": kids} if kids else {})}]}
        _, tag, key, attrs, handlers, children = n
        out = {"tagName": tag}
        a = {name: self._val(e, env) for name, e in attrs.items()} if tag else {}
        a = {k: (list(v) if isinstance(v, tuple) else v) for k, v in a.items()}
        if key is not None:
            a["key"] = key
        if a:
            out["attributes"] = a
        if handlers and tag:
            out["eventHandlers"] = sorted(handlers)
            self.m_handlers.append((path, sorted(handlers)))
        kids = self._mkids(children, env, path)
        if kids:
            out["children"] = kids
        self.m_nodes += 1
        return out

    def _mkids(self, nodes, env, path):
        out = []
        for i, n in enumerate(self._flat(nodes, env)):
            if n is None:
                continue
            m = self._model(n, env, path + (self._key(n, i),))
            if m is not None:
                out.append(m)
        return out

    def _model_comp(self, d, path, prop, ctxmap):
        inst = self.at.get(path)
        if inst is None or inst.deff is not d:
            values = list(d.init)
            self.m_missing.append(path)
        else:
            values = inst.values
            self.m_live.append(inst)
        env = {"slots": values, "prop": prop, "ctx": ctxmap, "ctxmap": ctxmap, "inst": inst}
        self.m_props[path] = (prop, ctxmap)
        if d.fail and values[d.fail[0]] % d.fail[1] == d.fail[2]:
            self.m_failed.append(path)
            return {"tagName": "", "error": ""}
        kids = self._mkids([d.body], env, path)
        body = kids[0] if kids else None
        return {"tagName": "", **({"children": [body]} if body is not None else {})}

    def expected(self):
        self.m_kinds = {(): ("comp", 0)}
        self.m_handlers = []
        self.m_nodes, self.m_missing, self.m_live, self.m_failed, self.m_props = 0, [], [], [], {}
        return self._model_comp(self.defs[0], (), 0, tuple(self.ctx_default))

    # ------------------------------------------------------------------ components
    def root(self):
        return self.defs[0].func((), 0)

    def complain(self, kind, **info):
        self.violations.append((kind, info))

    def _make_component(self, d):
        app = self

        def body(path, prop, **_):
            app.renders += 1
            app.before_hooks(d, path)
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Instance(next(app.ids), d)
                app.instances.append(ref.current)
            inst = ref.current
            if inst.deff is not d:
                app.complain("state-shared-between-types", path=path, inst=inst.id)
            if inst.unmounted:
                app.complain("rendered-after-unmount", path=path, inst=inst.id, comp=d.idx)
            if d.fail and d.fail[3] == "before" and inst.values[d.fail[0]] % d.fail[1] == d.fail[2]:
                # the rest of the hooks is not reached in this render
                if inst.setters is not None:
                    app._bind(inst, path, prop)
                    raise Boom("before hooks")
            states = [use_state(v) for v in d.init]
            ctx = {i: use_context(app.contexts[i]) for i in d.reads}
            inst.setters = [s[1] for s in states]
            inst.seen = [s[0] for s in states]
            inst.ctx = ctx
            if inst.seen != inst.values:
                app.complain("state-seen-differs", path=path, inst=inst.id, seen=inst.seen, want=list(inst.values))
            app._bind(inst, path, prop)
            if d.fail and d.fail[3] == "mid" and inst.values[d.fail[0]] % d.fail[1] == d.fail[2]:
                raise Boom("between hooks")
            if app.cfg.track:
                @use_effect(dependencies=[])
                def track():
                    inst.mounted += 1
                    if inst.unmounted:
                        app.complain("effect-after-unmount", path=path, inst=inst.id)

                    def gone():
                        inst.unmounted += 1
                    return gone
            if d.slow:
                @use_async_effect(dependencies=[], shield=True)
                async def slow():
                    try:
                        await asyncio.sleep(1e9 if False else 0)
                        await inst_gate(inst, d)
                    finally:
                        pass
            app.on_render(inst, d)
            if d.fail and inst.values[d.fail[0]] % d.fail[1] == d.fail[2]:
                raise Boom("end of body")
            env = {"slots": inst.seen, "prop": prop, "ctx": {**dict(enumerate(app.ctx_default)), **ctx}, "inst": inst}
            kids = app._kids([d.body], env, path)
            return app.after_body(d, path, inst, kids[0] if kids else None)

        async def inst_gate(inst, d):
            # a run in progress when the component goes away: the unmount waits for it
            while not inst.unmounted:
                await asyncio.sleep(0.05)
            await asyncio.sleep(d.slow)

        body.__name__ = body.__qualname__ = "Comp" if self.same_names else f"Comp{d.idx}"
        return component(body)

    def on_render(self, inst, d):
        pass

    def before_hooks(self, d, path):
        pass

    def after_body(self, d, path, inst, result):
        return result

    def _bind(self, inst, path, prop):
        inst.path, inst.prop = path, prop
        inst.renders += 1
        self.at[path] = inst

    def _handler(self, inst, path, ev):
        self.builds += 1
        serial = self.built[(path, ev)] = self.builds

        async def handler(*data):
            self.handled.append((path, ev, data))
            self.handled_serial.append(serial)
            d = data[0] if data else None
            if isinstance(d, dict) and d.get("script") in self.scripts:
                await self.scripts[d["script"]](self)
        return handler

    # ------------------------------------------------------------------ operations
    def live(self):
        """Instances that the current state says are mounted."""
        self.expected()
        return list(self.m_live)

    def set(self, inst, slot, value):
        """Set state through the public setter; keep the harness' own copy."""
        if inst.setters is None:
            return False
        inst.values[slot] = value
        inst.sets += 1
        inst.setters[slot](value)
        return True

    def update(self, inst, slot, delta):
        if inst.setters is None:
            return False
        inst.values[slot] += delta
        inst.sets += 1
        inst.setters[slot](lambda old: old + delta)
        return True


def norm(view):
    """Canonical form of a client view, comparable with `App.expected`."""
    if isinstance(view, str):
        return view
    out = {"tagName": view["tagName"]}
    if "error" in view:
        out["error"] = view["error"]
    a = {k: v for k, v in (view.get("attributes") or {}).items() if k != "_reactpy_ack_seq"}
    if a:
        out["attributes"] = a
    if view.get("eventHandlers"):
        out["eventHandlers"] = sorted(view["eventHandlers"])
    kids = [norm(c) for c in view.get("children") or []]
    if kids:
        out["children"] = kids
    for k in view:
        if k not in ("tagName", "error", "attributes", "eventHandlers", "children"):
            out[k] = view[k]
    return out


def first_diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: client has {a!r}, expected {b!r}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{path}/{k}: missing on the client, expected {b[k]!r}"
            if k not in b:
                return f"{path}/{k}: client has extra {a[k]!r}"
            r = first_diff(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: client has {len(a)} items, expected {len(b)}: {a!r} vs {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, f"{path}/{i}")
            if r:
                return r
        return None
    return None if a == b else f"{path}: client has {a!r}, expected {b!r}"
