"""C11: use_memo, use_callback, use_ref, use_reducer against a reference model, render by render."""
import asyncio, random, traceback
from .. import vloop
from ..common import rngs
from ..session import Session

TECHNIQUE = "runtime monitoring: online checker comparing every hook call of every render with a reference model of memo slots, refs and reducers"
RULE = ("one case = one session with 1-3 component instances, each with several memo, callback, ref, reducer and state "
        "slots whose dependencies follow a scripted random history (absent, inferred, lists mutated in place, equal but "
        "not identical values, unequal types, objects with odd ==, inline functions, varying lengths, failing computations); "
        "non-trivial if some slot both kept and recomputed its value")
ASSUME = ["values are compared as the code documents it: same type and ==, identity if == is unusable, inline functions by code"]
REQUIRE = {"memo_calls": 20000, "recomputed": 5000, "kept": 5000, "failed_computations": 300, "inferred": 1000,
           "in_place_changes": 100, "callbacks": 2000, "actions": 3000, "failed_actions": 50, "odd_eq": 500, "remounts": 100,
           "failed_renders": 100, "empty_cells": 50}
CHUNK = 20


def cases(tier, seed):
    n = 8000 if tier == "quick" else 80000
    out = []
    for s in rngs(seed, n, "c11"):
        r = random.Random(s)
        out.append({"seed": s, "async": r.random() < 0.5, "comps": r.choice([1, 1, 2, 3])})
    return out


class Plain:
    pass


class Array:
    """Equality gives no truth value (like numpy)."""

    def __eq__(self, other):
        return Ambiguous()
    __hash__ = object.__hash__


class Ambiguous:
    def __bool__(self):
        raise ValueError("ambiguous")


class Angry:
    def __eq__(self, other):
        raise RuntimeError("cannot compare")
    __hash__ = object.__hash__


OBJ = [Plain() for _ in range(3)]
ARR = [Array() for _ in range(3)]
NANS = [float("nan"), float("nan"), complex("nan")]       # not even equal to themselves
ANG = [Angry() for _ in range(3)]


def inline(k):
    # same code: equal whichever call made it; different code: different
    if k == 0:
        return lambda: "zero"
    if k == 1:
        return lambda: "one"

    if k == 2:
        def named():
            return "two"
        return named
    # these differ in a single aspect of their code
    return (lambda x=None: x.real, lambda x=None: x.imag, lambda x=None: x.real + 1, lambda x=None: x.real - 1, lambda y=None: y.real,
            lambda *x: x.real, lambda **x: x.real, lambda x=None: [lambda: x, 1], lambda x=None: [lambda: x, 2], lambda x=None: len(x),
            lambda x=None: abs(x))[k - 3]


def fresh(kind, i):
    """A value object for (kind, i), a new object wherever equality goes by value."""
    if kind == "int":
        return int(str(1000 + i))
    if kind == "small":
        return i
    if kind == "bool":
        return bool(i % 2)
    if kind == "float":
        return float(i)
    if kind == "str":
        return "".join(["te", "xt", str(i)])
    if kind == "bytes":
        return bytes([65, i])
    if kind == "bytearray":
        return bytearray([65, i])
    if kind == "none":
        return None
    if kind == "nan":
        return NANS[i]
    if kind == "obj":
        return OBJ[i]
    if kind == "arr":
        return ARR[i]
    if kind == "angry":
        return ANG[i]
    if kind == "fn":
        return inline(i % 3)
    if kind == "fn2":
        return inline(3 + i)
    if kind == "fn3":
        return inline(6 + i)
    if kind == "fn4":
        return inline(9 + i)
    if kind == "fn5":
        return inline((12, 13, 3)[i])
    raise AssertionError(kind)


def tag(kind, i):
    if kind == "none":
        return ("none",)
    if kind == "bool":
        return ("bool", i % 2)
    if kind == "small":
        return ("int", i)
    if kind == "int":
        return ("int", 1000 + i)
    if kind == "fn5" and i == 2:
        return ("fn2", 0)
    return (kind, i)


KINDS = ["int", "small", "bool", "float", "str", "bytes", "bytearray", "none", "nan", "obj", "arr", "angry", "fn", "str", "int", "fn2", "fn3", "fn4", "fn5"]


class Boom(Exception):
    pass


class Slot:
    """Reference model of one memo slot."""
    stored = None
    value = None

    def expect(self, tags):
        return self.stored is None or tags is None or self.stored != tuple(tags)

    def success(self, tags, value):
        self.stored, self.value = (() if tags is None else tuple(tags)), value


def gen_deps(rng, prev):
    x = rng.random()
    if prev is not None and prev != "none" and x < 0.55:
        return prev
    if prev is not None and prev != "none" and prev and x < 0.75:
        new = list(prev)
        j = rng.randrange(len(new))
        k, i = new[j]
        # a neighbour: other value of the same kind, or the same number as another type
        new[j] = (rng.choice([k, k, "small", "float", "bool"]), rng.randrange(3))
        return tuple(new)
    if prev is not None and prev != "none" and prev and x < 0.8:
        # inline functions which differ a little
        new = list(prev)
        new[rng.randrange(len(new))] = (rng.choice(["fn2", "fn3", "fn4", "fn5"]), rng.randrange(3))
        return tuple(new)
    if x < 0.87:
        return "none"
    return tuple((rng.choice(KINDS), rng.randrange(3)) for _ in range(rng.choice([0, 1, 1, 2, 3])))


def infer1(a, out):
    return lambda: out(a)


def infer2(a, b, out):
    def f():
        return out((a, b))
    return f


def case(res, p):
    vloop.run(run, res, p)


async def run(res, p):
    import reactpy.config as C
    from reactpy import component, html, use_state, use_ref, use_memo, use_callback, use_reducer, use_effect
    from reactpy.core.layout import Layout
    rng = random.Random(p["seed"])
    C.REACTPY_ASYNC_RENDERING.current = p["async"]
    nslots = [rng.choice([1, 2, 3, 4]) for _ in range(p["comps"])]
    plans = [[dict(kind=rng.choice(["memo", "memo", "callback"]), form=rng.choice(["arg", "deco", "kw"]),
                   infer=rng.random() < 0.3, shared=rng.random() < 0.3, fails=rng.random() < 0.35)
              for _ in range(n)] for n in nslots]
    live, kept_and_new, tot = {}, [False, False], [0]

    def bad(kind, what):
        res.bad(kind, what)

    def make(ci):
        @component
        def Comp():
            try:
                return body()
            except Boom:
                raise
            except Exception:
                bad("hook-raised", traceback.format_exc()[-2000:])
                raise

        def body():
            v, set_v = use_state(0)
            ref = use_ref(ci)
            if ref.current == ci:
                ref.current = {"slots": [Slot() for _ in plans[ci]], "deps": [None] * len(plans[ci]),
                               "lists": [[] for _ in plans[ci]], "sum": (), "ref": ref, "set": set_v, "renders": 0,
                               "state_id": None, "disp": None, "fail_sum": 0}
            me = ref.current
            if me["ref"] is not ref:
                bad("ref-identity", "another ref object")
            if me["set"] is not set_v:
                bad("setter-identity", "another setter")
            ref2 = use_ref(None)
            if me["renders"] and ref2.current != me["renders"]:
                bad("ref-value", f"{ref2.current} instead of {me['renders']}")
            me["renders"] += 1
            if me["renders"] % 2:
                ref2.current = me["renders"]
            elif ref2.set_current(me["renders"]) != me["renders"] - 1:
                bad("ref-value", "set_current does not return the old value")
            if not ref2 == type(ref2)(me["renders"]) or ref2 == type(ref2)(me["renders"] + 1) or ref2 == me["renders"] or ref2 == type("Other", (), {"current": me["renders"]})() or ref2 == type(ref2)():
                bad("ref-equality", f"{ref2} equals what it does not, or does not equal what it does")

            def reducer(state, action):
                if action == "fail":
                    raise Boom("reducer")
                return state + (action,)
            total, dispatch = use_reducer(reducer, ())
            if me["disp"] is None:
                me["disp"] = dispatch
            elif me["disp"] is not dispatch:
                bad("dispatch-identity", "another dispatch function")
            if total != me["sum"]:
                bad("reducer-state", f"{total} instead of {me['sum']}")
            live[ci] = me

            @use_effect(dependencies=[])
            def mounted():
                def gone():
                    if live.get(ci) is me:
                        del live[ci]
                return gone

            for si, plan in enumerate(plans[ci]):
                slot = me["slots"][si]
                deps = gen_deps(rng, me["deps"][si])
                me["deps"][si] = deps
                ran = []
                fails = plan["fails"] and rng.random() < 0.4
                catch = rng.random() < 0.7
                result = object()

                def compute(got=None):
                    ran.append(got)
                    if fails:
                        res.counts["failed_computations"] += 1
                        raise Boom("compute")
                    return result

                if plan["kind"] == "callback":
                    fails = False
                infer = plan["infer"] and deps != "none" and len(deps) in (1, 2)
                if infer:
                    res.counts["inferred"] += 1
                    vals = [fresh(*d) for d in deps]
                    fn = infer1(vals[0], compute) if len(vals) == 1 else infer2(vals[0], vals[1], compute)
                    # the closure holds its free variables in name order; `out` comes last and is compared by code
                    tags = [tag(*d) for d in deps] + ["out"]
                    arg = ...
                else:
                    fn = (lambda: compute())
                    if deps == "none":
                        tags, arg = None, None
                    else:
                        tags = [tag(*d) for d in deps]
                        arg = [fresh(*d) for d in deps]
                        if any(k in ("arr", "angry") for k, _ in deps):
                            res.counts["odd_eq"] += 1
                        if plan["shared"]:
                            lst = me["lists"][si]       # the same list object in every render
                            if slot.stored is not None and slot.stored != tuple(tags):
                                res.counts["in_place_changes"] += 1
                            lst[:] = arg
                            arg = lst
                        elif rng.random() < 0.3:
                            arg = tuple(arg)
                expect = slot.expect(tags)
                res.counts["memo_calls"] += 1
                what = f"component {ci} slot {si} {plan} deps {deps} stored {slot.stored}"
                if plan["kind"] == "callback":
                    res.counts["callbacks"] += 1
                    if plan["form"] == "deco" and not infer:
                        got = use_callback(dependencies=arg)(fn)
                    elif plan["form"] == "kw":
                        got = use_callback(fn, dependencies=arg)
                    else:
                        got = use_callback(fn, arg)
                    want = fn if expect else slot.value
                    if got is not want:
                        bad("callback", f"{what}: expected {'the new' if expect else 'the stored'} function")
                    slot.success(tags, got) if expect else None
                else:
                    try:
                        if plan["form"] == "deco" and not infer:
                            got = use_memo(dependencies=arg)(fn)
                        elif plan["form"] == "kw":
                            got = use_memo(fn, dependencies=arg)
                        else:
                            got = use_memo(fn, arg)
                    except Boom:
                        if not expect:
                            bad("computed-needlessly", what)
                        if not catch:
                            res.counts["failed_renders"] += 1
                            raise
                        continue
                    if bool(ran) != expect or len(ran) > 1:
                        bad("recomputation", f"{what}: ran {len(ran)} times, expected {int(expect)}")
                    if expect:
                        if got is not result:
                            bad("memo-value", f"{what}: not the value just computed")
                        slot.success(tags, result)
                    elif got is not slot.value:
                        bad("memo-value", f"{what}: not the stored value")
                res.counts["recomputed" if expect else "kept"] += 1
                kept_and_new[0 if expect else 1] = True
            return html.p(str(v))

        @component
        def Late():
            try:
                return late_body()
            except Exception:
                bad("hook-raised", traceback.format_exc()[-2000:])
                raise

        def late_body():
            # always the same hooks: a callback and an effect naming a later variable
            n, set_n = use_state(0)
            res.counts["empty_cells"] += 1
            cb = use_callback(lambda: later())

            @use_effect
            def eff():
                later()

            def later():
                return n
            if cb() > n:
                bad("callback-from-the-future", cb())
            live_late[ci] = set_n
            return html.i(str(n))
        return Comp, Late

    live_late = {}
    comps = [make(i) for i in range(p["comps"])]
    ctl = {}

    @component
    def Root():
        gen, ctl["set"] = use_state(tuple([0] * p["comps"]))
        return html.div([c(key=f"{i}/{gen[i]}") for i, (c, _) in enumerate(comps)],
                        [l(key=f"late{i}") for i, (_, l) in enumerate(comps[:1])])

    s = Session(res, Layout(Root()), rng, send_delay=rng.choice([0, 0, 0.02])).start()
    await vloop.settle(1)
    for step in range(rng.randrange(12, 30)):
        if s.dead:
            bad("session-died", s.why_dead())
            return
        x = rng.random()
        if live and x < 0.7:
            me = live[rng.choice(sorted(live))]
            for _ in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < 0.5:
                    act = rng.choice([1, 2, 3, "fail"])
                    res.counts["actions"] += 1
                    if act == "fail":
                        res.counts["failed_actions"] += 1
                        try:
                            me["disp"](act)
                            bad("reducer-error-swallowed", "")
                        except Boom:
                            pass
                    else:
                        me["sum"] += (act,)
                        me["disp"](act)
                else:
                    me["set"](lambda o: o + 1)
        elif x < 0.78 and live_late:
            live_late[0](lambda o: o + 1)
        elif x < 0.85 and "set" in ctl:
            i = rng.randrange(p["comps"])
            res.counts["remounts"] += 1
            ctl["set"](lambda g, i=i: tuple(n + 1 if i == j else n for j, n in enumerate(g)))
        elif "set" in ctl:
            ctl["set"](lambda g: g)
        if rng.random() < 0.7:
            await asyncio.sleep(rng.choice([0.01, 0.1, 1]))
        if res.violations:
            break
    await vloop.settle(10)
    if s.dead:
        bad("session-died", s.why_dead())
    err = await s.stop()
    res.done((p["seed"], res.counts["memo_calls"]), all(kept_and_new),
             {"memo_calls": res.counts["memo_calls"], "recomputed": res.counts["recomputed"], "kept": res.counts["kept"]})
