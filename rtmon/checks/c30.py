"""C30: browser events are serialized safely."""
from ..common import rngs
from ..node import Node

TECHNIQUE = "runtime monitoring: the real conversion runs in Node on random object graphs and on events of a stand-in page; every result is compared with what must be kept and checked to be plain, finite data"
RULE = ("one case = 12 random object graphs (classes, arrays, typed arrays, cycles, shared parts, throwing getters, endless chains, functions, windows, collections) and 6 events on forms of controls, each with a depth limit of 1-12 or the default; "
        "non-trivial if more than three graphs were converted")
ASSUME = ["reserved names are left out by design (leading __, capitals only, view, size, length)", "objects have own or inherited enumerable fields; enumerating them does not throw", "the stand-in page's properties are those of a browser's"]
REQUIRE = {"objects": 10000, "nodes": 200000, "fields": 50000, "events": 5000, "facts": 60000, "inputs": 2500, "forms": 400, "throwing": 5000, "shared": 5000, "chains": 800, "rings": 800, "odd_values": 10000, "lists": 1000}
CHUNK = 50
node = Node("c30")


def cases(tier, seed):
    n = 1500 if tier == "quick" else 25000
    return [{"seed": s} for s in rngs(seed, n, "c30")]


def case(res, p):
    got = node.case(res, "run", p["seed"])
    if got:
        res.done(p["seed"], got["nontrivial"])
