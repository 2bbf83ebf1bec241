"""C28: the JavaScript client reconnects within its limits and loses no message."""
from ..common import rngs
from ..node import Node

TECHNIQUE = "runtime monitoring: the real client code runs in Node over scripted sockets and virtual time; an online monitor follows sockets, delays and frames"
RULE = ("one case = one page, mounted with its mount function or a client alone, with one of 7x6x7x6 reconnect settings (or defaults), and up to 25 connections that open, fail, close slowly or drop while messages are sent and received and the page's location changes; "
        "non-trivial if it connected more than twice and sent a message")
ASSUME = ["sockets fire their events as browsers' do", "messages are JSON objects", "a connection that never was established may or may not be tried again"]
REQUIRE = {"connections": 8000, "retries": 5000, "failures": 2000, "drops": 3000, "sent_closed": 5000, "sent_open": 3000, "flushed": 2500, "received": 1500, "exhausted": 400, "capped": 1000}
CHUNK = 50
node = Node("c28")


def cases(tier, seed):
    n = 4000 if tier == "quick" else 60000
    return [{"seed": s} for s in rngs(seed, n, "c28")]


def case(res, p):
    got = node.case(res, "run", p["seed"])
    if got:
        res.done(p["seed"], got["nontrivial"])
