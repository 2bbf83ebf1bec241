"""Reference client: applies update messages strictly in order (RFC 6901 paths)."""
from __future__ import annotations
import json


class BadPath(Exception):
    pass


class Client:
    def __init__(self):
        self.view = None
        self.updates = 0

    def apply(self, msg):
        if msg.get("type") != "layout-update":
            raise BadPath(f"unknown message type {msg.get('type')!r}")
        model = json.loads(json.dumps(msg["model"]))
        path = msg["path"]
        self.updates += 1
        if path == "":
            self.view = model
            return
        parts = path.split("/")
        if parts[0] != "":
            raise BadPath(f"malformed path {path!r}")
        cur = self.view
        parent = None
        for p in parts[1:]:
            p = p.replace("~1", "/").replace("~0", "~")
            parent, last = cur, p
            if isinstance(cur, list):
                if not p.isdigit() or int(p) >= len(cur):
                    raise BadPath(f"{path!r} is not in the client's view")
                cur = cur[int(p)]
            elif isinstance(cur, dict):
                if p not in cur:
                    raise BadPath(f"{path!r} is not in the client's view")
                cur = cur[p]
            else:
                raise BadPath(f"{path!r} is not in the client's view")
        if not isinstance(cur, dict):
            raise BadPath(f"{path!r} addresses {cur!r}, which is no component")
        if isinstance(parent, list):
            parent[int(last)] = model
        else:
            parent[last] = model


def strip(model, drop=("eventHandlers",)):
    """Comparable form of a view: only content."""
    if isinstance(model, str):
        return model
    out = {}
    for k, v in model.items():
        if k in drop:
            continue
        if k == "children":
            if v:
                out[k] = [strip(c, drop) for c in v]
        elif k == "attributes":
            a = {n: x for n, x in v.items() if n != "_reactpy_ack_seq"}
            if a:
                out[k] = a
        else:
            out[k] = v
    return out


def walk(model, path=()):
    if isinstance(model, dict):
        yield path, model
        for i, c in enumerate(model.get("children", []) or []):
            yield from walk(c, path + (i,))
