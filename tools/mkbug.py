"""mkbug(id, prop, needs, breaks, demo, *edits): writes seeded/<id>/; edits are (file, old, new) against a clean /repo."""
import json, pathlib, subprocess, textwrap
import os
R = pathlib.Path(os.environ.get("MKBUG_REPO", "/tmp/p"))  # a copy of /repo
S = pathlib.Path("/verif/seeded")
PRE = '''import asyncio, sys, contextlib
import reactpy
from reactpy import component, html, hooks, use_state, use_effect, use_ref
from reactpy.core.layout import Layout
from reactpy.core.serve import serve_layout
import logging; logging.disable(logging.CRITICAL)
def check(cond, msg):
    if not cond:
        print("FAIL", msg); sys.exit(1)
def run(coro): return asyncio.run(asyncio.wait_for(coro, 60))
async def settle(layout, idle=0.15):
    """all updates until there are no more for a while"""
    out = []
    while True:
        t = asyncio.ensure_future(layout.render())
        done, _ = await asyncio.wait([t], timeout=idle)
        if not done:
            t.cancel()
            with contextlib.suppress(asyncio.CancelledError): await t
            return out
        out.append(t.result())
'''
def mkbug(id, prop, needs, breaks, demo, *edits, raw=False):
    assert not subprocess.check_output(["git","-C",str(R),"status","--porcelain","-uno"]), "dirty"
    d = S/id; d.mkdir(parents=True, exist_ok=True)
    try:
        for f, a, b in edits:
            p = R/f; s = p.read_text()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            p.write_text(s.replace(a, b))
        (d/"patch.diff").write_bytes(subprocess.check_output(["git","-C",str(R),"diff"]))
    finally:
        subprocess.check_call(["git","-C",str(R),"checkout","-q","--","."])
    (d/"demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (d/"demo.py").write_text((demo if raw else PRE + textwrap.dedent(demo)).rstrip()+"\n")
    (d/"meta.json").write_text(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+"\n")
