"""Runs as a server process of its own: makes the page of an in-browser application and serves the wheel it names.

Reads one JSON line per round: {"sessions": [{"fault": .., "seed": ..}, ..], "out": DIR, "root": FILE, "prefix": ..};
answers every session in a process of its own, all released at the same time."""
import asyncio, html, json, os, pathlib, random, re, resource, signal, sys, time


async def get(app, path):
    sent = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        sent.append(m)
    scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "",
             "scheme": "http", "method": "GET", "headers": [], "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80)}
    await app(scope, receive, send)
    return sent[0]["status"], b"".join(m.get("body", b"") for m in sent[1:])


def session(spec, job):
    from reactpy.executors.asgi.pyscript import ReactPyCsr
    rng, fault, seen, out = random.Random(spec["seed"]), spec["fault"], [0], {"pages": []}

    def hook(event, args):
        if event in ("open", "os.rename", "os.remove", "os.mkdir", "os.listdir", "os.scandir", "os.utime", "shutil.copyfile", "subprocess.Popen", "os.chmod"):
            seen[0] += 1
            if fault and fault.get("kill") == seen[0]:
                os.kill(os.getpid(), signal.SIGKILL)
            if event in ("os.remove", "os.rename", "shutil.copyfile", "os.mkdir") and spec.get("jitter") and rng.random() < 0.6:
                time.sleep(rng.choice([0.001, 0.005, 0.02]))
    if fault and "fsize" in fault:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    sys.addaudithook(hook)
    app = ReactPyCsr(job["root"], path_prefix=job["prefix"])
    seen[0] = 0
    if fault and "fsize" in fault:
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault["fsize"], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    try:
        status, page = asyncio.run(get(app, "/"))
        out["status"] = status
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
    fault = None
    out["events"] = seen[0]
    if "status" in out:
        configs = [json.loads(html.unescape(c)) for c in re.findall(r"config='([^']*)'", page.decode())]
        out["packages"] = configs[0]["packages"] if len(configs) == 1 else None
        url = next((p for p in out["packages"] or () if "reactpy" in p and p.endswith(".whl")), None)
        out["url"] = url
        if url:
            st, body = asyncio.run(get(app, url))
            out["wheel_status"] = st
            (pathlib.Path(job["out"]) / f"{spec['id']}.whl").write_bytes(body)
    (pathlib.Path(job["out"]) / f"{spec['id']}.json").write_text(json.dumps(out))


def main():
    import logging
    logging.disable(logging.CRITICAL)
    import reactpy, reactpy.executors.asgi.pyscript
    print(json.dumps({"version": reactpy.__version__, "file": reactpy.__file__}), flush=True)
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pids = {}
        for spec in job["sessions"]:
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w)
                    os.read(r, 1)
                    session(spec, job)
                finally:
                    os._exit(0)
            pids[pid] = spec["id"]
        os.close(r)
        os.close(w)
        ended = {}
        for pid, sid in pids.items():
            ended[sid] = os.waitpid(pid, 0)[1]
        print(json.dumps(ended), flush=True)


main()
