"""Runner shared by all checks: cases in worker processes, verdicts, evidence, replays."""
from __future__ import annotations
import argparse, collections, hashlib, importlib, json, multiprocessing as mp, os, pathlib
import random, re, signal, sys, time, traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
INSTALLED = {"C25", "C26", "C31", "C32"}      # checks that run on a copy that looks installed
CODE = None
REPO = pathlib.Path(os.environ.get("RTMON_REPO", "/repo"))     # another tree only while developing
EVID = ROOT / "evidence"
KNOWN = ROOT / "KNOWN_FINDINGS.json"


class Result:
    """What one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.nontrivial = False
        self.sig = None
        self.sample = None

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] += v

    def bad(self, kind, detail, **extra):
        if len(self.violations) < 5:
            self.violations.append({"kind": kind, "detail": str(detail)[:3000], **extra})

    def done(self, sig, nontrivial=True, sample=None):
        self.sig = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        self.nontrivial = bool(nontrivial)
        self.sample = sample
        return self


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """A case took too long by the wall clock (says nothing)."""


class Busy(BaseException):
    """A case computed for far longer than any case does (an endless loop)."""


def _in_repo(tb):
    """Whether an exception came out of the code under test."""
    last = None
    for fr, _ in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if f.startswith((str(REPO), str(CODE))):
            last = "repo"
        elif f.startswith(str(ROOT)):
            last = "harness"
    return last == "repo"


def _flat_excs(e):
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from _flat_excs(x)
    else:
        yield e


def guarded(mod, params):
    """Run one case; exceptions out of the code under test are violations."""
    res = Result()
    limit = getattr(mod, "CASE_LIMIT", 400)

    def on_alarm(*_):
        raise Hang()
    def on_busy(*_):
        raise Busy()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    signal.signal(signal.SIGPROF, on_busy)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", 90))
    try:
        mod.case(res, params)
    except Hang:
        res.counts["watchdog"] += 1
        res.sig = res.sig or "hang"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        from . import vloop
        txt = "".join(traceback.format_exception(e))[-2500:]
        if isinstance(e, Busy):
            res.bad("endless-loop", f"the case still computes after {getattr(mod, 'CPU_LIMIT', 90)} s of processor time\n{txt}")
        elif isinstance(e, vloop.Deadlock):
            res.bad("deadlock", f"{e}\n{txt}")
        elif any(_in_repo(x.__traceback__) for x in _flat_excs(e)):
            res.bad("exception", txt)
        elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
            # the monitor was given something that is not even of the expected kind
            res.bad("misshapen", txt)
        else:
            res.counts["harness_error"] += 1
            res.sample = txt
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    if res.sig is None:
        res.done(json.dumps(params, default=str, sort_keys=True), False, res.sample)
    return res


def _worker(args):
    modname, chunk = args
    mod = importlib.import_module(modname)
    if hasattr(mod, "init"):
        mod.init()
    out = []
    known = {(f["property"], f["kind"]) for f in load_known()["findings"]}
    prop = modname.rsplit(".", 1)[1].upper()
    for p in chunk:
        r = guarded(mod, p)
        out.append((p, r))
        if any((prop, v["kind"]) not in known for v in r.violations):
            break
    return out


def load_known():
    if KNOWN.exists():
        return json.loads(KNOWN.read_text())
    return {"findings": [], "fixed": []}


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def scratch():
    """All temporary files of this run go to one directory, removed at the end."""
    import atexit, shutil, tempfile
    d, pid = tempfile.mkdtemp(prefix="rtmon-"), os.getpid()
    tempfile.tempdir = os.environ["TMPDIR"] = d
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))


def installed_copy():
    """The package as it looks once installed: a scratch directory with a copy and its metadata."""
    import base64, shutil, tempfile
    site = pathlib.Path(tempfile.mkdtemp(prefix="rtmon-site-")) / "lib" / "site-packages"
    shutil.copytree(REPO / "src" / "reactpy", site / "reactpy", ignore=shutil.ignore_patterns("__pycache__", "wheels"))
    version = re.search(r"__version__\s*=\s*['\"](.*?)['\"]", (site / "reactpy/__init__.py").read_text())[1]
    info = site / f"reactpy-{version}.dist-info"
    info.mkdir()
    (info / "METADATA").write_text(f"Metadata-Version: 2.1\nName: reactpy\nVersion: {version}\n")
    (info / "WHEEL").write_text("Wheel-Version: 1.0\nGenerator: rtmon\nRoot-Is-Purelib: true\nTag: py3-none-any\n")
    rows = []
    for f in sorted(site.rglob("*")):
        if f.is_file():
            h = base64.urlsafe_b64encode(hashlib.sha256(f.read_bytes()).digest()).rstrip(b"=").decode()
            rows.append(f"{f.relative_to(site).as_posix()},sha256={h},{f.stat().st_size}")
    rows.append("../../bin/reactpy,,")
    (info / "RECORD").write_text("\n".join([*rows, f"{info.name}/RECORD,,"]) + "\n")
    return site


def setup_paths(installed=False):
    global CODE
    CODE = installed_copy() if installed else REPO / "src"
    sys.path.insert(0, str(CODE))
    os.environ.setdefault("REACTPY_SKIP_PY_WHEEL_BUILD", "1")
    import reactpy
    assert pathlib.Path(reactpy.__file__).is_relative_to(CODE), reactpy.__file__


def write_replay(prop, params, violation):
    d = EVID / "replays"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{prop}.json"
    p.write_text(json.dumps({"property": prop, "params": params, "violation": violation},
                            indent=1, default=str))
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch()
    setup_paths(prop in INSTALLED)
    quiet()
    modname = f"rtmon.checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    if a.replay:
        data = json.loads(pathlib.Path(a.replay).read_text())
        if hasattr(mod, "init"):
            mod.init()
        os.environ["RTMON_VERBOSE"] = "1"
        r = guarded(mod, data["params"])
        print(json.dumps({"counts": r.counts, "violations": r.violations, "sample": r.sample}, indent=1, default=str))
        return 1 if r.violations else 0

    t0 = time.time()
    deadline = t0 + (float(os.environ.get("RTMON_WALL", 0)) or (700 if tier == "quick" else 3 * 3600))
    cases = list(mod.cases(tier, seed))
    if a.scale != 1.0:
        cases = cases[: max(1, int(len(cases) * a.scale))]
    prepared = mod.prepare(tier, seed) if hasattr(mod, "prepare") else None
    known = [f for f in load_known()["findings"] if f["property"] == prop]
    counts = collections.Counter()
    sigs = set()
    samples = []
    viol = []
    matched = collections.OrderedDict()
    evals = 0
    herr = None
    jobs = 1 if getattr(mod, "SERIAL", False) else a.jobs
    size = max(1, min(getattr(mod, "CHUNK", 25), (len(cases) + jobs - 1) // jobs))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    if jobs == 1:
        results = map(_worker, ((modname, c) for c in chunks))
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 40))
        results = pool.imap_unordered(_worker, [(modname, c) for c in chunks])
    cut = False
    try:
        it = iter(results)
        while True:
            try:
                out = it.next(timeout=max(1.0, deadline - time.time())) if pool else next(it)
            except StopIteration:
                break
            except mp.TimeoutError:
                cut = True
                break
            for p, r in out:
                evals += 1
                counts.update(r.counts)
                if r.counts.get("harness_error"):
                    herr = herr or (p, r.sample)
                if r.nontrivial:
                    sigs.add(r.sig)
                if r.sample is not None and len(samples) < 4 and r.nontrivial:
                    samples.append({"params": p, "observed": r.sample})
                for v in r.violations:
                    k = next((f for f in known if f["kind"] == v["kind"]), None)
                    if k:
                        matched[k["id"]] = k
                    else:
                        viol.append((p, v))
            if viol:
                break
            if time.time() > deadline:
                cut = True
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()
        if hasattr(mod, "cleanup"):
            mod.cleanup(prepared)
    for k in known:
        # each listed finding is re-demonstrated by the check itself
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["id"] in matched else " (not met in this run)"))
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": samples or [{"note": "no sample"}],
           "observed": {k: v for k, v in sorted(counts.items())}}
    if cut:
        cov["cut_short"] = True
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUME", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    EVID.mkdir(exist_ok=True)
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{prop}: {evals} cases, {len(sigs)} distinct non-trivial, {ev['wall_s']} s; " +
          ", ".join(f"{k}={v}" for k, v in sorted(counts.items())))
    if viol:
        p, v = viol[0]
        path = write_replay(prop, p, v)
        print(f"{v['kind']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if herr:
        print("HARNESS ERROR", herr[0], herr[1])
        return 2
    for name, least in getattr(mod, "REQUIRE", {}).items():
        if a.scale == 1.0 and counts.get(name, 0) < least:
            print(f"INCONCLUSIVE: observed {name}={counts.get(name, 0)}, needed {least}")
            return 3
    if counts.get("watchdog"):
        print("INCONCLUSIVE: a case hit the wall-clock watchdog")
        return 3
    return 0


def rngs(seed, n, salt=0):
    """n case seeds, a function of VERIF_SEED."""
    base = random.Random(f"{seed}/{salt}")
    return [base.randrange(1 << 48) for _ in range(n)]
