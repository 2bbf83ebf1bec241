"""C31: the wheel the browser is sent is the running package."""
import base64, csv, hashlib, io, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, threading, time, zipfile
from .. import common
from ..common import rngs, ROOT

TECHNIQUE = "runtime monitoring: real server processes of a scratch installation (or source checkout with a stand-in build tool) start side by side, are killed or starved of disk and serve the wheel; a watcher reads every visible wheel all the while, an oracle compares with the files"
RULE = ("one case = one scratch installation (random extra files and metadata, look-alike wheels) or source checkout (edits, failing and slow builds, edits during a build) and 4-7 rounds of 1-4 server processes with faults; "
        "non-trivial if a wheel was made and a fault, race, upgrade or edit happened")
ASSUME = ["the build tool is a stand-in that packs the sources it finds", "edits move a file's time forward, by more than the clock's 20 ms granularity", "wheels are only watched on one file system", "no two files of the package are called RECORD or WHEEL"]
REQUIRE = {"pages": 400, "wheels": 400, "killed": 90, "starved": 40, "raced": 90, "watched": 5000, "upgrades": 6, "edits": 90, "builds": 180, "failed_builds": 40, "edited_during_build": 18, "shipped": 5, "refused": 30}
CHUNK = 2
CASE_LIMIT = 300
VERSIONS = ["2.0.0b13", "2.0.0", "2.0.0b1", "2.1.0.dev1", "2.0.0.post1", "3.0.0rc2", "2.0.0+local.1", "10.2.1"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 2500
    return [{"seed": s, "kind": "source" if i % 5 < 2 else "installed"} for i, s in enumerate(rngs(seed, n, "c31"))]


def case(res, p):
    root = pathlib.Path(tempfile.mkdtemp(prefix="c31-"))
    try:
        (installed if p["kind"] == "installed" else source)(res, random.Random(p["seed"]), root)
    finally:
        shutil.rmtree(root)


_template = []


def template():
    """The package with its bytecode, copied for every case."""
    if not _template:
        d = pathlib.Path(tempfile.mkdtemp(prefix="c31-template-")) / "reactpy"
        shutil.copytree(common.CODE / "reactpy", d, ignore=shutil.ignore_patterns("wheels", "__pycache__"))
        subprocess.run([sys.executable, "-m", "compileall", "-q", str(d)], check=True, env={**os.environ, "PYTHONHASHSEED": "0"})
        _template.append(d)
    return _template[0]


def prepare(tier, seed):
    template()


def set_version(package, version):
    f = package / "__init__.py"
    f.write_text(re.sub(r"__version__\s*=\s*['\"].*['\"]", f'__version__ = "{version}"', f.read_text()))


class Host:
    """A server process; every round runs sessions side by side."""

    def __init__(self, path, root, prefix):
        env = {k: v for k, v in os.environ.items() if not k.startswith("REACTPY")}
        self.proc = subprocess.Popen([sys.executable, "-B", str(ROOT / "rtmon/wheelhost.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                     env={**env, "PYTHONPATH": str(path), "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin"}, cwd=root)
        self.path, self.root, self.prefix, self.n = path, root, prefix, 0
        line = self.proc.stdout.readline()
        self.version = json.loads(line)["version"]
        assert json.loads(line)["file"].startswith(str(path)), line

    def round(self, faults, rng, jitter):
        out = pathlib.Path(tempfile.mkdtemp(prefix="round-", dir=self.root))
        specs = []
        for f in faults:
            self.n += 1
            specs.append({"id": str(self.n), "fault": f, "seed": rng.randrange(1 << 30), "jitter": jitter})
        self.proc.stdin.write(json.dumps({"sessions": specs, "out": str(out), "root": str(self.root / "app.py"), "prefix": self.prefix}) + "\n")
        self.proc.stdin.flush()
        ended = json.loads(self.proc.stdout.readline())
        got = []
        for s in specs:
            f = out / f"{s['id']}.json"
            d = json.loads(f.read_text()) if f.exists() else {"died": ended[s["id"]]}
            w = out / f"{s['id']}.whl"
            d["body"] = w.read_bytes() if w.exists() else None
            d["fault"] = s["fault"]
            got.append(d)
        shutil.rmtree(out)
        return got

    def close(self):
        self.proc.stdin.close()
        self.proc.wait(30)
        self.proc.stdout.close()


def open_wheel(data):
    """The files of a wheel, or what is wrong with it."""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        names = z.namelist()
        files = {n: z.read(n) for n in names}
    except Exception as e:
        return None, f"not a complete archive: {type(e).__name__}: {e} ({len(data)} bytes)"
    if len(names) != len(files):
        return None, f"names occur more than once: {sorted(n for n in files if names.count(n) > 1)[:5]}"
    return files, None


def record_of(files, name):
    if name not in files:
        return f"no {name}"
    rows = list(csv.reader(io.StringIO(files[name].decode())))
    listed = {r[0]: r for r in rows if r}
    if set(listed) != set(files) or len(rows) != len(listed):
        return f"RECORD lists {sorted(set(listed) ^ set(files))[:6]} differently"
    for n, data in files.items():
        want = [n, "", ""] if n == name else [n, "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode(), str(len(data))]
        if listed[n] != want:
            return f"RECORD says {listed[n]} of {n}, not {want}"


class Watcher(threading.Thread):
    """Reads every wheel of the running version that can be seen."""

    def __init__(self, directory, version, judge):
        super().__init__(daemon=True)
        self.dir, self.version, self.judge, self.stop, self.reads, self.bad, self.done = directory, version, judge, False, 0, None, set()

    def run(self):
        while not self.stop and not self.bad:
            for f in list(self.dir.glob("reactpy-*.whl")) if self.dir.exists() else ():
                parts = f.name.removesuffix(".whl").split("-")
                if len(parts) < 5 or parts[1] != self.version:
                    continue
                try:
                    with open(f, "rb") as fh:
                        st = os.fstat(fh.fileno())
                        data = fh.read()
                except FileNotFoundError:
                    continue
                self.reads += 1
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if key in self.done:
                    continue
                self.done.add(key)
                self.bad = self.judge(data)
                if self.bad:
                    self.bad = f"{f.name}: {self.bad}"
                    break
            time.sleep(0.0005)

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *_):
        self.stop = True
        self.join()


def judge_page(res, d, host, judge, wheels, where):
    """A session without a fault must name and serve a wheel."""
    if "error" in d or d.get("status") != 200:
        res.bad("no-page", f"{where}: {d.get('error') or d.get('status') or d}")
        return None
    res.count(pages=1)
    url = d["url"]
    if not url or not url.startswith(f"{host.prefix}static/"):
        res.bad("no-wheel-named", f"{where}: packages {d['packages']}")
        return None
    name = url.rsplit("/", 1)[1]
    parts = name.removesuffix(".whl").split("-")
    if not name.endswith(".whl") or len(parts) not in (5, 6) or parts[0] != "reactpy" or parts[1] != host.version:
        res.bad("wheel-name", f"{where}: {url} is no name of a wheel of reactpy {host.version}")
    if d.get("wheel_status") != 200:
        res.bad("wheel-not-served", f"{where}: {url} answered {d.get('wheel_status')}")
        return None
    res.count(wheels=1)
    if bad := judge(d["body"]):
        res.bad("wheel-content", f"{where}: {url}: {bad}")
    return name


def fault_for(rng, kill_max):
    return {"kill": rng.randrange(1, kill_max)} if rng.random() < 0.7 else {"fsize": rng.choice([1, 500, 4096, 20000, 60000, 200000])}


def junk(rng, wheels, version):
    """Wheels of other versions and things that only look like wheels."""
    wheels.mkdir(parents=True, exist_ok=True)
    for v in rng.sample(VERSIONS + ["2.0.0b", "2", "2.0.0b130", "1.0.0", "9!1"], rng.randrange(0, 5)):
        if v != version:
            (wheels / f"reactpy-{v}-py3-none-any.whl").write_bytes(b"another version")
    for name in (f"reactpy-{version}.whl", f"reactpy-{version}-py3.whl", f"reactpy-{version}-py3-none-any.txt", f"reactpyx-{version}-py3-none-any.whl", f"reactpy-{version}-py3-none-any.abc.tmp", "README"):
        if rng.random() < 0.25:
            (wheels / name).write_bytes(b"no wheel")


NAMES = ["extra.txt", "\u00e9t\u00e9.txt", "with space.json", "a,b.txt", "q\"uote.txt", "\u4e2d/\u6587.py", "deep/er/x.bin", "empty", ".hidden", "'single'.css", "a;b#c%20.txt", "UPPER.Py", "__pycache__/x.cpython-312.pyc"]


def lay_out(rng, site, version):
    """Installs the package there: its files, and the list of what the wheel has to hold."""
    package = site / "reactpy"
    if not package.exists():
        shutil.copytree(template(), package)
    set_version(package, version)
    for old in site.glob("*.dist-info"):
        shutil.rmtree(old)
    info = site / f"reactpy-{version}.dist-info"
    info.mkdir()
    tag = rng.choice(["py3-none-any", "py3-none-any", "py2.py3-none-any", "cp312-abi3-manylinux_2_17_x86_64"])
    meta = {"METADATA": f"Metadata-Version: 2.1\nName: reactpy\nVersion: {version}\n", "INSTALLER": "pip\n", "entry_points.txt": "[console_scripts]\nreactpy = reactpy._console.cli:entry_point\n"}
    if rng.random() < 0.85:
        meta["WHEEL"] = "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\n" + "".join(f"Tag: {t}\n" for t in tag.split("+"))
    if rng.random() < 0.3:
        meta["direct_url.json"] = "{}"
    for n, t in meta.items():
        (info / n).write_text(t)
    tree = ["reactpy", "reactpy/static", "reactpy/data", "reactpy_more", info.name + "/licenses"]
    for _ in range(rng.randrange(0, 6)):
        f = site / rng.choice(tree) / rng.choice(NAMES)
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(rng.choice([b"", b"text\n", rng.randbytes(rng.randrange(1, 3000)), "\u00e9\r\n".encode() * 50]))
    wheels = package / "static" / "wheels"
    listed = {f.relative_to(site).as_posix(): f.read_bytes() for f in sorted(site.rglob("*")) if f.is_file() and wheels not in f.parents}
    shipped = None
    if rng.random() < 0.15:
        # the real wheel of a release, which came along
        wheels.mkdir(exist_ok=True)
        shipped = rng.randbytes(400)
        (wheels / f"reactpy-{version}-py3-none-any.whl").write_bytes(shipped)
    record = info.name + "/RECORD"
    rows = [[n, rng.choice(["", "sha256=zzz"]), ""] for n in listed]
    # what is listed but not there, and what lies outside
    rows.append(["reactpy/gone.py", "", ""])
    for outside in ("../../../bin/reactpy", "../secret.txt", str(site.parent / "secret.txt"), "reactpy/../../secret.txt"):
        if rng.random() < 0.5:
            rows.append([outside, "", ""])
    (site.parent / "secret.txt").write_text("outside")
    rng.shuffle(rows)
    if rng.random() < 0.85 or "WHEEL" not in meta:
        rows.insert(rng.randrange(len(rows)), [record, "", ""])
    text = io.StringIO()
    csv.writer(text, lineterminator="\n").writerows(rows)
    (info / "RECORD").write_text(text.getvalue())
    return listed, record, shipped


def installed(res, rng, root):
    site = root / "lib" / "site-packages"
    site.mkdir(parents=True)
    (root / "app.py").write_text("from reactpy import component, html\n@component\ndef root():\n    return html.p('x')\n")
    wheels = site / "reactpy" / "static" / "wheels"
    log, nontrivial = [], False
    for version in rng.sample(VERSIONS, rng.choice([1, 1, 2])):
        if log:
            res.count(upgrades=1)
            nontrivial = True
            # an installer leaves behind the wheel that was made: it does not know of it
            for f in wheels.glob("*.whl"):
                if shipped or f.name.split("-")[1] == version:
                    f.unlink()
        listed, record, shipped = lay_out(rng, site, version)
        junk(rng, wheels, version)
        before = {f.relative_to(site): f.read_bytes() for f in site.rglob("*") if f.is_file() and wheels not in f.parents}

        def judge(data):
            if shipped is not None:
                return None if data == shipped else "not the wheel that came with the package"
            files, bad = open_wheel(data)
            if bad:
                return bad
            missing, more = set(listed) - set(files), set(files) - set(listed) - {record}
            if missing or more:
                return f"lacks {sorted(missing)[:6]}, has besides {sorted(more)[:6]}"
            if wrong := [n for n in listed if listed[n] != files[n]]:
                return f"other contents: {wrong[:6]}"
            return record_of(files, record)
        host = Host(site, root, rng.choice(["/reactpy/", "/a/b/", "/r/"]))
        try:
            for i in range(rng.randrange(2, 5)):
                n = rng.choice([1, 1, 2, 4])
                faults = [fault_for(rng, 14) if rng.random() < (0.7 if i < 2 else 0.3) else None for _ in range(n)]
                fresh = not any(f.name.startswith(f"reactpy-{version}-") and f.suffix == ".whl" and f.name.count("-") == 4 for f in wheels.glob("*"))
                with Watcher(wheels, version, judge) as w:
                    got = host.round(faults, rng, rng.random() < 0.5)
                res.count(watched=w.reads, raced=n > 1 and fresh)
                if w.bad:
                    res.bad("broken-wheel-visible", f"round {i} with {faults}: {w.bad}")
                for d in got:
                    where = f"{version}, round {i}, faults {faults}"
                    log.append((version, d["fault"], "died" in d, "error" in d))
                    if "died" in d:
                        if not d["fault"]:
                            res.bad("no-page", f"{where}: the process died")
                        res.count(killed=1)
                        nontrivial = True
                    elif d["fault"] and "error" in d:
                        res.count(starved=1)
                        nontrivial = True
                    else:
                        judge_page(res, d, host, judge, wheels, where)
                nontrivial |= n > 1
                if res.violations:
                    break
            # whatever happened, the next server serves
            judge_page(res, host.round([None], rng, False)[0], host, judge, wheels, f"{version} afterwards")
        finally:
            host.close()
        if shipped:
            res.count(shipped=1)
        after = {f.relative_to(site): f.read_bytes() for f in site.rglob("*") if f.is_file() and wheels not in f.parents}
        if after != before:
            res.bad("package-changed", f"{sorted(map(str, (k for k in before.keys() | after.keys() if before.get(k) != after.get(k))))[:5]}")
    res.done(log, nontrivial, log[:6])


BUILDER = r'''#!{python} -S
import csv, hashlib, io, json, os, pathlib, sys, time, zipfile, base64, re
root = pathlib.Path.cwd()
control = root / "control"
plan = json.loads(control.read_text()) if control.exists() else {{}}
with open(root / "builds", "a") as f:
    f.write("x")
if plan.get("fail") == "early":
    sys.exit(3)
package = root / "src" / "reactpy"
version = re.search(r"__version__\s*=\s*['\x22](.*?)['\x22]", (package / "__init__.py").read_text())[1]
files = {{"reactpy-" + version + ".dist-info/METADATA": b"Metadata-Version: 2.1\nName: reactpy\nVersion: " + version.encode() + b"\n\n" + (root / "pyproject.toml").read_bytes()}}
for f in sorted(package.rglob("*")):
    if f.is_file() and "__pycache__" not in f.parts and "wheels" not in f.parts:
        files[f.relative_to(root / "src").as_posix()] = f.read_bytes()
if plan.get("edit"):
    time.sleep(0.03)
    (root / plan["edit"][0]).write_text(plan["edit"][1])
    time.sleep(0.03)
if plan.get("fail") == "late":
    sys.exit(1)
record = "reactpy-" + version + ".dist-info/RECORD"
files[record] = b""
dist = root / "dist"
dist.mkdir(exist_ok=True)
temp = dist / ("." + str(os.getpid()))
with zipfile.ZipFile(temp, "w", zipfile.ZIP_STORED) as z:
    for n, data in files.items():
        z.writestr(n, data)
temp.replace(dist / ("reactpy-" + version + "-py3-none-any.whl"))
'''


def source(res, rng, root):
    top = root / "checkout"
    package = top / "src" / "reactpy"
    shutil.copytree(template(), package)
    (root / "app.py").write_text("from reactpy import component, html\n@component\ndef root():\n    return html.p('x')\n")
    tool = top / ".venv" / "bin" / "hatch"
    tool.parent.mkdir(parents=True)
    tool.write_text(BUILDER.format(python=sys.executable))
    tool.chmod(0o755)
    wheels = package / "static" / "wheels"
    pyproject = top / "pyproject.toml"
    pyproject.write_text("# 0\n")
    version = rng.choice(VERSIONS)
    set_version(package, version)
    for old in rng.sample(VERSIONS, rng.randrange(0, 3)):
        if old != version:
            for d in (wheels, top / "dist"):
                d.mkdir(parents=True, exist_ok=True)
                (d / f"reactpy-{old}-py3-none-any.whl").write_bytes(b"another version")
    log, nontrivial, tick = [], False, 0
    editable = sorted(f.relative_to(top).as_posix() for f in package.rglob("*") if f.is_file() and f.suffix in (".py", ".css", ".js") and "__pycache__" not in f.parts and f.name != "__init__.py")

    def now():
        return {f.relative_to(top / "src").as_posix(): f.read_bytes() for f in package.rglob("*") if f.is_file() and "__pycache__" not in f.parts and wheels not in f.parents}

    def text(f):
        return (top / f).read_text() + ("\n/* %d */\n" if not f.endswith(".py") else "\n# edit %d\n") % tick
    host, time_left = None, 0
    try:
        for i in range(rng.randrange(4, 8)):
            tick += 1
            plan, op = {}, rng.choice(["nothing", "edit", "edit", "new", "pyproject", "touch", "delete-wheel", "version", "edit-during", "edit-during"])
            if op == "edit":
                f = rng.choice(editable)
                (top / f).write_text(text(f))
            elif op == "new":
                f = package / rng.choice(["new.py", "sub/new.py", "static/new.js", "\u00e9.txt"])
                f.parent.mkdir(exist_ok=True)
                f.write_text(f"# new {tick}\n")
            elif op == "pyproject":
                pyproject.write_text(f"# {tick}\n")
            elif op == "touch":
                os.utime(top / rng.choice(editable))
            elif op == "delete-wheel":
                for f in wheels.glob("reactpy-*.whl"):
                    f.unlink()
            elif op == "version":
                version = rng.choice([v for v in VERSIONS if v != version])
                set_version(package, version)
                for f in wheels.glob(f"reactpy-{version}-*.whl"):
                    f.unlink()
                if host:
                    host.close()
                    host = None
            elif op == "edit-during":
                # somebody saves a file while the wheel is built (forced by another edit)
                f, g = rng.sample(editable, 2)
                (top / g).write_text(text(g))
                plan["edit"] = [f, text(f)]
            if rng.random() < 0.25:
                plan["fail"] = rng.choice(["early", "late"])
            (top / "control").write_text(json.dumps(plan))
            time.sleep(0.03)
            if op not in ("nothing", "delete-wheel", "touch"):
                res.count(edits=1)
                nontrivial = True
            host = host or Host(top / "src", root, "/reactpy/")
            n = 1 if plan.get("edit") else rng.choice([1, 1, 2, 3])
            faults = [fault_for(rng, 30) if rng.random() < 0.25 else None for _ in range(n)]
            want, meta = now(), pyproject.read_bytes()
            built = (top / "builds").stat().st_size if (top / "builds").exists() else 0

            def judge(data, complete_only=False):
                files, bad = open_wheel(data)
                if bad or complete_only:
                    return bad
                lacks = [k for k, v in want.items() if files.get(k) != v and not (plan.get("edit") and k == plan["edit"][0].removeprefix("src/") and files.get(k) == plan["edit"][1].encode())]
                if lacks:
                    return f"not the sources as they were: {lacks[:5]} (operation {op}, plan {plan.get('fail')}, {plan.get('edit', [''])[0]})"
                if not any(k.endswith(".dist-info/METADATA") and v.endswith(meta) for k, v in files.items()):
                    return f"not the project file as it was (operation {op})"
            where = f"round {i} ({op}, {n} at once, faults {faults}, build {plan.get('fail', 'works')})"
            with Watcher(wheels, version, lambda d: judge(d, True)) as w:
                got = host.round(faults, rng, rng.random() < 0.7)
            builds = ((top / "builds").stat().st_size if (top / "builds").exists() else 0) - built
            res.count(watched=w.reads, raced=n > 1, builds=builds)
            if w.bad:
                res.bad("broken-wheel-visible", f"{where}: {w.bad}")
            for d in got:
                log.append((op, plan.get("fail"), d["fault"], "died" in d, "error" in d))
                if "died" in d:
                    if not d["fault"]:
                        res.bad("no-page", f"{where}: the process died")
                    res.count(killed=1)
                elif d["fault"] and "error" in d:
                    res.count(starved=1)
                elif plan.get("fail") and builds and "error" in d:
                    res.count(refused=1)
                else:
                    judge_page(res, d, host, judge, wheels, where)
            if plan.get("fail") and builds:
                res.count(failed_builds=builds)
            if plan.get("edit") and builds:
                res.count(edited_during_build=1)
            if res.violations:
                break
        if not res.violations:
            (top / "control").write_text("{}")
            time.sleep(0.03)
            plan, op, want, meta = {}, "nothing", now(), pyproject.read_bytes()
            judge_page(res, host.round([None], rng, False)[0], host, judge, wheels, f"afterwards, last {log[-1]}")
    finally:
        if host:
            host.close()
    res.done(log, nontrivial, log[:6])
