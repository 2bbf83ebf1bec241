"""A Node.js process that answers requests, one JSON line each."""
import ctypes, json, os, pathlib, select, signal, subprocess, time
from .common import REPO, Hang, HarnessError

LIMIT = 120


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Endless(Exception):
    pass


class Node:
    def __init__(self, check):
        self.check, self.proc, self.buf = check, None, b""

    def start(self):
        env = {**os.environ, "RTMON_REPO": str(REPO), "NODE_OPTIONS": ""}
        self.proc = subprocess.Popen(["node", "--max-old-space-size=2048", str(pathlib.Path(__file__).parent / "js/driver.cjs")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, preexec_fn=_die_with_parent)
        self.buf = b""

    def cpu(self):
        f = pathlib.Path(f"/proc/{self.proc.pid}/stat").read_text().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")

    def call(self, op, *args):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        self.proc.stdin.write(json.dumps({"check": self.check, "op": op, "args": args}).encode() + b"\n")
        self.proc.stdin.flush()
        start, used = time.monotonic(), self.cpu()
        while b"\n" not in self.buf:
            if select.select([self.proc.stdout], [], [], 1)[0]:
                chunk = os.read(self.proc.stdout.fileno(), 1 << 16)
                if not chunk:
                    code = self.proc.wait()
                    raise Endless(f"the JavaScript process ended with {code} in {op}") if code in (-signal.SIGABRT, 134, -signal.SIGTRAP) else HarnessError(f"node ended with {code}")
                self.buf += chunk
            elif self.cpu() - used > 40:
                self.kill()
                raise Endless(f"{op} does not end")
            elif time.monotonic() - start > LIMIT:
                self.kill()
                raise Hang()
        line, self.buf = self.buf.split(b"\n", 1)
        answer = json.loads(line)
        if "error" in answer:
            raise HarnessError(answer["error"])
        return answer["ok"]

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        self.proc = None

    def case(self, res, op, *args):
        """Run a case that generates and judges itself in JavaScript."""
        try:
            got = self.call(op, *args)
        except Endless as e:
            res.bad("endless", e)
            return None
        res.counts.update(got["counts"])
        for v in got["violations"]:
            res.bad(v["kind"], v["detail"])
        return got
