"""Builds the frontend and the replay runner from /repo's current tree, and
talks to the runner."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


def goenv():
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOTELEMETRY="off",
             CGO_ENABLED="0", GOCACHE=os.path.join(BUILD, "gocache"))
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    return e


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=goenv(), capture_output=True, text=True, timeout=timeout)


class BuildError(Exception):
    pass


def build_frontend():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "frontend")
    r = sh(["go", "build", "-o", exe, "."], os.path.join(VERIF, "frontend"))
    if r.returncode != 0:
        raise BuildError("frontend does not build:\n" + r.stderr[-3000:])
    return exe


def dump_ssa(dst):
    exe = build_frontend()
    r = sh([exe, "-dir", REPO, "-o", dst], REPO)
    if r.returncode != 0:
        raise BuildError("SSA dump failed:\n" + r.stderr[-3000:])
    return dst


def build_runner(dst):
    """Returns True when the wrappers of unexported functions are included."""
    os.makedirs(BUILD, exist_ok=True)
    rp = os.path.join(VERIF, "replay")
    full = {
        REPO + "/internal/verifrunner/main.go": rp + "/main.go.txt",
        REPO + "/internal/verifrunner/extra_decimal.go": rp + "/extra_decimal.go.txt",
        REPO + "/internal/strconv/verif_export.go": rp + "/export_decimal.go.txt",
    }
    base = {k: v for k, v in full.items() if "decimal" not in v}
    err = ""
    for i, m in enumerate((full, base)):
        ov = dst + ".overlay%d.json" % i
        with open(ov, "w") as f:
            json.dump({"Replace": m}, f)
        r = sh(["go", "build", "-overlay", ov, "-o", dst, "./internal/verifrunner"], REPO)
        if r.returncode == 0:
            return i == 0
        err = r.stderr
    raise BuildError("runner does not build:\n" + err[-3000:])


def _die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Runner:
    """Runs requests on the real code.  A request that gets no answer within
    HANG seconds is answered {"crash": "no answer ..."}; when the time lost to
    such requests exceeds LOST the patience shrinks to a second."""
    HANG = 20.0
    LOST = 40.0

    def __init__(self, exe):
        self.exe = exe
        self.count = 0
        self.lost = 0.0

    def call(self, reqs):
        """Answers to a list of requests (a crash or a hang of one is reported as such)."""
        reqs = list(reqs)
        out = []
        while len(out) < len(reqs):
            got, what = self.batch(reqs[len(out):])
            self.count += len(got)
            out += got
            if what is not None:
                out.append({"crash": what})
        return out

    def batch(self, reqs):
        """Answers up to the first request that crashes or hangs, and what happened to it."""
        import queue
        import threading
        p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_die_with_parent)
        q = queue.Queue()
        err = []

        def feed():
            try:
                for i in range(0, len(reqs), 500):
                    p.stdin.write("".join(json.dumps(r, separators=(",", ":")) + "\n" for r in reqs[i:i + 500]).encode())
                p.stdin.close()
            except (BrokenPipeError, ValueError, OSError):
                pass

        def drain():
            for l in p.stdout:
                q.put(l)
            q.put(None)

        def errs():
            err.append(p.stderr.read(4000))
            while p.stderr.read(1 << 16):
                pass
        ts = [threading.Thread(target=f, daemon=True) for f in (feed, drain, errs)]
        for t in ts:
            t.start()
        got, what = [], None
        try:
            while len(got) < len(reqs):
                t = self.HANG if self.lost < self.LOST else 1.0
                try:
                    l = q.get(timeout=t)
                except queue.Empty:
                    self.lost += t
                    what = "no answer within %g s" % t
                    break
                if l is None or not l.endswith(b"\n"):
                    p.wait(timeout=10)
                    ts[2].join(5)
                    what = "crash: " + (err[0] if err else b"").decode(errors="replace")[:300]
                    break
                got.append(json.loads(l))
        finally:
            p.kill()
            p.wait()
        return got, what
