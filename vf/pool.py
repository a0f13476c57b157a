"""A pool of MPI ranks that run cases; talks to them through FIFOs so that an
idle rank sleeps and a rank that crashes, hangs or raises is seen at once."""
import ctypes
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile
import time

import build

HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(RuntimeError):
    pass


try:
    _prctl = ctypes.CDLL(None).prctl
except (OSError, AttributeError):
    _prctl = None


def die_with_parent():
    if _prctl is not None:
        _prctl(1, signal.SIGTERM, 0, 0, 0)


class Pool:
    live = []

    def __init__(self, n, root, propfile, start_timeout=180):
        self.n = n
        self.root = root
        self.propfile = propfile
        self.dir = tempfile.mkdtemp(prefix="vf-pool-%d-" % os.getpid())
        for r in range(n):
            os.mkfifo(os.path.join(self.dir, "in.%d" % r))
            os.mkfifo(os.path.join(self.dir, "out.%d" % r))
        env = build.base_env()
        env["PYTHONPATH"] = root
        env["TMPDIR"] = self.dir
        env["VF_SCRATCH"] = self.dir
        cmd = [build.VENVPY, "-u", os.path.join(HERE, "worker.py"), self.dir, root, propfile]
        if n > 1:
            cmd = ["mpirun", "-n", str(n)] + cmd
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.log,
                                     stderr=subprocess.STDOUT, env=env, cwd=self.dir,
                                     start_new_session=True, preexec_fn=die_with_parent)
        self.fin, self.fout = [], []
        Pool.live.append(self)
        self.buf = [b""] * n
        for r in range(n):
            # read-write, so that opening does not block
            self.fin.append(os.open(os.path.join(self.dir, "in.%d" % r), os.O_RDWR))
            self.fout.append(os.open(os.path.join(self.dir, "out.%d" % r), os.O_RDWR | os.O_NONBLOCK))
        out = self._collect(start_timeout, grace=start_timeout)
        if any(o is None or o["status"] != "ready" for o in out):
            log = self.tail(3000)
            self.kill()
            raise HarnessError("the %d-rank pool did not start:\n%s" % (n, log))

    def tail(self, n=2000):
        self.log.flush()
        with open(os.path.join(self.dir, "log"), "rb") as f:
            return f.read()[-n:].decode(errors="replace")

    def _lines(self, r):
        while True:
            try:
                d = os.read(self.fout[r], 1 << 16)
            except BlockingIOError:
                break
            if not d:
                break
            self.buf[r] += d
        if b"\n" in self.buf[r]:
            line, self.buf[r] = self.buf[r].split(b"\n", 1)
            return json.loads(line)
        return None

    def _collect(self, timeout, grace=4.0):
        """One answer per rank; None for a rank that gave none."""
        out = [None] * self.n
        t0 = time.monotonic()
        bad_at = None
        dead_at = None
        while True:
            pend = [r for r in range(self.n) if out[r] is None]
            if not pend:
                return out
            now = time.monotonic()
            if now - t0 > timeout:
                return out
            if bad_at is not None and now - bad_at > grace:
                return out
            if dead_at is not None and now - dead_at > 0.5:
                return out
            if dead_at is None and self.proc.poll() is not None:
                dead_at = now
            select.select([self.fout[r] for r in pend], [], [], 0.2)
            for r in pend:
                o = self._lines(r)
                if o is not None:
                    out[r] = o
                    if o["status"] not in ("ok", "ready") and bad_at is None:
                        bad_at = time.monotonic()

    def run(self, case, timeout=60):
        """-> dict(status=ok|violation|raised|harness|crash|hang, msg, info)"""
        line = (json.dumps(case) + "\n").encode()
        for r in range(self.n):
            os.write(self.fin[r], line)
        out = self._collect(timeout)
        if all(o is not None and o["status"] == "ok" for o in out):
            return {"status": "ok", "info": out[0]["info"]}
        for want in ("harness", "violation", "raised"):
            for r, o in enumerate(out):
                if o is not None and o["status"] == want:
                    if any(x is None for x in out):
                        self.kill()
                    return {"status": want, "msg": "rank %d of %d: %s" % (r, self.n, o["msg"]),
                            "tb": o.get("tb", "")}
        missing = [r for r, o in enumerate(out) if o is None]
        if self.proc.poll() is not None:
            res = {"status": "crash", "msg": "the process died (exit %s); ranks %s of %d gave no answer\n%s"
                   % (self.proc.returncode, missing, self.n, self.tail(1500))}
        else:
            res = {"status": "hang", "msg": "no answer in %d s from ranks %s of %d" % (timeout, missing, self.n)}
        self.kill()
        return res

    @property
    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def kill(self):
        if self.proc is None:
            return
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        # mpirun puts the ranks in its own session's children; they die with
        # it, but a rank stuck in a system call is killed by name of its FIFO dir.
        subprocess.run(["pkill", "-KILL", "-f", self.dir], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        self.proc.wait()
        self.proc = None
        for fd in self.fin + self.fout:
            os.close(fd)
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        if self in Pool.live:
            Pool.live.remove(self)


class Pools:
    def __init__(self, root, propfile):
        self.root, self.propfile = root, propfile
        self.pools = {}
        self.starts = 0

    def get(self, n):
        p = self.pools.get(n)
        if p is None or not p.alive:
            if p is not None and p.proc is not None:
                p.kill()
            p = self.pools[n] = Pool(n, self.root, self.propfile)
            self.starts += 1
        return p

    def run(self, case, timeout=60, again=True):
        n = int(case.get("nranks", 1))
        res = self.get(n).run(case, timeout)
        if again and res["status"] in ("hang", "crash"):
            # once more from a fresh start, alone and with more time: a loaded
            # machine is not a violation.
            res2 = self.get(n).run(case, timeout * 3)
            if res2["status"] == "ok":
                if res["status"] == "hang":
                    return res2
                res["msg"] += "\n(not on a second, fresh run of this case alone)"
                res["status"] = "harness" if "not enough slots" in res["msg"] else "crash"
                return res
            return res2
        return res

    def close(self):
        # those that are just starting, too
        for p in list(Pool.live):
            if p.proc is not None:
                p.kill()
