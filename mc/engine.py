"""Explorer back end: runs jobs on worker processes, collects violations and coverage.

A job is a JSON-able dict {"kind": ..., ...}; mc.jobs.execute(job) runs it on the real code and
returns {"bad": [[code, message, detail], ...], "n": solves, "validated": n, "outcomes": [...], ...}.
A worker that dies (e.g. a crash in a native library) or does not answer counts as a violation
of the job in flight: no solution is delivered.
"""
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing import connection

HANG = float(os.environ.get("MC_HANG", "150"))
WORKERS = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))


def _silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _worker(conn, scratch):
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    keep = os.dup(2)
    _silence()
    try:
        from . import jobs
    except BaseException:  # noqa: BLE001
        conn.send(("fatal", traceback.format_exc()))
        os.write(keep, traceback.format_exc().encode())
        return
    conn.send(("ready", None))
    while True:
        try:
            chunk = conn.recv()
        except EOFError:
            return
        if chunk is None:
            return
        for i, job in chunk:
            try:
                res = jobs.execute(job)
            except BaseException:  # noqa: BLE001
                res = {"crash": traceback.format_exc()}
            conn.send(("done", i, res))
        conn.send(("idle", None))


class Explorer:
    def __init__(self, chunk=4, stop_at_first=True, accept=None, deadline=None):
        self.chunk = chunk
        self.stop = stop_at_first
        self.accept = accept or (lambda code, job: True)
        self.violations = []  # (job, code, message, detail)
        self.jobs = 0
        self.solves = 0
        self.validated = 0
        self.extra = {}
        self.outcomes = set()
        self.crash = None
        self.errors = None
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.truncated = False
        self.deadline = deadline
        self.retry = []
        self.lost = {}

    # -- results ----------------------------------------------------------
    def _take(self, job, res):
        if "crash" in res:
            # an error of the harness itself: the other jobs still count, see mc.check
            self.errors = self.errors or (job, res["crash"])
            return
        self.jobs += 1
        self.solves += res.get("n", 0)
        self.validated += res.get("validated", 0)
        self.states += res.get("states", 0)
        self.transitions += res.get("transitions", 0)
        for k, v in res.get("extra", {}).items():
            self.extra[k] = self.extra.get(k, 0) + v
        for o in res.get("outcomes", ()):
            self.outcomes.add(o if isinstance(o, str) else json.dumps(o))
        if len(self.samples) < 3 and res.get("sample"):
            self.samples.append(res["sample"])
        for code, msg, detail in res.get("bad", ()):
            if self.accept(code, job):
                self.violations.append((job, code, msg, detail))

    def run(self, jobs):
        ctx = mp.get_context("fork")
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        scratch = tempfile.mkdtemp(prefix="vrpymc_", dir=base)
        procs = {}
        it = enumerate(jobs)
        done_gen = False

        def spawn():
            a, b = ctx.Pipe()
            d = tempfile.mkdtemp(dir=scratch)
            p = ctx.Process(target=_worker, args=(b, d), daemon=True)
            p.start()
            b.close()
            procs[a] = {"p": p, "todo": {}, "t": time.time(), "idle": False}

        def feed(c):
            nonlocal done_gen
            chunk = []
            if (not done_gen or self.retry) and not (self.stop and self.violations) and not self.crash:
                if self.deadline and time.time() > self.deadline:
                    self.truncated = True
                    done_gen = True
                    self.retry = []
                while self.retry and len(chunk) < self.chunk:
                    chunk.append(self.retry.pop())
                    if chunk[-1][0] in self.lost:
                        break
                for _ in range(0 if chunk or done_gen else self.chunk):
                    try:
                        chunk.append(next(it))
                    except StopIteration:
                        done_gen = True
                        break
            w = procs[c]
            if chunk:
                w["todo"] = dict(chunk)
                w["idle"] = False
                w["t"] = time.time()
                c.send(chunk)
            else:
                w["idle"] = True

        try:
            for _ in range(WORKERS):
                spawn()
            while True:
                if all(w["idle"] for w in procs.values()) or (
                    (self.stop and self.violations) or self.crash
                ):
                    break
                for c in connection.wait(list(procs), timeout=5):
                    try:
                        msg = c.recv()
                    except (EOFError, ConnectionResetError):
                        self._lost(procs, c, "the process died (exit code %s)")
                        if not (self.stop and self.violations):
                            spawn()
                        continue
                    w = procs[c]
                    w["t"] = time.time()
                    if msg[0] == "fatal":
                        self.crash = (None, msg[1])
                    elif msg[0] == "done":
                        job = w["todo"].pop(msg[1])
                        self._take(job, msg[2])
                    else:
                        feed(c)
                now = time.time()
                for c in list(procs):
                    w = procs[c]
                    if not w["idle"] and w["todo"] and now - w["t"] > HANG:
                        w["p"].kill()
                        w["p"].join()
                        self._lost(procs, c, "no answer within %d s" % HANG)
                        if not (self.stop and self.violations):
                            spawn()
        finally:
            for c, w in procs.items():
                w["p"].kill()
            for c, w in procs.items():
                w["p"].join(10)
            shutil.rmtree(scratch, ignore_errors=True)
        return self

    def _lost(self, procs, c, why):
        """Everything the worker had not answered is tried again; what gets lost twice is a violation."""
        w = procs.pop(c)
        w["p"].join(10)
        if "%s" in why:
            why = why % w["p"].exitcode
        sys.stderr.write("worker lost: %s\n" % why)
        if not w["todo"]:
            return
        i = min(w["todo"])
        if i in self.lost:
            self.violations.append((w["todo"].pop(i), "LOST", "solve() does not return: " + why, None))
        self.lost[i] = why
        self.retry += sorted(w["todo"].items(), reverse=True)
