"""Batch driver: seeds -> zygote workers -> violations -> minimise -> replay."""
import hashlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable


def _same_addresses():
    """No address space randomisation: objects hashed by address then keep the
    same order in every process."""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Worker:
    """One zygote process (see worker.py); it forks a fresh child per run."""

    def __init__(self, hashseed, repo):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", DST_REPO=repo, PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", PYTHONPATH=ROOT, PYTHONWARNINGS="ignore", SYMPY_USE_CACHE="yes",
                   TZ="UTC", LC_ALL="C.UTF-8")
        self.hashseed, self.repo = hashseed, repo
        self.p = subprocess.Popen([PY, "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("DST_SHOW") else subprocess.DEVNULL,
                                  env=env, cwd=ROOT, preexec_fn=_same_addresses)
        self.ready = None

    def wait_ready(self):
        line = self.p.stdout.readline()
        self.ready = json.loads(line) if line else {"ready": False, "trace": "worker died during start-up"}
        return self.ready

    def call(self, job):
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, ValueError):
            line = b""
        if not line:
            return {"id": job.get("id"), "harness_error": "worker process died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


def start_workers(seeds, repo):
    ws = [Worker(h, repo) for h in seeds]
    for w in ws:
        w.wait_ready()
    bad = [w.ready.get("trace") for w in ws if not w.ready.get("ready")]
    if bad:
        for w in ws:
            w.close()
        raise HarnessError("worker start-up failed:\n%s" % bad[0])
    return ws


class HarnessError(Exception):
    pass


def derive(base, prop, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%s" % (base, prop, i)).encode()).digest()[:6], "big")


def hash_seeds(base, n):
    return [int.from_bytes(hashlib.sha256(("hash/%s/%d" % (base, h)).encode()).digest()[:4], "big") for h in range(n)]


def run_batch(workers, jobs, deadline, on_result):
    """Static round-robin assignment (job i -> worker i mod n) so that results do
    not depend on timing.  on_result returns True to stop the batch."""
    lock = threading.Lock()
    stop = threading.Event()

    def loop(w, mine):
        for job in mine:
            if stop.is_set() or time.monotonic() > deadline:
                return
            res = w.call(job)
            with lock:
                if on_result(job, res, w):
                    stop.set()
    n = len(workers)
    ths = [threading.Thread(target=loop, args=(w, jobs[i::n])) for i, w in enumerate(workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


def call_parallel(workers, jobs):
    out = {}

    def on(job, res, w):
        out[job["id"]] = res
    run_batch(workers, jobs, time.monotonic() + 1e9, on)
    return [out[j["id"]] for j in jobs]
