"""Zygote: imports everything once, then forks one child per simulated run, so
every run starts from the same fresh-process state."""
import gc
import importlib
import json
import os
import select
import signal
import struct
import sys
import time as _t
import traceback

REAL_TIME = _t.monotonic


REFS = {}


def _child(job, wfd):
    from . import seams
    out = {"id": job["id"]}
    try:
        mod = importlib.import_module("dst.props." + job["prop"])
        seams.F.reset()
        seams.CLOCK.reset()
        gc.collect()            # finalisers run at points that do not depend on earlier jobs
        if "ref" in job:
            seams.RESEED(job.get("seed", 12345))
            out["res"] = mod.run_ref(job["ref"])
        else:
            spec = job["spec"]
            seams.RESEED(spec["seed"] & 0xffffffff)
            out["res"] = mod.run(spec, job.get("refs")) if hasattr(mod, "run_ref") else mod.run(spec)
    except BaseException as e:      # harness failure, reported apart from violations
        out["harness_error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-4000:]
    data = json.dumps(out, default=str).encode()
    view = struct.pack("<I", len(data)) + data
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def run_forked(job, timeout):
    """Fork one child for one run, wait for its report."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        if not os.environ.get("DST_SHOW"):
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        try:
            _child(job, w)
        finally:
            os._exit(3)
    os.close(w)
    buf = b""
    dead = REAL_TIME() + timeout
    timed_out = False
    while True:
        left = dead - REAL_TIME()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
            break
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
        return json.loads(buf[4:4 + struct.unpack("<I", buf[:4])[0]])
    if timed_out:
        return {"id": job["id"], "timeout": timeout}
    return {"id": job["id"], "harness_error": "run process died (status %s)" % st, "died": st}


def do_job(job):
    import random
    try:
        mod = importlib.import_module("dst.props." + job["prop"])
        spec = job.get("spec")
        if spec is None:
            rng = random.Random(job["seed"])
            spec = mod.gen(rng, job.get("tier", "quick"), job.get("index", 0))
            spec["seed"] = job["seed"]
            job["spec"] = spec
        if hasattr(mod, "ref_keys"):
            job["refs"] = {}
            for key in mod.ref_keys(spec):
                ks = json.dumps(key, sort_keys=True)
                if (job["prop"], ks) not in REFS:
                    r = run_forked({"id": "ref", "prop": job["prop"], "ref": key}, job.get("timeout", 120))
                    if "res" not in r:
                        r["spec"] = spec
                        r["id"] = job["id"]
                        if "timeout" in r:
                            return r
                        r["harness_error"] = "reference run failed: %s" % (r.get("harness_error") or r)
                        return r
                    REFS[(job["prop"], ks)] = r["res"]
                job["refs"][ks] = REFS[(job["prop"], ks)]
    except BaseException as e:
        return {"id": job["id"], "harness_error": "gen: %s: %s" % (type(e).__name__, e),
                "trace": traceback.format_exc()[-4000:]}
    t0 = REAL_TIME()
    res = run_forked(job, job.get("timeout", 120))
    res["wall"] = REAL_TIME() - t0
    res["spec"] = spec
    return res


def main():
    from . import seams
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    dn = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("DST_SHOW"):
        os.dup2(dn, 1)
    try:
        seams.boot()
        hello = {"ready": True, "hashseed": os.environ.get("PYTHONHASHSEED")}
    except BaseException:
        hello = {"ready": False, "trace": traceback.format_exc()[-4000:]}
    out.write((json.dumps(hello) + "\n").encode())
    if not hello["ready"]:
        return
    for line in sys.stdin.buffer:
        job = json.loads(line)
        res = do_job(job)
        out.write((json.dumps(res, default=str) + "\n").encode())


if __name__ == "__main__":
    main()
