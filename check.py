#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--runs N] [--replay FILE]

Deterministic simulation check of one property of the repository at /repo
(or $DST_REPO).  Exit 0: held on every simulated run; 1: VIOLATION; 2: the
check itself could not decide.
"""
import argparse
import copy
import importlib
import json
import os
import re
import subprocess
import sys
import time
from collections import Counter

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dst import driver as D          # noqa: E402

REPO = os.environ.get("DST_REPO", "/repo")
NW = int(os.environ.get("DST_WORKERS", "8"))


def known(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) class=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "re": m.group(3), "text": m.group(4)})
    return out


def matches(entry, v):
    return v["class"] == entry["class"] and re.search(entry["re"], v["msg"], re.S)


def classes(res, kn=()):
    """Violation classes of one run's report that no known finding covers."""
    if "res" in res:
        return [v for v in res["res"]["violations"] if not any(matches(e, v) for e in kn)]
    if "timeout" in res:
        return [{"class": "hang", "msg": "the run did not finish within %s s of real time" % res["timeout"]}]
    if "died" in res:
        return [{"class": "process-death", "msg": "the process running the code died (wait status %s)" % res["died"]}]
    return []


def repo_head():
    try:
        return subprocess.run(["git", "-C", REPO, "describe", "--always", "--dirty"], capture_output=True,
                              text=True, timeout=20).stdout.strip()
    except Exception:
        return "?"


def minimise(mod, prop, spec, cls, hashseed, kn, seconds, timeout):
    """Greedy structural shrinking, then delta-debugging of the schedule."""
    t_end = time.monotonic() + seconds
    ws = D.start_workers([hashseed] * NW, REPO)
    stats = {"candidates": 0, "accepted": 0}
    best = {}

    def attempt(cands):
        """First candidate (in order) that still violates with class `cls`."""
        for k in range(0, len(cands), NW):
            if time.monotonic() > t_end:
                return None
            chunk = cands[k:k + NW]
            jobs = [{"id": i, "prop": prop, "spec": s, "timeout": timeout} for i, s in enumerate(chunk)]
            stats["candidates"] += len(chunk)
            for s, r in zip(chunk, D.call_parallel(ws, jobs)):
                if any(v["class"] == cls for v in classes(r, kn)):
                    stats["accepted"] += 1
                    best["r"] = r
                    return s
        return None
    try:
        r = attempt([spec])
        if r is None:
            return spec, None, stats
        progress = hasattr(mod, "shrink")
        while progress and time.monotonic() < t_end:
            got = attempt(list(mod.shrink(copy.deepcopy(spec))))
            progress = got is not None
            if progress:
                spec = got
        pts = best["r"].get("res", {}).get("points")
        if pts is not None and spec.get("policy", {}).get("mode") != "replay":
            s = copy.deepcopy(spec)
            s["policy"] = {"mode": "replay", "points": pts}
            if attempt([s]) is not None:
                spec = s
        if spec.get("policy", {}).get("mode") == "replay":
            def with_points(p):
                s = copy.deepcopy(spec)
                s["policy"]["points"] = p
                return s
            if attempt([with_points([])]) is not None:
                spec = with_points([])
            n = 2
            while time.monotonic() < t_end:
                p = spec["policy"]["points"]
                if len(p) <= 1:
                    break
                size = max(1, (len(p) + n - 1) // n)
                cands = [with_points(p[:i] + p[i + size:]) for i in range(0, len(p), size)]
                got = attempt(cands)
                if got is not None:
                    spec = got
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(p), n * 2)
            progress = hasattr(mod, "shrink")
            while progress and time.monotonic() < t_end:
                got = attempt(list(mod.shrink(copy.deepcopy(spec))))
                progress = got is not None
                if progress:
                    spec = got
        return spec, best["r"], stats
    finally:
        for w in ws:
            w.close()


def run_file(path):
    rep = json.load(open(path))
    prop = rep["property"]
    ws = D.start_workers([rep["hashseed"]], REPO)
    res = ws[0].call({"id": 0, "prop": prop.lower(), "spec": rep["spec"], "timeout": rep.get("timeout", 300)})
    ws[0].close()
    vs = classes(res, known(prop))
    for v in vs:
        print("  %s: %s" % (v["class"], v["msg"][:2000]))
    if "res" in res:
        print("  digest %s (recorded %s)" % (res["res"].get("digest"), rep.get("digest")))
    if any(v["class"] == rep["class"] for v in vs):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if "res" not in res and not vs:
        print(json.dumps({k: v for k, v in res.items() if k != "spec"})[:3000])
        return 2
    print("replay: no violation of class %s" % rep["class"])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return run_file(a.replay)
    prop = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("dst.props." + prop.lower())
    runs = a.runs or mod.RUNS[tier]
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier, 330 if tier == "quick" else 3 * 3600)
    timeout = getattr(mod, "TIMEOUT", 240)
    t0 = time.monotonic()
    kn = known(prop)
    print("%s: %s | seed %d tier %s runs %d workers %d" % (prop, mod.TITLE, base, tier, runs, NW))
    seeds = D.hash_seeds(base, NW)
    try:
        ws = D.start_workers(seeds, REPO)
    except D.HarnessError as e:
        print(e)
        return 2
    jobs = [{"id": i, "prop": prop.lower(), "seed": D.derive(base, prop, i), "index": i, "tier": tier,
             "timeout": timeout} for i in range(runs)]
    done, bad, harness, kfound = {}, [], [], Counter()
    suspects, slow = [], []

    def on(job, res, w):
        i = job["id"]
        if "res" in res:
            done[i] = res
            for e in kn:
                if any(matches(e, v) for v in res["res"]["violations"]):
                    kfound[e["text"]] += 1
        vs = classes(res, kn)
        if vs and "res" in res:
            bad.append((i, res, w.hashseed))
            return not a.keep_going and len(bad) >= 3
        if "timeout" in res and not getattr(mod, "HANG", True):
            slow.append(i)           # termination is not part of this property
            return False
        if vs:                       # hang / process death: decide later, alone
            suspects.append((i, res, w.hashseed))
            return len(suspects) >= 4
        if "res" not in res:
            harness.append((i, res))
            return len(harness) > 20
        return False

    D.run_batch(ws, jobs, t0 + budget, on)
    for w in ws:
        w.close()
    batch_s = time.monotonic() - t0

    # a hang or a dead process counts only if it repeats in a fresh process, alone
    for i, res, hs in sorted(suspects, key=lambda x: x[0])[:3]:
        if bad:
            break
        w = D.start_workers([hs], REPO)[0]
        r2 = w.call({"id": i, "prop": prop.lower(), "spec": res["spec"], "timeout": timeout})
        w.close()
        if classes(r2, kn):
            bad.append((i, r2, hs))
        elif "res" in r2:
            done[i] = r2
        else:
            harness.append((i, r2))

    # determinism self-check: the same runs again in a fresh process
    det = {"rerun": 0, "equal": 0, "different": []}
    mine = [i for i in sorted(done) if i % NW == 0 and "digest" in done[i]["res"]][:4]
    if mine and not bad:
        w = D.start_workers([seeds[0]], REPO)[0]
        for i in mine:
            r = w.call({"id": i, "prop": prop.lower(), "spec": done[i]["spec"], "timeout": timeout})
            det["rerun"] += 1
            if r.get("res", {}).get("digest") == done[i]["res"]["digest"]:
                det["equal"] += 1
            else:
                det["different"].append(i)
        w.close()

    report = None
    if bad:
        for i, res, hs in sorted(bad, key=lambda x: x[0])[:3]:
            cls = classes(res, kn)[0]["class"]
            spec, r, stats = minimise(mod, prop.lower(), res["spec"], cls, hs, kn,
                                      100 if tier == "quick" else 600, timeout) if cls not in ("hang", "process-death") \
                else (res["spec"], res, {})
            if r is None:
                print("run %d reported %s but it did not repeat in a fresh process" % (i, cls))
                harness.append((i, {"harness_error": "violation %s of run %d did not repeat" % (cls, i), "id": i}))
                continue
            msg = [v["msg"] for v in classes(r, kn) if v["class"] == cls][0]
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (prop, cls, i))
            rr = r.get("res", {})
            json.dump({"property": prop, "class": cls, "msg": msg, "spec": spec, "hashseed": hs, "run": i,
                       "verif_seed": base, "repo": repo_head(), "digest": rr.get("digest"), "timeout": timeout,
                       "minimise": stats, "trace": rr.get("log"), "schedule_points": rr.get("points")},
                      open(path, "w"), indent=1, default=str)
            report = (path, cls, msg, stats)
            break
    rs = [done[i]["res"] for i in sorted(done)]
    fired = Counter()
    for r in rs:
        fired.update(r.get("fired", {}))
    nontriv = {r.get("digest", n) for n, r in enumerate(rs) if r.get("nontrivial")}
    extra = Counter()
    for r in rs:
        extra.update(r.get("count", {}))
    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier, "seed": base, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {
              "evaluations": len(rs), "distinct_nontrivial": len(nontriv),
              "rule": mod.RULE,
              "samples": [{"run": i, "spec": done[i]["spec"], "events": done[i]["res"].get("log", [])[-12:]}
                          for i in sorted(done)[:2]],
              "runs_per_hour": int(len(rs) / max(batch_s, 1e-6) * 3600),
              "seeds_per_hour": int(len(rs) / max(batch_s, 1e-6) * 3600),
              "simulated_seconds": round(sum(r.get("simtime", 0) for r in rs), 3),
              "scheduler_steps": sum(r.get("steps", 0) for r in rs),
              "context_switches": sum(r.get("switches", 0) for r in rs),
              "distinct_interleavings": len({r.get("sched") for r in rs if r.get("sched")}),
              "distinct_event_histories": len({r.get("digest") for r in rs}),
              "faults_injected": dict(sorted(fired.items())),
              "work_units": sum(r.get("work", 0) for r in rs),
              "probes": dict(sorted(extra.items())),
              "determinism": det,
              "abandoned_slow_runs": len(slow), "slowest_run_s": round(max([done[i].get("wall", 0) for i in done] or [0]), 1),
              "slowest_run": max(done, key=lambda i: done[i].get("wall", 0), default=None),
              "real_components": mod.REAL, "stubbed_components": mod.STUB},
          "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": 1 if report else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "%s.json" % prop), "w"), indent=1, default=str)
    print("%d runs, %d distinct non-trivial, %d distinct interleavings, %.0f s; faults %s" % (
        len(rs), len(nontriv), ev["coverage"]["distinct_interleavings"], wall, dict(fired)))
    if slow:
        print("%d runs abandoned after %s s (termination is not part of this property): %s" % (len(slow), timeout, slow[:10]))
    if extra:
        print("probes", dict(sorted(extra.items())))
    if det["different"]:
        print("warning: runs %s gave another event history when repeated" % det["different"])
    for text in sorted(kfound):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, text, kfound[text]))
    if report:
        path, cls, msg, stats = report
        print("class %s: %s" % (cls, msg[:1500]))
        print("minimised with %s" % stats)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness:
        print("%d runs ended in a harness error; first:" % len(harness))
        print(json.dumps({k: v for k, v in harness[0][1].items() if k != "spec"}, indent=1)[:4000])
        return 2
    if len(rs) < min(runs, getattr(mod, "MIN_RUNS", 20)):
        print("only %d runs finished within the budget" % len(rs))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
