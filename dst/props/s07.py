"""S07: saved batch results survive what disks and clocks do."""
import copy
import csv
import hashlib
import io
import json
import random
from .. import batch as B

TITLE = "saved batch results are complete, never overwrite others, and times are sane"
RUNS = {"quick": 1500, "thorough": 80000}
TIMEOUT = 90
HANG = False
RULE = ("each run: 1-4 steps on one simulated directory, each a batch saved to a seeded target (automatic names next to the input file, in the current or a given "
        "directory, explicit files in existing, missing or no directory, unusable targets), or 2-3 batches saving concurrently under the seeded line-level "
        "scheduler; the wall clock jumps forward and back and often stands still; the disk fills up, opens, writes, closes and mkdirs fail, writes are short, "
        "another process takes a name just before an open, or the process crashes in an operation and the next step restarts; after each step the directory is "
        "compared with a reference model; non-trivial: a file was saved and a fault, clock jump, collision or concurrent step happened")
REAL = ["sum_of_squares_multiple, _process_records, the solvers", "pandas to_csv", "io buffering and text layers", "the file system of a scratch directory"]
STUB = ["raw file operations below the scratch directory (faults, crash)", "wall and monotonic clock", "thread scheduling in concurrent steps"]
ASSUME = ["the csv module reads back what a csv writer wrote", "only durable state (the directory) survives a simulated crash"]


def gen(rng, tier, index):
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        st = {"batches": [gen_batch(rng)], "io": []}
        x = rng.random()
        if x < 0.25:
            st["batches"] += [gen_batch(rng) for _ in range(rng.choice([1, 2]))]
            st["policy"] = rng.choice([{"mode": "random", "p": rng.choice([.002, .02, .2])}, {"mode": "pct", "depth": rng.choice([2, 4]), "span": rng.choice([500, 3000])}])
            if rng.random() < 0.7:
                for b in st["batches"][1:]:
                    b["to"], b["src"] = st["batches"][0]["to"], st["batches"][0]["src"]
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(["open-w", "write", "write", "close", "mkdir", "open-w", "rename"])
                st["io"].append({"op": op, "n": rng.choice([0, 0, 0, 1, 2, 5]), "kind": rng.choice(
                    ["rival", "rival", "EACCES", "crash"] if op == "open-w" else ["EIO", "short", "short", "crash", "EDQUOT"] if op == "write" else ["EIO", "crash", "EACCES"])})
        if rng.random() < 0.25:
            st["disk"] = rng.choice([0, 10, 60, 150, 400])
        if rng.random() < 0.5:
            st["jumps"] = [[rng.choice([1, 1, 2, 3, 5, 9]), rng.choice([-3600, -86400, -1, -5, 3600, 1, 60, 1e8])] for _ in range(rng.choice([1, 2]))]
        st["tick"] = rng.choice([0, 0.001, 0.001, 0.3, 2])
        st["buf"] = rng.choice([16, 64, 512, 8192])
        steps.append(st)
    return {"steps": steps}


def gen_batch(rng):
    src = rng.choice(["list", "list", "file"])
    return {"items": B.gen_items(rng, rng.choice([0, 1, 2, 3]), cheap=True, polys=src != "file"), "src": src,
            "to": rng.choice(["auto", "auto", "auto", "dir", "dir", "dir/", "csv", "csv", "bare", "newdir", "deepdir", "bad", "missingdir"]),
            "name": rng.choice(["out", "out", "res1"]), "how": rng.choice(["str_formatted", "str_formatted", "str_latex", "str_txt", "call"]),
            "rel": rng.random() < 0.3, "iq": rng.choice(["none", "list"])}


def target(b, root):
    import os
    d = "" if b["rel"] else root + "/"
    f = b["name"] + ".csv"
    return {"auto": True, "dir": d + "results", "dir/": d + "results/", "csv": d + "results/" + f, "bare": f, "newdir": d + "made/" + f,
            "deepdir": d + "made/x/y/" + f, "bad": d + b["name"] + ".txt", "missingdir": d + "nowhere"}[b["to"]]


def render(how):
    if how == "call":
        return lambda s: "none" if s is None else "proof, \"of\"\n" + str(s.is_equal)
    return lambda s: getattr(s, how) if s is not None else None


def run(spec):
    from .. import seams, fsim, kernel
    from ..fsim import fs
    import os
    import shutil
    import tempfile
    viol, log, count = [], [], {}
    root = os.path.realpath(tempfile.mkdtemp(prefix="dst-s07-"))
    fsim.install()
    here = os.getcwd()
    info = {"saved": 0, "odd": 0, "switches": 0, "steps": 0, "points": []}
    seams.CLOCK.on = True
    try:
        os.mkdir(root + "/results")
        os.mkdir(root + "/in")
        os.chdir(root)
        for n, st in enumerate(spec["steps"]):
            step(n, st, spec, root, viol, log, count, info)
            if viol:
                break
    finally:
        fs.root = None
        seams.CLOCK.on = False
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
    h = hashlib.sha1(json.dumps(log).replace(root, "/r").encode()).hexdigest()
    fired = dict(seams.F.fired)
    for k, v in fs.fired.items():
        fired["file-" + k] = v
    for v in viol:
        v["msg"] = v["msg"].replace(root, "/scratch")
    return {"violations": viol[:3], "log": log, "digest": h, "fired": fired, "work": len(log), "count": count, "simtime": abs(seams.CLOCK.t - seams.CLOCK.base), "sched": h,
            "points": info["points"], "switches": info["switches"], "steps": info["steps"], "nontrivial": bool(info["saved"] and (info["odd"] or fired))}


def step(n, st, spec, root, viol, log, count, info):
    from .. import seams, fsim, kernel
    from ..fsim import fs, _open, SimCrash
    import os
    from triples.core.sum_of_squares import sum_of_squares_multiple
    C = seams.CLOCK
    C.tick = st["tick"]
    C.jumps = sorted([C.reads + k, d] for k, d in st.get("jumps", []))
    calls = []
    for j, b in enumerate(st["batches"]):
        if b["src"] == "file":
            b["items"] = [it for it in b["items"] if it not in B.POLYS]
        arg = [B.value(it) for it in b["items"]]
        if b["src"] == "file":
            path = "in/set%d.txt" % (len(b["items"]) % 2)
            if not b["rel"]:
                path = os.path.join(root, path)
            # concurrent batches read files of their own
            if len(st["batches"]) > 1:
                path = path.replace(".txt", "_%d_%d.txt" % (n, j))
            with _open(path, "w", encoding="utf-8") as h:
                h.write("\n".join(arg))
            arg = path
        calls.append((arg, b))
    before = fsim.tree(root)
    fs.root, fs.buf, fs.rivals = root, st["buf"], {}
    fs.arm(st["io"], st.get("disk"))
    f0 = len(fs.log)
    res = [None] * len(calls)

    def go(j):
        arg, b = calls[j]
        iq, eq = B.constraints(b["iq"])
        m0 = C.mono
        df = exc = None
        try:
            df = sum_of_squares_multiple(arg, iq, eq, method_order=["StructuralSOS"], save_result=target(b, root), save_solution_method=render(b["how"]) if b["how"] == "call" else b["how"],
                                         verbose_progress=False)
        except (Exception, SimCrash) as e:
            exc = e
        res[j] = (df, exc, C.mono - m0)
    t_before = C.t
    if len(calls) == 1:
        go(0)
    else:
        sim = kernel.Sim(random.Random(spec["seed"] + n), st["policy"], (seams.REPO + "/",))
        fs.yield_ = lambda op: sim.sleep(0) if sim.current_task() is not None else None
        for j in range(len(calls)):
            sim.spawn(go, j, name="batch%d" % j)
        sim.run()
        fs.yield_ = None
        info["switches"] += sim.switches
        info["steps"] += sim.total
        info["points"] += sim.points
        if sim.abort is not None or any(r is None for r in res):
            viol.append({"class": "liveness", "msg": "concurrent batches did not end: %s" % (sim.abort or [str(t.error) for t in sim.tasks])})
            return
        seams.F.fire("concurrent-save")
    fs.arm([])
    faults = fs.log[f0:]
    after = fsim.tree(root)
    fs.root = None
    for k, v in fs.rivals.items():
        before[os.path.relpath(k, root)] = v
    if C.t < t_before:
        info["odd"] = 1
    explicit = {}
    for (arg, b), (df, exc, el) in zip(calls, res):
        t = target(b, root)
        if t is not True and str(t).endswith(".csv"):
            p = os.path.relpath(os.path.join(root, t), root)
            explicit.setdefault(p, []).append((b, df, exc))

    def bad(cls, msg):
        viol.append({"class": cls, "msg": "step %d (%s; faults %s): %s" % (n, json.dumps([[b["src"], b["to"], b["items"], b["how"], b["rel"]] for _, b in calls]), faults, msg)})
    new = {k: v for k, v in after.items() if k not in before}
    for k, v in before.items():
        if k in explicit:
            continue
        if k not in after:
            bad("lost", "the file %s disappeared" % k)
        elif after[k] != v:
            bad("overwritten", "the file %s that was there before was replaced: %r -> %r" % (k, v[:150], after[k][:150]))
    used = set()
    ok = 0
    for j, ((arg, b), (df, exc, el)) in enumerate(zip(calls, res)):
        log.append([n, j, b["to"], b["src"], type(exc).__name__ if exc else "ok", len(df) if df is not None else None, sorted(new) if j == 0 else None])
        count["raised" if exc else "returned"] = count.get("raised" if exc else "returned", 0) + 1
        if exc is not None:
            if isinstance(exc, SimCrash) or any(f[1] not in ("short", "rival") for f in faults) or b["to"] in ("bad", "missingdir"):
                continue
            bad("raised", "saving raised %s: %s though nothing failed" % (type(exc).__name__, str(exc)[:200]))
            continue
        for r in df.to_dict("records"):
            tm = r["time"]
            if r["status"] != "invalid" and not (0 <= tm <= el + 1e-9):
                bad("time", "record %s has time %s; the whole call took %s" % (r["problem"], tm, el))
        t = target(b, root)
        if b["to"] in ("bad", "missingdir"):
            places = list(new)
        elif t is True or not str(t).endswith(".csv"):
            d = (os.path.dirname(os.path.abspath(arg)) if isinstance(arg, str) else root) if t is True else os.path.join(root, t)
            d = os.path.relpath(os.path.normpath(d), root)
            places = [k for k in new if os.path.normpath(os.path.dirname(k) or ".") == d and k.endswith(".csv") and k not in used and k not in explicit]
        else:
            p = os.path.relpath(os.path.join(root, t), root)
            if len(explicit[p]) > 1:
                continue            # several callers asked for the same file at the same time
            places = [p] if p in after else []
        if not places:
            bad("missing", "the call returned but no file was saved for target %r; new files %s" % (t, sorted(new)))
            continue
        why = [check(df, b, after[p]) for p in places]
        good = [p for p, w in zip(places, why) if w is None]
        if not good:
            bad("incomplete", "the call returned but %s" % "; ".join("%s: %s" % z for z in zip(places, why)))
            continue
        used.add(good[0])
        ok += 1
        info["saved"] += 1
        info["odd"] += bool(places and t is True and "_1.csv" in str(good))
    spare = [k for k in new if k not in used and k not in explicit]
    failed = sum(1 for _, e, _ in res if e is not None)
    if len(spare) > failed and not any(f[1] == "crash" for f in faults):
        bad("litter", "unexpected new files %s" % spare)


def check(df, b, data):
    """None if the file holds exactly the table, else what is wrong."""
    try:
        rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
    except (UnicodeDecodeError, csv.Error) as e:
        return "unreadable: %s" % e
    if len(df) == 0:
        return None if len(rows) <= 1 else "has %d lines for no record" % len(rows)
    if not rows:
        return "empty"
    head, body = rows[0], rows[1:]
    if len(body) != len(df):
        return "%d of %d records" % (len(body), len(df))
    f = render(b["how"])
    isnull = lambda v: v is None or v != v
    for i, (row, r) in enumerate(zip(body, df.to_dict("records"))):
        if len(row) != len(head):
            return "record %d is cut: %s" % (i + 1, row)
        got = dict(zip(head, row))
        sol = f(None if isnull(r["solution"]) else r["solution"])
        want = {"problem": str(r["problem"]), "status": r["status"], "method": "" if isnull(r["method"]) else r["method"],
                "solution": "" if sol is None else sol, "deg": str(r["deg"])}
        for k, v in want.items():
            if k not in got or (got[k] != v if k != "deg" else float(got[k]) != float(v)):
                return "record %d has %s=%r, the table says %r" % (i + 1, k, got.get(k), v)
        t = got.get("time", "")
        if isnull(r["time"]) != (t == "") or (t and abs(float(t) - r["time"]) > 1e-9 * max(1, abs(r["time"]))):
            return "record %d has time %r, the table says %r" % (i + 1, t, r["time"])
    return None


def shrink(spec):
    ss = spec["steps"]
    for i in range(len(ss)):
        if len(ss) > 1:
            s = copy.deepcopy(spec)
            del s["steps"][i]
            yield s
    for i, st in enumerate(ss):
        for j in range(len(st["batches"])):
            if len(st["batches"]) > 1:
                s = copy.deepcopy(spec)
                del s["steps"][i]["batches"][j]
                yield s
            for k in range(len(st["batches"][j]["items"])):
                s = copy.deepcopy(spec)
                del s["steps"][i]["batches"][j]["items"][k]
                yield s
        for j in range(len(st["io"])):
            s = copy.deepcopy(spec)
            del s["steps"][i]["io"][j]
            yield s
        for k in ("disk", "jumps"):
            if k in st:
                s = copy.deepcopy(spec)
                del s["steps"][i][k]
                yield s
