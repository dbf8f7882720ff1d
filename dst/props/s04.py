"""S04: a request served together with others gets the answer it gets alone."""
import copy
import hashlib
import json
import random
from .. import webload as W
from . import s03

TITLE = "concurrent requests get the answers they get when served alone"
RUNS = {"quick": 260, "thorough": 12000}
TIMEOUT = 75
HANG = False
RULE = ("each run: 2-4 simulated browser sessions post solve requests drawn from a pool of 160 generated requests (all methods, "
        "constraints, tangents, text standardisation); handlers and background solves are preempted at repository source lines; "
        "some background tasks die from injected engine errors, some clients disconnect or retry; every other request's HTTP "
        "answer and events are compared with a fresh process serving that request alone; non-trivial: at least two compared requests and more than 3 context switches")
REAL = s03.REAL
STUB = s03.STUB
ASSUME = s03.ASSUME + ["the answer alone is computed by the same code in a fresh process with the same hash seed"]


def pool(k):
    """Request k.  The requests of one slice are near each other: they share a
    few polynomials and differ in tangents, options, symmetry or names, which is
    where state kept between requests shows."""
    rng = random.Random("pool/%d" % k)
    r = W.request(rng, bad=0.05)
    if r["poly"] not in W.BAD and rng.random() < 0.75:
        near = random.Random("near/%d/%d" % (k % 8, k // 8 // 20))
        r["poly"], r["gens"], r["perm"] = rng.choice(near.sample(W.POLYS, 4))
        if rng.random() < 0.2 and len(r["gens"]) == 3:
            r["perm"] = rng.choice([W.C3, W.S3, W.T3])
        if rng.random() < 0.25 and "findroot" in r["actions"]:
            r["tangents"] = rng.choice(W.TANGENTS)
        if near.random() < 0.5:          # a slice of plain requests: defaults are shared, if anything is
            r.pop("configs", None)
            r["methods"] = W.M("LinearSOS")
            r["actions"] = ["findroot", "sos"]
            if rng.random() < 0.3:
                r["tangents"] = rng.choice(W.TANGENTS[1:])
    return r


def gen(rng, tier, index):
    n = 160 if tier == "quick" else 2000
    mine = [k for k in range(index % 8, n, 8)]      # a worker keeps to its own slice: references are reused
    ts = 1000
    clients = []
    for c in range(rng.choice([2, 2, 3, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            ts += 1
            k = rng.choice(mine)
            if rng.random() < 0.12:
                ops.append({"op": "coeffs", "k": k})
            ops.append({"op": "solve", "ts": ts, "k": k})
            if rng.random() < 0.08:
                ts += 1
                ops.append({"op": "solve", "ts": ts, "k": k})
        if rng.random() < 0.1:
            ops.insert(rng.randrange(len(ops) + 1), {"op": "drop"})
        clients.append(ops)
    spec = {"clients": clients, "engine": []}
    spec.update(W.policy(rng))
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            spec["engine"].append([rng.randrange(4), rng.choice([3, 30, 300, 3000, 30000]) + rng.randrange(300),
                                   rng.choice(s03.ENGINE_EXC)])
    return spec


def ref_keys(spec):
    return sorted({(op["op"], op["k"]) for ops in spec["clients"] for op in ops if "k" in op})


def run_ref(key):
    from .. import kernel
    op, k = key
    web = W.Web()
    c = web.connect()
    c.get_received()
    sim = kernel.Sim(random.Random(0), {"mode": "replay", "points": []}, ("/nonexistent/",))
    out = {}

    def client():
        out["r"] = serve(web, c, {"op": op, "k": k, "ts": 1})
    sim.spawn(client, name="client0")
    sim.run()
    if sim.abort is not None:
        raise RuntimeError(str(sim.abort))
    return [out["r"], events(c).get(1, [])]


def serve(web, c, op):
    req = copy.deepcopy(pool(op["k"]))
    if op["op"] == "coeffs":
        return list(web.post("/process/latexcoeffs", {x: req[x] for x in ("poly", "gens", "perm")}))
    return list(web.post("/process/preprocess", dict(req, sid=c.dst_sid, timestamp=op["ts"])))


def events(c):
    out = {}
    for ev in c.get_received():
        name, p = W.norm_event(ev)
        ts = p.pop("timestamp", None)
        out.setdefault(ts, []).append([name, p])
    return out


def run(spec, refs):
    from .. import kernel, seams
    import builtins
    web = W.Web()
    clients = [web.connect() for _ in spec["clients"]]
    for c in clients:
        c.get_received()
    sim = kernel.Sim(random.Random(spec["seed"]), spec["policy"], (seams.REPO + "/",), focus=spec.get("focus"), max_steps=10_000_000)
    seams.CLOCK.on = True
    posted, dropped, bg, plan, spoiled = [], set(), {}, {}, set()
    for k, step, exc in spec["engine"]:
        plan.setdefault(k, []).append([step, exc])

    def hook(t, code, line):
        k = bg.get(t.idx)
        if k is None:
            if t.name.startswith("client"):
                return
            k = bg[t.idx] = len(bg)
        todo = plan.get(k)
        if not todo or "/triples/" not in code.co_filename:
            return
        todo[0][0] -= 1
        if todo[0][0] <= 0:
            exc = todo.pop(0)[1]
            if not todo:
                plan.pop(k, None)
            seams.F.fire("engine:" + exc)
            sim.event("engine-error", k, exc)
            spoiled.add(t.idx)
            raise getattr(builtins, exc)("injected engine failure")
    sim.hooks.append(hook)
    by_task = {}

    def client(i, ops):
        c = clients[i]
        for op in ops:
            if op["op"] == "drop":
                c.disconnect()
                dropped.add(i)
                seams.F.fire("client:disconnect")
                continue
            n = len(sim.tasks)
            me = sim.cur.idx
            started.append((me, op.get("ts")))
            r = serve(web, c, op)
            posted.append((i, op, json.loads(json.dumps(r))))
            sim.event("answered", i, op["k"], r[0])
    started = []
    orig_spawn = sim.spawn

    def spawn(fn, *a, **k):        # which request a background task belongs to
        t = orig_spawn(fn, *a, **k)
        cur = sim.cur
        if cur is not None:
            ts = [x for x in started if x[0] == cur.idx]
            by_task[t.idx] = ts[-1][1] if ts else None
        return t
    sim.spawn = spawn
    for i, ops in enumerate(spec["clients"]):
        orig_spawn(client, i, ops, name="client%d" % i)
    sim.run()
    viol = []
    if sim.abort is not None:
        viol.append({"class": "liveness", "msg": "run did not quiesce: %s" % sim.abort})
    got = [events(c) if i not in dropped else {} for i, c in enumerate(clients)]
    bad_ts = {by_task.get(t) for t in spoiled}
    compared = 0
    for i, op, r in posted:
        if op.get("ts") in bad_ts and op["op"] == "solve":
            continue
        want_r, want_ev = refs[json.dumps([op["op"], op["k"]])]
        what = "%s request %s (client %d)" % (op["op"], json.dumps(pool(op["k"])), i)
        if r != want_r:
            viol.append({"class": "answer-differs", "msg": "%s: HTTP answer %s differs from the answer when served alone %s" % (
                what, diff(r, want_r)[0], diff(r, want_r)[1])})
        if op["op"] != "solve" or i in dropped:
            continue
        compared += 1
        have = got[i].get(op["ts"], [])
        if json.loads(json.dumps(have)) != want_ev:
            a, b = diff(have, want_ev)
            viol.append({"class": "result-differs", "msg": "%s: events %s differ from the events when served alone %s" % (what, a, b)})
    res = s03.result(sim, viol, posted, seams)
    res["digest"] = hashlib.sha1(repr((res["digest"], got)).encode()).hexdigest()
    res["count"] = {"compared": compared, "spoiled": len(bad_ts)}
    res["nontrivial"] = compared >= 2 and sim.switches > 3
    return res


def diff(a, b):
    a, b = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    k = max(0, k - 60)
    return "..." + a[k:k + 240], "..." + b[k:k + 240]


def shrink(spec):
    cl = spec["clients"]
    for i in range(len(cl)):
        if len(cl) > 1:
            s = copy.deepcopy(spec)
            del s["clients"][i]
            yield s
    for i, ops in enumerate(cl):
        for j in range(len(ops)):
            if len(ops) > 1:
                s = copy.deepcopy(spec)
                del s["clients"][i][j]
                yield s
    for i in range(len(spec.get("engine", []))):
        s = copy.deepcopy(spec)
        del s["engine"][i]
        yield s
