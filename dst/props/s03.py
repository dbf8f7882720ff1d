"""S03: every accepted solve request is answered by exactly one result event,
delivered to the client session that asked, carrying that request's timestamp."""
import random
from .. import webload as W

TITLE = "one result event per accepted request, to the session that asked"
TIMEOUT = 75
HANG = False
RUNS = {"quick": 300, "thorough": 20000}
RULE = ("each run: 1-4 simulated browser sessions post 1-4 solve requests (drawn from 34 polynomials, all method "
        "and config mixes, retries, disconnects); request handlers and background solves are tasks preempted at "
        "repository source lines by a seeded random or PCT scheduler, with numeric-solver faults and engine errors; "
        "non-trivial: at least one accepted request and (more than 3 context switches or a fired fault)")
REAL = ["web_main (Flask views, socket.io handlers, background tasks)", "triples.* (parser, root finder, all solvers, rendering)",
        "python-socketio rooms and emit routing", "Flask request handling", "scipy/cvxopt/sympy numerics when not faulted"]
STUB = ["network transport (in-process flask_socketio test client)", "OS thread scheduler (simulated)",
        "clock and sleep (simulated)", "faulted numeric-solver calls"]
ASSUME = ["preemption happens only at source-line boundaries of repository code and at simulated locks",
          "the socket.io transport itself neither loses nor duplicates messages"]
ENGINE_EXC = ["MemoryError", "RecursionError", "ZeroDivisionError", "ValueError", "TypeError", "KeyError"]


def gen(rng, tier, index):
    spec = {"clients": W.clients(rng)}
    spec.update(W.policy(rng))
    spec["faults"] = {}
    for kind, opts in (("lp", ["raise", "fail", "nan", "noise", "zeros", "random"]),
                       ("sdp", ["raise", "none", "garbage", "nan", "short", "empty", "noise"]),
                       ("roots", ["raise", "noise", "imag"]), ("min", ["raise", "noise", "nan"]),
                       ("linalg", ["raise"])):
        if rng.random() < 0.2:
            n = rng.choice([1, 2, 4])
            spec["faults"][kind] = {str(rng.randrange(8)): {"kind": rng.choice(opts), "seed": rng.randrange(1000)}
                                    for _ in range(n)}
            if rng.random() < 0.3:
                spec["faults"][kind] = {"*": {"kind": rng.choice(opts), "seed": 1}}
    spec["engine"] = []       # an error raised at an arbitrary engine line of a background solve
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            spec["engine"].append([rng.randrange(4), rng.choice([3, 30, 300, 3000, 30000]) + rng.randrange(300),
                                   rng.choice(ENGINE_EXC)])
    return spec


def run(spec):
    from .. import kernel, seams
    import builtins
    web = W.Web()
    rng = random.Random(spec["seed"])
    clients = [web.connect() for _ in spec["clients"]]
    for c in clients:
        c.get_received()
    sim = kernel.Sim(rng, spec["policy"], (seams.REPO + "/",), focus=spec.get("focus"), max_steps=10_000_000)
    seams.F.plan = spec["faults"]
    seams.F.on = True
    seams.CLOCK.on = True
    accepted = []       # (client index, ts, actions, tangents given)
    dropped = {}
    got = {i: [] for i in range(len(clients))}

    # engine errors: count lines executed inside the solving package by the
    # k-th background task and raise there
    bg = {}
    plan = {}
    for k, step, exc in spec["engine"]:
        plan.setdefault(k, []).append([step, exc])

    def hook(t, code, line):
        k = bg.get(t.idx)
        if k is None:
            if t.name.startswith("client"):
                return
            k = bg[t.idx] = len(bg)
        todo = plan.get(k)
        if not todo or "/triples/" not in code.co_filename:
            return
        todo[0][0] -= 1
        if todo[0][0] <= 0:
            exc = todo.pop(0)[1]
            if not todo:
                plan.pop(k, None)
            seams.F.fire("engine:" + exc)
            sim.event("engine-error", k, exc)
            raise getattr(builtins, exc)("injected engine failure")
    if plan:
        sim.hooks.append(hook)

    def client(i, ops):
        c = clients[i]
        for op in ops:
            if op["op"] == "drop":
                c.disconnect()
                dropped[i] = True
                seams.F.fire("client:disconnect")
                sim.event("disconnect", i)
                continue
            if op["op"] == "coeffs":
                st, js = web.post("/process/latexcoeffs", op["req"])
                sim.event("coeffs", i, st)
                continue
            payload = dict(op["req"], sid=c.dst_sid, timestamp=op["ts"])
            st, js = web.post("/process/preprocess", payload)
            ok = st == 200 and isinstance(js, dict) and bool(js)
            sim.event("posted", i, op["ts"], st, ok)
            if ok:
                accepted.append((i, op["ts"], list(op["req"]["actions"]), op["req"].get("tangents") is not None,
                                 i in dropped))

    for i, ops in enumerate(spec["clients"]):
        sim.spawn(client, i, ops, name="client%d" % i)
    sim.run()
    viol = []
    if sim.abort is not None:
        viol.append({"class": "liveness", "msg": "run did not quiesce: %s" % sim.abort})
        return result(sim, viol, accepted, seams)
    for i, c in enumerate(clients):
        if i in dropped:
            continue
        for ev in c.get_received():
            got[i].append(W.norm_event(ev))
    for i in got:
        for name, p in got[i]:
            sim.event("got", i, name, p.get("timestamp"), p.get("success"))
    mine = {}
    for i, ts, actions, tg, _d in accepted:
        mine[ts] = i
    for i in got:
        for name, p in got[i]:
            ts = p.get("timestamp")
            if ts not in mine:
                viol.append({"class": "phantom", "msg": "client %d received %r event with timestamp %r that no accepted request carried" % (i, name, ts)})
            elif mine[ts] != i:
                viol.append({"class": "misdelivered", "msg": "client %d received %r event of request %r made by client %d" % (i, name, ts, mine[ts])})
    for i, ts, actions, tg, was_dropped in accepted:
        if i in dropped:
            continue
        n = [p for name, p in got[i] if name == "sos" and p.get("timestamp") == ts]
        want = 1 if "sos" in actions else 0
        if len(n) != want:
            viol.append({"class": "lost" if len(n) < want else "duplicate",
                         "msg": "request ts=%d actions=%s: %d 'sos' result events, expected %d" % (ts, actions, len(n), want)})
        for p in n:
            bad = [k for k in ("latex", "txt", "formatted") if not isinstance(p.get(k), str)]
            if bad or not isinstance(p.get("success"), bool):
                viol.append({"class": "malformed", "msg": "request ts=%d: result event fields %s malformed: %r" % (ts, bad, {k: p.get(k) for k in ("success",)})})
            elif p["success"] and not (p["latex"] and p["txt"] and p["formatted"]):
                viol.append({"class": "malformed", "msg": "request ts=%d: success with empty solution text" % ts})
            elif not p["success"] and (p["latex"] or p["txt"] or p["formatted"]):
                viol.append({"class": "malformed", "msg": "request ts=%d: failure reported together with a solution" % ts})
        r = [p for name, p in got[i] if name == "rootangents" and p.get("timestamp") == ts]
        if len(r) > 1:
            viol.append({"class": "duplicate", "msg": "request ts=%d: %d 'rootangents' events" % (ts, len(r))})
    return result(sim, viol, accepted, seams)


def result(sim, viol, accepted, seams):
    import hashlib
    h = hashlib.sha1(repr(sim.log).encode()).hexdigest()
    return {"violations": viol, "points": sim.points, "steps": sim.total, "switches": sim.switches,
            "simtime": seams.CLOCK.t - seams.CLOCK.base, "fired": seams.F.fired, "digest": h,
            "sched": hashlib.sha1(repr(sim.points).encode()).hexdigest(),
            "log": [list(map(str, e)) for e in sim.log[-60:]],
            "work": len(accepted), "nontrivial": bool(len(accepted) > 0 and (sim.switches > 3 or seams.F.fired))}


def shrink(spec):
    """Simpler specs, most aggressive first."""
    import copy
    cl = spec["clients"]
    for i in range(len(cl)):
        if len(cl) > 1:
            s = copy.deepcopy(spec)
            del s["clients"][i]
            yield s
    for i, ops in enumerate(cl):
        for j in range(len(ops)):
            if len(ops) > 1:
                s = copy.deepcopy(spec)
                del s["clients"][i][j]
                yield s
    for kind in list(spec.get("faults", {})):
        s = copy.deepcopy(spec)
        del s["faults"][kind]
        yield s
    for i in range(len(spec.get("engine", []))):
        s = copy.deepcopy(spec)
        del s["engine"][i]
        yield s
    for i, ops in enumerate(cl):
        for j, op in enumerate(ops):
            for key in ("tangents", "standardize_text", "homogenize", "dehomogenize", "omit_mul", "configs"):
                if key in op.get("req", {}) and op["req"][key] != {}:
                    s = copy.deepcopy(spec)
                    if key == "configs":
                        s["clients"][i][j]["req"][key] = {}
                    else:
                        del s["clients"][i][j]["req"][key]
                    yield s
