"""S08: a warm process answers exactly as a fresh one."""
import copy
import hashlib
import json
from .. import globs
from .. import ops as O
from .. import corpus as K

TITLE = "a warm process answers exactly as a fresh one"
RUNS = {"quick": 700, "thorough": 40000}
TIMEOUT = 60
HANG = False
RULE = ("each run: 3-12 public calls (30 kinds: the solvers with all options, the manager, parsing, rendering, batch, SDP problems, root finding, "
        "optimisation, symmetry and monomial tools) in one process, many under back-end faults that depend only on what the back end is asked; "
        "the answer of every call is compared with the same call in a fresh process; non-trivial: at least 3 answers compared")
REAL = ["all of triples behind the calls", "scipy, cvxopt, picos, sympy, numpy, pandas when not faulted"]
STUB = ["the faulted back-end answers", "random seed reset before each call (the draw must not matter to anything else)"]
ASSUME = ["a forked copy of a process that only imported the package is a fresh process"]


def gen(rng, tier, index):
    n = rng.randint(3, 8 if tier == "quick" else 14)
    calls = []
    kinds = O.KINDS if rng.random() < 0.6 else rng.sample(O.KINDS, 3)       # swarm: some runs hammer few kinds
    pool = [O.gen_op(rng, kinds) for _ in range(rng.randint(2, n))]
    for _ in range(n):
        op = copy.deepcopy(rng.choice(pool))
        if rng.random() < 0.3:
            mutate(rng, op)
        calls.append({"op": op, "faults": O.gen_faults(rng) if rng.random() < 0.4 else {}})
    return {"calls": calls}


def mutate(rng, op):
    """The same call with other options: what a sloppy cache key would confuse."""
    if "m" in op and op["k"] in ("sos", "manager"):
        op["m"] = K.methods(rng)
    if "form" in op and op["k"] in ("sos", "solver", "manager"):
        op["form"] = rng.choice(["poly", "expr", "dict", "polydict", "polyval"])
    if "p" in op and rng.random() < 0.4:
        t, g, iq, eq = op["p"]
        op["p"] = [t, g, rng.choice(["", ",".join(g), iq]), eq]
    if "cfg" in op:
        op["cfg"] = rng.choice([{}, {"LinearSOS": {"quad_diff_order": 2}, "SDPSOS": {"degree_limit": 4}}])
    for k in ("o", "seed"):
        if k in op and rng.random() < 0.7:
            op[k] = rng.randrange(1000)
    if "opts" in op:
        op["opts"] = rng.choice([{}, {"maxiters": 3}, {"feastol": 1e-3}])
    if "perm" in op:
        op["perm"] = rng.choice(["cyc", "sym", "triv"])
    if "hom" in op:
        op["hom"] = not op["hom"]


def one(c):
    """One call under its faults, in the current process."""
    from .. import seams
    seams.RESEED(int.from_bytes(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()[:4], "big"))
    seams.F.plan, seams.F.calls = c["faults"], {}
    call, args = O.prepare(c["op"])
    seams.F.on = True
    try:
        return O.outcome(call)
    finally:
        seams.F.on = False


def ref_keys(spec):
    return list({json.dumps(c, sort_keys=True): c for c in spec["calls"]}.values())


def run_ref(c):
    return one(c)


def run(spec, refs):
    from .. import seams
    viol, log, count = [], [], {}
    for n, c in enumerate(spec["calls"]):
        before = globs.snap()
        got = json.loads(json.dumps(one(c)))
        ch = globs.changed(before, globs.snap())
        if ch:
            viol.append({"class": "global-state", "msg": "call %d (%s) left process-wide state changed: %s" % (n, json.dumps(c["op"]), "; ".join(ch)[:800])})
            break
        want = refs[json.dumps(c, sort_keys=True)]
        log.append([n, c["op"]["k"], got])
        key = "raised" if isinstance(got, list) and got[:1] == ["raised"] else "answered"
        count[key] = count.get(key, 0) + 1
        count["op:" + c["op"]["k"]] = count.get("op:" + c["op"]["k"], 0) + 1
        if got != want:
            a, b = diff(got, want)
            viol.append({"class": "history", "msg": "call %d (%s) answered %s after %d other calls, but %s in a fresh process" % (
                n, json.dumps(c["op"]), a, n, b)})
            break
    h = hashlib.sha1(json.dumps(log).encode()).hexdigest()
    return {"violations": viol, "log": [[n, k, str(g)[:200]] for n, k, g in log], "digest": h, "fired": seams.F.fired, "work": len(log),
            "count": count, "simtime": 0, "sched": h, "nontrivial": len(log) >= 3}


def diff(a, b):
    a, b = json.dumps(a), json.dumps(b)
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    k = max(0, k - 80)
    return ("..." if k else "") + a[k:k + 300], ("..." if k else "") + b[k:k + 300]


def shrink(spec):
    cs = spec["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            s = copy.deepcopy(spec)
            del s["calls"][i]
            yield s
    for i, c in enumerate(cs):
        if c["faults"]:
            s = copy.deepcopy(spec)
            s["calls"][i]["faults"] = {}
            yield s
            for k in c["faults"]:
                s = copy.deepcopy(spec)
                del s["calls"][i]["faults"][k]
                yield s
