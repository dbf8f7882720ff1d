"""S09: calls never modify their arguments or the package's shared defaults."""
import copy
import hashlib
import json
from .. import ops as O
from . import s08

TITLE = "calls leave their arguments and the package's defaults unchanged"
RUNS = {"quick": 800, "thorough": 60000}
TIMEOUT = 40
HANG = False
RULE = ("each run: 1-6 public calls from a pool of 34 kinds with every mutable argument (dictionaries of constraints, lists, option dictionaries, numpy arrays, "
        "matrices, dictionaries of matrices, polynomials, solutions) snapshotted exactly; each call finishes, meets faults of the LP/SDP/root/linear-algebra back "
        "ends chosen by content, or is interrupted at a seeded source line or function entry; after each call the arguments and all shared defaults (mutable "
        "default arguments of every public function, DEFAULT_CONFIGS, METHOD_ORDER, SOS_Manager settings) must equal their snapshots; "
        "non-trivial: at least one call had a mutable argument")
REAL = ["all of triples behind the calls", "scipy, cvxopt, picos, sympy, numpy, pandas"]
STUB = ["content-addressed wrappers around linprog, cvxopt, nroots and linear algebra that inject faults", "delivery of interruptions"]
ASSUME = ["a value is unchanged when its exact canonical form (order, shapes, element values, sympy printing and domains) is unchanged"]
EXC = ["KeyboardInterrupt", "MemoryError", "RuntimeError"]


def gen(rng, tier, index):
    kinds = O.KINDS if rng.random() < 0.5 else rng.sample(O.KINDS, 2) if rng.random() < .6 else O.FORMS
    calls = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        c = {"op": O.gen_op(rng, kinds)}
        x = rng.random()
        if x < 0.35:
            c["faults"] = O.gen_faults(rng)
        elif x < 0.55:
            c["int"] = {"mode": rng.choice(["line", "call"]), "at": rng.choice([rng.random(), rng.random() ** 3]), "exc": rng.choice(EXC)}
        calls.append(c)
        if rng.random() < .2:
            c = copy.deepcopy(c)
            s08.mutate(rng, c["op"])
            calls.append(c)
    return {"calls": calls}


def ref_keys(spec):
    out = {}
    for c in spec["calls"]:
        if "int" in c:
            k = {"count": c["op"], "mode": c["int"]["mode"]}
            out[json.dumps(k, sort_keys=True)] = k
    return list(out.values())


def run_ref(k):
    from .. import seams
    from ..interrupt import Interrupt
    call, args = O.prepare(k["count"])
    it = Interrupt(seams.REPO, k["mode"])
    O.outcome(lambda: it.run(call))
    return it.n


def snap(x):
    return json.dumps(O.canon(x, strict=True))


def mutable(x):
    import numpy as np
    import sympy as sp
    if isinstance(x, (dict, list, np.ndarray, sp.MatrixBase)):
        return True
    return isinstance(x, tuple) and any(mutable(v) for v in x)


def run(spec, refs):
    from .. import seams
    from ..interrupt import Interrupt
    import builtins
    viol, log, count = [], [], {}
    D = O.defaults()
    d0 = {k: snap(v) for k, v in D.items()}
    past = []
    nt = 0
    for n, c in enumerate(spec["calls"]):
        op = c["op"]
        seams.RESEED(int.from_bytes(hashlib.sha1(json.dumps(op, sort_keys=True).encode()).digest()[:4], "big"))
        seams.F.plan, seams.F.calls = c.get("faults") or {}, {}
        call, args = O.prepare(op)
        nt += any(mutable(a) for a in args)
        a0 = [snap(a) for a in args]
        before = len(seams.F.log)
        exc, how = None, "finished"
        i = c.get("int")
        if i:
            total = refs[json.dumps({"count": op, "mode": i["mode"]}, sort_keys=True)]
            it = Interrupt(seams.REPO, i["mode"], 1 + int(i["at"] * total) if total else None, getattr(builtins, i["exc"]))
            try:
                it.run(call)
            except BaseException as e:
                exc = e
            if it.raised is not None:
                seams.F.fire("interrupt:%s:%s" % (i["mode"], i["exc"]))
                how = "was interrupted by %s at %s" % (i["exc"], it.where)
        else:
            seams.F.on = True
            try:
                call()
            except Exception as e:
                exc = e
                how = "raised %s" % type(e).__name__
            finally:
                seams.F.on = False
        seams.F.plan = {}
        met = [list(f) for f in seams.F.log[before:]]
        a1 = [snap(a) for a in args]
        log.append([n, op["k"], type(exc).__name__, len(met), hashlib.sha1("".join(a1).encode()).hexdigest()[:10]])
        count["op:" + op["k"]] = count.get("op:" + op["k"], 0) + 1
        for j, (x, y) in enumerate(zip(a0, a1)):
            if x != y:
                p, q = s08.diff(x, y)
                viol.append({"class": "argument", "msg": "call %d (%s) %s and changed its argument %d: %s -> %s (back-end faults %s)" % (
                    n, json.dumps(op), how, j, p, q, met[:4])})
        d1 = {k: snap(v) for k, v in D.items()}
        for k in D:
            if d0[k] != d1[k]:
                viol.append({"class": "default", "msg": "call %d (%s) %s and changed the shared default %s: %s -> %s (earlier: %s)" % (
                    n, json.dumps(op), how, k, d0[k][:300], d1[k][:300], past)})
        if viol:
            break
        past.append("%s %s" % (op["k"], how))
    h = hashlib.sha1(json.dumps(log).encode()).hexdigest()
    return {"violations": viol[:2], "log": log, "digest": h, "fired": seams.F.fired, "work": len(log), "count": count, "simtime": 0, "sched": h,
            "nontrivial": bool(nt)}


def shrink(spec):
    cs = spec["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            s = copy.deepcopy(spec)
            del s["calls"][i]
            yield s
    for i, c in enumerate(cs):
        for k in ("faults", "int"):
            if c.get(k):
                s = copy.deepcopy(spec)
                s["calls"][i].pop(k)
                yield s
        for m, p in (c.get("faults") or {}).items():
            s = copy.deepcopy(spec)
            s["calls"][i]["faults"].pop(m)
            yield s
