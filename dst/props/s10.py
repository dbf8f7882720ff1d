"""S10: an interrupted call leaves the process as good as fresh."""
import copy
import hashlib
import json
from .. import corpus as K
from .. import globs
from .. import ops as O
from . import s08

TITLE = "an interrupted call propagates the interruption and leaves the process as good as fresh"
RUNS = {"quick": 700, "thorough": 60000}
TIMEOUT = 30
HANG = False
RULE = ("every third run is a sweep: one call (each kind of call in turn) interrupted by KeyboardInterrupt at up to 12 different source lines that some handler protects, then compared; the other runs: 0-2 calls, then 1-2 calls interrupted at a seeded point (KeyboardInterrupt, MemoryError or RecursionError at the k-th repository source "
        "line, at the k-th Python function entered anywhere, or KeyboardInterrupt out of a native back-end call), then 1-5 further calls including the interrupted "
        "ones again, each compared with a fresh process; an interrupt that repository code swallows is a violation; non-trivial: the interruption "
        "was delivered and a later answer was compared")
REAL = ["all of triples behind the calls", "scipy, cvxopt, picos, sympy, numpy, pandas"]
STUB = ["delivery of the interruption (sys.monitoring events, back-end seams)"]
ASSUME = ["interruptions arrive at source lines of repository code, at function entries or inside back-end calls",
          "a forked copy of a process that only imported the package is a fresh process"]
EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"]


def gen(rng, tier, index):
    if index % 3 == 1:             # a sweep: the same call interrupted at many protected lines in turn
        op = O.gen_op(rng, [O.KINDS[index // 3 % len(O.KINDS)]])
        v = {"op": op, "int": {"mode": "line", "exc": "KeyboardInterrupt", "spot": 0, "at": 0, "sweep": rng.randrange(1 << 30)}}
        if rng.random() < 0.4:
            v["faults"] = O.gen_faults(rng)
        return {"calls": [v, {"op": copy.deepcopy(op)}]}
    kinds = O.KINDS if rng.random() < 0.6 else rng.sample(O.KINDS, 3)
    pool = [O.gen_op(rng, kinds) for _ in range(rng.randint(1, 4))]
    calls = [{"op": copy.deepcopy(rng.choice(pool))} for _ in range(rng.choice([0, 0, 1, 2]))]
    vict = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        v = {"op": copy.deepcopy(rng.choice(pool))}
        x = rng.random()
        if x < 0.5:
            v["int"] = {"mode": "line", "at": rng.random(), "exc": rng.choice(EXC)}
            if rng.random() < 0.75:        # a source line first, then one of its visits
                v["int"]["spot"] = rng.random()
                v["int"]["guarded"] = rng.random() < 0.6      # a line some handler protects
        elif x < 0.8:
            v["int"] = {"mode": "call", "at": rng.random(), "exc": rng.choice(EXC)}
            if rng.random() < 0.5:
                v["int"]["spot"] = rng.random()
        else:
            v["int"] = {"mode": "backend", "kind": rng.choice(["lp", "sdp", "roots", "linalg", "min"]), "n": rng.choice([0, 0, 1, 2, 4])}
        if v["int"]["mode"] != "backend" and rng.random() < 0.45:
            v["faults"] = O.gen_faults(rng)      # the fallbacks behind a failing back end are interrupted too
            if rng.random() < 0.4:               # a solve whose back end is slightly off: the exact repair has to work
                m, kind = rng.choice([("LinearSOS", "lp"), ("LinearSOS", "lp"), ("SDPSOS", "sdp")])
                v["op"] = {"k": "sos", "p": list(K.PROBLEMS[rng.choice(O.LIGHT)]), "m": [m], "form": "dict", "cfg": {m: {"lift_degree_limit": 0}}}
                v["faults"] = {kind: {"#": {"rate": 1.0, "seed": 1, "specs": [dict(K.fault(rng, kind), kind="noise", amp=rng.choice([1e-7, 1e-5, 1e-3]))]}}}
        vict.append(v)
    after = [{"op": copy.deepcopy(v["op"])} for v in vict]
    for _ in range(rng.randint(0, 3)):
        op = copy.deepcopy(rng.choice(pool + [O.gen_op(rng, kinds)]))
        if rng.random() < 0.4:
            s08.mutate(rng, op)
        after.append({"op": op})
    rng.shuffle(after)
    return {"calls": calls + vict + after}


_GUARDED = {}


def guarded_lines(root):
    """file:line of every repository line inside a try body that has handlers."""
    import ast
    import glob
    if root not in _GUARDED:
        out = _GUARDED[root] = set()
        for f in glob.glob(root + "/triples/**/*.py", recursive=True) + [root + "/web_main.py"]:
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (OSError, SyntaxError):
                continue
            for t in ast.walk(tree):
                if isinstance(t, ast.Try) and t.handlers:
                    for st in t.body:
                        out.update("%s:%d" % (f, k) for k in range(st.lineno, st.end_lineno + 1))
    return _GUARDED[root]


_LATE = {}


def late_lines(root):
    """file:line of the repository's own clean-up code (finally bodies, handlers,
    __exit__): an interruption inside the clean-up itself is not judged by the
    state it was cleaning up."""
    import ast
    import glob
    if root not in _LATE:
        out = _LATE[root] = set()
        for f in glob.glob(root + "/triples/**/*.py", recursive=True) + [root + "/web_main.py"]:
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (OSError, SyntaxError):
                continue
            for t in ast.walk(tree):
                body = []
                if isinstance(t, ast.Try):
                    body = t.finalbody + [st for h in t.handlers for st in h.body]
                elif isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef)) and t.name in ("__exit__", "__enter__", "__aexit__"):
                    body = t.body
                for st in body:
                    out.update("%s:%d" % (f, k) for k in range(st.lineno, st.end_lineno + 1))
    return _LATE[root]


def plain(c):
    return {"op": c["op"], "faults": {}}


def counting(c):
    return {"count": c["op"], "mode": c["int"]["mode"], "faults": c.get("faults", {}), "spots": "spot" in c["int"]}


def victim(it, c, faults):
    """The call, with its own numeric faults, under the interrupter."""
    from .. import seams
    seams.RESEED(int.from_bytes(hashlib.sha1(json.dumps({"op": c, "faults": {}}, sort_keys=True).encode()).digest()[:4], "big"))
    seams.F.plan, seams.F.calls, seams.F.on = copy.deepcopy(faults), {}, bool(faults)
    try:
        call, _ = O.prepare(c)
        return it.run(call)
    finally:
        seams.F.on = False


def ref_keys(spec):
    out = {}
    for c in spec["calls"]:
        if "int" not in c:
            out[json.dumps(plain(c), sort_keys=True)] = plain(c)
        elif c["int"]["mode"] != "backend":
            k = counting(c)
            out[json.dumps(k, sort_keys=True)] = k
    return list(out.values())


def run_ref(c):
    from .. import seams
    if "count" not in c:
        return s08.one(c)
    from ..interrupt import Interrupt
    it = Interrupt(seams.REPO, c["mode"])
    try:
        victim(it, c["count"], c["faults"])
    except Exception:
        pass
    return [["%s:%d" % k, m] for k, m in it.spots.items()] if c["spots"] else it.n


def expand(calls, refs):
    """A sweep becomes one interrupted call per protected line the call executes
    (at most 12 lines and 400000 executed lines)."""
    from .. import seams
    import random
    for c in calls:
        i = c.get("int", {})
        if "sweep" not in i or "key" in i:
            yield c
            continue
        total = refs[json.dumps(counting(c), sort_keys=True)] or []
        rng = random.Random(i["sweep"])
        spots = [t for t in total if t[0] in guarded_lines(seams.REPO)]
        rng.shuffle(spots)
        work = sum(m for _, m in total)
        for key, m in spots[:max(1, min(12, 400000 // (1 + work)))]:
            yield dict(c, int=dict(i, key=[key, rng.choice([1, 1, m, rng.randint(1, m)])]))


def run(spec, refs):
    from .. import seams
    from ..interrupt import Interrupt
    import builtins
    viol, log, count = [], [], {}
    hit = compared = 0
    past = []

    def bump(k):
        count[k] = count.get(k, 0) + 1
    for n, c in enumerate(expand(spec["calls"], refs)):
        if "int" not in c:
            got = json.loads(json.dumps(s08.one(plain(c))))
            want = refs[json.dumps(plain(c), sort_keys=True)]
            log.append([n, c["op"]["k"], str(got)[:200]])
            if got != want:
                a, b = s08.diff(got, want)
                viol.append({"class": "after-interrupt" if hit else "history", "msg": "call %d (%s) answered %s, but %s in a fresh process; earlier: %s" % (
                    n, json.dumps(c["op"]), a, b, past)})
                break
            compared += 1 if hit else 0
            continue
        i = c["int"]
        res, exc = None, None
        before = globs.snap()
        if i["mode"] == "backend":
            seams.RESEED(int.from_bytes(hashlib.sha1(json.dumps(plain(c), sort_keys=True).encode()).digest()[:4], "big"))
            call, args = O.prepare(c["op"])
            seams.F.calls = {}
            seams.F.plan = {i["kind"]: {str(i["n"]): {"kind": "interrupt"}}}
            f0 = len(seams.F.log)
            seams.F.on = True
            try:
                res = O.canon(call())
            except BaseException as e:
                exc = e
            finally:
                seams.F.on = False
            done = len(seams.F.log) > f0
            where, by, ename = "native %s call %d" % (i["kind"], i["n"]), None, "KeyboardInterrupt"
            swallowed = done and not isinstance(exc, KeyboardInterrupt)
        else:
            total = refs[json.dumps(counting(c), sort_keys=True)]
            ename = i["exc"]
            it = Interrupt(seams.REPO, i["mode"], None, getattr(builtins, ename))
            if "key" in i:
                it.spot = tuple(i["key"])
            elif total and "spot" in i:
                if i.get("guarded"):
                    total = [t for t in total if t[0] in guarded_lines(seams.REPO)] or total
                key, m = total[int(i["spot"] * len(total))]
                it.spot = (key, 1 + int(i["at"] * m))
            elif total:
                it.at = 1 + int(i["at"] * total)
            try:
                res = victim(it, c["op"], c.get("faults", {}))
                res = O.canon(res)
            except BaseException as e:
                exc = e
            done = it.raised is not None
            where, by = it.where, it.swallowed
            swallowed = done and ename == "KeyboardInterrupt" and not isinstance(exc, KeyboardInterrupt) and \
                (by is not None and by[0].startswith(seams.REPO))
            if done:
                seams.F.fire("interrupt:%s:%s" % (i["mode"], ename))
        past.append("%s interrupted by %s at %s" % (json.dumps(c["op"]), ename, where) if done else "%s not interrupted" % c["op"]["k"])
        log.append([n, c["op"]["k"], "int", where, type(exc).__name__, by, str(res)[:100]])
        hit += bool(done)
        bump("delivered" if done else "missed")
        if done:
            bump("left:" + type(exc).__name__)
        ch = globs.changed(before, globs.snap()) if i["mode"] != "call" and where not in late_lines(seams.REPO) else []
        if ch:
            viol.append({"class": "global-state", "msg": "call %d (%s), interrupted by %s at %s, left process-wide state changed: %s" % (
                n, json.dumps(c["op"]), ename, where, "; ".join(ch)[:800])})
            break
        if swallowed:
            viol.append({"class": "swallowed", "msg": "call %d (%s): a KeyboardInterrupt at %s did not reach the caller (handled in %s); the call ended with %s" % (
                n, json.dumps(c["op"]), where, by, type(exc).__name__ if exc else str(res)[:200])})
            break
    h = hashlib.sha1(json.dumps(log).encode()).hexdigest()
    return {"violations": viol, "log": log, "digest": h, "fired": seams.F.fired, "work": len(log), "count": count, "simtime": 0, "sched": h,
            "nontrivial": bool(hit and compared)}


def shrink(spec):
    cs = spec["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            s = copy.deepcopy(spec)
            del s["calls"][i]
            yield s
