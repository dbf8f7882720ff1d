"""S12: the page files and shows every answer with the request it answers."""
import copy
import hashlib
import json
import os
import subprocess

TITLE = "the page files and shows every answer with the request it answers"
RUNS = {"quick": 900, "thorough": 40000}
TIMEOUT = 60
HANG = False
RULE = ("each run: one page session of 8-60 user actions (typing, variables, symmetry, methods, coefficients, solve, rewriting tools, forms of display, "
        "history clicks; some sessions flood the history past its limit) interleaved by the seed with the deliveries of HTTP answers, socket events and connections in any order, "
        "lost connections, failed and refused requests, network errors, failed solves and clock steps backwards; at the end everything pending is delivered and every history entry "
        "is chosen; non-trivial: at least two requests reached the server and something was answered")
REAL = ["triples.html (markup, inline scripts, event attributes)", "static/js/socket.js, history.js, on_change.js, visualization.js (without WebGL)"]
STUB = ["the browser: a small DOM written for this check, run in node", "socket.io client, axios, MathJax (records the formula), html2canvas", "the server (answers with distinct contents)", "clock, timers"]
ASSUME = ["coefficients of four variables need WebGL, which the simulated browser has not: not compared",
          "the contents of the server's answers are stand-ins: that they are right is S03 and S04"]
TEXTS = ["a2+b2-2ab", "s(a2-ab)", "s(a)", "a^2*(b+c)", " a+b ", "s(a3)-3abc", "ab", "s(a4)-s(a2bc)", "p(a+b)-8abc", "b2+a", "(a-b)2"]
ODD = ["", "   ", "a\u2265b", "a" * 700, "b" * 601]
TOOLS = ["rotate", "rotate_reflect", "reflect", "factor", "expand", "expand full", "homogenize", "dehomogenize0", "dehomogenize1", "abcd2xyzw"]
METHODS = ["StructuralSOS", "LinearSOS", "SymmetricSOS", "SDPSOS"]


def action(rng, texts):
    x = rng.random()
    if x < .26:
        return [["type", rng.choice(texts) if rng.random() < .93 else rng.choice(ODD)]]
    if x < .32:
        return [["gens", rng.choice(["abc", "abc", "abcd", "ab", "xyz", "cba", "a"])]]
    if x < .38:
        c = rng.choice(["cyc", "sym", "custom"])
        return [["perm", c, rng.choice(["[[1,0,2]]", "[[1,2,0],[1,0,2]]", "[]", "[[0,1,2]]"])]]
    if x < .42:
        return [["method", rng.choice(METHODS), rng.random() < .5]]
    if x < .6:
        return [["sos"]]
    if x < .72:
        return [["go"]]
    if x < .8:
        return [["tool", rng.choice(TOOLS)]]
    if x < .87:
        return [["show", rng.choice(["latex", "txt", "formatted"])]]
    if x < .95:
        return [["click", rng.randrange(8)]]
    return [[rng.choice(["close", "esc"])]]


def gen(rng, tier, index):
    ops, faulty = [], rng.random() < .6
    texts = rng.sample(TEXTS, rng.choice([1, 2, 3, 6, 11]))
    p = rng.choice([.2, .5, .5, .8])
    if index % 20 == 7:
        for k in range(rng.randint(95, 112)):
            ops += [["type", "a%d" % k if rng.random() < .95 else "a"], [rng.choice(["go", "sos"])], ["clock", rng.choice([1, 40])]]
            if rng.random() < .4:
                ops.append(["deliver", rng.randrange(50)])
    for _ in range(rng.randint(8, 60)):
        ops.append(["clock", rng.choice([1, 200, 5000])])
        if faulty and rng.random() < .06:
            ops.append(["clock", -rng.choice([1, 150, 200, 4000, 10 ** 7])])
        if rng.random() < p:
            ops.append(["deliver", rng.randrange(1000)])
        elif faulty and rng.random() < .08:
            ops.append(rng.choice([["break", rng.randrange(1000)], ["drop", rng.randrange(4)]]))
        else:
            ops += action(rng, texts)
    return {"ops": ops, "outcomes": [rng.choice(["ok"] * 7 + ["fail", "fail"] + (["refuse", "e500"] if faulty else ["ok"])) for _ in range(17)],
            "degs": [rng.choice([0, 1, 2, 2, 3, 4]) for _ in range(7)]}


def run(spec):
    spec = {k: spec[k] for k in ("ops", "outcomes", "degs")}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(["node", os.path.join(here, "page.js")], input=json.dumps(spec).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={**os.environ, "DST_REPO": os.environ.get("DST_REPO", "/repo")})
    if p.returncode or not p.stdout:
        msg = p.stderr.decode(errors="replace")[-1500:]
        return {"violations": [{"class": "load", "msg": "the page's scripts do not run: " + msg}], "log": [], "digest": hashlib.sha1(msg.encode()).hexdigest(),
                "fired": {}, "work": 0, "count": {}, "simtime": 0, "sched": "", "nontrivial": False}
    r = json.loads(p.stdout)
    for k, n in (("reordered-delivery", r["order"].count("h") + r["order"].count("e")),):
        if n:
            r["fired"][k] = n
    return {"violations": r["violations"], "log": [r["order"][:400], r["errors"]], "digest": hashlib.sha1(p.stdout).hexdigest(), "fired": r["fired"], "work": r["posts"],
            "count": {"requests": r["posts"], "history entries": r["entries"], "events": r["events"]}, "simtime": r["simtime"],
            "sched": hashlib.sha1(r["order"].encode()).hexdigest(), "nontrivial": r["posts"] >= 2 and r["answered"] > 0}


def shrink(spec):
    n, ops = len(spec["ops"]), spec["ops"]
    step = max(1, n // 2)
    while step:
        for i in range(0, n, step):
            s = copy.deepcopy(spec)
            s["ops"] = ops[:i] + ops[i + step:]
            if s["ops"]:
                yield s
        step //= 2
    for i, o in enumerate(spec["outcomes"]):
        if o != "ok":
            s = copy.deepcopy(spec)
            s["outcomes"][i] = "ok"
            yield s
