"""S05: the text of a solution depends on the solution and the chosen style only."""
import copy
import hashlib
import json
import random

TITLE = "rendering a solution is independent of the schedule and of what was rendered before"
RUNS = {"quick": 700, "thorough": 30000}
TIMEOUT = 75
HANG = False
RULE = ("each run: 2-4 tasks render 1-4 solutions (generated cyclic/symmetric expressions and real proofs) in all output forms under one "
        "user-chosen printing style, preempted at every repository source line, some dying from injected errors in the middle; every "
        "text is compared with a fresh process rendering only that, the style in force must be unchanged afterwards, and the "
        "re-readable form of exact proofs is parsed back and compared with the problem; non-trivial: two tasks interleaved or an error was injected")
REAL = ["triples.utils.expression (cyclic expressions, solutions, printers)", "triples.core.structsos/linsos for the real proofs",
        "sympy printers", "triples.utils.text_process (reading back)"]
STUB = ["OS thread scheduler (simulated)", "clock (simulated)"]
ASSUME = ["preemption happens only at source-line boundaries of repository code"]

C3, S3, C4, S2 = [[1, 2, 0]], [[1, 2, 0], [1, 0, 2]], [[1, 2, 3, 0]], [[1, 0]]
GROUPS = [("abc", C3), ("abc", C3), ("abc", S3), ("xyz", C3), ("abcd", C4), ("ab", S2)]
PROOFS = [("s(a2-ab)", "abc", C3, "StructuralSOS"), ("s(a(a-b)(a-c))", "abc", C3, "StructuralSOS"), ("s(a2)2-3s(a3b)", "abc", C3, "StructuralSOS"),
          ("s(a3)-3abc", "abc", S3, "LinearSOS"), ("s(a2b)-3abc", "abc", C3, "LinearSOS"), ("s(a5)-s(a4b)", "abc", C3, "LinearSOS"),
          ("a2-2ab+b2", "ab", S2, "StructuralSOS"), ("s(a4)-s(a3b)", "abc", C3, "SDPSOS"), ("p(a+b)-8abc", "abc", S3, "LinearSOS"),
          ("s(a2b2)-abcs(a)", "abc", S3, "StructuralSOS"), ("s(a/(b+c))-3/2", "abc", C3, "StructuralSOS")]
OPS = ["latex", "txt", "formatted", "to_latex", "to_txt", "to_formatted", "str", "repr", "splatex", "rewrite", "doit", "eq", "base_latex",
       "base_txt", "base_formatted", "fraction", "shown", "signsimp", "xreplace"]


def rexpr(r, depth):
    """Random expression tree (json) over symbol indices."""
    x = r.random()
    if depth <= 0 or x < 0.15:
        return r.choice([["sym", r.randrange(4)], ["sym", r.randrange(4)], ["num", r.choice([1, 2, 3, -1, "1/2", "-2/3"])]])
    if x < 0.35:
        return ["add"] + [rexpr(r, depth - 1) for _ in range(r.choice([2, 2, 3]))]
    if x < 0.55:
        return ["mul"] + [rexpr(r, depth - 1) for _ in range(r.choice([2, 2, 3]))]
    if x < 0.7:
        return ["pow", rexpr(r, depth - 1), r.choice([2, 2, 3, 4])]
    if x < 0.9:
        return ["sum", rexpr(r, depth - 1)]
    return ["prod", rexpr(r, depth - 1)]


def rsol(r):
    if r.random() < 0.3:
        return ["proof", r.randrange(len(PROOFS))]
    return ["expr", rexpr(r, r.choice([2, 3, 3])), rexpr(r, 1) if r.random() < .3 else None, r.randrange(len(GROUPS)), r.random() < .85]


def gen(rng, tier, index):
    sols = [rsol(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    tasks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        tasks.append([[rng.choice(OPS), rng.randrange(len(sols))] for _ in range(rng.choice([1, 2, 3, 5]))])
    spec = {"sols": sols, "tasks": tasks, "style": {}, "errors": []}
    if rng.random() < 0.5:
        spec["style"] = {"parens": rng.random() < .5, "full": rng.random() < .3, "with_cyc": rng.random() < .5,
                         "environ": rng.choice(["aligned", "align*", None]), "sort": rng.random() < .5}
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2])):
            spec["errors"].append([rng.randrange(len(tasks)), rng.choice([1, 5, 20, 60]) + rng.randrange(40),
                                   rng.choice(["MemoryError", "KeyboardInterrupt", "RecursionError"])])
    if rng.random() < 0.3:
        spec["policy"] = {"mode": "pct", "depth": rng.choice([1, 2, 3, 5]), "span": rng.choice([100, 500, 3000])}
    else:
        spec["policy"] = {"mode": "random", "p": rng.choice([0.5, 0.2, 0.1, 0.05])}
    return spec


def build(s):
    import sympy as sp
    from sympy.combinatorics import Permutation, PermutationGroup
    from triples.utils.expression.cyclic import CyclicSum, CyclicProduct
    from triples.utils.expression.solution import SolutionSimple
    from triples.utils.text_process import pl
    if s[0] == "proof":
        text, g, perm, m = PROOFS[s[1]]
        gens = sp.symbols(" ".join(g))
        perm = PermutationGroup([Permutation(p) for p in perm])
        from triples.gui.sos_manager import SOS_Manager
        poly = pl(text, gens=gens, perm=perm)
        sol = SOS_Manager.sum_of_squares(poly, list(gens), [], gens, perm, [m], {})
        return sol, gens, perm, True
    _, num, den, gi, eq = s
    g, perm = GROUPS[gi]
    gens = sp.symbols(" ".join(g))
    perm = PermutationGroup([Permutation(p) for p in perm])

    def mk(e):
        if e[0] == "sym":
            return gens[e[1] % len(gens)]
        if e[0] == "num":
            return sp.Rational(e[1])
        if e[0] == "add":
            return sp.Add(*[mk(x) for x in e[1:]])
        if e[0] == "mul":
            return sp.Mul(*[mk(x) for x in e[1:]])
        if e[0] == "pow":
            return mk(e[1]) ** e[2]
        if e[0] == "sum":
            return CyclicSum(mk(e[1]), gens, perm)
        return CyclicProduct(mk(e[1]), gens, perm)
    expr = mk(num)
    if den is not None:
        d = mk(den)
        expr = expr / d if d != 0 else expr
    return SolutionSimple(problem=sp.Poly(gens[0] ** 2, *gens), solution=expr, is_equal=eq), gens, perm, False


def setstyle(st):
    from triples.utils.expression.cyclic import CyclicExpr
    from triples.utils.expression.solution import Solution
    if st:
        CyclicExpr.PRINT_WITH_PARENS = st["parens"]
        CyclicExpr.PRINT_FULL = st["full"]
        Solution.PRINT_CONFIGS.update({"WITH_CYC": st["with_cyc"], "MULTILINE_ENVIRON": st["environ"],
                                       "MULTILINE_ALLOW_SORT": st["sort"]})


def getstyle():
    from triples.utils.expression.cyclic import CyclicExpr, CyclicSum, CyclicProduct
    from triples.utils.expression.solution import Solution, SolutionSimple
    return [CyclicExpr.PRINT_WITH_PARENS, CyclicExpr.PRINT_FULL, CyclicSum.PRINT_WITH_PARENS, CyclicSum.PRINT_FULL,
            CyclicProduct.PRINT_WITH_PARENS, CyclicProduct.PRINT_FULL, sorted(map(str, Solution.PRINT_CONFIGS.items())),
            sorted(map(str, SolutionSimple.PRINT_CONFIGS.items()))]


def render(op, b):
    import sympy as sp
    from triples.utils.expression.solution import Solution
    sol, gens, perm, _ = b
    if sol is None:
        return None
    try:
        if op == "latex":
            return sol.str_latex
        if op == "txt":
            return sol.str_txt
        if op == "formatted":
            return sol.str_formatted
        if op.startswith("to_"):
            return sol.to_string(mode=op[3:])
        if op == "str":
            return str(sol.solution)
        if op == "repr":
            return repr(sol.solution) + repr(sol)
        if op == "splatex":
            return sp.latex(sol.solution)
        if op == "rewrite":
            s = sol.rewrite_symmetry(gens, perm)
            return s.str_txt + s.str_latex
        if op == "doit":
            return str(sol.doit().solution)
        if op == "eq":
            return str(sol.as_eq()) + sol._repr_latex_()
        if op.startswith("base_"):
            p = getattr(Solution, "str_" + op[5:])
            return p.fget(sol)
        if op == "fraction":
            return str(sol.as_fraction())
        if op == "shown":
            return "%s %r" % (sol, [sol.solution, (sol.solution,)])
        if op == "signsimp":
            return sol.signsimp().str_formatted
        if op == "xreplace":
            return sol.xreplace({gens[0]: gens[0] + 1}).str_txt
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, str(e)[:300])


def ref_keys(spec):
    out = {}
    for ops in spec["tasks"]:
        for op, i in ops:
            k = [op, spec["sols"][i], spec["style"]]
            out[json.dumps(k, sort_keys=True)] = k
    return [out[k] for k in sorted(out)]


def run_ref(key):
    op, s, style = key
    setstyle(style)
    return render(op, build(s))


def readback(b, text):
    """The re-readable form of an exact proof, parsed by the project's own
    reader, must state the problem itself."""
    import sympy as sp
    from triples.utils.text_process import pl
    from .. import oracle
    sol, gens, perm, proof = b
    if not proof or sol is None or "raised" in text:
        return None
    l, r = text.split("=")
    name = l[l.index("f("):]
    L = pl(l.replace(name, "(1)"), gens=gens, perm=perm)
    R = pl(r, gens=gens, perm=perm)
    if L is None or R is None:
        return "cannot be read back"
    w = oracle.identity_witness(sp.expand(L.as_expr()) * sol.problem.as_expr(), sp.expand(R.as_expr()))
    return None if w is None else "does not state the problem (witness %s)" % w


def run(spec, refs):
    from .. import kernel, seams
    import builtins
    setstyle(spec["style"])
    built = [build(s) for s in spec["sols"]]
    style0 = getstyle()
    sim = kernel.Sim(random.Random(spec["seed"]), spec["policy"], (seams.REPO + "/",))
    seams.CLOCK.on = True
    out = []
    broken = set()

    def body(n, ops):
        for k, (op, i) in enumerate(ops):
            try:
                t = render(op, built[i])
            except KeyboardInterrupt:
                t = "raised"
            out.append((n, k, op, i, t))
            sim.event("text", n, op, i, hashlib.sha1(str(t).encode()).hexdigest()[:8], n in broken)
            broken.discard(n)
    plan = {}
    for n, step, exc in spec["errors"]:
        plan.setdefault(n, []).append([step, exc])
    hit = {}

    def hook(t, code, line):
        todo = plan.get(t.idx)
        if not todo or "/triples/" not in code.co_filename:
            return
        todo[0][0] -= 1
        if todo[0][0] <= 0:
            exc = todo.pop(0)[1]
            seams.F.fire("render:" + exc)
            broken.add(t.idx)
            hit[t.idx] = hit.get(t.idx, 0) + 1
            bad.append((t.idx, sum(1 for o in out if o[0] == t.idx)))
            raise getattr(builtins, exc)("injected")
    bad = []
    sim.hooks.append(hook)
    for n, ops in enumerate(spec["tasks"]):
        sim.spawn(body, n, ops, name="task%d" % n)
    sim.run()
    viol = []
    if sim.abort is not None:
        viol.append({"class": "liveness", "msg": "run did not quiesce: %s" % sim.abort})
    style1 = getstyle()
    if style1 != style0:
        viol.append({"class": "style-changed", "msg": "the printing style in force changed from %s to %s after %s" % (style0, style1, spec["tasks"])})
    spoiled = set(bad)
    n_cmp = n_read = 0
    cache = {}
    for n, k, op, i, t in out:
        if (n, k) in spoiled:
            continue
        want = refs[json.dumps([op, spec["sols"][i], spec["style"]], sort_keys=True)]
        n_cmp += 1
        if t != want:
            viol.append({"class": "text-differs", "msg": "%s of %s (style %s): %r but rendered alone %r" % (op, json.dumps(spec["sols"][i]), spec["style"], t, want)})
    # afterwards, sequentially
    for i, b in enumerate(built):
        if b[3] and b[0] is not None:
            n_read += 1
            w = readback(b, render("formatted", b))
            if w:
                viol.append({"class": "readback", "msg": "%s: %r %s" % (PROOFS[spec["sols"][i][1]], render("formatted", b), w)})
    h = hashlib.sha1(repr((sim.log, out)).encode()).hexdigest()
    return {"violations": viol, "points": sim.points, "steps": sim.total, "switches": sim.switches,
            "simtime": seams.CLOCK.t - seams.CLOCK.base, "fired": seams.F.fired, "digest": h,
            "sched": hashlib.sha1(repr(sim.points).encode()).hexdigest(), "log": [list(map(str, e)) for e in sim.log[-40:]],
            "work": len(out), "count": {"texts_compared": n_cmp, "read_back": n_read},
            "nontrivial": bool(sim.switches > len(spec["tasks"]) or seams.F.fired)}


def shrink(spec):
    for n in range(len(spec["tasks"])):
        if len(spec["tasks"]) > 1:
            s = copy.deepcopy(spec)
            del s["tasks"][n]
            s["errors"] = [e for e in s["errors"] if e[0] != n]
            yield s
        for k in range(len(spec["tasks"][n])):
            if len(spec["tasks"][n]) > 1:
                s = copy.deepcopy(spec)
                del s["tasks"][n][k]
                yield s
    if spec["style"]:
        s = copy.deepcopy(spec)
        s["style"] = {}
        yield s
    for k in range(len(spec["errors"])):
        s = copy.deepcopy(spec)
        del s["errors"][k]
        yield s
    for i, sol in enumerate(spec["sols"]):
        if sol[0] == "expr":
            if sol[2] is not None:
                s = copy.deepcopy(spec)
                s["sols"][i][2] = None
                yield s
            for sub in sol[1][1:]:
                if isinstance(sub, list):
                    s = copy.deepcopy(spec)
                    s["sols"][i][1] = sub
                    yield s
