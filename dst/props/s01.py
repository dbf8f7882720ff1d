"""S01: whatever the numeric back ends return, an accepted solution is exact."""
import copy
from .. import corpus as K

TITLE = "solutions are exact valid certificates under untrusted numeric back ends"
RUNS = {"quick": 1000, "thorough": 60000}
TIMEOUT = 60
COVER = 5              # problems per covering session
HANG = False
RULE = ("each run: 1-3 solve calls in one process on problems drawn from 76 listed ones (constrained and unconstrained, 1-4 variables, "
        "true and false), random ones, and 298 documented examples of the structural solver (some with changed coefficients), with random method orders; "
        "every fifth run is a session of 12 problems for the structural solver (its documented examples in turn, their neighbours, random members of its "
        "problem classes), and every fifth a session of 5 problems of a covering corpus (problems chosen so that every structural-solver line which a survey of "
        "8000 problems reached with a solved problem is reached again); meanwhile seeded faults replace the answers of the LP, SDP, root finder, "
        "minimiser and dense linear algebra (errors, failure status, noise, negative/zero/NaN/inf/huge/random vectors, wrong "
        "length) or make SDP back ends unavailable; non-trivial: a fault fired and a call returned")
REAL = ["triples.core solvers end to end", "triples.sdp (transforms, rationalisation, exact decompositions)", "triples.utils.roots",
        "scipy HiGHS, cvxopt, sympy numerics when not faulted"]
STUB = ["the faulted calls of scipy.optimize.linprog/minimize, cvxopt.solvers.sdp, numpy.linalg, Poly.nroots", "clock"]
ASSUME = ["sympy's exact rational arithmetic and expression constructors", "identity decided by exact evaluation at 6 random rational points"]


def gen(rng, tier, index):
    spec = {"ops": [], "faults": {} if rng.random() < 0.12 else K.faults(rng)}
    if index % 5 == 2:
        return structural(rng, spec, index // 5)
    if index % 5 == 4:
        return covering(rng, spec, index // 5)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.2:
            p, m = K.struct_problem(rng, 6), K.methods(rng)
        else:
            p, m = K.problem(rng), K.methods(rng)
        op = {"p": p, "m": m, "form": rng.choice(["poly", "expr", "dict", "dict", "dict", "dict"])}
        if rng.random() < 0.25:
            op["drop"] = rng.choice(["ineqs", "eqs"])
        if rng.random() < 0.25:
            op["cfg"] = {"LinearSOS": rng.choice([{}, {"lift_degree_limit": 1}, {"preordering": "none"}, {"quad_diff_order": 4}]),
                         "SDPSOS": rng.choice([{}, {"lift_degree_limit": 1}, {"degree_limit": 6}, {"deparametrize": False}])}
        spec["ops"].append(op)
    if rng.random() < 0.08:
        spec["nobackend"] = rng.choice([["cvxopt"], ["cvxopt", "picos"]])
    return spec


def structural(rng, spec, k):
    """A session of the structural solver: its documented examples in turn,
    neighbours of them, and random members of its problem classes."""
    kind = rng.choice([None, "raise", "noise", "imag"])
    if kind and rng.random() < 0.7:
        spec["faults"] = {"roots": {"*": {"kind": kind, "seed": rng.randrange(1, 10 ** 6), "amp": rng.choice([1e-12, 1e-9, 1e-6])}}}
    if rng.random() < 0.2:
        spec["faults"]["linalg"] = {"*": {"kind": "raise", "seed": 1}}
    for j in range(12):
        x = rng.random()
        p = K.struct_problem(rng, at=6 * k + j) if j < 6 else K.struct_problem(rng) if x < 0.3 else K.struct_form(rng)
        spec["ops"].append({"p": p, "m": ["StructuralSOS"], "form": rng.choice(["poly", "expr", "dict", "dict", "dict", "dict"])})
    return spec


def covering(rng, spec, k):
    """A session of the covering corpus (see corpus.cover): problems chosen so
    that each line of the structural solvers that a survey could reach with a
    solved problem is reached again."""
    c = K.cover()
    spec["faults"] = {}
    for j in range(COVER):
        m, kind, seed, p = c[(COVER * k + j) % len(c)]
        if rng.random() < 0.15 and "*" not in p[0]:
            p = [K.mutate_coeffs(rng, p[0])] + p[1:]
        if not kind and rng.random() < 0.25:
            kind, seed = rng.choice(["raise", "noise", "imag"]), rng.randrange(1, 10 ** 6)
        op = {"p": p, "m": [m], "form": "dict" if rng.random() < 0.8 else "poly"}
        if kind:
            op["faults"] = {"roots": {"*": {"kind": kind, "seed": seed, "amp": 1e-9}}}
        spec["ops"].append(op)
    return spec


def solve(op):
    """-> (problem expr, ineqs, eqs, names, thunk)"""
    import sympy as sp
    from triples.core.sum_of_squares import sum_of_squares
    poly, gens, iq, eq = K.build(op["p"])
    if op.get("drop") == "ineqs":
        iq = []
    if op.get("drop") == "eqs":
        eq = []
    names, iq_arg, eq_arg = {}, list(iq), list(eq)
    if op["form"] == "dict":
        iq_arg, eq_arg = {}, {}
        for k, g in enumerate(iq):
            s = sp.Function("G%d" % k)(*gens)
            iq_arg[g] = s
            names[s] = g
        for k, g in enumerate(eq):
            s = sp.Function("H%d" % k)(*gens)
            eq_arg[g] = s
            names[s] = g
    arg = poly.as_expr() if op["form"] == "expr" else poly
    return poly, iq, eq, names, (lambda: sum_of_squares(arg, iq_arg, eq_arg, method_order=op["m"], configs=op.get("cfg")))


def run(spec):
    from .. import seams
    from .. import oracle
    import hashlib
    viol, log, count = [], [], {}
    seams.F.plan = spec["faults"]
    block(spec.get("nobackend", ()))
    work = 0
    for k, op in enumerate(spec["ops"]):
        poly, iq, eq, names, call = solve(op)
        what = "%s on %s | %s, methods %s" % (op["p"][0], op["p"][2] if op.get("drop") != "ineqs" else "", op["p"][3], op["m"])
        if "faults" in op:
            seams.F.plan, seams.F.calls = op["faults"], {}
        else:
            seams.F.plan = spec["faults"]
        seams.F.on = True
        seams.CLOCK.on = True
        n0 = len(seams.F.log)
        try:
            sol = call()
        except Exception as e:
            import traceback
            sol = None
            tb = traceback.extract_tb(e.__traceback__)
            at = [f for f in tb if "/triples/" in f.filename][-1:]
            at = "%s:%s" % (at[0].filename.split("/triples/")[1], at[0].name) if at else "?"
            log.append([k, what, "raised", type(e).__name__, at, seams.F.log[n0:]])
            viol.append({"class": "escape", "msg": "%s: %s: %s escaped (from %s) after numeric faults %s" % (
                what, type(e).__name__, str(e)[:200], at, seams.F.log[n0:])})
            continue
        finally:
            seams.F.on = False
            seams.CLOCK.on = False
        work += 1
        if sol is None:
            log.append([k, what, "none", seams.F.log[n0:]])
            count["none"] = count.get("none", 0) + 1
            continue
        log.append([k, what, "solution", type(sol).__name__, bool(sol.is_equal), str(sol.solution)[:300], seams.F.log[n0:]])
        if not sol.is_equal:
            viol.append({"class": "inexact", "msg": "%s: an inexact solution was returned" % what})
            continue
        if not poly.domain.is_Exact:
            continue
        vs, pr = oracle.check_certificate(poly.as_expr(), iq, eq, sol.solution, names=names)
        for c, n in pr.items():
            count[c] = count.get(c, 0) + n
        count["solved"] = count.get("solved", 0) + 1
        if len(seams.F.log) > n0:
            count["solved_after_fault"] = count.get("solved_after_fault", 0) + 1
        for c, m in vs:
            viol.append({"class": c, "msg": "%s: %s" % (what, m)})
    h = hashlib.sha1(repr(log).encode()).hexdigest()
    return {"violations": viol, "log": log, "digest": h, "fired": seams.F.fired, "work": work, "count": count,
            "simtime": seams.CLOCK.t - seams.CLOCK.base, "sched": hashlib.sha1(repr(seams.F.log).encode()).hexdigest(),
            "nontrivial": bool(seams.F.fired and work) or "nobackend" in spec}


def block(names):
    """Make optional back-end packages unavailable."""
    import sys
    for n in names:
        from .. import seams
        seams.F.fire("backend-missing:" + n)
        for m in [m for m in sys.modules if m == n or m.startswith(n + ".")]:
            sys.modules[m] = None
        sys.modules[n] = None


def shrink(spec):
    for i in range(len(spec["ops"])):
        if len(spec["ops"]) > 1:
            s = copy.deepcopy(spec)
            del s["ops"][i]
            yield s
    yield from K.shrink_plan(spec)
    for i, op in enumerate(spec["ops"]):
        for k in ("cfg", "drop", "faults"):
            if k in op:
                s = copy.deepcopy(spec)
                del s["ops"][i][k]
                yield s
        if op["m"] is None or len(op["m"]) > 1:
            for m in (op["m"] or K.METHODS):
                s = copy.deepcopy(spec)
                s["ops"][i]["m"] = [m]
                yield s
        if op["form"] != "poly":
            s = copy.deepcopy(spec)
            s["ops"][i]["form"] = "poly"
            yield s
    if "nobackend" in spec:
        s = copy.deepcopy(spec)
        del s["nobackend"]
        yield s
