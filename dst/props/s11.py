"""S11: the randomised global optimisers are right for every sequence of random draws."""
import copy
import hashlib
import json
import random

TITLE = "randomised global optimisation is correct for every random draw"
RUNS = {"quick": 900, "thorough": 60000}
TIMEOUT = 60
HANG = False
RULE = ("each run: one random problem (monotonic, difference of monotonic, or polynomial; 1-3 variables, box, 0-3 constraints, optionally a known upper "
        "bound) solved 2-5 times, each time with a seeded strategy deciding which of the pending vertices is split next (uniform, oldest, newest, "
        "alternating, bursts, seeded numpy stream), some calls stopped after a seeded number of iterations, some with a callback failing at a seeded evaluation or a root solver that only reaches "
        "a seeded accuracy; non-trivial: at least two distinct draw sequences were played")
REAL = ["triples.utils.roots.monotonic_opt (rpa_monotonic, rpa_gmop, rpa_polyopt, poly_as_dm)", "scipy root_scalar, sympy, numpy"]
STUB = ["the random choice (numpy.random.choice decided by the simulator)", "failing callbacks"]
ASSUME = ["the reference optimum is the best feasible value on a dense grid: points between grid points are not consulted",
          "convergence itself is not claimed: a run that reports that it did not converge is only checked for a truthful point"]
STRAT = ["uniform", "first", "last", "alternate", "burst", "numpy"]


def term(rng, n, hi):
    e = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
    if not any(e):
        e[rng.randrange(n)] = 1
    return [rng.choice(hi), e]


def mono(rng, n):
    return [term(rng, n, [.5, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]


def poly(rng, n, d):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        e = [0] * n
        for _ in range(rng.randint(0, d)):
            e[rng.randrange(n)] += 1
        out.append([rng.choice([-3, -2, -1, 1, 1, 2, 3]), e])
    return out


def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 2, 3])
    kind = rng.choice(["mono", "gmop", "poly", "poly"])
    s = {"kind": kind, "n": n, "f": mono(rng, n)}
    if kind == "mono":
        s.update(b=[rng.choice([1., 2., 3.]) for _ in range(n)], g=mono(rng, n), h=mono(rng, n),
                 gc=rng.uniform(0.2, 1.2), hc=rng.uniform(0, 1.1), tol=.05)
    elif kind == "gmop":
        s.update(b=[rng.choice([1., 2.]) for _ in range(n)], f2=mono(rng, n), tol=.1,
                 gh=[[mono(rng, n), mono(rng, n), rng.uniform(-.5, .5)] for _ in range(rng.choice([0, 1, 1, 2]))])
    else:
        a = rng.choice([0., -1., -2., .5, -.5, -1.5])
        s.update(f=poly(rng, n, rng.choice([1, 2, 3])), iq=[poly(rng, n, rng.choice([0, 1, 1, 2])) for _ in range(rng.choice([0, 1, 1, 2]))],
                 eq=[poly(rng, n, rng.choice([1, 2])) for _ in range(rng.choice([0, 0, 0, 1]))], a=a, b=a + rng.choice([1., 2.]), tol=rng.choice([.1, .3]), et=.2,
                 vec=rng.random() < .3)
        if s["vec"] and rng.random() < .7:
            s["a"] = [rng.choice([0., -1., -2., .5, -.5, -1.5]) for _ in range(n)]
            s["b"] = [t + rng.choice([1., 2., .5]) for t in s["a"]]
    s["cbv"] = rng.random() < 0.2
    s["calls"] = []
    for _ in range(rng.randint(2, 5)):
        c = {"how": rng.choice(STRAT), "seed": rng.randrange(1 << 30)}
        if rng.random() < .35:
            c["mi"] = rng.choice([1, 2, 3, 5, 8, 12, 20, 40, 80])
        x = rng.random()
        if x < .12 and kind != "poly":
            c["fail"] = [rng.choice(["f", "g", "h"]), rng.randint(1, 60)]
        elif x < .3:
            c["root"] = rng.choice([1e-6, 1e-9, 1e-4])
        s["calls"].append(c)
    return s


class Chooser:
    """Decides which pending vertex is split next."""

    def __init__(self, how, seed, real):
        self.r, self.how, self.k, self.log, self.real = random.Random(seed), how, 0, [], real

    def __call__(self, a, size=None, replace=True, p=None):
        if size is not None or p is not None or not isinstance(a, int):
            return self.real(a, size, replace, p)
        self.k += 1
        h = self.how
        if h == "first":
            i = 0
        elif h == "last":
            i = a - 1
        elif h == "alternate":
            i = 0 if self.k % 2 else a - 1
        elif h == "burst":
            if self.k % 7 == 1:
                self.mode = self.r.choice([0, 1, 2])
            i = [0, a - 1, self.r.randrange(a)][self.mode]
        elif h == "uniform":
            i = self.r.randrange(a)
        else:
            i = int(self.real(a))
        self.log.append(i)
        return i


class Broken(Exception):
    pass


def fn(terms, const=0.):
    import numpy as np
    C = [c for c, _ in terms]
    E = np.array([e for _, e in terms], dtype=float)

    def f(x):
        x = np.asarray(x, dtype=float)
        return float(sum(c * np.prod(x ** e) for c, e in zip(C, E)) + const)
    return f


def vec(terms, X, const=0.):
    v = const
    for c, e in terms:
        m = c
        for x, k in zip(X, e):
            if k:
                m = m * x ** k
        v = v + m
    return v


def coarse(tol):
    """A root solver as documented, accurate only to `tol`: the largest known
    point where the function is not positive."""
    def solve(f, a, b):
        if f(b) <= 0:
            return float(b)
        if f(a) > 0:
            return float(a)
        lo, hi = float(a), float(b)
        while hi - lo > tol:
            m = (lo + hi) / 2
            if f(m) <= 0:
                lo = m
            else:
                hi = m
        return lo
    return solve


def problem(s):
    """(solve(kwargs, fail) -> result, grid feasibility data)"""
    import numpy as np
    import sympy as sp
    from triples.utils import rpa_monotonic, rpa_gmop, rpa_polyopt
    n = s["n"]
    N = {1: 1001, 2: 61, 3: 17}[n]
    if s["kind"] == "mono":
        a, b = np.zeros(n), np.array(s["b"])
        f = fn(s["f"])
        gc, hc = s["gc"] * fn(s["g"])(b), s["hc"] * fn(s["h"])(b)
        g, h = fn(s["g"], -gc), fn(s["h"], -hc)
        F = lambda X: vec(s["f"], X)
        C = [lambda X: -vec(s["g"], X, -gc), lambda X: vec(s["h"], X, -hc)]
        tol = s["tol"] * max(f(b), .1)
        fs, call = {"f": f, "g": g, "h": h}, lambda q, **k: rpa_monotonic(q["f"], q["g"], q["h"], list(s["a0"]), list(b), tol=tol, **k)
    elif s["kind"] == "gmop":
        a, b = np.zeros(n), np.array(s["b"])
        f1, f2 = fn(s["f"]), fn(s["f2"])
        gh = [(fn(g), fn(h, c)) for g, h, c in s["gh"]]
        F = lambda X: vec(s["f"], X) - vec(s["f2"], X)
        C = [lambda X, g=g, h=h, c=c: vec(h, X, c) - vec(g, X) for g, h, c in s["gh"]]
        tol = s["tol"] * max(f1(b), f2(b), .1)
        fs = {"f": f1, "g": gh[0][0] if gh else f2, "h": f2}
        call = lambda q, **k: rpa_gmop((q["f"], q["h"]), [(q["g"] if i == 0 else g, h) for i, (g, h) in enumerate(gh)], list(a), list(b), tol=tol, **k)
    else:
        gens = sp.symbols("x y z")[:n]
        a, b = np.zeros(n) + s["a"], np.zeros(n) + s["b"]

        def P(t):
            return sp.Poly(sum((c * sp.prod([x ** k for x, k in zip(gens, e)]) for c, e in t), sp.S.Zero), *gens)
        f, iq, eq = P(s["f"]), [P(t) for t in s["iq"]], [P(t) for t in s["eq"]]
        F = lambda X: vec(s["f"], X)
        C = [lambda X, t=t: vec(t, X) for t in s["iq"]] + [lambda X, t=t: s["et"] - abs(vec(t, X)) for t in s["eq"]]
        tol, fs = s["tol"], {}
        A, B = (list(a), list(b)) if s["vec"] else (s["a"], s["b"])
        call = lambda q, **k: rpa_polyopt(f, iq, eq, A, B, tol=tol, eqtol=s["et"], **k)
    s["a0"] = [float(v) for v in a]
    X = np.meshgrid(*[np.linspace(lo, hi, N) for lo, hi in zip(a, b)])
    ok = np.ones(X[0].shape, bool)
    for c in C:
        ok &= np.broadcast_to(c(X), ok.shape) >= 1e-9
    v = np.broadcast_to(F(X), ok.shape)
    best = float(v[ok].min()) if ok.any() else None
    return call, fs, F, C, a, b, tol, best, float(v.max())


def run(spec):
    import numpy as np
    import warnings
    from .. import seams
    warnings.simplefilter("ignore")
    s = copy.deepcopy(spec)
    call, fs, F, C, a, b, tol, best, top = problem(s)
    scale = 1 + abs(float(F(list(np.maximum(abs(a), abs(b))))))
    viol, log, count, seqs, found = [], [], {}, set(), []

    def bump(k):
        count[k] = count.get(k, 0) + 1

    def bad(cls, msg):
        viol.append({"class": cls, "msg": "%s (problem %s)" % (msg, json.dumps({k: v for k, v in spec.items() if k != "calls"}))})
    real = np.random.choice
    for n, c in enumerate(s["calls"]):
        ch = Chooser(c["how"], c["seed"], real)
        np.random.seed(c["seed"])
        kw = {"max_iter": c.get("mi", 300 if s["kind"] == "mono" else 150)}
        if "root" in c:
            kw["root_solver"] = coarse(c["root"])
            seams.F.fire("root:coarse")
        if s["cbv"]:
            kw["cbv"] = best + 2 * tol if best is not None else top + .2 * scale + 2 * tol
            bump("cbv")
        q, left, raised = dict(fs), [0], []
        if "fail" in c:
            name, left[0] = c["fail"]
            inner = q[name]

            def failing(x):
                left[0] -= 1
                if left[0] == 0:
                    seams.F.fire("callback:raise")
                    raised.append(1)
                    raise Broken("injected callback failure")
                return inner(x)
            q[name] = failing
        np.random.choice = ch
        res, exc = None, None
        try:
            res = call(q, **kw)
        except Exception as e:
            exc = e
        finally:
            np.random.choice = real
        bump("draws:" + c["how"])
        seqs.add(tuple(ch.log))
        log.append([n, c["how"], hashlib.sha1(str(ch.log).encode()).hexdigest()[:8], type(exc).__name__ if exc else
                    [None if res.x is None else [round(float(v), 6) for v in res.x], round(float(res.f), 6) if np.isfinite(float(res.f)) else None, int(res.iterations), bool(res.converged)]])
        what = "call %d (draws %s%s)" % (n, c["how"], ", coarse root solver" if "root" in c else "")
        if exc is not None:
            if raised and isinstance(exc, Broken):
                bump("callback failure reached the caller")
                continue
            bad("raise", "%s raised %s: %s" % (what, type(exc).__name__, str(exc)[:150]))
            continue
        if raised:
            bad("hidden", "%s: the objective or a constraint raised, and the call returned %s as if nothing had happened" % (what, res))
            continue
        bump("converged" if res.converged else "not converged")
        if res.x is None:
            if np.isfinite(float(res.f)):
                bad("value", "%s reported the value %s without a point" % (what, res.f))
            if res.converged and best is not None:
                bad("infeasible", "%s reported that there is no feasible point, but one on the grid has the value %.6g" % (what, best))
            bump("no point")
            continue
        x, v = [float(t) for t in res.x], float(res.f)
        bump("point")
        eps = 1e-7 * scale + (10 * c["root"] * scale if "root" in c else 0)
        if any(t < lo - 1e-9 or t > hi + 1e-9 for t, lo, hi in zip(x, a, b)):
            bad("box", "%s returned %s outside the box" % (what, x))
        for i, cc in enumerate(C):
            if not float(cc(x)) >= -eps * 10:
                bad("constraint", "%s returned %s, where constraint %d is %.3g" % (what, x, i, float(cc(x))))
        if not abs(float(F(x)) - v) <= 1e-7 * scale:
            bad("value", "%s reported the value %.9g for %s, where it is %.9g" % (what, v, x, float(F(x))))
        if res.converged:
            if best is not None and v > best + tol + eps:
                bad("optimum", "%s reported the optimum %.6g, but a grid point has %.6g (tolerance %.3g)" % (what, v, best, tol))
            for m, w in found:
                if v > w + tol + eps:
                    bad("optimum", "%s reported the optimum %.6g, but call %d found %.6g (tolerance %.3g)" % (what, v, m, w, tol))
        found.append((n, v))
    h = hashlib.sha1(json.dumps(log).encode()).hexdigest()
    return {"violations": viol[:3], "log": log, "digest": h, "fired": seams.F.fired, "work": sum(len(q) for q in seqs), "count": count, "simtime": 0,
            "sched": hashlib.sha1(repr(sorted(seqs)).encode()).hexdigest(), "nontrivial": len(seqs) > 1}


def shrink(spec):
    cs = spec["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            s = copy.deepcopy(spec)
            del s["calls"][i]
            yield s
    for k in ("iq", "eq", "gh"):
        for i in range(len(spec.get(k, []))):
            s = copy.deepcopy(spec)
            del s[k][i]
            yield s
    for i, c in enumerate(cs):
        for k in ("fail", "root", "mi"):
            if k in c:
                s = copy.deepcopy(spec)
                del s["calls"][i][k]
                yield s
