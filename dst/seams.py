"""Everything nondeterministic the repository touches, put behind seams.

The seams sit at *library* boundaries (scipy, cvxopt, sympy numerics, files,
clocks, randomness), installed before the repository is imported, so that the
repository's own code runs unmodified and may be refactored freely.
"""
import hashlib
import os
import sys
import random as _random

REPO = os.environ.get("DST_REPO", "/repo")


class Faults:
    """Per-run fault state; every seam consults `F`."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.plan = {}        # kind -> {call index: fault spec}
        self.calls = {}       # kind -> number of calls so far
        self.fired = {}       # fault name -> count
        self.rng = _random.Random(0)
        self.on = False
        self.log = []

    def take(self, kind, content=None):
        """Return the fault spec planned for this call of seam `kind`.  Plans
        key faults by call number, by "*" (every call) or by "#" (decided by a
        hash of what is asked: the same question meets the same fault whenever
        it is asked)."""
        n = self.calls.get(kind, 0)
        self.calls[kind] = n + 1
        if not self.on:
            return None
        p = self.plan.get(kind)
        if not p:
            return None
        spec = p.get(str(n)) or p.get("*")
        if spec is None and "#" in p:
            h = p["#"]
            d = hashlib.sha1(("%s|%s|%s" % (h["seed"], kind, content() if content else n)).encode()).digest()
            if d[0] < 256 * h["rate"]:
                spec = h["specs"][d[1] % len(h["specs"])]
        if spec is not None and spec.get("kind") == "interrupt":
            self.fire(kind + ":interrupt")
            raise KeyboardInterrupt("injected")
        return spec

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1
        self.log.append(name)


F = Faults()


def digest(*xs):
    """Stable description of numeric arguments (rounded, so that it does not
    depend on the last bits)."""
    import numpy as np
    out = []
    for x in xs:
        if x is None:
            out.append("-")
            continue
        if hasattr(x, "toarray"):
            x = x.toarray()
        try:
            a = np.asarray(x, dtype=float)
        except (TypeError, ValueError):
            try:
                a = np.array(list(x), dtype=float)
            except (TypeError, ValueError):
                out.append(type(x).__name__)
                continue
        out.append("%s%s" % (a.shape, (np.round(a, 6) + 0.0).ravel().tolist()))
    return "|".join(out)


class NumericFailure(ArithmeticError):
    """What a failing native numeric routine raises."""


# ------------------------------------------------------------------ LP solver
def _wrap_linprog():
    import numpy as np
    import scipy.optimize as so
    import scipy.optimize._linprog as lp
    real = so.linprog

    def linprog(*a, **k):
        spec = F.take("lp", lambda: digest(*([x for x in a] + [k[z] for z in ("c", "A_ub", "b_ub", "A_eq", "b_eq") if z in k])))
        if spec is None:
            return real(*a, **k)
        kind = spec["kind"]
        F.fire("lp:" + kind)
        r = _random.Random(spec.get("seed", 0))
        if kind == "raise":
            raise {"ValueError": ValueError, "MemoryError": MemoryError,
                   "NumericFailure": NumericFailure}[spec.get("exc", "ValueError")]("injected LP failure")
        if kind == "fail":
            return so.OptimizeResult(x=None, fun=None, success=False, status=4,
                                     message="numerical difficulties", nit=0)
        res = real(*a, **k)
        n = np.asarray(a[0] if a else k["c"]).size
        if kind in ("noise", "zeros", "huge", "nan", "inf", "neg", "drop", "scale", "random") or res.x is None:
            x = np.array(res.x if res.x is not None else np.zeros(n), dtype=float)
            if kind == "noise":
                amp = spec.get("amp", 1e-9)
                x = x + np.array([r.uniform(0, amp) for _ in range(n)])
            elif kind == "neg":
                for _ in range(max(1, n // 20)):
                    x[r.randrange(n)] -= spec.get("amp", 1e-9)
            elif kind == "zeros":
                x = np.zeros(n)
            elif kind == "nan":
                x[r.randrange(n)] = np.nan
            elif kind == "inf":
                x[r.randrange(n)] = np.inf
            elif kind == "huge":
                x = x * 1e200
            elif kind == "scale":
                x = x * r.choice([0.5, 2.0, 1.0 + 1e-6])
            elif kind == "drop":
                nz = [i for i in range(n) if x[i] > 1e-9]
                if nz:
                    x[r.choice(nz)] = 0.0
            elif kind == "random":
                x = np.array([r.choice([0, 0, 0, 1, 0.5, 2]) for _ in range(n)], dtype=float)
            res = so.OptimizeResult(x=x, fun=float(np.sum(x)), success=True, status=0,
                                    message="Optimization terminated successfully.", nit=1)
        return res
    linprog.__doc__ = real.__doc__
    so.linprog = linprog
    lp.linprog = linprog
    return real


# ----------------------------------------------------------------- SDP solver
def _wrap_cvxopt():
    import numpy as np
    from cvxopt import solvers, matrix

    def wrap(name):
        real = getattr(solvers, name)

        def solve(*a, **k):
            spec = F.take("sdp", lambda: digest(*(list(a[:2]) + [k[z] for z in ("c", "G", "h") if z in k and not isinstance(k[z], list)])))
            if spec is None:
                return real(*a, **k)
            kind = spec["kind"]
            F.fire("sdp:" + kind)
            r = _random.Random(spec.get("seed", 0))
            if kind == "raise":
                raise {"ValueError": ValueError, "ArithmeticError": ArithmeticError,
                       "ZeroDivisionError": ZeroDivisionError, "MemoryError": MemoryError}[
                    spec.get("exc", "ValueError")]("injected SDP failure")
            sol = real(*a, **k)
            x = sol.get("x")
            if kind == "none":
                sol["x"] = None
                sol["status"] = "unknown"
                return sol
            if x is None:
                return sol
            v = np.array(x, dtype=float).flatten()
            n = v.size
            if kind == "noise":
                amp = spec.get("amp", 1e-6)
                v = v + np.array([r.uniform(-amp, amp) for _ in range(n)])
            elif kind == "garbage":
                v = np.array([r.uniform(-10, 10) for _ in range(n)])
            elif kind == "ints":
                v = np.array([r.choice([-2, -1, 0, 0, 1, 2, .5]) for _ in range(n)], dtype=float)
            elif kind == "zeros":
                v = np.zeros(n)
            elif kind == "nan":
                v[r.randrange(n)] = np.nan
            elif kind == "inf":
                v[r.randrange(n)] = np.inf
            elif kind == "huge":
                v = v * 1e150
            elif kind == "flip":
                v = -v
            elif kind == "short":
                v = v[:-1]
            elif kind == "empty":
                v = v[:0]
            if v.size:
                sol["x"] = matrix(v)
            else:
                sol["x"] = matrix(0.0, (0, 1))
            sol["status"] = spec.get("status", "optimal")
            return sol
        return solve
    solvers.sdp = wrap("sdp")
    solvers.conelp = wrap("conelp")


# ------------------------------------------------- dense linear algebra, roots
def _wrap_numeric():
    import numpy as np
    import scipy.optimize as so
    import sympy
    from sympy.polys.polyerrors import PolynomialError  # noqa
    from mpmath.libmp.libhyper import NoConvergence
    P = sympy.Poly
    real_nroots = P.nroots

    def nroots(self, n=15, maxsteps=50, cleanup=True):
        spec = F.take("roots", lambda: str(self))
        if spec is None:
            return real_nroots(self, n=n, maxsteps=maxsteps, cleanup=cleanup)
        kind = spec["kind"]
        F.fire("roots:" + kind)
        r = _random.Random(spec.get("seed", 0))
        if kind == "raise":
            raise NoConvergence("injected: roots did not converge")
        out = real_nroots(self, n=n, maxsteps=maxsteps, cleanup=cleanup)
        if kind == "noise":
            amp = spec.get("amp", 1e-9)
            return [z * (1 + sympy.Float(r.uniform(-amp, amp), n)) for z in out]
        if kind == "imag":      # real roots come back with a tiny imaginary part
            return [z + sympy.I * sympy.Float("1e-%d" % n) if z.is_real and r.random() < .7 else z for z in out]
        return out
    P.nroots = nroots

    def wrap_minimize():
        real = so.minimize

        def minimize(*a, **k):
            spec = F.take("min", lambda: digest(a[1] if len(a) > 1 else k.get("x0")))
            if spec is None:
                return real(*a, **k)
            F.fire("min:" + spec["kind"])
            r = _random.Random(spec.get("seed", 0))
            if spec["kind"] == "raise":
                raise NumericFailure("injected minimise failure")
            res = real(*a, **k)
            if spec["kind"] == "noise":
                res.x = np.array(res.x, dtype=float) + np.array(
                    [r.uniform(-.05, .05) for _ in range(np.size(res.x))])
                res.success = True
            elif spec["kind"] == "nan":
                res.x = np.array(res.x, dtype=float) * np.nan
                res.success = True
            return res
        so.minimize = minimize
    wrap_minimize()

    for name in ("eigvalsh", "eigh", "solve", "lstsq", "inv"):
        real = getattr(np.linalg, name)

        def make(real, name):
            def f(*a, **k):
                spec = F.take("linalg", lambda: name + digest(*a))
                if spec is None:
                    return real(*a, **k)
                F.fire("linalg:raise")
                raise np.linalg.LinAlgError("injected: did not converge")
            f.__name__ = name
            return f
        setattr(np.linalg, name, make(real, name))


# --------------------------------------------------------------------- clocks
class SimClock:
    base = 1_700_000_000.0

    def __init__(self):
        self.reset()

    def reset(self):
        self.t = self.base
        self.tick = 0.001       # each read advances simulated time a little
        self.jumps = []         # list of (read index, delta)
        self.reads = 0
        self.on = False
        self.mono = 1000.0

    def wall(self):
        self.reads += 1
        self.t += self.tick
        while self.jumps and self.reads >= self.jumps[0][0]:
            self.t += self.jumps.pop(0)[1]
            F.fire("clock:jump")
        return self.t

    def monotonic(self):
        self.mono += self.tick
        return self.mono


CLOCK = SimClock()


def install_clock():
    """Simulated wall clock and monotonic clock for everything imported later."""
    import time
    import datetime
    r_time, r_mono, r_perf = time.time, time.monotonic, time.perf_counter
    r_strftime, r_localtime, r_gmtime, r_sleep = time.strftime, time.localtime, time.gmtime, time.sleep

    def _time():
        return CLOCK.wall() if CLOCK.on else r_time()

    def _mono():
        return CLOCK.monotonic() if CLOCK.on else r_mono()

    def _perf():
        return CLOCK.monotonic() if CLOCK.on else r_perf()

    def _localtime(*a):
        if CLOCK.on and not (a and a[0] is not None):
            return r_gmtime(CLOCK.wall())
        return r_localtime(*a)

    def _gmtime(*a):
        if CLOCK.on and not (a and a[0] is not None):
            return r_gmtime(CLOCK.wall())
        return r_gmtime(*a)

    def _strftime(fmt, *t):
        if CLOCK.on and not t:
            return r_strftime(fmt, r_gmtime(CLOCK.wall()))
        return r_strftime(fmt, *t)

    def _sleep(dt):
        from . import kernel
        sim = kernel.CURRENT
        if sim is not None and sim.current_task() is not None:
            sim.sleep(dt)
        elif CLOCK.on:
            CLOCK.t += dt
            CLOCK.mono += dt
        else:
            r_sleep(dt)
    time.time, time.monotonic, time.perf_counter = _time, _mono, _perf
    time.strftime, time.localtime, time.gmtime, time.sleep = _strftime, _localtime, _gmtime, _sleep
    time.time_ns = lambda: int(_time() * 1e9)
    time.perf_counter_ns = lambda: int(_perf() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.process_time = _perf
    real_dt = datetime.datetime

    class datetime_(real_dt):
        @classmethod
        def now(cls, tz=None):
            if CLOCK.on:
                return real_dt.fromtimestamp(CLOCK.wall(), tz or datetime.timezone.utc).replace(tzinfo=tz)
            return real_dt.now(tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    datetime_.__name__ = datetime_.__qualname__ = "datetime"
    datetime.datetime = datetime_


# ----------------------------------------------------------------- randomness
def install_random():
    import uuid
    import secrets
    import os as _os

    st = _random.Random(0)

    def reseed(seed):
        import numpy as np
        st.seed(seed)
        _random.seed(seed ^ 0x5bd1e995)
        np.random.seed(seed % (2 ** 32))
        import sympy.core.random as scr
        scr.seed(seed)
        scr.rng.seed(seed)

    def uuid4():
        return uuid.UUID(int=st.getrandbits(128), version=4)
    uuid.uuid4 = uuid4
    secrets.token_bytes = lambda n=32: bytes(st.getrandbits(8) for _ in range(n or 32))
    secrets.token_hex = lambda n=32: secrets.token_bytes(n).hex()
    return reseed


RESEED = None


def boot():
    """Install every seam and import the repository.  Called once per zygote."""
    global RESEED
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    from . import kernel
    kernel.install_locks()
    import numpy, scipy.optimize, sympy, pandas, tqdm  # noqa
    import cvxopt, cvxopt.solvers, picos  # noqa
    import flask, flask_socketio, flask_cors  # noqa
    RESEED = install_random()
    _wrap_linprog()
    _wrap_cvxopt()
    _wrap_numeric()
    install_clock()
    import importlib
    import pkgutil
    sys.pycache_prefix = "/nonexistent/dst"     # never trust stale byte code of the repository
    import triples
    for m in pkgutil.walk_packages(triples.__path__, "triples."):
        if m.name.endswith("__main__") or ".testing" in m.name or "tests" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    import gc
    gc.collect()
    gc.freeze()     # children neither scan nor copy the imported modules
    return True
