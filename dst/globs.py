"""Process-global state that a call has no business changing."""
import builtins
import sys

_BUILTINS = dict(vars(builtins))


def snap():
    """-> {name: json-able value} of everything a later, unrelated piece of the
    same process could notice."""
    import decimal
    import gc
    import locale
    import os
    import signal
    import threading
    import warnings
    out = {"builtins." + k: "same" if vars(builtins).get(k) is v else "replaced" for k, v in _BUILTINS.items() if k != "_"}
    out["builtins"] = sorted(k for k in vars(builtins) if k not in _BUILTINS and k != "_")
    out["sys.recursionlimit"] = sys.getrecursionlimit()
    out["sys.int_max_str_digits"] = sys.get_int_max_str_digits()
    out["sys.switchinterval"] = sys.getswitchinterval()
    for k in ("stdout", "stderr", "stdin", "excepthook", "displayhook", "unraisablehook"):
        out["sys." + k] = id(getattr(sys, k))
    out["threading.excepthook"] = id(threading.excepthook)
    out["sys.trace"] = str(sys.gettrace()), str(sys.getprofile())
    out["cwd"] = os.getcwd()
    out["environ"] = dict(os.environ)
    out["gc"] = gc.isenabled()
    out["locale"] = locale.setlocale(locale.LC_ALL)
    out["decimal"] = str(decimal.getcontext())
    out["warnings.showwarning"] = id(warnings.showwarning)
    out["warnings.modules"] = len(sys.modules)        # filters may be added by a first import
    out["warnings.filters"] = [str(f) for f in warnings.filters]
    if threading.current_thread() is threading.main_thread():
        out["signals"] = {s: id(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)}
        out["itimer"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    if "numpy" in sys.modules:
        import numpy as np
        out["numpy.err"] = np.geterr()
        out["numpy.print"] = {k: str(v) for k, v in np.get_printoptions().items()}
    if "mpmath" in sys.modules:
        import mpmath
        out["mpmath.dps"] = mpmath.mp.dps
    if "sympy" in sys.modules:
        from sympy.core.parameters import global_parameters as g
        out["sympy.parameters"] = {k: str(getattr(g, k)) for k in ("evaluate", "distribute", "exp_is_pow")}
        from sympy.printing.printer import Printer
        from sympy.printing.str import StrPrinter
        from sympy.printing.latex import LatexPrinter
        for c in (Printer, StrPrinter, LatexPrinter):
            out["sympy." + c.__name__] = str(getattr(c, "_global_settings", None)), str(getattr(c, "_default_settings", None))
            out["sympy.%s methods" % c.__name__] = {k: id(v) for k, v in vars(c).items() if callable(v) or isinstance(v, (classmethod, staticmethod, property))}
        from sympy.polys import polyconfig
        out["sympy.polyconfig"] = {k: str(v) for k, v in polyconfig._current_config.items()}
    if "cvxopt" in sys.modules and sys.modules["cvxopt"] is not None and "cvxopt.solvers" in sys.modules:
        out["cvxopt.options"] = {str(k): str(v) for k, v in sys.modules["cvxopt.solvers"].options.items()}
    if "pandas" in sys.modules:
        from pandas._config import config
        out["pandas"] = str(config._global_config)
    m = sys.modules.get("triples.utils.expression.cyclic")
    if m is not None:
        for c in vars(m).values():
            if isinstance(c, type):
                for k in dir(c):
                    if k.isupper():
                        out["%s.%s" % (c.__name__, k)] = str(getattr(c, k, None))
    return out


def changed(a, b):
    """What differs between two snapshots (names that appear on both sides)."""
    skip = {"warnings.modules"}
    if a["warnings.modules"] != b["warnings.modules"]:
        skip.add("warnings.filters")
    out = []
    for k in a:
        if k in b and k not in skip and a[k] != b[k]:
            v, w = a[k], b[k]
            if isinstance(v, dict):
                v, w = {x: v.get(x) for x in v if v.get(x) != w.get(x)}, {x: w.get(x) for x in w if v.get(x) != w.get(x)}
            out.append("%s was %s and is %s" % (k, str(v)[:200], str(w)[:200]))
    return out
