"""Interrupt a call at an exact, repeatable point.

mode "line": the k-th source line executed in the repository; mode "call": the
k-th Python function entered anywhere (sympy, numpy, solvers, repository) while
the call runs.  With at=None points are only counted.  `spot` = (file:line, k)
interrupts at the k-th time that place is reached, so that places a hot loop
would drown are reached as well."""
import sys

TOOL = 4


class Interrupt:
    def __init__(self, root, mode="line", at=None, exc=KeyboardInterrupt, spot=None):
        self.root, self.mode, self.at, self.exc, self.spot = root, mode, at, exc, spot
        self.spots = {}
        self.n = 0
        self.where = None          # where the exception was raised
        self.raised = None
        self.swallowed = None      # code that handled it without it leaving the call
        self._ok = {}
        self._gaps = {}
        self.due = False

    def _line(self, code, line):
        ok = self._ok.get(code)
        if ok is None:
            ok = self._ok[code] = code.co_filename.startswith(self.root) and code.co_name != "<module>"
        if not ok:
            return sys.monitoring.DISABLE
        return self._hit(code, line)

    def _start(self, code, off):
        ok = self._ok.get(code)
        if ok is None:
            ok = self._ok[code] = "/dst/" not in code.co_filename and not code.co_filename.startswith("<frozen") and \
                not code.co_filename.endswith("/contextlib.py") and code.co_name not in ("__exit__", "__aexit__")
        if not ok:
            return sys.monitoring.DISABLE
        return self._hit(code, code.co_firstlineno)

    def _gap(self, name):
        """Lines of a file at which no program can be safe from an asynchronous
        exception: between taking something and entering the try or with that
        gives it back, and inside the giving back."""
        out = self._gaps.get(name)
        if out is None:
            import ast
            out = self._gaps[name] = set()
            try:
                with open(name, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                return out
            for t in ast.walk(tree):
                if isinstance(t, ast.Try):
                    out.add(t.lineno)      # compiled to a NOP outside the guard of an enclosing with
                    for st in t.finalbody:
                        out.update(range(st.lineno, st.end_lineno + 1))
                elif isinstance(t, (ast.Pass, ast.Continue, ast.Break)):
                    out.add(t.lineno)
                elif isinstance(t, (ast.With, ast.AsyncWith)):
                    out.update(range(t.lineno, max(i.context_expr.end_lineno for i in t.items) + 1))
                elif isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef)) and t.name in ("__exit__", "__enter__", "__aexit__", "__aenter__"):
                    out.update(range(t.lineno, t.end_lineno + 1))
        return out

    def _hit(self, code, line):
        self.n += 1
        k = (code.co_filename, line)
        m = self.spots[k] = self.spots.get(k, 0) + 1
        if self.raised is not None:
            return
        if self.at is not None and self.n == self.at or self.spot is not None and m == self.spot[1] and "%s:%d" % k == self.spot[0]:
            self.due = True
        if self.due and not (self.mode == "line" and line in self._gap(code.co_filename)):
            self.where = "%s:%d" % (code.co_filename, line)
            self.raised = self.exc("injected")
            raise self.raised

    def _handled(self, code, off, e):
        if e is self.raised:
            self.swallowed = (code.co_filename, code.co_name)

    def run(self, call):
        mon = sys.monitoring
        ev = mon.events.LINE if self.mode == "line" else mon.events.PY_START
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, ev, self._line if self.mode == "line" else self._start)
        mon.register_callback(TOOL, mon.events.EXCEPTION_HANDLED, self._handled)
        mon.set_events(TOOL, ev | mon.events.EXCEPTION_HANDLED)
        mon.restart_events()
        try:
            return call()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, ev, None)
            mon.register_callback(TOOL, mon.events.EXCEPTION_HANDLED, None)
            mon.free_tool_id(TOOL)
