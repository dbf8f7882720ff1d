"""Deterministic simulation kernel.

One process, many tasks, exactly one of which runs at any time.  A task is a
real OS thread that is parked on a private gate; the only thing that decides
who runs is `Sim._pick`, driven by a seeded PRNG (or by a recorded schedule on
replay).  Preemption points are the source lines of the repository under test,
observed through sys.monitoring LINE events, plus every simulated lock,
condition, sleep and task end.
"""
import _thread
import sys
import threading

TOOL = 4
_real_allocate = _thread.allocate_lock
CURRENT = None           # the active Sim, if any


class SimDeadlock(Exception):
    pass


class SimBudget(Exception):
    pass


class Task:
    __slots__ = ("idx", "name", "fn", "args", "kwargs", "gate", "ident", "done",
                 "error", "started", "steps", "blocks", "wait", "wake", "result", "crash_at")

    def __init__(self, idx, name, fn, args, kwargs):
        self.idx, self.name = idx, name
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.gate = _real_allocate()
        self.gate.acquire()
        self.ident = None
        self.done = self.started = False
        self.error = self.result = None
        self.steps = 0
        self.blocks = 0
        self.wait = None          # predicate that must become true
        self.wake = None          # simulated time at which it may run
        self.crash_at = None      # (step, exception factory)


class Sim:
    """policy: dict(mode='random', p=...) | dict(mode='pct', depth, span) |
    dict(mode='replay', points=[[task, step, next], ...])"""

    def __init__(self, rng, policy, roots, focus=None, max_steps=60_000_000):
        self.rng, self.policy = rng, policy
        self.roots = tuple(roots)
        self.focus = tuple(focus) if focus else None
        self.tasks = []
        self.cur = None
        self.main_gate = _real_allocate()
        self.main_gate.acquire()
        self.now = 0.0
        self.total = 0
        self.max_steps = max_steps
        self.log = []
        self.points = []          # preemptions actually taken
        self.active = False
        self.abort = None
        self.hooks = []           # callables (task, filename, line) run at each step
        self._codeok = {}
        self.switches = 0
        if policy["mode"] == "replay":
            self._plan = {}
            for t, s, n in policy["points"]:
                self._plan[(t, s)] = n
        elif policy["mode"] == "pct":
            self._prio = {}
            span = policy.get("span", 20000)
            self._changes = sorted(rng.randrange(span) for _ in range(policy.get("depth", 3)))

    # ---------------------------------------------------------------- events
    def event(self, kind, *data):
        name = self.cur.name if self.cur is not None else "-"
        self.log.append((len(self.log), name, kind) + data)

    # ----------------------------------------------------------------- tasks
    def spawn(self, fn, *args, name=None, **kwargs):
        t = Task(len(self.tasks), name or "t%d" % len(self.tasks), fn, args, kwargs)
        self.tasks.append(t)
        self.event("spawn", t.name)
        return t

    def _boot(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        try:
            t.result = t.fn(*t.args, **t.kwargs)
        except BaseException as e:      # noqa - recorded for the oracle
            t.error = e
        t.done = True
        self.event("end", t.name, type(t.error).__name__ if t.error is not None else "ok")
        self._handoff(None)

    def _runnable(self):
        out = []
        now = self.now
        for t in self.tasks:
            if t.done:
                continue
            if t.wait is None and t.wake is None:
                out.append(t)
            elif t.wake is not None and t.wake <= now:
                out.append(t)
            elif t.wait is not None and t.wait():
                out.append(t)
        return out

    def _start(self, t):
        t.started = True
        _thread.start_new_thread(self._boot, (t,))

    def _handoff(self, t):
        """The current task ended (t is None) or cannot go on (t blocks)."""
        while True:
            run = self._runnable()
            if run:
                break
            timed = [x.wake for x in self.tasks if not x.done and x.wake is not None]
            if timed:
                self.now = min(timed)          # nothing runnable: time jumps
                continue
            if all(x.done for x in self.tasks):
                self.cur = None
                self.main_gate.release()
                return
            self._stop(SimDeadlock("no runnable task: " + ",".join(
                x.name for x in self.tasks if not x.done)), t)
            return
        cur = self.cur
        if cur is not None:
            cur.blocks += 1
        key = (cur.idx, -cur.blocks) if cur is not None else (-1, -1)
        nxt = self._choose_next(run, key)
        nxt.wait = nxt.wake = None
        self._switch_to(nxt, t)

    def _stop(self, why, me):
        """Abandon the run: wake the driver, park this thread for good (the
        process is a forked child that exits after reporting)."""
        if self.abort is None:
            self.abort = why
        self.active = False
        self.main_gate.release()
        if me is not None:
            me.gate.acquire()

    def _choose_next(self, run, key):
        if len(run) == 1:
            return run[0]
        m = self.policy["mode"]
        if m == "replay":
            want = self._plan.get(key)
            for x in run:
                if x.idx == want:
                    return x
            return run[0]
        if m == "pct":
            for x in run:
                if x.idx not in self._prio:
                    self._prio[x.idx] = self.rng.random()
            nxt = max(run, key=lambda x: self._prio[x.idx])
        else:
            nxt = run[self.rng.randrange(len(run))]
        if nxt is not run[0]:
            self.points.append([key[0], key[1], nxt.idx])
        return nxt

    def _switch_to(self, nxt, me):
        if nxt is me:
            self.cur = nxt
            return
        self.switches += 1
        self.cur = nxt
        if not nxt.started:
            self._start(nxt)
        nxt.gate.release()
        if me is not None:
            me.gate.acquire()

    # ------------------------------------------------------ preemption point
    def current_task(self):
        t = self.cur
        if t is not None and t.ident == _thread.get_ident():
            return t
        return None

    def step(self, code, line):
        t = self.current_task()
        if t is None:
            return
        t.steps += 1
        self.total += 1
        if self.total > self.max_steps:
            self._stop(SimBudget("step budget exceeded in task %s" % t.name), t)
        for h in self.hooks:
            h(t, code, line)
        if t.crash_at is not None and t.steps >= t.crash_at[0]:
            exc = t.crash_at[1]
            t.crash_at = None
            self.event("crash", t.name, t.steps)
            raise exc()
        nxt = self._preempt(t)
        if nxt is not None:
            self.points.append([t.idx, t.steps, nxt.idx])
            nxt.wait = nxt.wake = None
            self._switch_to(nxt, t)

    def _preempt(self, t):
        m = self.policy["mode"]
        if m == "replay":
            want = self._plan.get((t.idx, t.steps))
            if want is None:
                return None
            for x in self._runnable():
                if x.idx == want and x is not t:
                    return x
            return None
        if m == "random":
            if self.rng.random() >= self.policy["p"]:
                return None
            run = [x for x in self._runnable() if x is not t]
            return run[self.rng.randrange(len(run))] if run else None
        if m == "pct":
            if self._changes and self.total >= self._changes[0]:
                self._changes.pop(0)
                self._prio[t.idx] = -self.total
                run = self._runnable()
                for x in run:
                    if x.idx not in self._prio:
                        self._prio[x.idx] = self.rng.random()
                nxt = max(run, key=lambda x: self._prio[x.idx])
                return nxt if nxt is not t else None
        return None

    # -------------------------------------------------------------- blocking
    def block(self, pred, timeout=None):
        """Park the current task until pred() holds (or simulated timeout)."""
        t = self.current_task()
        t.wait = pred
        t.wake = None if timeout is None or timeout < 0 else self.now + timeout
        self._handoff(t)
        return pred()

    def sleep(self, dt):
        t = self.current_task()
        t.wake = self.now + max(0.0, dt)
        self._handoff(t)

    # ------------------------------------------------------------------- run
    def run(self):
        global CURRENT
        if not self.tasks:
            return
        mon = sys.monitoring
        CURRENT = self
        self.active = True
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, self._on_line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        try:
            self._handoff(None)
            self.main_gate.acquire()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
            self.active = False
            CURRENT = None

    def _on_line(self, code, line):
        ok = self._codeok.get(code)
        if ok is None:
            fn = code.co_filename
            ok = fn.startswith(self.roots) and code.co_name != "<module>"
            if ok and self.focus is not None:
                ok = fn.endswith(self.focus)
            self._codeok[code] = ok
        if not ok:
            return sys.monitoring.DISABLE
        return self.step(code, line)


# ------------------------------------------------------------ simulated locks
class SimLock:
    """Drop-in for _thread.lock.  Inside a simulated task a contended acquire
    parks the task instead of blocking the OS thread."""

    def __init__(self):
        self._l = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        if sim is None or sim.current_task() is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        while not self._l.acquire(False):
            ok = sim.block(lambda: not self._l.locked(), None if timeout is None or timeout < 0 else timeout)
            if not ok and timeout is not None and timeout >= 0:
                return self._l.acquire(False)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_allocate()

    __enter__ = acquire

    def __exit__(self, *a):
        self._l.release()


def install_locks():
    """Make locks created from now on cooperative (call before importing the
    repository and its libraries)."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock

    _orig_start = threading.Thread.start

    def start(self):
        sim = CURRENT
        if sim is None or sim.current_task() is None:
            return _orig_start(self)

        def body():
            self._ident = _thread.get_ident()
            self._started.set()
            try:
                self.run()
            finally:
                self._is_stopped = True
        t = sim.spawn(body, name=self.name)
        self._sim_task = t

    _orig_join = threading.Thread.join

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        sim = CURRENT
        if t is None or sim is None or sim.current_task() is None:
            if t is not None:
                return
            return _orig_join(self, timeout)
        if not t.done:
            sim.block(lambda: t.done, timeout)

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is not None:
            return not t.done
        return _orig_alive(self)
    _orig_alive = threading.Thread.is_alive
    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
