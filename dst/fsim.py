"""Simulated disk under one scratch directory.

`open` (builtins and io), mkdir, rename, replace and unlink below the scratch
directory go through this seam: every raw read/write is a numbered operation
that may be short, fail, run out of space, or be the last thing the process
does (crash).  Buffering above the raw file is the real io stack."""
import builtins
import io
import os

_open = builtins.open
ERR = {"EIO": 5, "EACCES": 13, "ENOSPC": 28, "EROFS": 30, "EDQUOT": 122, "EMFILE": 24, "EINTR": 4}


class SimCrash(BaseException):
    pass


class FS:
    def __init__(self):
        self.reset()

    def reset(self):
        self.root = None
        self.plan = []          # [{"op":..., "n":..., "kind":...}]
        self.n = {}
        self.log = []
        self.fired = {}
        self.capacity = None    # bytes left on the disk
        self.epoch = 0
        self.rivals = {}        # path -> content written by somebody else just before an open
        self.buf = 8192
        self.yield_ = None      # called at every operation (scheduling point)

    def under(self, path):
        if self.root is None or not isinstance(path, (str, os.PathLike)):
            return None
        p = os.path.abspath(os.fspath(path))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def arm(self, plan, capacity=None):
        self.plan, self.n, self.capacity = [dict(p) for p in plan], {}, capacity

    def step(self, op, path):
        """-> fault for this operation or None"""
        if self.yield_:
            self.yield_(op)
        k = self.n[op] = self.n.get(op, -1) + 1
        for p in self.plan:
            if p["op"] == op and p["n"] == k:
                if p["kind"] != "rival":
                    self.fire(op, p["kind"], path)
                return p
        return None

    def fire(self, op, kind, path):
        self.fired["%s:%s" % (op, kind)] = self.fired.get("%s:%s" % (op, kind), 0) + 1
        self.log.append((op, kind, os.path.relpath(path, self.root)))

    def crash(self):
        self.epoch += 1
        raise SimCrash()


fs = FS()


def fail(kind, path):
    raise OSError(ERR[kind], os.strerror(ERR[kind]), path)


class Raw(io.FileIO):
    def __init__(self, path, mode):
        self.dst_path, self.dst_epoch = path, fs.epoch
        super().__init__(path, mode)

    def dead(self):
        return self.dst_epoch != fs.epoch

    def write(self, b):
        b = bytes(b)
        if self.dead():
            return len(b)
        f = fs.step("write", self.dst_path)
        if f:
            if f["kind"] == "short":
                b = b[:max(1, len(b) // 2)]
            elif f["kind"] == "crash":
                super().write(b[:len(b) // 2])
                fs.crash()
            else:
                super().write(b[:len(b) // 3])
                fail(f["kind"], self.dst_path)
        if fs.capacity is not None:
            if fs.capacity <= 0:
                fs.fire("write", "disk-full", self.dst_path)
                fail("ENOSPC", self.dst_path)
            b = b[:fs.capacity]
            fs.capacity -= len(b)
        return super().write(b)

    def readinto(self, view):
        f = None if self.dead() else fs.step("read", self.dst_path)
        if f:
            if f["kind"] == "short":
                m = memoryview(view)
                return super().readinto(m[:max(1, len(m) // 3)])
            if f["kind"] == "crash":
                fs.crash()
            fail(f["kind"], self.dst_path)
        return super().readinto(view)

    def readall(self):
        out = b""
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def close(self):
        if not self.closed and not self.dead() and self.writable():
            f = fs.step("close", self.dst_path)
            if f:
                super().close()
                if f["kind"] == "crash":
                    fs.crash()
                fail(f["kind"], self.dst_path)
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    path = fs.under(file)
    if path is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wxa+")
    f = fs.step("open-w" if writing else "open-r", path)
    if f:
        if f["kind"] == "rival":
            if not os.path.exists(path) and os.path.isdir(os.path.dirname(path)):
                fs.fire("open-w", "rival", path)
                with _open(path, "wb") as h:
                    h.write(b"written by another process\n")
                fs.rivals[path] = b"written by another process\n"
        elif f["kind"] == "crash":
            fs.crash()
        else:
            fail(f["kind"], path)
    raw = Raw(path, mode.replace("b", "").replace("t", ""))
    if buffering == 0:
        return raw
    if "+" in mode:
        b = io.BufferedRandom(raw, fs.buf)
    elif writing:
        b = io.BufferedWriter(raw, fs.buf)
    else:
        b = io.BufferedReader(raw, fs.buf)
    if "b" in mode:
        return b
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


def install():
    builtins.open = io.open = sim_open
    for name in ("mkdir", "rename", "replace", "unlink", "remove", "link"):
        def wrap(name=name, real=getattr(os, name)):
            def f(path, *a, **k):
                p = fs.under(path)
                if p is not None:
                    x = fs.step(name, p)
                    if x:
                        if x["kind"] == "crash":
                            fs.crash()
                        fail(x["kind"] if x["kind"] in ERR else "EIO", p)
                return real(path, *a, **k)
            return f
        setattr(os, name, wrap())


def tree(root):
    out = {}
    for d, _, files in os.walk(root):
        for n in files:
            p = os.path.join(d, n)
            with _open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out
