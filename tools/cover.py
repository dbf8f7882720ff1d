"""Builds dst/cover.txt, the covering corpus of S01.

    python tools/cover.py survey WORKERS SEED N OUT.jsonl
    python tools/cover.py choose K SURVEY.jsonl... > dst/cover.txt

`survey` solves N problems drawn from the problem classes of the structural
solvers, each in a forked process under a seeded root-finder fault (or none),
and records which lines of the structural solvers a *solved* problem executed.
`choose` greedily selects problems until every line that few problems reach is
reached K times (or as often as the survey reached it).  The corpus only
directs the search of S01; what is checked does not depend on it."""
import collections
import heapq
import json
import os
import random
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("DST_REPO", "/repo")


def specs(seed, n):
    from dst import corpus as K
    rng = random.Random(seed)
    for i in range(n):
        kind = rng.choice(["", "", "", "raise", "noise", "imag"])
        x = rng.random()
        p = K._special(rng) if x < .6 else K.struct_form(rng) if x < .8 else K.struct_problem(rng)
        m = "SymmetricSOS" if rng.random() < (.5 if p[1] == "abcd" else .07) else "StructuralSOS"
        yield m, kind, i + 1, p


def cover_one(entry):
    from dst.props import s01
    m, kind, seed, p = entry
    mon = sys.monitoring
    mon.use_tool_id(4, "cover")
    lines = set()

    def on(code, line):
        f = code.co_filename
        if "/triples/core/" in f and ("structsos" in f or "symsos" in f):
            lines.add(f.split("/core/")[1] + ":%d" % line)
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, on)
    mon.set_events(4, mon.events.LINE)
    op = {"p": p, "m": [m], "form": "dict"}
    if kind:
        op["faults"] = {"roots": {"*": {"kind": kind, "seed": seed, "amp": 1e-9}}}
    r = s01.run({"ops": [op], "faults": {}, "seed": 1})
    mon.set_events(4, 0)
    return {"lines": sorted(lines) if r["count"].get("solved") else [], "v": r["violations"][:1]}


def forked(entry, timeout=40):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        null = os.open("/dev/null", 2)
        os.dup2(null, 1)
        os.dup2(null, 2)
        t = time.time()
        try:
            d = cover_one(entry)
        except BaseException as e:
            d = {"err": repr(e)}
        d["t"] = time.time() - t
        d = json.dumps(d).encode()
        while d:
            d = d[os.write(w, d):]
        os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + timeout
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            buf = b""
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
    return entry, json.loads(buf) if buf else {"err": "no answer", "t": timeout}


def survey(workers, seed, n, out):
    from multiprocessing import get_context
    from dst import seams
    seams.boot()
    import triples.core.sum_of_squares  # noqa
    with get_context("fork").Pool(workers) as pool, open(out, "w") as o:
        for entry, r in pool.imap_unordered(forked, list(specs(seed, n))):
            if r.get("v") or r.get("err"):
                print(entry, r.get("v"), r.get("err"), flush=True)
            o.write(json.dumps([entry, r]) + "\n")


def choose(k, files):
    rows = []
    for fn in files:
        for line in open(fn):
            entry, r = json.loads(line)
            if r.get("lines") and not r.get("v") and r["t"] < 8:
                rows.append((entry, r["t"], frozenset(r["lines"])))
    freq = collections.Counter(f for _, _, s in rows for f in s)
    need = {f: min(k, v) for f, v in freq.items() if v <= len(rows) * .02}

    def gain(i):
        return sum(1 / freq[f] for f in rows[i][2] if need.get(f, 0) > 0) / (.3 + rows[i][1]) ** .5
    heap = [(-gain(i), i) for i in range(len(rows))]
    heapq.heapify(heap)
    chosen = []
    while heap:
        _, i = heapq.heappop(heap)
        g = gain(i)
        if g <= 0:
            continue
        if heap and g < -heap[0][0] - 1e-12:
            heapq.heappush(heap, (-g, i))
            continue
        chosen.append(i)
        for f in rows[i][2]:
            if need.get(f, 0) > 0:
                need[f] -= 1
    seen = set()
    for i in chosen:
        m, kind, seed, p = rows[i][0]
        line = "\t".join([m, kind, str(seed if kind else 0)] + p)
        if line not in seen:
            seen.add(line)
            print(line)
    sys.stderr.write("%d rows, %d features, %d chosen, %.0f cpu-s\n" % (len(rows), len(freq), len(seen), sum(rows[i][1] for i in chosen)))


if __name__ == "__main__":
    if sys.argv[1] == "survey":
        survey(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else:
        choose(int(sys.argv[2]), sys.argv[3:])
