"""S06: every batch record is the truth about its own problem."""
import copy
import hashlib
import json
from .. import batch as B
from .. import corpus as K
from .. import ops as O

TITLE = "a batch records every problem once, in order, with a truthful status"
RUNS = {"quick": 500, "thorough": 30000}
TIMEOUT = 90
HANG = False
RULE = ("each run: 1-2 batch calls on lists or files of 1-8 problems (readable, unreadable, repeated, blank lines, CRLF, polynomial objects over odd domains "
        "and generators), with random constraints, methods and configurations, under back-end faults chosen by content (so that the same problem meets the same "
        "fault wherever it stands) and under read errors of the problem file; every record is compared with an independent table of what the text denotes, with "
        "the exact certificate checker, and with solving that problem alone in a fresh process; non-trivial: at least two problems of different fate")
REAL = ["sum_of_squares_multiple, PolyReader, preprocess_text, all solvers", "pandas", "the io stack above the raw file"]
STUB = ["raw file reads below a scratch directory", "content-addressed wrappers around linprog, cvxopt, nroots and linear algebra that inject faults", "clock"]
ASSUME = ["the table of texts and polynomials in dst/batch.py", "a forked copy of a process that only imported the package is a fresh process"]
NOSUCH = "NoSuchMethodSOS"


def gen(rng, tier, index):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        src = rng.choice(["list", "list", "file", "tuple"])
        b = {"items": B.gen_items(rng, rng.choice([1, 2, 3, 5, 8]), polys=src != "file"), "src": src,
             "blank": [[rng.randrange(9), rng.choice(B.BLANK)] for _ in range(rng.choice([0, 0, 1, 2]))],
             "eol": rng.choice(["\n", "\r\n"]), "last": rng.random() < 0.5, "pad": rng.random() < 0.3,
             "iq": rng.choice(["none", "empty", "list", "list", "dict", "eq"]),
             "m": rng.choice([["StructuralSOS"], ["StructuralSOS", "LinearSOS"], ["LinearSOS"], ["SDPSOS"], ["StructuralSOS", "SDPSOS"], ["LinearSOS", "StructuralSOS"]]),
             "cfg": rng.choice([None, {}, {"LinearSOS": {"quad_diff_order": 4}}, {"LinearSOS": {"lift_degree_limit": 0}, "SDPSOS": {"degree_limit": 6}}]),
             "ignore": rng.choice([None, None, None, True, False])}
        if rng.random() < 0.5:
            b["faults"] = O.gen_faults(rng)
        if b["src"] == "file" and rng.random() < 0.4:
            b["io"] = [{"op": rng.choice(["read", "read", "open-r"]), "n": rng.choice([0, 0, 1, 2]), "kind": rng.choice(["EIO", "EACCES", "short", "short"])}]
            if b["io"][0]["op"] == "open-r":
                b["io"][0].update(kind="EACCES", n=0)
            b["buf"] = rng.choice([4, 16, 64])
        out.append(b)
    return {"batches": out}


def alone_key(b, item):
    return {"item": item, "iq": b["iq"], "m": b["m"], "cfg": b["cfg"], "faults": b.get("faults")}


def ref_keys(spec):
    out = {}
    for b in spec["batches"]:
        for it in b["items"]:
            if it in B.POLYS or B.ITEMS[it] is not None:
                k = alone_key(b, it)
                out[json.dumps(k, sort_keys=True)] = k
    return list(out.values())


def status(sol):
    return "fail" if sol is None else "success" if sol.is_equal else "inaccurate"


def run_ref(k):
    """The problem alone: read by the independent table, solved by one call."""
    from .. import seams
    from triples.core.sum_of_squares import sum_of_squares
    iq, eq = B.constraints(k["iq"])
    seams.F.plan, seams.F.calls, seams.F.on = k["faults"] or {}, {}, True
    cfg = {} if k["cfg"] is None else copy.deepcopy(k["cfg"])
    try:
        sol = sum_of_squares(B.truth(k["item"]), iq, eq, method_order=list(k["m"]), configs=cfg)
        return [status(sol), O.canon(sol)]
    except Exception as e:
        return ["error", None]
    finally:
        seams.F.on = False


def run(spec, refs):
    from .. import seams, fsim
    from ..fsim import fs
    import os
    import shutil
    import tempfile
    viol, log, count = [], [], {}
    root = os.path.realpath(tempfile.mkdtemp(prefix="dst-s06-"))
    fsim.install()
    try:
        fs.root = root
        fates = set()
        for n, b in enumerate(spec["batches"]):
            one(n, b, refs, root, viol, log, count, fates)
            if viol:
                break
    finally:
        fs.root = None
        shutil.rmtree(root, ignore_errors=True)
    h = hashlib.sha1(json.dumps(log).encode()).hexdigest()
    fired = dict(seams.F.fired)
    for k, v in fs.fired.items():
        fired["file-" + k] = v
    return {"violations": viol[:3], "log": log, "digest": h, "fired": fired, "work": len(log), "count": count, "simtime": seams.CLOCK.t - seams.CLOCK.base, "sched": h,
            "nontrivial": len(fates) > 1}


def one(n, b, refs, root, viol, log, count, fates):
    from .. import seams, oracle
    from ..fsim import fs, _open
    import os
    import sympy as sp
    from triples.core.sum_of_squares import sum_of_squares_multiple
    given = [B.value(it) for it in b["items"]]
    lines = list(given)
    if b["pad"]:
        lines = [("  %s \t" % v) if isinstance(v, str) else v for v in lines]
    for at, t in b["blank"]:
        lines.insert(min(at, len(lines)), t)
    if b["src"] == "file":
        arg = os.path.join(root, "problems%d.txt" % n)
        with _open(arg, "w", newline="", encoding="utf-8") as h:
            h.write(b["eol"].join(lines) + (b["eol"] if b["last"] else ""))
    else:
        arg = tuple(lines) if b["src"] == "tuple" else lines
    iq, eq = B.constraints(b["iq"])
    kw = {"save_result": False, "verbose_progress": False, "method_order": list(b["m"])}
    if b["cfg"] is not None:
        kw["configs"] = copy.deepcopy(b["cfg"])
    if b["ignore"] is not None:
        kw["poly_reader_configs"] = {"ignore_errors": b["ignore"]}
    what = "batch %d (%s of %s, constraints %s, methods %s)" % (n, b["src"], json.dumps(b["items"]), b["iq"], b["m"])
    seams.F.plan, seams.F.calls, seams.F.on = b.get("faults") or {}, {}, True
    fs.arm(b.get("io", []))
    fs.buf = b.get("buf", 8192)
    f0 = len(fs.log)
    df = exc = None
    try:
        df = sum_of_squares_multiple(arg, iq, eq, **kw)
    except Exception as e:
        exc = e
    finally:
        seams.F.on = False
        fs.arm([])
    unread = any(it not in B.POLYS and B.ITEMS[it] is None for it in b["items"])
    hard = [f for f in fs.log[f0:] if f[1] != "short"]

    def bad(cls, msg):
        viol.append({"class": cls, "msg": "%s: %s" % (what, msg)})
    if exc is not None:
        log.append([n, "raised", type(exc).__name__])
        count["raised"] = count.get("raised", 0) + 1
        if hard or (b["ignore"] is False and unread):
            return
        bad("raised", "the whole batch ended with %s: %s" % (type(exc).__name__, str(exc)[:200]))
        return
    if hard:
        bad("read-error-lost", "the problem file could not be read (%s) but a table of %d records was returned" % (hard, len(df)))
        return
    rows = df.to_dict("records")
    if len(rows) != len(b["items"]):
        bad("count", "%d problems gave %d records" % (len(b["items"]), len(rows)))
        return
    if list(df.index) != list(range(1, len(rows) + 1)):
        bad("order", "records are indexed %s" % list(df.index))
    names = {v: k for k, v in dict(iq).items()} if isinstance(iq, dict) else {}
    if isinstance(eq, dict):
        names.update({v: k for k, v in eq.items()})
    isnull = lambda v: v is None or v != v
    for j, (it, r) in enumerate(zip(b["items"], rows)):
        p = B.truth(it)
        rec = "record %d (%s) = %s" % (j + 1, it, {k: str(r[k])[:120] for k in ("problem", "deg", "method", "solution", "status") if k in r})
        want_p = B.value(it)
        if (r["problem"] != want_p) if not isinstance(want_p, str) else (str(r["problem"]).strip() != want_p.strip()):
            bad("order", "%s does not belong to problem %d" % (rec, j + 1))
            return
        fates.add(r["status"])
        count[r["status"]] = count.get(r["status"], 0) + 1
        log.append([n, j, it, r["status"], str(r["method"])])
        if p is None:
            if r["status"] != "invalid" or not isnull(r["solution"]) or not isnull(r["method"]):
                bad("status", "%s: the text is unreadable" % rec)
            continue
        if r["deg"] != (p.total_degree() if not p.is_zero else 0):
            bad("degree", "%s: the degree is %s" % (rec, p.total_degree()))
        key = json.dumps(alone_key(b, it), sort_keys=True)
        st, sol = refs[key]
        if st == "success" and "zoo" in str(p):
            continue
        if r["status"] != st:
            bad("status", "%s: solved alone the status is %s" % (rec, st))
            continue
        if r["status"] in ("fail", "error"):
            if not isnull(r["solution"]) or not isnull(r["method"]):
                bad("status", "%s carries a solution" % rec)
            continue
        s = r["solution"]
        if isnull(s) or r["method"] != s.method or bool(s.is_equal) != (r["status"] == "success"):
            bad("status", "%s does not match its solution" % rec)
            continue
        if json.loads(json.dumps(O.canon(s))) != sol:
            bad("alone-differs", "%s: solved alone the answer is %s" % (rec, str(sol)[:400]))
        if p.domain.is_QQ or p.domain.is_ZZ:
            vs, pr = oracle.check_certificate(p.as_expr(), list(iq), list(eq), s.solution, names=names)
            count["certified"] = count.get("certified", 0) + 1
            for c, m in vs:
                bad("certificate-" + c, "%s: %s" % (rec, m))


def shrink(spec):
    bs = spec["batches"]
    for i in range(len(bs)):
        if len(bs) > 1:
            s = copy.deepcopy(spec)
            del s["batches"][i]
            yield s
    for i, b in enumerate(bs):
        for j in range(len(b["items"])):
            if len(b["items"]) > 1:
                s = copy.deepcopy(spec)
                del s["batches"][i]["items"][j]
                yield s
        for k, v in (("blank", []), ("faults", None), ("io", None), ("cfg", None), ("pad", False)):
            if b.get(k):
                s = copy.deepcopy(spec)
                if v is None and k != "cfg":
                    del s["batches"][i][k]
                else:
                    s["batches"][i][k] = v
                yield s
