"""Workload shared by the web properties: clients, requests, schedules."""
import json

C3 = "[[1,2,0]]"
S3 = "[[1,2,0],[1,0,2]]"
T3 = "[[0,1,2]]"
C4 = "[[1,2,3,0]]"

ALL = {"StructuralSOS": True, "LinearSOS": True, "SymmetricSOS": True, "SDPSOS": True}


def M(*names):
    return {k: (k in names) for k in ALL}


# (poly, gens, perm)
POLYS = [
    ("s(a2-ab)", "abc", C3), ("s(a2)2-3s(a3b)", "abc", C3), ("s(a(a-b)(a-c))", "abc", C3),
    ("s(a4-a2bc)", "abc", C3), ("s(a/(b+c))-3/2", "abc", C3), ("s(a3)-3abc", "abc", S3),
    ("a2+b2+1-a-b-ab", "abc", T3), ("s(a3b)-abcs(a)", "abc", C3), ("s(a2b)-3abc", "abc", C3),
    ("a3+b3-a2b-ab2", "abc", T3), ("-s(a2)", "abc", C3), ("0", "abc", C3), ("a-a", "abc", C3),
    ("s(a)-1", "abc", C3), ("s(a2)-s(ab)+1", "abc", C3), ("x4+y4+z4+w4-4xyzw", "xyzw", C4),
    ("s(x2-xy)", "xyz", C3), ("s((a-b)2(a+b-3c)2)", "abc", S3), ("a2-2ab+b2", "ab", "[[1,0]]"),
    ("s(2a2-ab-bc)", "abc", C3), ("s(a3-a2b)", "abc", C3), ("p(a-b)2", "abc", S3),
    ("a2+b2+c2+ta(b+c)", "abc", T3), ("(a+b+c)3-27abc", "abc", S3), ("s(a)s(1/a)-9", "abc", S3),
    ("s(a5)-s(a4b)", "abc", C3), ("a4+b4+c4-a2bc-b2ca-c2ab", "abc", S3), ("7", "abc", C3),
    ("s(ab)", "abc", C3), ("a(a-b)2+c", "abc", T3), ("s(a2b2)-abcs(a)", "abc", S3),
    ("s(a2(a-b)(a-c))", "abc", S3), ("s(a4)+s(a3b)-2s(a2b2)", "abc", C3), ("a2+b2+c2-ab-bc-ca", "abc", T3),
]
BAD = ["s(a2-", "a+)", "a/0", "\u00e9+1", "1/(a-a)", "import os", "a^b", ""]
TANGENTS = ["", "a-b", "a-b\nb-c", "a2-bc\n???", "a+b-c", "1/2(a-b)\n\n2a-b-c", "a2-ab-ac-b2+2bc"]


def request(rng, want_sos=0.85, bad=0.06, weird=True):
    poly, gens, perm = rng.choice(POLYS)
    r = {"poly": poly, "gens": gens, "perm": perm, "actions": ["findroot", "sos"]}
    x = rng.random()
    if x > want_sos:
        r["actions"] = ["findroot"]
    elif weird and x < 0.08:
        r["actions"] = ["sos"]
    if weird and rng.random() < 0.05:
        r["actions"] = ["sos", "findroot"]
    if weird and rng.random() < 0.02:
        r["actions"] = []
    if rng.random() < bad:
        r["poly"] = rng.choice(BAD)
    m = rng.random()
    if m < 0.35:
        r["methods"] = dict(ALL)
    elif m < 0.5:
        r["methods"] = M("StructuralSOS")
    elif m < 0.65:
        r["methods"] = M("LinearSOS")
    elif m < 0.75:
        r["methods"] = M("SDPSOS")
    elif m < 0.85:
        r["methods"] = M("SymmetricSOS")
    else:
        r["methods"] = {k: rng.random() < 0.5 for k in ALL}
    r["configs"] = rng.choice([
        {"StructuralSOS": {}, "LinearSOS": {"verbose": True}, "SDPSOS": {"verbose": True}},
        {}, {"LinearSOS": {"verbose": False}}, {"SDPSOS": {"degree_limit": 6}},
        {"LinearSOS": {"lift_degree_limit": 1}},
    ])
    if weird and rng.random() < 0.12:
        r.pop("configs")
    if rng.random() < 0.25 and "findroot" in r["actions"]:
        r["tangents"] = rng.choice(TANGENTS)
    if rng.random() < 0.2:
        r["standardize_text"] = rng.choice(["factor", "sort", "expand", False])
    if rng.random() < 0.08:
        r["homogenize"] = True
    if rng.random() < 0.06:
        r["dehomogenize"] = rng.choice(["1", 1, "2", "x"])
    if rng.random() < 0.06:
        r["omit_mul"] = False
    return r


def clients(rng, nmax=4, reqmax=3, **kw):
    """Each client: a list of ops executed in order by its own task."""
    n = rng.choice([1, 2, 2, 3, 3, nmax])
    pool = [request(rng, **kw) for _ in range(rng.choice([1, 2, 3, 4]))]
    out = []
    ts = 1000
    for c in range(n):
        ops = []
        for _ in range(rng.randint(1, reqmax)):
            if rng.random() < 0.1:
                ops.append({"op": "coeffs", "req": {k: v for k, v in rng.choice(pool).items()
                                                    if k in ("poly", "gens", "perm")}})
            ts += 1
            ops.append({"op": "solve", "ts": ts, "req": rng.choice(pool)})
            if rng.random() < 0.08:      # client retries the same request (duplicate)
                ts += 1
                ops.append({"op": "solve", "ts": ts, "req": ops[-1]["req"]})
        if rng.random() < 0.12:
            ops.insert(rng.randrange(len(ops) + 1), {"op": "drop"})
        out.append(ops)
    return out


WEB_FOCI = [
    None,
    ["web_main.py", "sos_manager.py"],
    ["web_main.py", "solution.py", "cyclic.py"],
    ["solution.py", "cyclic.py"],
    ["sum_of_squares.py", "shared.py", "linsos.py", "basis.py"],
    ["monomials.py", "basis.py", "representation.py"],
    ["sdpsos.py", "transform.py", "abstract.py", "dual.py", "cvxopt_sdp.py", "caller.py"],
    ["findroot.py", "roots.py", "rootsinfo.py", "tangents.py", "grid.py"],
    ["text_process.py", "coeff.py", "form.py", "polytools.py"],
    ["basic.py", "symmetric.py", "symsos.py", "representation.py"],
]


def policy(rng, span=60000):
    f = rng.choice(WEB_FOCI)
    if rng.random() < 0.3:
        pol = {"mode": "pct", "depth": rng.choice([1, 2, 3, 5]), "span": rng.choice([2000, 20000, span])}
    else:
        pol = {"mode": "random", "p": rng.choice([0.5, 0.2, 0.05, 0.02, 0.005] if f else [0.02, 0.005, 0.002])}
    return {"focus": f, "policy": pol}


class Web:
    """Real Flask + real python-socketio rooms; the wire is an in-process
    transport (flask_socketio's test client) that records what each client got."""

    def __init__(self):
        import logging
        logging.disable(logging.CRITICAL)
        import web_main
        self.m = web_main
        self.app = web_main.app
        self.sio = web_main.socketio

    def connect(self):
        c = self.sio.test_client(self.app)
        c.dst_sid = self.sio.server.manager.sid_from_eio_sid(c.eio_sid, "/")
        return c

    def post(self, path, payload):
        h = self.app.test_client()
        try:
            r = h.post(path, data=json.dumps(payload), content_type="application/json")
        except Exception as e:      # an unhandled error in the view function
            return None, "%s: %s" % (type(e).__name__, e)
        try:
            return r.status_code, r.get_json(silent=True)
        except Exception:
            return r.status_code, None


def norm_event(ev):
    a = ev["args"]
    p = dict(a[0]) if isinstance(a, list) and a and isinstance(a[0], dict) else {"raw": a}
    return ev["name"], p


def strip(req):
    return {k: req[k] for k in sorted(req)}
