"""S02: semidefinite problems that report success hold exact feasible solutions."""
import copy
import hashlib
from fractions import Fraction as Fr
from .. import corpus as K

TITLE = "a semidefinite problem that reports success holds an exact feasible solution, after any history"
RUNS = {"quick": 1200, "thorough": 60000}
TIMEOUT = 25
HANG = False
RULE = ("each run: one semidefinite problem with seeded data (dual, parametric dual, from equations, or primal; 1-3 blocks of size 1-4; feasible "
        "with planted solution, singular, or infeasible) and 3-10 operations on random nodes of its reduction graph (null space, column space, "
        "symmetry, equal entries, zero diagonals, deparametrisation, dualisation, solve with any options, register exact/numeric/invalid "
        "points); cvxopt answers are replaced per call by seeded faults; non-trivial: at least one solve or registration reported success "
        "and a reduction or fault occurred")
REAL = ["triples.sdp (problems, transforms, rationalisation, exact linear algebra, back-end adapters)", "cvxopt and picos when not faulted"]
STUB = ["the faulted answers of cvxopt.solvers.sdp/conelp"]
ASSUME = ["Python fractions", "sympy matrices return the entries they store"]


# ------------------------------------------------------------------- generation
def _sym(rng, n, lo=-3, hi=3, zero=0.3):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            m[i][j] = m[j][i] = 0 if rng.random() < zero else rng.randint(lo, hi)
    return m


def _psd(rng, n, rank):
    vs = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(rank)]
    return [[sum(v[i] * v[j] for v in vs) for j in range(n)] for i in range(n)]


def gen_root(rng):
    kind = rng.choice(["matrix", "matrix", "matrix", "param", "equations", "equations", "full", "primal", "primal", "primal"])
    nb = rng.choice([1, 1, 2, 2, 3])
    sizes = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(nb)]
    root = {"kind": kind, "sizes": sizes, "dict": rng.random() < 0.7}
    S = [_psd(rng, n, rng.randint(0 if n > 1 else 1, n)) for n in sizes]
    if rng.random() < 0.5:
        for m in S:
            if rng.random() < 0.7:
                for i in range(len(m)):
                    m[i][i] += 1
    if rng.random() < 0.4:                                 # a zero row
        m = rng.choice(S)
        i = rng.randrange(len(m))
        for j in range(len(m)):
            m[i][j] = m[j][i] = 0
    root["S"] = S
    if kind in ("matrix", "param", "full"):
        dof = rng.choice([0, 1, 1, 2, 2, 3, 4]) if kind != "param" else rng.choice([0, 1, 2, 3])
        zr = [[i for i in range(n) if rng.random() < 0.15] for n in sizes]     # rows untouched by any parameter
        root["A"] = []
        for _ in range(dof):
            ms = [_sym(rng, n, zero=0.5) for n in sizes]
            for m, z in zip(ms, zr):
                for i in z:
                    for j in range(len(m)):
                        m[i][j] = m[j][i] = 0
            root["A"].append(ms)
        root["y"] = ["%d/%d" % (rng.randint(-4, 4), rng.choice([1, 1, 1, 2, 3])) for _ in range(dof)]
        if kind == "full" and rng.random() < 0.6:           # asymmetric spaces: constrain_symmetry needed
            root["asym"] = rng.randrange(10 ** 6)
        if kind == "param":
            k = rng.choice([1, 2])
            root["B"] = [[_sym(rng, n, zero=0.5) for n in sizes] for _ in range(k)]
            root["t"] = [rng.randint(-3, 3) for _ in range(k)]
    else:
        m = rng.choice([1, 2, 2, 3, 4, 5])
        root["eqs"] = [[_sym(rng, n, zero=0.5) for n in sizes] for _ in range(m)]
        if rng.random() < 0.25:                              # force zero diagonals: sum of some diagonals = 0
            row = [[[0] * n for _ in range(n)] for n in sizes]
            b = rng.randrange(nb)
            i = rng.randrange(sizes[b])
            row[b][i][i] = rng.randint(1, 3)
            for j in range(sizes[b]):
                S[b][i][j] = S[b][j][i] = 0
            root["eqs"].append(row)
        if rng.random() < 0.2:
            root["eqs"].append(copy.deepcopy(rng.choice(root["eqs"])))      # redundant
    if rng.random() < 0.15:
        root["spoil"] = rng.randint(1, 6)                   # (usually) infeasible
    return root


def gen(rng, tier, index):
    root = gen_root(rng)
    ops = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        r = rng.random()
        node = rng.choice([0, 0, -1, -1, -1, rng.randrange(8)])
        if r < 0.42:
            op = {"op": "solve", "node": node, "child": rng.random() < 0.75, "prop": rng.random() < 0.85}
            if rng.random() < 0.08:
                op["numer"] = rng.choice([1, 2, 3])
            if rng.random() < 0.3:
                op["solver"] = rng.choice(["cvxopt", "picos"])
            if rng.random() < 0.25:
                op["obj"] = rng.randrange(10 ** 6)
            if rng.random() < 0.25:
                op["eig"] = rng.choice([0, 0.1, [1, 0], 1])
            if rng.random() < 0.2:
                op["defaults"] = rng.choice([0, 2])
            if rng.random() < 0.15:
                op["scaling"] = rng.choice([0, 1, 50])
            if rng.random() < 0.3:
                op["raise"] = True
        elif r < 0.58:
            op = {"op": "register", "node": node, "y": rng.choice(["planted", "planted", "random", "random", "numpy", "old", "wrong"]),
                  "seed": rng.randrange(10 ** 6), "project": rng.random() < 0.8, "prop": rng.random() < 0.85,
                  "perturb": rng.random() < 0.1}
        else:
            op = {"op": rng.choice(["null", "null", "null", "col", "sym", "equal", "diag", "diag", "deparam", "dual"]), "node": node,
                  "seed": rng.randrange(10 ** 6), "true": rng.random() < 0.75, "to_child": rng.random() < 0.3}
        ops.append(op)
    if rng.random() < 0.8:
        ops.append({"op": "solve", "node": rng.choice([0, -1]), "child": True, "prop": True})
    faults = {}
    if rng.random() < 0.6:
        if rng.random() < 0.25:
            faults["sdp"] = {"*": K.fault(rng, "sdp")}
        else:
            faults["sdp"] = {str(rng.randrange(10)): K.fault(rng, "sdp") for _ in range(rng.choice([1, 1, 2, 3]))}
        if rng.random() < 0.15:
            faults["linalg"] = {str(rng.randrange(10)): K.fault(rng, "linalg")}
    return {"root": root, "ops": ops, "faults": faults}


# ------------------------------------------------------------------- exact helpers
def frac(x):
    import sympy as sp
    x = sp.sympify(x)
    if x.is_Rational:
        return Fr(int(x.p), int(x.q))
    return None


def mat(m):
    """sympy matrix -> list of lists of Fractions, or None when not exact."""
    out = [[frac(m[i, j]) for j in range(m.shape[1])] for i in range(m.shape[0])]
    return None if any(v is None for row in out for v in row) else out


def psd(m):
    m = [row[:] for row in m]
    n = len(m)
    if any(m[i][j] != m[j][i] for i in range(n) for j in range(i)):
        return False
    alive = list(range(n))
    while alive:
        k = next((i for i in alive if m[i][i] != 0), None)
        if k is None:
            return all(m[i][j] == 0 for i in alive for j in alive)
        if m[k][k] < 0:
            return False
        alive.remove(k)
        for i in alive:
            f = m[i][k] / m[k][k]
            if f:
                for j in alive:
                    m[i][j] -= f * m[k][j]
                m[i][k] = Fr(0)
        for i in alive:
            m[k][i] = Fr(0)
    return True


def rank(m):
    m = [row[:] for row in m]
    r = 0
    for c in range(len(m[0]) if m else 0):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(r + 1, len(m)):
            f = m[i][c] / m[r][c]
            if f:
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        r += 1
    return r


class Node:
    def __init__(self, sdp, affine=None, eqs=None, parent=None, kind=None, data=None, same=False):
        self.sdp, self.parent, self.kind, self.data = sdp, parent, kind, data
        self.affine, self.eqs, self.same = affine, eqs, same
        self.keys = list(sdp.keys())

    def want(self, y):
        """The matrices the stored vector must give (exact), or None when unknown."""
        y = [frac(v) for v in y]
        if any(v is None for v in y):
            return None
        if self.affine is not None:
            C, A = self.affine
            if len(y) != len(A):
                return "the stored vector has %d entries, the problem has %d parameters" % (len(y), len(A))
            return {k: [[C[k][i][j] + sum((a * M[k][i][j] for a, M in zip(y, A)), Fr(0)) for j in range(len(C[k]))] for i in range(len(C[k]))]
                    for k in C}
        out, pos = {}, 0
        for k in self.keys:
            n = self.sdp.get_size(k)
            out[k] = [[y[pos + i * n + j] for j in range(n)] for i in range(n)]
            pos += n * n
        return out


def child_affine(sdp):
    """Affine data of a reduced dual problem, read once through the public symbolic matrices."""
    syms = list(sdp.free_symbols)
    C, A = {}, [dict() for _ in syms]
    z = {s: 0 for s in syms}
    for k, M in sdp.S_from_y().items():
        n = M.shape[0]
        C[k] = mat(M.xreplace(z)) if n else []
        if C[k] is None:
            return None
        for a, s in zip(A, syms):
            d = mat(M.diff(s)) if n else []
            if d is None:
                return None
            a[k] = d
    return C, A


def make_root(r):
    import sympy as sp
    from triples.sdp import SDPProblem, SDPPrimal
    import random
    keys = ["K%d" % i for i in range(len(r["sizes"]))]
    names = keys if r["dict"] else ["S_%d" % i for i in range(len(r["sizes"]))]
    S = [[[Fr(v) for v in row] for row in m] for m in r["S"]]
    kind = r["kind"]
    info = {"names": names, "S": dict(zip(names, S)), "y": None}

    def spm(m):
        return sp.Matrix(len(m), len(m), lambda i, j: sp.Rational(m[i][j].numerator, m[i][j].denominator)) if m else sp.zeros(0, 0)

    def vec(m):
        return sp.Matrix(len(m) ** 2, 1, [sp.Rational(v.numerator, v.denominator) if isinstance(v, Fr) else v for row in m for v in row])
    if kind in ("matrix", "param", "full"):
        y = [Fr(v) for v in r["y"]]
        C = [[[S[b][i][j] - sum((yy * A[b][i][j] for yy, A in zip(y, r["A"])), Fr(0)) for j in range(n)] for i in range(n)]
             for b, n in enumerate(r["sizes"])]
        if "spoil" in r:
            C[0][0][0] -= r["spoil"]
            info["S"] = None
        A = [{nm: [[Fr(v) for v in row] for row in M[b]] for b, nm in enumerate(names)} for M in r["A"]]
        syms = sp.symbols("u0:%d" % len(y))
        info["y"] = y if "spoil" not in r else None
        Cd = dict(zip(names, C))
        if kind == "matrix":
            mats = [sp.Matrix(spm(C[b])) + sum((s * spm(a[names[b]]) for s, a in zip(syms, A)), sp.zeros(n)) for b, n in enumerate(r["sizes"])]
            used = [k for k, s in enumerate(syms) if any(s in m.free_symbols for m in mats)]
            info["y"] = [y[k] for k in used] if info["y"] is not None else None
            A = [A[k] for k in used]
            arg = dict(zip(keys, mats)) if r["dict"] else (mats if len(mats) > 1 else mats[0])
            sdp = SDPProblem.from_matrix(arg)
            return Node(sdp, (Cd, A)), info
        if kind == "param":
            ts = sp.symbols("t0:%d" % len(r["t"]))
            xs = {}
            for b, nm in enumerate(names):
                x = vec(C[b])
                for t, t0, B in zip(ts, r["t"], r["B"]):
                    x += (t - t0) * vec([[Fr(v) for v in row] for row in B[b]])
                xs[nm] = (x, sp.Matrix.hstack(*[vec(a[nm]) for a in A]) if A else sp.zeros(len(C[b]) ** 2, 0))
            sdp = SDPProblem(xs)
            nd = Node(sdp)
            nd.affine = None
            nd.param = True
            info["param"] = True
            return nd, info
        # full
        x0 = sp.Matrix.vstack(*[vec(c) for c in C])
        cols = []
        rr = random.Random(r.get("asym", 0))
        for a in A:
            cols.append(sp.Matrix.vstack(*[vec(a[nm]) for nm in names]))
        if "asym" in r:
            # split one space vector into two asymmetric halves, summing to it
            n = max(r["sizes"])
            if n > 1 and cols:
                k = rr.randrange(len(cols))
                d = sp.zeros(*cols[k].shape)
                for i in range(d.shape[0]):
                    d[i] = rr.choice([0, 0, 1, -1])
                cols.append(d)
                info["asym"] = True
                A.append({nm: None for nm in names})
                pos = 0
                for b, nm in enumerate(names):
                    m = r["sizes"][b]
                    A[-1][nm] = [[frac(d[pos + i * m + j]) for j in range(m)] for i in range(m)]
                    pos += m * m
                info["y"] = None
        space = sp.Matrix.hstack(*cols) if cols else sp.zeros(x0.shape[0], 0)
        splits = dict(zip(keys, r["sizes"])) if r["dict"] else list(r["sizes"])
        sdp = SDPProblem.from_full_x0_and_space(x0, space, splits, constrain_symmetry="asym" in info)
        nd = Node(sdp, child_affine(sdp))
        nd.span = (x0, space)
        return nd, info
    rows, rhs = [], []
    for e in r["eqs"]:
        rows.append([Fr(v) for m in e for row in m for v in row])
        rhs.append(sum((Fr(e[b][i][j]) * S[b][i][j] for b, n in enumerate(r["sizes"]) for i in range(n) for j in range(n)), Fr(0)))
    if "spoil" in r:
        rhs[0] = rhs[0] - 50 * r["spoil"]
        info["S"] = None
    eqs = sp.Matrix([[sp.Rational(v.numerator, v.denominator) for v in row] for row in rows])
    b = sp.Matrix([sp.Rational(v.numerator, v.denominator) for v in rhs])
    if kind == "equations":
        splits = dict(zip(keys, r["sizes"])) if r["dict"] else list(r["sizes"])
        sdp = SDPProblem.from_equations(eqs, b, splits)
        nd = Node(sdp, child_affine(sdp), (rows, rhs))
        return nd, info
    space, pos = {}, 0
    for nm, n in zip(names, r["sizes"]):
        space[nm] = eqs[:, pos:pos + n * n]
        pos += n * n
    sdp = SDPPrimal(b, space)
    return Node(sdp, None, (rows, rhs)), info


# ------------------------------------------------------------------- invariant
def inexact_parts(nd):
    """Does a decomposition hold a float? (only possible after the caller allowed numerical answers)"""
    for d in nd.sdp.decompositions.values():
        if not isinstance(d, tuple) or len(d) != 2 or any(frac(x) is None for part in d for x in part):
            return True
    return False


def exact(nd, numeric=False):
    """None when the node holds nothing or a numerical solution, else its exact matrices."""
    import sympy as sp
    s = nd.sdp
    if s.y is None or not isinstance(s.y, sp.MatrixBase) or any(frac(v) is None for v in s.y):
        return None
    got = {k: mat(M) for k, M in s.S.items()} if s.S is not None else {}
    if numeric and nd.sdp.decompositions is not None and inexact_parts(nd):
        return None
    return None if any(m is None for m in got.values()) else got


def check_node(nd, label, numeric=False):
    import sympy as sp
    s, out = nd.sdp, []
    if s.y is None:
        return out
    if s.S is None or s.decompositions is None:
        return [("incomplete", "%s: a vector is stored without its matrices or decompositions" % label)]
    if not isinstance(s.y, sp.MatrixBase) or any(frac(v) is None for v in s.y):
        return out                                   # a numerical solution, explicitly allowed by the caller
    if set(s.S) != set(nd.keys) or set(s.decompositions) != set(nd.keys):
        return [("incomplete", "%s: matrices %s, decompositions %s, problem blocks %s" % (
            label, sorted(s.S), sorted(s.decompositions), sorted(nd.keys)))]
    if numeric and inexact_parts(nd):
        return out
    got = {}
    for k, M in s.S.items():
        got[k] = mat(M)
        if got[k] is None and numeric:
            return out
        if got[k] is None:
            return [("inexact", "%s: block %s of an exact vector is not rational: %s" % (label, k, M))]
    want = nd.want(s.y) if not hasattr(nd, "param") else None
    if isinstance(want, str):
        return [("inconsistent", "%s: %s" % (label, want))]
    if want is not None and want != got:
        out.append(("inconsistent", "%s: stored matrices %s are not those of the stored vector %s (expected %s)" % (
            label, {k: show(v) for k, v in got.items()}, list(s.y), {k: show(v) for k, v in want.items()})))
    if nd.eqs is not None:
        v = [x for k in nd.keys for row in got[k] for x in row]
        for row, b in zip(*nd.eqs):
            if len(row) == len(v) and sum((a * x for a, x in zip(row, v)), Fr(0)) != b:
                out.append(("equation", "%s: the stored matrices %s violate an equation of the problem" % (label, {k: show(m) for k, m in got.items()})))
                break
    for k, m in got.items():
        if not psd(m):
            out.append(("not-psd", "%s: block %s = %s is not positive semidefinite" % (label, k, show(m))))
        if not isinstance(s.decompositions[k], tuple) or len(s.decompositions[k]) != 2:
            out.append(("decomposition", "%s: block %s has the decomposition %s" % (label, k, s.decompositions[k])))
            continue
        U, d = s.decompositions[k][0], s.decompositions[k][1]
        U, d = mat(sp.Matrix(U)), [frac(x) for x in d]
        if U is None or any(x is None for x in d):
            out.append(("decomposition", "%s: block %s has an inexact decomposition" % (label, k)))
            continue
        if any(x < 0 for x in d):
            out.append(("decomposition", "%s: block %s has a negative diagonal %s" % (label, k, [str(x) for x in d])))
        n = len(m)
        back = [[sum((d[r] * U[r][i] * U[r][j] for r in range(len(d))), Fr(0)) for j in range(n)] for i in range(n)] \
            if (not U or len(U[0]) == n) and len(U) == len(d) else None
        if back != m and n:
            out.append(("decomposition", "%s: the decomposition of block %s gives %s, not %s" % (label, k, back and show(back), show(m))))
    return out


def show(m):
    return [[str(v) for v in row] for row in m]


def link(parent, child, label, numeric=False):
    """Both hold exact solutions of one propagation: the parent's must be the image of the child's."""
    P, C = exact(parent, numeric), exact(child, numeric)
    if P is None or C is None:
        return []
    out = []
    if child.same:
        if any(P.get(k) != C.get(k) for k in P):
            out.append(("link", "%s: parent matrices %s differ from child matrices %s" % (
                label, {k: show(v) for k, v in P.items()}, {k: show(v) for k, v in C.items()})))
    else:
        for k in P:
            if rank(P[k]) != rank(C.get(k, [])):
                out.append(("link", "%s: block %s has rank %d in the parent, %d in the child" % (label, k, rank(P[k]), rank(C.get(k, [])))))
    if child.kind == "null":
        for k, N in child.data.items():
            if any(sum((a * b for a, b in zip(row, col)), Fr(0)) for row in P[k] for col in N):
                out.append(("restriction", "%s: block %s = %s does not vanish on %s" % (label, k, show(P[k]), [[str(x) for x in c] for c in N])))
    if child.kind == "col":
        for k, U in child.data.items():
            if rank([c[:] for c in U]) != rank([c[:] for c in U] + P[k]):
                out.append(("restriction", "%s: block %s = %s has columns outside %s" % (label, k, show(P[k]), [[str(x) for x in c] for c in U])))
    if child.kind == "equal":
        for k, ts in child.data.items():
            for (i, j), (p, q) in ts:
                if P[k][i][j] != P[k][p][q]:
                    out.append(("restriction", "%s: entries %s and %s of block %s differ" % (label, (i, j), (p, q), k)))
    return out


# ------------------------------------------------------------------- run
def nullvectors(m, rng, n):
    """Rational vectors in the kernel of m (exact)."""
    a = [row[:] for row in m]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(a)) if a[i][c] != 0), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        a[r] = [x / a[r][c] for x in a[r]]
        for i in range(len(a)):
            if i != r and a[i][c]:
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    basis = []
    for f in free:
        v = [Fr(0)] * n
        v[f] = Fr(1)
        for i, c in enumerate(piv):
            v[c] = -a[i][f]
        basis.append(v)
    rng.shuffle(basis)
    return basis[:rng.randint(0, len(basis))] if basis else []


def colmat(vs, n):
    import sympy as sp
    if not vs:
        return sp.zeros(n, 0)
    return sp.Matrix(n, len(vs), lambda i, j: sp.Rational(vs[j][i].numerator, vs[j][i].denominator))


def run(spec):
    import random
    import warnings
    import numpy as np
    import sympy as sp
    from .. import seams
    from triples.sdp.ipm import SDPRationalizeError
    warnings.simplefilter("ignore")
    viol, log, count = [], [], {}
    seams.F.plan = spec["faults"]

    def bump(k, n=1):
        count[k] = count.get(k, 0) + n
    made = False
    try:
        root, info = make_root(spec["root"])
        made = True
    except ValueError as e:
        log.append(["root", "ValueError", str(e)[:80]])
        bump("root_rejected")
        if info_feasible(spec["root"]):
            viol.append({"class": "root", "msg": "a feasible problem could not be built: %s (%s)" % (e, spec["root"]["kind"])})
    nodes = [root] if made else []
    planted = {}                       # node index -> exact planted matrices

    def idx(sdp):
        for i, nd in enumerate(nodes):
            if nd.sdp is sdp:
                return i
        return None

    def state():
        return [(nd.sdp.y, nd.sdp.S, nd.sdp.decompositions) for nd in nodes]

    def ancestors(i):
        out = []
        while nodes[i].parent is not None:
            i = nodes[i].parent
            out.append(i)
        return out
    ok = reduced = 0
    numeric = False                    # has the caller allowed a numerical solution yet?
    for n, op in enumerate(spec["ops"] if made else []):
        i = op["node"] % len(nodes) if op["node"] >= 0 else len(nodes) - 1
        nd = nodes[i]
        r = random.Random(op.get("seed", 0))
        seams.F.on = True
        f0 = len(seams.F.log)
        before = state()
        numeric = numeric or bool(op.get("numer")) or op.get("y") == "numpy"
        entry = [n, op["op"], i]
        what = "op %d %s on node %d of a %s problem" % (n, op["op"], i, spec["root"]["kind"])
        try:
            if op["op"] == "solve":
                target = nd.sdp.get_last_child() if op["child"] else nd.sdp
                t = idx(target)
                if getattr(target, "is_primal", False):
                    kw_solver = {"solver": "picos"} if "solver" in op else {}
                elif t is not None and getattr(nodes[t], "param", False) and not root_reduced(target):
                    log.append(entry + ["skip"])        # a parametric problem must be deparametrised first
                    continue
                else:
                    kw_solver = {"solver": op["solver"]} if "solver" in op else {}
                kw = {"solve_child": op["child"], "propagate_to_parent": op["prop"], "raise_exception": bool(op.get("raise"))}
                if "numer" in op:
                    kw["allow_numer"] = op["numer"]
                kw.update(kw_solver)
                if "scaling" in op:
                    kw["scaling"] = op["scaling"]
                if "defaults" in op:
                    kw["use_default_configs"] = op["defaults"]
                if "obj" in op or "eig" in op:
                    kw["min_eigen"] = tuple(op["eig"]) if isinstance(op.get("eig"), list) else op.get("eig", 0)
                    q = random.Random(op.get("obj", 0))
                    kw["objective"] = np.array([q.choice([-1., 0., 0., 1.]) for _ in range(target.dof)]) if "obj" in op else np.zeros(target.dof)
                    kw["constraints"] = []
                try:
                    res = nd.sdp.solve(**kw)
                except SDPRationalizeError:
                    res = "SDPRationalizeError"
                entry += [t, str(res), seams.F.log[f0:]]
                if res is True:
                    ok += 1
                    bump("solved")
                    if t is None:
                        bump("unknown_target")
                    else:
                        S = nodes[t].sdp
                        if S.y is None:
                            viol.append({"class": "no-solution", "msg": "%s reported success but node %d holds no solution" % (what, t)})
                        elif not op.get("numer") and exact(nodes[t]) is None:
                            viol.append({"class": "inexact", "msg": "%s reported success (numerical answers not allowed) with vector %s" % (what, S.y)})
                        if op["prop"]:
                            c = t
                            for a in ancestors(t):
                                if nodes[a].sdp.y is None:
                                    viol.append({"class": "not-propagated", "msg": "%s succeeded on node %d but its ancestor %d holds no solution" % (what, t, a)})
                                    break
                                for cl, m in link(nodes[a], nodes[c], "%s, nodes %d and %d" % (what, a, c), numeric):
                                    viol.append({"class": cl, "msg": m})
                                bump("links")
                                c = a
                        else:
                            for a in ancestors(t):
                                if nodes[a].sdp.y is not before[a][0]:
                                    viol.append({"class": "propagated", "msg": "%s was told not to propagate but changed node %d" % (what, a)})
                elif res is False or res == "SDPRationalizeError":
                    bump("solve_failed")
                    lost(viol, nodes, before, what)
                else:
                    viol.append({"class": "result", "msg": "%s returned %r" % (what, res)})
            elif op["op"] == "register":
                if getattr(nd, "param", False) and not root_reduced(nd.sdp):
                    log.append(entry + ["skip"])
                    continue
                y, feas = make_y(nd, info, op, r, np, sp)
                entry.append(str(y)[:80])
                try:
                    nd.sdp.register_y(y, project=op["project"], perturb=op["perturb"] and op["y"] == "numpy", propagate_to_parent=op["prop"])
                    res = True
                except (ValueError, TypeError, AttributeError, ZeroDivisionError) as e:
                    res = type(e).__name__
                entry.append(str(res))
                if res is True:
                    ok += 1
                    bump("registered")
                    if feas is False:
                        viol.append({"class": "accepted", "msg": "%s accepted the infeasible point %s" % (what, y)})
                    if op["prop"] and op["y"] != "numpy":
                        c = i
                        for a in ancestors(i):
                            if nodes[a].sdp.y is None:
                                viol.append({"class": "not-propagated", "msg": "%s succeeded but its ancestor %d holds no solution" % (what, a)})
                                break
                            for cl, m in link(nodes[a], nodes[c], "%s, nodes %d and %d" % (what, a, c), numeric):
                                viol.append({"class": cl, "msg": m})
                            bump("links")
                            c = a
                else:
                    bump("register_rejected")
                    if feas is True:
                        viol.append({"class": "rejected", "msg": "%s rejected the feasible point %s with %s" % (what, y, res)})
                    lost(viol, nodes, before, what, same=op["y"] != "numpy")
            else:
                res = reduce(nd, i, op, r, nodes, info, idx)
                entry.append(res)
                if res == "new":
                    reduced += 1
                bump("reduce_" + res.split(":")[0])
                lost(viol, nodes[:len(before)], before, what, same=True)
        except Exception as e:
            seams.F.on = False
            import traceback
            at = [f for f in traceback.extract_tb(e.__traceback__) if "/triples/" in f.filename][-1:]
            at = "%s:%s" % (at[0].filename.split("/triples/")[1], at[0].name) if at else "harness"
            entry += ["raised", type(e).__name__, at, seams.F.log[f0:]]
            bump("raised")
            bump("raised:%s@%s%s" % (type(e).__name__, at, ":f" if len(seams.F.log) > f0 else ""))
            if at == "harness":
                raise
            if isinstance(e, ImportError):
                viol.append({"class": "missing-backend", "msg": "%s tried a back end that is not installed: %s" % (what, e)})
            elif op["op"] == "solve" and not numeric and not op.get("raise"):
                viol.append({"class": "crash", "msg": "%s raised %s: %s (from %s) instead of reporting failure, after faults %s" % (
                    what, type(e).__name__, str(e)[:200], at, seams.F.log)})
        finally:
            seams.F.on = False
        log.append(entry)
        for k, x in enumerate(nodes):
            for cl, m in check_node(x, "after %s: node %d" % (what, k), numeric):
                viol.append({"class": cl, "msg": m})
        if viol:
            break
    count["nodes"] = len(nodes)
    h = hashlib.sha1(repr(log).encode()).hexdigest()
    return {"violations": viol, "log": log, "digest": h, "fired": seams.F.fired, "work": ok, "count": count, "simtime": 0,
            "sched": h, "nontrivial": bool(ok and (reduced or seams.F.fired))}


def lost(viol, nodes, before, what, same=False):
    for k, nd in enumerate(nodes):
        if before[k][0] is not None and nd.sdp.y is None:
            viol.append({"class": "lost", "msg": "%s did not succeed but erased the solution stored in node %d" % (what, k)})
        elif same and nd.sdp.y is not before[k][0]:
            viol.append({"class": "changed", "msg": "%s did not succeed but changed the solution stored in node %d" % (what, k)})


def root_reduced(sdp):
    """No parameter is left in the constant part."""
    return not any(set(M.free_symbols) - set(sdp.free_symbols) for M in sdp.S_from_y().values())


def info_feasible(r):
    return "spoil" not in r and r["kind"] != "full"


def make_y(nd, info, op, r, np, sp):
    """-> (vector, True if surely feasible / False if surely not / None)"""
    dof = nd.sdp.dof
    kind = op["y"]

    def q(v):
        return sp.Rational(v.numerator, v.denominator)
    if kind == "wrong":
        return sp.Matrix([1] * (dof + 1)), False
    if kind == "planted" and nd.parent is None and nd.affine is not None and info["y"] is not None and len(info["y"]) == dof and dof:
        return sp.Matrix([q(v) for v in info["y"]]), True
    if kind == "planted" and nd.parent is None and nd.affine is None and info["S"] is not None and not info.get("param"):
        return sp.Matrix([q(x) for k in info["names"] for row in info["S"][k] for x in row]), True
    if kind == "old" and isinstance(nd.sdp.y, sp.MatrixBase) and exact(nd) is not None and dof:
        return nd.sdp.y.copy(), True
    if kind == "numpy":
        return np.array([r.uniform(-2, 2) for _ in range(dof)]), None
    y = sp.Matrix(dof, 1, [sp.Rational(r.randint(-4, 4), r.choice([1, 1, 2])) for _ in range(dof)])
    if not dof or getattr(nd, "param", None):
        return y, None
    if nd.affine is not None:
        w = nd.want(list(y))
        return y, (all(psd(m) for m in w.values()) if isinstance(w, dict) else None)
    if nd.eqs is not None and not op["project"]:
        w = nd.want(list(y))
        v = [frac(x) for x in y]
        return y, (all(psd(m) for m in w.values()) and all(sum((a * b for a, b in zip(row, v)), Fr(0)) == c for row, c in zip(*nd.eqs)))
    return y, None


def reduce(nd, i, op, r, nodes, info, idx):
    import sympy as sp
    kind = op["op"]
    s = nd.sdp
    primal = getattr(s, "is_primal", False)
    data, same, deep = None, False, False
    keys = list(s.keys())
    if kind in ("null", "col"):
        src = exact(nd) or (info["S"] if nd.parent is None else None)
        N = {}
        for k in keys:
            n = s.get_size(k)
            if op["true"] and src is not None and src.get(k):
                N[k] = nullvectors(src[k], r, n)
            elif op["true"] or r.random() < 0.5:
                N[k] = []
            else:
                N[k] = [[Fr(r.randint(-1, 1)) for _ in range(n)]]
        if kind == "col":
            U = {}
            for k in keys:
                n = s.get_size(k)
                src_ = [v[:] for v in N[k]]
                U[k] = nullvectors_all(src_, n)
                if r.random() < .3 and U[k]:
                    U[k].append([a + b for a, b in zip(U[k][0], U[k][-1])])
            data = U
        else:
            data = N
        mats = {k: colmat(data[k], s.get_size(k)) for k in keys}
    try:
        if kind == "null":
            deep = bool(op["to_child"])
            child = s.constrain_nullspace(mats, to_child=deep)
        elif kind == "col":
            child = s.constrain_subspace(mats)
        elif kind == "sym":
            child, same = s.constrain_symmetry(), True
        elif kind == "equal":
            if primal:
                return "skip"
            data = {}
            for k in keys:
                n = s.get_size(k)
                if n:
                    data[k] = [((r.randrange(n), r.randrange(n)), (r.randrange(n), r.randrange(n))) for _ in range(r.randint(0, 2))]
            child, same = s.constrain_equal_entries(data), True
        elif kind == "diag":
            child = s.constrain_zero_diagonals(recursive=r.random() < .7)
        elif kind == "deparam":
            if primal:
                return "skip"
            deep = op["to_child"]
            child, same = s.deparametrize(to_child=deep), True
        elif kind == "dual":
            if not primal:
                return "skip"
            child, same = s.to_dual(), True
    except (ValueError, NotImplementedError) as e:
        return "rejected:" + type(e).__name__
    if idx(child) is not None:
        return "identity"
    parents = [p for p in child.parents]
    chain = []
    cur = child
    while True:                         # several transforms may have been added at once
        ps = cur.parents
        if not ps:
            return "orphan"
        chain.append(cur)
        cur = ps[0]
        if idx(cur) is not None:
            break
    p = idx(cur)
    for k, c in enumerate(reversed(chain)):
        c_aff = None
        if not getattr(c, "is_primal", False):
            par = nodes[p]
            c_aff = child_affine(c) if not (getattr(par, "param", False) and kind != "deparam") else None
        x = Node(c, c_aff, None, p, kind if len(chain) == 1 and not deep else "deep", data, same)
        if c_aff is None and not getattr(c, "is_primal", False):
            x.param = True
        nodes.append(x)
        p = len(nodes) - 1
    return "new"


def nullvectors_all(vs, n):
    """Basis of the orthogonal complement of the span of vs."""
    import random

    class All(random.Random):
        def randint(self, a, b):
            return b

        def shuffle(self, x):
            pass
    return nullvectors(vs, All(0), n) if vs else [[Fr(int(i == j)) for j in range(n)] for i in range(n)]


def shrink(spec):
    for i in range(len(spec["ops"])):
        if len(spec["ops"]) > 1:
            s = copy.deepcopy(spec)
            del s["ops"][i]
            yield s
    yield from K.shrink_plan(spec)
    for i, op in enumerate(spec["ops"]):
        for k in ("solver", "obj", "eig", "defaults", "scaling", "raise", "numer"):
            if k in op:
                s = copy.deepcopy(spec)
                del s["ops"][i][k]
                yield s
    for key in ("A", "eqs"):
        for k in range(len(spec["root"].get(key, []))):
            if key == "A" or len(spec["root"]["eqs"]) > 1:
                s = copy.deepcopy(spec)
                del s["root"][key][k]
                if key == "A":
                    del s["root"]["y"][k]
                yield s
    if len(spec["root"]["sizes"]) > 1:
        for b in range(len(spec["root"]["sizes"])):
            s = copy.deepcopy(spec)
            del s["root"]["sizes"][b]
            del s["root"]["S"][b]
            for key in ("A", "eqs", "B"):
                for m in s["root"].get(key, []):
                    del m[b]
            yield s
