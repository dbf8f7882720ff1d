"""A pool of public calls shared by the history properties (S06-S10): every
operation is json, `prepare(op)` builds fresh arguments and a thunk, `canon`
turns any result into comparable json."""
import random

from . import corpus as K

# light problems: a history needs many of them
LIGHT = [i for i, p in enumerate(K.PROBLEMS) if len(p[1]) < 4]
TEXTS = [
    ("s(a2-ab)", "abc", "cyc"), ("s(a)2-3s(ab)", "abc", "cyc"), ("p(a-b)", "abc", "cyc"), ("s(a/(b+c))-3/2", "abc", "cyc"),
    ("x^2+2xy-y^3/3", "xyz", "sym"), ("s(a4b)+p(a)s(a2)", "abc", "sym"), ("s(ab)", "abcd", "cyc"), ("0", "abc", "cyc"), ("s(a)-a-b-c", "abc", "cyc"),
    ("(a+b)(b+c)(c+a)-8abc", "abc", "cyc"), ("s(a)s(1/a)-9", "abc", "cyc"), ("3", "abc", "cyc"), ("a2+b2-2ab", "ab", "sym"), ("s(a(b-c)2)", "abc", "cyc"),
    ("sqrt(2)a2+b2", "abc", "cyc"), ("s(a2)(x+1)", "abc", "cyc"), ("1.5a2-0.25b", "abc", "cyc"), ("\\frac{a}{b+c}+\\frac{b}{c+a}", "abc", "cyc"),
    ("a2++", "abc", "cyc"), ("(a+b", "abc", "cyc"), ("a/(b-b)", "abc", "cyc"), ("s(a2", "abc", "cyc"), ("p(a2+b2)-s(a6)/4", "abc", "sym"),
    ("s((a-b)2(a+b-c)2)", "abc", "cyc"), ("abcd-1", "abcd", "sym"), ("s(a3/(a2+ab+b2))-s(a)/3", "abc", "cyc"), ("x3-3x+2", "x", "cyc"),
]
GROUPS = {"triv": lambda n: [list(range(n))], "cyc": lambda n: [list(range(1, n)) + [0]],
          "sym": lambda n: [list(range(1, n)) + [0], [1, 0] + list(range(2, n))]}
ROOTS = ["s(a2)2-3s(a3b)", "s(a2-ab)", "s(a(a-b)(a-c))", "s(a4)-s(a3b)", "s(a3)-3abc", "s(a2b)-3abc", "s(a4-a2bc)", "s(a2)2-3s(ab3)", "s(a6)-3a2b2c2",
         "a2b4+a4b2+c6-3a2b2c2", "2a4+b4+c4-a2b2-a2c2-a2bc"]
UNI = ["x**2-2*x+2", "x**4-3*x**2+3", "x**3-3*x+2", "x**6-x**3+1", "(x-1)**2*(x+3)", "x**4+x+1", "2*x**2-x", "x**5-5*x+4", "x**4-2*x**2+1", "-x**2+1"]
POLYOPT = [("x**2+y**2-x*y-x", "xy", ["x+y-1"], []), ("x**3-3*x+y**2", "xy", [], []), ("x*y", "xy", ["1-x**2-y**2"], []), ("x+y", "xy", ["x*y-1"], []),
           ("x**2-2*x", "x", [], []), ("x**2+1", "x", ["-x**2-1"], []), ("x-y", "xy", ["x-y**2"], ["x+y-1"]),
           ("x**2+y**2-x*y-x", "xy", ["2*x-1", "1-y"], []), ("x**2-2*x", "x", ["2*x-1"], []), ("x+y**2", "xy", ["3-2*y", "x*y-1/4"], ["2*y-1"]),
           ("x*y+y", "xy", ["y-x", "x-1/2", "x+y-1", "5"], [])]
KINDS = ["sos", "sos", "sos", "solver", "solver", "manager", "parse", "set_poly", "forms", "batch", "sdp", "sdp", "primal", "findroot", "manager_roots",
         "kkt", "nroots", "rational", "univ", "polyopt", "pqr", "symrep", "monoms", "cyc", "render", "coeff", "linalg", "reduce", "resultant", "sanitize", "indent"]
FORMS = ["sdpform", "sdpform", "primalform", "sosproblem", "mono"]
KINDS = KINDS + FORMS
SOSP = ["s(a4-a2b2)", "s(a2)2-3s(a3b)", "s(a4)-abcs(a)", "s(a2-ab)", "s(a2+ab)", "s(a4+a2b2-a3b)", "s(a6-a2b2c2)"]


def gen_op(rng, kinds=KINDS, light=True):
    k = rng.choice(kinds)
    op = {"k": k}
    if k in ("sos", "manager", "solver"):
        op["p"] = list(K.PROBLEMS[rng.choice(LIGHT)]) if rng.random() < 0.75 else K.problem(rng)
        op["m"] = K.methods(rng)
        op["form"] = rng.choice(["poly", "expr", "dict", "dict", "polydict", "polyval"])
        if rng.random() < 0.35:
            op["cfg"] = {"LinearSOS": rng.choice([{}, {"lift_degree_limit": 1}, {"preordering": "none"}, {"quad_diff_order": 4},
                                                  {"linprog_options": {"method": "highs-ds"}}, {"linprog_options": {"method": "highs", "options": {"presolve": False}}}]),
                         "SDPSOS": rng.choice([{}, {"lift_degree_limit": 1}, {"degree_limit": 6}, {"deparametrize": False}, {"solver": "cvxopt"},
                                               {"solver_options": {"maxiters": 30}}, {"ineq_constraints_with_trivial": False}])}
            if rng.random() < 0.2:
                op["cfg"].pop(rng.choice(list(op["cfg"])))
        if k == "solver":
            op["m"] = [rng.choice(K.METHODS)]
            if op["m"][0] == "LinearSOS" and rng.random() < 0.3:
                op["tangents"] = ["%s-%s" % (op["p"][1][0], op["p"][1][-1])]
        if k == "manager":
            op["quiet"] = rng.random() < 0.4
            op["perm"] = rng.choice(["cyc", "sym", "triv"])
    elif k in ("parse", "set_poly", "forms", "render", "indent"):
        op["t"] = list(rng.choice(TEXTS))
        op["o"] = rng.randrange(1000)
    elif k == "batch":
        op["ts"] = [rng.choice(["s(a2-ab)", "a2-2ab+b2", "s(a3)-3abc", "s(a2b)-3abc", "s(a)(", "s(a2)-2s(ab)", "s(a4-a2bc)", "0"]) for _ in range(rng.choice([1, 2, 3]))]
        op["m"] = rng.choice([["StructuralSOS"], ["LinearSOS"], ["SDPSOS"], None])
        op["iq"] = rng.random() < 0.5
        op["cfg"] = rng.choice([None, {}, {"LinearSOS": {"quad_diff_order": 4}}, {"SDPSOS": {"degree_limit": 8}}])
        op["quiet"] = rng.random() < 0.5
    elif k in ("sdp", "primal", "reduce"):
        n = rng.choice([2, 2, 3])
        dof = rng.choice([1, 2, 3])
        op["n"] = n
        op["mats"] = [[[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)] for _ in range(dof + 1)]
        op["form"] = rng.choice(["matrix", "dict", "list"])
        op["solver"] = rng.choice([None, None, "cvxopt", "picos"])
        op["opts"] = rng.choice([{}, {}, {"maxiters": 5}, {"feastol": 1e-4}, {"abstol": 1e-3, "reltol": 1e-3}, {"maxiters": 1}])
        op["obj"] = rng.random() < 0.4
        op["eig"] = rng.choice([0, 0, 0.1, [1, 0]])
        op["o"] = rng.randrange(1000)
    elif k in ("findroot", "manager_roots", "resultant"):
        op["t"] = rng.choice(ROOTS[:7] if k == "resultant" else ROOTS)
        op["method"] = rng.choice(["nsolve", "nsolve", "bfgs", "l-bfgs-b", "cg"]) if k == "findroot" else None
        op["std"] = rng.choice(["partial", "simplex"])
        op["grid"] = rng.random() < 0.5
    elif k in ("kkt", "sanitize"):
        op["p"] = list(K.PROBLEMS[rng.choice(LIGHT)])
        op["o"] = rng.randrange(1000)
    elif k in ("nroots", "univ"):
        op["t"] = rng.choice(UNI)
        op["o"] = rng.randrange(1000)
    elif k == "rational":
        op["v"] = [rng.choice([0.333333333, 0.5, 1.41421356237, 2.7182818, 1e-9, 7.0, -0.285714285714, 123.456]) for _ in range(rng.choice([1, 3]))]
        op["o"] = rng.randrange(1000)
    elif k == "polyopt":
        op["i"] = rng.randrange(len(POLYOPT))
        op["box"] = rng.choice(["scalar", "list", "tuple", "array"])
        op["seed"] = rng.randrange(10000)
    elif k in ("pqr", "symrep", "coeff", "cyc"):
        op["t"] = rng.choice(["s(a2-ab)", "s(a)2s(ab)", "s(a3)-3abc", "s(a2b2)-abcs(a)", "s(a4)", "p(a+b)", "s(a3b)+s(ab3)", "s(a2b)" if k != "symrep" else "s(a2)"])
        op["o"] = rng.randrange(1000)
    elif k == "monoms":
        op["nv"] = rng.choice([1, 2, 3, 3, 4])
        op["d"] = rng.choice([0, 1, 2, 3, 4, 5])
        op["g"] = rng.choice(["triv", "cyc", "sym"])
        op["hom"] = rng.random() < 0.7
        op["o"] = rng.randrange(1000)
    elif k in ("sdpform", "primalform"):
        n = rng.choice([2, 2, 3])
        op["n"] = n
        op["mats"] = [[[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)] for _ in range(rng.choice([2, 3]))]
        op["o"] = rng.randrange(10 ** 6)
        op["calls"] = [rng.choice(["null", "col", "sym", "equal", "diag", "deparam", "solve", "solve", "solveopt", "register", "dual"])
                       for _ in range(rng.choice([1, 2, 3]))]
    elif k == "sosproblem":
        op["t"] = rng.choice(SOSP)
        op["g"] = rng.choice(["triv", "cyc"])
        op["iq"] = rng.random() < 0.5
        op["eq"] = rng.random() < 0.2
        op["o"] = rng.randrange(1000)
    elif k == "mono":
        op["o"] = rng.randrange(10 ** 6)
        op["box"] = rng.choice(["list", "tuple", "array"])
        op["seed"] = rng.randrange(10000)
    elif k == "linalg":
        n = rng.choice([2, 3, 4])
        op["a"] = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(rng.choice([2, 3]))]
        op["o"] = rng.randrange(1000)
    return op


def gen_faults(rng):
    """Faults that are a function of what the back end is asked, so that the
    same call meets the same failure whatever ran before it."""
    plan = {}
    for kind in ("lp", "sdp", "roots", "min", "linalg"):
        if rng.random() < 0.4:
            plan[kind] = {"#": {"rate": rng.choice([0.2, 0.5, 1.0]), "seed": rng.randrange(10 ** 6),
                                "specs": [K.fault(rng, kind) for _ in range(rng.choice([1, 2, 3]))]}}
    return plan


# ------------------------------------------------------------------ execution
def prepare(op):
    """-> (call, arguments to watch).  The thunk returns the raw result."""
    import numpy as np
    import sympy as sp
    from sympy.combinatorics import Permutation, PermutationGroup
    import triples.core as core
    import triples.utils as U
    from triples.core.sum_of_squares import sum_of_squares, sum_of_squares_multiple
    from triples.gui.sos_manager import SOS_Manager as M
    k = op["k"]
    r = random.Random(op.get("o", 0))

    def group(name, n):
        return PermutationGroup([Permutation(p) for p in GROUPS[name if n > 1 else "triv"](n)])
    if k in ("sos", "solver", "manager"):
        poly, gens, iq, eq = K.build(op["p"])
        form = op["form"]
        arg = poly.as_expr() if form == "expr" and k != "manager" else poly
        if form == "dict":
            iq = {g: sp.Function("G%d" % i)(*gens) for i, g in enumerate(iq)}
            eq = {g: sp.Function("H%d" % i)(*gens) for i, g in enumerate(eq)}
        elif form == "polydict":
            iq = {sp.Poly(g, *gens): sp.Symbol("g_%d" % i) for i, g in enumerate(iq)}
            eq = {sp.Poly(g, *gens): sp.Symbol("h_%d" % i) for i, g in enumerate(eq)}
        elif form == "polyval":
            iq = {g: sp.Poly(g, *gens) for g in iq}
            eq = {g: str(g) for g in eq}
        import copy
        cfg, m = copy.deepcopy(op.get("cfg")), copy.deepcopy(op["m"])
        if k == "sos":
            kw = {} if m is None and cfg is None else {"method_order": m, "configs": cfg}
            return (lambda: sum_of_squares(arg, iq, eq, **kw)), [arg, iq, eq, m, cfg]
        if k == "solver":
            kw = dict((cfg or {}).get(m[0], {}))
            if "tangents" in op:
                kw["tangents"] = [sp.sympify(t) for t in op["tangents"]]
            f = getattr(core, m[0])
            return (lambda: f(arg, iq, eq, **kw)), [arg, iq, eq, kw]
        perm = group(op["perm"], len(gens))
        cfg = cfg or {}

        def call():
            old = M.verbose
            M.verbose = not op["quiet"]
            try:
                return M.sum_of_squares(arg, iq, eq, gens, perm, m or list(core.METHOD_ORDER), cfg)
            finally:
                M.verbose = old
        return call, [arg, iq, eq, gens, m, cfg]
    if k in ("parse", "set_poly", "forms", "render", "indent"):
        text, g, grp = op["t"]
        gens = sp.symbols(" ".join(g)) if len(g) > 1 else (sp.Symbol(g),)
        perm = group(grp, len(g))
        if k == "indent":
            from triples.sdp.utils import indented_print
            quiet = r.random() < .2

            def call():
                with indented_print(2, verbose=not quiet):
                    p = U.pl(text, gens=gens, perm=perm)
                    print(p.as_expr())       # None for unreadable text: the block raises
                    return p
            return call, [gens]
        if k == "parse":
            rt = r.choice(["poly", "frac", "expr"])
            kw = {"gens": gens, "perm": perm}
            x = r.random()
            if x < 0.6:
                kw["return_type"] = rt
                if r.random() < .4:
                    kw["preserve_sqrt"] = r.random() < .5
                return (lambda: U.pl(text, **kw)), [gens, kw]
            if x < 0.75:
                from triples.utils.text_process import degree_of_zero
                return (lambda: degree_of_zero(text, **kw)), [kw]
            texts = [text, "s(a2-ab)" if len(g) > 2 else "a", "", "  "]
            pk = {"gens": gens, "perm": perm, "ignore_errors": r.random() < .7}
            return (lambda: list(U.PolyReader(texts, **pk))), [texts, pk]
        if k == "set_poly":
            kw = {"gens": gens, "perm": perm, "render_grid": r.random() < .4, "render_triangle": r.random() < .7,
                  "homogenize": r.random() < .2, "dehomogenize": r.choice([None, None, None, 1, "x"]),
                  "standardize_text": r.choice([None, None, "factor", "sort", "expand"]), "omit_mul": r.random() < .7, "omit_pow": r.random() < .7}
            return (lambda: M.set_poly(text, **kw)), [kw]
        if k == "forms":
            x = r.choice(["std", "fac", "lc", "lc2"])
            if x == "lc2":
                return (lambda: M.latex_coeffs(text, gens, perm, tabular=True, document=False)), [gens]
            poly = read(text, gens, perm)
            if poly is None:
                return (lambda: None), []
            if x == "std":
                return (lambda: U.poly_get_standard_form(poly, perm)), [poly]
            if x == "fac":
                return (lambda: U.poly_get_factor_form(poly, perm)), [poly]
            return (lambda: U.latex_coeffs(poly)), [poly]
        e = cycexpr(text, gens, perm)
        sol = U.SolutionSimple(problem=sp.Poly(gens[0] ** 2, *gens), solution=e, is_equal=True)
        style = r.choice(["str_latex", "str_txt", "str_formatted"])
        return (lambda: [getattr(sol, style), str(sol), str(e), e.doit()]), [sol]
    if k == "batch":
        gens = sp.symbols("a b c")
        iq = list(gens) if op["iq"] else []
        ts, m, cfg = list(op["ts"]), op["m"] and list(op["m"]), {a: dict(b) for a, b in (op["cfg"] or {}).items()}
        pr = {"gens": gens}
        m_ = m or list(core.METHOD_ORDER)
        return (lambda: sum_of_squares_multiple(ts, iq, [], m_, cfg, pr, False, verbose_sos=not op["quiet"], verbose_progress=False)), [ts, iq, m_, cfg, pr]
    if k in ("sdp", "reduce"):
        from triples.sdp import SDPProblem
        n = op["n"]
        ms = []
        for i, a in enumerate(op["mats"]):
            A = sp.Matrix(a)
            ms.append((A * A.T + sp.eye(n)) if i == 0 else A + A.T)
        ys = sp.symbols("y0:%d" % (len(ms) - 1))
        A = ms[0] + sum((y * m for y, m in zip(ys, ms[1:])), sp.zeros(n))
        arg = {"matrix": A, "dict": {"S": A, "T": sp.Matrix([[ys[0] + 3]])}, "list": [A, sp.Matrix([[5 - ys[-1]]])]}[op["form"]]
        if k == "reduce":
            return reduce_thunk(op, arg, r)
        so = dict(op["opts"])
        kw = {"solver": op["solver"], "solver_options": so}
        if op["solver"] == "picos" or op["solver"] is None and r.random() < .3:
            kw["solver_options"] = so = {}
        if op["obj"]:
            kw["objective"] = np.array([1.0] + [0.0] * (len(ys) - 1))
            kw["constraints"] = []
            kw["min_eigen"] = tuple(op["eig"]) if isinstance(op["eig"], list) else op["eig"]

        def call():
            s = SDPProblem.from_matrix(arg)
            ok = s.solve(**kw)
            return [ok, s.y, s.S, s.decompositions, s.as_params() if ok else None]
        return call, [arg, kw]
    if k == "primal":
        from triples.sdp import SDPPrimal
        n = op["n"]
        G = sp.Matrix(op["mats"][0])
        G = G * G.T + sp.eye(n)
        rows = [list(sp.Matrix(a) + sp.Matrix(a).T) for a in op["mats"][1:]]
        A = sp.Matrix(rows)
        x0 = A * sp.Matrix(list(G))
        space = {"S": A}
        kw = {"solver": None if op["solver"] == "cvxopt" else op["solver"]}

        def call():
            s = SDPPrimal(x0, space)
            ok = s.solve(**kw)
            return [ok, s.y, s.S, s.decompositions]
        return call, [x0, space, kw]
    if k in FORMS:
        return {"sdpform": sdpform, "primalform": primalform, "sosproblem": sosproblem, "mono": mono}[k](op, r)
    if k in ("findroot", "manager_roots", "resultant"):
        gens = sp.symbols("a b c")
        poly = U.pl(op["t"], gens=gens)
        if k == "resultant":
            return (lambda: U.findroot_resultant(poly)), [poly]
        grid = U.GridRender.render(poly) if op["grid"] else None
        if k == "manager_roots":
            return (lambda: M.findroot(poly, grid, verbose=False)), [poly, grid]
        from triples.core import root_tangents
        tg = root_tangents if op["std"] == "partial" else False
        return (lambda: U.findroot(poly, grid=grid, method=op["method"], standardize_method=op["std"], with_tangents=tg)), [poly, grid]
    if k == "kkt":
        poly, gens, iq, eq = K.build(op["p"])
        iq, eq = list(iq), list(eq)
        as_poly = r.random() < .5
        return (lambda: U.kkt(poly if as_poly else poly.as_expr(), iq, eq, as_poly=as_poly, with_self=as_poly)), [poly, iq, eq]
    if k == "sanitize":
        poly, gens, iq, eq = K.build(op["p"])
        iq = {g: sp.Symbol("g%d" % i) for i, g in enumerate(iq)}
        eq = {g: sp.Symbol("h%d" % i) for i, g in enumerate(eq)}
        name = r.choice(["NegativeOrders", "coeff", "sym", "hull", "root"])
        if name == "coeff":
            return (lambda: [U.Coeff(poly).is_cyclic(), U.Coeff(poly).degree(), U.Coeff(poly).as_poly(*gens)]), [poly]
        if name == "sym":
            return (lambda: U.identify_symmetry(poly)), [poly]
        if name == "hull":
            return (lambda: [U.deg(poly), U.verify_hom_cyclic(poly), U.verify_is_symmetric(poly) if len(gens) == 3 else None]), [poly]
        return (lambda: core.sum_of_squares(poly, iq, eq, method_order=["StructuralSOS"])), [poly, iq, eq]
    if k in ("nroots", "univ"):
        x = sp.Symbol("x")
        poly = sp.Poly(sp.sympify(op["t"]), x)
        if k == "nroots":
            c = r.choice(["numpy", "sympy", "factor", "intervals", "near"])
            if c == "intervals":
                ps = [poly, sp.Poly(x - 1, x)]
                return (lambda: list(U.univariate_intervals(ps))), [ps]
            if c == "near":
                near = sp.Rational(r.choice([1, 2]))
                return (lambda: U.find_nearest_root(poly, near)), [poly]
            a, b = r.random() < .5, r.random() < .3
            return (lambda: U.nroots(poly, method=c, real=a, nonnegative=b)), [poly]
        iv = r.choice([None, (0, sp.oo), (0, 1), (-1, 2), (-sp.oo, sp.oo), (1, 3)])
        raw = r.random() < .5
        if iv is None:
            return (lambda: core.prove_univariate(poly, return_raw=raw)), [poly]
        return (lambda: core.prove_univariate_interval(poly, iv, return_raw=raw)), [poly, iv]
    if k == "rational":
        v = list(op["v"])
        c = r.choice(["one", "array", "bound", "cancel", "square", "curve", "conics"])
        x, y = sp.symbols("x y")
        if c == "one":
            a, b = r.choice([.5, 1e-2, 1e-5]), r.random() < .5
            return (lambda: U.rationalize(v[0], rounding=a, reliable=b)), []
        if c == "array":
            return (lambda: U.rationalize_array(v)), [v]
        if c == "bound":
            d = r.choice([-1, 0, 1])
            return (lambda: list(U.rationalize_bound(v[0], direction=d))), []
        if c == "cancel":
            q = [sp.Rational(r.randint(-9, 9), r.randint(1, 9)) for _ in range(4)] + [x]
            return (lambda: U.cancel_denominator(q)), [q]
        if c == "square":
            p, q = sp.Rational(r.randint(1, 40), 3), sp.Rational(r.randint(1, 40), 7)
            return (lambda: list(U.square_perturbation(p, q)) if p != q else None), []
        if c == "curve":
            pt = r.choice([{x: sp.S(1), y: sp.S(0)}, None, (sp.S(0), sp.S(1))])
            return (lambda: U.rationalize_quadratic_curve(x ** 2 + y ** 2 - 1, point=pt)), [pt]
        ps = [sp.Poly(1 - x ** 2 - y ** 2, x, y), sp.Poly(x - y ** 2, x, y)]
        return (lambda: U.common_region_of_conics(ps)), [ps]
    if k == "polyopt":
        text, g, iq, eq = POLYOPT[op["i"]]
        gens = sp.symbols(" ".join(g)) if len(g) > 1 else (sp.Symbol(g),)
        f = sp.Poly(sp.sympify(text), *gens)
        iq, eq = [sp.Poly(sp.sympify(t), *gens) for t in iq], [sp.Poly(sp.sympify(t), *gens) for t in eq]
        wrap = {"scalar": lambda v: v, "list": lambda v: [v] * len(g), "tuple": lambda v: (v,) * len(g), "array": lambda v: np.array([v] * len(g))}[op["box"]]
        a, b = wrap(0.), wrap(2.)

        def call():
            np.random.seed(op["seed"])
            return U.rpa_polyopt(f, iq, eq, a, b, tol=1e-2, eqtol=0.1, max_iter=150)
        return call, [f, iq, eq, a, b]
    if k == "pqr":
        gens = sp.symbols("a b c")
        poly = U.pl(op["t"], gens=gens)
        sy = r.choice([None, list(sp.symbols("p q r"))])
        if r.random() < .5:
            return (lambda: U.pqr_cyc(poly, sy)), [poly, sy]
        return (lambda: U.pqr_sym(poly, sy)), [poly, sy]
    if k == "symrep":
        gens = sp.symbols("a b c")
        poly = U.pl(op["t"], gens=gens)
        sy = list(sp.symbols("x y z"))
        rp = r.random() < .5
        me = r.choice(["real", "positive"])
        return (lambda: core.sym_representation(poly, sy, rp, me)), [poly, sy]
    if k == "coeff":
        gens = sp.symbols("a b c")
        poly = U.pl(op["t"], gens=gens)
        c = U.Coeff(poly)
        return (lambda: [c((1, 1, 0)), c.cancel_abc(), c.cancel_k(), c.poly111(), c.is_symmetric(), str((c + c).coeffs)]), [poly, c]
    if k == "cyc":
        gens = sp.symbols("a b c")
        perm = group(r.choice(["cyc", "sym"]), 3)
        e = cycexpr(op["t"], gens, perm)
        c = r.choice(["rewrite", "doit", "latex", "subs", "xreplace", "simplify"])
        if c == "rewrite":
            p2 = group(r.choice(["cyc", "sym", "triv"]), 3)
            return (lambda: U.rewrite_symmetry(e, gens, p2)), [e]
        return (lambda: {"doit": lambda: e.doit(), "latex": lambda: sp.latex(e), "subs": lambda: e.subs(gens[0], 2), "simplify": lambda: sp.signsimp(e),
                         "xreplace": lambda: e.xreplace({gens[0]: gens[1], gens[1]: gens[0]})}[c]()), [e]
    if k == "monoms":
        n, d = op["nv"], op["d"]
        mm = U.MonomialManager(n, group(op["g"], n), is_homogeneous=op["hom"])
        gens = sp.symbols("x0:%d" % n)

        def call():
            inv = mm.inv_monoms(d)
            poly = sp.Poly.from_dict({m: i + 1 for i, m in enumerate(inv)}, gens) if inv else None
            out = [list(inv), mm.length(d), mm.order()]
            if poly is not None:
                v = mm.arraylize_sp(poly, expand_cyc=False)
                out += [v, mm.arraylize_np(poly), mm.invarraylize(v, gens, d)]
            out += [U.generate_monoms(n, d, hom=op["hom"], cyc=op["g"] == "cyc", sym=op["g"] == "sym")]
            return out
        return call, [mm, gens]
    if k == "linalg":
        from triples.sdp import arithmetic as ar
        A = sp.Matrix(op["a"])
        b = A * sp.Matrix([r.randint(-2, 2) for _ in range(A.shape[1])])
        c = r.choice(["undet", "null", "cong", "mm"])
        if c == "undet":
            return (lambda: ar.solve_undetermined_linear(A, b)), [A, b]
        if c == "null":
            return (lambda: ar.solve_nullspace(A)), [A]
        if c == "mm":
            return (lambda: [ar.matmul(A, A.T), ar.symmetric_bilinear(A.T, A.T * A)]), [A]
        from triples.sdp import congruence
        S = A * A.T
        return (lambda: congruence(S)), [S]
    raise ValueError(k)


def sdpform(op, r):
    import numpy as np
    import sympy as sp
    from triples.sdp import SDPProblem
    n = op["n"]
    ms = [sp.Matrix(a) for a in op["mats"]]
    ms = [ms[0] * ms[0].T + sp.eye(n)] + [m + m.T if r.random() < .7 else m for m in ms[1:]]
    dof = len(ms) - 1
    x0 = sp.Matrix(list(ms[0]))
    space = sp.Matrix.hstack(*[sp.Matrix(list(m)) for m in ms[1:]])
    one = (sp.Matrix([2]), r.choice([sp.zeros(1, dof), sp.zeros(1, 0), sp.Matrix([[1] * dof])]))
    form = r.choice(["dict", "list", "syms", "full", "equations"])
    if form in ("dict", "syms"):
        arg = {"S": (x0, space), "T": one}
    elif form == "list":
        arg = [(x0, space), one]
    elif form == "full":
        arg = [sp.Matrix.vstack(x0, sp.Matrix([2])), sp.Matrix.vstack(space, sp.ones(1, dof)), {"S": n, "T": 1}]
    else:
        eq = sp.Matrix([list(m) + [1] for m in ms[1:]])
        arg = [eq, eq * sp.Matrix.vstack(x0, sp.Matrix([2])), {"S": n, "T": 1}]
    syms = list(sp.symbols("u0:%d" % dof))
    watch = [arg, syms]
    todo = []
    for c in op["calls"]:
        full = {"S": sp.eye(n), "T": sp.eye(1)} if form != "list" else {"S_0": sp.eye(n), "S_1": sp.eye(1)}
        key = list(full)[0]
        d = None
        if c == "null":
            d = dict(full)
            d[key] = sp.Matrix([1] + [0] * (n - 1))
            d[list(full)[1]] = sp.zeros(*r.choice([(1, 0), (0, 0)]))
        elif c == "col":
            d = dict(full)
            d[key] = sp.Matrix([[1], [1]] + [[0]] * (n - 2))
        elif c == "equal":
            d = {key: [((0, 0), (1, 1)), ((0, 1), (1, 0))]}
        elif c == "solveopt":
            d = {"objective": r.choice([[np.array([1.0] + [0.0] * (dof - 1)), np.zeros(dof)], None, syms[0], [syms[-1]]]),
                 "min_eigen": r.choice([0, [0, (1, 0)], {key: 0.01}, [(1, 0)], None]),
                 "constraints": r.choice([None, [], [syms[0] < 1], [[]], [[], [syms[0] >= -3]]]),
                 "solver_options": {"maxiters": r.choice([5, 50])} if r.random() < .5 else {}, "allow_numer": r.choice([0, 0, 1]),
                 "use_default_configs": r.choice([0, 1, 2, 2])}
            if r.random() < .5:           # lists of the same length, as the solver takes them
                m = r.choice([1, 2])
                d["objective"] = [r.choice(syms) if form == "syms" else np.array([1.0] * dof) for _ in range(m)]
                d["min_eigen"] = [r.choice([0, 0.01]) for _ in range(m)]
                d["constraints"] = [[] for _ in range(m)]
            elif form not in ("syms",):
                d["objective"] = None if not isinstance(d["objective"], list) or any(isinstance(v, sp.Basic) for v in d["objective"]) else d["objective"]
                d["constraints"] = None
        elif c == "register":
            d = sp.zeros(dof, 1) if r.random() < .5 else np.zeros(dof)
        todo.append((c, d))
        watch.append(d)

    def call():
        if form == "full":
            s = SDPProblem.from_full_x0_and_space(*arg, constrain_symmetry=True)
        elif form == "equations":
            s = SDPProblem.from_equations(*arg)
        else:
            s = SDPProblem(arg, free_symbols=syms if form == "syms" else None)
        out = []
        for c, d in todo:
            def step(c=c, d=d):
                if c == "solve":
                    return s.solve()
                if c == "solveopt":
                    return s.solve(**{k: v for k, v in d.items() if v is not None})
                if c == "register":
                    return s.register_y(d) or s.S
                ch = {"null": lambda: s.constrain_nullspace(d), "col": lambda: s.constrain_subspace(d), "equal": lambda: s.constrain_equal_entries(d),
                      "sym": lambda: s.constrain_symmetry(), "diag": lambda: s.constrain_zero_diagonals(), "deparam": lambda: s.deparametrize(),
                      "dual": lambda: s.get_last_child()}[c]()
                return {k: ch.get_size(k) for k in ch.keys()}
            out.append(outcome(step))
        return [out, s.y, s.S, s.decompositions]
    return call, watch


def primalform(op, r):
    import sympy as sp
    from triples.sdp import SDPPrimal
    n = op["n"]
    G = sp.Matrix(op["mats"][0])
    G = G * G.T + sp.eye(n)
    rows = [list(sp.Matrix(a) + sp.Matrix(a).T) if r.random() < .5 else list(sp.Matrix(a)) for a in op["mats"][1:]]
    A = sp.Matrix(rows)
    x0 = A * sp.Matrix(list(G))
    B = sp.zeros(len(rows), 1)
    form = r.choice(["dict", "list", "full"])
    arg = {"dict": {"S": A, "T": B}, "list": [A, B], "full": [sp.Matrix.hstack(A, B), {"S": n, "T": 1}]}[form]
    watch, todo = [x0, arg], []
    keys = ["S_0", "S_1"] if form == "list" else ["S", "T"]
    for c in op["calls"]:
        d = {keys[0]: sp.Matrix([1] + [0] * (n - 1)), keys[1]: sp.zeros(1, 0)} if c == "null" else None
        todo.append((c, d))
        watch.append(d)

    def call():
        s = SDPPrimal(x0, arg) if form != "full" else SDPPrimal.from_full_x0_and_space(x0, *arg)
        out = []
        for c, d in todo:
            def step(c=c, d=d):
                if c in ("solve", "solveopt", "register", "col", "equal"):
                    return s.solve()
                ch = {"null": lambda: s.constrain_nullspace(d), "sym": lambda: s.constrain_symmetry(), "diag": lambda: s.constrain_zero_diagonals(),
                      "deparam": lambda: s.to_dual(), "dual": lambda: s.to_dual()}[c]()
                return {k: ch.get_size(k) for k in ch.keys()}
            out.append(outcome(step))
        return [out, s.y, s.S, s.decompositions]
    return call, watch


def sosproblem(op, r):
    import sympy as sp
    from sympy.combinatorics import Permutation, PermutationGroup
    from triples.core import SOSProblem
    from triples.utils import pl
    gens = sp.symbols("a b c")
    poly = pl(op["t"], gens=gens)
    g = PermutationGroup([Permutation(p) for p in GROUPS[op["g"]](3)])
    one = sp.Poly(1, *gens)
    iq = [one] + ([sp.Poly(v, *gens) if r.random() < .5 else v for v in (gens[0] * gens[1], gens[1] * gens[2], gens[2] * gens[0])] if op["iq"] else [])
    eq = [gens[0] + gens[1] - 2 * gens[2]] if op["eq"] and op["g"] == "triv" else []
    so, names = {}, {sp.Poly(v, *gens): sp.Symbol("g_%d" % i) for i, v in enumerate(iq)}
    dep = r.random() < .7

    def call():
        p = SOSProblem(poly, g)
        p.construct(iq, eq, deparametrize=dep)
        ok = p.solve(solver_options=so)
        sol = p.as_solution(ineq_constraints=names) if ok else None
        return [ok, p.S, p.y, sol, p.dof]
    return call, [poly, iq, eq, so, names]


def mono(op, r):
    import numpy as np
    from triples.utils import rpa_monotonic, rpa_gmop
    n = r.choice([1, 2, 2, 3])
    c = [r.choice([0.5, 1., 2.]) for _ in range(n)]
    k = r.choice([0.5, 1., 1.5])
    wrap = {"list": list, "tuple": tuple, "array": np.array}[op["box"]]
    a, b = wrap([0.] * n), wrap([r.choice([1., 2.])] * n)
    f = lambda x: float(sum(u * v for u, v in zip(c, x)))
    h = lambda x: float(sum(v * v for v in x)) - k
    g = lambda x: float(sum(v for v in x)) - 2 * n
    if r.random() < .5:
        def call():
            np.random.seed(op["seed"])
            return rpa_monotonic(f, g, h, a, b, tol=.05, max_iter=100)
        return call, [a, b]
    fs = (f, lambda x: float(x[0]) / 2)
    gh = [(lambda x: 0., lambda x: h(x) + 0.)] if r.random() < .5 else [(g, lambda x: 0.), (lambda x: 0., h)]

    def call2():
        np.random.seed(op["seed"])
        return rpa_gmop(fs, gh, a, b, tol=.05, max_iter=60)
    return call2, [fs, gh, a, b]


def reduce_thunk(op, arg, r):
    import sympy as sp
    from triples.sdp import SDPProblem
    n = op["n"]
    s = SDPProblem.from_matrix(arg)
    keys = list(s.keys())
    c = r.choice(["null", "col", "sym", "equal", "diag", "deparam"])
    if c == "null":
        d = {k: sp.zeros(s.get_size(k), 0) for k in keys}
        d[keys[0]] = sp.Matrix([1] + [0] * (n - 1))
    elif c == "col":
        d = {k: sp.eye(s.get_size(k)) for k in keys}
        d[keys[0]] = sp.Matrix([[1], [1]] + [[0]] * (n - 2))
    elif c == "equal":
        d = {keys[0]: [((0, 0), (1, 1))]}
    else:
        d = None

    def call():
        f = {"null": lambda: s.constrain_nullspace(d), "col": lambda: s.constrain_subspace(d), "equal": lambda: s.constrain_equal_entries(d),
             "sym": lambda: s.constrain_symmetry(), "diag": lambda: s.constrain_zero_diagonals(), "deparam": lambda: s.deparametrize()}[c]
        child = f()
        ok = s.solve()
        return [ok, s.y, s.S, {k: child.get_size(k) for k in child.keys()}]
    return call, [arg, d]


def read(text, gens, perm):
    from triples.utils import pl
    try:
        return pl(text, gens=gens, perm=perm)
    except Exception:
        return None


def cycexpr(text, gens, perm):
    import sympy as sp
    from triples.utils import CyclicSum, CyclicProduct
    p = read(text, gens, perm)
    e = (p.as_expr() if p is not None and not p.is_zero else gens[0] ** 2)
    f = sp.factor(e)
    return CyclicSum(gens[0] * f, gens, perm) * CyclicProduct(gens[0] + 1, gens, perm) / 2 + CyclicSum((gens[0] - gens[-1]) ** 2, gens, perm)


# ------------------------------------------------------------------ comparison
def canon(x, strict=False, depth=0):
    """Any value -> json.  strict: exact floats and identity-relevant types (for
    argument snapshots)."""
    import collections
    import numpy as np
    import sympy as sp
    from sympy.combinatorics import Permutation, PermutationGroup
    if depth > 12:
        return "..."
    go = lambda v: canon(v, strict, depth + 1)
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, (float, np.floating)):
        return repr(float(x)) if strict else "%.9g" % float(x)
    if isinstance(x, (np.integer, np.bool_)):
        return int(x)
    if isinstance(x, sp.Poly):
        return ["Poly", str(x.as_expr()), [str(g) for g in x.gens], str(x.domain)]
    if isinstance(x, sp.MatrixBase):
        return ["Matrix", list(x.shape), [go(v) for v in x]]
    if isinstance(x, sp.Float):
        return repr(x) if strict else "%.9g" % float(x)
    if isinstance(x, sp.Basic) and not isinstance(x, (Permutation, PermutationGroup)):
        return expr(x)
    if isinstance(x, PermutationGroup):
        return ["Group", sorted(str(list(g.array_form)) for g in x.elements)]
    if isinstance(x, Permutation):
        return ["Perm", list(x.array_form)]
    if isinstance(x, np.ndarray):
        return ["array", list(x.shape), [go(v) for v in x.ravel().tolist()]]
    if isinstance(x, dict):
        return ["dict", [[go(k), go(v)] for k, v in x.items()]]
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return [type(x).__name__] + [go(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [go(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted(str(go(v)) for v in x)]
    if isinstance(x, BaseException):
        return ["raised", type(x).__name__]
    n = type(x).__name__
    mod = type(x).__module__
    if n == "DataFrame":
        return ["DataFrame", list(map(str, x.columns)), [[c, go(x.iloc[i][c])] for i in range(len(x)) for c in x.columns if c != "time"]]
    if hasattr(x, "solution") and hasattr(x, "is_equal") and hasattr(x, "problem"):
        return ["Solution", n, go(x.problem), go(x.solution), bool(x.is_equal), x.str_formatted]
    if n == "Coeff":
        return ["Coeff", go(dict(x.coeffs))]
    if n == "MonomialManager":
        return ["MonomialManager", x.nvars, x.is_homogeneous, go(x.perm_group)]
    if n == "RootsInfo":
        return ["RootsInfo", go(x.poly), go(list(x.roots)), go(list(x.strict_roots)), go(list(x.tangents or []))]
    if n == "GridPoly":
        return ["Grid", go(x.poly), x.size, go(list(x.grid_value) if x.grid_value is not None else None), go(x.grid_color)]
    if n.startswith("Root") and hasattr(x, "root"):
        return [n, go(tuple(x.root))]
    if n == "RootTangent":
        return [n, str(x)]
    if n == "DomainMatrix" or mod.startswith("sympy"):
        return [n, str(x)]
    if hasattr(x, "__dict__") and mod.startswith("triples"):
        return [n, go({k: v for k, v in vars(x).items() if not k.startswith("_")})]
    if callable(x):
        return ["callable", getattr(x, "__name__", n)]
    return [n]


def expr(e):
    import re
    import sympy as sp
    s = str(e)
    cyc = []
    for a in sp.preorder_traversal(e):
        if type(a).__name__.startswith(("Cyclic", "Symmetric")):
            cyc.append("%s|%s|%s" % (a.args[0], a.args[1], a.args[2:]))
    if cyc:
        s += " with " + "; ".join(cyc)
    return re.sub(r"(\d+\.\d{9})\d+", r"\1", s)


def outcome(call):
    """Run a thunk; exceptions are results too (an unsupported input is refused
    in the same way before and after any history)."""
    try:
        return canon(call())
    except Exception as e:
        return ["raised", type(e).__name__]


def defaults():
    """The package's shared defaults: mutable default arguments of public
    functions and the exported option dictionaries -> {name: object}."""
    import inspect
    import sys
    out = {}

    def fn(f, name):
        f = inspect.unwrap(f)
        if not inspect.isfunction(f):
            return
        try:
            ps = inspect.signature(f).parameters.values()
        except (ValueError, TypeError):
            return
        for p in ps:
            if not p.name.startswith("_") and isinstance(p.default, (dict, list, set)):
                out["%s(%s=)" % (name, p.name)] = p.default
    for mn, mod in sorted(sys.modules.items()):
        if not mn.startswith("triples") or mod is None:
            continue
        for a, v in sorted(vars(mod).items()):
            if a.startswith("_"):
                continue
            if inspect.isfunction(v) and v.__module__.startswith("triples"):
                fn(v, "%s.%s" % (v.__module__, a))
            elif inspect.isclass(v) and v.__module__ == mn:
                for b, w in sorted(vars(v).items()):
                    if not b.startswith("_") or b == "__init__":
                        w = getattr(w, "__func__", w)
                        if inspect.isfunction(w):
                            fn(w, "%s.%s.%s" % (mn, a, b))
    import triples.core as core
    out["DEFAULT_CONFIGS"] = core.DEFAULT_CONFIGS
    out["METHOD_ORDER"] = core.METHOD_ORDER
    from triples.gui.sos_manager import SOS_Manager as M
    out["SOS_Manager settings"] = {"gens": M.CONFIG_DEFAULT_GENS, "restrict": M.CONFIG_RESTRICT_INPUT_CHARS,
                                   "nonstandard": M.CONFIG_ALLOW_NONSTANDARD_GENS, "std": M.CONFIG_STANDARDIZE_CYCLICEXPR}
    return out
