"""Problems used by the solver properties: (text, gens, ineqs, eqs)."""

R = []          # real variables, no constraints
PROBLEMS = [
    # text, gens, inequality constraints, equality constraints
    ("s(a2-ab)", "abc", "", ""), ("s(a2)2-3s(a3b)", "abc", "", ""), ("s(a(a-b)(a-c))", "abc", "a,b,c", ""),
    ("s(a4-a2bc)", "abc", "", ""), ("s(a3)-3abc", "abc", "a,b,c", ""), ("s(a2b)-3abc", "abc", "a,b,c", ""),
    ("a2+b2+1-a-b-ab", "abc", "", ""), ("s(a3b)-abcs(a)", "abc", "a,b,c", ""), ("a3+b3-a2b-ab2", "abc", "a,b", ""),
    ("s(a2)-s(ab)+1", "abc", "", ""), ("a4+b4+c4+d4-4abcd", "abcd", "", ""), ("s((a-b)2(a+b-3c)2)", "abc", "", ""),
    ("a2-2ab+b2", "ab", "", ""), ("s(2a2-ab-bc)", "abc", "", ""), ("s(a3-a2b)", "abc", "a,b,c", ""),
    ("(a+b+c)3-27abc", "abc", "a,b,c", ""), ("s(a5)-s(a4b)", "abc", "a,b,c", ""), ("s(ab)", "abc", "a,b,c", ""),
    ("a(a-b)2+c", "abc", "a,c", ""), ("s(a2b2)-abcs(a)", "abc", "", ""), ("s(a2(a-b)(a-c))", "abc", "a,b,c", ""),
    ("s(a4)+s(a3b)-2s(a2b2)", "abc", "a,b,c", ""), ("a2+b2+c2-ab-bc-ca", "abc", "a,b,c", ""),
    ("x2-2x+2", "x", "", ""), ("x4-3x2+3", "x", "", ""), ("x3-3x+2", "x", "x", ""), ("x2-x", "x", "x-1", ""),
    ("2x2+3y2-4xy", "xy", "", ""), ("x4+y4-x3y-xy3", "xy", "", ""), ("1-x2-y2", "xy", "1-x2-y2", ""),
    ("x+y-xy", "xy", "x,y,1-x,1-y", ""), ("x2+y2-1/2", "xy", "", "x+y-1"), ("1/4-xy", "xy", "x,y", "x+y-1"),
    ("a+b+c-3", "abc", "a,b,c", "abc-1"), ("a2+b2+c2-1/3", "abc", "", "a+b+c-1"), ("1/3-ab-bc-ca", "abc", "a,b,c", "a+b+c-1"),
    ("s(a2b)+s(ab2)-6abc", "abc", "a,b,c", ""), ("s(a4)-s(a3b)", "abc", "a,b,c", ""),
    ("-a2-b2", "ab", "", ""), ("a-1", "a", "a", ""), ("ab-1", "ab", "a,b", ""), ("s(a2)-2s(ab)", "abc", "a,b,c", ""),
    ("a3+1-a2-a", "a", "a", ""), ("4a4+4a3b-b3a+b4", "ab", "a,b", ""), ("(a2+b2+c2)2-3(a3b+b3c+c3a)", "abc", "a,b,c", ""),
    ("s(a6)-3a2b2c2", "abc", "", ""), ("a2b4+a4b2+c6-3a2b2c2", "abc", "", ""), ("p(a+b)-8abc", "abc", "a,b,c", ""),
    ("s(a)3-27p(a)", "abc", "a,b,c", ""), ("3s(a2b)+s(a3)-4s(ab2)", "abc", "a,b,c", ""), ("x2+2xy+2y2-2y+1", "xy", "", ""),
    ("7a2-ab+b2/3-a/5+1", "ab", "", ""), ("a2+b2+c2+d2-ab-bc-cd-da", "abcd", "", ""), ("s(a2+ab)", "abc", "a,b,c", ""),
    ("x3+y3+z3-3xyz", "xyz", "x,y,z", ""), ("2x4+y4+z4-x2y2-x2z2", "xyz", "", ""), ("a4-4a3b+6a2b2-4ab3+b4", "ab", "", ""),
    ("s(a3)+6abc-s(ab(a+b))", "abc", "a,b,c", ""), ("(x-1)2(x-2)2", "x", "", ""), ("x5-5x+4", "x", "x", ""),
    ("(a-b)2+(b-c)2", "abc", "", ""), ("(x2-2)2", "x", "", ""), ("(x2-2y2)2+(x-y)4", "xy", "", ""), ("a2-3a+3", "a", "", ""),
    ("(a2-2b2)2", "ab", "a,b", ""), ("s(a4)-2s(a2b2)+s(a2bc)", "abc", "a,b,c", ""), ("x2+y2-2x-2y+2", "xy", "x,y", ""),
    ("2-x-y", "xy", "", "x2+y2-2"), ("1-x", "x", "", "x2-1"), ("x-1", "xy", "x", "xy-1"), ("s(a)-3", "abc", "a,b,c", "a2+b2+c2-3abc"),
]
METHODS = ["StructuralSOS", "LinearSOS", "SDPSOS", "SymmetricSOS"]


_STRUCTS = []


def structs():
    if not _STRUCTS:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "structs.txt")) as f:
            _STRUCTS.extend(x.split() for x in f)
    return _STRUCTS


def mutate_coeffs(rng, text, times=1):
    """Change written coefficients (a digit string that starts a factor)."""
    import re
    for _ in range(times):
        at = [m for m in re.finditer(r"(?<![0-9a-z)^/])[0-9]+|(?<=[(+\-])(?=[a-d(])", text)]
        if not at:
            return text
        m = rng.choice(at)
        v = int(m.group()) if m.group() else 1
        v = max(1, v + rng.choice([-2, -1, -1, 1, 1, 2, 3])) if rng.random() < 0.8 else rng.randint(1, 12)
        text = text[:m.start()] + str(v) + text[m.end():]
    return text


_COVER = []


def cover():
    """The covering corpus: [(method, fault kind or "", fault seed, problem)]."""
    if not _COVER:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cover.txt")) as f:
            for line in f:
                m, kind, seed, *p = line.rstrip("\n").split("\t")
                _COVER.append((m, kind, int(seed or 0), p))
    return _COVER


def struct_problem(rng, maxdeg=9, at=None):
    """One of the documented examples of the structural solver, or a neighbour."""
    while True:
        d, g, t = rng.choice(structs()) if at is None else structs()[at % len(structs())]
        if int(d) <= maxdeg or at is not None:
            break
    if rng.random() < (0.5 if at is None else 0.3):
        t = mutate_coeffs(rng, t, rng.choice([1, 1, 2, 3]))
    x = rng.random()
    cons = ",".join(g)
    if x < 0.2:
        cons = ""
    elif x < 0.25:
        cons = ",".join(rng.sample(list(g), len(g) - 1))
    elif x < 0.3 and g == "abc":
        cons = "b+c-a,c+a-b,a+b-c"
    return [t, g, cons, ""]


def _perms(g, e):
    """The sum of the distinct monomials with these exponents, python syntax."""
    from itertools import permutations
    e = list(e) + [0] * (len(g) - len(e))
    return "(" + "+".join("*".join("%s**%d" % (v, k) for v, k in zip(g, q) if k) or "1" for q in sorted(set(permutations(e)))) + ")"


def _coef(rng, lo=-3, hi=4):
    c = rng.randint(lo, hi)
    return str(c) if rng.random() < .8 else "%d/%d" % (c, rng.choice([2, 3, 5]))


def _ternary(rng, d):
    """A cyclic or symmetric form of degree d in a,b,c, often nonnegative for a,b,c>=0."""
    def one():
        y = rng.random()
        if y < .2 or d < 2:
            e = [0, 0, 0]
            for _ in range(d):
                e[rng.randrange(3)] += 1
            return "a**%d*b**%d*c**%d" % tuple(e)
        if y < .5:
            e = [0, 0, 0]
            for _ in range(d - 2):
                e[rng.randrange(3)] += 1
            return "a**%d*b**%d*c**%d*(%s-%s)**2" % (*e, *rng.sample("abc", 2))
        if y < .6 and d > 2:
            return "a**%d*(a-b)*(a-c)" % (d - 2)
        q = rng.choice([1, 2, 2, 3])
        if 2 * q > d:
            q = d // 2
        ms = sorted({"".join(sorted(rng.choice("abc") for _ in range(q))) for _ in range(rng.choice([2, 3, 3, 4]))})
        e = [0, 0, 0]
        for _ in range(d - 2 * q):
            e[rng.randrange(3)] += 1
        return "a**%d*b**%d*c**%d*(%s)**2" % (*e, "+".join("%d*%s" % (rng.choice([-3, -2, -1, -1, 1, 1, 2, 3]), "*".join(m)) for m in ms))
    terms = ["%s*%s" % (rng.choice(["1", "1", "2", "3", "5", "1/2", "7/3"]), one()) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if rng.random() < .3:
        e = [0, 0, 0]
        for _ in range(d):
            e[rng.randrange(3)] += 1
        terms.append("-%s*a**%d*b**%d*c**%d" % (rng.choice(["1", "2", "1/10"]), *e))
    t = "+".join(terms).replace("+-", "-")
    if rng.random() < .4:       # symmetric
        sw = t.translate(str.maketrans("bc", "cb"))
        t = "%s+%s" % (t, sw)
    return "CYC:" + t


ACUTE = "b**2+c**2-a**2,c**2+a**2-b**2,a**2+b**2-c**2,a,b,c"
ACUTES = ["s(-a3+9/7(a2b+ab2))-32/7abc", "p(b+c-a)", "s(-a3+a2b+a2c)-3abc", "-s(31a3-33a2b-33a2c+32abc)", "s(2ab-a2)", "s(a2)-s(ab)",
          "s(-a3+5/4(a2b+ab2))-9/2abc", "s(-a3+2(a2b+ab2))-9abc", "s(-a3+a2b+ab2)-2abc", "s((b2+c2-a2)(a-b)2)", "s((b2+c2-a2)(b-c)2)",
          "s((b2+c2-a2)(b+c-2a)2)", "p(b2+c2-a2)", "a2b2c2-p(b2+c2-a2)", "p(b2+c2-a2)+s(a2(b-c)2(a-b)(a-c))", "s(a2b2(a-b)2)-p(b2+c2-a2)/10",
          "s(a4(b2+c2-a2))-3p(b2+c2-a2)", "s(ab(a-b)2)-p(a-b)", "s(a2(b2+c2-a2))", "s(ab(a2+b2-c2))-s(a2(b2+c2-a2))", "s((b2+c2-a2)bc)-s(a2(b2+c2-a2))",
          "s(a(b2+c2-a2))-3abc", "3abc-s(a(b2+c2-a2))", "s(a)p(b+c-a)", "s(a2)p(b2+c2-a2)", "p(b2+c2-a2)s(ab)"]
PARTIAL = ["4abc+9s(a2)-14s(ab)+4s(a)+4", "29/3s(a2)+13/3s(a)-58/3s(bc)+1+15abc", "1+2abc+s(a2-2ab)", "s(2a2-4ab)+3abc+s(a)",
           "s(a2-ab)-2s(a)+4+2abc", "s(a2)+2abc+1-2s(ab)", "s(a3)+s(a)-2s(a2)+abc", "abc+2-s(a)+s(a2-ab)/5", "s(a2)+2abc+3-6s(a)/2"]
SYM4 = ["s(a2)-2/3abcd", "a4+b4+c4+d4-4abcd", "(a+b+c+d)4-256abcd", "(a2+b2+c2+d2)2-16abcd", "(a+b+c+d)2-4(ab+bc+cd+da)", "(a2-b2)2+(c2-d2)2"]


def _acute(rng):
    y = rng.random()
    if y < .45:
        t = rng.choice(ACUTES)
        if rng.random() < .4:
            t = mutate_coeffs(rng, t)
        return [t, "abc", ACUTE.replace("**", ""), ""]
    if y < .6:                  # the cubics with the theorem
        q = rng.choice([1, 2, 3, 4, 5, 7])
        m = q + rng.randint(0, 2 * q)
        lo, hi = 3 * q - 6 * m, 6 * q - 6 * m
        n = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo - 2, hi + 2)])
        return ["s(-a3+%d/%d(a2b+ab2))+%s" % (m, q, ("%d/%dabc" % (n, q)).replace("+-", "-")), "abc", ACUTE.replace("**", ""), ""]
    if y < .8:
        d = rng.choice([4, 5, 6, 6, 7, 8])
        e = "CYC:(b**2+c**2-a**2)*" + ("(%s)**2*%s" % (_lin(rng, "abc", True), _mono(rng, "abc", d - 4)))
        t = rng.choice(["1", "1/2", "3"])
        return [e + "+%s*%s" % (t, _ternary(rng, d)[4:]), "abc", ACUTE, ""]
    d = rng.choice([6, 7, 8])
    return ["CYC:(b**2+c**2-a**2)*(c**2+a**2-b**2)*(a**2+b**2-c**2)*a**%d+%s" % (d - 6, _ternary(rng, d)[4:]), "abc", ACUTE, ""]


def _cyc3(t):
    """The cyclic sum written out (python syntax)."""
    return "(%s)" % "+".join("(%s)" % t.translate(str.maketrans("abc", p)) for p in ("abc", "bca", "cab"))


def _lifted(rng, d):
    """A documented example carried to degree d by nonnegative factors, or None."""
    n, g, t = rng.choice(structs())
    if g != "abc" or "(" in t and t.count("(") != t.count(")"):
        return None
    n = int(n)
    if n > d or "*" in t or "sqrt" in t or n > 9:
        return None
    if rng.random() < .2:
        t = mutate_coeffs(rng, t)
    k = rng.randint(0, (d - n) // 3)
    m = d - n - 3 * k
    pre = "".join("%s%d" % (v, k) for v in "abc") if k else ""
    while m:
        q = rng.randint(1, min(m, 3))
        pre += {1: "s(a)", 2: rng.choice(["s(a2)", "s(ab)"]), 3: rng.choice(["p(a+b)", "s(a3)", "s(a2b)"])}[q]
        m -= q
    return "%s(%s)" % (pre, t)


def _sparse(rng):
    """Forms of the sparse and heuristic solvers, with something lifted on top."""
    y = rng.random()
    if y < .5:                  # s(a^n (b^m+c^m)(a^r-b^r)(a^r-c^r)) or its mirror
        while True:
            r = rng.choice([1, 1, 2, 2, 3, 4])
            n, m = rng.randint(-3, 8), rng.randint(0, 6)
            if rng.random() < .4:
                m = r
            if rng.random() < .3:
                n = rng.choice([m, m - r, r, 1])
            d = 2 * r + m + (n if n >= 0 else -2 * n)
            if 6 < d <= 14:
                break
        t = "s(%s(b%d+c%d)(a%d-b%d)(a%d-c%d))" % ("a%d" % n if n >= 0 else "b%dc%d" % (-n, -n), m, m, r, r, r, r)
    elif y < .75:               # s(a^n(b^r-c^r))s(a^m(b^s-c^s))
        while True:
            n, r, m, s = (rng.randint(1, 6) for _ in range(4))
            d = n + r + m + s
            if 6 < d <= 14 and n != r and m != s and (n > r) == (m > s):
                break
        t = "s(a%d(b%d-c%d))s(a%d(b%d-c%d))" % (n, r, r, m, s, s)
    else:                       # s(m1 - m2), often with the centre
        if rng.random() < .5:
            q = rng.randint(2, 4)
            d, c = 3 * q, (q, q, q)
        else:
            d = rng.randint(5, 11)
            c = (i := rng.randint(0, d), j := rng.randint(0, d - i), d - i - j)
        i = rng.randint(0, d)
        j = rng.randint(0, d - i)
        m1 = (i, j, d - i - j)
        f = lambda m: "".join("%s%d" % (v, k) for v, k in zip("abc", m) if k)
        t = "s(%s-%s)" % (f(m1), f(c))
        if rng.random() < .4:
            i = rng.randint(0, d)
            j = rng.randint(0, d - i)
            t += "+%ss(%s-%s)" % (rng.choice(["", "2", "1/3"]), f((i, j, d - i - j)), f(c))
    t = t.replace("a0", "1").replace("b0+c0", "2").replace("1(", "(")
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        u = _lifted(rng, d)
        if u:
            t += "+" + rng.choice(["", "", "2", "1/2", "7"]) + u
    return [t, "abc", rng.choice(["a,b,c"] * 5 + [""]), ""]


def _quintic(rng):
    """Symmetric quintics around the solver's one-parameter theorem."""
    root = rng.choice(["sqrt(2)", "sqrt(3)", "(1+sqrt(15))/5"])     # one field: sums of many radicals defeat sympy itself
    q = lambda: rng.choice(["%d" % rng.randint(1, 6), "%d/%d" % (rng.randint(1, 30), rng.randint(2, 9)), root])
    one = lambda: "s((a+b%s%sc)(a-b)2(a+b-%sc)2)" % (rng.choice("+--"), q(), q())
    t = one() + (("+" + rng.choice(["", "2", "1/3"]) + one()) if rng.random() < .4 else "")
    if rng.random() < .4:
        t += "+" + rng.choice(["", "2", "1/10"]) + rng.choice(["abcs(a2-ab)", "abcs(a2)", "s(a5)-s(a4b)", "s(ab(a3+b3))-6abcs(a2)", "s(a3)s(a-b)2"])
    return [t, "abc", rng.choice(["a,b,c"] * 5 + [""]), ""]


def _special(rng):
    """Classes of the structural solver the plain generators meet rarely."""
    y = rng.random()
    if y < .3:
        return _sparse(rng)
    if y < .4:
        return _quintic(rng)
    y = rng.random()
    if y < .3:
        return _acute(rng)
    if y < .5:                  # symmetric cubics with a constant
        if rng.random() < .4:
            t = rng.choice(PARTIAL)
            if rng.random() < .5:
                t = mutate_coeffs(rng, t)
        else:
            t = "%sabc+%ss(a2)-%ss(ab)+%ss(a)+%s" % (rng.choice(["", "2", "4", "7"]), *[v + (v == "")*"1" for v in (rng.choice(["", "2", "3"]), rng.choice(["", "2", "4"]))],
                                                     rng.choice(["", "2", "1/2"]), rng.choice(["1", "2", "4"]))
        return [t, "abc", "a,b,c", ""]
    if y < .6:                  # symmetric in four variables
        t = rng.choice(SYM4)
        if rng.random() < .5:
            t = "+".join("%s*%s" % (_coef(rng) if i else rng.choice(["1", "2", "3"]), _perms("abcd", e))
                         for i, e in enumerate([(4,), (3, 1), (2, 2), (2, 1, 1), (1, 1, 1, 1)]))
        return [t, "abcd", rng.choice(["", "a,b,c,d"]), ""]
    if y < .72:                 # irrational coefficients
        r = rng.choice(["sqrt(2)", "sqrt(3)", "sqrt(5)/2", "(1+sqrt(5))/2", "2**(1/3)", "cbrt(3)"])
        if r in ("2**(1/3)", "cbrt(3)"):
            r = "root(%s,3)" % rng.choice("23")
        k = rng.choice(["2*x**2-2*%s*x*2+%s**2*2", "(x-%s)**2*(x+1)", "x**2-2*%s*x+3", "(x**2-%s)**2", "x**4-%s*x+2", "(x-%s)**2*(x**2+1)"])
        t = k % ((r,) * k.count("%s"))
        if rng.random() < .6:
            f = rng.choice(["CYC:(a-%s*b)**2", "CYC:(a+b-%s*c)**2*a", "CYC:a**2*b+%s*a**3-a*b*c*(1+%s)", "CYC:(a**2-%s*b*c)**2", "CYC:a**4+%s*a**2*b**2-a**3*b*%s"])
            return [f % ((r,) * f.count("%s")), "abc", rng.choice(["a,b,c", ""]), ""]
        return [t, "x", rng.choice(["", "x"]), ""]
    if y < .86:                 # degenerate hexagons: octics and sextics with few monomials
        d = rng.choice([6, 6, 8, 8, 7, 5])
        ks = {6: ["a**4*b*c", "a**3*b**3", "a**4*b**2", "a**2*b**4", "a**3*b**2*c", "a**3*b*c**2", "a**2*b**2*c**2", "a**5*b", "a**5*c"],
              8: ["a**4*b**4", "a**5*b**3", "a**3*b**5", "a**4*b**3*c", "a**4*b*c**3", "a**3*b**3*c**2", "a**4*b**2*c**2", "a**5*b**2*c", "a**5*b*c**2", "a**6*b*c"],
              7: ["a**4*b**3", "a**3*b**4", "a**4*b**2*c", "a**4*b*c**2", "a**3*b**3*c", "a**3*b**2*c**2", "a**5*b*c", "a**5*b**2", "a**5*c**2"],
              5: ["a**3*b**2", "a**2*b**3", "a**3*b*c", "a**2*b**2*c", "a**4*b", "a**4*c", "a**5"]}[d]
        use = [ks[0]] + rng.sample(ks[1:], rng.randint(2, 4))
        cs = [rng.choice([1, 2, 3, 1]) if i == 0 else rng.choice([-3, -2, -1, 1, 1, 2, 3]) for i in range(len(use))]
        if rng.random() < .7:   # zero at the centre
            last = {6: "a**2*b**2*c**2", 8: "a**4*b**2*c**2", 7: "a**3*b**2*c**2", 5: "a**2*b**2*c"}[d]
            use.append(last)
            cs.append(-sum(cs))
        t = "+".join("%s*%s" % ("(%d)" % c if d != 6 or u != "a**2*b**2*c**2" else "(%d)" % c, u) for c, u in zip(cs, use) if c)
        if rng.random() < .5:
            t = "%s+%s" % (t, t.translate(str.maketrans("bc", "cb")))
        return ["CYC:" + t, "abc", rng.choice(["a,b,c", "a,b,c", ""]), ""]
    d = rng.choice([4, 6, 6, 8])    # sums of squares of cyclic forms: quartics, sextics, octics over the reals
    def sq(k):
        ms = sorted({"*".join(sorted(rng.choice("abc") for _ in range(k))) for _ in range(rng.choice([2, 3, 4]))})
        cs = [rng.choice([-3, -2, -1, 1, 1, 2]) for _ in ms]
        if rng.random() < .6:
            cs[-1] = -sum(cs[:-1]) or 1
        return "(%s)**2" % "+".join("(%d)*%s" % c for c in zip(cs, ms))
    return ["CYC:" + "+".join("%s*%s" % (rng.choice(["1", "2", "1/3"]), sq(d // 2)) for _ in range(rng.choice([1, 1, 2]))), "abc", "", ""]


def struct_form(rng):
    """A problem of one of the classes the structural solver has special theory for."""
    if rng.random() < .3:
        return _special(rng)
    x = rng.random()
    if x < .22:
        d = rng.choice([2, 3, 4, 4, 5, 5, 6, 6, 7, 8])
        return [_ternary(rng, d), "abc", rng.choice(["a,b,c"] * 4 + [""]), ""]
    if x < .42:                 # nonnegative combinations of documented examples
        while True:
            d, g, t = rng.choice(structs())
            if int(d) <= 9:
                break
        same = [s for s in structs() if s[0] == d and s[1] == g]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["", "2", "3", "5", "1/2", "1/3", "1/10", "20"])
            t = "(%s)+%s(%s)" % (t, k, mutate_coeffs(rng, rng.choice(same)[2]) if rng.random() < .2 else rng.choice(same)[2])
        return [t, g, ",".join(g) if rng.random() < .8 else "", ""]
    if x < .52:                 # a documented example and a monomial sum
        while True:
            d, g, t = rng.choice(structs())
            if int(d) <= 8 and g == "abc":
                break
        e = [0, 0, 0]
        for _ in range(int(d)):
            e[rng.randrange(3)] += 1
        m = "".join("%s%d" % (v, k) for v, k in zip("abc", e) if k)
        return ["(%s)+%ss(%s)" % (t, rng.choice(["", "2", "1/2", "1/7", "10"]), m), g, ",".join(g), ""]
    if x < .64:                 # symmetric quartics and cubics in more variables
        g = rng.choice(["abcd", "abcd", "abcde"])
        if rng.random() < .55:
            t = "+".join("%s*%s" % (_coef(rng) if i else rng.choice(["1", "1", "2", "3"]), _perms(g, e))
                         for i, e in enumerate([(4,), (3, 1), (2, 2), (2, 1, 1), (1, 1, 1, 1)]) if i == 0 or rng.random() < .8)
            return [t, g, rng.choice(["", ",".join(g)]), ""]
        g = "abcd"
        if rng.random() < .6:
            t = "+".join("%s*%s" % (_coef(rng, -4, 9), _perms(g, e)) for e in [(3,), (2, 1), (1, 1, 1)])
        else:                   # symmetric in a, b, c only
            t = "+".join("%s*%s*d**%d" % (_coef(rng, -4, 9), _perms("abc", e), 3 - sum(e)) for e in [(3,), (2, 1), (1, 1, 1), (2,), (1, 1), (1,), (0,)])
        return [t, g, ",".join(g), ""]
    if x < .86:                 # binary forms and univariate polynomials
        g = rng.choice(["ab", "x", "x"])
        lin = (lambda: "(%s*a+%s*b)" % (_coef(rng), _coef(rng))) if g == "ab" else (lambda: "(%s*x+%s)" % (_coef(rng), _coef(rng)))
        mono = (lambda k: "a**%d*b**%d" % ((lambda i: (i, k - i))(rng.randint(0, k)))) if g == "ab" else (lambda k: "x**%d" % rng.randint(0, k))
        d = rng.choice([2, 3, 4, 4, 5, 6, 6, 7, 8])
        terms = []
        cons = rng.choice(["", ",".join(g), {"ab": "a-b,b", "x": "x-1"}[g], {"ab": "2*a-b,b-a/2,b", "x": "x,1-x"}[g], {"ab": "a+b,a-b", "x": "x+2,3-x"}[g], {"ab": "b", "x": "-x"}[g]])
        for _ in range(rng.choice([1, 2, 2, 3])):
            left, e = d, []
            while left >= 2 and rng.random() < .8:
                e.append("%s**2" % lin())
                left -= 2
            while left and cons and rng.random() < .7:
                e.append("(%s)" % rng.choice(cons.split(",")))
                left -= 1
            if left:
                e.append(mono(left))
            terms.append("%s*%s" % (rng.choice(["1", "2", "1/3", "5"]), "*".join(e)))
        if rng.random() < .5:
            terms.append("%s*%s" % (rng.choice(["1/7", "-1/20", "-1", "1"]), mono(d)))
        return ["+".join(terms).replace("+-", "-"), g, cons, ""]
    if x < .94:                 # acute triangles
        d = rng.choice([2, 3, 4, 4])
        t = _ternary(rng, d) if rng.random() < .7 else "CYC:(b**2+c**2-a**2)*%s+%s" % (
            "(%s)**2" % _lin(rng, "abc", True) if d == 4 else rng.choice(["a", "b"]) if d == 3 else "1", _ternary(rng, d)[4:])
        return [t, "abc", "b**2+c**2-a**2,c**2+a**2-b**2,a**2+b**2-c**2,a,b,c", ""]
    g = rng.choice(["abc", "abcd", "abcde"])    # quadratic forms
    t = "+".join("%s*%s*%s" % (_coef(rng) if u != v else rng.choice(["1", "2", "3", "5"]), u, v) for i, u in enumerate(g) for v in g[i:])
    if rng.random() < .6:
        t = "+".join("%s*%s**2" % (rng.choice(["1", "2", "1/2"]), _lin(rng, g, True)) for _ in range(rng.choice([2, 3, 4])))
    return [t, g, rng.choice(["", ",".join(g)]), ""]


def problem(rng):
    x = rng.random()
    if x < 0.6:
        return list(rng.choice(PROBLEMS))
    return random_problem(rng)


def _lin(rng, g, hom):
    t = "+".join("%d*%s" % (rng.choice([-2, -1, -1, 0, 1, 1, 1, 2, 3]), v) for v in g)
    return "(%s%s)" % (t, "" if hom else "+%d" % rng.choice([-2, -1, 0, 0, 1, 2]))


def _mono(rng, g, d):
    return "*".join(rng.choice(g) for _ in range(d)) or "1"


class _Deg:
    """Degree bound of a polynomial in python syntax (no computer algebra here:
    the generator must not warm any cache)."""

    def __init__(self, d=1):
        self.d = d

    def _max(self, o):
        return _Deg(max(self.d, o.d if isinstance(o, _Deg) else 0))
    __add__ = __radd__ = __sub__ = __rsub__ = _max

    def __mul__(self, o):
        return _Deg(self.d + (o.d if isinstance(o, _Deg) else 0))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self

    def __neg__(self):
        return self

    def __pow__(self, k):
        return _Deg(self.d * k)


def degree_bound(text):
    v = _Deg()
    e = eval(text.replace("CYC:", ""), {"__builtins__": {}}, {c: v for c in "abcdxyz"})
    return e.d if isinstance(e, _Deg) else 0


def random_problem(rng):
    while True:
        p = _random_problem(rng)
        if degree_bound(p[0]) <= (4 if len(p[1]) > 3 else 6):
            return p


def _random_problem(rng):
    """A small polynomial (python syntax), often nonnegative by construction,
    sometimes spoiled, with random constraints."""
    g = rng.choice(["x", "xy", "xy", "abc", "abc", "abcd"])
    hom = rng.random() < 0.5 or len(g) > 3
    cons = []
    k = rng.random()
    if k < 0.35:
        cons = list(g)
    elif k < 0.75:
        for _ in range(rng.choice([1, 1, 2, 3])):
            cons.append(rng.choice([rng.choice(g), _lin(rng, g, hom), "%s**%d" % (rng.choice(g), rng.choice([2, 3])),
                                    "%d*%s" % (rng.choice([2, 3, -1]), rng.choice(g)), "1-%s" % rng.choice(g),
                                    "%s*%s" % (rng.choice(g), rng.choice(g)),
                                    "%s**%d*%s" % (rng.choice(g), rng.choice([2, 2, 3, 4]), rng.choice(g)),
                                    "%s**2*%s" % (_lin(rng, g, hom), rng.choice(g))]))
    eqs = []
    if rng.random() < 0.15:
        eqs.append(rng.choice(["+".join(g) + "-1", _lin(rng, g, hom), "%s**2-1" % rng.choice(g), "*".join(g) + "-1"]))
    deg = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 4, 5])
    if len(g) > 3:
        deg = min(deg, 3)
    terms = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        m = deg if hom else rng.randint(0, deg)
        c = rng.choice([1, 1, 1, 2, 3, "1/2"])
        y = rng.random()
        if y < 0.5 and m >= 2:
            q = m // 2
            base = _lin(rng, g, hom) if q == 1 or rng.random() < .5 else "(%s-%s)" % (_mono(rng, g, q), _mono(rng, g, q))
            e = "%s**2" % base
            rest = m - 2 if q == 1 or base.count("+") else m - 2 * q
            for _ in range(max(0, rest)):
                e += "*" + (rng.choice(cons) if cons and rng.random() < .7 else rng.choice(g)).join("()")
        elif y < 0.8 and cons:
            e = "*".join(("(%s)" % rng.choice(cons)) for _ in range(max(1, min(m, 3))))
        else:
            e = _mono(rng, g, m)
        terms.append("%s*%s" % (c, e))
    if rng.random() < 0.25:
        terms.append("-%s*%s" % (rng.choice(["1/10", "1", "2"]), _mono(rng, g, deg if hom else rng.randint(0, deg))))
    text = "+".join(terms).replace("+-", "-")
    if len(g) > 1 and rng.random() < 0.3 and hom:
        text = "CYC:" + text
    return [text, g, ",".join(cons), ",".join(eqs)]


def methods(rng):
    x = rng.random()
    if x < 0.3:
        return None
    if x < 0.45:
        return ["LinearSOS"]
    if x < 0.65:
        return ["SDPSOS"]
    if x < 0.7:
        return ["StructuralSOS"]
    if x < 0.75:
        return ["SymmetricSOS"]
    if x < 0.85:
        return ["LinearSOS", "SDPSOS"]
    m = list(METHODS)
    rng.shuffle(m)
    return m[:rng.randint(2, 4)]


def build(p):
    """-> poly, gens, ineq list, eq list."""
    import sympy as sp
    from triples.utils.text_process import pl
    text, g, iq, eq = p
    gens = sp.symbols(" ".join(g)) if len(g) > 1 else (sp.Symbol(g),)
    loc = {str(s): s for s in gens}

    def read(t):
        return sp.expand(sp.sympify(t, locals=loc))
    if "*" in text:          # python syntax, read by sympy alone
        cyc = text.startswith("CYC:")
        e = read(text[4:] if cyc else text)
        if cyc:
            e = sp.expand(sum(e.xreplace({gens[i]: gens[(i + k) % len(gens)] for i in range(len(gens))}) for k in range(len(gens))))
        poly = sp.Poly(e, *gens)
        f = lambda t: [c for c in dict.fromkeys(read(x) for x in t.split(",") if x) if c.free_symbols]
        return poly, gens, f(iq), f(eq)
    poly = pl(text, gens=gens)
    f = lambda t: [pl(x, gens=gens).as_expr() for x in t.split(",") if x]
    return poly, gens, f(iq), f(eq)


# ------------------------------------------------------------------- faults
LP = ["raise", "fail", "noise", "zeros", "random", "neg", "nan", "inf", "huge", "scale", "drop"]
SDP = ["raise", "none", "noise", "garbage", "ints", "zeros", "nan", "inf", "huge", "flip", "short", "empty"]
ROOTS = ["raise", "noise", "imag"]
MIN = ["raise", "noise", "nan"]


def fault(rng, kind):
    k = rng.choice({"lp": LP, "sdp": SDP, "roots": ROOTS, "min": MIN, "linalg": ["raise"]}[kind])
    s = {"kind": k, "seed": rng.randrange(100000)}
    if k in ("noise", "neg"):
        s["amp"] = rng.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.1])
    if k == "raise" and kind in ("lp", "sdp"):
        s["exc"] = rng.choice({"lp": ["ValueError", "NumericFailure", "MemoryError"],
                               "sdp": ["ValueError", "ArithmeticError", "ZeroDivisionError"]}[kind])
    if kind == "sdp":
        s["status"] = rng.choice(["optimal", "unknown"])
    return s


def faults(rng, rate=0.6, kinds=("lp", "sdp", "roots", "min", "linalg")):
    """A swarm: a random subset of fault kinds, a few calls each."""
    plan = {}
    for kind in kinds:
        if rng.random() > rate * (0.5 if kind in ("min", "linalg") else 1):
            continue
        if rng.random() < 0.35:
            plan[kind] = {"*": fault(rng, kind)}
        else:
            span = {"lp": 4, "sdp": 6, "roots": 8, "min": 4, "linalg": 12}[kind]
            plan[kind] = {str(rng.randrange(span)): fault(rng, kind) for _ in range(rng.choice([1, 1, 2, 3]))}
    return plan


def shrink_plan(spec, key="faults"):
    import copy
    for kind in list(spec.get(key, {})):
        s = copy.deepcopy(spec)
        del s[key][kind]
        yield s
        for n in list(spec[key][kind]):
            if len(spec[key][kind]) > 1:
                s = copy.deepcopy(spec)
                del s[key][kind][n]
                yield s
