"""Independent verifier of nonnegativity certificates.

It never calls the repository's own expansion or equality code: cyclic sums
and products are expanded here, identities are decided by exact rational
evaluation (Schwartz-Zippel, numerators up to 10**9) and nonnegativity by a
structural proof over the expression tree, with exact sampling of feasible
points to exhibit a witness.
"""
import random
from fractions import Fraction

import sympy as sp


class Unknown(Exception):
    """A node the exact evaluator does not cover (falls back to high precision)."""


CYC = ("CyclicSum", "CyclicProduct")


def _perms(symbols, perm):
    """All images of the symbol tuple under the permutation group."""
    n = len(symbols)
    for p in perm.elements:
        img = list(p.array_form) + list(range(p.size, n))
        yield [symbols[img[i]] for i in range(n)]


def ev(e, env):
    """Exact value of a sympy expression at a rational point (Fractions)."""
    if e.is_Integer:
        return Fraction(int(e))
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Symbol:
        return env[e]
    if e.is_Add:
        s = Fraction(0)
        for a in e.args:
            s += ev(a, env)
        return s
    if e.is_Mul:
        s = Fraction(1)
        for a in e.args:
            s *= ev(a, env)
            # no early exit at 0: a pole in another factor must be noticed
        return s
    if e.is_Pow and e.exp.is_Integer:
        b = ev(e.base, env)
        k = int(e.exp)
        if b == 0 and k < 0:
            raise ZeroDivisionError
        return b ** k
    nm = type(e).__name__
    if nm in CYC and len(e.args) == 3:
        symbols, perm = tuple(e.args[1]), e.args[2]
        acc = Fraction(0) if nm == "CyclicSum" else Fraction(1)
        for img in _perms(symbols, perm):
            env2 = dict(env)
            for s, t in zip(symbols, img):
                env2[s] = env[t]
            v = ev(e.args[0], env2)
            acc = acc + v if nm == "CyclicSum" else acc * v
        return acc
    if isinstance(e, sp.core.function.AppliedUndef) and e in env:
        return env[e]
    raise Unknown(nm)


def evn(e, env, digits=60):
    """High-precision value, for irrational certificates."""
    nm = type(e).__name__
    if nm in CYC and len(e.args) == 3:
        symbols, perm = tuple(e.args[1]), e.args[2]
        acc = sp.Float(0 if nm == "CyclicSum" else 1, digits)
        for img in _perms(symbols, perm):
            env2 = dict(env)
            for s, t in zip(symbols, img):
                env2[s] = env[t]
            v = evn(e.args[0], env2, digits)
            acc = acc + v if nm == "CyclicSum" else acc * v
        return acc
    if e.is_Symbol:
        v = env[e]
        return sp.Float(v.numerator, digits) / sp.Float(v.denominator, digits)
    if e.is_Add or e.is_Mul or e.is_Pow:
        return e.func(*[evn(a, env, digits) if not a.is_Rational else a for a in e.args]).evalf(digits)
    return e.evalf(digits)


def free_syms(e):
    return e.free_symbols


def _value(e, env):
    """(exact?, value)"""
    try:
        return True, ev(e, env)
    except Unknown:
        v = evn(e, env)
        return False, v


def identity_witness(problem, solution, env_extra=None, points=6, seed=0, extra=None):
    """None if problem == solution as rational functions, else a witness point.
    `extra(env)` may complete the environment (named constraints)."""
    r = random.Random(seed)
    syms = sorted(problem.free_symbols | solution.free_symbols, key=lambda s: s.name)
    done = tries = 0
    while done < points and tries < 60:
        tries += 1
        env = {s: Fraction(r.randrange(-10 ** 9, 10 ** 9), r.randrange(1, 10 ** 4)) for s in syms}
        if extra is not None:
            env = extra(env)
        try:
            ex1, a = _value(problem, env)
            ex2, b = _value(solution, env)
        except ZeroDivisionError:
            continue
        done += 1
        if ex1 and ex2:
            if a != b:
                return {str(k): str(v) for k, v in env.items()}
        else:
            a = sp.Float(a.numerator, 60) / a.denominator if isinstance(a, Fraction) else a
            b = sp.Float(b.numerator, 60) / b.denominator if isinstance(b, Fraction) else b
            if not _close(a, b):
                # nested radicals cancel: look again with far more digits
                for digits in (1000, 12000):
                    try:
                        if _close(evn(problem, env, digits), evn(solution, env, digits)):
                            break
                    except ZeroDivisionError:
                        break
                else:
                    return {str(k): str(v) for k, v in env.items()}
    return None


def _close(a, b):
    try:
        d = abs(sp.N(a - b, 50))
        scale = 1 + abs(sp.N(a, 50)) + abs(sp.N(b, 50))
        return bool(d.is_comparable and d <= scale * sp.Float("1e-30", 50))
    except TypeError:
        return False


# ------------------------------------------------------- structural proof
class Prover:
    """Proves `e >= 0` on {g >= 0 for g in ineqs, h = 0 for h in eqs}."""

    def __init__(self, ineqs, eqs, names=(), zeros=()):
        self.pos = set()            # symbols known nonnegative
        self.ineqs = [sp.expand(g) for g in ineqs]
        self.eqs = [sp.expand(h) for h in eqs]
        self.names = set(names)     # opaque functions standing for inequality constraints
        self.zeros = set(zeros)     # opaque functions standing for equality constraints
        for g in self.ineqs:
            if g.is_Symbol:
                self.pos.add(g)
            c, m = g.as_coeff_Mul()
            if m.is_Symbol and c.is_positive:
                self.pos.add(m)
        self.memo = {}

    def images(self, e):
        nm = type(e).__name__
        symbols, perm = tuple(e.args[1]), e.args[2]
        for img in _perms(symbols, perm):
            yield e.args[0].xreplace(dict(zip(symbols, img))) if not _has_cyc(e.args[0]) else \
                _rename(e.args[0], dict(zip(symbols, img)))

    def nonneg(self, e):
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = False
        r = self._nonneg(e)
        self.memo[e] = r
        return r

    def _nonneg(self, e):
        if e.is_number and not _has_cyc(e):
            return _number_nonneg(e)
        if e in self.names or e in self.pos or e in self.zeros:
            return True
        if e.is_Pow and e.exp.is_Integer:
            if int(e.exp) % 2 == 0:
                return True
            return self.nonneg(e.base)
        if e.is_Pow and e.exp.is_Rational:
            return self.nonneg(e.base)
        nm = type(e).__name__
        if nm == "Abs":
            return True
        if nm in CYC:
            return all(self.nonneg(x) for x in self.images(e))
        if e.is_Mul:
            neg = [f for f in e.args if not self.nonneg(f)]
            if not neg:
                return True
            # an equality-constraint factor makes the product vanish
            if any(self.is_zero(f) for f in e.args):
                return True
            if len(neg) % 2 == 0:
                # pairs of equal (up to a positive/negative constant) factors
                rest = list(neg)
                sign = 1
                ok = True
                while rest:
                    f = rest.pop()
                    for k, g in enumerate(rest):
                        q = sp.cancel(expand_all(f) / expand_all(g))
                        if q.is_number:
                            sign = sign * (1 if q.is_positive else -1)
                            rest.pop(k)
                            break
                    else:
                        ok = False
                        break
                if ok and sign > 0:
                    return True
            if len(neg) > 1:
                rest = sp.Mul(*neg)
                if self.matches_ineq(rest):
                    return True
            return self.poly_nonneg(sp.Mul(*neg))
        if e.is_Add:
            args = e.args
            num = [x for x in args if x.is_number and not _has_cyc(x)]
            if len(num) > 1:    # an irrational constant prints as several terms
                args = [x for x in args if x not in num] + [sp.Add(*num, evaluate=False)]
            bad = [x for x in args if not (self.nonneg(x) if x in e.args else _number_nonneg(x))]
            if not bad:
                return True
            if len(bad) < len(e.args):
                b = sp.Add(*bad)
                if self.is_zero(b) or self.matches_ineq(b) or self.poly_nonneg(b):
                    return True
            if self.is_zero(e) or self.matches_ineq(e):
                return True
            ex = expand_all(e)
            if ex.is_Add and all(self.nonneg(x) for x in ex.args):
                return True
            return self.poly_nonneg(e)
        return self.matches_ineq(e)

    def is_zero(self, e):
        if e in self.zeros or (e.is_Mul and any(f in self.zeros for f in e.args)):
            return True
        x = expand_all(e)
        if x == 0:
            return True
        for h in self.eqs:
            try:
                q = sp.cancel(x / h)
                if sp.denom(sp.together(q)).is_number:
                    return True
            except Exception:
                pass
        return False

    def matches_ineq(self, e):
        x = expand_all(e)
        for g in self.ineqs:
            try:
                q = sp.cancel(x / g)
            except Exception:
                continue
            if q.is_number and q.is_positive:
                return True
        return False

    def poly_nonneg(self, e):
        """Small polynomials: univariate by real roots, quadratic by minors."""
        x = expand_all(e)
        if x.atoms(sp.core.function.AppliedUndef):
            return False
        if not x.is_polynomial(*x.free_symbols) or not x.free_symbols:
            return bool(x.is_nonnegative)
        p = sp.Poly(x, *sorted(x.free_symbols, key=str))
        if p.domain.is_ZZ or p.domain.is_QQ:
            if all(c >= 0 for c in p.coeffs()) and all(
                    all(k % 2 == 0 or g in self.pos for k, g in zip(m, p.gens)) for m in p.monoms()):
                return True
            if p.total_degree() <= 2:
                return _quad_psd(p)
            if len(p.gens) == 1:
                return _uni_nonneg(p, p.gens[0] in self.pos)
            if p.is_homogeneous and len(p.gens) == 2:
                return _uni_nonneg(p.eval(p.gens[1], 1), False) and p.total_degree() % 2 == 0
            if len(p.gens) <= 4 and p.total_degree() == 2:
                return _quad_psd(p)
        return False


def _number_nonneg(e):
    return bool(e.is_nonnegative) or (e.is_nonnegative is None and bool(sp.N(e, 30) >= 0))


def _has_cyc(e):
    return type(e).__name__ in CYC or any(_has_cyc(a) for a in e.args if isinstance(a, sp.Basic)
                                          and not isinstance(a, sp.combinatorics.PermutationGroup))


def _rename(e, d):
    """Simultaneous renaming of symbols, also below cyclic nodes."""
    if e.is_Symbol:
        return d.get(e, e)
    nm = type(e).__name__
    if nm in CYC:
        syms = [d.get(s, s) for s in e.args[1]]
        return e.func(_rename(e.args[0], d), tuple(syms), e.args[2], evaluate=False)
    if not e.args:
        return e
    return e.func(*[_rename(a, d) if isinstance(a, sp.Expr) else a for a in e.args])


def expand_all(e):
    """Expand cyclic nodes (here, not by the repository) and products."""
    return sp.expand(_open(e))


def _open(e):
    nm = type(e).__name__
    if nm in CYC:
        symbols, perm = tuple(e.args[1]), e.args[2]
        inner = _open(e.args[0])
        parts = [inner.xreplace(dict(zip(symbols, img))) for img in _perms(symbols, perm)]
        return sp.Add(*parts) if nm == "CyclicSum" else sp.Mul(*parts)
    if not e.args or not isinstance(e, sp.Expr):
        return e
    return e.func(*[_open(a) if isinstance(a, sp.Expr) else a for a in e.args])


def _uni_nonneg(p, halfline):
    g = p.gens[0]
    if p.LC() < 0:
        return False
    _, fl = p.factor_list()
    if not halfline and p.degree() % 2:
        return False
    for f, k in fl:
        if k % 2 == 0:
            continue
        n = sp.count_roots if False else None
        cnt = f.count_roots(0, None) if halfline else f.count_roots()
        if cnt and not (halfline and f == sp.Poly(g, g) and cnt == 1):
            return False
    return True


def _quad_psd(p):
    gens = list(p.gens)
    n = len(gens)
    M = sp.zeros(n + 1, n + 1)
    for m, c in p.terms():
        idx = [i for i, k in enumerate(m) for _ in range(k)]
        while len(idx) < 2:
            idx.append(n)
        i, j = idx
        if i == j:
            M[i, i] += c
        else:
            M[i, j] += sp.Rational(c) / 2
            M[j, i] += sp.Rational(c) / 2
    return psd(M)


def psd(M):
    """Exact PSD test of a rational symmetric matrix (fraction LDL with pivoting)."""
    n = M.shape[0]
    A = [[Fraction(int(sp.Rational(M[i, j]).p), int(sp.Rational(M[i, j]).q)) for j in range(n)] for i in range(n)]
    if any(A[i][j] != A[j][i] for i in range(n) for j in range(i)):
        return False
    left = list(range(n))
    while left:
        for i in left:
            if A[i][i] < 0:
                return False
        k = next((i for i in left if A[i][i] > 0), None)
        if k is None:
            return all(A[i][j] == 0 for i in left for j in left)
        left.remove(k)
        for i in left:
            f = A[i][k] / A[k][k]
            if f:
                for j in left:
                    A[i][j] -= f * A[k][j]
    return True


# ---------------------------------------------------------------- sampling
def feasible_points(syms, ineqs, eqs, seed, want=60):
    """Exact rational points with all ineqs >= 0 and all eqs == 0."""
    r = random.Random(seed)
    out = []
    tries = 0
    grid = [Fraction(k) for k in (0, 0, 1, 1, 2, 3, -1, -2)] + [Fraction(1, 2), Fraction(1, 3), Fraction(3, 2)]
    while len(out) < want and tries < want * 30:
        tries += 1
        env = {}
        mode = r.random()
        for s in syms:
            if mode < 0.45:
                env[s] = r.choice(grid)
            elif mode < 0.8:
                env[s] = Fraction(r.randrange(0, 4000), 1000)
            else:
                env[s] = Fraction(r.randrange(-3000, 3000), 1000)
        ok = True
        for h in eqs:
            ok = _solve_eq(h, env, syms, r) and ok
        try:
            if ok and all(ev(h, env) == 0 for h in eqs) and all(ev(g, env) >= 0 for g in ineqs):
                out.append(env)
        except (ZeroDivisionError, Unknown, KeyError):
            pass
    return out


def _solve_eq(h, env, syms, r):
    """Adjust one variable (in which h is linear) so that h = 0."""
    order = list(syms)
    r.shuffle(order)
    for s in order:
        if s not in h.free_symbols:
            continue
        p = sp.Poly(h, s)
        if p.degree() != 1:
            continue
        try:
            a, b = ev(p.coeff_monomial(s), env), ev(p.coeff_monomial(1), env)
        except (Unknown, ZeroDivisionError):
            continue
        if a == 0:
            continue
        env[s] = -b / a
        return True
    return False


def _divided(ineqs, env):
    """Does a squared factor of a constraint vanish here?  By the documented
    convention -3*(x+y)**2*z >= 0 means -z >= 0: the constraint's expression is
    divided by its squared factors, and a proof may cancel that denominator."""
    for g in ineqs:
        try:
            for q, d in sp.factor_list(g)[1]:
                if d > 1 and ev(q, env) == 0:
                    return True
        except (sp.PolynomialError, ZeroDivisionError, Unknown):
            pass
    return False


# -------------------------------------------------------------- entry point
def check_certificate(problem, ineqs, eqs, solution, names=None, seed=0):
    """problem, solution: sympy expressions.  names: {name expr: constraint expr}
    for constraints that were given a name.  Returns (violations, probes)."""
    viol, probe = [], {}
    names = dict(names or {})
    ident = solution
    if names:
        ident = _subs_names(solution, names)
    if ident.has(sp.nan, sp.oo, sp.zoo, -sp.oo):
        return [("ill-formed", "the certificate contains nan or infinity: %s" % str(solution)[:200])], probe
    problem = sp.sympify(problem)
    syms = sorted(set().union(problem.free_symbols, ident.free_symbols, *[g.free_symbols for g in list(ineqs) + list(eqs)]),
                  key=lambda s: s.name)
    try:
        if not eqs:
            w = identity_witness(problem, ident, seed=seed)
        else:
            w = identity_witness(problem, ident, seed=seed)
    except Exception as e:
        return [("ill-formed", "the certificate cannot be evaluated: %s: %s; %s" % (
            type(e).__name__, e, str(solution)[:300]))], probe
    if w is not None:
        viol.append(("identity", "claimed equality is false at %s: %s = %s" % (w, problem, str(solution)[:600])))
        return viol, probe
    probe["identity_checked"] = 1
    # the claim itself, at exact feasible points
    pts = feasible_points(syms, ineqs, eqs, seed, 60)
    opened = _open(solution)
    for env in pts:
        try:
            ex, v = _value(problem, env)
            if v < 0:       # the certificate says nothing where its denominators vanish
                _value(opened, env | {n: ev(g, env) for n, g in names.items()})
                if _divided(ineqs, env):
                    continue
        except ZeroDivisionError:
            continue
        if v < 0 if ex else sp.N(v, 20) < -1e-20:
            viol.append(("false-claim", "the problem %s is negative (%s) at the feasible point %s although it was 'proved' by %s" % (
                problem, v, {str(k): str(v) for k, v in env.items()}, str(solution)[:400])))
            return viol, probe
    probe["claim_sampled"] = 1
    iq = [n for n, g in names.items() if g in ineqs]
    hq = [n for n, g in names.items() if g in eqs]
    tries = [(Prover(ineqs, eqs, names=iq, zeros=hq), _open(solution) if names else solution)]
    if names:
        tries.append((Prover(ineqs, eqs), ident))
    for pr, e in tries:
        try:
            if pr.nonneg(e):
                probe["structurally_proved"] = 1
                return viol, probe
        except RecursionError:
            pass
    if names or not (ineqs or eqs):
        # every constraint was given an opaque name, so its use is visible
        viol.append(("unproved", "the certificate does not show nonnegativity: %s for %s | %s | %s" % (
            str(solution)[:600], problem, ineqs, eqs)))
    else:
        probe["sampled_only"] = 1
    return viol, probe


def _subs_names(e, names):
    """Replace constraint names by the constraints, below cyclic nodes too (the
    name of an image is the image of the name only when given so: expand first)."""
    x = _open(e)
    return x.xreplace({k: v for k, v in names.items()})
