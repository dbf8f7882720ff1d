"""Batch calls shared by S06 and S07."""
from . import corpus as K

# text -> the polynomial it denotes (cyclic sums over a,b,c); None: unreadable
ITEMS = {
    "s(a2-ab)": "a**2+b**2+c**2-a*b-b*c-c*a", "a2+b2-2ab": "(a-b)**2", "-(a-b)2": "-(a-b)**2", "a2b2+1": "a**2*b**2+1", "3": "3", "0": "0", "-3": "-3",
    "s(a3)-3abc": "a**3+b**3+c**3-3*a*b*c", "s(a2b)-3abc": "a**2*b+b**2*c+c**2*a-3*a*b*c", "s(a2)-2s(ab)": "a**2+b**2+c**2-2*a*b-2*b*c-2*c*a",
    "s(a4-a2bc)": "a**4+b**4+c**4-a*b*c*(a+b+c)", "p(a+b)-8abc": "(a+b)*(b+c)*(c+a)-8*a*b*c", "a2/4+b2-ab": "a**2/4+b**2-a*b", "a": "a", "-a2-1": "-a**2-1",
    "s(a2)2-3s(a3b)": "(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)", "s(a(a-b)(a-c))": "a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)", "a2-a+1": "a**2-a+1",
    "2a2+3b2-4ab": "2*a**2+3*b**2-4*a*b", "s(ab)": "a*b+b*c+c*a", "a2 + b2 - ab": "a**2+b**2-a*b", "s(a3-a2b)": "a**3+b**3+c**3-a**2*b-b**2*c-c**2*a",
    "a4-2a2+1": "(a**2-1)**2", "(a-b)2(b-c)2": "(a-b)**2*(b-c)**2", "s(a)-s(a)": "0", "7": "7", "ab-1": "a*b-1",
    "s(a)(": None, "a2++": None, "(a+b": None, "a=b": None, "a,b": None, "sqrt(a)": None, "s(a/(b+c))-3/2": None, "a2)": None, "#": None,
    "a2\u22650": None, "\"a,b\";": None, "a^^2": None, "()": None, "a.b": None, "a2-": None, "s(a2)/s(ab)-1": None, "@": None, "1,2": None,
}
# polynomials given as objects: constructor text, gens, options; status that is certain (or None)
POLYS = {
    "P:x2": ("a**2+b**2-a*b", "abc", {}), "P:ab": ("a**2+b**2", "ab", {}), "P:frac": ("a**2/3+1", "abc", {}), "P:float": ("1.5*a**2+0.25*b**2", "abc", {}),
    "P:imag": ("I*a**2", "abc", {}), "P:par": ("(t**2+1)*a**2", "abc", {}), "P:zero": ("0", "abc", {}), "P:neg": ("-a**2", "abc", {}), "P:xy": ("x**2-2*x*y+y**2", "xy", {}),
    "P:sin": ("sin(t)*a**2", "abc", {}), "P:root": ("sqrt(2)*a**2+b**2", "abc", {}), "P:zoo": ("zoo*a", "abc", {}), "P:sqrt": ("b+sqrt(a)", ["b", "sqrt(a)"], {}),
}
CHEAP = ["s(a2-ab)", "a2+b2-2ab", "a2b2+1", "3", "0", "a", "s(ab)", "a2 + b2 - ab", "s(a)(", "a,b", "\"a,b\";", "a2\u22650", "P:ab", "P:imag", "a2-a+1", "s(a3)-3abc", "-a2-1"]
BLANK = ["", "   ", "\t"]


def gen_items(rng, n, cheap=False, polys=True):
    good = [t for t, v in ITEMS.items() if v is not None]
    bad = [t for t, v in ITEMS.items() if v is None]
    out = []
    for _ in range(n):
        x = rng.random()
        if cheap:
            out.append(rng.choice(CHEAP if polys else [c for c in CHEAP if not c.startswith("P:")]))
        elif x < 0.25:
            out.append(rng.choice(bad))
        elif x < 0.4 and polys:
            out.append(rng.choice(list(POLYS)))
        elif x < 0.5 and out:
            out.append(rng.choice(out))
        else:
            out.append(rng.choice(good))
    return out


def value(item):
    """The object passed to the batch call for an item."""
    import sympy as sp
    if item in POLYS:
        t, g, o = POLYS[item]
        return sp.Poly(sp.sympify(t), *[sp.sympify(v) for v in g], **o)
    return item


def truth(item):
    """-> sympy polynomial the item denotes, None if unreadable"""
    import sympy as sp
    if item in POLYS:
        return value(item)
    t = ITEMS[item]
    if t is None:
        return None
    return sp.Poly(sp.sympify(t), *sp.symbols("a b c"))


def constraints(kind):
    import sympy as sp
    a, b, c = sp.symbols("a b c")
    if kind == "none":
        return {}, {}
    if kind == "empty":
        return [], []
    if kind == "list":
        return [a, b, c], []
    if kind == "dict":
        f = sp.Function
        return {a: f("A")(a, b, c), b: f("B")(a, b, c), c: f("C")(a, b, c)}, {}
    if kind == "eq":
        return [], {a + b + c - 1: sp.Function("H")(a, b, c)}
    raise ValueError(kind)
