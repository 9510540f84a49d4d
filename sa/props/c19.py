"""C19 every recognised function computes what its name says."""
import math
from ..spec import *
from ..values import sym, equal

LEVEL = "other"
EXPLAIN = ("value-number analysis of every function name that expressions accept, bare and as an attribute of math or numpy: the term in the cell must be that function of the symbolic arguments, in their order; functions with "
           "cases are also propagated for constants on all sides of each case, including halves, signs, infinities and NaN, and the argument arrays must be left as they were")
ASSUME = ["fmod is the floored remainder (the meaning of %), so it is claimed for operands of equal sign only", "erf, erfc, gamma, lgamma and factorial are approximations, claimed to 1e-6", "rounding of the elementary functions is not modelled"]

P = [-3.5, -3.0, -2.5, -1.5, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5, 2.5, 3.0, 3.5]
SP = [INF, -INF, NAN]
UNIT = [-1.0, -0.75, -0.5, 0.0, 0.25, 0.5, 0.875, 1.0]
POS = [0.125, 0.5, 1.0, 1.5, 2.0, 3.0, 4.75, 6.0, 10.5]


def half_even(x):
    return x if x != x or abs(x) == INF else float(round(x))


def fl(f):
    return lambda x: x if x != x or abs(x) == INF else float(f(x))


# name -> (numpy operation, reference, points)
UN = {
    "abs": ("abs", abs, P + SP), "fabs": ("abs", abs, P + SP), "arccos": ("arccos", math.acos, UNIT), "arccosh": ("arccosh", math.acosh, [1.0, 1.5, 2.0, 7.5]), "arcsin": ("arcsin", math.asin, UNIT), "arcsinh": ("arcsinh", math.asinh, P), "arctan": ("arctan", math.atan, P + SP),
    "arctanh": ("arctanh", math.atanh, UNIT[1:-1]), "ceil": ("ceil", fl(math.ceil), P + SP), "cos": ("cos", math.cos, P), "cosh": ("cosh", math.cosh, P), "deg2rad": ("deg2rad", math.radians, P), "rad2deg": ("rad2deg", math.degrees, P), "exp": ("exp", math.exp, P), "exp2": ("exp2", lambda x: 2.0 ** x, P), "expm1": ("expm1", math.expm1, P),
    "floor": ("floor", fl(math.floor), P + SP), "isfinite": (None, lambda x: float(x == x and abs(x) != INF), P + SP), "isinf": (None, lambda x: float(abs(x) == INF), P + SP), "isnan": (None, lambda x: float(x != x), P + SP), "log": ("log", math.log, POS), "log10": ("log10", math.log10, POS), "log1p": ("log1p", math.log1p, POS + UNIT[1:]), "log2": ("log2", math.log2, POS),
    "rint": ("rint", half_even, P + SP), "round": ("round", half_even, P + SP), "sign": ("sign", lambda x: x if x != x else float((x > 0) - (x < 0)), P + [INF, -INF]), "sin": ("sin", math.sin, P), "sinh": ("sinh", math.sinh, P), "sqrt": ("sqrt", math.sqrt, [0.0] + POS), "tan": ("tan", math.tan, P), "tanh": ("tanh", math.tanh, P), "trunc": ("trunc", fl(math.trunc), P + SP), "conj": ("conj", lambda x: x, P + SP),
    "erf": (None, math.erf, P), "erfc": (None, math.erfc, P), "gamma": (None, math.gamma, POS), "lgamma": (None, math.lgamma, POS), "factorial": (None, lambda x: float(math.factorial(round(x))), [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 2.9999999999999996, 3.0000000000000004, 6.000000000000001, 6.999999999999999]),
}
FAR = [-1e300, -1e10, -12345.5, -700.0, -40.0, -20.5, -6.0, -5.0, 5.0, 6.0, 7.25, 20.5, 40.0, 700.0, 12345.5, 1e10, 1e300]
NEAR0 = [-1e-3, -1e-10, -1e-300, 1e-300, 1e-10, 1e-3]
for _n, _more in (("abs", FAR + NEAR0), ("fabs", FAR + NEAR0), ("arcsinh", [p for p in FAR if abs(p) < 1e9] + NEAR0), ("arctan", FAR + NEAR0), ("ceil", FAR + NEAR0), ("floor", FAR + NEAR0), ("trunc", FAR + NEAR0), ("rint", FAR + NEAR0), ("round", FAR + NEAR0), ("sign", FAR + NEAR0), ("isfinite", FAR), ("isinf", FAR), ("isnan", FAR), ("tanh", FAR + NEAR0), ("erf", FAR + NEAR0), ("erfc", FAR + NEAR0),
                  ("exp", [p for p in FAR if p <= 700] + NEAR0), ("exp2", [p for p in FAR if p <= 700] + NEAR0), ("expm1", [p for p in FAR if p <= 700] + NEAR0), ("log", [p for p in FAR + NEAR0 if p > 0]), ("log10", [p for p in FAR + NEAR0 if p > 0]), ("log2", [p for p in FAR + NEAR0 if p > 0]), ("log1p", [p for p in FAR + NEAR0 if p > 0]), ("sqrt", [p for p in FAR + NEAR0 if p > 0]), ("lgamma", [0.01, 0.03125, 20.0, 50.5, 150.0]), ("gamma", [0.01, 0.03125, 15.0, 20.5, 40.0, 100.0]),
                  ("factorial", [6.0, 7.0, 9.0, 11.0]), ("sin", [5.0, 20.5, -40.0] + NEAR0), ("cos", [5.0, 20.5, -40.0] + NEAR0), ("cosh", [-20.5, 20.5, 300.0] + NEAR0), ("sinh", [-20.5, 20.5, 300.0] + NEAR0), ("arccosh", [1.0009765625, 20.5, 700.0, 12345.5]), ("rad2deg", FAR[2:-2]), ("deg2rad", FAR[2:-2])):
    UN[_n] = UN[_n][:2] + (UN[_n][2] + _more,)
APPROX = ("erf", "erfc", "gamma", "lgamma", "factorial")
BI = {
    "arctan2": ("arctan2", math.atan2, [(a, b) for a in (-2.0, -0.5, 0.0, 1.0, 2.5) for b in (-1.5, 0.5, 1.0, 3.0)]), "copysign": ("copysign", math.copysign, [(a, b) for a in (-2.0, 1.5, 0.0) for b in (-3.0, 2.0, 0.5)]), "hypot": ("hypot", math.hypot, [(3.0, 4.0), (-3.0, 4.0), (1.0, -2.0), (0.0, 5.0)]),
    "logaddexp": ("logaddexp", lambda a, b: math.log(math.exp(a) + math.exp(b)), [(0.0, 1.0), (2.0, -1.0), (1.5, 1.5)]), "logaddexp2": ("logaddexp2", lambda a, b: math.log2(2 ** a + 2 ** b), [(0.0, 1.0), (2.0, -1.0), (1.5, 1.5)]),
    "max": (None, max, [(a, b) for a in (-1.5, 0.0, 2.0) for b in (-2.0, 0.0, 3.0)]), "min": (None, min, [(a, b) for a in (-1.5, 0.0, 2.0) for b in (-2.0, 0.0, 3.0)]), "fmax": (None, max, [(a, b) for a in (-1.5, 0.0, 2.0) for b in (-2.0, 0.0, 3.0)]), "fmin": (None, min, [(a, b) for a in (-1.5, 0.0, 2.0) for b in (-2.0, 0.0, 3.0)]),
    "pow": ("pow", lambda a, b: a ** b, [(a, b) for a in (0.5, 1.0, 2.0, 3.0) for b in (-2.0, -0.5, 0.0, 1.0, 2.5, 3.0)] + [(-2.0, 3.0), (-1.5, -2.0)]), "mod": ("mod", lambda a, b: a % b, [(a, b) for a in (-3.5, -2.0, 0.0, 1.0, 3.75) for b in (-2.0, 0.5, 3.0)]), "fmod": ("mod", lambda a, b: a % b, [(a, b) for a in (0.0, 1.0, 3.75, 7.0) for b in (0.5, 2.0, 3.0)] + [(-3.5, -2.0), (-7.0, -3.0)]),
    "heaviside": (None, lambda a, b: a if a != a else (b if a == 0 else float(a > 0)), [(a, b) for a in (-2.0, -0.5, 0.0, 0.5, 3.0) for b in (0.0, 0.25, 1.0)]),
}
MATH = {"arccos": "acos", "arccosh": "acosh", "arcsin": "asin", "arcsinh": "asinh", "arctan2": "atan2", "arctan": "atan", "arctanh": "atanh", "ceil": "ceil", "copysign": "copysign", "cos": "cos", "cosh": "cosh", "rad2deg": "degrees", "erfc": "erfc", "erf": "erf", "exp": "exp", "expm1": "expm1", "factorial": "factorial", "floor": "floor", "fmod": "fmod",
        "gamma": "gamma", "hypot": "hypot", "isinf": "isinf", "isnan": "isnan", "lgamma": "lgamma", "log10": "log10", "log1p": "log1p", "log": "log", "pow": "pow", "deg2rad": "radians", "sinh": "sinh", "sin": "sin", "sqrt": "sqrt", "tanh": "tanh", "tan": "tan", "trunc": "trunc"}
NUMPY = {"abs": ["absolute"], "deg2rad": ["deg2rad", "radians"], "rad2deg": ["rad2deg", "degrees"], "conj": ["conjugate"], "max": [], "min": [], "fmax": ["maximum"], "fmin": ["minimum"], "pow": ["power"], "mod": ["remainder"], "fabs": [], "erf": [], "erfc": [], "gamma": [], "lgamma": [], "factorial": []}


def forms(n):
    out = [n]
    if n in MATH:
        out.append("math." + MATH[n])
    out += ["numpy." + q for q in NUMPY.get(n, [n])]
    return out


def near(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(1.0, abs(b))


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "profile", "intbin")
    for n in sorted(UN):
        op, ref, pts = UN[n]
        for form in forms(n):
            # constants: one row per point
            for dt in ("f", "i"):
                ps = pts if dt == "f" else [int(p) for p in pts if abs(p) < 1e9 and p == int(p)]
                if dt == "i" and len(ps) < 2:
                    continue
                for shape, val in (("%s(v)", lambda z: z), ("2*%s(v) - 1", lambda z: 2 * z - 1), ("%s(-v)", None)):
                    if shape == "%s(-v)" and pts[:len(P)] != P or shape == "%s(-v)" and n.startswith("exp"):
                        continue
                    e = shape % form
                    want = [ref(-p) if val is None else val(ref(p)) for p in ps]
                    src = "k0 = v.copy()\nh = Hist(intbin('k', 0, %d, underflow=False, overflow=False), profile(%r))\nh.fill(k=k, v=v)\nreturn [snap(h.tojson()['content']), snap(v), snap(k0)]" % (len(ps) - 1, e)

                    def env(m, ps=ps):
                        return {"k": arr(m, list(range(len(ps)))), "v": arr(m, ps), "snap": snapfn()}

                    def judge(m, v, want=want, ps=ps, e=e, tol=2e-6 if n in APPROX else 1e-11):
                        c, a, b = host(m, v)
                        for i, w in enumerate(want):
                            g = c.v[i][0]
                            if not isinstance(g, (int, float)) or not near(float(g), w, tol):
                                return "%s at v = %r is %r, expected %r" % (e, ps[i], g, w)
                            if c.v[i][2] != 1.0:
                                return "%s at v = %r is counted %r times" % (e, ps[i], c.v[i][2])
                        return diff(a.v, b.v, "array that was given to %s" % e)
                    ck.ob("const/%s/%s" % (e, dt), "function by name, on all sides of its cases", src, env, judge)
            if op is not None and n != "conj":
                x = [sym("u", None), sym("v", None)]
                if n in ("sqrt", "log", "log10", "log2"):
                    x = [sym("u"), sym("v")]
                for e, f in (("%s(x)", lambda z: mk(op, z)), ("%s(x*y)", None), ("x*%s(x) + y", None)):
                    ee = e % form
                    y = [sym("s"), sym("t")]
                    vals = [mk(op, p) if e == "%s(x)" else mk(op, mk("*", p, q)) if e == "%s(x*y)" else add(mul(p, mk(op, p)), q) for p, q in zip(x, y)]
                    src = "h = Hist(profile(%r), profile('y'))\nh.fill(x=x, y=y)\nreturn [snap(h.tojson()['content'][:2]), snap(x), snap(y)]" % ee

                    def env(m, x=x, y=y):
                        return {"x": arr(m, x), "y": arr(m, y), "snap": snapfn()}

                    def judge(m, v, vals=vals, x=x, y=y, ee=ee):
                        c, a, b = host(m, v)
                        return diff(c.v, [add(vals[0], vals[1]), add(mul(vals[0], vals[0]), mul(vals[1], vals[1]))], "sums of %s" % ee) or diff(a.v, x, "field x") or diff(b.v, y, "field y")
                    ck.ob("symbolic/" + ee, "the term is the named function", src, env, judge)
    for n in sorted(BI):
        op, ref, pts = BI[n]
        for form in forms(n):
            for shape, swap in (("%s(v, w)", False), ("%s(w, v)", True), ("3 - %s(v, w)*2", None)):
                e = shape % form
                ps = [(b, a) for a, b in pts] if swap else pts
                want = [ref(*p) if swap is not None else 3 - ref(*p) * 2 for p in pts]
                src = "h = Hist(intbin('k', 0, %d, underflow=False, overflow=False), profile(%r))\nh.fill(k=k, v=v, w=w)\nreturn [snap(h.tojson()['content']), snap(v), snap(w)]" % (len(ps) - 1, e)

                def env(m, ps=ps):
                    return {"k": arr(m, list(range(len(ps)))), "v": arr(m, [p[0] for p in ps]), "w": arr(m, [p[1] for p in ps]), "snap": snapfn()}

                def judge(m, v, want=want, ps=ps, e=e):
                    c, a, b = host(m, v)
                    for i, w in enumerate(want):
                        g = c.v[i][0]
                        if not isinstance(g, (int, float)) or not near(float(g), w, 1e-11):
                            return "%s at v, w = %r is %r, expected %r" % (e, ps[i], g, w)
                    return diff(a.v, [p[0] for p in ps], "field v") or diff(b.v, [p[1] for p in ps], "field w")
                ck.ob("const/" + e, "function by name, on all sides of its cases", src, env, judge)
            if op is not None:
                x, y = [sym("u", None), sym("v", None)], [sym("s"), sym("t")]
                if n == "pow":
                    x = [sym("u"), sym("v")]
                for e in ("%s(x, y)", "%s(y, x)"):
                    if e == "%s(y, x)" and n == "pow":
                        continue
                    ee = e % form
                    vals = [mk(op, p, q) if e == "%s(x, y)" else mk(op, q, p) for p, q in zip(x, y)]
                    src = "h = Hist(profile(%r), profile('y'))\nh.fill(x=x, y=y)\nreturn [snap(h.tojson()['content'][:2]), snap(x), snap(y)]" % ee

                    def env(m, x=x, y=y):
                        return {"x": arr(m, x), "y": arr(m, y), "snap": snapfn()}

                    def judge(m, v, vals=vals, x=x, y=y, ee=ee):
                        c, a, b = host(m, v)
                        return diff(c.v, [add(vals[0], vals[1]), add(mul(vals[0], vals[0]), mul(vals[1], vals[1]))], "sums of %s" % ee) or diff(a.v, x, "field x") or diff(b.v, y, "field y")
                    ck.ob("symbolic/" + ee, "the term is the named function", src, env, judge)
    # every one of many arguments counts
    for n in (2, 3, 4, 5, 8):
        ns = "abcdghij"[:n]
        for f, ref in (("max", max), ("min", min)):
            rows = [[5.0 if i == j else float(j % 3) for j in range(n)] for i in range(n)] + [[-5.0 if i == j else float(j % 3) for j in range(n)] for i in range(n)]
            for e, val in (("%s(%s)" % (f, ", ".join(ns)), lambda row: ref(row)), ("%s(%s)" % (f, ", ".join(ns[::-1])), lambda row: ref(row)), ("2*%s(%s, 1) - 1" % (f, ", ".join(ns)), lambda row: 2 * ref(list(row) + [1]) - 1)):
                want = [val(row) for row in rows]
                src = "HH = Hist(intbin('k', 0, %d, underflow=False, overflow=False), profile(%r))\nHH.fill(k=k, %s)\nreturn snap(HH.tojson()['content'])" % (len(rows) - 1, e, ", ".join("%s=%s" % (c, c) for c in ns))

                def judge(m, v, want=want, e=e, rows=rows):
                    for i, w in enumerate(want):
                        if not near(float(v.v[i][0]), w, 1e-12):
                            return "%s at %r is %r, expected %r" % (e, rows[i], v.v[i][0], w)
                ck.ob("args/" + e, "function by name, on all sides of its cases", src, lambda m, rows=rows, ns=ns: dict([(c, arr(m, [row[i] for row in rows])) for i, c in enumerate(ns)] + [("k", arr(m, list(range(len(rows))))), ("snap", snapfn())]), judge)
    # more arguments, defaults
    vals = [-1.5, 0.0, 2.0]
    trip = list(itertools.product(vals, repeat=3))
    for e, ref in (("max(u, v, w)", max), ("min(u, v, w)", min), ("max(u, 1, w)", lambda a, b, c: max(a, 1, c)), ("min(1, v)", lambda a, b, c: min(1, b)), ("heaviside(u)", lambda a, b, c: 0.5 if a == 0 else float(a > 0)), ("max(u, v) - min(v, w)", lambda a, b, c: max(a, b) - min(b, c)), ("where(u < v, w, 5)", lambda a, b, c: c if a < b else 5.0),
                   ("where(u < v and v < w, u, w)", lambda a, b, c: a if a < b and b < c else c), ("numpy.where(u == v, 1, w)", lambda a, b, c: 1.0 if a == b else c), ("where(u in {0, 2}, 1, 0)", lambda a, b, c: 1.0 if a in (0, 2) else 0.0), ("where(not u < v, w, u)", lambda a, b, c: a if a < b else c), ("where(u < v, where(v < w, 1, 2), 3)", lambda a, b, c: (1.0 if b < c else 2.0) if a < b else 3.0)):
        src = "h = Hist(intbin('k', 0, %d, underflow=False, overflow=False), profile(%r))\nh.fill(k=k, u=u, v=v, w=w)\nreturn snap(h.tojson()['content'])" % (len(trip) - 1, e)

        def env(m):
            return {"k": arr(m, list(range(len(trip)))), "u": arr(m, [p[0] for p in trip]), "v": arr(m, [p[1] for p in trip]), "w": arr(m, [p[2] for p in trip]), "snap": snapfn()}

        def judge(m, v, e=e, ref=ref):
            for i, p in enumerate(trip):
                if not near(float(v.v[i][0]), float(ref(*p)), 1e-12):
                    return "%s at u, v, w = %r is %r, expected %r" % (e, p, v.v[i][0], ref(*p))
        ck.ob("const/" + e, "function by name, on all sides of its cases", src, env, judge)
