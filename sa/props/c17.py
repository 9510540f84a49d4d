"""C17 arithmetic expressions mean what they say."""
import ast
import cmath
import math
import random
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("value-number analysis of parsing, algebraic simplification, scheduling and in-place evaluation: each expression is filled as a profile, weight or axis with symbolic fields (each standing for every real number), and the "
           "term in the cell must be equal, as a function of the fields, to Python's own reading of the expression text; several expressions with common parts are evaluated together under different set iteration orders")
ASSUME = ["equality is that of real functions where both are defined (cancelling a common factor is allowed)", "`%` and `//` are floored as in Python", "rounding is not modelled"]


def ev(node, env):
    """Python's reading of an arithmetic expression, over terms."""
    if isinstance(node, ast.Expression):
        return ev(node.body, env)
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Name):
        return env[node.id]
    if isinstance(node, ast.UnaryOp):
        v = ev(node.operand, env)
        return v if isinstance(node.op, ast.UAdd) else mk("*", v, -1) if not isinstance(v, (int, float)) else -v
    if isinstance(node, ast.Call):
        f = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
        a = [ev(x, env) for x in node.args]
        if f in ("max", "min"):
            out = a[0]
            for x in a[1:]:
                out = mk(f, out, x)
            return out
        if all(isinstance(x, (int, float)) for x in a):
            return {"sqrt": math.sqrt, "abs": abs}[f](*a)
        return mk(FUN.get(f, f), *a)
    a, b = ev(node.left, env), ev(node.right, env)
    op = type(node.op).__name__
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
    if op == "Pow" and isinstance(b, int) and 0 <= b <= 8:
        out = 1
        for _ in range(b):
            out = mk("*", out, a)
        return out
    if op == "Pow" and isinstance(b, int) and -8 <= b < 0:
        out = 1
        for _ in range(-b):
            out = mk("*", out, a)
        return mk("/", 1, out)
    return mk({"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow"}[op], a, b)


FUN = {"abs": "abs"}
NAMES = "xyz"
SMALL = ["x", "y", "2", "x + y", "x - y", "2*x", "x*y", "x/y", "-x", "x + 2", "3 - x", "x**2", "x**-1", "x - 1", "y/x", "x/2", "2/x", "x*y - z"]
CHAINS = ["x - y - z", "x/y/z", "x - (y - z)", "x/(y/z)", "-x**2", "(-x)**2", "(-x)**3", "(-x)**-1", "(-x)**-2", "x*-y", "2*x/3/y", "x - -y", "x + y*z", "(x + y)*z", "x*y/z*x", "x/y*z/x", "x/(y*z)", "x/y/(z/x)", "1/x + 1/y", "(x + 1)**2", "(x - y)**3", "(x - y)**-1", "(2*x)**3", "(x/y)**2", "(x/y)**-2", "(-2*x)**3", "(-2*x/y)**2", "x**2**2",
          "x**5", "x**6", "x**-4", "x**-5", "x**1", "x**0", "x**4", "x**0.5", "x**y", "2**x", "(x + y)/(x - y)", "(x + y)/(x + y)", "x/(x + y)", "x - x", "x + x + x", "x*x*x - x*x", "x + y - x", "2*x - x", "3*x - 5*x", "x - 2*x", "x*y - y*x", "2*(x + y) - 2*x", "-(x - y)", "-(x*y)", "-(-x)", "+x", "--x", "x*(y + z)*(x - 1)", "(x + y)*(x + y)*(x - y)",
          "x//y", "x//2", "x % y", "x % 2", "2 % x", "(x + y) % 3", "x*y//z", "-x//y", "-(x//y)", "-x % y", "x//y*y + x % y", "2//3*x", "7//2*x", "7 % 4*x", "7/2*x", "2**3*x", "(1 + 2)*x", "2*3*x", "x/2/2", "1/2*x", "x*0", "0*x + y", "0/x + y", "x + 0", "x*1", "1*x/1", "x - 0", "0 - x", "5 - x - 5", "x + 1 - 1", "x*2/2", "x/4*2", "1e3*x", "x + 1.5 - 0.25", "2*x*3*y", "-2*x*-3", "x/-2", "2/-x", "-x/-y", "x/(2*y)",
          "x/(y - y + 2)", "(x + 2*y)/3", "(x - y)*(y - x)", "x - (y + (z - x))", "x*(y - (z + 2*x))", "((x))", "x*y*z/(x*y*z)", "x/(y/(z/(x + 1)))"]
FUNS = ["sqrt", "exp", "log", "sin", "cos", "tan", "arctan", "sinh", "tanh", "abs", "floor", "ceil", "log10", "arcsin", "exp2", "rint"]
CALLS = ["sqrt(x**2 + y**2)", "sqrt(x)*sqrt(x)", "sqrt(x*x)", "abs(x)", "abs(-x)", "abs(x - y)", "-abs(x)", "exp(-x)", "exp(x)*exp(y)", "sin(x)**2 + cos(x)**2", "sin(x + y) - sin(x)", "2*sin(x)/cos(x)", "sin(2*x)", "sin(-x)", "arctan2(y, x)", "arctan2(x, y)", "hypot(x, y)", "x*sqrt(y) + y*sqrt(x)", "sqrt(x + y)/(x + y)", "log(x) - log(y)", "log(x/y)", "floor(x) + floor(y)", "floor(x + y)", "x - floor(x)",
         "pow(x, y)", "pow(x, 2)", "copysign(x, y)", "sqrt(sqrt(x))", "exp(sin(x*y))", "sqrt(x)/sqrt(y)", "sqrt(x)**2", "sqrt(x)**3", "sin(x)/sin(x)", "sqrt(x + 1) - sqrt(1 + x)", "math.sqrt(x)", "numpy.sqrt(x)", "math.sin(x) + numpy.sin(x)", "numpy.exp(x) - math.exp(y)", "sqrt(2)*x", "x + sqrt(4)", "sqrt(x - y)*sqrt(y - x)", "sqrt(x, )", "sin(x)*x", "x*sin(x)", "cos(x)*sin(x) - sin(x)*cos(x)", "logaddexp(x, y)", "logaddexp2(y, x)"]


def rand(r, depth):
    if depth == 0 or r.random() < 0.15:
        return r.choice(["x", "y", "z", "x", "y", "2", "3", "0.5"])
    q = r.random()
    if q < 0.1:
        return "-(%s)" % rand(r, depth - 1)
    if q < 0.2:
        return "%s(%s)" % (r.choice(["sqrt", "sin", "exp", "abs"]), "(x + %s)" % rand(r, depth - 1))
    if q < 0.28:
        return "(%s)**%s" % (rand(r, depth - 1), r.choice(["2", "3", "-1", "-2"]))
    return "(%s %s %s)" % (rand(r, depth - 1), r.choice("+-*/+-*"), rand(r, depth - 1))


def ok(e):
    """Is the expression well conditioned at the points at which terms are compared (no division by zero, nothing huge)?"""
    from ..values import evalterm
    tree = ast.parse(e, mode="eval")
    roots = {}
    for k in range(12):
        for p in ("", "'"):
            env = dict((n, complex(evalterm(sym(n + p, None), k, {}))) for n in NAMES)
            try:
                if not tame(tree.body, env, roots):
                    return False
            except (ZeroDivisionError, OverflowError, ValueError, TypeError):
                return False
    # a root whose argument cancels to a negative constant is NaN
    return not any(max(abs(q - v[0]) for q in v) < 1e-9 and v[0].real < 0 for v in roots.values())


def tame(node, env, roots):
    def rec(n):
        if isinstance(n, ast.Constant):
            return n.value, True
        if isinstance(n, ast.Name):
            return env[n.id], False
        if isinstance(n, ast.UnaryOp):
            v, c = rec(n.operand)
            return (v if isinstance(n.op, ast.UAdd) else -v), c
        if isinstance(n, ast.Call):
            a = [rec(q) for q in n.args]
            if all(c for _, c in a):
                f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                return {"sqrt": math.sqrt, "sin": math.sin, "exp": math.exp, "abs": abs}[f](a[0][0]), True
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            v = a[0][0]
            if f in ("sqrt", "log", "log10"):
                roots.setdefault(id(n), []).append(complex(v))
            if f in ("exp", "exp2", "sinh") and abs(v) > 8:
                raise OverflowError()
            return {"exp": cmath.exp, "sin": cmath.sin, "abs": abs, "sqrt": cmath.sqrt}.get(f, lambda z: z)(v), False
        (a, ca), (b, cb) = rec(n.left), rec(n.right)
        op = type(n.op).__name__
        if op in ("Div", "FloorDiv", "Mod") and abs(b) < 1e-3 or op == "Pow" and abs(a) < 1e-3:
            raise ZeroDivisionError()
        if op in ("FloorDiv", "Mod") and not (ca and cb):
            v = a
        else:
            v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
        if abs(v) > 1e5 or v != v:
            raise OverflowError()
        return v, ca and cb
    rec(node)
    return True


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "profile")
    syms = dict((n, sym(n, None)) for n in NAMES)
    syms2 = dict((n, sym(n + "'", None)) for n in NAMES)
    exprs = list(SMALL) + CHAINS + CALLS
    for f in FUNS:
        exprs += ["%s(%s)" % (f, e) for e in ("x", "x + y", "x*y", "-x", "x - 1")]
    for op in "+-*/":
        for a in SMALL:
            for b in SMALL:
                exprs.append("(%s) %s (%s)" % (a, op, b))
    if ck.thorough:
        for op1 in "+-*/":
            for op2 in "+-*/":
                for a in SMALL[:10]:
                    for b in SMALL[:10]:
                        for c in ("x", "y", "2*z", "x - y"):
                            exprs.append("((%s) %s (%s)) %s (%s)" % (a, op1, b, op2, c))
    r = random.Random(17)
    while len(exprs) < (20000 if ck.thorough else 1900):
        exprs.append(rand(r, 4 if ck.thorough else 3))
    seen = set()
    pool = []
    for e in exprs:
        if e not in seen and ok(e):
            seen.add(e)
            pool.append(e)

    def env(m):
        out = dict((n, arr(m, [syms[n], syms2[n]])) for n in NAMES)
        out["q"] = arr(m, [q1, q2])
        out["snap"] = snapfn()
        return out
    q1, q2 = sym("q", None), sym("q'", None)
    Q = [add(q1, q2), add(mul(q1, q1), mul(q2, q2))]

    def refs(es):
        """[sum e, sum e^2] per expression over the two entries."""
        out = []
        for e in es:
            t = ast.parse(e, mode="eval")
            v = [ev(t, s) for s in (syms, syms2)]
            out += [add(v[0], v[1]), add(mul(v[0], v[0]), mul(v[1], v[1]))]
        return out
    for e in pool:
        src = "h = Hist(profile(%r), profile('q'))\nh.fill(x=x, y=y, z=z, q=q)\nreturn snap(h.tojson()['content'])" % e

        def judge(m, v, e=e):
            return diff(v.v, refs([e]) + Q + [2.0], "sum and sum of squares of %r" % e)
        ck.ob("profile/" + e, "the term computed is the one written", src, env, judge)
    # several at once: common parts, reuse, deletion
    groups = []
    for i in range(400 if ck.thorough else 120):
        groups.append([r.choice(pool) for _ in range(3)])
    common = ["x", "x + y", "(x + y)*z", "(x + y)*(x + y)", "sqrt(x + y)", "sqrt(x + y)*x", "sin(sqrt(x + y))", "x*y", "x*y + z", "x*y/z", "(x*y + z)**2", "x*x", "x*x*y", "x*x*x", "exp(x*y)", "exp(x*y)/(x*y)", "z"]
    for i, (a, b, c) in enumerate(itertools.combinations(common, 3)):
        if ck.thorough or i % 2 == 0:
            groups.append([a, b, c])
    for g in groups:
        if len(set(g)) < 3:
            continue
        src = "h = Hist(%s, profile('q'))\nh.fill(x=x, y=y, z=z, q=q)\nh.fill(x=x, y=y, z=z, q=q)\nreturn snap(h.tojson()['content'])" % ", ".join("profile(%r)" % e for e in g)

        def judge(m, v, g=g):
            return diff(v.v, [mul(2, q) for q in refs(g) + Q] + [4.0], "sums of %r after two fills" % (g,))
        ck.ob("together/%s" % " | ".join(g), "expressions evaluated together do not disturb each other", src, env, judge, orders=(0, 1, 2, 3) if ck.thorough else (0, 1, 2))
    # as weight
    for e in SMALL + CHAINS + CALLS:
        if e not in seen or e == "2":
            continue
        src = "h = Hist(profile('q'), weight=%r)\nh.fill(x=x, y=y, z=z, q=q)\nreturn snap(h.tojson()['content'][2:])" % e
        ck.ob("weight/" + e, "the term computed is the one written", src, env, lambda m, v, e=e: diff(v.v, refs([e]), "sum of weights %r" % e))
    # as axis, with concrete numbers: Python's own value decides the bin
    xs = [-7.5, -2.0, -0.5, 0.25, 1.0, 3.0, 6.5]
    ys = [2.0, -1.5, 0.5, 3.0, -2.0, 0.75, -4.0]
    ns = [-7, -3, -1, 1, 2, 5, 8]
    ms = [2, -3, 2, 3, -4, 3, -5]
    ax = Bin("e", 12, -24, 24)
    for e in SMALL + CHAINS + ["n//m", "n % m", "n//2", "n % 3", "-n//2", "n/m", "n**2", "n**3", "n*m - n", "2*n//3", "n//-2", "n % -3", "n - m", "n/2", "-n", "n**-1", "x//m", "n % y", "(n + m)*x", "n*n*n", "n + 0.5", "7//2 + n", "7 % 4 - n"]:
        cols = {"x": xs, "y": ys, "z": ys[::-1], "n": ns, "m": ms, "k": list(range(7))}
        tree = compile(e, "<e>", "eval")
        ref = None
        try:
            ref = [eval(tree, {}, dict((k, c[i]) for k, c in cols.items())) for i in range(7)]
        except (ZeroDivisionError, OverflowError, TypeError):
            continue
        if any(isinstance(q, complex) or q != q for q in ref):
            continue
        axe = dict(ax, expr=e)
        edge = edges(ax)
        if any(min(abs(q - w) for w in edge) < 1e-9 and min(abs(q - w) for w in edge) != 0 for q in ref):
            continue
        want = fillref([ax, Profile("k")], [([locate(ax, ("c", float(q)))], [], [j], None) for j, q in enumerate(ref)])
        src = "h = %s\nh.fill(x=x, y=y, z=z, n=n, m=m, k=k)\nreturn snap(h.tojson()['content'])" % hist([axe, Profile("k")])
        ck.ob("axis/" + e, "the value computed is the one written", src, lambda m, cols=cols: dict([(k, arr(m, c)) for k, c in cols.items()] + [("snap", snapfn())]), lambda m, v, want=want, e=e, ref=ref: diff(v.v, want, "bins of %r, whose values are %s," % (e, ref)))
    # constants and names that may be constants
    for e, want in (("pi", math.pi), ("2*pi*x", None), ("e", math.e), ("x*e", None), ("5", 5.0), ("2 + 3", 5.0), ("-1", -1.0), ("2**0.5", 2 ** 0.5), ("sqrt(2)", math.sqrt(2)), ("7//2", 3.0), ("-7//2", -4.0), ("-7 % 3", 2.0), ("1/4", 0.25), ("2 - 3*4", -10.0), ("abs(-3)", 3.0)):
        cenv = dict(syms, pi=math.pi, e=math.e)
        cenv2 = dict(syms2, pi=math.pi, e=math.e)
        t = ast.parse(e, mode="eval")
        v1, v2 = ev(t, cenv), ev(t, cenv2)
        w = [add(v1, v2), add(mul(v1, v1), mul(v2, v2)), 2.0]
        src = "h = Hist(profile(%r), profile('x'))\nh.fill(x=x, y=y, z=z)\nc = h.tojson()['content']\nreturn snap([c[0], c[1], c[4]])" % e
        ck.ob("const/" + e, "constants keep their values", src, env, lambda m, v, e=e, w=w: diff(v.v, w, "sum and sum of squares of %r" % e))
    for n in ("pi", "e", "inf", "nan", "NaN", "Pi", "E"):
        src = "h = Hist(profile('2*%s*x'), profile('x'))\nh.fill({'x': x, %r: y})\nc = h.tojson()['content']\nreturn snap(c)" % (n, n)
        t = ast.parse("2*y*x", mode="eval")
        ck.ob("given/" + n, "a field takes precedence over a constant of the same name", src, env, lambda m, v, n=n: diff(v.v, refs(["2*y*x", "x"]) + [2.0], "sums with a field named %s" % n))
    for one, two in (("pi", "e"), ("e", "pi"), ("inf", "nan"), ("E", "Pi"), ("NaN", "Infinity"), ("e", "E")):
        src = "h = Hist(profile('2*%s*x - %s'), profile('x'), profile('%s'))\nh.fill({'x': x, %r: y, %r: z})\nc = h.tojson()['content']\nreturn snap(c)" % (one, two, two, one, two)
        ck.ob("given/%s,%s" % (one, two), "a field takes precedence over a constant of the same name", src, env, lambda m, v, one=one, two=two: diff(v.v, refs(["2*y*x - z", "x", "z"]) + [2.0], "sums with fields named %s and %s" % (one, two)))
        src = "h = Hist(profile('2*%s*x - %s*y'), profile('x'))\nh.fill({'x': x, 'y': y, %r: 3, %r: z})\nc = h.tojson()['content']\nreturn snap(c)" % (one, two, one, two)
        ck.ob("given/%s=3,%s" % (one, two), "a field takes precedence over a constant of the same name", src, env, lambda m, v, one=one, two=two: diff(v.v, refs(["6*x - z*y", "x"]) + [2.0], "sums with fields named %s and %s" % (one, two)))

    # many operands: every one of them counts, wherever it stands
    letters = "abcdghijklmnopqrstuvw"
    deep = []
    for n in (list(range(4, 14)) + [16, 17, 20] if not ck.thorough else list(range(4, 22))):
        ns = letters[:n]
        deep += [" + ".join(ns), "*".join(ns), " - ".join(ns), "/".join(ns), "".join(c + (" + " if i % 2 else " - ") for i, c in enumerate(ns[:-1])) + ns[-1], "".join(c + ("*" if i % 2 else "/") for i, c in enumerate(ns[:-1])) + ns[-1]]
        if n <= 9:
            deep += ["(" + " + ".join(ns) + ")**2", "2*(" + " + ".join(ns) + ") - 3*" + ns[0], "1/(" + "*".join(ns) + ")", "1/(" + " + ".join(ns) + ")", " + ".join("%s*%s" % (c, d) for c, d in zip(ns, ns[1:])), " + ".join("%d*%s" % (i + 2, c) for i, c in enumerate(ns)),
                     "*".join("(%s + %d)" % (c, i + 2) for i, c in enumerate(ns[:5])), " - ".join("sqrt(%s)" % c for c in ns), "*".join("(%s)**%d" % (c, i % 3 + 1) for i, c in enumerate(ns[:6]))]
        deep += [" + ".join(ns[:1] * n), "*".join(ns[:1] * min(n, 12)), "1" + "".join("/" + c for c in ns[:1] * min(n, 12)), "*".join((ns[:2] * n)[:min(n, 10)]), "*".join((ns[:3] * n)[:min(n, 10)]) + "/" + ns[3]]
    for e in dict.fromkeys(deep):
        used = sorted(set(x.id for x in ast.walk(ast.parse(e, mode="eval")) if isinstance(x, ast.Name)) - {"sqrt"})
        vals = dict((c, sym("v" + c, None)) for c in used)
        ref = ev(ast.parse(e, mode="eval"), vals)
        src = "HH = Hist(profile(%r), profile('x'))\nHH.fill(%s, x=x)\nCC = HH.tojson()['content']\nreturn snap([CC[0], CC[2], CC[4]])" % (e, ", ".join("%s=%s" % (c, c) for c in used))
        ck.ob("wide/" + e, "the term computed is the one written", src, lambda m, vals=vals: dict([(c, arr(m, [t])) for c, t in vals.items()] + [("x", arr(m, [syms["x"]])), ("snap", snapfn())]), lambda m, v, ref=ref, e=e: diff(v.v, [ref, syms["x"], 1.0], "value of %r" % e))

    # bit patterns of integers
    ia, ib = [6, 3, 0, 255, 1, 12], [3, 3, 5, 1, 0, 10]
    for e in ("a ^ b", "b ^ a", "a ^ 1", "(a ^ b) + a", "2*(a ^ b)", "a ^ b ^ a", "a ^ (b + 1)", "-(a ^ b)", "5 ^ a"):
        ref = [eval(e, {}, {"a": p, "b": q}) for p, q in zip(ia, ib)]
        src = "h = Hist(split('k', (0.5, 1.5, 2.5, 3.5, 4.5), nanflow=False), profile(%r))\nh.fill(a=a, b=b, k=k)\nreturn snap(h.tojson()['content'])" % e
        ck.ob("bits/" + e, "the value computed is the one written", src, lambda m: {"a": arr(m, ia, NP.DType("i8")), "b": arr(m, ib, NP.DType("i8")), "k": arr(m, list(range(6))), "snap": snapfn()}, lambda m, v, ref=ref, e=e: diff(v.v, [[float(q), float(q * q), 1.0] for q in ref], "values of %r" % e))

    # narrow integers and truth values are numbers like any others: no step may wrap around
    cols8 = {"i1": ([100, -128, 127, -100], [100, 127, 127, 50]), "u1": ([3, 200, 255, 0], [5, 100, 255, 255]), "i2": ([30000, -32768, 200, 3], [30000, 32767, 300, -32768]), "u2": ([3, 60000, 300, 0], [5, 60000, 300, 65535]),
             "i4": ([2000000000, -2147483648, 70000, 1], [2000000000, 2147483647, 70000, 2]), "u4": ([3, 4000000000, 70000, 0], [5, 4000000000, 70000, 4294967295]), "b1": ([True, True, False, False], [True, False, True, False]),
             "f4": ([1e20, 16777216.0, -3e38, 0.5], [1e20, 1.0, -3e38, 16777216.0]), "f2": ([60000.0, 2048.0, 300.0, -0.5], [60000.0, 1.0, 300.0, 2048.0])}
    for dt, (a, b) in sorted(cols8.items()):
        for e in ("x - y", "x + y", "x*y", "-x", "2*x - 3*y", "x**2", "x + 100", "x - 100", "3*x", "x + y - x", "x + y + x*y", "-x - y", "x*x - y*y", "x/(y + 1.5)", "x//3", "(x - y)**2", "x - 1", "y - x", "x*300", "abs(x)", "abs(x - y)", "max(x - y, 0)", "x + y/2", "where(x > y, x - y, y - x)"):
            if dt[0] == "f":
                a, b = [[NP.narrowfloat(None, q, NP.DType(dt)) for q in c] for c in (a, b)]
            num = [(int(p), int(q)) if dt[0] != "f" else (p, q) for p, q in zip(a, b)]
            ref = [eval(e, {"abs": abs, "max": max, "where": lambda c, t, f: t if c else f}, {"x": p, "y": q}) for p, q in num]
            if any(abs(q) >= 2 ** 53 for q in ref) and dt[0] != "f" or dt == "f4" and e == "x//3":
                continue
            cuts = sorted(set(ref))
            names = [[j for j, q in enumerate(ref) if q == c] for c in cuts]
            lim = [cuts[0] - 1.0 - abs(cuts[0])] + [(p + q) / 2.0 for p, q in zip(cuts, cuts[1:])] + [cuts[-1] + 1.0 + abs(cuts[-1])]
            axe = Split(e, tuple(lim))
            want = fillref([axe, Profile("k")], [([locate(axe, ("c", float(q)))], [], [j], None) for j, q in enumerate(ref)])
            src = "h = %s\nh.fill(x=x, y=y, k=k)\nreturn snap(h.tojson()['content'])" % hist([axe, Profile("k")])
            ck.ob("narrow/%s/%s" % (dt, e), "integer fields of any size are the numbers they hold", src, lambda m, a=a, b=b, dt=dt: {"x": arr(m, a, NP.DType(dt) if dt != "b1" else NP.B1), "y": arr(m, b, NP.DType(dt) if dt != "b1" else NP.B1), "k": arr(m, [0, 1, 2, 3]), "snap": snapfn()},
                  lambda m, v, want=want, e=e, ref=ref: diff(v.v, want, "bins of %r, whose values are %s," % (e, ref)))

    # powers of integer fields
    for dt in ("i1", "u1", "i2", "i4", "u4", "i8", "u8", "b1", "f4", "f8"):
        a, b = ([2, 3, 5, 90], [2, 1, 3, 9]) if dt[0] == "u" else ([True, True, True, True], [True, False, True, False]) if dt == "b1" else ([2, -3, 5, 90], [-2, 1, -3, 9])
        for e in ("x**-5", "x**5", "x**20", "x**-7", "2**y", "2**(-y)", "x**y", "x**(-y)", "pow(x, -1)", "pow(x, y)", "x**-1", "x**-2", "x**-4", "x**3", "x**4", "x**0.5", "3*x**-5 + y", "10**x", "2.5**y", "(x + y)**7", "(-x)**5"):
            ref = []
            for p, q in zip(a, b):
                if dt == "f8" or e in ("10**x", "2.5**y"):
                    p, q = float(p), float(q)
                r = eval(e, {"pow": pow}, {"x": int(p) if float(p) == int(p) else p, "y": int(q)})
                ref.append(float("nan") if isinstance(r, complex) else float(r))
            good = sorted(set(r for r in ref if r == r and abs(r) < 1e300))
            lim = [good[0] - 1.0 - abs(good[0])] + [(p + q) / 2.0 for p, q in zip(good, good[1:])] + [good[-1] + 1.0 + abs(good[-1])]
            if any(not p < q for p, q in zip(lim, lim[1:])):
                continue
            axe = Split(e, tuple(lim))
            want = fillref([axe, Profile("k")], [([locate(axe, ("c", r))], [], [j], None) for j, r in enumerate(ref)])
            src = "h = %s\nh.fill(x=x, y=y, k=k)\nreturn snap(h.tojson()['content'])" % hist([axe, Profile("k")])
            ck.ob("power/%s/%s" % (dt, e), "powers of integers are the numbers written", src, lambda m, a=a, b=b, dt=dt: {"x": arr(m, a, NP.DType(dt) if dt != "b1" else NP.B1), "y": arr(m, b, NP.DType(dt) if dt != "b1" else NP.B1), "k": arr(m, [0, 1, 2, 3]), "snap": snapfn()},
                  lambda m, v, want=want, e=e, ref=ref: diff(v.v, want, "bins of %r, whose values are %s," % (e, ref)))

    # terms that look alike but are not the same must neither be merged nor cancelled nor computed once for both
    ALIKE = [("max(x, y)", "max(x, y, z)"), ("max(x, y)", "min(x, y)"), ("max(x, y, z)", "max(x, z)"), ("min(x, 2)", "min(x, 3)"), ("x**y", "y**x"), ("x**y", "x**z"), ("x**5", "x**6"), ("x**0.5", "x**1.5"), ("x % y", "y % x"), ("x//y", "y//x"), ("x % y", "x//y"), ("x % 2", "x % 3"), ("2**x", "3**x"), ("sqrt(x)", "sqrt(y)"), ("sin(x)", "cos(x)"),
             ("arctan2(x, y)", "arctan2(y, x)"), ("hypot(x, y)", "hypot(x, z)"), ("exp(x + y)", "exp(x - y)"), ("exp(x*y)", "exp(x/y)"), ("exp(x*y)", "exp(x*y*y)"), ("exp(x/y)", "exp(y/x)"), ("sqrt(x + 1)", "sqrt(x + 2)"), ("sqrt(2*x)", "sqrt(3*x)"), ("sqrt(x - y + 9)", "sqrt(y - x + 9)"), ("sin(x*y)", "sin(x*y + 1)"), ("sin(x + y)", "sin(x + y + z)"), ("sin(x*y)", "sin(x*y*z)"), ("sin(x/y)", "sin(x/y/z)"), ("sin(1/x)", "sin(x)"), ("sin(-x)", "sin(x)"),
             ("sin(x*2 + y)", "sin(x + 2*y)"), ("x/(y + 1)", "x/(z + 1)"), ("x/(y + 1)", "x/(y + 2)"), ("x/(y + z)", "x/(y - z)"), ("1/(x + y)", "1/(x*y)"), ("(x + y)/(x + z)", "(x + z)/(x + y)"), ("floor(x)", "ceil(x)"), ("abs(x - y)", "abs(x - z)"),
             ("where(x > y, 1, 2)", "where(x < y, 1, 2)"), ("where(x > 2, y, z)", "where(x > 2, z, y)"), ("where(x > 2, y, z)", "where(x >= 3, y, z)"), ("where(x == 2, y, z)", "where(x != 2, y, z)"), ("where(x == 3, y, z)", "where(y == 3, y, z)"), ("where(a, x, y)", "where(b, x, y)"), ("where(a, x, y)", "where(not a, x, y)"), ("where(a and b, x, y)", "where(a or b, x, y)"), ("where(a and b, x, y)", "where(a and c, x, y)"), ("where(x in {2, 3}, 1, 7)", "where(x in {2, 5}, 1, 7)"), ("where(x in {2}, 1, 7)", "where(x not in {2}, 1, 7)"), ("where(not a and b, x, z)", "where(a and not b, x, z)"), ("where(x < 3, 1, 7)", "where(x <= 3, 1, 7)")]
    import math as M
    rows = [dict(x=2.0, y=3.5, z=1.5, a=True, b=False, c=True), dict(x=3.0, y=1.25, z=4.0, a=False, b=True, c=True), dict(x=5.0, y=3.0, z=2.5, a=True, b=True, c=False), dict(x=1.5, y=2.0, z=3.0, a=False, b=False, c=True)]
    fns = {"max": max, "min": min, "abs": abs, "sqrt": M.sqrt, "sin": M.sin, "cos": M.cos, "exp": M.exp, "arctan2": M.atan2, "hypot": M.hypot, "floor": M.floor, "ceil": M.ceil, "where": lambda c, t, f: t if c else f}

    def sorted_into(key, rule, e, extra=""):
        ref = [float(eval(e, fns, row)) for row in rows]
        cuts = []
        for q in sorted(ref):
            if not cuts or q - cuts[-1] > 1e-6 * max(1.0, abs(q)):
                cuts.append(q)
        lim = [cuts[0] - 1.0 - abs(cuts[0])]
        for q in cuts:        # a narrow bin around each of the values
            lim += [q - 1e-7 * max(1.0, abs(q)), q + 1e-7 * max(1.0, abs(q))]
        lim += [cuts[-1] + 1.0 + abs(cuts[-1])]
        axe = Split(e, tuple(lim))
        if any(not p < q for p, q in zip(lim, lim[1:])):
            return
        want = fillref([axe, Profile("k")], [([locate(axe, ("c", q))], [], [j], None) for j, q in enumerate(ref)])
        src = "h = %s\nb0 = Book(h=h%s)\nb0.fill(x=x, y=y, z=z, a=a, b=b, c=c, k=k)\nreturn snap(h.tojson()['content'])" % (hist([axe, Profile("k")]), extra)
        ck.ob(key, rule, src, lambda m: dict([(n, arr(m, [row[n] for row in rows])) for n in "xyzabc"] + [("k", arr(m, [0, 1, 2, 3])), ("snap", snapfn())]), lambda m, v, want=want, e=e, ref=ref: diff(v.v, want, "bins of %r, whose values are %s," % (e, ref)))
    for f, g in ALIKE:
        for e in ("%s - %s" % (f, g), "2*%s + 3*%s" % (f, g), "%s*%s" % (f, g), "(%s)/(%s + 20)" % (f, g), "5 - %s*x + %s*x" % (f, g)):
            sorted_into("alike/" + e, "terms that look alike are kept apart", e)
        for h1, h2 in ((f, g), (g, f)):
            sorted_into("alike2/%s | %s" % (h1, h2), "terms that look alike are kept apart", h1, ", i=Hist(profile(%r), cut(%r))" % (h2, "(%s) > 2" % h2))
    for n in ("1.995", "2.0001", "1.5", "2.5", "0.99", "4.999", "4.5", "5", "5.5", "-0.5", "-1.0001", "-1.5", "-2.5", "-4.75", "1e-3", "12", "-12"):
        for base in ("x", "(x*y)", "(x + y)", "(2*x)", "(x/y)", "sqrt(x)"):
            sorted_into("exponent/%s**%s" % (base, n), "the value computed is the one written", "%s**%s" % (base, n))
