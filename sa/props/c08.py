"""C08 filling never changes or keeps the caller's data."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("write-effect and escape analysis of fill(): the caller's arrays, sequences and dicts are tracked storage; no path may write to them, and after the fill overwriting all of them "
           "must not change anything observable of the histogram or the result of later fills")
ASSUME = ["fields are one-dimensional arrays, sequences or single numbers"]

UNARY = ["abs", "fabs", "arccos", "arccosh", "arcsin", "arcsinh", "arctan", "arctanh", "ceil", "conj", "cos", "cosh", "deg2rad", "exp2", "exp", "expm1", "floor", "isfinite", "isinf", "isnan", "log10", "log1p", "log2", "log", "rad2deg", "rint", "round",
         "sign", "sinh", "sin", "sqrt", "tanh", "tan", "trunc", "erf", "erfc", "lgamma", "gamma", "factorial", "heaviside"]
BINARY = ["arctan2", "copysign", "fmod", "mod", "hypot", "logaddexp2", "logaddexp", "max", "min", "fmax", "fmin", "pow"]
EXPRS = ["x", "-x", "x + 1", "x + y", "x - y", "x*y", "x/y", "x//y", "x % y", "x**2", "x**y", "x**-1", "x*x*y", "2*x", "x + x", "x*y + y*z", "(x + y)*(x - y)", "where(x > 1, y, z)", "where(k, x, y)", "max(x, y, z)", "pi*x", "x + sqrt(2)", "n", "n + 1", "n*x", "n % 2", "n // 2", "n ^ 3"]
AXES = [[Bin("x", 2, 0, 2)], [Bin("x", 2, 0, 2, u=False, o=False, n=False)], [Bin("x", 2, 0, 2, cl=False)], [Bin("n", 2, 0, 2)], [Bin("n", 2, 1, 3, u=False)], [Split("x", (0, 1, 2))], [Split("x", (0, 1, 2), u=False, o=False, n=False, cl=False)], [Split("n", (0, 1, 2), u=False)], [Intbin("n", 0, 2)],
        [Intbin("n", 0, 2, u=False, o=False)], [Intbin("x", 0, 2)], [Intbin("x", 0, 2, u=False, o=False)], [Cut("x > 1")], [Cut("k")], [Cut("not k")], [Groupby("c")], [Groupby("n")], [Groupby("k")], [Groupbin("x", 2)], [Groupbin("x", 2, n=False, cl=False)], [Groupbin("x", 2, origin=1)], [Groupbin("n", 2)], [Groupbin("n", 2, origin=1)],
        [Groupbin("x", 1)], [Groupbin("x", 1, origin=1)], [Groupbin("x", 1, n=False, cl=False)], [Groupbin("x", 2, origin=-1)], [Groupbin("n", 1)], [Bin("x", 1, 0, 1)], [Bin("x", 2, -1, 1, u=False)], [Bin("x", 2, 0, 2, u=False, cl=False)], [Bin("n", 2, 0, 2, u=False, cl=False)], [Bin("x", 0, 0, 0)], [Intbin("n", 1, 2)], [Intbin("x", 1, 3)], [Intbin("x", 1, 1, u=False)], [Split("x", (1,))], [Split("x", (1,), u=False)],
        [Bin("x", 2, 0, 2), Bin("x", 3, 0, 3)], [Bin("x", 2, 0, 2), Bin("v", 3, 0, 3), Split("x", (0, 1))], [Groupby("c"), Groupbin("x", 2), Bin("x", 2, 0, 2)], [Intbin("n", 0, 2), Intbin("n", 0, 3)], [Cut("k"), Cut("k")], [Split("x", (0, 1, 2)), Bin("x", 2, 0, 2)]]


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Book", "Book.fill", "Hist.tojson")
    n = 5
    xs, ns, ks, cs = [0.5, 1.5, NAN, -2.0, 2.0], [0, 1, 2, -3, 7], [True, False, True, True, False], ["a", "b", "a", "c", "b"]
    ys, zs, ws = [sym("y%d" % i) for i in range(n)], [sym("z%d" % i) for i in range(n)], [sym("w%d" % i) for i in range(n)]
    ws[1] = NAN

    def env(m, fl=("x",)):
        e = {"x": arr(m, xs), "n": arr(m, ns), "k": arr(m, ks), "c": arr(m, cs), "y": arr(m, ys), "z": arr(m, zs), "w": arr(m, ws), "v": arr(m, [1.5, 0.5, 9.0, 2.5, NAN]), "snap": snapfn()}
        e["allx"] = AList(m, [e[q] for q in "xnkcyzwv"])
        return e
    ALL = "x=x, n=n, k=k, c=c, y=y, z=z, w=w, v=v"
    D = "{'x': x, 'n': n, 'k': k, 'c': c, 'y': y, 'z': z, 'w': w, 'v': v}"

    def ob(key, h, kind="Hist"):
        for how, call in (("kw", "h.fill(%s)" % ALL), ("dict", "d = %s\nh.fill(d)" % D), ("chained", "d = %s\nh.fill(d, w=z)" % D)):
            if how == "chained" and not ck.thorough and not key.startswith("axes"):
                continue
            src = "h = %s\nb = snap(allx)\n%s\n%s\nreturn b, snap(allx)%s" % (h, call, call.replace("d = %s\n" % D, ""), "" if how == "kw" else ", snap(d), snap(%s)" % D)

            def judge(m, v):
                return diff(v[1].v, v[0].v, "caller's arrays (x, n, k, c, y, z, w) after fill") or (diff(v[2].v, v[3].v, "caller's dict after fill") if len(v) > 2 else None)
            ck.ob("%s/%s" % (key, how), "no write reaches the caller's data", src, env, judge)
        src = ("h = %s\nh.fill(%s)\nb = snap(h.tojson())\nfor q in allx:\n    q[...] = q[0]\nr = snap(h.tojson())\ng = %s\n%s\nh.fill(%s)\ng.fill(%s)\nreturn b, r, snap(h.tojson()), snap(g.tojson())" %
               (h, ALL, h, "g = %s.fromjson(h.tojson())" % kind, ALL, ALL))

        def judge(m, v):
            return diff(v[1].v, v[0].v, "histogram after the caller overwrote the arrays it was filled with") or diff(v[2].v, v[3].v, "later fill of a histogram, compared with an equal new one,")
        ck.ob(key + "/retained", "the caller's data are not kept", src, env, judge)

    for axes in AXES:
        for prof in ([], [Profile("x"), Profile("n")]):
            for opts in ({}, {"weight": "w"}, {"weight": "x"}, {"filter": "n > 0"}):
                if prof and opts.get("filter") and not ck.thorough:
                    continue
                ob("axes/%s/%d/%s" % (".".join(short(a) + "(" + a["expr"].replace(" ", "") + ")" for a in axes), len(prof), ",".join("%s=%s" % kv for kv in opts.items()).replace(" ", "")), hist(axes + prof, **opts))
    for e in EXPRS + ["%s(x)" % f for f in UNARY] + ["%s(n)" % f for f in UNARY] + ["%s(x, y)" % f for f in BINARY] + ["%s(x)*x" % f for f in UNARY]:
        key = e.replace(" ", "")
        if "(n)" in e and e.split("(")[0] in ("conj",):
            pass
        ob("profile/" + key, "Hist(bin('x', 2, 0, 2), profile(%r), weight='y')" % e)
        if "*x" not in e or "(" not in e:
            ob("weight/" + key, "Hist(bin('x', 2, 0, 2), weight=%r)" % e)
            if ck.thorough or e in EXPRS:
                ob("bin/" + key, "Hist(cut('k'), groupby('c'), weight=%r)" % e)
    ob("book/0", "Book({'a': Hist(bin('x', 2, 0, 2), profile('y'), weight='w'), 'b': Hist(split('x', [0, 1]), profile('x'), weight='x'), 's': Book({'c': Hist(groupbin('x', 2.0), weight='x*y')})})", "Book")
    ob("book/1", "Book({'a': Hist(bin('x', 2, 0, 2), bin('x', 3, 0, 3)), 'b': Hist(bin('x', 2, 0, 2), bin('v', 3, 0, 3)), 'c': Hist(bin('x', 2, 0, 2), weight='w'), 'd': Hist(bin('x', 2, 0, 2), weight='w', filter='k and n > 0')})", "Book")
    # lists, tuples, constructor
    ck.ob("lists", "no write reaches the caller's data", "l, c, t = [0.5, 1.5, 7.0], ['a', 'b', 'a'], (1, 2, 3)\nb = snap((l, c, t))\nh = Hist(bin('x', 2, 0, 2), groupby('c'), profile('x'), weight='t')\nh.fill(x=l, c=c, t=t)\nh.fill({'x': l, 'c': c}, t=t)\nreturn b, snap((l, c, t))", env, lambda m, v: diff(v[1].v, v[0].v, "caller's lists"))
    ck.ob("ctor", "no write reaches the caller's data", "d = %s\nb = snap((allx, d))\nh = Hist(bin('x', 2, 0, 2), groupby('c'), profile('x'), weight='x', fill=d)\nreturn b, snap((allx, d))" % D, env, lambda m, v: diff(v[1].v, v[0].v, "caller's data after Hist(fill=...)"))
    ck.ob("ctor1", "no write reaches the caller's data", "b = snap(allx)\nh = Hist(groupbin('x', 2), fill=x)\ng = Hist(bin('x', 2, 0, 2), fill=x)\nreturn b, snap(allx)", env, lambda m, v: diff(v[1].v, v[0].v, "caller's data after Hist(fill=...)"))
