"""C18 conditions hold for exactly the entries that satisfy them."""
import ast
import random
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("region analysis of conditions: each row carries a distinct symbol and fields that are intervals, points, infinities or NaN separating all constants of the condition (and all orderings of the compared fields), all truth values "
           "of boolean fields, or strings; the sum in the cell must contain the symbols of exactly the rows for which Python's reading of the condition is true")
ASSUME = ["the negation of an inequality is not claimed for NaN operands", "conditions are those of the documented grammar: comparisons, membership in sets of constants, and, or, not and boolean fields"]

NUM = [("r", -5.0, 0.0), ("c", 0.0), ("r", 0.0, 1.0), ("c", 1.0), ("r", 1.0, 2.0), ("c", 2.0), ("r", 2.0, 5.0), ("c", INF), ("c", -INF), ("c", NAN)]
PTS = [-1.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, INF, -INF, NAN]
STR = ["one", "two", "three", "on", "onee", ""]

COMPARE = ["x < 1", "x <= 1", "x > 1", "x >= 1", "x == 1", "x != 1", "1 < x", "1 <= x", "1 > x", "1 >= x", "1 == x", "1 != x", "0 < x < 2", "0 <= x < 2", "0 < x <= 2", "0 <= x <= 2", "2 > x > 0", "2 >= x >= 0", "0 < x < 1 < 2", "x < 1 or x > 2", "x < 0 or x == 1 or x > 2",
           "x > 0 and x < 2", "x > 0 and x < 2 and x != 1", "x in {0, 1}", "x not in {0, 1}", "x in {1}", "x not in {2}", "x in {0, 1, 2}", "not x < 1", "not x <= 1", "not x > 1", "not x >= 1", "not x == 1", "not x != 1", "not x in {0, 1}", "not x not in {0, 1}", "not (x > 0 and x < 2)", "not (x < 0 or x > 1)",
           "not not x < 1", "not (not x < 1 or x == 2)", "not (x == 0 or x == 1)", "x >= 0 and not x == 1", "x > 0 and (x < 1 or x == 2)", "(x < 1 or x > 1) and x != 0", "(x < 0 or x > 1) and (x < 1 or x > 2)", "not ((x < 0 or x > 1) and (x < 1 or x == 2))", "x == 1 and x == 1", "x < 1 or x < 1", "x < 1 and x > 1", "x < 1 or x >= 1", "x != 0 and x != 1 and x != 2 and x < 2", "not (x != 0 and x != 1 and x != 2 and x > 0)", "x == 0 or x == 1 or x == 2 or x < 0", "not (x == 0 or x == 1 or x == 2 or 1 < x < 2)", "x in {0} or x in {1} or x in {2} or x < 0", "not (x in {0} or x in {1} or x in {2} or x < 0)", "not (x not in {0, 1} and x != 2 and x < 2)"]
TWO = ["x < y", "x <= y", "x > y", "x >= y", "x == y", "x != y", "y < x", "y == x", "0 < x < y", "x < y < 2", "x <= y <= 1", "x == y == 1", "x < 1 and y > 1", "x < 1 or y > 1", "x == y or x == 1", "x == y and y != 2", "x < 1 or x == 2 and y > 0", "(x < 1 or x == 2) and y > 0", "x < 1 and y < 1 or x > 1 and y > 1",
       "not x < y", "not x <= y", "not (x < 1 and y < 1)", "not (x < 1 or y < 1)", "not (x == y)", "not (x != y or x == 1)", "not (0 < x < y)", "x in {0, 1} and y not in {0, 1}", "x in {0} or y in {2}", "not (x in {0} or y in {2})", "x < 2 and (y < 1 or (x > 0 and y == 1))", "x < 1 and y < 1 and x == y", "x > 1 or y > 1 or x == y"]
ARITH = ["x + 1 > y", "x - y > 0", "2*x < y + 1", "x*x == y", "x*y <= 0", "-x < y", "not x + y == 2", "0 < x + y < 2", "x/2 >= y", "x - y == y - x", "x**2 < y**2", "x + y in {1, 2}", "2*x not in {0, 2, 4}", "abs(x) < 1", "abs(x - y) <= 1 and x > 0", "sqrt(x) < 1 or y == 0", "max(x, y) > 1", "min(x, y) == 0", "x % 2 == 1", "x//1 == y", "x > y + 1 or y > x + 1", "(x + y)*2 == 4", "not (x < y and x + y < 2)"]
STRS = ["s == 'one'", "'one' == s", "s != 'one'", "s in {'one', 'two'}", "s not in {'one', 'two'}", "s == 'one' or s == 'two'", "s != 'one' and s != 'two'", "not s == 'one'", "not (s == 'one' or s == 'three')", "not s in {'one', 'three'}", "s == 'one' and a", "s != 'one' or not a", "s in {'one'} and not a", "not (s in {'one', ''} and a)", "s == ''", "s not in {''}"]
BOOLS = ["a", "not a", "not not a", "a and b", "a or b", "a and not b", "not a or b", "not (a and b)", "not (a or b)", "not a and not b", "a and b and c", "a or b or c", "a and b or c", "a and (b or c)", "(a or b) and c", "(a or b) and (b or c)", "(a and b) or (b and c) or (a and c)", "not (a and b or c)", "not (a and (b or c))", "not ((a or b) and (not b or c))", "a and not (b and c)", "a or not (b or c)", "not (not a and not b)", "(a or not b) and (b or not c) and (c or not a)",
         "not ((a or not b) and (b or not c))", "a and a", "a or a", "a and not a", "a or not a", "a and b or a and c", "(a or b) and (a or c)", "a and x > 1", "not a or x > 1", "not (a and x > 1)", "a == b", "x > 1 or a and y < 1", "not (x > 1 or a and not b)",
         "a and b and c and d", "not (a and b and c and d)", "a or b or c or d", "not (a or b or c or d)", "(a or b) and (c or d)", "not ((a or b) and (c or d))", "a and b or c and d", "not (a and b or c and d)", "a and b and c and d and f", "not (a and b and c and d and f)", "a or b or c or d or f", "not (a or b or c or d or f)", "(a or b or c) and (d or f)", "not (a and b and c or d and f)", "(a or not b) and (c or not d) and f", "a and not b and c and not d and f or not a and b",
         "a and b and c or a and b and d or a and b and f", "not (not a and not b and not c and not d)", "a and (b or (c and (d or f)))", "not (a and (b or (c and (d or f))))"]

# conditions that look alike
ALIKE = [("x < 1", "x <= 1"), ("x < 1", "1 < x"), ("x == 1", "x != 1"), ("x == 1", "x == 2"), ("x == 1", "y == 1"), ("x < 1", "y < 1"), ("x in {0, 1}", "x in {0, 2}"), ("x in {0, 1}", "x not in {0, 1}"), ("x in {1}", "x == 1"), ("x in {1}", "y in {1}"), ("s == 'one'", "s == 'onee'"), ("s == 'one'", "s == 'on'"), ("s in {'one'}", "s in {'one', 'two'}"), ("s != 'one'", "s == 'one'"),
         ("a", "b"), ("a", "not a"), ("a and b", "a and c"), ("a or b", "a and b"), ("x < y", "y < x"), ("x <= y", "y <= x"), ("x + y < 1", "x - y < 1"), ("2*x < 1", "3*x < 1"), ("x*y < 1", "x*y*y < 1"), ("abs(x) < 1", "abs(y) < 1"), ("max(x, y) > 1", "min(x, y) > 1"), ("max(x, 1) > y", "max(x, 0) > y"), ("x**2 < 2", "x**3 < 2"), ("a", "x > 1"), ("s == 'one'", "a")]


def randbool(r, depth):
    if depth == 0 or r.random() < 0.2:
        return r.choice(["a", "b", "c", "a", "b", "c", "x < 1", "x == 2", "x >= 1", "s == 'one'", "s in {'one', 'two'}", "0 < x <= 2"])
    q = r.random()
    if q < 0.25:
        return "not (%s)" % randbool(r, depth - 1)
    return "(%s) %s (%s)" % (randbool(r, depth - 1), r.choice(["and", "or"]), randbool(r, depth - 1)) if q < 0.8 else "(%s) %s (%s) %s (%s)" % (randbool(r, depth - 1), r.choice(["and", "or"]), randbool(r, depth - 1), r.choice(["and", "or"]), randbool(r, depth - 1))


def rep(r):
    return r if not isinstance(r, tuple) else r[1] if r[0] == "c" else (r[1] + r[2]) / 2


def truth(tree, row):
    import math
    env = {"sqrt": lambda z: math.sqrt(z) if z >= 0 else NAN, "abs": abs, "max": lambda p, q: NAN if p != p or q != q else max(p, q), "min": lambda p, q: NAN if p != p or q != q else min(p, q), "__builtins__": {}}
    return bool(eval(tree, env, dict((k, rep(v)) for k, v in row.items())))


def negated(e):
    """Is there an inequality under a not?"""
    return any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for c in ast.walk(n) if isinstance(c, ast.Compare) for o in c.ops) for n in ast.walk(ast.parse(e, mode="eval")))


def names(e):
    return sorted(set(n.id for n in ast.walk(ast.parse(e, mode="eval")) if isinstance(n, ast.Name)) & set("xyabcdfs"))


def rowsof(e, thorough):
    ns = names(e)
    arith = any(isinstance(n, (ast.BinOp, ast.Call, ast.USub)) for n in ast.walk(ast.parse(e, mode="eval")))
    dom = {}
    for n in ns:
        if n in "xy":
            dom[n] = [("c", p) for p in PTS] if arith or (n == "y" and "x" in ns) else NUM
            if n == "y" and "x" in ns and not arith:
                dom[n] = [q for q in NUM if q[0] == "c"]
            if arith:
                dom[n] = [q for q in dom[n] if abs(q[1]) != INF]
            if negated(e):
                dom[n] = [q for q in dom[n] if q[1] == q[1]]
            if len(ns) > 2:
                dom[n] = dom[n][:6] + [q for q in dom[n][6:] if q[0] == "r"]
        elif n == "s":
            dom[n] = STR if len(ns) < 3 else STR[:3]
        else:
            dom[n] = [False, True]
    return [dict(zip(ns, t)) for t in itertools.product(*[dom[n] for n in ns])]


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "cut", "profile")
    r = random.Random(18)
    exprs = COMPARE + TWO + ARITH + STRS + BOOLS
    exprs = exprs + [pat % (f, g) for f, g in ALIKE for pat in ("(%s) and (%s)", "(%s) or (%s)", "not (%s) and (%s)", "(%s) and not (%s)", "not ((%s) or (%s))", "not ((%s) and (%s))")]
    for _ in range(1500 if ck.thorough else 150):
        exprs.append(randbool(r, 3 if ck.thorough else 2))
    seen = set()
    for e in exprs:
        if e in seen or not names(e):
            continue
        seen.add(e)
        rows = rowsof(e, ck.thorough)
        tree = compile(ast.parse(e, mode="eval"), "<e>", "eval")
        try:
            t = [truth(tree, row) for row in rows]
        except ZeroDivisionError:
            continue
        qs = [sym("q%d" % i, None) for i in range(len(rows))]

        def env(m, rows=rows, qs=qs, e=e):
            out = dict((n, arr(m, [row[n] if not isinstance(row[n], tuple) else aval(row[n]) for row in rows])) for n in rows[0])
            for n in "xyabcdfs":
                if n not in out:
                    out[n] = None
            out["q"] = arr(m, qs)
            out["snap"] = snapfn()
            return out
        tot = [0.0, 0.0, 0.0]
        yes = [0.0, 0.0, 0.0]
        for q, w in zip(qs, t):
            c = yes if w else tot
            c[0], c[1], c[2] = add(c[0], q), add(c[1], mul(q, q)), c[2] + 1
        give = ", ".join("%s=%s" % (n, n) for n in rows[0]) + ", q=q"

        both = [tot, yes]
        ck.ob("cut/" + e, "rows counted as true are those that satisfy the condition", "h = Hist(cut(%r), profile('q'))\nh.fill(%s)\nreturn snap(h.tojson()['content'])" % (e, give), env, lambda m, v, both=both, e=e: diff(v.v, both, "sums of q, q**2 and 1 for false and true %r" % e))
        if e not in "abc":
            ck.ob("filter/" + e, "rows kept by the filter are those that satisfy it", "h = Hist(profile('q'), filter=%r)\nh.fill(%s)\nreturn snap(h.tojson()['content'])" % (e, give), env, lambda m, v, yes=yes, e=e: filt(v.v, yes, "sums of q, q**2, 1 with filter %r" % e))
        if e not in "abc" and (ck.thorough or len(e) < 30):
            wsum = [0.0, 0.0]
            for q, w in zip(qs, t):
                if w:
                    wsum = [add(wsum[0], q), add(wsum[1], mul(q, q))]
            ck.ob("filter-weight/" + e, "rows kept by the filter are those that satisfy it", "h = Hist(bin('1', 1, 0, 2, underflow=False, overflow=False, nanflow=False), weight='q', filter=%r)\nh.fill(%s)\nreturn snap(h.tojson()['content'])" % (e, give), env, lambda m, v, wsum=wsum, e=e: diff(v.v, [wsum], "sums of weights with filter %r" % e))
            val = [0.0, 0.0]
            for q, w in zip(qs, t):
                z = q if w else 7.0
                val = [add(val[0], z), add(val[1], mul(z, z))]
            ck.ob("where/" + e, "where chooses by the condition", "h = Hist(profile('where(%s, q, 7)'), profile('q'))\nh.fill(%s)\nreturn snap(h.tojson()['content'][:2])" % (e.replace("'", '"'), give), env, lambda m, v, val=val, e=e: diff(v.v, val, "sums of where(%s, q, 7)" % e))
    # many operands: every one of them counts, wherever it stands
    letters = "abcdfghijklmnopqrtuv"
    for n in (range(5, 13) if not ck.thorough else range(5, 20)):
        ns = letters[:n]
        for e in (" and ".join(ns), " or ".join(ns), "not (" + " and ".join(ns) + ")", "not (" + " or ".join(ns) + ")", " and ".join("not " + c for c in ns), " or ".join("not " + c for c in ns), " and ".join("%s > %d" % (c, i) for i, c in enumerate(ns)), " or ".join("%s == %d" % (c, i) for i, c in enumerate(ns)),
                  "not (" + " and ".join("%s == %d" % (c, i) for i, c in enumerate(ns)) + ")", "(" + " and ".join(ns[:-2]) + ") or (" + " and ".join(ns[-2:]) + ")", " and ".join(ns[:-1]) + " and not " + ns[-1]):
            num = ">" in e or "==" in e
            pats = [[j == i for j in range(n)] for i in range(n)] + [[j != i for j in range(n)] for i in range(n)] + [[True] * n, [False] * n]
            rows = [[(float(j) if "==" in e else j + 0.5) if q else j - 0.5 for j, q in enumerate(pat)] if num else pat for pat in pats]
            t = [bool(eval(e, {}, dict(zip(ns, row)))) for row in rows]
            qs = [sym("q%d" % i, None) for i in range(len(rows))]
            both = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
            for q, w in zip(qs, t):
                c = both[w]
                c[0], c[1], c[2] = add(c[0], q), add(c[1], mul(q, q)), c[2] + 1
            src = "HH = Hist(cut(%r), profile('z'))\nHH.fill(%s, z=z)\nreturn snap(HH.tojson()['content'])" % (e, ", ".join("%s=%s" % (c, c) for c in ns))
            ck.ob("wide/" + e, "rows counted as true are those that satisfy the condition", src, lambda m, rows=rows, ns=ns, qs=qs: dict([(c, arr(m, [row[i] for row in rows])) for i, c in enumerate(ns)] + [("z", arr(m, qs)), ("snap", snapfn())]), lambda m, v, both=both, e=e: diff(v.v, both, "sums of z, z**2 and 1 for false and true %r" % e))
    for n in (1, 2, 5, 9, 17):
        vals = [3 * i for i in range(n)]
        for e, neg in (("x in {%s}" % ", ".join(map(str, vals)), False), ("x not in {%s}" % ", ".join(map(str, vals[::-1])), True)):
            xs = [float(q) for q in vals] + [q + 0.5 for q in vals] + [-3.0, 3.0 * n]
            qs = [sym("q%d" % i, None) for i in range(len(xs))]
            both = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
            for q, x in zip(qs, xs):
                c = both[(x in vals) != neg]
                c[0], c[1], c[2] = add(c[0], q), add(c[1], mul(q, q)), c[2] + 1
            ck.ob("members/" + e, "rows counted as true are those that satisfy the condition", "h = Hist(cut(%r), profile('z'))\nh.fill(x=x, z=z)\nreturn snap(h.tojson()['content'])" % e, lambda m, xs=xs, qs=qs: {"x": arr(m, xs), "z": arr(m, qs), "snap": snapfn()}, lambda m, v, both=both, e=e: diff(v.v, both, "sums of z, z**2 and 1 for false and true %r" % e))
    # two conditions at once share their parts
    pairs = []
    small = [e for e in exprs if len(names(e)) <= 2 and "s" not in names(e) and e not in "abc" and "/" not in e]
    for _ in range(800 if ck.thorough else 150):
        e, f = r.choice(small), r.choice(small)
        if len(set(names(e)) | set(names(f))) <= 2 and e != f and names(e) and names(f):
            pairs.append((e, f))
    for e, f in pairs:
        both_ = "(%s) or (%s)" % (e, f)
        rows = rowsof(both_, ck.thorough)
        te, tf = compile(e, "<e>", "eval"), compile(f, "<e>", "eval")
        try:
            t = [(truth(te, row), truth(tf, row)) for row in rows]
        except ZeroDivisionError:
            continue
        qs = [sym("q%d" % i, None) for i in range(len(rows))]

        def env(m, rows=rows, qs=qs):
            out = dict((n, arr(m, [row[n] if not isinstance(row[n], tuple) else aval(row[n]) for row in rows])) for n in rows[0])
            out["q"] = arr(m, qs)
            out["snap"] = snapfn()
            return out
        want = [[[0.0, 0.0, 0.0] for _ in range(2)] for _ in range(2)]
        for q, (p1, p2) in zip(qs, t):
            c = want[p1][p2]
            c[0], c[1], c[2] = add(c[0], q), add(c[1], mul(q, q)), c[2] + 1
        give = ", ".join("%s=%s" % (n, n) for n in rows[0]) + ", q=q"
        ck.ob("cuts/%s | %s" % (e, f), "conditions evaluated together do not disturb each other", "h = Hist(cut(%r), cut(%r), profile('q'))\nh.fill(%s)\nreturn snap(h.tojson()['content'])" % (e, f, give), env, lambda m, v, want=want, e=e, f=f: diff(v.v, want, "sums by %r and %r" % (e, f)), orders=(0, 1, 2))


def filt(got, yes, what):
    # a filter is a weight of 0 or 1: [sum q, sum q^2, count, count]
    return diff(got, [yes[0], yes[1], yes[2], yes[2]] if len(got) == 4 else yes, what)
