"""C25 a defined name means its definition."""
import random
import re
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("differential value-number analysis: a histogram whose expressions use defined names must get the same terms in every cell, and need the same fields, as one in which each name was replaced by its parenthesised definition, for every "
           "position (axes of all kinds, profiles, weight, filter), kind of definition (text, number, parsed expression) and operator around the name")
ASSUME = ["definitions are not applied within definitions", "expressions are those of C17 and C18"]

ARITH = ["q", "q + 1", "1 - q", "2*q", "-q", "q*q", "q**2", "q**-1", "x - q", "x - 2*q", "x/q", "q/2", "q/y", "(q + 1)*(q - y)", "x*q + y", "q - x", "q % 2", "q//1", "abs(q)", "max(q, y)", "where(q > 1, q, y)", "where(x > q, 1, 0)", "q + r", "q*r", "q/r", "q - r", "sqrt(q*q) + r"]
DEFS = ["'x + y'", "'x*y'", "'-x'", "'x - y'", "'3'", "3", "2.5", "'sqrt(y)'", "'x'", "'2*x + 1'", "'x/y'", "'y**2'", "'max(x, y)'", "'-2'", "-2", "'where(x > y, 1, 2)'", "'pi'", "'z'"]
ZERO = ["0", "0.0", "'0'", "'0.0'", "-0.0", "1", "'1'", "1.0", "-1", "'x - x'", "'y/y'"]
COND = ["q > 1", "1 < q", "q == y", "q != y", "not q > 1", "not q <= y", "q > 1 and x < 2", "q > 1 or x < 1", "0 < q < 2", "not (q > 1 or x < 1)", "q in {1, 2}", "q < r"]
BDEFS = ["'x > 1'", "'x > y'", "'x > 1 and y > 1'", "'x < 1 or y < 1'", "'not a'", "'a'", "'x == 1'", "'0 < x < y'", "'not (x > 1 and a)'"]
BUSE = ["q", "not q", "q and y > 1", "q or y > 1", "not q and x < 2", "not (q and a)", "not (q or not a)", "q and q", "q or r", "not q and r"]
ROWS = "x=[0.5, 1.0, 1.5, 2.0, 0.25], y=[1.5, 1.0, 0.5, 2.5, 3.0], z=[1.0, 2.0, 0.5, 1.0, 3.0], a=[True, False, False, True, False], c=['u', 'v', 'u', 'w', 'v'], n=[1, 2, 0, 1, 3], w=[w1, w2, w3, w4, w5]"


def subst(text, defs):
    def one(m):
        n = m.group(0)
        if n not in defs:
            return n
        d = defs[n]
        if d.startswith("histbook."):
            d = d[d.index("(") + 1:-1]
        return "(%s)" % (d[1:-1] if d.startswith("'") else d)
    return re.sub(r"[A-Za-z_][A-Za-z_0-9]*", one, text)


POS = [("profile", "profile(%r)", ""), ("bin", "bin(%r, 4, -1, 3), profile('w')", ""), ("split", "split(%r, [0, 1, 2.5]), profile('w')", ""), ("groupbin", "groupbin(%r, 0.5), profile('w')", ""), ("groupby", "groupby(%r), profile('w')", ""), ("weight", "bin('x', 2, 0, 2)", "weight=%r"), ("weight with filter", "bin('x', 2, 0, 2)", "filter='z > 1', weight=%r")]
CPOS = [("cut", "cut(%r), profile('w')", ""), ("filter", "profile('w')", "filter=%r"), ("filter with weight", "profile('x')", "weight='w', filter=%r"), ("where", "profile(%r)", "")]


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "profile", "bin", "cut")
    r = random.Random(25)

    def env(m):
        out = dict(("w%d" % i, sym("w%d" % i)) for i in range(1, 6))
        out["snap"] = snapfn()
        return out

    def build(axes, opts, text, defs, plain):
        t = subst(text, defs) if plain else text
        a = axes % t if "%r" in axes else axes
        o = [opts % t if "%r" in opts else opts] if opts else []
        if not plain:
            o.append("defs={%s}" % ", ".join("%r: %s" % kv for kv in defs.items()))
        return "Hist(%s)" % ", ".join([a] + o)

    def ob(name, axes, opts, text, defs, rule="a defined name means its definition", orders=(0,)):
        one, two = build(axes, opts, text, defs, False), build(axes, opts, text, defs, True)
        src = "a, b = %s, %s\na.fill(%s)\nb.fill(%s)\nreturn snap(a.tojson()['content']), snap(b.tojson()['content']), [f for f in a.fields], [f for f in b.fields]" % (one, two, ROWS, ROWS)

        def judge(m, v, one=one, two=two):
            p, q, fa, fb = host(m, v)
            if fa != fb:
                return "%s needs the fields %s, but %s needs %s" % (one, fa, two, fb)
            return cdiff(p.v, q.v, "content of %s compared with %s" % (one, two))
        ck.ob(name, rule, src, env, judge, orders=orders)
    for i, t in enumerate(ARITH):
        for j, d in enumerate(DEFS):
            for p, (pn, axes, opts) in enumerate(POS):
                if not ck.thorough and (i * 5 + j * 3 + p) % 5:
                    continue
                defs = {"q": d}
                if "r" in re.findall(r"[a-z]+", t):
                    defs["r"] = DEFS[(j + 5) % len(DEFS)]
                ob("arith/%s/%s/%s" % (pn, t, d), axes, opts, t, defs)
    for i, t in enumerate(ARITH):
        for j, d in enumerate(ZERO):
            if (d.strip("'") in ("0", "0.0", "-0.0", "x - x") and any(s in t for s in ("/q", "/r", "q**-1", "q % 2"))) or "r" in re.findall(r"[a-z]+", t) or t == "q" and d not in ("'x - x'", "'y/y'"):
                continue
            if re.sub(r"[^a-z]", "", re.sub("where|abs|max|sqrt", "", t)).strip("q") == "":
                continue
            pn, axes, opts = POS[(i + j) % len(POS)]
            ob("unit/%s/%s/%s" % (pn, t, d), axes, opts, t, {"q": d})
    for i, t in enumerate(COND):
        for j, d in enumerate(DEFS):
            for p, (pn, axes, opts) in enumerate(CPOS):
                if not ck.thorough and (i * 5 + j * 3 + p) % 4 or d in ("'3'", "3", "2.5", "'-2'", "-2"):
                    continue
                text = "where(%s, x, y)" % t if pn == "where" else t
                defs = {"q": d}
                if " r" in t:
                    defs["r"] = "'y*z'"
                ob("cond/%s/%s/%s" % (pn, t, d), axes, opts, text, defs)
    for i, t in enumerate(BUSE):
        for j, d in enumerate(BDEFS):
            for p, (pn, axes, opts) in enumerate(CPOS):
                if not ck.thorough and (i * 5 + j * 3 + p) % 3 or d in ("'a'", "'not a'") and t in ("q", "not q"):
                    continue
                text = "where(%s, x, y)" % t if pn == "where" else t
                defs = {"q": d}
                if " r" in t:
                    defs["r"] = BDEFS[(j + 4) % len(BDEFS)]
                ob("bool/%s/%s/%s" % (pn, t, d), axes, opts, text, defs)
    # names that hide fields, functions' arguments or constants; parsed expressions; unused definitions
    for i, (axes, opts, text, defs) in enumerate((
            ("profile(%r)", "", "x", {"x": "'x + 1'"}), ("profile(%r)", "", "x*y", {"x": "'y'", "y": "'x + 1'"}), ("profile(%r)", "", "x - y", {"x": "'y'", "y": "'x'"}), ("profile(%r)", "", "pi*x", {"pi": "'y'"}), ("profile(%r)", "", "e + x", {"e": "2.5"}), ("profile(%r)", "", "sqrt(x)", {"s": "'y'"}), ("profile(%r), groupby('x')", "weight='y'", "x", {"x": "'x*y'"}),
            ("profile(%r)", "", "x + y", {"unused": "'nosuchfield + 1'"}), ("bin(%r, 2, 0, 2), profile('q')", "weight='q*w', filter='q > 1'", "q + 1", {"q": "'x*y'"}), ("groupby('c'), bin(%r, 2, 0, 2), cut('q > r'), profile('q*r')", "weight='r', filter='q > 0.1'", "q - r", {"q": "'x + y'", "r": "'z*2'"}), ("intbin('n', 0, 2), profile(%r)", "", "m*q", {"m": "'n + 1'", "q": "3"}),
            ("cut(%r), profile('w')", "", "n in k", {"k": "{1, 2}"}), ("cut(%r), profile('w')", "", "n not in k", {"k": "{0}"}), ("cut(%r), profile('w')", "", "x > k", {"k": "0"}), ("profile('w')", "filter='n == k'", "w", {"k": "0"}), ("profile('w')", "filter='x <= k and y > k'", "w", {"k": "1"}), ("profile(%r)", "", "where(n == k, x, y)", {"k": "0"}), ("profile(%r)", "weight='w + k'", "x", {"k": "0"}))):
        one = "Hist(%s)" % ", ".join([(axes % text if "%r" in axes else axes)] + ([opts] if opts else []) + ["defs={%s}" % ", ".join("%r: %s" % kv for kv in defs.items())])
        two = "Hist(%s)" % ", ".join([re.sub(r"'([^']*)'", lambda m: "'%s'" % subst(m.group(1), defs), (axes % text if "%r" in axes else axes))] + ([re.sub(r"'([^']*)'", lambda m: "'%s'" % subst(m.group(1), defs), opts)] if opts else []))
        src = "a, b = %s, %s\na.fill(%s)\nb.fill(%s)\nreturn snap(a.tojson()['content']), snap(b.tojson()['content']), [f for f in a.fields], [f for f in b.fields]" % (one, two, ROWS, ROWS)

        def judge(m, v, one=one, two=two):
            p, q, fa, fb = host(m, v)
            if fa != fb:
                return "%s needs the fields %s, but %s needs %s" % (one, fa, two, fb)
            return cdiff(p.v, q.v, "content of %s compared with %s" % (one, two))
        ck.ob("special/%d" % i, "a defined name hides fields and constants and is taken as a unit", src, env, judge)
    # given as a parsed expression; the same definition in a book and alone
    for i, (t, d) in enumerate((("q + 1", "x*y"), ("2*q", "x + y"), ("q", "sqrt(x)"), ("q/y", "x - y"), ("q*q", "x + 1"))):
        src = "a, b = Hist(profile(%r), defs={'q': histbook.expr.Expr.parse(%r)}), Hist(profile(%r), defs={'q': %r})\na.fill(%s)\nb.fill(%s)\nreturn snap(a.tojson()['content']), snap(b.tojson()['content']), 0, 0" % (t, d, t, d, ROWS, ROWS)
        ck.ob("parsed/%d" % i, "a parsed definition means the same as its text", src, env, lambda m, v: cdiff(host(m, v)[0].v, host(m, v)[1].v, "content"))
        src = "a = Hist(profile(%r), weight='q', defs={'q': %r})\nb = Hist(profile(%r), weight='q', defs={'q': 'z'})\nk = Book({'a': a, 'b': b})\nk.fill(%s)\nc = Hist(profile(%r), weight=%r)\nd = Hist(profile(%r), weight='z')\nc.fill(%s)\nd.fill(%s)\nreturn [snap(x.tojson()['content']) for x in (a, b, c, d)]" % (t, d, t, ROWS, subst(t, {"q": "'%s'" % d}), d, subst(t, {"q": "'z'"}), ROWS, ROWS)

        def judge2(m, v):
            a, b, c, d = [x.v for x in host(m, v)]
            return cdiff(a, c, "histogram of a book with its own definitions") or cdiff(b, d, "another histogram of the book with other definitions")
        ck.ob("book/%d" % i, "definitions belong to one histogram", src, env, judge2, orders=(0, 1))
