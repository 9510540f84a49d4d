"""C24 specifications that do not describe a histogram are refused when they are given, and valid ones are accepted."""
from ..spec import *

LEVEL = "other"
EXPLAIN = ("exceptional-path analysis of all constructors: every combination of valid, borderline and invalid parameters of each axis kind, directly, through JSON and through copies, each option of histograms and books, and each construct "
           "of Python's expression grammar that has no meaning for a histogram must reach an exception exactly if the specification is invalid; valid ones must have the right number of bins")
ASSUME = ["infinite and NaN parameters of axes are not claimed", "the class of the exception is not claimed"]

TRY = """
def attempt(f):
    try:
        r = f()
    except Exception:
        return None
    return r
"""
NUMB = ["0", "1", "3", "-1", "2.0", "1.5", "'3'", "None", "numpy.int64(2)", "numpy.float64(2.0)", "[2]"]
RANGES = ["0, 2", "0.5, 2.5", "-3, -1", "1, 1", "1.0, 1", "2, 0", "-1, -1.5", "'0', 2", "0, '2'", "None, 2", "0, None", "[0], 2", "numpy.float64(0.5), numpy.int64(2)", "0, 1j"]
FLAGS = ["", "underflow=False", "overflow=False", "nanflow=False", "underflow=False, overflow=False", "underflow=False, overflow=False, nanflow=False", "underflow=1", "overflow=None", "nanflow='no'", "closedlow=0", "closedlow=False", "underflow=numpy.bool_(False)", "nosuchoption=True"]
EDGES = ["[0, 1, 2]", "(0, 1)", "[2, 0, 1]", "[0.5]", "3", "2.5", "[]", "()", "[0, 1, 1]", "[1, 0, 1.0]", "['0', '1']", "[0, 'a']", "[0, None]", "None", "'01'", "numpy.array([0.0, 1.0, 3.0])", "[numpy.float64(0), numpy.int64(4)]", "[0, 1j]", "numpy.float64(2.5)"]
WIDTHS = ["1", "0.25", "0", "0.0", "-1", "-0.5", "'1'", "None", "numpy.float64(2)", "numpy.int64(2)", "1j", "[1]"]
MINMAX = ["0, 3", "-2, 2", "1, 1", "2, 1", "0, -1", "0.0, 3", "0, 3.0", "'0', 3", "0, '3'", "None, 3", "0, None", "numpy.int64(0), numpy.int64(3)", "numpy.float64(0), 3"]


def val(s):
    """(kind, value) of a parameter text: int, float, bool, other."""
    if s.startswith("numpy.int64("):
        return "int", int(s[12:-1])
    if s.startswith("numpy.float64("):
        return "float", float(s[14:-1])
    if s.startswith("numpy.bool_("):
        return "bool", s[12:-1] == "True"
    if s.startswith("numpy.array("):
        return "list", [("float", x) for x in eval(s[12:-1])]
    try:
        x = eval(s)
    except Exception:
        return "other", None
    if isinstance(x, bool):
        return "bool", x
    if isinstance(x, int):
        return "int", x
    if isinstance(x, float):
        return "float", x
    if isinstance(x, (list, tuple)):
        return "list", x
    return "other", x


def pairs(s):
    depth, cut = 0, None
    for i, c in enumerate(s):
        depth += c in "(["
        depth -= c in ")]"
        if c == "," and depth == 0:
            cut = i
    return s[:cut].strip(), s[cut + 1:].strip()


def elements(s):
    k, v = val(s)
    if k != "list":
        if s.startswith("["):
            out = []
            for e in s[1:-1].split(","):
                out.append(val(e.strip()))
            return out
        return None
    return [e if isinstance(e, tuple) else val(repr(e)) for e in v]


def flags(s, names):
    """None if refused, else dict."""
    out = {"underflow": True, "overflow": True, "nanflow": True, "closedlow": True}
    for part in [p for p in s.split(", ") if p]:
        n, x = part.split("=")
        k, v = val(x)
        if n not in names or k != "bool":
            return None
        out[n] = v
    return out


ALL = ("underflow", "overflow", "nanflow", "closedlow")
EXPRS = ["x +", "x y", "", "x; y", "x = 1", "x := 1", "*x", "(x", "lambda x: x", "x[0]", "x[0:1]", "[x]", "(x, y)", "x if y else z", "x.y", "x.y(z)", "f(x)", "nosuchfunction(x)", "sqrt(x)(y)", "sqrt(nosuchfunction(x))", "x + nosuchfunction(y)", "(lambda q: q)(x)", "x in y", "x in [1]", "x in (1, 2)", "x not in y", "x in {y}", "x in {1, y}", "x is y", "x is None", "x is not y",
         "(x > 1) + 2", "x + (y > 1)", "2*(x == y)", "-(x > 1)", "(x and y) + 1", "sqrt(x > 1)", "sqrt(x and y)", "max(x, y > 1)", "abs(not x)", "x ** (y > 1)", "(x > 1) == (y > 1)", "(x or y) > 1", "x < (y in {1})", "where(x > 1, y > 1, 2)", "where(x > 1, 2, not y)", "~x", "x & y", "x | y", "x << 1", "x >> 1", "x @ y", "...", "{'a': x}", "{'a': 1}", "[y for y in x]", "{y for y in x}", "f'{x}'", "max(*x)", "sqrt(x, out=y)", "round(x, decimals=2)", "max(x, y, key=z)", "sqrt(**x)",
         "x + 'a'", "'a'*x", "x ** 'a'", "x and 1", "x + 1 and y", "not x + 1", "os.system(x)", "__import__(x)", "eval(x)", "open(x)", "print(x)", "pickle.loads(x)", "x.sqrt(y)"]
NOTBOOL = ["x", "x + 1", "3", "sqrt(x)", "'a'", "x*y", "2*x + y", "where(x > 1, 0, 1)"]
GOOD = ["x > 1", "x == 1 and y < 2", "not x == 1", "x in {1, 2}", "1 < x < 2", "not a or x > 1", "a and b", "x != y", "not (a and b)", "True", "False"]


def run(ck):
    ck.anchor("Hist", "Book", "bin", "split", "intbin", "groupby", "groupbin", "cut", "profile")

    def ob(name, rule, src, expect, what, env=lambda m: {}):
        def judge(m, v, expect=expect, what=what):
            g = host(m, v)
            if expect is None and g is not None:
                return "%s was accepted" % what
            if expect is not None and g is None:
                return "%s was refused" % what
            if expect is not None and expect is not True and g != expect:
                return "%s gives %s instead of %s" % (what, g, expect)
        ck.ob(name, rule, TRY + src, env, judge)

    def axis(name, text, expect):
        ob("axis/%s" % name, "invalid axes are refused, valid ones accepted", "return attempt(lambda: len(%s.keys()))" % text, expect, text)
        if ck.thorough or expect is not None:
            ob("hist/%s" % name, "a histogram has the bins of its axes", "return attempt(lambda: Hist(profile('y'), %s).shape[0])" % text, expect, "Hist(%s)" % text)

    def binning(nb, rng, fl):
        a, b = pairs(rng)
        (kn, n), (kl, lo), (kh, hi), o = val(nb), val(a), val(b), flags(fl, ALL)
        if kn != "int" or n < 0 or kl not in ("int", "float") or kh not in ("int", "float") or o is None:
            return None
        if lo > hi or n > 0 and lo == hi:
            return None
        return (n + o["underflow"] + o["overflow"] + o["nanflow"]) or None

    def splitting(e, fl):
        o = flags(fl, ALL)
        k, v = val(e)
        if k in ("int", "float"):
            ed = [v]
        else:
            el = elements(e)
            if el is None or not el or any(q not in ("int", "float") for q, _ in el):
                return None
            ed = [q for _, q in el]
        if o is None or len(set(ed)) != len(ed):
            return None
        return (len(ed) - 1 + o["underflow"] + o["overflow"] + o["nanflow"]) or None

    def ints(mm, fl):
        a, b = pairs(mm)
        (ka, x), (kb, y) = val(a), val(b)
        o = flags(fl, ("underflow", "overflow"))
        if ka != "int" or kb != "int" or o is None or x > y:
            return None
        return y - x + 1 + o["underflow"] + o["overflow"]
    for nb in NUMB:
        for rng in RANGES:
            for fl in FLAGS if ck.thorough else ([""] if nb not in ("0", "3") or rng not in ("0, 2", "1, 1", "2, 0") else FLAGS):
                t = "bin('x', %s, %s%s)" % (nb, rng, ", " + fl if fl else "")
                axis("bin/%s/%s/%s" % (nb, rng, fl), t, binning(nb, rng, fl))
    for e in EDGES:
        for fl in FLAGS if ck.thorough or e in ("[0, 1, 2]", "3", "[]", "[0.5]") else ["", "underflow=False, overflow=False, nanflow=False", "closedlow=False"]:
            axis("split/%s/%s" % (e, fl), "split('x', %s%s)" % (e, ", " + fl if fl else ""), splitting(e, fl))
    for mm in MINMAX:
        for fl in [f for f in FLAGS if ck.thorough or mm in ("0, 3", "1, 1", "2, 1") or f in ("", "underflow=False, overflow=False")]:
            axis("intbin/%s/%s" % (mm, fl), "intbin('x', %s%s)" % (mm, ", " + fl if fl else ""), ints(mm, fl))
    for w in WIDTHS:
        for o in ["", "origin=0.5", "origin=-1", "origin='a'", "origin=None", "nanflow=False", "nanflow=0", "closedlow=False", "closedlow='x'", "nosuchoption=1"]:
            k, v = val(w)
            ok = k in ("int", "float") and v > 0
            if o:
                n, x = o.split("=")
                kx, _ = val(x)
                ok = ok and (kx in ("int", "float") if n == "origin" else kx == "bool" and n != "nosuchoption")
            t = "groupbin('x', %s%s)" % (w, ", " + o if o else "")
            ob("axis/groupbin/%s/%s" % (w, o), "invalid axes are refused, valid ones accepted", "return attempt(lambda: %s.binwidth)" % t, float(v) if ok else None, t)
    for kind in ("groupby", "cut", "profile"):
        for args in ("", "'x', 3", "'x', nosuchoption=True"):
            ob("axis/%s/%s" % (kind, args), "invalid axes are refused, valid ones accepted", "return attempt(lambda: %s(%s) and True)" % (kind, args), None, "%s(%s)" % (kind, args))
    # from JSON
    J = {"bin": {"axis": "bin", "expr": "x", "numbins": 2, "low": 0.0, "high": 2.0, "underflow": True, "overflow": True, "nanflow": True, "closedlow": True}, "split": {"axis": "split", "expr": "x", "edges": [0.0, 1.0], "underflow": True, "overflow": True, "nanflow": True, "closedlow": True}, "intbin": {"axis": "intbin", "expr": "x", "min": 0, "max": 2, "underflow": True, "overflow": True},
         "groupbin": {"axis": "groupbin", "expr": "x", "binwidth": 0.5, "origin": 0.0, "nanflow": True, "closedlow": True}}
    for kind, ch in (("bin", {}), ("bin", {"numbins": -1}), ("bin", {"numbins": 2.5}), ("bin", {"low": 2.0}), ("bin", {"low": 3.0}), ("bin", {"high": "a"}), ("bin", {"underflow": 1}), ("bin", {"numbins": 0, "underflow": False, "overflow": False, "nanflow": False}), ("bin", {"axis": "nosuchaxis"}), ("split", {}), ("split", {"edges": []}), ("split", {"edges": [1.0, 1.0]}), ("split", {"edges": ["a"]}), ("split", {"closedlow": None}),
                     ("intbin", {}), ("intbin", {"min": 3}), ("intbin", {"max": 1.5}), ("groupbin", {}), ("groupbin", {"binwidth": 0.0}), ("groupbin", {"binwidth": -1.0}), ("groupbin", {"origin": "a"})):
        a = dict(J[kind], **ch)
        ob("json/%s/%s" % (kind, sorted(ch.items())), "invalid axes in JSON are refused", "return attempt(lambda: Hist.fromjson(j) and True)", None if ch else True, "JSON of %s with %s" % (kind, ch), lambda m, a=a: {"j": absv(m, {"type": "Hist", "axis": [a]})})
    for miss in ("numbins", "low", "high", "expr", "axis"):
        a = dict(J["bin"])
        del a[miss]
        ob("json/bin-without-%s" % miss, "invalid axes in JSON are refused", "return attempt(lambda: Hist.fromjson(j) and True)", None, "JSON of bin without %s" % miss, lambda m, a=a: {"j": absv(m, {"type": "Hist", "axis": [a]})})
    # expressions
    for i, e in enumerate(EXPRS):
        for n, t in (("profile", "Hist(profile(%r))"), ("bin", "Hist(bin(%r, 2, 0, 2))"), ("cut", "Hist(cut(%r))"), ("groupby", "Hist(groupby(%r))"), ("weight", "Hist(weight=%r)"), ("filter", "Hist(filter=%r)"), ("both", "Hist(weight='w', filter=%r)"), ("weight-filter", "Hist(filter='x > 1', weight=%r)"), ("defs", "Hist(profile('q'), defs={'q': %r})")):
            if not ck.thorough and n not in ("profile", "filter", "weight-filter", ("bin", "cut", "groupby", "weight", "both", "defs")[i % 6]):
                continue
            ob("expr/%s/%s" % (n, e), "expressions without a meaning are refused", "return attempt(lambda: %s and True)" % (t % e), None, t % e)
    for e in NOTBOOL:
        for t in ("Hist(bin('x', 2, 0, 2), filter=%r)", "Hist(bin('x', 2, 0, 2), filter=%r, weight='w')", "Hist(bin('x', 2, 0, 2)).filter(%r)", "Hist(bin('x', 2, 0, 2), weight=2, filter=%r)"):
            ob("notbool/%s" % (t % e), "a filter must be a condition", "return attempt(lambda: %s and True)" % (t % e), None, t % e)
    for e in GOOD:
        for t in ("Hist(bin('x', 2, 0, 2), filter=%r)", "Hist(bin('x', 2, 0, 2), filter=%r, weight='w')", "Hist(cut(%r))"):
            ob("bool/%s" % (t % e), "conditions are accepted as filters and cuts", "return attempt(lambda: %s and True)" % (t % e), True, t % e)
    # options
    for t, good in (("Hist(bin('x', 2, 0, 2), nosuchoption=1)", 0), ("Hist(bin('x', 2, 0, 2), weights='w')", 0), ("Hist(bin('x', 2, 0, 2), systematic=(1,), attachment={'systematic': (2,)})", 0), ("Hist(bin('x', 2, 0, 2), systematic=(1,), attachment={'other': 2})", 1), ("Hist(bin('x', 2, 0, 2), attachment={'systematic': (2,)})", 1), ("Hist('x')", 0), ("Hist(3)", 0), ("Hist(None)", 0), ("Hist(bin('x', 2, 0, 2), 'y')", 0), ("Hist(Hist(bin('x', 2, 0, 2)))", 0), ("Hist()", 1),
                    ("Hist(bin(3, 2, 0, 2))", 0), ("Hist(bin(None, 2, 0, 2))", 0), ("Hist(weight=[1])", 0), ("Hist(weight={})", 0), ("Hist(filter=3)", 0), ("Hist(filter=['x > 1'])", 0), ("Hist(defs=3)", 0), ("Hist(attachment=3)", 0), ("Hist(bin('x', 2, 0, 2), fill=[1.0])", 1), ("Hist(bin('x', 2, 0, 2), profile('y'), fill=[1.0])", 0), ("Hist(bin('x', 2, 0, 2), profile('y'), fill={'x': [1.0], 'y': [1.0]})", 1), ("Hist(bin('x', 2, 0, 2), profile('y'), fill={'x': [1.0]})", 0),
                    ("Hist(profile('q'), defs={'q': object()})", None), ("Hist(weight=2)", 1), ("Hist(weight=2.5)", 1), ("Hist(weight=numpy.float64(2.5), filter='x > 1')", 1), ("Hist(weight='w')", 1),
                    ("Book(3)", 0), ("Book('x')", 0), ("Book({'a': 3})", 0), ("Book({'a': bin('x', 2, 0, 2)})", 0), ("Book(a=None)", 0), ("Book({'a': Hist()}, {'b': Hist()})", 0), ("Book({1: Hist()})", 0), ("Book(Hist(), 3)", 0), ("Book(Hist(), Hist())", 1), ("Book({'a': Hist()}, b=Hist())", 1), ("Book()", 1), ("histbook.SystematicsBook({'a': Hist()})", 0), ("histbook.SystematicsBook({'a': Hist(systematic=(0,)), 'b': Hist(bin('x', 2, 0, 2), systematic=(1,))})", 0), ("histbook.SystematicsBook({'a': Hist(systematic=(0,)), 'b': Hist(systematic=(1,))})", 1)):
        if good is None:
            continue
        ob("option/%s" % t, "invalid options are refused, valid ones accepted", "return attempt(lambda: %s is not None)" % t, True if good else None, t)
    # systematics books: all members compatible, each with its systematic
    one, two, bare, third = "Hist(bin('x', 2, 0, 2), systematic=(%d,))", "Hist(bin('x', 3, 0, 2), systematic=(%d,))", "Hist(bin('x', 2, 0, 2), attachment={'k': %d})", "Hist(bin('y', 2, 0, 2), profile('z'), weight='w', systematic=(%d,))"
    BK = "Book({'h': %s, 'g': Hist(systematic=(0,))})"
    nest = [BK % h for h in (one, two, bare, third)] + ["Book({'h': %s})" % one, "Book({'h': Book({'h': %s})})" % one, "Book({'g': Hist(systematic=(0,)), 'h': %s})" % one]
    same = {one: 0, third: 0, two: 1, bare: None, nest[0]: 2, nest[1]: 3, nest[2]: None, nest[3]: 2, nest[4]: 4, nest[5]: 5, nest[6]: 2}
    for n in (1, 2, 3, 4, 5):
        for odd in [one, two, bare, third] + nest[:1]:
            for at in range(n):
                kinds = [one] * n
                kinds[at] = odd
                good = len(set(same[k] for k in kinds)) == 1 and None not in [same[k] for k in kinds]
                t = "histbook.SystematicsBook({%s})" % ", ".join("'%s': %s" % ("abcde"[i], k % i) for i, k in enumerate(kinds))
                ob("systematics/%d/%d/%d" % (n, at, [one, two, bare, third, nest[0]].index(odd)), "members of a systematics book must be compatible and have a systematic", "return attempt(lambda: %s is not None)" % t, True if good else None, t)
    for i, p in enumerate(nest):
        for j, q in enumerate(nest):
            good = same[p] == same[q] and same[p] is not None
            t = "histbook.SystematicsBook({'a': %s, 'b': %s})" % (p % 1, q % 2)
            ob("systematics/nested/%d-%d" % (i, j), "members of a systematics book must be compatible and have a systematic", "return attempt(lambda: %s is not None)" % t, True if good else None, t)
    for p in (one, two, bare, third) + tuple(nest):
        t = "b['c'] = %s" % (p % 3)
        ob("systematics/set/%s" % p, "members of a systematics book must be compatible and have a systematic", "b = histbook.SystematicsBook({'a': %s, 'b': %s})\ndef go():\n    %s\n    return True\nreturn attempt(go)" % (one % 1, one % 2, t), True if same[p] == 0 else None, t)
    for n in (2, 3, 4):
        for at in range(n):
            kinds = [one] * n
            kinds[at] = two
            t = "Book({%s}).assertcompatible()" % ", ".join("'%s': %s" % ("abcde"[i], k % i) for i, k in enumerate(kinds))
            ob("assertcompatible/%d/%d" % (n, at), "members of a systematics book must be compatible and have a systematic", "return attempt(lambda: %s is None)" % t, None, t)
            t = t.replace("bin('x', 3", "bin('x', 2")
            ob("assertcompatible/%d/%d/good" % (n, at), "members of a systematics book must be compatible and have a systematic", "return attempt(lambda: %s is None)" % t, True, t)
