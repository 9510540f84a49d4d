"""C28 fields are exactly the names that a fill needs."""
import ast
import random
from ..spec import *
from ..values import sym
from .c22 import HS
from .c23 import USES

LEVEL = "other"
EXPLAIN = ("need analysis: for a family of histograms and books, at construction and after every change of membership, the published fields must be the free names of all expressions (definitions substituted, constants aside), each once and sorted; "
           "a fill with exactly these must be accepted, a fill lacking any of them must be refused, and additional fields must not matter")
ASSUME = ["names of mathematical constants may be listed although they need not be given", "expressions in which a field cancels may or may not list it"]

EXPRS = ["x", "x + y", "x*y - z", "sqrt(x)", "arctan2(y, x)", "where(x > y, z, 1)", "where(a and x > 1, z, y)", "max(x, y, z)", "2*x", "x**2 + y**2", "-(x + y)/z", "x % 2", "x//y", "pi*x", "e", "x*inf", "numpy.sqrt(x) + math.sin(y)", "3", "x1 + x_2", "sin + x", "abs(x)*abs", "numpy + x", "min(x, 1)", "x*x*x/y", "hypot(x, y) > z"]
CONDS = ["x > 1", "x > y", "a", "not a", "a and b", "a and not b or x > 1", "x in {1, 2}", "s == 'one'", "s in {'one', 'two'}", "1 < x < y", "not (a and x > y)", "x + y > z", "pi > x"]
CONST = ("pi", "Pi", "e", "E", "inf", "Inf", "infinity", "Infinity", "nan", "NaN", "Nan")


def free(text):
    tree = ast.parse(text, mode="eval")
    funcs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for q in ast.walk(n.func):
                funcs.add(id(q))
    return set(n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and id(n) not in funcs)


VAL = {"a": "[True, False]", "b": "[False, False]", "s": "['one', 'four']", "c": "['u', 'v']", "n": "[1, 2]"}


def given(names):
    return ", ".join("%s=%s" % (n, VAL.get(n, "[0.5, 1.5]")) for n in names)


def run(ck):
    ck.anchor("Hist", "Hist.fields", "Hist.fill", "Book", "Book.fields", "Book.fill")
    r = random.Random(28)

    def check(fields, want, what):
        if not isinstance(fields, list) or any(not isinstance(f, str) for f in fields):
            return "%s: fields are %s" % (what, fields)
        got = [f for f in fields if f not in CONST]
        if got != sorted(set(want) - set(CONST)):
            return "%s: the fields are %s instead of %s" % (what, got, sorted(set(want) - set(CONST)))
        if len(set(fields)) != len(fields) or sorted(fields) != fields:
            return "%s: the fields %s are not sorted and distinct" % (what, fields)

    def single(name, hs, want, orders=(0, 1)):
        want = sorted(set(want) - set(CONST))
        src = "h = %s\nf0 = list(h.fields)\ng = %s\ng.fill(%s)\nj = snap(g.tojson()['content'])\n" % (hs, hs, given(want))
        src += "k = %s\nk.fill(%s)\nm = snap(k.tojson()['content'])\nmiss = []\n" % (hs, given(want + ["extra", "zzz", "aaa"]))
        for w in want:
            src += "q = %s\ntry:\n    q.fill(%s)\n    miss.append(%r)\nexcept Exception:\n    pass\n" % (hs, given([x for x in want if x != w] + ["extra"]), w)
        src += "return f0, list(g.fields), j, m, miss, list(h.copy().fields), list(Hist.fromjson(h.tojson()).fields), list(pickle.loads(pickle.dumps(h)).fields), list((h + g).fields)"

        def judge(m, v, want=want, hs=hs):
            f0, f1, j, k, miss, f2, f3, f4, f5 = host(m, v)
            for f, w in ((f0, ""), (f1, " after a fill"), (f2, ", copied"), (f3, ", from JSON"), (f4, ", unpickled"), (f5, ", added")):
                d = check(f, want, hs + w)
                if d:
                    return d
            if miss:
                return "%s was filled without %s" % (hs, miss)
            return diff(k.v, j.v, "%s filled with additional fields" % hs)
        ck.ob(name, "the fields are the free names, needed and sufficient", "import pickle\n" + src, lambda m: {"snap": snapfn()}, judge, orders=orders)
    for i, e in enumerate(EXPRS):
        f = free(e)
        single("profile/%s" % e, "Hist(profile(%r))" % e, f)
        single("bin/%s" % e, "Hist(bin(%r, 2, 0, 2))" % e, f)
        o = EXPRS[(i * 7 + 3) % len(EXPRS)]
        c = CONDS[i % len(CONDS)]
        if e not in ("e", "3"):
            single("weight/%s" % e, "Hist(bin('v', 2, 0, 2), weight=%r)" % e, f | {"v"})
        single("mix/%s" % e, "Hist(split(%r, [0, 1]), groupby('c'), cut(%r), profile(%r), weight='w', filter='n > 0')" % (e, c, o), f | free(c) | free(o) | {"c", "w", "n"}, orders=(0,))
        single("defs/%s" % e, "Hist(bin('q*v', 2, 0, 2), profile('q'), defs={'q': %r, 'unused': 'nosuchfield'})" % e, f | {"v"})
    for c in CONDS:
        single("cut/%s" % c, "Hist(cut(%r))" % c, free(c))
        if c == "a":        # a filter must be a condition, not the name of a field
            continue
        single("filter/%s" % c, "Hist(groupbin('v', 1), filter=%r)" % c, free(c) | {"v"})
        single("both/%s" % c, "Hist(intbin('n', 0, 2), weight='x', filter=%r)" % c, free(c) | {"n", "x"})
    # books
    for k in range(300 if ck.thorough else 50):
        members, ops = {}, []
        src = "b = Book()\nseen = []\n"
        wants = []
        for _ in range(r.choice((2, 3, 4, 5))):
            q = r.random()
            if q < 0.65 or not members:
                p = r.choice(["a", "b", "s/a", "s/b", "s/t/a", "z"])
                i = r.randrange(len(HS))
                members[p] = i
                src += "b[%r] = %s\n" % (p, HS[i])
            elif q < 0.8:
                p = r.choice(sorted(members))
                del members[p]
                src += "del b[%r]\n" % p
            else:
                p = r.choice(sorted(members))
                if "/" in p:
                    d, n = p.rsplit("/", 1)
                    i = r.randrange(len(HS))
                    members[p] = i
                    src += "b[%r][%r] = %s\n" % (d, n, HS[i])
            need = sorted(set(f for i in members.values() for f in USES[i]))
            wants.append(need)
            if r.random() < 0.3 and members:
                src += "b.fill(%s)\n" % given(need)
            src += "seen.append(list(b.fields))\n"
        need = wants[-1]
        src += "miss = []\nb.fill(%s)\n" % given(need)
        for w in need:
            src += "try:\n    b.fill(%s)\n    miss.append(%r)\nexcept Exception:\n    pass\n" % (given([x for x in need if x != w]), w)
        src += "return seen, miss"

        def judge(m, v, wants=wants):
            seen, miss = host(m, v)
            for i, (f, w) in enumerate(zip(seen, wants)):
                d = check(f, w, "book after step %d" % (i + 1))
                if d:
                    return d
            if miss:
                return "the book was filled without %s" % miss
        ck.ob("book/%d" % k, "the fields of a book are those of all its histograms", src, lambda m: {}, judge, orders=(0, 1))
    ck.ob("book/empty", "the fields of a book are those of all its histograms", "b = Book()\nb.fill()\nc = Book({'a': Hist()})\nc.fill()\nreturn list(b.fields), list(c.fields), list(Hist().fields)", lambda m: {}, lambda m, v: None if list(host(m, v)) == [[], [], []] else "empty books need %s" % (host(m, v),))
