"""C26 grouping keeps the bins of each source under its own name."""
from ..spec import *
from .c04 import addc, CONFIGS
from .c07 import bjson

LEVEL = "other"
EXPLAIN = ("value-number analysis: every cell of each source is a distinct symbol; under each source name the grouped histogram must hold exactly that source's cells, togroup must add cells under names that exist and create the others, selecting a name "
           "must give back the source, dropping the new axis must give their sum, and books must do so for every histogram path of their union; refused groupings change nothing")
ASSUME = ["the options of grouped histograms are subject of C16", "a group without any content and an absent group mean the same"]


def conts(axes, keys, wt, odd=0):
    if not keys:
        return [content(axes, wt, prefix=p, odd=odd and odd + i) for i, p in enumerate("stu")]
    k0, k1 = keys
    if not isinstance(k0[0], list):
        k0, k1 = [k0], [k1]
    return [content(axes, wt, k0, "s_", odd), content(axes, wt, k1, "t_", odd and odd + 1), content(axes, wt, k0, "u_", odd and odd + 2)]


def empty(axes, wt):
    return {} if any(a["axis"] in GROUP for a in axes) else zeros(shape(axes, wt))


def run(ck):
    ck.anchor("Hist", "Hist.group", "Hist.togroup", "Hist.fromjson", "Hist.tojson", "Book", "Book.group")
    P = "a, b, c, e = Hist.fromjson(ja), Hist.fromjson(jb), Hist.fromjson(jc), Hist.fromjson(je)\n"
    SRC = "[x.tojson().get('content') for x in (a, b, c, e)]"
    for name, axes, keys in CONFIGS:
        for weight, odd, flt in ((None, 0, None), ("w", 0, None), ("w", 1, None), (None, 3, None), (None, 0, "x < 1"), ("w", 0, "x < 1")):
            wt = weight is not None or flt is not None
            A, B, C = conts(axes, keys, wt, odd)
            Z = empty(axes, wt)

            def env(m, J=[hjson(axes, x, weight=weight, filter=flt) for x in (A, B, C, None)]):
                return dict(zip(("ja", "jb", "jc", "je"), [absv(m, j) for j in J]))
            grouped = [Groupby("src")] + axes
            order = [x for x in grouped if x["axis"] in GROUP] + [x for x in axes if x["axis"] in FIXED] + [x for x in axes if x["axis"] == "profile"]
            for o, code, want in (
                    ("one", "r = Hist.group(by='src', p=a)", {"p": A}), ("two", "r = Hist.group(by='src', p=a, q=b)", {"p": A, "q": B}), ("swapped", "r = Hist.group(by='src', q=a, p=b)", {"p": B, "q": A}), ("three", "r = Hist.group(by='src', q=b, p=a, z=c)", {"p": A, "q": B, "z": C}), ("same twice", "r = Hist.group(by='src', p=a, q=a)", {"p": A, "q": A}), ("with empty", "r = Hist.group(by='src', p=a, q=e)", {"p": A, "q": Z}),
                    ("all empty", "r = Hist.group(by='src', p=e)", {"p": Z}), ("of sums", "r = Hist.group(by='src', p=a + b, q=c)", {"p": addc(A, B), "q": C}),
                    ("togroup new", "r = Hist.group(by='src', p=a)\nr.togroup(q=b)", {"p": A, "q": B}), ("togroup existing", "r = Hist.group(by='src', p=a)\nr.togroup(p=b)", {"p": addc(A, B)}), ("togroup both", "r = Hist.group(by='src', p=a, q=b)\nr.togroup(q=c, z=a)", {"p": A, "q": addc(B, C), "z": A}), ("togroup twice", "r = Hist.group(by='src', p=a)\nr.togroup(q=b)\nr.togroup(q=b, p=c)", {"p": addc(A, C), "q": addc(B, B)}),
                    ("togroup empty", "r = Hist.group(by='src', p=a)\nr.togroup(q=e, p=e)", {"p": A, "q": Z}), ("togroup into empty", "r = Hist.group(by='src', p=e)\nr.togroup(p=a, q=b)", {"p": A, "q": B}), ("togroup itself", "r = Hist.group(by='src', p=a)\nr.togroup(p=a)", {"p": addc(A, A)}), ("togroup nothing", "r = Hist.group(by='src', p=a)\nr.togroup()", {"p": A}), ("togroup after copyonfill", "k = Hist.group(by='src', p=a)\nr = k.copyonfill()\nr.togroup(p=b, q=c)\nif sorted(k.tojson()['content']) != ['p']: r = None", {"p": addc(A, B), "q": C}),
                    ("sum of groups", "r = Hist.group(by='src', p=a, q=b) + Hist.group(by='src', q=c, z=a)", {"p": A, "q": addc(B, C), "z": A}), ("default", "r = Hist.group(p=a, q=b)", {"p": A, "q": B})):
                src = P + code + "\nj = r.tojson()\nreturn j['axis'], j['content'], " + SRC

                def judge(m, v, want=want, o=o, A=A, B=B, C=C, order=order):
                    ax, got, (ra, rb, rc, re) = host(m, v)
                    ax = [dict((k, list(x) if isinstance(x, (list, tuple)) else x) for k, x in q.items()) for q in ax]
                    w = [dict((k, list(x) if isinstance(x, (list, tuple)) else x) for k, x in q.items()) for q in order]
                    if o == "default":
                        w[0] = dict(w[0], expr="source")
                    if ax != w:
                        return "%s: axes are %s" % (o, ax)
                    if set(got) != set(want):
                        return "%s: the names are %s instead of %s" % (o, sorted(got), sorted(want))
                    for n in want:
                        d = cdiff(got[n], want[n], "%s: content under %r" % (o, n))
                        if d:
                            return d
                    return cdiff(ra, A, o + ": first source afterwards") or cdiff(rb, B, o + ": second source afterwards") or cdiff(rc, C, o + ": third source afterwards") or (None if re is None else o + ": the empty source was filled")
                ck.ob("%s/%s%s/%s" % (name, weight, "/filter" if flt else "", o), "each source under its own name", src, env, judge)
            # back again
            for o, code, want in (("select", "r = Hist.group(by='src', p=a, q=b).select(\"src == 'p'\")", {"p": A}), ("select other", "r = Hist.group(by='src', p=a, q=b).select(\"src == 'q'\")", {"q": B}), ("select both", "r = Hist.group(by='src', p=a, q=b, z=c).select(\"src in {'p', 'z'}\")", {"p": A, "z": C}), ("select not", "r = Hist.group(by='src', p=a, q=b, z=c).select(\"src != 'p'\")", {"q": B, "z": C}), ("drop", "r = Hist.group(by='src', p=a, q=b, z=c).project(*[q for q in Hist.group(by='src', p=a).axis if q != histbook.groupby('src') and q.__class__ is not histbook.profile])", addc(addc(A, B), C)), ("drop all of one", "r = Hist.group(by='src', p=a).project(*[q for q in Hist.group(by='src', p=a).axis if q != histbook.groupby('src') and q.__class__ is not histbook.profile])", A)):
                src = P + code + "\nreturn r.tojson()['content']"

                def judge(m, v, want=want, o=o):
                    got = host(m, v)
                    if o.startswith("select"):
                        if set(got) != set(want):
                            return "%s: the names are %s instead of %s" % (o, sorted(got), sorted(want))
                    return cdiff(got, want, o + " after grouping")
                ck.ob("%s/%s%s/back/%s" % (name, weight, "/filter" if flt else "", o), "a source is found again by its name, and dropping the names adds the sources", src, env, judge)
            # refused
            if wt:
                continue
            other = [Bin("zz", 2, 0, 2)]

            def env2(m, env=env, A=A, axes=axes):
                out = env(m)
                out["jo"] = absv(m, hjson(other, content(other, False, None, "o_")))
                out["jw"] = absv(m, hjson(axes, None, weight="w"))
                out["jr"] = absv(m, hjson([Bin("x", 2, 0, 2, u=False)], None))
                return out
            for o, code in (("other axes", "Hist.group(by='src', p=a, q=o)"), ("not a histogram", "Hist.group(by='src', p=a, q=3)"), ("axes", "Hist.group(by='src', p=a, q=a.axis[0])" if axes else None), ("nothing", "Hist.group(by='src')"), ("weighted and not", "Hist.group(by='src', p=a, q=w)"), ("name exists", "Hist.group(by='src', p=Hist.group(by='src', p=a))"), ("togroup other axes", "g.togroup(q=b, z=o)"), ("togroup weighted", "g.togroup(q=b, p=w)"), ("togroup not a histogram", "g.togroup(q=b, z=None)"),
                            ("togroup grouped", "g.togroup(q=Hist.group(by='src', p=a))"), ("togroup on a histogram without groups", "o.togroup(q=o)")):
                if code is None:
                    continue
                src = P + "o, w = Hist.fromjson(jo), Hist.fromjson(jw)\ng = Hist.group(by='src', p=a)\ntry:\n    %s\n    r = 'accepted'\nexcept (TypeError, ValueError):\n    r = 'refused'\nreturn r, g.tojson()['content'], a.tojson()['content'], b.tojson()['content']" % code

                def judge(m, v, A=A, B=B, o=o):
                    r, g, ra, rb = host(m, v)
                    if r != "refused":
                        return "%s: the grouping was accepted" % o
                    if set(g) != {"p"}:
                        return "%s: the refused grouping changed the names to %s" % (o, sorted(g))
                    return cdiff(g["p"], A, o + ": group after the refusal") or cdiff(ra, A, o + ": source after the refusal") or cdiff(rb, B, o + ": source after the refusal")
                ck.ob("%s/refused/%s" % (name, o), "groupings without a meaning are refused and change nothing", src, env2, judge)
    # books
    AX1, AX2, AX3 = [Bin("x", 2, 0, 2), Profile("y")], [Groupby("c"), Bin("x", 1, 0, 2, u=False)], [Split("x", (0.0, 1.0))]
    SPEC = {"one": (AX1, "w", None), "two": (AX2, None, [["a", "b"]]), "sub/three": (AX3, None, None), "sub/deep/one": (AX1, "w", None)}
    from itertools import product
    names = list(SPEC)

    def tree(have, prefix):
        top, cont = {}, {}
        for p in have:
            ax, w, keys = SPEC[p]
            c = content(ax, w is not None, keys, prefix + p.replace("/", "_"))
            cont[p] = c
            node = top
            bits = p.split("/")
            for q in bits[:-1]:
                node = node.setdefault(q, {})
            node[bits[-1]] = hjson(ax, c, weight=w)

        def mk_(node, at):
            return bjson([(n, x if "type" in x else mk_(x, at)) for n, x in node.items()], {"k" + prefix: at, "both": prefix})
        return mk_(top, 1), cont
    subsets = [("one",), ("one", "two"), ("sub/three",), ("one", "two", "sub/three", "sub/deep/one"), ("sub/deep/one", "two"), ("two", "sub/three"), ()]
    for sa, sb in product(subsets, subsets):
        if not sa and not sb or not ck.thorough and subsets.index(sa) > subsets.index(sb) + 2:
            continue
        ja, ca = tree(sa, "s")
        jb, cb = tree(sb, "t")
        src = "a, b = Book.fromjson(ja), Book.fromjson(jb)\nr = Book.group(by='src', p=a, q=b)\nreturn [(n, r[n].tojson(), r[n].tojson()['content']) for n in r.allkeys(onlyhist=True)], r.attachment, [[(n, x[n].tojson()['content']) for n in x.allkeys(onlyhist=True)] for x in (a, b)]"

        def judge(m, v, ca=ca, cb=cb):
            got, att, (ra, rb) = host(m, v)
            want = dict((n, dict([(k, c[n]) for k, c in (("p", ca), ("q", cb)) if n in c])) for n in list(ca) + list(cb))
            if sorted(n for n, _, _ in got) != sorted(want):
                return "the histograms are %s instead of %s" % (sorted(n for n, _, _ in got), sorted(want))
            for n, j, c in got:
                if j["axis"][0] != Groupby("src") or [q["axis"] for q in j["axis"][1:]] != [q["axis"] for q in SPEC[n][0]]:
                    return "%s has axes %s" % (n, j["axis"])
                if set(c) != set(want[n]):
                    return "%s has the sources %s instead of %s" % (n, sorted(c), sorted(want[n]))
                for k in c:
                    d = cdiff(c[k], want[n][k], "%s of source %s" % (n, k))
                    if d:
                        return d
            wa = {}
            for k in ("s", "t"):
                wa["k" + k] = 1
            if set(att) != {"ks", "kt", "both"}:
                return "the attachments are %s" % sorted(att)
            for x, w in ((ra, ca), (rb, cb)):
                if sorted(n for n, _ in x) != sorted(w):
                    return "a source has the members %s afterwards" % sorted(n for n, _ in x)
                for n, c in x:
                    d = cdiff(c, w[n], "%s of a source afterwards" % n)
                    if d:
                        return d
        ck.ob("book/%s-%s" % (subsets.index(sa), subsets.index(sb)), "every histogram of the books grouped by its path", src, lambda m, ja=ja, jb=jb: {"ja": absv(m, ja), "jb": absv(m, jb)}, judge, orders=(0, 1, 2))
    H1 = "Hist(bin('x', 2, 0, 2))"
    for o, code in (("histogram and book", "Book.group(by='src', p=Book({'a': %s}), q=Book({'a': Book()}))" % H1), ("not a book", "Book.group(by='src', p=Book({'a': %s}), q=%s)" % (H1, H1)), ("nothing", "Book.group(by='src')"), ("other axes", "Book.group(by='src', p=Book({'a': %s}), q=Book({'a': Hist()}))" % H1), ("other axes deep", "Book.group(by='src', p=Book({'a': Book({'b': %s})}), q=Book({'a': Book({'b': Hist()})}))" % H1), ("name exists", "Book.group(by='src', p=Book({'a': Hist(groupby('src'))}))")):
        ck.ob("book/refused/" + o, "groupings without a meaning are refused and change nothing", "try:\n    %s\nexcept Exception:\n    return 'refused'\nreturn 'accepted'" % code, lambda m: {}, lambda m, v, o=o: None if v == "refused" else "%s: the grouping was accepted" % o)
