"""C20 equality, hashing and compatibility go by parameters and content."""
from ..spec import *

LEVEL = "other"
EXPLAIN = ("pairwise dataflow analysis: for a family of axes, labels, histograms and books in which each parameter, option or cell is varied alone, ==, !=, hash and compatible must agree for every ordered pair with the equality of their parameters")
ASSUME = ["histograms are equal when their axes, options, attachments and contents are", "compatible ignores expressions, options and profiles", "books keep the order of their members", "NaN content is not claimed"]

BINNING = {"bin": ("numbins", "low", "high", "underflow", "overflow", "nanflow", "closedlow"), "split": ("edges", "underflow", "overflow", "nanflow", "closedlow"), "intbin": ("min", "max", "underflow", "overflow"), "groupbin": ("binwidth", "origin", "nanflow", "closedlow"), "cut": (), "groupby": (), "profile": ()}


def family():
    out = [Bin("x", 4, 0.0, 4.0)]
    for k, v in (("numbins", 8), ("numbins", 2), ("low", -4.0), ("low", 2.0), ("high", 5.0), ("high", 8.0), ("underflow", False), ("overflow", False), ("nanflow", False), ("closedlow", False), ("expr", "y"), ("expr", "x + 1")):
        out.append(dict(out[0], **{k: v}))
    base = len(out)
    out.append(Split("x", (0.0, 1.0, 2.0, 3.0, 4.0)))
    for k, v in (("edges", (0.0, 1.0, 2.0, 3.0)), ("edges", (1.0, 2.0, 3.0, 4.0)), ("edges", (0.0, 1.0, 2.5, 3.0, 4.0)), ("edges", (0.0, 1.0, 2.0, 3.0, 5.0)), ("underflow", False), ("overflow", False), ("nanflow", False), ("closedlow", False), ("expr", "y")):
        out.append(dict(out[base], **{k: v}))
    base = len(out)
    out.append(Intbin("x", 0, 4))
    for k, v in (("min", 1), ("min", -1), ("max", 5), ("max", 3), ("underflow", False), ("overflow", False), ("expr", "y")):
        out.append(dict(out[base], **{k: v}))
    base = len(out)
    out.append(Groupbin("x", 1.0))
    for k, v in (("binwidth", 2.0), ("binwidth", 0.5), ("origin", 0.5), ("origin", -1.0), ("nanflow", False), ("closedlow", False), ("expr", "y")):
        out.append(dict(out[base], **{k: v}))
    out += [Cut("x > 0"), Cut("x > 1"), Cut("x >= 0"), Cut("y > 0"), Groupby("x"), Groupby("y"), Profile("x"), Profile("y")]
    return out


def cons(ax, **kw):
    return ctor(ax)


def compat(a, b):
    return a["axis"] == b["axis"] and all(a[k] == b[k] for k in BINNING[a["axis"]])


def run(ck):
    ck.anchor("Hist", "Hist.compatible", "Book", "Book.compatible", "bin", "split", "intbin", "groupby", "groupbin", "cut", "profile")
    fam = family()
    OBS = "return [a == b, b == a, a != b, hash(a) == hash(b), a == a, a != a, hash(a) == hash(a2), a == a2, a != a2]"
    for i, a in enumerate(fam):
        for j, b in enumerate(fam):
            if not ck.thorough and i > j:
                continue
            src = "a, b, a2 = %s, %s, %s\n%s" % (ctor(a), ctor(b), ctor(a), OBS)

            def judge(m, v, a=a, b=b):
                eq = a == b
                w = [eq, eq, not eq, None if not eq else True, True, False, True, True, False]
                for n, g, x in zip(("a == b", "b == a", "a != b", "hash(a) == hash(b)", "a == a", "a != a", "hash of an equal axis is equal", "a equals its twin", "a differs from its twin"), host(m, v), w):
                    if x is not None and g is not x:
                        return "with a = %s and b = %s, %s is %s" % (ctor(a), ctor(b), n, g)
            ck.ob("axis/%d-%d" % (i, j), "equality goes by parameters", src, lambda m: {}, judge)
            if a["axis"] != "profile" and b["axis"] != "profile":
                src = "a, b = %s, %s\nreturn [a.compatible(b), b.compatible(a)]" % (ctor(a), ctor(b))
                ck.ob("compatible/%d-%d" % (i, j), "compatibility goes by the binning", src, lambda m: {}, lambda m, v, a=a, b=b: None if host(m, v) == [compat(a, b)] * 2 else "%s and %s: compatible is %s" % (ctor(a), ctor(b), host(m, v)))
                src = "a, b = Hist(%s), Hist(%s)\nreturn [a.compatible(b), b.compatible(a), a == b, a != b]" % (ctor(a), ctor(b))
                ck.ob("hist1/%d-%d" % (i, j), "histograms compare by their axes", src, lambda m: {}, lambda m, v, a=a, b=b: None if host(m, v) == [compat(a, b)] * 2 + [a == b, a != b] else "Hist(%s) and Hist(%s): compatible both ways, ==, != are %s" % (ctor(a), ctor(b), host(m, v)))
        for other in ("None", "3", "'x'", "object()", "Hist(bin('x', 4, 0, 4))"):
            src = "a, o = %s, %s\nreturn [a == o, a != o]" % (ctor(a), other)
            ck.ob("other/%d-%s" % (i, other), "an axis is not equal to anything else", src, lambda m: {}, lambda m, v, a=a, other=other: None if host(m, v) == [False, True] else "%s == %s, != are %s" % (ctor(a), other, host(m, v)))
    # the same axis written differently
    for i, (a, b) in enumerate((("bin('x', 4, 0, 4)", "bin('x', 4, 0.0, 4.0)"), ("split('x', [0, 1, 2])", "split('x', (0.0, 1.0, 2.0))"), ("split('x', [2, 0, 1])", "split('x', [0, 1, 2])"), ("split('x', 1)", "split('x', [1])"), ("groupbin('x', 1)", "groupbin('x', 1.0, origin=0)"), ("bin('x', 4, 0, 4, closedlow=True)", "bin('x', numbins=4, low=0, high=4)"),
                               ("bin('x', 4, -0.0, 4)", "bin('x', 4, 0.0, 4)"), ("bin('x', 4, -4, -0.0)", "bin('x', 4, -4, 0)"), ("split('x', [-1.0, -0.0, 1.0])", "split('x', [-1, 0, 1])"), ("groupbin('x', 1, origin=-0.0)", "groupbin('x', 1)"), ("split('x', numpy.array([0.5, 1.5]))", "split('x', [0.5, 1.5])"),
                               ("bin('x', numpy.int64(4), numpy.float32(0.5), numpy.float64(4))", "bin('x', 4, 0.5, 4)"), ("intbin('x', numpy.int32(0), numpy.int64(4))", "intbin('x', 0, 4)"), ("Hist(bin('x', 4, 0, 4)).axis[0]", "bin('x', 4, 0, 4)"), ("Hist(bin('x', 4, 0, 4), filter='y > 0', weight='w').axis[0]", "Hist(bin('x', 4, 0, 4), profile('z')).axis[0]"))):
        src = "a, b = %s, %s\n%s" % (a, b, OBS.replace("a2", "b"))
        ck.ob("spelling/%d" % i, "equality goes by parameters", src, lambda m: {}, lambda m, v, a=a, b=b: None if host(m, v) == [True, True, False, True, True, False, True, True, False] else "%s and %s are not equal in every way: %s" % (a, b, host(m, v)))
    # labels
    lab = [Bin("x", 2, 0, 2), Bin("x", 2, -0.0, 2), Bin("x", 1, -1, -0.0), Split("x", (-1.0, -0.0, 2.0)), Bin("x", 2, 0, 2, cl=False), Bin("x", 2, 1, 3), Bin("x", 1, 0, 2), Split("x", (0.0, 1.0, 2.0))]
    for i, a in enumerate(lab):
        for j, b in enumerate(lab):
            la, lb = labels(a), labels(b)
            src = "a, b = %s.keys(), %s.keys()\nreturn [[p == q, p != q, hash(p) == hash(q), p in {q: 1}] for p in a for q in b]" % (ctor(a), ctor(b))

            def judge(m, v, la=la, lb=lb, a=a, b=b):
                for (p, q), g in zip(itertools.product(la, lb), host(m, v)):
                    e = p.tup() == q.tup()
                    if g[0] is not e or g[1] is e or (e and g[2] is not True) or g[3] is not e:
                        return "labels %s of %s and %s of %s: ==, !=, equal hash, in are %s" % (p, ctor(a), q, ctor(b), g)
            ck.ob("label/%d-%d" % (i, j), "labels are equal when they are the same interval", src, lambda m: {}, judge)
    # histograms: one difference at a time
    base = {"axes": [Groupby("c"), Groupbin("g", 0.5), Bin("x", 2, 0, 2), Cut("y > 0"), Profile("z")], "opts": {"weight": "w", "filter": "n > 0", "defs": {"w": "u*2"}, "attachment": {"k": 1}}}

    def variants():
        yield "same", base, "", True, True
        ax = base["axes"]
        for i, repl in ((0, Groupby("d")), (1, Groupbin("g", 1.0)), (1, Groupbin("g", 0.5, 0.25)), (2, Bin("x", 3, 0, 2)), (2, Bin("q", 2, 0, 2)), (2, Bin("x", 2, 0, 2, n=False)), (3, Cut("y > 1")), (4, Profile("y"))):
            n = ax[:i] + [repl] + ax[i + 1:]
            yield "axis%d-%s" % (i, ctor(repl)), dict(base, axes=n), "", False, compat(ax[i], repl)
        for i in range(5):
            yield "without%d" % i, dict(base, axes=ax[:i] + ax[i + 1:]), "", False, i == 4
        yield "extra-profile", dict(base, axes=ax + [Profile("q")]), "", False, True
        yield "swap-fixed", dict(base, axes=[ax[0], ax[1], ax[3], ax[2], ax[4]]), "", False, False
        yield "swap-group", dict(base, axes=[ax[1], ax[0], ax[2], ax[3], ax[4]]), "", False, False
        yield "swap-kinds", dict(base, axes=[ax[4], ax[2], ax[0], ax[3], ax[1]]), "", True, True
        for k, v in (("weight", "u"), ("weight", None), ("weight", "2"), ("filter", "n > 1"), ("filter", None), ("defs", {"w": "u*3"}), ("defs", {"w": "u*2", "v": "u"}), ("attachment", {"k": 2}), ("attachment", {}), ("attachment", {"l": 1}), ("attachment", {"k": 1, "l": 1})):
            yield "%s-%s" % (k, v), dict(base, opts=dict(base["opts"], **{k: v})), "", False, True
        for n, code, e in (("filled", "b.fill(**d)", False), ("attached", "b.attach('z', 1)", False), ("attached-same", "b.attach('k', 1)", True), ("detached", "b.detach('k')", False)):
            yield n, base, code, e, True
    DATA = {"c": ["u", "v", "u"], "g": [0.25, 0.75, 0.25], "x": [0.5, 1.5, 0.5], "y": [1.0, -1.0, 1.0], "z": [2.0, 3.0, 4.0], "u": [1.0, 2.0, 0.5], "n": [1, 2, 3], "d": ["p", "q", "r"], "q": [0.5, 1.5, 0.5]}

    def env(m):
        return {"d": absv(m, dict((k, list(v)) for k, v in DATA.items())), "snap": snapfn()}
    for n, d1, d2 in (("value", {"v": "u"}, {"v": "u + 1"}), ("name", {"v": "u"}, {"t": "u"}), ("one", {}, {"v": "u"}), ("number", {"v": 1}, {"v": 2}), ("swapped", {"v": "u", "t": "n"}, {"v": "n", "t": "u"}), ("more", {"v": "u"}, {"v": "u", "t": "n"})):
        src = "a, b = Hist(bin('x', 2, 0, 2), defs=%r), Hist(bin('x', 2, 0, 2), defs=%r)\nreturn [a == b, b == a, a != b, b != a, a == a, b == b]" % (d1, d2)
        ck.ob("unused/" + n, "histograms compare by axes, options, attachment and content", src, env, lambda m, v, d1=d1, d2=d2: None if host(m, v) == [False, False, True, True, True, True] else "with definitions %s and %s: == both ways, != both ways, == to itself are %s" % (d1, d2, host(m, v)))
    for n, spec, code, eq, co in variants():
        src = "a, b = %s, %s\n%s\nreturn [a == b, b == a, a != b, b != a, a.compatible(b), b.compatible(a)]" % (hist(base["axes"], **base["opts"]), hist(spec["axes"], **spec["opts"]), code)
        ck.ob("hist/" + n, "histograms compare by axes, options, attachment and content", src, env, lambda m, v, n=n, eq=eq, co=co: None if host(m, v) == [eq, eq, not eq, not eq, co, co] else "%s: == both ways, != both ways, compatible both ways are %s" % (n, host(m, v)))
    H = hist(base["axes"], **base["opts"])
    for n, ca, cb, eq in (("both", "a.fill(**d)", "b.fill(**d)", True), ("twice", "a.fill(**d)", "b.fill(**d); b.fill(**d)", False), ("cleared", "a.fill(**d); a.clear()", "b.fill(**d); b.clear()", True), ("order", "a.fill(**d)", "b.fill(**dict((k, [e[2], e[0], e[1]]) for k, e in d.items()))", True), ("scaled", "a.fill(**d)", "b.fill(**d); b *= 2", False), ("scaled1", "a.fill(**d)", "b.fill(**d); b *= 1", True),
                          ("subset", "a.fill(**d)", "b.fill(**dict((k, [e[0], e[2]]) for k, e in d.items()))", False), ("superset", "a.fill(**dict((k, [e[1]]) for k, e in d.items()))", "b.fill(**d)", False), ("inner", "a.fill(**dict(d, c=['u', 'u', 'u']))", "b.fill(**dict((k, [e[0], e[2]]) for k, e in d.items()))", False), ("nothing", "a.fill(**dict((k, e[:0]) for k, e in d.items()))", "b.fill(**d)", False), ("fewer", "a.fill(**d)", "b.fill(**dict((k, e[:2]) for k, e in d.items()))", False), ("copy", "a.fill(**d); b = a.copy()", "pass", True), ("copy-fill", "a.fill(**d); b = a.copy()", "a.fill(**d)", False), ("group", "a.fill(**d)", "b.fill(**dict(d, c=['u', 'w', 'u']))", False), ("groupbin", "a.fill(**d)", "b.fill(**dict(d, g=[0.25, 1.25, 0.25]))", False), ("cell", "a.fill(**d)", "b.fill(**dict(d, x=[0.5, 0.5, 0.5]))", False),
                          ("profile", "a.fill(**d)", "b.fill(**dict(d, z=[2.0, 3.5, 4.0]))", False), ("weight", "a.fill(**d)", "b.fill(**dict(d, u=[1.0, 2.5, 0.5]))", False)):
        src = "a, b = %s, %s\n%s\n%s\nreturn [a == b, b == a, a != b, b != a, a == a, a != a]" % (H, H, ca, cb)
        ck.ob("content/" + n, "histograms compare by axes, options, attachment and content", src, env, lambda m, v, n=n, eq=eq: None if host(m, v) == [eq, eq, not eq, not eq, True, False] else "%s: == both ways, != both ways, a == a, a != a are %s" % (n, host(m, v)))
    # each cell matters
    for axes, w, keys in (([Bin("x", 2, 0, 2), Profile("y")], None, None), ([Bin("x", 1, 0, 2), Split("y", (0.0, 1.0))], "w", None), ([Intbin("x", 0, 1), Cut("y > 0")], None, None), ([Profile("y"), Profile("z")], "w", None), ([], None, None), ([], "w", None), ([Groupby("c"), Bin("x", 1, 0, 1, u=False, n=False)], None, ["a", "b"])):
        sh = shape(axes, w is not None)
        counter = itertools.count(1)
        cont = mapc(lambda q: float(next(counter)), content(axes, w is not None, None if keys is None else [keys]))
        total = next(counter) - 1
        for k in range(total + 1):
            cnt = itertools.count(1)
            other = mapc(lambda q: q + (0.5 if next(cnt) == k else 0), cont)

            def env2(m, cont=cont, other=other, axes=axes, w=w):
                return {"ja": absv(m, hjson(axes, cont, weight=w)), "jb": absv(m, hjson(axes, other, weight=w))}
            src = "a, b = Hist.fromjson(ja), Hist.fromjson(jb)\nreturn [a == b, b == a, a != b]"
            e = k == 0
            ck.ob("cell/%s/%s/%d" % (" ".join(short(a) for a in axes), w, k), "every statistic of every bin matters for equality", src, env2, lambda m, v, e=e, k=k: None if host(m, v) == [e, e, not e] else "with %s changed, == both ways and != are %s" % ("nothing" if k == 0 else "statistic %d" % k, host(m, v)))
    for other in ("None", "3", "'x'", "Book()", "bin('x', 4, 0, 4)"):
        ck.ob("histother/" + other, "a histogram is not equal to anything else", "a, o = %s, %s\nreturn [a == o, a != o]" % (H, other), lambda m: {}, lambda m, v, other=other: None if host(m, v) == [False, True] else "==, != with %s are %s" % (other, host(m, v)))
    # books
    A_, B_, C_ = "Hist(bin('x', 2, 0, 2))", "Hist(bin('y', 2, 0, 2), profile('z'), weight='w')", "Hist(bin('x', 3, 0, 2))"
    books = [("Book()", "", 0), ("Book({'a': %s})" % A_, "a:2", 1), ("Book(a=%s)" % A_, "a:2", 1), ("Book({'b': %s})" % A_, "b:2", 2), ("Book({'a': %s})" % B_, "a:2", 3), ("Book({'a': %s})" % C_, "a:3", 4), ("Book({'a': %s, 'b': %s})" % (A_, C_), "a:2,b:3", 5), ("Book({'a': %s}).attach('k', 1)" % A_, "a:2", 6), ("Book({'a': %s}).attach('k', 2)" % A_, "a:2", 7), ("Book({'a': %s}).attach('k', 1).detach('k')" % A_, "a:2", 1),
             ("Book({'a': %s.attach('k', 1)})" % A_, "a:2", 8), ("Book({'a': Book({'b': %s})})" % A_, "a:(b:2)", 9), ("Book({'a': Book({'b': %s})})" % B_, "a:(b:2)", 10), ("Book({'a': Book({'b': %s}).attach('k', 1)})" % A_, "a:(b:2)", 11), ("Book({'a': Book({'b': %s, 'c': %s})})" % (A_, C_), "a:(b:2,c:3)", 12), ("histbook.SamplesBook(['u'], {'a': %s})" % A_, "a:2", 13), ("Book({'a': %s, 'b': %s}).copy()" % (A_, C_), "a:2,b:3", 5),
             ("histbook.ChannelsBook({'a': Book({'b': %s})})" % A_, None, 14)]
    for i, (a, ca, ka) in enumerate(books):
        for j, (b, cb, kb) in enumerate(books):
            if "Samples" in a + b:
                ca_, cb_ = None, None
            else:
                ca_, cb_ = ca, cb
            co = ca_ is not None and cb_ is not None and "(" not in ca_ + cb_
            src = "a, b = %s, %s\nreturn [a == b, b == a, a != b, b != a%s]" % (a, b, ", a.compatible(b)" if co else "")
            e = ka == kb
            w = [e, e, not e, not e] + ([ca_ == cb_] if co else [])
            ck.ob("book/%d-%d" % (i, j), "books compare by type, names, order, members and attachment", src, lambda m: {}, lambda m, v, w=w, a=a, b=b: None if host(m, v) == w else "%s and %s: == both ways, != both ways, compatible are %s, expected %s" % (a, b, host(m, v), w))
    for n, code, eq in (("fill-one", "a.fill(x=[1.0], y=[0.5], z=[1.0], w=[2.0])", False), ("fill-both", "a.fill(x=[1.0], y=[0.5], z=[1.0], w=[2.0])\nb.fill(x=[1.0], y=[0.5], z=[1.0], w=[2.0])", True), ("set", "a['b'] = %s" % C_, False), ("replace-same", "a['a'] = %s" % A_, True), ("del", "del a['a']", False), ("member", "a['s/h'].fill(y=[0.5], z=[1.0], w=[1.0])", False), ("member-attach", "a['s/h'].attach('q', 1)", False)):
        src = "a, b = Book({'a': %s, 's': Book({'h': %s})}), Book({'a': %s, 's': Book({'h': %s})})\n%s\nreturn [a == b, b == a, a != b, a == a]" % (A_, B_, A_, B_, code)
        ck.ob("bookchange/" + n, "books compare by type, names, order, members and attachment", src, lambda m: {}, lambda m, v, n=n, eq=eq: None if host(m, v) == [eq, eq, not eq, True] else "after %s, == both ways, !=, a == a are %s" % (n, host(m, v)))
