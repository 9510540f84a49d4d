"""C09 reading a histogram or book never changes it."""
from ..spec import *
from ..values import sym
from .c07 import book, parts

LEVEL = "other"
EXPLAIN = ("write-effect analysis of every reading operation: the complete observable picture of the histogram (including whether it counts as filled, and equality with a twin) must be "
           "the same before and after, the operation must give the same answer twice, and a later fill must give what it gives without the read")
ASSUME = ["operations that are documented to return linked objects (attachment) are read without changing what they return"]

CONFIGS = [
    ("bin.prof", [Bin("x", 2, 0, 2), Profile("y")], None),
    ("split.cut.prof2", [Split("x", (0, 1, 2), o=False), Cut("x > 1"), Profile("y"), Profile("x")], None),
    ("groupby.bin", [Groupby("c"), Bin("x", 2, 0, 2)], [["a", "b"]]),
    ("groupby.groupbin.bin.prof", [Groupby("c"), Groupbin("x", 1.0), Bin("x", 2, 0, 2), Profile("y")], [["a", "b"], [0.0, 1.0]]),
    ("groupbin.cut", [Groupbin("x", 1.0), Cut("x > 1")], [[0.0, 1.0, "NaN"]]),
    ("prof", [Profile("y")], None),
    ("intbin", [Intbin("k", 0, 2)], None),
]


def zeroed(c):
    """The same bins and groups, every other innermost group without entries."""
    if not isinstance(c, dict):
        return mapc(lambda q: 0.0, c)
    if all(not isinstance(q, dict) for q in c.values()):
        return dict((n, mapc(lambda t: 0.0, q) if i % 2 == 0 else q) for i, (n, q) in enumerate(c.items()))
    return dict((n, zeroed(q)) for n, q in c.items())


def has(*kinds):
    return lambda axes: all(any(a["axis"] == k for a in axes) for k in kinds)


ANY = lambda axes: True
READ = [
    ("table", "h.table(recarray=False)", ANY), ("table-opts", "h.table(count=True, effcount=True, error=False, recarray=False)", ANY), ("table-prof", "h.table('y', recarray=False)", has("profile")), ("table-rec", "h.table()", ANY),
    ("table-prof-rec", "h.table('y', effcount=True)", has("profile")),
    ("table-columns", "h.table(columns=True, recarray=False)", ANY), ("table-normalized", "h.table(normalized=True, recarray=False)", lambda axes: not has("cut")(axes) and axes[0]["axis"] != "profile"), ("fraction", "h.fraction('x > 1', recarray=False)", has("cut")), ("fraction-columns", "h.fraction('x > 1', columns=True, recarray=False)", has("cut")),
    ("fields", "h.fields", ANY), ("axis", "[a.tojson() for a in h.axis]", ANY), ("axis-lookup", "h.axis[0].tojson()", ANY), ("axis-expr", "h.axis['x'].tojson()", has("bin")), ("shape", "h.shape", ANY), ("tojson", "h.tojson()", ANY), ("repr", "repr(h)", ANY), ("str", "str(h)", ANY),
    ("defs", "dict(h.defs)", ANY), ("attachment", "dict(h.attachment)", ANY), ("has", "(h.has('k'), h.has('z'), h.get('k'), h.get('z', 5))", ANY), ("get-missing", "missing(lambda: h.get('z'))", ANY), ("eq", "(h == g, h != g, h == e, h == 3)", ANY), ("compatible", "(h.compatible(g), g.compatible(h), h.compatible(e))", ANY),
    ("getitem", "h[0].tolist()", lambda axes: axes[0]["axis"] in FIXED), ("getitem-group", "h['a']", lambda axes: axes[0]["axis"] == "groupby"), ("groupkeys", "h.groupkeys('c')", has("groupby")), ("groupkeys-bin", "h.groupkeys('x')", lambda axes: axes[0]["axis"] == "groupbin"), ("groupkeys-bin2", "h.groupkeys(1)", has("groupby", "groupbin")),
    ("getitem-missing", "(missing(lambda: h['zz']), missing(lambda: h['zz', 'zz']), missing(lambda: h['zz', 0.0]), missing(lambda: h['a', 55.0]), missing(lambda: h[99]), missing(lambda: h[0, 99]))", lambda axes: axes[0]["axis"] in GROUP), ("getitem-all", "h[()]", ANY), ("getitem-two", "missing(lambda: h['b', 1.0])", has("groupby", "groupbin")),
    ("groupkeys-missing", "(missing(lambda: h.groupkeys('qq')), missing(lambda: h.groupkeys(7)))", ANY), ("axis-missing", "(missing(lambda: h.axis['qq']), missing(lambda: h.axis[99]))", ANY), ("contains", "len(h.axis)", ANY),
    ("keys", "[len(a.keys(h.tojson().get('content', {}))) for a in h.axis if isinstance(a, (bin, split, cut, intbin))]", ANY),
    ("add", "(h + g).tojson()", ANY), ("add2", "(g + h).tojson()", ANY), ("mul", "(h * 2).tojson()", ANY), ("rmul", "(2 * h).tojson()", ANY), ("copy", "h.copy().tojson()", ANY), ("copyonfill", "h.copyonfill().tojson()", ANY), ("cleared", "h.cleared().tojson()", ANY),
    ("weight", "h.weight('w').tojson()", ANY), ("filter", "h.filter('x > 1').tojson()", ANY), ("systematic", "h.systematic((1,)).tojson()", ANY),
    ("project", "h.project(0).tojson()", lambda axes: axes[0]["axis"] != "profile"), ("project0", "h.project().tojson()", ANY), ("drop", "h.drop('y').tojson()", has("profile")), ("select", "h.select('x < 1').tojson()", lambda axes: has("bin")(axes) and not has("groupbin")(axes)), ("select-group", "h.select('c == \"a\"').tojson()", has("groupby")),
    ("select-refused", "missing(lambda: h.select('q < 0.3'))", ANY), ("rebin", "h.rebin('x', [0, 2]).tojson()", lambda axes: has("bin")(axes) and not has("groupbin")(axes)), ("rebinby", "h.rebinby('x', 2).tojson()", lambda axes: has("bin")(axes) or has("groupbin")(axes)), ("rebinby-int", "h.rebinby('k', 2).tojson()", has("intbin")),
    ("rebin-refused", "missing(lambda: h.rebin('x', [0, 1.7]))", ANY), ("group", "Hist.group(by='src', p=h, q=g).tojson()", ANY), ("pickle", "pickle.loads(pickle.dumps(h)).tojson()", ANY), ("deepcopy", "copy.deepcopy(h).tojson()", ANY),
    ("iadd-right", "g.copy().__iadd__(h).tojson()", ANY), ("togroup-right", "Hist.group(by='src', p=g).togroup(q=h)", ANY), ("add-refused", "missing(lambda: h + 1)", ANY), ("rebuild", "Hist(*h.axis).tojson()", ANY),
    ("book", "Book({'a': h}).tojson()", ANY), ("book-fields", "Book({'a': h, 'b': g}).fields", ANY), ("book-copy", "Book({'a': h}).copy().tojson()", ANY), ("book-add", "(Book({'a': h}) + Book({'a': g})).tojson()", ANY),
]

BREAD = [("tojson", "h.tojson()"), ("keys", "(h.keys(), h.allkeys(), h.keys(onlyhist=True), list(h.iterkeys(recursive=True)))"), ("values", "[x.tojson() for x in h.allvalues()]"), ("items", "[(n, x.tojson()) for n, x in h.allitems(onlyhist=True)]"), ("iter", "[n for n, x in h]"), ("len", "len(h)"),
         ("getitem", "h['one'].tojson()"), ("getitem-path", "h['sub/three'].tojson()"), ("getitem-wild", "[x.tojson() for x in h['*']]"), ("missing", "missing(lambda: h['zzz'])"), ("missing-path", "missing(lambda: h['sub/zzz'])"), ("contains", "('one' in h, 'zzz' in h, 'sub/three' in h, 'zzz/y' in h)"),
         ("fields", "h.fields"), ("copy", "h.copy().tojson()"), ("cleared", "h.cleared().tojson()"), ("copyonfill", "h.copyonfill().tojson()"), ("add", "(h + g).tojson()"), ("radd", "(g + h).tojson()"), ("mul", "(h * 2).tojson()"), ("eq", "(h == g, h != g, h == 1)"), ("compatible", "h.compatible(g)"), ("assertcompatible", "missing(lambda: h.assertcompatible())"),
         ("group", "Book.group(by='src', p=h, q=g)['one'].tojson()"), ("str", "str(h)"), ("attachment", "dict(h.attachment)"), ("has", "(h.has('k'), h.get('k'), h.get('zz', 1))"), ("del-missing", "missing(lambda: h.__delitem__('zzz'))"), ("iadd-right", "g.copy().__iadd__(h).tojson()"), ("pickle", "pickle.loads(pickle.dumps(h)).tojson()"),
         ("set-refused", "missing(lambda: h.__setitem__('n', 5))"), ("set-refused2", "missing(lambda: h.__setitem__('one/n', g))"), ("add-refused", "missing(lambda: h + 1)")]


def run(ck):
    ck.anchor("Hist", "Hist.table", "Hist.fraction", "Hist.tojson", "Hist.fromjson", "Hist.fill", "Hist.groupkeys", "Book", "Book.tojson", "Book.keys")
    ys, ws = [sym("y%d" % i) for i in range(4)], [sym("w%d" % i) for i in range(4)]
    xs, cs = [0.5, 1.5, 0.5, 1.0], ["a", "b", "b", "z"]
    pre = ("def missing(f):\n    try:\n        f()\n    except Exception as err:\n        return type(err).__name__\n    return 'accepted'\n")
    for name, axes, keys in CONFIGS:
        for weight in (None, "w"):
            for state in ("filled", "unfilled", "cleared", "odd", "zero"):
                if state in ("cleared", "zero") and weight and not ck.thorough:
                    continue

                def env(m, axes=axes, keys=keys, weight=weight, state=state):
                    opts = dict(weight=weight, attachment={"k": "v"}, defs={"r": "x + 1"})
                    j = hjson(axes, None if state == "unfilled" else zeroed(content(axes, weight is not None, keys)) if state == "zero" else content(axes, weight is not None, keys, odd=state == "odd"), **opts)
                    return {"jh": absv(m, j), "jg": absv(m, hjson(axes, content(axes, weight is not None, keys, "t"), **opts)), "je": absv(m, hjson([Bin("q", 3, 0, 1)])), "snap": snapfn(),
                            "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs), "k": arr(m, [0, 1, 2, 5])}
                mk = "h, g, e, twin = Hist.fromjson(jh), Hist.fromjson(jg), Hist.fromjson(je), Hist.fromjson(jh)\n%s" % ("h.clear()\ntwin.clear()\n" if state == "cleared" else "")
                for rn, rsrc, ok in READ:
                    if not ok(axes):
                        continue
                    if rn in ("systematic",):
                        pass
                    key = "%s/%s/%s/%s" % (name, weight, state, rn)
                    if state != "filled" and rn == "getitem-group":
                        rsrc = "missing(lambda: h['a'])"
                    if name == "prof" and rn == "getitem":
                        continue
                    src = pre + mk + "b = snap((h.tojson(), h.attachment, h.defs, h.shape))\nr1 = snap(%s)\nq = snap((h.tojson(), h.attachment, h.defs, h.shape))\nsame = h == twin\nr2 = snap(%s)\nh.fill(x=x, y=y, w=w, c=c, k=k)\ntwin.fill(x=x, y=y, w=w, c=c, k=k)\nreturn b, q, same, r1, r2, snap(h.tojson()), snap(twin.tojson())" % (rsrc, rsrc)

                    def judge(m, v, rn=rn):
                        b, q, same_, r1, r2, f1, f2 = v
                        d = diff(q.v, b.v, "histogram after %s" % rn)
                        if d:
                            return d
                        if not m.truth(same_):
                            return "after %s the histogram is no longer equal to an identical one" % rn
                        return diff(r2.v, r1.v, "second result of %s" % rn) or diff(f1.v, f2.v, "histogram filled after %s, compared with one that was not read," % rn)
                    ck.ob(key, "reads change nothing and repeat", src, env, judge)
    pa, pb = parts("s", ["a", "b"]), parts("t", ["b", "d"])
    for state in ("filled", "unfilled"):
        def env(m, state=state):
            return {"jh": absv(m, book(pa, "h", filled=state == "filled")), "jg": absv(m, book(pb, "o")), "snap": snapfn(), "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs)}
        for rn, rsrc in BREAD:
            src = pre + "h, g, twin = Book.fromjson(jh), Book.fromjson(jg), Book.fromjson(jh)\nb = snap((h.tojson(), h.attachment, h.allkeys()))\nr1 = snap(%s)\nq = snap((h.tojson(), h.attachment, h.allkeys()))\nsame = h == twin\nr2 = snap(%s)\nh.fill(x=x, y=y, w=w, c=c)\ntwin.fill(x=x, y=y, w=w, c=c)\nreturn b, q, same, r1, r2, snap(h.tojson()), snap(twin.tojson())" % (rsrc, rsrc)

            def judge(m, v, rn=rn):
                b, q, same_, r1, r2, f1, f2 = v
                d = diff(q.v, b.v, "book after %s" % rn)
                if d:
                    return d
                if not m.truth(same_):
                    return "after %s the book is no longer equal to an identical one" % rn
                return diff(r2.v, r1.v, "second result of %s" % rn) or diff(f1.v, f2.v, "book filled after %s, compared with one that was not read," % rn)
            ck.ob("book/%s/%s" % (state, rn), "reads change nothing and repeat", src, env, judge)
