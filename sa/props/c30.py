"""C30 axes, bins and groups are found under the names that the histogram gives them."""
import itertools
from ..spec import *

LEVEL = "other"
EXPLAIN = ("abstract interpretation of every way to look something up in a histogram (axis by position, by expression, by class and parameters; bins by position and group; group keys by axis) over a family of histograms whose bin contents are symbols: "
           "what is found must be the axis, the symbols or the keys that the histogram's own JSON describes under that name, and names that it does not have must be refused")
ASSUME = ["expressions are the same axis if they are equal after the reordering that addition, multiplication and comparison allow (the family lists such pairs)", "slices of the axis sequence are outside the claim"]

AX = [Groupby("c"), Groupbin("g", 2.0), Bin("x", 3, 0.0, 3.0), Split("x + y", (0.0, 1.0, 2.5)), Intbin("n", 0, 2, u=False), Cut("x > 0"), Profile("p"), Profile("2*q - 1")]
SAME = {"c": ["c"], "g": ["g", "(g)"], "x": ["x", "(x)", "((x))"], "x + y": ["x + y", "y + x", "x+y", "(x + y)", "y+(x)"], "n": ["n"], "x > 0": ["x > 0", "0 < x", "x>0", "not x <= 0"], "p": ["p"], "2*q - 1": ["2*q - 1", "q*2 - 1", "-1 + 2*q", "2*q-1", "q + q - 1"],
        "x*y": ["x*y", "y*x"], "x - y": ["x - y", "-y + x"]}
OTHER = ["z", "x - y", "x + 2*y", "x*y", "x < 0", "x > 1", "x >= 0", "q", "2*q + 1", "2*p - 1", "3", "-x"]


def rank(a):
    return 0 if a["axis"] in GROUP else 1 if a["axis"] in FIXED else 2


def ordered(axes):
    return sorted(axes, key=rank)


FAMILY = [("all", AX), ("reversed", AX[::-1]), ("fixed", AX[2:6]), ("profiles", AX[6:]), ("groups", AX[:2]), ("profile first", [AX[6], AX[2], AX[0]]), ("mixed", [AX[7], AX[5], AX[1], AX[3], AX[0], AX[2]]),
          ("same expression", [Bin("x", 2, 0.0, 1.0), Split("x", (0.0, 1.0)), Bin("x", 4, 0.0, 1.0, u=False), Intbin("x", 0, 1), Groupbin("x", 2.0), Groupbin("x", 3.0), Groupby("x"), Profile("x"), Bin("x", 4, 0.0, 1.0)]),
          ("same cut", [Cut("x > 0"), Cut("0 < x"), Bin("x", 1, 0.0, 1.0)]), ("same profile", [Profile("x*y"), Bin("x*y", 2, 0.0, 1.0), Profile("y*x"), Groupbin("x - y", 1.0)])]


def norm(e):
    for k, v in SAME.items():
        if e in v:
            return k
    return e


def keyof(ax):
    return dict((k, tuple(v) if isinstance(v, (list, tuple)) else v) for k, v in ax.items())


def run(ck):
    ck.anchor("Hist", "Hist.axis", "Hist.groupkeys", "Hist.shape", "Hist.fromjson", "bin", "split", "intbin", "cut", "groupby", "groupbin", "profile")

    def same(got, ax, what):
        if not isinstance(got, dict) or keyof(got) != keyof(ax):
            return "%s is %s instead of %s" % (what, got, ax)

    opts = [("", {}), ("weight", {"weight": "w"}), ("filter", {"filter": "x > 1"}), ("attachment", {"attachment": {"k": 1}})]
    for name, axes in FAMILY:
        od = ordered(axes)
        for on, o in opts:
            hs = hist(axes, **o)
            for how, pre in (("", "h = %s" % hs), ("json", "h = Hist.fromjson(%s.tojson())" % hs), ("copy", "h = %s.copyonfill()" % hs), ("pickle", "h = pickle.loads(pickle.dumps(%s))" % hs)):
                if on and how and not ck.thorough:
                    continue
                src = pre + "\nA = h.axis\nreturn [len(A), [a.tojson() for a in A], [A[i].tojson() for i in range(len(A))], [A[i - len(A)].tojson() for i in range(len(A))], [a.tojson() for a in h.axis], [A[numpy.int64(i)].tojson() for i in range(len(A))]]"

                def judge(m, v, od=od, hs=hs):
                    r = host(m, v)
                    if r[0] != len(od):
                        return "%s has %s axes" % (hs, r[0])
                    for what, l in zip(("iterated", "by position", "by position from the end", "again", "by numpy position"), r[1:]):
                        for i, (g, a) in enumerate(zip(l, od)):
                            d = same(g, a, "axis %d of %s, %s," % (i, hs, what))
                            if d:
                                return d
                        if len(l) != len(od):
                            return "%s: %d axes %s" % (hs, len(l), what)
                ck.ob("position/%s/%s/%s" % (name, on, how), "the axes are groups, then bins, then profiles, in the order given", src, {}, judge, orders=(0, 1) if not on else (0,))
                exprs = sorted(set(itertools.chain(*[SAME[a["expr"]] for a in axes if a["expr"] in SAME])))
                src = pre + "\nA = h.axis\nreturn [A[e].tojson() for e in es]"

                def judgee(m, v, od=od, hs=hs, exprs=exprs):
                    for e, g in zip(exprs, host(m, v)):
                        want = [a for a in od if norm(a["expr"]) == norm(e)][0]
                        d = same(g, want, "axis %r of %s" % (e, hs))
                        if d:
                            return d
                ck.ob("expression/%s/%s/%s" % (name, on, how), "an axis is found by its expression", src, {"es": tuple(exprs)}, judgee, orders=(0, 1) if not on else (0,))
                missing = [e for e in OTHER if all(norm(a["expr"]) != norm(e) for a in axes)]
                src = pre + "\nA = h.axis\nout = []\nfor e in es:\n    try:\n        out.append((e, A[e].tojson()))\n    except Exception:\n        pass\nfor e in (%d, %d):\n    try:\n        out.append((e, A[e].tojson()))\n    except IndexError:\n        pass\nreturn out" % (len(axes), -len(axes) - 1)
                ck.ob("missing/%s/%s/%s" % (name, on, how), "expressions of no axis are refused", src, {"es": tuple(missing)}, lambda m, v, hs=hs: None if host(m, v) == [] else "%s: axes found although there are none: %s" % (hs, host(m, v)))
        # by class and parameters
        classes = ("groupby", "groupbin", "bin", "intbin", "split", "cut", "profile")
        for cls in classes:
            queries = []
            for e in sorted(set(itertools.chain(["z"], *[SAME.get(a["expr"], [a["expr"]]) for a in axes]))):
                queries.append((e, {}))
                for a in axes:
                    if norm(a["expr"]) != norm(e):
                        continue
                    for p, val in sorted(a.items()):
                        if p in ("axis", "expr") or a["axis"] != cls:
                            continue
                        if p != "edges":
                            queries.append((e, {p: val}))
                            queries.append((e, {p: (not val) if isinstance(val, bool) else val + 7}))
                        else:
                            queries.append((e, {p: tuple(float(q) for q in val)}))
                    if a["axis"] == cls and cls != "split":
                        queries.append((e, dict((p, val) for p, val in a.items() if p not in ("axis", "expr"))))
                    queries.append((e, {"nosuchparameter": 1}))
            uniq = []
            for q in queries:
                if q not in uniq:
                    uniq.append(q)
            if len(uniq) > 40 and not ck.thorough:
                uniq = uniq[:40]
            src = "h = %s\nA = h.axis\nout = []\n" % hist(axes)
            for e, kw in uniq:
                src += "try:\n    out.append(A.%s(%r%s).tojson())\nexcept IndexError:\n    out.append(None)\n" % (cls, e, "".join(", %s=%r" % i for i in sorted(kw.items())))
            src += "return out"

            def judgec(m, v, uniq=uniq, cls=cls, od=od, axes=axes):
                for (e, kw), g in zip(uniq, host(m, v)):
                    fit = [a for a in od if a["axis"] == cls and norm(a["expr"]) == norm(e) and all(p in a and (tuple(a[p]) if p == "edges" else a[p]) == val for p, val in kw.items())]
                    if "edges" in kw and g is not None and not fit:
                        return "%s: axis.%s(%r, %s) finds %s" % (hist(axes), cls, e, kw, g)
                    if "edges" in kw:
                        continue        # the published edges may be a tuple or an array
                    if not fit:
                        if g is not None:
                            return "%s: axis.%s(%r, %s) finds %s although there is no such axis" % (hist(axes), cls, e, kw, g)
                    else:
                        d = same(g, fit[0], "axis.%s(%r, %s) of %s" % (cls, e, kw, hist(axes)))
                        if d:
                            return d
            ck.ob("class/%s/%s" % (name, cls), "an axis is found by class, expression and parameters", src, {}, judgec)
    # definitions
    for e, want in (("d", True), ("x + y", True), ("y + x", True), ("d + d - d", True), ("x", False), ("y", False), ("2*d", False)):
        src = "h = Hist(groupby('c'), bin('d', 2, 0, 1), profile('z'), defs={'d': 'x + y'})\nreturn h.axis[%r].tojson()" % e

        def judged(m, v, e=e, want=want):
            return same(host(m, v), Bin("d", 2, 0.0, 1.0), "axis %r where d is x + y" % e) if want else "axis %r found: %s" % (e, host(m, v))
        ck.ob("defined/%s" % e, "names stand for their definitions in the lookup", src, {}, judged, onraise=(lambda m, x: None) if not want else None)

    # bins and group keys
    CON = [("bin", [Bin("x", 2, 0.0, 2.0)], []), ("bin.split", [Bin("x", 2, 0.0, 2.0, u=False), Split("y", (0.0, 1.0), n=False)], []), ("groupby", [Groupby("c")], [["a", "b"]]), ("groupby.bin", [Groupby("c"), Bin("x", 2, 0.0, 2.0)], [["a", "b"]]), ("bin.groupby", [Bin("x", 2, 0.0, 2.0), Groupby("c")], [["a", "b"]]),
           ("groupbin.cut", [Groupbin("g", 2.0), Cut("x > 0")], [[-2.0, 4.0, "NaN"]]), ("groupby.groupbin.intbin", [Groupby("c"), Groupbin("g", 2.0), Intbin("n", 0, 1)], [["a", "b"], [0.0, 6.0, "NaN"]]), ("groupbin.groupby", [Groupbin("g", 1.0, 0.5), Groupby("c")], [[0.5, -3.5], ["u", "v", "w"]]),
           ("groupby3", [Groupby("c"), Groupby("d"), Groupby("f"), Bin("x", 1, 0.0, 1.0)], [["a", "b"], ["a", "u"], ["v"]]), ("none", [], [])]
    for name, axes, keys in CON:
        for nprof, wt in ((0, None), (1, None), (2, "w"), (0, "w")):
            full = axes + [Profile("p%d" % i) for i in range(nprof)]
            cont = content(full, wt is not None, keys)
            if name in ("groupby.groupbin.intbin", "groupbin.groupby", "groupby3"):       # different groups in different branches
                first = sorted(cont, key=str)[0]
                cont[first] = dict((k, x) for k, x in list(cont[first].items())[:1])
            j = hjson(full, cont, weight=wt)
            groups = [a for a in axes if a["axis"] in GROUP]
            fixed = [a for a in axes if a["axis"] in FIXED]

            def paths(c, at=()):
                yield at, c
                if isinstance(c, dict):
                    for k, x in c.items():
                        for r in paths(x, at + (k,)):
                            yield r
                elif isinstance(c, list):
                    for i, x in enumerate(c):
                        for r in paths(x, at + (i,)):
                            yield r
                        if i == 0 and not at:
                            yield at + (-1,), c[-1]
            items = [(p, c) for p, c in paths(cont) if p]
            src = "h = Hist.fromjson(j)\nout = []\nfor p in ps:\n    out.append(h[p])\nfor p in ps:\n    if len(p) == 1:\n        out.append(h[p[0]])\nreturn snap(out)"

            def judgei(m, v, items=items, name=name):
                got = v.v
                want = [c for p, c in items] + [c for p, c in items if len(p) == 1]
                at = [p for p, c in items] + [p for p, c in items if len(p) == 1]
                for p, g, w in zip(at, got, want):
                    d = diff(g, w, "content of %s at %r" % (name, p))
                    if d:
                        return d
                if len(got) != len(want):
                    return "%d contents instead of %d" % (len(got), len(want))
            ck.ob("bins/%s/%d/%s" % (name, nprof, wt), "a bin's statistics are found under its position and groups", src, lambda m, j=j, items=items: {"j": absv(m, j), "ps": absv(m, [p for p, c in items]), "snap": snapfn()}, judgei)
            sh = tuple(totbins(a) for a in fixed) + (2 * nprof + (2 if wt else 1),)
            ck.ob("shape/%s/%d/%s" % (name, nprof, wt), "the shape counts the bins of each axis", "return [tuple(%s.shape), tuple(Hist.fromjson(j).shape)]" % hist(full, weight=wt), lambda m, j=j: {"j": absv(m, j)}, lambda m, v, sh=sh: None if host(m, v) == [sh, sh] else "shapes %s instead of %s" % (host(m, v), sh))
            for gi, ga in enumerate(groups):
                def collect(c, d):
                    if d == 0:
                        return set(c)
                    return set().union(*[collect(x, d - 1) for x in c.values()])
                want = collect(cont, gi)
                for an, a in (("expr", repr(ga["expr"])), ("index", str(gi)), ("from the end", str(gi - len(full))), ("axis", "h.axis[%d]" % gi), ("a new axis", ctor(ga)), ("class", "h.axis.%s(%r)" % (ga["axis"], ga["expr"]))):
                    src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nk = h.groupkeys(%s)\nreturn snap(sorted([str(x) for x in k])), isinstance(k, set), b, snap(h.tojson())" % a

                    def judgek(m, v, want=want, name=name, an=an):
                        ks, isset, b, a2 = v[0].v, v[1], v[2].v, v[3].v
                        if ks != sorted(str(k) for k in want) or not isset:
                            return "group keys of %s are %s instead of %s" % (name, ks, sorted(want, key=str))
                        return diff(a2, b, "the histogram after listing its group keys")
                    ck.ob("groupkeys/%s/%d/%s/%d/%s" % (name, nprof, wt, gi, an), "groupkeys are the groups of that axis in all branches", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judgek)
            bad = [repr(a["expr"]) for a in fixed] + ["'nosuch'", "bin('nosuch', 1, 0, 1)", "groupby('nosuch')", str(len(full)), "groupbin('g', 17)"] + ["h.axis[%d]" % i for i in range(len(groups), len(full))]
            src = "h = Hist.fromjson(j)\nout = []\n" + "".join("try:\n    out.append((%r, sorted([str(x) for x in h.groupkeys(%s)])))\nexcept Exception:\n    pass\n" % (b, b) for b in bad) + "return out"
            ck.ob("nogroup/%s/%d/%s" % (name, nprof, wt), "axes without groups have no group keys", src, lambda m, j=j: {"j": absv(m, j)}, lambda m, v, name=name: None if host(m, v) == [] else "%s: group keys of axes that have none: %s" % (name, host(m, v)))
    for hs in ("Hist(bin('x', 2, 0, 2), weight='w')", "Hist(groupby('c'), bin('x', 1, 0, 1), profile('y'))", "Hist(groupbin('g', 1), groupby('c'))"):
        grouped = "group" in hs
        src = "h = %s\nreturn %s" % (hs, "[sorted([str(x) for x in h.groupkeys(0)])]" if grouped else "[[q.tolist() for q in (h[i] for i in range(5))]]")
        ck.ob("unfilled/" + hs, "an unfilled histogram has empty bins and no groups", src, {}, lambda m, v, grouped=grouped: None if host(m, v) == [[] if grouped else [[0.0, 0.0]] * 5] else "found %s" % host(m, v))
    # methods that work on one kind of axis find it among axes of the same expression
    X = {"gb": Groupby("x"), "gn": Groupbin("x", 2.0), "b": Bin("x", 4, 0.0, 4.0), "s": Split("x", (0.0, 1.0, 2.0)), "i": Intbin("x", 0, 3), "p": Profile("x"), "q": Profile("y")}
    for combo in (("gb", "b", "p"), ("gb", "s", "p"), ("p", "b", "gb"), ("b", "p"), ("s", "q", "p"), ("i", "p"), ("gb", "i", "p"), ("gn", "p", "q"), ("gb", "gn", "p"), ("b", "q", "p", "gb")):
        axes = ordered([X[c] for c in combo])
        keys = [["a", "e"] if a["axis"] == "groupby" else [0.0, 2.0] for a in axes if a["axis"] in GROUP]
        nm = ".".join(combo)
        cont = content(axes, True, keys)
        at = [i for i, c in enumerate(axes) if c is X["p"]][0]
        env = lambda m, axes=axes, cont=cont: {"j": absv(m, hjson(axes, cont, weight="w")), "snap": snapfn()}
        uses = [("table", "snap([h.table('x').dtype.names if hasattr(h.table('x'), 'dtype') else 0, h.table('x', columns=True)[1]])", "snap([h.table(h.axis[%d]).dtype.names if hasattr(h.table(h.axis[%d]), 'dtype') else 0, h.table(h.axis[%d], columns=True)[1]])" % (at, at, at)),
                ("rows", "snap(h.table('x', recarray=False))", "snap(h.table(h.axis[%d], recarray=False))" % at), ("drop", "snap(h.drop('x').tojson())", "snap(h.drop(h.axis[%d]).tojson())" % at)]
        if "b" in combo or "s" in combo or "i" in combo:
            f = [i for i, c in enumerate(axes) if c["axis"] in FIXED][0]
            ed = {"bin": "[0, 2, 4]", "split": "[0, 2]", "intbin": "[-0.5, 1.5, 3.5]"}[axes[f]["axis"]]
            uses.append(("rebin", "snap(h.rebin('x', %s).tojson())" % ed, "snap(h.rebin(h.axis[%d], %s).tojson())" % (f, ed)))
            if axes[f]["axis"] != "split":
                uses.append(("rebinby", "snap(h.rebinby('x', 2).tojson())", "snap(h.rebinby(h.axis[%d], 2).tojson())" % f))
        elif "gn" in combo:
            f = [i for i, c in enumerate(axes) if c["axis"] == "groupbin"][0]
            uses.append(("rebinby", "snap(h.rebinby('x', 2).tojson())", "snap(h.rebinby(h.axis[%d], 2).tojson())" % f))
        for un, a, b in uses:
            ck.ob("kind/%s/%s" % (nm, un), "methods find the kind of axis that they work on", "h = Hist.fromjson(j)\nreturn %s, %s" % (a, b), env, lambda m, v, un=un, nm=nm: diff(v[0].v, v[1].v, "%s of 'x' of %s and of its axis" % (un, nm)))
    for combo in ([Cut("x > 1"), Groupby("x > 1"), Bin("x", 2, 0.0, 2.0)], [Groupby("x > 1"), Bin("v", 1, 0.0, 2.0), Cut("x > 1")], [Profile("x > 1"), Cut("x > 1")], [Bin("k", 2, 0.0, 2.0), Cut("k")], [Groupby("k"), Intbin("k", 0, 1), Cut("k"), Profile("k")]):
        axes = ordered(combo)
        keys = [["a", "e"] for a in axes if a["axis"] in GROUP]
        at = [i for i, c in enumerate(axes) if c["axis"] == "cut"][0]
        cont = content(axes, False, keys)
        src = "h = Hist.fromjson(j)\nreturn snap(h.fraction(%r, recarray=False)), snap(h.fraction(h.axis[%d], recarray=False)), snap(h.fraction(%r, columns=True)[1])" % (axes[at]["expr"], at, axes[at]["expr"])
        ck.ob("kind/fraction/%s" % "-".join(short(a) for a in combo), "methods find the kind of axis that they work on", src, lambda m, axes=axes, cont=cont: {"j": absv(m, hjson(axes, cont)), "snap": snapfn()}, lambda m, v: diff(v[0].v, v[1].v, "fraction by expression and by axis"))
