"""C16 derived histograms keep the weight, filter, definitions and attachments of their source."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("dataflow analysis of the histogram options: for every combination of weight, filter, definitions and attachment and every operation that derives a histogram, the options published by the result must be those of the "
           "source (or the replaced one), and the result, emptied and filled with symbolic data, must have the same terms in every cell as a histogram constructed directly with these options")
ASSUME = ["Hist.group starts without filter and attachment, and with weight 1 if the weights of its histograms differ", "a sum has the options of its left operand"]

AX = [Groupby("c"), Groupbin("q", 0.5), Bin("x", 4, 0, 4), Split("z", (0, 1, 2)), Intbin("n", 0, 3), Cut("x > 1"), Profile("y"), Profile("q")]
DEFS = {"q": "x + y", "f2": "n * 2", "ww": "w * 2"}

WEIGHTS = [None, "w", "ww", 2, 0.5, "w*x"]
FILTERS = [None, "n > 0", "f2 > 2", "x > 0 and y < 2"]
ATTACH = [None, {"k": 1, "l": [1, 2]}, {"systematic": [1.5]}]


def rebinned(axes, i, new):
    return axes[:i] + [new] + axes[i + 1:]


# (name, source of the derived histogram, expected axes, filled)
SPL = lambda e, a: dict(axis="split", expr=a["expr"], edges=tuple(map(float, e)), underflow=a["underflow"], overflow=a["overflow"], nanflow=a.get("nanflow", False), closedlow=a.get("closedlow", True))
OPS = [
    ("copy", "h.copy()", AX), ("copyonfill", "h.copyonfill()", AX), ("cleared", "h.cleared()", AX), ("add", "h + h.copy()", AX), ("add0", "h + h.cleared()", AX), ("mul", "h * 2", AX), ("rmul", "2 * h", AX),
    ("project", "h.project('x', 'c')", [AX[0], AX[2], AX[6], AX[7]]), ("projectg", "h.project('q')", [AX[1], AX[6], AX[7]]), ("project0", "h.project()", AX[6:]), ("drop", "h.drop('y')", AX[:6] + AX[7:]), ("drop2", "h.drop('y', profile('q'))", AX[:6]),
    ("select-bin", "h.select('x < 2')", rebinned(AX, 2, Bin("x", 2, 0, 2, o=False, n=False))), ("select-split", "h.select('z >= 1')", rebinned(AX, 3, Split("z", (1, 2), u=False, n=False))), ("select-int", "h.select('n > 1')", rebinned(AX, 4, Intbin("n", 2, 3, u=False))),
    ("select-cut", "h.select('x > 1')", None), ("select-by", "h.select(\"c == 'a'\")", AX), ("select-groupbin", "h.select('q < 1')", AX), ("select-and", "h.select(\"c == 'a' and x >= 2\")", rebinned(AX, 2, Bin("x", 2, 2, 4, u=False, n=False))),
    ("rebin", "h.rebin('x', [0, 2, 4])", rebinned(AX, 2, SPL((0, 2, 4), AX[2]))), ("rebin-int", "h.rebin('n', [-0.5, 3.5])", rebinned(AX, 4, SPL((-0.5, 3.5), AX[4]))), ("rebinby", "h.rebinby('z', 2)", rebinned(AX, 3, SPL((0, 2), AX[3]))), ("rebinby-group", "h.rebinby(groupbin('q', 0.5), 2)", rebinned(AX, 1, Groupbin("q", 1.0))),
    ("iadd", "h.__iadd__(h.copy())", AX), ("imul", "h.__imul__(3)", AX), ("json", "Hist.fromjson(h.tojson())", AX), ("pickle", "pickle.loads(pickle.dumps(h))", AX),
]


def run(ck):
    ck.anchor("Hist", "Hist.copy", "Hist.weight", "Hist.filter", "Hist.systematic", "Hist.project", "Hist.select", "Hist.rebin", "Hist.rebinby", "Hist.drop", "Hist.group", "Hist.tojson")
    N = 4

    def env(m):
        return {"c": arr(m, ["a", "b", "a", "a"]), "x": arr(m, [0.5, 3.5, 1.25, -1.0]), "y": arr(m, [0.25, 3.0, 0.0, 0.125]), "z": arr(m, [0.5, 1.0, NAN, 9.0]), "n": arr(m, [0, 1, 2, 3]), "w": arr(m, [sym("w%d" % i) for i in range(N)]), "snap": snapfn()}
    D = "c=c, x=x, y=y, z=z, n=n, w=w"

    def opts(w, f, d, a):
        o = {"weight": w, "filter": f, "defs": d, "attachment": a}
        return ", ".join("%s=%r" % (k, v) for k, v in o.items() if v is not None)

    def picture(w, f, d, a):
        return {"weight": w, "filter": f, "defs": d, "attachment": a}

    def check(what, g, want):
        for k, v in want.items():
            e = diff(g.get(k), v, "%s of %s" % (k, what))
            if e:
                return e

    def options():
        for w in WEIGHTS:
            for f in FILTERS:
                for a in ATTACH:
                    d = DEFS
                    yield w, f, d, a
    for w, f, d, a in options():
        if not ck.thorough and w != "ww" and a != ATTACH[1]:
            continue
        deep = ck.thorough or ((w, f) in (("ww", "f2 > 2"), ("ww", None), (0.5, "f2 > 2"), (None, None)) and a == ATTACH[1])
        key0 = "%s/%s/%s/%s" % (w, f, "defs" if d else "", sorted(a) if a else "")
        src0 = "h = Hist(%s%s)\n%s" % ("".join(ctor(x) + ", " for x in AX), opts(w, f, d, a), "h.fill(%s)\n" % D if deep else "")
        for name, deriv, axes in OPS:
            for filled in (True, False):
                if not filled and not (deep and (w, f) == ("ww", None)):
                    continue
                src = src0.replace("h.fill(%s)\n" % D, "" if not filled else "h.fill(%s)\n" % D) + "r = %s\np = snap(r.tojson())\nf = sorted(r.fields)\n" % deriv
                if axes is not None and deep:
                    src += "r.clear()\nr.fill(%s)\ng = Hist(%s%s)\nff = sorted(g.fields)\ng.fill(%s)\nreturn p, snap(f), snap(ff), snap(r.tojson()), snap(g.tojson())" % (D, "".join(ctor(x) + ", " for x in axes), opts(w, f, d, a), D)
                else:
                    src += "return (p,)"

                def judge(m, v, name=name, w=w, f=f, d=d, a=a):
                    want = picture(w, f, d, a)
                    e = check("the result of " + name, v[0].v, want)
                    if e or len(v) == 1:
                        return e
                    return diff(v[1].v, v[2].v, "fields of " + name) or cdiff(v[3].v["content"], v[4].v["content"], "content after emptying and filling the result of " + name) or check("the emptied result of " + name, v[3].v, want)
                ck.ob("keep/%s/%s/%s" % (name, key0, "f" if filled else "u"), "options are kept", src, env, judge)
        for name, call, change in (("weight", "h.weight('n')", {"weight": "n"}), ("weight-num", "h.weight(3)", {"weight": 3}), ("weight-none", "h.weight(None)", {"weight": None}), ("filter", "h.filter('x < 2')", {"filter": "x < 2"}), ("filter-def", "h.filter('f2 < 3')", {"filter": "f2 < 3"}), ("filter-none", "h.filter(None)", {"filter": None}),
                                   ("systematic", "h.systematic((1.0, 2.0))", {"attachment": dict(a or {}, systematic=(1.0, 2.0))}), ("attach", "h.copy().attach('new', 7)", {"attachment": dict(a or {}, new=7)}), ("detach", "h.copy().attach('new', 7).attach('k', 5).detach('new')", {"attachment": dict(a or {}, k=5)})):
            if name == "systematic" and a and "systematic" in a or name == "filter-def" and not d:
                continue
            p = dict(picture(w, f, d, a), **change)
            if not deep:
                src = src0 + "r = %s\nreturn snap(r.tojson()), snap(h.tojson())" % call
                ck.ob("set/%s/%s" % (name, key0), "one option is replaced, the others are kept", src, env, lambda m, v, name=name, p=p, w=w, f=f, d=d, a=a: check("the result of " + name, v[0].v, p) or check("the source of " + name, v[1].v, picture(w, f, d, a)))
                continue
            src = src0 + "r = %s\np = snap(r.tojson())\nq = snap(h.tojson())\nr.clear()\nr.fill(%s)\ng = Hist(%s%s)\ng.fill(%s)\nreturn p, q, snap(r.tojson()), snap(g.tojson())" % (call, D, "".join(ctor(x) + ", " for x in AX), opts(p["weight"], p["filter"], p["defs"], p["attachment"]), D)

            def judge(m, v, name=name, p=p, w=w, f=f, d=d, a=a):
                return check("the result of " + name, v[0].v, p) or check("the source of " + name, v[1].v, picture(w, f, d, a)) or cdiff(v[2].v["content"], v[3].v["content"], "content of the result of %s after filling" % name) or diff(v[2].v["axis"], v[3].v["axis"], "axes of the result of " + name) or (
                    None if name in ("attach", "detach") or v[0].v.get("content") is None else "the result of %s is already filled" % name)
            ck.ob("set/%s/%s" % (name, key0), "one option is replaced, the others are kept", src, env, judge)
    # systematic as a constructor option
    for a in (None, {"k": 1}):
        src = "h = Hist(bin('x', 2, 0, 2), systematic=(1, 2)%s)\nreturn snap(h.tojson()), h.has('systematic'), h.get('systematic'), h.get('nope', 5), h.has('nope'), snap(h.attachment)" % (", attachment=%r" % a if a else "")
        want = dict(a or {}, systematic=(1, 2))
        ck.ob("systematic/%s" % bool(a), "systematic is part of the attachment", src, env, lambda m, v, want=want: diff(v[0].v["attachment"], want, "attachment") or (None if (v[1], v[2], v[3], v[4]) == (True, (1, 2), 5, False) else "has/get give %r" % (v[1:5],)) or diff(v[5].v, want, "attachment"))
    # group
    for w1, w2, want in (("w", "w", "w"), ("w", "n", 1.0), ("w", 2, 1.0), (2, 2, 2), (None, None, None)):
        for d1, d2 in ((None, None), ({"q": "x + y"}, None), ({"q": "x + y"}, {"r": "x * y"}), (None, {"q": "x + y"}), ({"q": "x + y", "r": "x * y"}, {"r": "x * y"}), ({"r": "x * y"}, {"q": "x + y", "r": "x * y"})):
            for f in (None, "n > 0"):
                if f and w1 is None:
                    continue
                src = "a = Hist(bin('x', 2, 0, 2), %s)\nb = Hist(bin('x', 2, 0, 2), %s)\nr = Hist.group(by='src', a=a, b=b)\nreturn snap(r.tojson())" % (opts(w1, f, d1, {"k": 1}), opts(w2, f, d2, {"k": 2}))
                defs = dict(d1 or {}, **(d2 or {})) or None
                ck.ob("group/%s/%s/%s-%s/%s" % (w1, w2, "".join(sorted(d1 or ())), "".join(sorted(d2 or ())), f), "options of a group", src, env, lambda m, v, want=want, defs=defs: diff(v.v.get("weight"), want, "weight of the group") or diff(v.v.get("defs"), defs, "definitions of the group") or diff(v.v["axis"], [Groupby("src"), Bin("x", 2, 0, 2)], "axes of the group"))
