"""C15 rebinning merges whole bins and loses nothing that the new bins cover."""
from ..spec import *
from ..values import sym
from .c13 import ordered, addany, zero

LEVEL = "other"
EXPLAIN = ("value-number analysis: every cell of the source is a distinct symbol. For each subset of the edges, or factor, each cell of the result must be the sum of exactly the old bins inside of its new label "
           "(flow bins take all that is beyond the outermost new edge, the NaN bin and all other axes are kept), and the new labels must be the requested ones; later fills go by the labels")
ASSUME = ["edges are given as a list, tuple or array of numbers equal to edges of the axis", "rebinning an axis without underflow or overflow bins to a smaller range removes what is outside of it"]


def splitof(ax, new):
    """The axis that results from rebinning a fixed axis to the given edges."""
    n, cl = ax.get("nanflow", False), ax.get("closedlow", True)
    return dict(axis="split", expr=ax["expr"], edges=tuple(sorted(float(e) for e in new)), underflow=ax["underflow"], overflow=ax["overflow"], nanflow=n, closedlow=cl)


def oldlabels(ax):
    """Labels of the source on the scale of the new edges (integers stand for half-open unit intervals)."""
    if ax["axis"] != "intbin":
        return labels(ax)
    out = []
    for l in labels(ax):
        if l.kind == "int":
            out.append(Lab("iv", l.lo - 0.5, l.lo + 0.5, True, False))
        elif l.lo == -INF:
            out.append(Lab("iv", -INF, l.hi - 0.5, True, False))
        else:
            out.append(Lab("iv", l.lo + 0.5, INF, True, True))
    return out


def alledges(ax):
    return [i - 0.5 for i in range(ax["min"], ax["max"] + 2)] if ax["axis"] == "intbin" else edges(ax)


def inside(old, new):
    if old.kind == "nan" or new.kind == "nan":
        return old.kind == new.kind
    return new.lo <= old.lo and old.hi <= new.hi


def rebinned(cont, order, which, groups, sh):
    """groups: per new bin the list of old bins of axis `which`."""
    def tot(i, parts):
        out = None
        for p in parts:
            out = addany(out, p)
        return out if out is not None else zeros(sh[i + 1:])

    def go(i, c):
        if isinstance(c, dict):
            return dict((k, go(i, x)) for k, x in c.items())
        if i == which:
            return [tot(i, [c[q] for q in g]) for g in groups]
        return [go(i + 1, x) for x in c]
    return go(0, cont)


def canoner(width, origin, f, which):
    def canon(i, c):
        """Rewrite the keys of the rebinned level as bin numbers, if they are edges of the new axis."""
        if not isinstance(c, dict):
            return c
        if i != which:
            return dict((k, canon(i + 1, x)) for k, x in c.items())
        out = {}
        for k, x in c.items():
            if k != "NaN":
                q = (k - origin) / (width * f)
                k = int(round(q)) if abs(q - round(q)) < 1e-6 and int(round(q)) not in out else "unexpected key %r" % k
            out[k] = x
        return out
    return canon


OBS = KEYS_SRC + """
def obs(r):
    return snap((r.tojson(), [[describe(q) for q in a.keys()] if isinstance(a, histbook.axis.FixedAxis) else None for a in r.axis]))
"""


def close(a, b):
    return len(a) == len(b) and all(p == q or (isinstance(p, float) and isinstance(q, float) and abs(p - q) <= 1e-9) for p, q in zip(a, b))


def run(ck):
    ck.anchor("Hist", "Hist.rebin", "Hist.rebinby", "Hist.tojson", "Hist.fromjson")
    flags = list(itertools.product((True, False), repeat=4))
    keys = {"c": ["a", "b"], "d": ["p", "q"], "g": [0.0, 2.0, -4.0, "NaN"]}
    others = ([], [Cut("k")], [Groupby("c"), Intbin("m", 0, 1)], [Bin("v", 1, 0, 1, u=False)])

    turn = [0]

    def ob(key, axes, ax, call, newedges, prof=(), w=None, edgesrc=None, filled=True, odd=0):
        if filled and not odd:
            turn[0] += 1
            if turn[0] % 4 == 0:
                ob(key + "/odd", axes, ax, call, newedges, prof, w, edgesrc, filled, 1 + turn[0] // 4 % 5)
        order = ordered(axes)
        fixed = [a for a in order if a["axis"] in FIXED]
        cont = content(list(axes) + list(prof), bool(w), [keys[a["expr"]] for a in order if a["axis"] in GROUP], odd=odd) if filled else None
        j = hjson(order + list(prof), cont, weight=w, filter="f > 0" if w else None, attachment={"k": 1})
        new = splitof(ax, newedges)
        nl, ol = labels(new), oldlabels(ax)
        groups = [[i for i, o in enumerate(ol) if inside(o, l)] for l in nl]
        ref = rebinned(cont, fixed, fixed.index(ax), groups, list(shape(list(axes) + list(prof), bool(w)))) if filled else None
        pos = order.index(ax)
        src = OBS + "h = Hist.fromjson(j)\nb = snap(h.tojson())\nr = h.%s\nreturn obs(r), b, snap(h.tojson())" % call

        def judge(m, v):
            d = diff(v[2].v, v[1].v, "source of %s" % call)
            if d:
                return d
            g, gl = v[0].v
            want = [q.tup() for q in nl]
            got = [tuple(q) for q in gl[pos]]
            if len(got) != len(want) or not all(close(p, q) for p, q in zip(got, want)):
                return "%s: new bins are %s instead of %s" % (call, got, want)
            for n, a in enumerate(order + list(prof)):
                if n != pos and diff(g["axis"][n], dict(a), ""):
                    return "%s changed axis %d to %s" % (call, n, g["axis"][n])
            if g["axis"][pos]["expr"] != ax["expr"]:
                return "%s changed the expression of the axis to %r" % (call, g["axis"][pos]["expr"])
            if not filled:
                return None if g.get("content") is None else "rebinning an unfilled histogram fills it"
            return cdiff(g["content"], ref, "cells after %s" % call) or diff(g.get("weight"), w, "weight") or diff(g.get("filter"), "f > 0" if w else None, "filter") or diff(g.get("attachment"), {"k": 1}, "attachment")
        ck.ob(key, "each new bin is the sum of the old bins inside of it", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)

    def subsets(e):
        for r in range(1, len(e) + 1):
            for s in itertools.combinations(e, r):
                yield s
    # fixed axes
    for u, o, n, cl in flags:
        for name, ax in (("bin", Bin("x", 4, 0, 4, u, o, n, cl)), ("split", Split("x", (-1, 0.5, 3, 7), u, o, n, cl)), ("bin3", Bin("x", 3, 0, 1, u, o, n, cl)), ("intbin", Intbin("x", -1, 2, u, o))):
            if name == "intbin" and not (n and cl):
                continue
            e = alledges(ax)
            if name == "bin3":      # edges as the axis itself computes them
                e = [ax["low"] + (float(i) / 3) * (ax["high"] - ax["low"]) for i in range(3)] + [ax["high"]]
            for s in subsets(e):
                if len(s) == 1 and not (u or o or (n and name != "intbin")):
                    continue
                for oi, oth in enumerate(others):
                    if oi and not ck.thorough and name != "intbin" and (u, o, n, cl) not in ((True, True, True, True), (False, True, False, False), (True, False, True, False), (False, False, True, True)):
                        continue
                    if oi and name == "bin3":
                        continue
                    axes = oth + [ax] if oi != 3 else [ax] + oth
                    ob("rebin/%s/%s/%s/%d" % (name, short(ax), s, oi), axes, ax, "rebin('x', %r)" % (list(s),), s, prof=[Profile("y")] if oi in (1, 2) else [], w="w" if oi == 2 else None)
            for f in (1, 2, 3, 4, 5):
                fe = e[0:-1:f] + e[-1:]
                for oi, oth in enumerate(others):
                    if oi and (name == "bin3" or not ck.thorough and f in (1, 4, 5) and oi != 2):
                        continue
                    ob("rebinby/%s/%s/%d/%d" % (name, short(ax), f, oi), oth + [ax], ax, "rebinby('x', %d)" % f, fe, prof=[Profile("y")] if oi in (1, 2) else [], w="w" if oi == 2 else None)
    # ways of naming the axis and giving the edges
    AX = [Groupby("c"), Bin("x", 4, 0, 4), Split("z", (0, 1, 2, 5), u=False), Intbin("n", 0, 3, o=False)]
    for ax, e in ((AX[1], (0, 2, 4)), (AX[2], (0, 2, 5)), (AX[3], (-0.5, 1.5, 3.5))):
        i = AX.index(ax)
        for an, a in (("expr", repr(ax["expr"])), ("axis", ctor(ax)), ("index", str(i)), ("neg", str(i - len(AX))), ("own", "h.axis[%d]" % i)):
            for en, es in (("list", repr(list(e))), ("tuple", repr(tuple(e))), ("rev", repr(list(e)[::-1])), ("array", "numpy.array(%r)" % (list(map(float, e)),))):
                ob("name/%s/%s/%s" % (ax["axis"], an, en), AX, ax, "rebin(%s, %s)" % (a, es), e, w="w")
            ob("name/%s/%s/by" % (ax["axis"], an), AX, ax, "rebinby(%s, 2)" % a, alledges(ax)[0:-1:2] + alledges(ax)[-1:], w="w")
        ob("unfilled/%s" % ax["axis"], AX, ax, "rebin(%r, %r)" % (ax["expr"], list(e)), e, filled=False)
        ob("unfilled/%s/by" % ax["axis"], AX, ax, "rebinby(%r, 2)" % ax["expr"], alledges(ax)[0:-1:2] + alledges(ax)[-1:], filled=False)
    # two axes of the same quantity: the one that is named
    for which in (0, 1):
        axes = [Bin("x", 2, 0, 4), Bin("x", 4, 0, 4)]
        ob("same/%d" % which, axes, axes[which], "rebin(%d, [0, 4])" % which, (0, 4))
    # groupbin
    for n, cl in itertools.product((True, False), repeat=2):
        for width, origin, ks in ((2, 0, [0.0, 2.0, -4.0, -2.0, 4.0, 10.0]), (0.5, 0.25, [0.25, 1.25, -0.75, -0.25, 0.75]), (2, 1, [1.0, 3.0, 5.0, 7.0, -1.0, -3.0, 13.0]), (3, -1, [-1.0, 2.0, 5.0, 8.0, 11.0, -4.0, -7.0]), (0.1, 0, [k * 0.1 for k in (-3, -1, 0, 1, 2, 3, 6, 7)])):
            ax = Groupbin("g", width, origin, n, cl)
            kk = ks + (["NaN"] if n else [])
            for f in (1, 2, 3, 4):
                for oi, oth in enumerate(([], [Bin("v", 1, 0, 2)], [Groupby("c")], [Groupby("c"), Groupby("d"), Cut("k")])):
                    for pos in range(len(oth) + 1):
                        axes = oth[:pos] + [ax] + oth[pos:]
                        order = ordered(axes)
                        ragged = lambda pre: ["a", "b"] if "2" in pre else ["b", "e"] if "-" in pre else ["a"]
                        kf = {"c": ragged, "d": lambda pre: ["p"] if "b" in pre else ["q", "p"], "g": lambda pre: kk if "b" not in pre else kk[::-1]}
                        cont = content(axes + [Profile("y")], True, [kf[a["expr"]] for a in order if a["axis"] in GROUP])
                        j = hjson(order + [Profile("y")], cont, weight="w")
                        which = order.index(ax)

                        def go(i, c):
                            if not isinstance(c, dict):
                                return c
                            if i != which:
                                return dict((k, go(i + 1, x)) for k, x in c.items())
                            out = {}
                            for k, x in c.items():
                                q = "NaN" if k == "NaN" else int(round((k - origin) / width)) // f
                                out[q] = addany(out.get(q), x)
                            return out
                        ref = go(0, cont)

                        canon = canoner(width, origin, f, which)
                        src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nr = h.rebinby('g', %d)\nk = [[a.low, a.high] for a in r.groupkeys('g') if hasattr(a, 'low')]\nreturn snap(r.tojson()), b, snap(h.tojson()), snap(k)" % f

                        def judge(m, v, ref=ref, order=order, which=which, canon=canon, width=width, f=f):
                            d = diff(v[2].v, v[1].v, "source of rebinby")
                            if d:
                                return d
                            g = v[0].v
                            for i, a in enumerate(order + [Profile("y")]):
                                want = dict(a)
                                if i == which:
                                    if abs(g["axis"][i].get("binwidth", 0) - width * f) > 1e-12:
                                        return "bin width is %r" % g["axis"][i].get("binwidth")
                                    want["binwidth"] = g["axis"][i]["binwidth"]
                                d = diff(g["axis"][i], want, "axis %d after rebinby" % i)
                                if d:
                                    return d
                            if any(q[0] == q[0] and abs(q[1] - q[0] - width * f) > 1e-9 for q in v[3].v):
                                return "labels of the merged groups are %s" % (v[3].v,)
                            return cdiff(canon(0, g["content"]), ref, "groups after rebinby")
                        ck.ob("groupbin/%s%g/%d/%d%d" % (short(ax), width, f, oi, pos), "each new group is the sum of the old groups inside of it", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)
    # rebinning and filling commute
    xs = [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 9.0, NAN, INF, -INF]
    ns = list(range(-4, 9))
    ws = [sym("w%d" % i) for i in range(13)]

    def envf(m):
        return {"x": arr(m, xs), "n": arr(m, ns), "w": arr(m, ws), "y": arr(m, [sym("y%d" % i) for i in range(13)]), "snap": snapfn()}
    for u, o, n, cl in flags:
        for ax, e in ((Bin("x", 4, 0, 4, u, o, n, cl), (0, 2, 4)), (Bin("x", 4, 0, 4, u, o, n, cl), (1, 4)), (Split("x", (0, 1, 2.5, 4), u, o, n, cl), (0, 2.5, 4)), (Intbin("n", -2, 3, u, o), (-2.5, -0.5, 3.5)), (Intbin("n", -2, 3, u, o), (-1.5, 1.5))):
            src = "h = %s\nh.fill(x=x, n=n, w=w, y=y)\nr = h.rebin(0, %r)\ng = %s\ng.fill(x=x, n=n, w=w, y=y)\nr.fill(x=x, n=n, w=w, y=y)\ng.fill(x=x, n=n, w=w, y=y)\nreturn snap(r.tojson()), snap(g.tojson())" % (hist([ax, Profile("y")], weight="w"), list(e), hist([splitof(ax, e), Profile("y")], weight="w"))
            if ax["axis"] == "intbin" and not (n and cl):
                continue
            ck.ob("commute/%s/%s/%s" % (ax["axis"], short(ax), e), "rebinning equals filling the coarser histogram", src, envf, lambda m, v: cdiff(v[0].v["content"], v[1].v["content"], "rebinned content compared with filling the coarser histogram"))
    for n, cl in itertools.product((True, False), repeat=2):
        for f in (1, 2, 3):
            ax = Groupbin("x", 0.5, 0.25, n, cl)
            vals = [-3.0, -0.25, 0.25, 0.5, 0.75, 1.25, 2.5, 0.0, NAN]
            src = "h = %s\nh.fill(x=x, w=w)\nr = h.rebinby(0, %d)\ng = %s\ng.fill(x=x, w=w)\nr.fill(x=x, w=w)\ng.fill(x=x, w=w)\nreturn snap(r.tojson()), snap(g.tojson())" % (hist([ax], weight="w"), f, hist([dict(ax, binwidth=0.5 * f)], weight="w"))
            ck.ob("commute/groupbin/%s/%d" % (short(ax), f), "rebinning equals filling the coarser histogram", src, lambda m, vals=vals: {"x": arr(m, vals), "w": arr(m, ws[:9]), "snap": snapfn()},
                  lambda m, v: cdiff(v[0].v["content"], v[1].v["content"], "rebinned groups compared with filling the coarser histogram"))
    # what is refused
    for hn, h, call in (("edge", "Hist(bin('x', 4, 0, 4))", "h.rebin('x', [0, 1.5, 4])"), ("edge2", "Hist(split('x', [0, 1, 4]))", "h.rebin('x', [0, 2])"), ("edge3", "Hist(intbin('x', 0, 3))", "h.rebin('x', [0, 2])"), ("outside", "Hist(bin('x', 4, 0, 4))", "h.rebin('x', [0, 5])"), ("dup", "Hist(bin('x', 4, 0, 4))", "h.rebin('x', [0, 0, 4])"), ("none", "Hist(bin('x', 4, 0, 4))", "h.rebin('x', [])"),
                        ("missing", "Hist(bin('x', 4, 0, 4))", "h.rebin('z', [0, 4])"), ("cut", "Hist(cut('k'))", "h.rebin('k', [0])"), ("groupby", "Hist(groupby('n'))", "h.rebinby('n', 2)"), ("groupbin", "Hist(groupbin('x', 2))", "h.rebin('x', [0, 2])"), ("profile", "Hist(bin('x', 4, 0, 4), profile('y'))", "h.rebin('y', [0])"), ("index", "Hist(bin('x', 4, 0, 4))", "h.rebin(3, [0, 4])"),
                        ("factor0", "Hist(bin('x', 4, 0, 4))", "h.rebinby('x', 0)"), ("factorneg", "Hist(groupbin('x', 4))", "h.rebinby('x', -2)"), ("factorfloat", "Hist(groupbin('x', 4))", "h.rebinby('x', 1.5)"), ("other", "Hist(bin('x', 4, 0, 4))", "h.rebin(bin('x', 2, 0, 4), [0, 4])")):
        for fill in (False, True):
            src = "h = %s\n%stry:\n    r = %s\nexcept Exception as e:\n    return e.__class__.__name__, b, snap(h.tojson())\nreturn repr(r), b, b" % (h, "b = snap(h.tojson())\n", call)
            if fill:
                src = "h = %s\nh.fill(x=x, y=y, n=n, k=x > 0)\nb = snap(h.tojson())\ntry:\n    r = %s\nexcept Exception as e:\n    return e.__class__.__name__, b, snap(h.tojson())\nreturn repr(r), b, b" % (h, call)
            ck.ob("refuse/%s/%s" % (hn, fill), "what does not fit the axis is refused", src, envf, lambda m, v, hn=hn: diff(v[2].v, v[1].v, "histogram after a refused rebinning") or (None if v[0] in ("IndexError", "KeyError", "ValueError", "TypeError") else "%s gave %s" % (hn, v[0])))
