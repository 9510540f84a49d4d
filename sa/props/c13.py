"""C13 projecting and dropping keep exactly the remaining statistics."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("value-number analysis: every cell of the source is a distinct symbol; each cell of a projection must be the sum of exactly the cells that differ only in the dropped axes (all bins, "
           "flow bins included), each column of a histogram with dropped profiles must be the column of that same statistic, and the axes that are left must be the kept ones")
ASSUME = ["the axes of a histogram are pairwise different (projecting onto one of two equal axes is ambiguous)"]

B2, B3, B1 = Bin("x", 2, 0, 2), Bin("v", 1, 0, 1, u=False), Bin("z", 2, 0, 4, o=False, n=False, cl=False)
SP, IB, CT = Split("x", (0, 1, 3), n=False), Intbin("n", 0, 1, u=False), Cut("x > 1")
GB, GN, GC = Groupby("c"), Groupbin("g", 2), Groupby("d")
K1, K2, K3 = ["a", "b", "e"], [0.0, 2.0, "NaN"], ["p", "q"]
KEYS = {"c": K1, "g": K2, "d": K3}
RAGGED = {"c": lambda pre: ["a", "b", "e"], "g": lambda pre: [0.0, "NaN"] if pre.endswith("a_") or pre.endswith("p_") else [2.0, 0.0, -4.0], "d": lambda pre: ["p"] if pre.endswith("b_") or pre.endswith("0.0_") else ["q", "p"]}
HOLES = {"c": lambda pre: ["a", "b", "e"], "g": lambda pre: [] if pre.endswith("a_") or pre.endswith("p_") or pre.endswith("b_") else [2.0, 0.0], "d": lambda pre: [] if pre.endswith("b_") or pre.endswith("0.0_") else ["q", "p"]}
CONFIGS = [
    [B2], [SP], [IB], [CT], [GB], [GN], [B2, B3], [SP, IB], [CT, B1], [B3, CT, IB], [B2, SP, B3], [B3, B1, IB, CT],
    [GB, B2], [B3, GN], [GB, GN], [GN, GB, CT], [GB, GC, GN], [B3, GB, IB, GN], [GB, B3, B1], [GC, GN, IB, CT],
]
PROFS = [[], [Profile("y")], [Profile("y"), Profile("q"), Profile("r")]]


def addany(p, q):
    if p is None:
        return q
    if isinstance(p, dict):
        out = {}
        for k in list(p) + [k for k in q if k not in p]:
            out[k] = addany(p[k], q[k]) if k in p and k in q else p[k] if k in p else q[k]
        return out
    if isinstance(p, list):
        return [addany(a, b) for a, b in zip(p, q)]
    return add(p, q)


def zero(axes, keep, ncol):
    if any(k and a["axis"] in GROUP for a, k in zip(axes, keep)):
        return {}
    return zeros([totbins(a) for a, k in zip(axes, keep) if k] + [ncol])


def project(cont, axes, keep, ncol):
    """Reference: sum over the axes (group axes first, then fixed) whose flag in keep is False."""
    if not axes:
        return cont
    if axes[0]["axis"] in GROUP:
        if keep[0]:
            return dict((k, project(x, axes[1:], keep[1:], ncol)) for k, x in cont.items())
        out = None
        for x in cont.values():
            out = addany(out, project(x, axes[1:], keep[1:], ncol))
        return zero(axes, keep, ncol) if out is None else out
    if keep[0]:
        return [project(x, axes[1:], keep[1:], ncol) for x in cont]
    out = None
    for x in cont:
        out = addany(out, project(x, axes[1:], keep[1:], ncol))
    return out


def ordered(axes):
    return [a for a in axes if a["axis"] in GROUP] + [a for a in axes if a["axis"] in FIXED]


def run(ck):
    ck.anchor("Hist", "Hist.project", "Hist.drop", "Hist.tojson", "Hist.fromjson")
    for ci, axes in enumerate(CONFIGS):
        order = ordered(axes)
        ng = sum(1 for a in order if a["axis"] in GROUP)
        for pi, prof in enumerate(PROFS):
            for w in (None, "w"):
                if not ck.thorough and (pi == 1 and w or pi == 2 and not w and len(axes) > 2):
                    continue
                decl = (axes[:1] + prof[:1] + axes[1:] + prof[1:]) if pi else axes
                for kn, keys in (("full", KEYS), ("ragged", RAGGED), ("holes", HOLES), ("odd", KEYS), ("odd", RAGGED)):
                    if kn != "full" and ng < 2 and (kn != "odd" or keys is RAGGED):
                        continue
                    cont = content(decl, bool(w), [keys[a["expr"]] for a in order if a["axis"] in GROUP], odd=kn == "odd")
                    j = hjson(decl, cont, weight=w, attachment={"k": 1})
                    j["axis"] = [dict(a) for a in order + prof]
                    jd = dict(j, axis=[dict(a) for a in decl])

                    def env(m, jd=jd):
                        return {"j": absv(m, jd), "snap": snapfn()}
                    for keep in itertools.product((True, False), repeat=len(order)):
                        kept = [a for a, q in zip(order, keep) if q]
                        ref = project(cont, order, keep, 2*len(prof) + (2 if w else 1))
                        byexpr = ", ".join(repr(a["expr"]) for a in kept)
                        byaxis = ", ".join(ctor(a) for a in reversed(kept))
                        byindex = ", ".join(str(i) for i, q in enumerate(keep) if q)
                        for hn, args in (("expr", byexpr), ("axis", byaxis), ("index", byindex)):
                            if hn == "expr" and len(set(a["expr"] for a in order)) < len(order):
                                continue
                            src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nr = h.project(%s)\nr.table()\nreturn snap(r.tojson()), b, snap(h.tojson())" % args

                            def judge(m, v, ref=ref, kept=kept, prof=prof, w=w, j=j):
                                g = v[0].v
                                d = diff(g["axis"], [dict(a) for a in kept + prof], "axes of the projection")
                                return d or cdiff(g.get("content"), ref, "projection") or diff(g.get("weight"), w, "weight of the projection") or diff(g.get("attachment"), {"k": 1}, "attachment of the projection") or diff(v[2].v, v[1].v, "source of the projection")
                            ck.ob("project/%d/%d%s/%s/%s/%s" % (ci, pi, w or "", kn, "".join("k" if q else "-" for q in keep), hn), "cells of a projection are the sums over the dropped axes", src, env, judge)
                        if pi == 0:
                            src = "h = Hist.fromjson(j).cleared()\nr = h.project(%s)\nh2 = Hist.fromjson(j).cleared().project(%s)\nreturn snap(r.tojson())" % (byaxis, byaxis)

                            def judge(m, v, kept=kept, prof=prof):
                                g = v.v
                                return diff(g["axis"], [dict(a) for a in kept + prof], "axes of the projection") or (None if g.get("content") is None or iszero(g["content"]) else "projection of an unfilled histogram is filled")
                            ck.ob("project/%d/%d%s/%s/%s/unfilled" % (ci, pi, w or "", kn, "".join("k" if q else "-" for q in keep)), "an unfilled histogram projects to an empty one", src, env, judge)
                    # empty groups
                    if ng:
                        def env0(m, jd=jd):
                            return {"j": absv(m, dict(jd, content={})), "snap": snapfn()}
                        for keep in itertools.product((True, False), repeat=len(order)):
                            kept = [a for a, q in zip(order, keep) if q]
                            src = "r = Hist.fromjson(j).project(%s)\nt = r.table() if r.axis else None\nr2 = Hist.fromjson(r.tojson())\nreturn snap(r.tojson()), r2 == r" % ", ".join(ctor(a) for a in kept)

                            def judge(m, v, kept=kept, prof=prof):
                                g = v[0].v
                                return diff(g["axis"], [dict(a) for a in kept + prof], "axes of the projection") or (None if g.get("content") is None or iszero(g["content"]) else "projection of an empty histogram is filled") or (None if v[1] is True else "malformed projection")
                            ck.ob("project/%d/%d%s/%s/%s/nogroups" % (ci, pi, w or "", kn, "".join("k" if q else "-" for q in keep)), "a histogram without groups projects to an empty one", src, env0, judge)
                    # drop
                    if prof:
                        for dr in itertools.product((True, False), repeat=len(prof)):
                            if not any(dr):
                                continue
                            cols = [2 * i + q for i, d in enumerate(dr) if not d for q in (0, 1)] + list(range(2 * len(prof), 2 * len(prof) + (2 if w else 1)))

                            def pick(c, depth):
                                if isinstance(c, dict):
                                    return dict((k, pick(x, depth)) for k, x in c.items())
                                return [pick(x, depth - 1) for x in c] if depth > 0 else [c[q] for q in cols]
                            ref = pick(cont, len(order) - ng)
                            left = [p for p, d in zip(prof, dr) if not d]
                            for hn, args in (("expr", ", ".join(repr(p["expr"]) for p, d in zip(prof, dr) if d)), ("axis", ", ".join(ctor(p) for p, d in reversed(list(zip(prof, dr))) if d)), ("index", ", ".join(str(len(order) + i) for i, d in enumerate(dr) if d)), ("negindex", ", ".join(str(i - len(prof)) for i, d in enumerate(dr) if d))):
                                src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nr = h.drop(%s)\nreturn snap(r.tojson()), b, snap(h.tojson())" % args

                                def judge(m, v, ref=ref, left=left, order=order, w=w):
                                    g = v[0].v
                                    return diff(g["axis"], [dict(a) for a in order + left], "axes after drop") or cdiff(g.get("content"), ref, "content after drop") or diff(g.get("weight"), w, "weight after drop") or diff(v[2].v, v[1].v, "source of drop")
                                ck.ob("drop/%d/%d%s/%s/%s/%s" % (ci, pi, w or "", kn, "".join("d" if q else "-" for q in dr), hn), "columns of the remaining statistics are kept", src, env, judge)
                            src = "r = Hist.fromjson(j).cleared().drop(%s)\nreturn snap(r.tojson())" % ", ".join(repr(p["expr"]) for p, d in zip(prof, dr) if d)
                            ck.ob("drop/%d/%d%s/%s/%s/unfilled" % (ci, pi, w or "", kn, "".join("d" if q else "-" for q in dr)), "dropping from an unfilled histogram", src, env,
                                  lambda m, v, left=left, order=order: diff(v.v["axis"], [dict(a) for a in order + left], "axes after drop") or (None if v.v.get("content") is None else "unfilled histogram is filled after drop"))
    # later fills, and what is refused
    ys = [sym("y%d" % i) for i in range(4)]

    def envf(m):
        return {"x": arr(m, [0.5, 1.5, NAN, 0.5]), "c": arr(m, ["a", "b", "a", "a"]), "y": arr(m, ys), "q": arr(m, [sym("q%d" % i) for i in range(4)]), "w": arr(m, [sym("w%d" % i) for i in range(4)]), "n": arr(m, [0, 1, 2, 0]), "snap": snapfn()}
    D = "x=x, c=c, y=y, q=q, w=w, n=n"
    for hn, h, r, direct in (("project", "Hist(groupby('c'), bin('x', 2, 0, 2), intbin('n', 0, 1), profile('y'), profile('q'), weight='w')", "h.project('x')", "Hist(bin('x', 2, 0, 2), profile('y'), profile('q'), weight='w')"),
                             ("projectc", "Hist(groupby('c'), bin('x', 2, 0, 2), intbin('n', 0, 9), profile('y'), weight='w')", "h.project('c')", "Hist(groupby('c'), profile('y'), weight='w')"),
                             ("projectn", "Hist(groupby('c'), bin('x', 2, 0, 2), intbin('n', 0, 9), profile('y'), filter='n > 0')", "h.project('n', 'c')", "Hist(groupby('c'), intbin('n', 0, 9), profile('y'), filter='n > 0')"),
                             ("project0", "Hist(groupby('c'), bin('x', 2, 0, 2), weight='w')", "h.project()", "Hist(weight='w')"),
                             ("drop", "Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), profile('q'), weight='w')", "h.drop('y')", "Hist(groupby('c'), bin('x', 2, 0, 2), profile('q'), weight='w')"),
                             ("drop2", "Hist(bin('x', 2, 0, 2), profile('y'), profile('q'))", "h.drop('q')", "Hist(bin('x', 2, 0, 2), profile('y'))")):
        full = "9" in h or "intbin" not in h
        for times in (1, 2):
            src = "h = %s\n%sr = %s\ng = %s\n%sreturn snap(r.tojson()), snap(g.tojson())" % (h.replace("0, 1)", "-1, 9)"), "h.fill(%s)\n" % D, r, direct.replace("0, 1)", "-1, 9)"), "g.fill(%s)\n" % D)
            if times == 2:
                src = src.replace("return", "r.fill(%s)\ng.fill(%s)\nreturn" % (D, D))

            def judge(m, v, hn=hn):
                a, b = dict(v[0].v), dict(v[1].v)
                return cdiff(a.pop("content"), b.pop("content"), "%s compared with filling the smaller histogram directly" % hn) or diff(a, b, hn)
            ck.ob("direct/%s/%d" % (hn, times), "projecting equals filling the smaller histogram", src, envf, judge)
    for n, call in (("project-missing", "h.project('nosuch')"), ("project-profile", "h.project('y')"), ("project-axis", "h.project(bin('x', 3, 0, 2))"), ("project-index", "h.project(7)"), ("drop-missing", "h.drop('nosuch')"), ("drop-fixed", "h.drop('x')"), ("drop-none", "h.drop()"), ("drop-axis", "h.drop(bin('x', 2, 0, 2))"), ("drop-index", "h.drop(0)")):
        src = "h = Hist(bin('x', 2, 0, 2), profile('y'))\ntry:\n    r = %s\nexcept Exception as e:\n    return e.__class__.__name__\nreturn repr(r)" % call
        ck.ob("refuse/" + n, "axes that the histogram does not have are refused", src, envf, lambda m, v, n=n: None if v in ("IndexError", "KeyError", "ValueError", "TypeError") else "%s gave %s" % (n, v))
