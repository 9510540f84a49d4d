"""C14 select keeps exactly the bins that the condition describes, or refuses."""
from ..spec import *
from ..values import sym
from .c13 import ordered

LEVEL = "other"
EXPLAIN = ("value-number analysis with a label oracle: for every condition, a bin is wholly inside, wholly outside or cut by it. The selection must be refused if any bin is cut, and otherwise the result must have "
           "exactly the inside bins, with their labels and their cells (distinct symbols), all other axes whole; conditions aligned with the edges must be accepted; later fills go by the published labels")
ASSUME = ["the NaN bin satisfies only `== nan` and is removed by every other comparison", "selections that would leave no bin, conditions outside of the axis range and `==`/`!=` with infinity may be refused",
          "thresholds are compared with edges within the documented tolerance"]

X, PART, OUT = "in", "part", "out"


def judgebin(lab, cmp, v, integers=False):
    """Is the bin wholly inside ('in'), wholly outside ('out') or cut ('part') by `value cmp v`?"""
    if lab.kind == "nan":
        return X if cmp == "==" and v != v else OUT
    if v != v:
        return {"==": OUT, "!=": X}.get(cmp, OUT)
    if lab.kind in ("int", "bool"):
        return X if {"<": lab.lo < v, "<=": lab.lo <= v, ">": lab.lo > v, ">=": lab.lo >= v, "==": lab.lo == v, "!=": lab.lo != v}[cmp] else OUT
    lo, hi, clo, chi = lab.lo, lab.hi, lab.clo, lab.chi
    if integers:
        if lo == -INF:
            hi, chi = hi - 1, True
        else:
            lo, clo = lo + 1, True
    if cmp == "<":
        return X if hi < v or (hi == v and not chi) else OUT if lo >= v else PART
    if cmp == "<=":
        return X if hi <= v else OUT if lo > v or (lo == v and not clo) else PART
    if cmp == ">":
        return X if lo > v or (lo == v and not clo) else OUT if hi <= v else PART
    if cmp == ">=":
        return X if lo >= v else OUT if hi < v or (hi == v and not chi) else PART
    inside = (lo < v or (clo and v == lo)) and (v < hi or (chi and v == hi))
    if cmp == "==":
        return PART if inside else OUT
    return PART if inside else X


def num(v):
    return "nan" if v != v else "inf" if v == INF else "-inf" if v == -INF else repr(v)


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def near(a, b):
    return len(a) == len(b) and all(p == q or (isinstance(p, float) and isinstance(q, float) and abs(p - q) <= 1e-9 * max(1.0, abs(p))) for p, q in zip(a, b))


def takebins(cont, order, which, keep, drop=False):
    """Content restricted to the kept bins (predicate over index or key) of axis number `which`."""
    def go(i, c):
        a = order[i]
        if a["axis"] in GROUP:
            return dict((k, go(i + 1, x) if i + 1 < len(order) else x) for k, x in c.items() if i != which or keep(k))
        if i == which:
            out = [x if i + 1 == len(order) else go(i + 1, x) for q, x in enumerate(c) if keep(q)]
            return out[0] if drop else out
        return [x if i + 1 == len(order) else go(i + 1, x) for x in c]
    return go(0, cont)


OBS = KEYS_SRC + """
def obs(r):
    return snap((r.tojson(), [[describe(q) for q in a.keys()] if isinstance(a, histbook.axis.FixedAxis) else None for a in r.axis]))
def run(h, e, *tol):
    try:
        r = h.select(e, *tol)
    except Exception as err:
        return err.__class__.__name__, None
    return "ok", r
"""


def run(ck):
    ck.anchor("Hist", "Hist.select", "Hist.tojson", "Hist.fromjson")
    flags = list(itertools.product((True, False), repeat=4))
    others = ([], [Cut("k")], [Groupby("c"), Intbin("m", 0, 1)])
    keys = {"c": ["a", "b"], "g": [0.0, 2.0, -4.0, "NaN"]}
    turn = [0]

    def source(axes, prof=(), w=None, odd=0):
        order = ordered(axes)
        cont = content(list(axes) + list(prof), bool(w), [keys[a["expr"]] for a in order if a["axis"] in GROUP], odd=odd)
        j = hjson(order + list(prof), cont, weight=w, attachment={"k": 1}, defs=None)
        return order, cont, j

    def verdicts(ax, cmp, v, integers=False):
        return [judgebin(l, cmp, v, integers) for l in labels(ax)]

    def ob(key, axes, which, expr, vs, must, prof=(), w=None, tol=None, optional=False, odd=0):
        """vs: verdict per bin of axis `which` (index into ordered axes)."""
        if not odd:
            turn[0] += 1
            if turn[0] % 4 == 0:
                ob(key + "/odd", axes, which, expr, vs, must, prof, w, tol, optional, 1 + turn[0] // 4 % 5)
        order, cont, j = source(axes, prof, w, odd)
        kept = [i for i, q in enumerate(vs) if q == X]
        cut = PART in vs
        ref = None if cut or not kept else takebins(cont, order, which, lambda q: q in kept)
        labs = [labels(a) if a["axis"] in FIXED else None for a in order]
        want = [None if l is None else [q.tup() for i, q in enumerate(l) if n != which or i in kept] for n, l in enumerate(labs)]
        src = OBS + "h = Hist.fromjson(j)\nb = snap(h.tojson())\nst, r = run(h, %r%s)\nreturn st, None if r is None else obs(r), b, snap(h.tojson())" % (expr, "" if tol is None else ", %r" % tol)

        def judge(m, v):
            d = diff(v[3].v, v[2].v, "source of the selection")
            if d:
                return d
            if v[0] != "ok":
                return "%r is aligned with the bins but was refused (%s)" % (expr, v[0]) if must and kept and not cut else None
            g, gl = v[1].v
            if cut and not optional:
                return "%r cuts through a bin but was accepted" % expr
            if not kept:
                return "%r leaves no bin but was accepted" % expr
            got = [None if q is None else [tuple(x) for x in q] for q in gl]
            got = got[:len(want)]
            for n, (p, q) in enumerate(zip(got, want)):
                if (p is None) != (q is None) or (p is not None and (len(p) != len(q) or not all(near(x, y) for x, y in zip(p, q)))):
                    return "%r: bins of axis %d are %s instead of %s" % (expr, n, p, q)
            for n, a in enumerate(g["axis"]):
                if n != which and diff(a, dict((order + list(prof))[n]), ""):
                    return "%r changed axis %d to %s" % (expr, n, a)
            return cdiff(g["content"], ref, "cells selected by %r" % expr) or diff(g.get("weight"), w, "weight") or diff(g.get("attachment"), {"k": 1}, "attachment")
        ck.ob(key, "exactly the described bins are kept, or the selection is refused", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)

    # bin and split axes
    for mk_, name in ((lambda u, o, n, cl: Bin("x", 4, 0, 4, u, o, n, cl), "bin"), (lambda u, o, n, cl: Split("x", (-1, 0.5, 3), u, o, n, cl), "split"), (lambda u, o, n, cl: Bin("x", 10, 0, 1, u, o, n, cl), "bin10")):
        for u, o, n, cl in flags:
            ax = mk_(u, o, n, cl)
            e = edges(ax)
            right = ("<", ">=") if cl else (">", "<=")
            pts = e + [0.25, e[0] - 1, e[-1] + 1, INF, -INF, NAN] if name != "bin10" else [e[3], e[7], 0.3, 0.1, 0.9, 0.35]
            for v in pts:
                for cmp in ("<", "<=", ">", ">=", "==", "!="):
                    vs = verdicts(ax, cmp, v)
                    if name == "bin10":
                        q = min(e, key=lambda z: abs(z - v))
                        if abs(q - v) < 1e-12:
                            vs = verdicts(ax, cmp, q)
                    must = (cmp in right and any(abs(v - q) < 1e-12 for q in e)) or (v != v and cmp in ("==", "!="))
                    for oi, oth in enumerate(others):
                        if oi and not ck.thorough and (name == "bin10" or (u, o, n, cl) not in ((True, True, True, True), (False, True, False, False), (True, False, True, False))):
                            continue
                        order = ordered([ax] + oth)
                        forms = [("n", "x %s %s" % (cmp, num(v)))] + ([("f", "%s %s x" % (num(v), FLIP[cmp]))] if oi == 0 else [])
                        if oi == 0 and cmp in "<=>=" and name == "split":
                            forms.append(("not", "not (x %s %s)" % ({"<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(cmp), num(v))) if cmp in ("<", ">=", ">", "<=") else forms[0])
                        for fn, ex in forms:
                            if v != v and cmp not in ("==", "!="):
                                continue
                            ob("%s/%s/%s%s/%d/%s" % (name, short(ax), cmp, num(v), oi, fn), [ax] + oth, order.index(ax), ex, vs, must and v == v or must and fn == "n", prof=[Profile("y")] if oi == 1 else [], w="w" if oi == 2 else None)
    # tolerance
    for tol, v, ok in ((0.1, 1.05, True), (0.1, 1.2, False), (None, 1 + 1e-13, True), (None, 1 + 1e-9, False), (1e-6, 1 + 1e-9, True), (1e-6, 1 - 1e-7, True)):
        for ax in (Bin("x", 4, 0, 4), Split("x", (0, 1, 3)), Bin("x", 4, 0, 4, u=False, cl=False)):
            for cmp in (("<", ">=") if ax["closedlow"] else ("<=", ">")):
                ob("tolerance/%s/%r/%r/%s" % (short(ax) + ax["axis"], tol, v, cmp), [ax], 0, "x %s %r" % (cmp, v), verdicts(ax, cmp, 1 if ok else v), ok, tol=tol)
    # intbin
    for u, o in itertools.product((True, False), repeat=2):
        ax = Intbin("n", -1, 2, u, o)
        for v in list(range(-3, 5)) + [0.5, INF, -INF]:
            for cmp in ("<", "<=", ">", ">=", "==", "!="):
                for oi, oth in enumerate(others):
                    vs = verdicts(ax, cmp, v, True)
                    if v in (INF, -INF):
                        vs = [X if (cmp in ("<", "<=") and v == INF or cmp in (">", ">=") and v == -INF or cmp == "!=") else OUT for _ in vs]
                    must = -1 <= v <= 2 and v == int(v) if v not in (INF, -INF) else cmp in ("<", "<=") and v == INF or cmp in (">", ">=") and v == -INF
                    finite = any(l.kind == "int" and q == X for l, q in zip(labels(ax), vs))
                    must = must and cmp in ("<", "<=", ">", ">=") and finite
                    order = ordered([ax] + oth)
                    ob("intbin/%s/%s%s/%d" % (short(ax), cmp, num(v), oi), [ax] + oth, order.index(ax), "n %s %s" % (cmp, num(v)), vs, must, w="w" if oi else None)
    # cut axes: the axis goes away
    def cutob(key, axes, ex, want, must=True, prof=(), w=None):
        order, cont, j = source(axes, prof, w)
        which = [i for i, a in enumerate(order) if a["axis"] == "cut"][0]
        ref = None if want is None else takebins(cont, order, which, lambda q: q == want, True)
        rest = [a for i, a in enumerate(order) if i != which] + list(prof)
        src = OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % ex

        def judge(m, v):
            if v[0] != "ok":
                return "%r was refused (%s)" % (ex, v[0]) if must else None
            if want is None:
                return "%r was accepted" % ex
            g = v[1].v[0]
            return diff(g["axis"], [dict(a) for a in rest], "axes left by %r" % ex) or cdiff(g["content"], ref, "cells selected by %r" % ex)
        ck.ob(key, "selecting on a cut keeps its bin", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)
    for oi, oth in enumerate(([], [Bin("v", 2, 0, 2)], [Groupby("c"), Bin("v", 1, 0, 2, u=False)], [Groupbin("g", 2)])):
        for pos in (0, 1):
            for expr, ex, want, must in (("x > 1", "x > 1", True, True), ("x > 1", "1 < x", True, True), ("x > 1", "x <= 1", False, False), ("x > 1", "not x > 1", False, False), ("x > 1", "x > 2", None, False), ("x > 1", "x >= 1", None, False), ("k", "k", True, True), ("k", "not k", False, True), ("k", "k == True", True, False), ("k", "k == False", False, False), ("k", "k != True", False, False),
                                         ("k", "k != False", True, False), ("x > 1 and y < 2", "x > 1 and y < 2", True, False), ("not k", "not k", True, False), ("x == y", "x == y", True, False), ("x in {1, 2}", "x in {1, 2}", True, True), ("x in {1, 2}", "x in {2, 3}", None, False)):
                axes = ([Cut(expr)] + oth) if pos == 0 else (oth + [Cut(expr)])
                if pos == 1 and not oth:
                    continue
                cutob("cut/%s/%s/%d/%d" % (expr, ex, oi, pos), axes, ex, want, must, prof=[Profile("y")] if oi == 1 else [], w="w" if oi == 2 else None)
    # group axes
    strs = ["a", "b", "e"]
    for ex, pred, must in (("c == 'a'", lambda k: k == "a", True), ("'a' == c", lambda k: k == "a", True), ("c != 'a'", lambda k: k != "a", True), ("c < 'b'", lambda k: k < "b", True), ("c <= 'b'", lambda k: k <= "b", True), ("c > 'b'", lambda k: k > "b", True), ("c >= 'b'", lambda k: k >= "b", True), ("c in {'a', 'e'}", lambda k: k in "ae", True),
                           ("c not in {'a', 'e'}", lambda k: k not in "ae", True), ("c == 'z'", lambda k: False, True), ("c == 'a' or c == 'e'", lambda k: k in "ae", True), ("c == 'a' or c == 'b' or c == 'e'", lambda k: True, True), ("c == 'a' or c > 'b'", lambda k: k in "ae", True), ("c != 'a' and c != 'b'", lambda k: k == "e", True),
                           ("not (c == 'a')", lambda k: k != "a", True), ("c == 'a' or (c != 'a' and c != 'b')", lambda k: k != "b", False), ("c == 'b' or (c != 'e' and c != 'b')", lambda k: k != "e", False), ("(c != 'a' and c != 'b' and c != 'z') or c == 'z'", lambda k: k == "e", False), ("(c > 'a' and c < 'e') or (c > 'b' and c < 'z')", lambda k: k != "a", False), ("c in {'a'} or (c != 'b' and c in {'b', 'e'})", lambda k: k != "b", False), ("c == 'z' or c == 'y' or (c > 'a' and c < 'z' and c != 'b')", lambda k: k == "e", False), ("not (c == 'a' or c == 'b')", lambda k: k == "e", True), ("c > 'a' and c < 'e'", lambda k: k == "b", True), ("(c == 'a' or c == 'b') and c != 'a'", lambda k: k == "b", False), ("c == 'a' or v < 1", None, False), ("c == 'a' or q == 1", None, False), ("q == 1", None, False), ("'a'", None, False), ("c + 1 == 2", None, False)):
        for oi, oth in enumerate(([], [Bin("v", 2, 0, 2)], [Groupbin("g", 2), Cut("k")])):
            for first in (True, False):
                axes = [Groupby("c")] + oth if first else oth + [Groupby("c")]
                order = ordered(axes)
                which = order.index(Groupby("c"))
                cont = content(axes + [Profile("y")], True, [strs if a["expr"] == "c" else [0.0, "NaN"] for a in order if a["axis"] in GROUP], odd=oi and (2 if first else 3))
                j = hjson(order + [Profile("y")], cont, weight="w")
                ref = takebins(cont, order, which, pred) if pred else None
                src = OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % ex

                def judge(m, v, ex=ex, ref=ref, must=must, order=order):
                    if v[0] != "ok":
                        return "%r was refused (%s)" % (ex, v[0]) if must else None
                    if ref is None:
                        return "%r was accepted" % ex
                    g = v[1].v[0]
                    return diff(g["axis"], [dict(a) for a in order + [Profile("y")]], "axes after %r" % ex) or cdiff(g["content"], ref, "cells selected by %r" % ex)
                ck.ob("groupby/%s/%d/%s" % (ex, oi, first), "exactly the described groups are kept", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)
    for n, cl in itertools.product((True, False), repeat=2):
        for width, origin, ks in ((2, 0, [0.0, 2.0, -4.0]), (0.5, 0.25, [0.25, 1.25, -0.75])):
            ax = Groupbin("g", width, origin, n, cl)
            ks = ks + (["NaN"] if n else [])
            lab = lambda k: Lab("nan") if k == "NaN" else Lab("iv", k, k + width, cl, not cl)
            right = ("<", ">=") if cl else (">", "<=")
            for v in [ks[0], ks[1], ks[1] + width, ks[0] + width / 4.0, INF, -INF, NAN]:
                for cmp in ("<", "<=", ">", ">=", "==", "!="):
                    if v in (INF, -INF) and cmp in ("==", "!=") or v != v and cmp not in ("==", "!="):
                        continue
                    vs = dict((k, judgebin(lab(k), cmp, v)) for k in ks)
                    must = (v == v and v not in (INF, -INF) and cmp in right and v != ks[0] + width / 4.0) or (v != v)
                    for oi, oth in enumerate(([], [Bin("v", 1, 0, 2)], [Groupby("c")])):
                        axes = oth + [ax]
                        order = ordered(axes)
                        cont = content(axes, False, [["a", "b"] if a["expr"] == "c" else ks for a in order if a["axis"] in GROUP], odd=3 if oi == 1 else 0)
                        j = hjson(order, cont)
                        # a bin that holds nothing may be cut; the keys at hand are the only bins
                        aligned = v != v or v in (INF, -INF) or ((v - origin) / width) == round((v - origin) / width) and cmp in right
                        ref = None if not aligned else takebins(cont, order, order.index(ax), lambda k: vs[k] == X)
                        src = OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % ("g %s %s" % (cmp, num(v)))

                        def judge(m, r, ref=ref, must=must, order=order, ex="g %s %s" % (cmp, num(v))):
                            if r[0] != "ok":
                                return "%r was refused (%s)" % (ex, r[0]) if must else None
                            if ref is None:
                                return "%r cuts through bins but was accepted" % ex
                            g = r[1].v[0]
                            return diff(g["axis"], [dict(a) for a in order], "axes after %r" % ex) or cdiff(g["content"], ref, "cells selected by %r" % ex)
                        ck.ob("groupbin/%s%g/%s%s/%d" % (short(ax), width, cmp, num(v), oi), "exactly the described groups are kept", src, lambda m, j=j: {"j": absv(m, j), "snap": snapfn()}, judge)
    # conjunctions over one or several axes
    AX = [Bin("x", 4, 0, 4), Intbin("n", 0, 3), Groupby("c"), Cut("k")]
    conds = [("x >= 1", 0, lambda l: judgebin(l, ">=", 1)), ("x < 3", 0, lambda l: judgebin(l, "<", 3)), ("x != nan", 0, lambda l: judgebin(l, "!=", NAN)), ("n > 0", 1, lambda l: judgebin(l, ">", 0, True)), ("n <= 2", 1, lambda l: judgebin(l, "<=", 2, True)),
             ("c != 'a'", 2, lambda k: X if k != "a" else OUT), ("c < 'e'", 2, lambda k: X if k < "e" else OUT), ("k", 3, lambda l: X if l.lo else OUT)]
    order = ordered(AX)
    cont = content(AX, True, [strs])
    jj = hjson(order, cont, weight="w")
    for r in (2, 3):
        for combo in itertools.combinations(conds, r):
            if not ck.thorough and r == 3 and len(set(c[1] for c in combo)) == 3 and combo[0][0] != "x >= 1":
                continue
            for perm in ([combo, combo[::-1]] if r == 2 else [combo]):
                ex = " and ".join(c[0] for c in perm)
                ref = cont
                lab = [labels(a) if a["axis"] in FIXED else None for a in order]
                drop = False
                for i, a in reversed(list(enumerate(order))):
                    mine = [c[2] for c in combo if AX[c[1]] is a]
                    if not mine:
                        continue
                    if a["axis"] in GROUP:
                        ref = takebins(ref, order, i, lambda k: all(f(k) == X for f in mine))
                    else:
                        ok = [q for q, l in enumerate(lab[i]) if all(f(l) == X for f in mine)]
                        ref = takebins(ref, order, i, lambda q: q in ok, a["axis"] == "cut")
                src = OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % ex

                def judge(m, v, ex=ex, ref=ref):
                    if v[0] != "ok":
                        return "%r was refused (%s)" % (ex, v[0])
                    return cdiff(v[1].v[0]["content"], ref, "cells selected by %r" % ex)
                ck.ob("and/%s" % ex, "conjunctions keep the common bins", src, lambda m: {"j": absv(m, jj), "snap": snapfn()}, judge)
    # chained comparison
    for ex, f in (("1 <= x < 3", lambda l: judgebin(l, ">=", 1) == X and judgebin(l, "<", 3) == X), ("3 > x >= 1", lambda l: judgebin(l, ">=", 1) == X and judgebin(l, "<", 3) == X)):
        lab = labels(AX[0])
        ref = takebins(cont, order, order.index(AX[0]), lambda q: f(lab[q]))
        ck.ob("and/%s" % ex, "conjunctions keep the common bins", OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % ex, lambda m: {"j": absv(m, jj), "snap": snapfn()},
              lambda m, v, ex=ex, ref=ref: "%r was refused" % ex if v[0] != "ok" else cdiff(v[1].v[0]["content"], ref, "cells selected by %r" % ex))
    # later fills go by the published labels; unfilled histograms
    def envf(m):
        return {"x": arr(m, [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 9.0, NAN]), "n": arr(m, list(range(-4, 7))), "w": arr(m, [sym("w%d" % i) for i in range(11)]), "snap": snapfn()}
    xs, ns = [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 9.0, NAN], list(range(-4, 7))
    for u, o, n, cl in flags:
        for ax in (Bin("x", 4, 0, 4, u, o, n, cl), Split("x", (0, 1, 3), u, o, n, cl)):
            for ex in (("x < 3", "x >= 1", "x >= 1 and x < 3", "x != nan", "x == nan", "x < 0", "x >= 3") if cl else ("x <= 3", "x > 1", "x > 1 and x <= 3", "x != nan", "x <= 0", "x > 3")):
                src = OBS + "h = %s\nst, r = run(h, %r)\nif r is None:\n    return None\nb = snap(r.tojson())\nr.fill(x=x, w=w)\nr.fill(x=x, w=w)\nreturn b, snap(r.tojson())" % (hist([ax], weight="w"), ex)

                def judge(m, v, ex=ex):
                    if v is None:
                        return None
                    if v[0].v.get("content") is not None:
                        return "selection from an unfilled histogram is filled"
                    a = v[1].v["axis"][0]
                    ref = fillref([a], [([locate(a, ("c", q))], [], [], sym("w%d" % i)) for i, q in enumerate(xs)] * 2, True)
                    return cdiff(v[1].v["content"], ref, "content after filling the selection %r" % ex)
                ck.ob("fill/%s/%s/%s" % (ax["axis"], short(ax), ex), "later fills go by the published labels", src, envf, judge)
    for u, o in itertools.product((True, False), repeat=2):
        ax = Intbin("n", -1, 2, u, o)
        for ex in ("n > 0", "n <= 1", "n >= 0 and n < 2", "n < inf"):
            src = OBS + "h = %s\nst, r = run(h, %r)\nr.fill(n=n, w=w)\nreturn snap(r.tojson())" % (hist([ax], weight="w"), ex)

            def judge(m, v, ex=ex):
                a = v.v["axis"][0]
                return cdiff(v.v["content"], fillref([a], [([locate(a, ("c", q))], [], [], sym("w%d" % i)) for i, q in enumerate(ns)], True), "content after filling the selection %r" % ex)
            ck.ob("fill/%s/%s" % (short(ax), ex), "later fills go by the published labels", src, envf, judge)
    # a definition or the same quantity written differently names the axis
    for ex, h in (("2 > y", "Hist(bin('x + 1', 4, 0, 4), defs={'y': 'x + 1'})"), ("1 + x < 2", "Hist(bin('x + 1', 4, 0, 4))"), ("x + 1 < 1 + 1", "Hist(bin('x + 1', 4, 0, 4))")):
        src = OBS + "h = %s\nh.fill(x=x)\nst, r = run(h, %r)\nreturn st, None if r is None else snap(r.tojson())" % (h, ex)
        ax = Bin("x + 1", 4, 0, 4)
        ref = fillref([ax], [([locate(ax, ("c", q + 1))], [], [], None) for q in xs])[:3]
        ck.ob("expr/%s" % ex, "the axis is found by the quantity it bins", src, envf, lambda m, v, ex=ex, ref=ref: "%r was refused" % ex if v[0] != "ok" else cdiff(v[1].v["content"], ref, "cells selected by %r" % ex))
    # groups of other types than text
    for kn, ks, conds in (("bool", [True, False], (("c", lambda k: k), ("not c", lambda k: not k), ("c == True", lambda k: k), ("c != True", lambda k: not k), ("c == False", lambda k: not k), ("c and v < 1", None), ("not c and v < 1", None))),
                          ("int", [0, 1, 2, -3], (("c == 1", lambda k: k == 1), ("1 == c", lambda k: k == 1), ("c != 1", lambda k: k != 1), ("c < 1", lambda k: k < 1), ("1 < c", lambda k: k > 1), ("c <= 1", lambda k: k <= 1), ("c >= 1", lambda k: k >= 1), ("1 >= c", lambda k: k <= 1), ("c in {0, -3}", lambda k: k in (0, -3)), ("c not in {0, -3}", lambda k: k not in (0, -3)), ("c == 0 or c == 2", lambda k: k in (0, 2)), ("0 <= c < 2", lambda k: 0 <= k < 2), ("not (c == 0 or c > 1)", lambda k: not (k == 0 or k > 1)), ("c < 0 or c > 1", lambda k: k < 0 or k > 1), ("c == -3", lambda k: k == -3), ("c == 7", lambda k: False))),
                          ("float", [0.5, 1.5, -2.0], (("c == 0.5", lambda k: k == 0.5), ("c != 0.5", lambda k: k != 0.5), ("c < 0.75", lambda k: k < 0.75), ("c >= 0.5", lambda k: k >= 0.5), ("c in {0.5, 1.5}", lambda k: k > 0), ("c < 0 or c == 1.5", lambda k: k in (-2.0, 1.5))))):
        for oth, at in (([Bin("v", 2, 0, 2)], 0), ([Groupby("d"), Bin("v", 2, 0, 2)], 1)):
            axes = oth[:at] + [Groupby("c")] + oth[at:]
            cont = content(axes, False, [["u", "x"], ks] if at else [ks])
            for cond, pred in conds:
                ref = takebins(cont, axes, at, pred if pred else (lambda k, cond=cond: bool(k) != ("not" in cond)))
                if pred is None:
                    ref = takebins(ref, axes, at + 1, lambda q: q < 2)
                ck.ob("type/%s/%d/%s" % (kn, at, cond), "exactly the described groups are kept", OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % cond, lambda m, j=hjson(axes, cont): {"j": absv(m, j), "snap": snapfn()},
                      lambda m, r, cond=cond, ref=ref: "%r was refused (%s)" % (cond, r[0]) if r[0] != "ok" else cdiff(r[1].v[0]["content"], ref, "cells selected by %r" % cond))
    # the tolerance holds for every part of a condition
    axes = [Bin("x", 4, 0, 4), Split("s", (0.0, 1.0, 2.0)), Groupbin("g", 1.0)]
    order = ordered(axes)
    cont = content(axes, False, [[0.0, 1.0, "NaN"]])
    at = dict((a["expr"], order.index(a)) for a in axes)
    keep = {"x >= 1": ("x", (2, 3, 4, 5)), "x < 3": ("x", (0, 1, 2, 3)), "s < 2": ("s", (0, 1, 2)), "s >= 1": ("s", (2, 3)), "g < 1": ("g", (0.0,)), "g >= 1": ("g", (1.0,))}
    for off, tol, good in ((0.01, 0.1, True), (0.01, 0.001, False), (-0.01, 0.1, True), (-0.01, 0.001, False), (1e-11, None, False), (1e-14, None, True)):
        for r in (1, 2, 3):
            for combo in itertools.combinations(sorted(keep), r):
                if not ck.thorough and r == 3 and combo[0] != "g < 1":
                    continue
                for perm in (combo, combo[::-1])[:r]:
                    for exact in range(r):
                        cond = " and ".join(c if i < exact else c[:-1] + "%.15g" % (int(c[-1]) + off) for i, c in enumerate(perm))
                        ref = cont
                        for c in perm:
                            e, ks = keep[c]
                            if e != "g":
                                ks = tuple(q for q in ks if all(q in keep[d][1] for d in perm if keep[d][0] == e))
                            ref = takebins(ref, order, at[e], lambda q, ks=ks: q in ks) if e == "g" or c == [d for d in perm if keep[d][0] == e][0] else ref
                        src = "h = Hist.fromjson(j)\ntry:\n    r = h.select(%r%s)\nexcept ValueError:\n    return 'refused', None\nreturn 'ok', snap(r.tojson())" % (cond, "" if tol is None else ", tolerance=%r" % tol)
                        ck.ob("tol/%s/%s" % (cond, tol), "the tolerance holds for every part of a condition", src, lambda m, j=hjson(order, cont): {"j": absv(m, j), "snap": snapfn()},
                              lambda m, r, cond=cond, ref=ref, good=good, tol=tol: ("%r with tolerance %r was %s" % (cond, tol, "refused" if good else "accepted")) if (r[0] == "ok") != good else None if not good else cdiff(r[1].v["content"], ref, "cells selected by %r" % cond))
    # edges that are closer together than the default tolerance: the one that is named
    tight = (1.0, 1.0 + 4e-13, 1.0 + 9e-13, 2.0)
    for i, t in enumerate(tight):
        for cl, cond in ((True, "x < %r"), (True, "x >= %r"), (False, "x <= %r"), (False, "x > %r")):
            ax = Split("x", tight, cl=cl)
            cont = content([ax], False, [])
            ref = cont[:i + 1] if "<" in cond else cont[i + 1:-1]
            for tol in (None, 1e-13):
                src = "h = Hist.fromjson(j)\nr = h.select(%r%s)\nreturn snap(r.tojson()), snap([k.low for k in r.axis[0].keys()])" % (cond % t, "" if tol is None else ", tolerance=%r" % tol)
                ck.ob("near/%s/%d/%s" % (cond, i, tol), "the nearest edge is the one that is selected", src, lambda m, j=hjson([ax], cont): {"j": absv(m, j), "snap": snapfn()},
                      lambda m, v, ref=ref, cond=cond, t=t: cdiff(v[0].v["content"], ref, "cells selected by %r of edges %r" % (cond % t, tight)))
    # thresholds written with constants
    from math import pi, e as E_
    consts = [("pi", pi), ("Pi", pi), ("-pi", -pi), ("2*pi", 2 * pi), ("pi/2", pi / 2), ("-pi/2", -pi / 2), ("1/pi", 1 / pi), ("-1/pi", -1 / pi), ("pi - 1", pi - 1), ("1 - pi", 1 - pi), ("pi + e", pi + E_), ("e - pi", E_ - pi), ("-e - pi", -E_ - pi), ("pi*e", pi * E_), ("pi/e", pi / E_), ("2 + 3*pi/4", 2 + 3 * pi / 4),
              ("-2*e*pi", -2 * E_ * pi), ("pi - 2*e", pi - 2 * E_), ("pi**2", pi ** 2), ("1/(2*pi)", 0.5 / pi), ("3 - 1", 2.0), ("10/4", 2.5), ("2**3", 8.0), ("-(1 + 2)", -3.0), ("7 % 4 + 0.25", 3.25)]
    for ex, v in consts:
        for name, ax in (("split", Split("x", (v - 1.5, v, v + 2.0))), ("bin", Bin("x", 4, v - 2, v + 2)), ("groupbin", Groupbin("x", 0.5, v))):
            for cond, cmp in (("x < %s" % ex, "<"), ("%s > x" % ex, "<"), ("x >= %s" % ex, ">="), ("%s <= x" % ex, ">=")):
                ks = [v - 1.0, v, v + 0.5, "NaN"]
                cont = content([ax], False, [ks])
                if name == "groupbin":
                    ref = takebins(cont, [ax], 0, lambda k: k != "NaN" and (k < v if cmp == "<" else k >= v))
                else:
                    n = {"split": 2, "bin": 3}[name]
                    ref = cont[:n] if cmp == "<" else cont[n:-1]
                ck.ob("const/%s/%s" % (name, cond), "thresholds may be written with constants", OBS + "h = Hist.fromjson(j)\nst, r = run(h, %r)\nreturn st, None if r is None else obs(r)" % cond, lambda m, j=hjson([ax], cont): {"j": absv(m, j), "snap": snapfn()},
                      lambda m, r, cond=cond, ref=ref: "%r was refused (%s)" % (cond, r[0]) if r[0] != "ok" else cdiff(r[1].v[0]["content"], ref, "cells selected by %r" % cond))
