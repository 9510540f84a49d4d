"""C27 fraction reports the share of each bin's entries that pass each cut."""
import itertools
import math
from ..spec import *
from ..values import mk
from .c03 import blank, rows
from .c13 import ordered, project

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of fraction(): bin contents are symbols standing for every positive number (and zeros for empty bins); each row must hold the sum over all outcomes of the requested cuts, and for each cut the sum of the "
           "passing bins divided by it with its error, for every set of cuts and every option")
ASSUME = ["entries are compared as real-number terms", "bins with a negative sum of weights are outside the claim", "of the documented error options, only the implemented formula 'normal' (the default) is claimed"]

ONE = math.erf(math.sqrt(0.5))


def sigmas(level):
    lo, hi = 0.0, 10.0
    for _ in range(200):
        mid = (lo + hi) / 2
        if math.erf(mid / math.sqrt(2)) < level:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


C1, C2, C3 = Cut("a > 0"), Cut("b > 0"), Cut("a + b < 3")
CONFIGS = [
    ("cut", [C1], []), ("bin.cut", [Bin("x", 2, 0, 2), C1], []), ("cut.bin", [C1, Bin("x", 2, 0, 2, n=False)], []), ("cut.cut", [C1, C2], []), ("cut.bin.cut", [C1, Bin("x", 2, 0, 2, u=False), C2], []), ("split.cut.intbin", [Split("x", (0.0, 1.0)), C1, Intbin("k", 0, 1)], []), ("cut.cut.cut", [C2, C3, C1], []),
    ("groupby.cut", [Groupby("c"), C1], [["u", "v"]]), ("groupby.cut.bin", [Groupby("c"), C1, Bin("x", 1, 0, 2)], [["u", "v"]]), ("groupby.groupbin.cut.cut", [Groupby("c"), Groupbin("g", 2.0), C1, C2], [["u", "v"], [0.0, "NaN"]]), ("bin.cut.bin.cut", [Bin("x", 1, 0, 2, n=False), C2, Bin("y", 2, 0, 2, u=False, o=False), C1], [])]


def run(ck):
    ck.anchor("Hist", "Hist.fraction", "Hist.fromjson", "cut")
    for name, axes, keys in CONFIGS:
        cuts = [a for a in axes if a["axis"] == "cut"]
        for nprof, weighted in itertools.product((0, 1, 2), ("none", "w", "filter")):
            full = axes + [Profile("p%d" % i) for i in range(nprof)]
            wt = weighted != "none"
            ncol = 2 * nprof + (2 if wt else 1)
            base = content(full, wt, keys)
            nfix = [a for a in axes if a["axis"] in FIXED]
            cells = 1
            for a in nfix:
                cells *= totbins(a)
            wanted = [(c,) for c in range(len(cuts))] + [w for w in itertools.permutations(range(len(cuts)), 2)] + ([(2, 0, 1)] if len(cuts) == 3 else []) + [()]
            for holes in ((), (0, 1), tuple(range(cells))) if ck.thorough or nprof < 2 else ((0, 1),):
                cont = blank(base, holes)
                j = hjson(full, cont, weight="w" if weighted == "w" else None, filter="f > 0" if weighted == "filter" else None)
                for w in wanted:
                    chosen = [cuts[i] for i in w]
                    ord_ = [a for a in axes if a["axis"] in GROUP] + nfix
                    keep = [a not in chosen for a in ord_]
                    denom = project(cont, ord_, keep, ncol)
                    nums = []
                    for c in chosen:
                        sel = take(cont, ord_, c)
                        nums.append(project(sel, [a for a in ord_ if a is not c], [a not in chosen for a in ord_ if a is not c], ncol))
                    left = [a for a in nfix if a not in chosen]
                    for o in (dict(), dict(error=None), dict(count=False), dict(level=0.95), dict(level=(ONE, 0.9), count=False), dict(level=[0.5, 0.99])) if ck.thorough or not holes else (dict(), dict(count=False, level=0.95)):
                        if "level" in o and not ck.thorough and (wt or nprof) and name != "bin.cut":
                            continue
                        error, count, levels = o.get("error", "normal"), o.get("count", True), o.get("level", ONE)
                        levels = [levels] if isinstance(levels, float) else levels
                        cols = (["count()"] if count else [])
                        for c in chosen:
                            cols.append(c["expr"])
                            if error:
                                cols += ["err(%s)" % c["expr"] if l == ONE else "err(%s, %s)" % (c["expr"], "{0:3g}".format(l)) for l in levels]
                        if not cols:
                            continue

                        def row(d, ns, nprof=nprof, count=count, error=error, levels=levels):
                            n = d[2 * nprof]
                            zero = isinstance(n, (int, float)) and n == 0
                            out = [n] if count else []
                            for q in ns:
                                p = 0.0 if zero else mk("/", q[2 * nprof], n)
                                out.append(p)
                                if error:
                                    for l in levels:
                                        out.append(0.0 if zero else mul(sigmas(l), mk("sqrt", mk("/", mul(p, mk("-", 1.0, p)), n))))
                            return out
                        want = zipc(denom, nums, len(left), row)
                        args = ", ".join([repr(c["expr"]) for c in chosen] + ["%s=%r" % kv for kv in o.items()])
                        key = "%s/%s/p%d/%s/%s/%s" % (name, weighted, nprof, "".join(map(str, w)), len(holes), ",".join("%s=%s" % kv for kv in o.items()))

                        def judge(m, v, want=want, cols=cols):
                            t, c = host(m, v)
                            return diff(list(c), cols, "column labels") or diff(t, want, "fractions")
                        ck.ob(key + "/plain", "each row holds the denominator and the passing share", "h = Hist.fromjson(j)\nreturn h.fraction(%s)" % ", ".join(x for x in (args, "recarray=False, columns=True") if x), lambda m, j=j: {"j": absv(m, j)}, judge)
                        if not o and not holes:
                            def judger(m, v, want=want, cols=cols):
                                def go(g, w, path):
                                    if isinstance(w, dict):
                                        if not isinstance(g, dict) or set(g) != set(w):
                                            return "the result%s has keys %r, expected %r" % (path, g, sorted(w))
                                        for k in w:
                                            d = go(g[k], w[k], "%s[%r]" % (path, k))
                                            if d:
                                                return d
                                        return None
                                    if not (isinstance(g, tuple) and len(g) == 3 and g[0] == "rec"):
                                        return "the result%s is not a record array" % path
                                    return diff(list(g[1]), cols, "column labels") or diff(g[2], w, "fractions" + path)
                                return go(host(m, v), want, "")
                            ck.ob(key + "/rec", "record arrays carry the same columns", "h = Hist.fromjson(j)\nreturn h.fraction(%s)" % args, lambda m, j=j: {"j": absv(m, j)}, judger)
                            if chosen:
                                ck.ob(key + "/axis", "a cut may be given by its expression or as the axis", "h = Hist.fromjson(j)\nreturn h.fraction(%s)" % ", ".join(ctor(c) for c in chosen), lambda m, j=j: {"j": absv(m, j)}, judger)
                                ck.ob(key + "/member", "a cut may be given by its expression or as the axis", "h = Hist.fromjson(j)\nreturn h.fraction(%s)" % ", ".join("h.axis.cut(%r)" % c["expr"] for c in chosen), lambda m, j=j: {"j": absv(m, j)}, judger)
                                ck.ob(key + "/source", "the histogram is not changed", "h = Hist.fromjson(j)\nh.fraction(%s)\nreturn h.tojson()['content']" % args, lambda m, j=j: {"j": absv(m, j)}, lambda m, v, cont=cont: cdiff(host(m, v), cont, "content afterwards"))
    B = "Hist(bin('x', 2, 0, 2), cut('a > 0'), profile('p'))"
    for i, e in enumerate(("h.fraction('b > 0')", "h.fraction('x')", "h.fraction('p')", "h.fraction(cut('b > 0'))", "h.fraction(h.axis[0])", "h.fraction(profile('p'))", "h.fraction('a > 0', nosuchoption=1)", "h.fraction(3.5)", "h.fraction('a > 0', error='clopper-pearson')")):
        ck.ob("refused/%d" % i, "other axes and options are refused", "h = %s\ntry:\n    %s\nexcept Exception:\n    return True\nreturn False" % (B, e), lambda m: {}, lambda m, v, e=e: None if host(m, v) is True else "%s was accepted" % e)
    for n in ("fresh", "cleared"):
        src = "h = Hist(bin('x', 1, 0, 2, underflow=False, nanflow=False), cut('a > 0'))\n%sreturn h.fraction('a > 0', recarray=False)" % ("h.fill(x=[1.0], a=[1.0])\nh.clear()\n" if n == "cleared" else "")
        ck.ob("empty/" + n, "an empty bin has fraction zero", src, lambda m: {}, lambda m, v: diff(host(m, v), [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]], "fractions"))


def take(c, axes, cut):
    """The content where `cut` passed (its axis removed)."""
    if axes[0] is cut:
        return c[1]
    if isinstance(c, dict):
        return dict((k, take(x, axes[1:], cut)) for k, x in c.items())
    return [take(x, axes[1:], cut) for x in c]


def zipc(d, ns, depth, f):
    if isinstance(d, dict):
        return dict((k, zipc(x, [n[k] for n in ns], depth, f)) for k, x in d.items())
    if depth == 0:
        return f(d, ns)
    return [zipc(x, [n[i] for n in ns], depth - 1, f) for i, x in enumerate(d)]
