"""C03 tables report the statistics of each bin."""
import itertools
from ..spec import *
from ..values import sym, mk

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of table(): bin contents are symbols standing for every positive number (and explicit zeros for empty bins); "
           "each abstract column entry must equal the documented formula over the same symbols, for every combination of options")
ASSUME = ["entries are compared as real-number terms; floating-point rounding is not distinguished",
          "bins with a negative sum of weights are outside the claim"]
RULE = "column terms equal the documented formulas"


def formulas(cell, nprof, weighted, wanted, count=True, effcount=False, error=True):
    """Expected row for one bin."""
    sumw = cell[2 * nprof]
    zero = isinstance(sumw, (int, float)) and sumw == 0
    sumw2 = cell[2 * nprof + 1] if weighted else None
    out = []
    if count:
        out.append(sumw)
        if error:
            out.append(mk("sqrt", sumw2 if weighted else sumw) if not zero else 0.0)
    eff = 0.0 if zero else (mk("/", mul(sumw, sumw), sumw2) if weighted else sumw)
    if effcount:
        out.append(eff)
    for p in wanted:
        mean = 0.0 if zero else mk("/", cell[2 * p], sumw)
        out.append(mean)
        if error:
            out.append(0.0 if zero else mk("sqrt", mk("/", mk("-", mk("/", cell[2 * p + 1], sumw), mul(mean, mean)), eff)))
    return out


def names(wanted, profs, count=True, effcount=False, error=True):
    out = []
    if count:
        out.append("count()")
        if error:
            out.append("err(count())")
    if effcount:
        out.append("effcount()")
    for p in wanted:
        out.append(profs[p])
        if error:
            out.append("err(%s)" % profs[p])
    return out


def rows(cont, depth, f):
    if isinstance(cont, dict):
        return dict((k, rows(v, depth, f)) for k, v in cont.items())
    if depth == 0:
        return f(cont)
    return [rows(v, depth - 1, f) for v in cont]


def blank(c, which):
    """Zero the content of every bin whose running number is in `which` (empty bins)."""
    cnt = itertools.count()

    def go(x):
        if isinstance(x, dict):
            return dict((k, go(v)) for k, v in x.items())
        if isinstance(x[0], list):
            return [go(v) for v in x]
        return [0.0] * len(x) if next(cnt) in which else x
    return go(c)


CONFIGS = [
    ("none", [], []),
    ("bin", [Bin(numbins=2, low=0, high=2)], []),
    ("bin.split", [Bin(numbins=2, low=0, high=2, u=False), Split("y2", (0, 1, 3), n=False)], []),
    ("split.bin", [Split("y2", (0, 1, 3), n=False), Bin(numbins=3, low=0, high=2, u=False)], []),
    ("cut.intbin", [Cut("x > 0"), Intbin("k", 0, 1)], []),
    ("groupby.bin", [Groupby("c"), Bin(numbins=2, low=0, high=2)], [["a", "b"]]),
    ("groupby", [Groupby("c")], [["a", "b", "d"]]),
    ("groupby.groupbin.bin", [Groupby("c"), Groupbin("g", 2.0), Bin(numbins=2, low=0, high=2, n=False)], [["a", "b"], [0.0, 2.0]]),
]


def run(ck):
    ck.anchor("Hist", "Hist.table", "Hist.fromjson", "profile")
    profs = ["p", "q*2", "r"]
    for name, axes, keys in CONFIGS:
        nfix = sum(1 for a in axes if a["axis"] in FIXED)
        for np_, weighted in itertools.product((0, 1, 2, 3), ("none", "w", "filter")):
            if np_ == 3 and not ck.thorough and name not in ("bin", "groupby.bin"):
                continue
            full = axes + [Profile(p) for p in profs[:np_]]
            wt = weighted != "none"
            cont = blank(content(full, wt, keys), (1,))
            j = hjson(full, cont, weight="w" if weighted == "w" else None, filter="f > 0" if weighted == "filter" else None)
            wanteds = [()] + [(i,) for i in range(np_)] + ([(1, 0)] if np_ == 2 else []) + ([(2, 0), (0, 1, 2)] if np_ == 3 else [])
            for wanted in wanteds:
                opts = [dict(), dict(effcount=True), dict(error=False), dict(count=False, effcount=True), dict(count=False)]
                for o in opts:
                    cols = names(wanted, profs, **o)
                    if not cols:
                        continue
                    args = ", ".join([repr(profs[p]) for p in wanted] + ["%s=%r" % kv for kv in o.items()])
                    want = rows(cont, nfix, lambda cell: formulas(cell, np_, wt, wanted, **o))
                    key = "%s/%s/p%d/%s/%s" % (name, weighted, np_, "".join(map(str, wanted)), ",".join("%s=%s" % kv for kv in o.items()))

                    def judge(m, v, want=want, cols=cols):
                        t, c = host(m, v)
                        return diff(list(c), cols, "column labels") or diff(t, want, "table")
                    ck.ob(key + "/plain", RULE, "h = Hist.fromjson(j)\nreturn h.table(%s)" % ", ".join(x for x in (args, "recarray=False, columns=True") if x), lambda m, j=j: {"j": absv(m, j)}, judge)

                    def judger(m, v, want=want, cols=cols):
                        def go(g, w, path):
                            if isinstance(w, dict):
                                if not isinstance(g, dict) or set(g) != set(w):
                                    return "table%s has keys %r, expected %r" % (path, g, sorted(w))
                                for k in w:
                                    d = go(g[k], w[k], "%s[%r]" % (path, k))
                                    if d:
                                        return d
                                return None
                            if not (isinstance(g, tuple) and len(g) == 3 and g[0] == "rec"):
                                return "table%s is not a record array" % path
                            return diff(list(g[1]), cols, "column labels") or diff(g[2], w, "table" + path)
                        return go(host(m, v), want, "")
                    if o in (opts[0], opts[1]) or ck.thorough:
                        ck.ob(key + "/rec", "record arrays carry the same columns", "h = Hist.fromjson(j)\nreturn h.table(%s)" % args, lambda m, j=j: {"j": absv(m, j)}, judger)

            # normalized: proportional to count / bin width, summing to one
            if np_ <= 1:
                widths = [width(a) for a in axes if a["axis"] in FIXED]
                gw = 1.0
                for a in axes:
                    if a["axis"] == "groupbin":
                        gw *= a["binwidth"]

                def norm(c, np_=np_, wt=wt, widths=widths, gw=gw):
                    cells = []

                    def collect(x, d, w):
                        if d == len(widths):
                            cells.append((x, w))
                            return
                        for i, y in enumerate(x):
                            collect(y, d + 1, None if w is None or widths[d][i] is None else w * widths[d][i])
                    collect(c, 0, gw)
                    total = 0.0
                    for x, w in cells:
                        if w is not None:
                            total = add(total, mk("/", x[2 * np_], w))
                    it = iter(cells)

                    def rebuild(x, d):
                        if d == len(widths):
                            cell, w = next(it)
                            s = cell[2 * np_]
                            e = cell[2 * np_ + 1] if wt else s
                            if w is None:
                                return [0.0, 0.0]
                            den = mul(total, w)
                            return [mk("/", s, den), 0.0 if isinstance(e, float) and e == 0 else mk("/", mk("sqrt", e), den)]
                        return [rebuild(y, d + 1) for y in x]
                    return rebuild(c, 0)

                def perarray(c):
                    return dict((k, perarray(v)) for k, v in c.items()) if isinstance(c, dict) else norm(c)
                ncont = content(full, wt, keys) if not nfix else cont       # an empty array has no normalization
                j = hjson(full, ncont, weight="w" if weighted == "w" else None, filter="f > 0" if weighted == "filter" else None)
                want = perarray(ncont)
                ck.ob("%s/%s/p%d/normalized" % (name, weighted, np_), "normalized counts are densities that add up to one", "h = Hist.fromjson(j)\nreturn h.table(normalized=True, recarray=False)",
                      lambda m, j=j: {"j": absv(m, j)}, lambda m, v, want=want: diff(host(m, v), want, "table"))

    # tables of histograms that were filled, and unfilled ones
    ys = [sym("y%d" % i) for i in range(4)]
    ws = [sym("w%d" % i) for i in range(4)]
    ax = Bin("x", 2, 0, 2)
    ref = fillref([ax, Profile("y")], [([i], [], [ys[n]], ws[n]) for n, i in enumerate([1, 2, 1, 3])], True)
    ck.ob("filled", "tables describe what was filled", "h = Hist(%s, profile('y'), weight='w')\nh.fill(x=x, y=y, w=w)\nreturn h.table('y', recarray=False)" % ctor(ax),
          lambda m: {"x": arr(m, [0.5, 1.5, 0.0, 2.0]), "y": arr(m, ys), "w": arr(m, ws)}, lambda m, v: diff(host(m, v), rows(ref, 1, lambda c: formulas(c, 1, True, (0,))), "table"))
    for nm, axes, w in (("bin", [ax, Profile("y")], True), ("plain", [Profile("y")], False), ("cut", [Cut("x > 0")], False)):
        z = zeros(shape(axes, w))
        nf = sum(1 for a in axes if a["axis"] in FIXED)
        npf = sum(1 for a in axes if a["axis"] == "profile")
        ck.ob("unfilled/" + nm, "tables of unfilled histograms are zero", "h = %s\nreturn h.table(%s)" % (hist(axes, weight="w" if w else None), ", ".join((["'y'"] if npf else []) + ["recarray=False"])), None,
              lambda m, v, z=z, nf=nf, npf=npf, w=w: diff(host(m, v), rows(z, nf, lambda c: formulas(c, npf, w, tuple(range(npf)))), "table"))
    ck.ob("unfilled/group", "tables of unfilled histograms are zero", "return Hist(groupby('c'), bin('x', 2, 0, 2)).table()", None, lambda m, v: diff(host(m, v), {}, "table"))
    ck.ob("byaxis", "profiles can be named by axis", "h = Hist.fromjson(j)\nreturn h.table(profile('y'), recarray=False)", lambda m: {"j": absv(m, hjson([ax, Profile("x"), Profile("y")], content([ax, Profile("x"), Profile("y")])))},
          lambda m, v: diff(host(m, v), rows(content([ax, Profile("x"), Profile("y")]), 1, lambda c: formulas(c, 2, False, (1,))), "table"))
    ck.ob("wrong", "unknown profiles are refused", "h = Hist(bin('x', 2, 0, 2), profile('y'))\nreturn h.table('z')", None, lambda m, v: "table of a profile that does not exist was produced", lambda m, e: None)


def width(ax):
    out = []
    k = ax["axis"]
    e = edges(ax) if k in ("bin", "split") else None
    if k == "cut":
        return [1, 1]
    for l in labels(ax):
        if l.kind == "int":
            out.append(1)
        elif l.kind == "iv" and l.lo != -INF and l.hi != INF:
            out.append(l.hi - l.lo)
        else:
            out.append(None)
    return out
