"""C02 fill accumulates the right statistics."""
import itertools
from ..spec import *
from ..values import sym, mk

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of fill(): every entry carries its own symbolic weight and profile value; the abstract cell terms after one or "
           "several fills must equal the reference sums (count or sum of weights, sum of squared weights, weighted sum and weighted sum of squares per profile)")
ASSUME = ["sums are compared as real-number terms; floating-point rounding and order of addition are not distinguished"]

RULE = "cell terms equal the reference sums"


def data(n):
    xs = [0.5, 1.5, 1.5, -1.0, 9.0, NAN, 0.0, 2.0][:n]
    cs = ["a", "b", "a", "a", "c", "b", "b", "a"][:n]
    gs = [0.5, 2.5, 0.5, 2.5, 4.5, 0.5, 2.5, NAN][:n]
    return xs, cs, gs


CONFIGS = [
    ("plain", []),
    ("bin", [Bin("x", 2, 0, 2)]),
    ("binflow", [Bin("x", 2, 0, 2, u=False, o=False, n=False)]),
    ("splitflow", [Split("x", (0, 1, 2), u=False, o=False, n=False)]),
    ("bin.bin", [Bin("x", 2, 0, 2), Bin("x + 1", 3, 0, 3)]),
    ("bin.binflow", [Bin("x", 2, 0, 2, u=False), Bin("x + 1", 3, 0, 3, o=False, n=False)]),
    ("3d", [Bin("x", 2, 0, 2), Cut("x > 1"), Split("x + 1", (0, 1, 2))]),
    ("4d", [Cut("x > 1"), Bin("x", 2, 0, 2, u=False, n=False), Bin("x + 1", 3, 0, 3, o=False, n=False), Split("x", (0, 1, 2), u=False)]),
    ("5d", [Bin("x", 1, 0, 2, u=False, n=False), Cut("x > 1"), Split("x + 1", (0, 1), u=False, n=False), Bin("x", 2, 0, 2, o=False, n=False), Cut("x > 1")]),
    ("groupby", [Groupby("c")]),
    ("groupby.bin", [Groupby("c"), Bin("x", 2, 0, 2)]),
    ("groupby.groupbin", [Groupby("c"), Groupbin("g", 2)]),
    ("groupby.groupbin_.binflow", [Groupby("c"), Groupbin("g", 2, n=False), Bin("x", 2, 0, 2, u=False, n=False)]),
    ("groupbin.groupby.split", [Groupbin("g", 2), Groupby("c"), Split("x", (0, 1, 2))]),
]


def place(ax, x, c, g):
    k = ax["axis"]
    if k == "groupby":
        return c
    if k == "groupbin":
        return groupkey(ax, ("c", g))
    v = x + 1 if ax["expr"] == "x + 1" else x
    if k == "cut":
        return 1 if v > 1 else 0
    return locate(ax, ("c", v))


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "profile")
    for (name, axes), prof, wt in itertools.product(CONFIGS, (0, 1, 2), ("none", "w", "const", "filter", "filter*w", "nanw", "expr", "filter*expr", "orfilter*sum", "andfilter")):
        if name == "plain" and prof == 0 and wt in ("none", "const"):
            continue            # reads no field at all, so the number of entries in a fill is not defined
        if not ck.thorough and prof == 2 and wt in ("const", "filter"):
            continue
        n = 8
        xs, cs, gs = data(n)
        ys = [sym("y%d" % i) for i in range(n)]
        zs = [sym("z%d" % i) for i in range(n)]
        ws = [sym("w%d" % i) for i in range(n)]
        if wt == "nanw":
            ws[2] = NAN
            ws[5] = NAN
        full = axes + [Profile("y"), Profile("z")][:prof]
        opts = {}
        if wt in ("w", "nanw"):
            opts["weight"] = "w"
            eff = [0 if w is NAN else w for w in ws]
        elif wt == "const":
            opts["weight"] = 2.5
            eff = [2.5] * n
        elif wt == "filter":
            opts["filter"] = "x < 2"
            eff = [1 if x < 2 else 0 for x in xs]
        elif wt == "filter*w":
            opts["filter"] = "x < 2"
            opts["weight"] = "w"
            eff = [w if x < 2 else 0 for x, w in zip(xs, ws)]
        elif wt == "filter*expr":
            opts["filter"] = "x < 2"
            opts["weight"] = "w*y + 1"
            eff = [add(mul(w, y), 1) if x < 2 else 0 for x, w, y in zip(xs, ws, ys)]
        elif wt == "orfilter*sum":
            opts["filter"] = "x < 1 or x > 8"
            opts["weight"] = "y - w"
            eff = [add(y, mul(-1, w)) if x < 1 or x > 8 else 0 for x, w, y in zip(xs, ws, ys)]
        elif wt == "andfilter":
            opts["filter"] = "x < 2 and not x < 1"
            eff = [1 if x < 2 and not x < 1 else 0 for x in xs]
        elif wt == "expr":
            opts["weight"] = "w*y + 1"
            eff = [add(mul(w, y), 1) for w, y in zip(ws, ys)]
        else:
            eff = [None] * n
        weighted = wt != "none"
        rows = []
        for i in range(n):
            rows.append(([place(a, xs[i], cs[i], gs[i]) for a in axes if a["axis"] in FIXED], [place(a, xs[i], cs[i], gs[i]) for a in axes if a["axis"] in GROUP], [ys[i], zs[i]][:prof], eff[i]))

        def env(m, xs=xs, cs=cs, gs=gs, ys=ys, zs=zs, ws=ws):
            d = {"x": xs, "c": cs, "g": gs, "y": ys, "z": zs, "w": ws}
            out = {}
            for k, v in d.items():
                out[k] = arr(m, v)
                out[k + "1"] = arr(m, v[:3])
                out[k + "2"] = arr(m, v[3:])
                out[k + "0"] = arr(m, v[:0], NP.STR if k == "c" else NP.F8)
            return out
        fields = "x=x{0}, c=c{0}, g=g{0}, y=y{0}, z=z{0}, w=w{0}"
        key = "%s/prof%d/%s" % (name, prof, wt)

        def judge(m, v, full=full, rows=rows, weighted=weighted, what=""):
            return cdiff(host(m, v), fillref(full, rows, weighted), "content" + what)
        new = "h = %s\n" % hist(full, **opts)
        ck.ob(key + "/once", RULE, new + "h.fill(%s)\nreturn h.tojson().get('content')" % fields.format(""), env, judge)
        ck.ob(key + "/dict", RULE, new + "h.fill(dict(%s))\nreturn h.tojson().get('content')" % fields.format(""), env, judge) if wt in ("none", "w") or ck.thorough else None
        ck.ob(key + "/twice", "fills add up", new + "h.fill(%s)\nh.fill(%s)\nreturn h.tojson().get('content')" % (fields.format("1"), fields.format("2")), env, judge)
        if wt in ("none", "w", "nanw") or ck.thorough:
            def judge2(m, v, full=full, rows=rows, weighted=weighted):
                return cdiff(host(m, v), fillref(full, rows + rows, weighted), "content after filling the same data twice")
            ck.ob(key + "/same", "fills add up", new + "h.fill(%s)\nh.fill(%s)\nreturn h.tojson().get('content')" % (fields.format(""), fields.format("")), env, judge2)
            ck.ob(key + "/empty", "fills add up", new + "h.fill(%s)\nh.fill(%s)\nreturn h.tojson().get('content')" % (fields.format("0"), fields.format("")), env, judge)

    # scalars are one-element arrays; scalars broadcast along arrays; chained dict + keywords
    y, w = sym("y"), sym("w")
    ck.ob("scalar/all", "numbers are broadcast", "h = Hist(bin('x', 2, 0, 2), profile('y'), weight='w')\nh.fill(x=1.5, y=y, w=w)\nreturn h.tojson()['content']", lambda m: {"y": y, "w": w},
          lambda m, v: diff(host(m, v), fillref([Bin("x", 2, 0, 2), Profile()], [([2], [], [y], w)], True), "content"))
    ws = [sym("w%d" % i) for i in range(3)]
    ck.ob("scalar/mixed", "numbers are broadcast", "h = Hist(bin('x', 2, 0, 2), profile('y'), weight='w')\nh.fill({'x': 1.5, 'y': y}, w=w)\nreturn h.tojson()['content']", lambda m: {"y": y, "w": arr(m, ws)},
          lambda m, v: diff(host(m, v), fillref([Bin("x", 2, 0, 2), Profile()], [([2], [], [y], q) for q in ws], True), "content"))
    ck.ob("scalar/group", "numbers are broadcast", "h = Hist(groupby('c'), bin('x', 2, 0, 2), weight='w')\nh.fill({'x': 1.5, 'c': 'k'}, w=w)\nreturn h.tojson()['content']", lambda m: {"y": y, "w": arr(m, ws)},
          lambda m, v: cdiff(host(m, v), fillref([Groupby(), Bin("x", 2, 0, 2)], [([2], ["k"], [], q) for q in ws], True), "content"))
    ck.ob("chain/precedence", "keyword fields complement and override the positional ones", "h = Hist(bin('x', 2, 0, 2), weight='w')\nh.fill({'x': x, 'w': x}, w=w)\nreturn h.tojson()['content']", lambda m: {"x": arr(m, [0.5, 1.5, 0.5]), "w": arr(m, ws)},
          lambda m, v: diff(host(m, v), fillref([Bin("x", 2, 0, 2)], [([1], [], [], ws[0]), ([2], [], [], ws[1]), ([1], [], [], ws[2])], True), "content"))
    ck.ob("ctor/fill", "data passed to the constructor are filled", "h = Hist(bin('x', 2, 0, 2), weight='w', fill={'x': x, 'w': w})\nreturn h.tojson()['content']", lambda m: {"x": arr(m, [0.5, 1.5, 0.5]), "w": arr(m, ws)},
          lambda m, v: diff(host(m, v), fillref([Bin("x", 2, 0, 2)], [([1], [], [], ws[0]), ([2], [], [], ws[1]), ([1], [], [], ws[2])], True), "content"))
    ck.ob("ctor/fill1", "data passed to the constructor are filled", "h = Hist(bin('x', 2, 0, 2), fill=x)\nreturn h.tojson()['content']", lambda m: {"x": arr(m, [0.5, 1.5, 0.5])},
          lambda m, v: diff(host(m, v), [[0.0], [2.0], [1.0], [0.0], [0.0]], "content"))
    # lists instead of arrays
    ck.ob("lists", "any sequence is accepted as a field", "h = Hist(bin('x', 2, 0, 2), groupby('c'))\nh.fill(x=[0.5, 1.5, 0.5], c=['u', 'v', 'u'])\nreturn h.tojson()['content']", None,
          lambda m, v: cdiff(host(m, v), fillref([Groupby(), Bin("x", 2, 0, 2)], [([1], ["u"], [], None), ([2], ["v"], [], None), ([1], ["u"], [], None)]), "content"))
    # defs
    ck.ob("defs", "definitions are substituted", "h = Hist(bin('r', 2, 0, 2), weight='q', defs={'r': 'x + y', 'q': 'w*2'})\nh.fill(x=x, y=x, w=w)\nreturn h.tojson()['content']", lambda m: {"x": arr(m, [0.25, 0.75, 0.25]), "w": arr(m, ws)},
          lambda m, v: diff(host(m, v), fillref([Bin("r", 2, 0, 2)], [([1], [], [], mul(2, ws[0])), ([2], [], [], mul(2, ws[1])), ([1], [], [], mul(2, ws[2]))], True), "content"))
    # constant weights of every sign and size, alone and with a filter
    for cw in (0.5, 0, -1, 1, 1.0, 3, 1e-3, -2.5):
        for filt in (None, "x < 1"):
            for nm, axes in (("bin", [Bin("x", 2, 0, 2)]), ("binflow.prof", [Bin("x", 2, 0, 2, u=False, n=False), Profile("y")]), ("groupby", [Groupby("c"), Profile("y")])):
                xs, cs, ys = [0.5, 1.5, -1.0, 0.5], ["a", "b", "a", "b"], [sym("y%d" % i) for i in range(4)]
                rows = [([place(a, xs[i], cs[i], 0) for a in axes if a["axis"] in FIXED], [cs[i]] if nm == "groupby" else [], [ys[i]] if len(axes) > 1 else [], cw if filt is None or xs[i] < 1 else 0) for i in range(4)]

                def env(m, xs=xs, cs=cs, ys=ys):
                    return {"x": arr(m, xs), "c": arr(m, cs), "y": arr(m, ys)}

                def judge(m, v, axes=axes, rows=rows):
                    return cdiff(host(m, v), fillref(axes, rows, True), "content")
                ck.ob("constweight/%r/%s/%s" % (cw, filt is not None, nm), RULE, "h = %s\nh.fill(x=x, c=c, y=y)\nreturn h.tojson().get('content')" % hist(axes, weight=cw, filter=filt), env, judge)
    # integer and boolean fields of every size: no product may wrap around
    for dt, vals in (("i1", [-128, 127, 100, 100]), ("u1", [255, 200, 0, 255]), ("i2", [-32768, 32767, 300, 300]), ("u2", [65535, 300, 0, 60000]), ("i4", [-2147483648, 2147483647, 70000, 70000]), ("u4", [4294967295, 70000, 0, 4000000000]), ("i8", [4000000000, -4000000000, 2 ** 40, 3]), ("u8", [5000000000, 2 ** 40, 0, 1]), ("b1", [True, True, False, True]), ("f4", [1e20, 16777215.0, 0.5, 3.25]), ("f2", [60000.0, 2047.0, 300.0, 0.5])):
        vals = vals if dt[0] != "f" else [NP.narrowfloat(None, q, NP.DType(dt)) for q in vals]
        for nm, axes, opts, eff, prof in (("profile", [Bin("x", 2, 0, 2), Profile("y")], {}, None, True), ("weight", [Bin("x", 2, 0, 2)], {"weight": "y"}, 1, False), ("both", [Bin("x", 2, 0, 2, u=False), Profile("y")], {"weight": "y"}, 1, True), ("profile*const", [Bin("x", 2, 0, 2), Profile("y")], {"weight": 2}, 2, True), ("filter", [Bin("x", 2, 0, 2), Profile("y")], {"filter": "x < 1"}, "f", True),
                                       ("filter*weight", [Groupby("c"), Profile("y")], {"filter": "x < 1", "weight": "y"}, "fw", True), ("groupby", [Groupby("c"), Profile("y")], {}, None, True)):
            xs, cs = [0.5, 1.5, -1.0, 0.5], ["a", "b", "a", "b"]
            num = [float(q) for q in vals]
            wts = [None if eff is None else num[i] if eff == 1 else 2 if eff == 2 else (1 if xs[i] < 1 else 0) if eff == "f" else (num[i] if xs[i] < 1 else 0) for i in range(4)]
            rows = [([place(a, xs[i], cs[i], 0) for a in axes if a["axis"] in FIXED], [cs[i]] if axes[0]["axis"] == "groupby" else [], [num[i]] if prof else [], wts[i]) for i in range(4)]

            def env(m, xs=xs, cs=cs, vals=vals, dt=dt):
                return {"x": arr(m, xs), "c": arr(m, cs), "y": arr(m, vals, NP.B1 if dt == "b1" else NP.DType(dt))}

            def judge(m, v, axes=axes, rows=rows, weighted=eff is not None):
                return cdiff(host(m, v), fillref(axes, rows, weighted), "content")
            ck.ob("integer/%s/%s" % (dt, nm), "integer fields of any size are the numbers they hold", "h = %s\nh.fill(x=x, c=c, y=y)\nreturn h.tojson().get('content')" % hist(axes, **opts), env, judge)

    # texts of any length, also given once for all entries, as numpy values and in other languages
    words = ["a", "", "muon", "a long name with spaces", "x" * 40, "\u03bc\u207a", "NaN", "0"]
    for i, word in enumerate(words):
        for how, val in (("word", "word"), ("array", "numpy.array(word)"), ("list", "[word, word, word]"), ("array1", "numpy.array([word, word, word])")):
            ck.ob("words/%d/%s" % (i, how), "texts are kept whole", "h = Hist(groupby('c'), bin('x', 2, 0, 2), weight='w')\nword = %r\nh.fill(x=x, c=%s, w=w)\nreturn h.tojson()['content']" % (word, val), lambda m: {"x": arr(m, [0.5, 1.5, 0.5]), "w": arr(m, ws)},
                  lambda m, v, word=word: cdiff(host(m, v), fillref([Groupby("c"), Bin("x", 2, 0, 2)], [([1], [word], [], ws[0]), ([2], [word], [], ws[1]), ([1], [word], [], ws[2])], True), "content"))
    ck.ob("words/mixed", "texts are kept whole", "h = Hist(groupby('c'), weight='w')\nh.fill(c=c, w=w)\nh.fill(c=c[:1], w=w[:1])\nh.fill(c='a longer name than the others have had', w=w[:1])\nreturn h.tojson()['content']", lambda m: {"c": arr(m, words), "w": arr(m, [sym("w%d" % i) for i in range(len(words))])},
          lambda m, v: cdiff(host(m, v), fillref([Groupby("c")], [([], [q], [], sym("w%d" % i)) for i, q in enumerate(words)] + [([], ["a"], [], sym("w0")), ([], ["a longer name than the others have had"], [], sym("w0"))], True), "content"))
    # many groups, many bins: no index may run over
    for nm, axis, ax, n, key in (("groupby", "groupby('k')", Groupby("k"), 300, int), ("groupbin", "groupbin('k', 1)", Groupbin("k", 1), 300, float), ("groupbin.half", "groupbin('k', 0.5, origin=-0.5)", Groupbin("k", 0.5, origin=-0.5), 140, float)):
        ck.ob("many/%s" % nm, "fills with many groups", "h = Hist(%s, weight='w')\nh.fill(k=k, w=w)\nreturn h.tojson()['content']" % axis, lambda m, n=n: {"k": arr(m, list(range(n))), "w": arr(m, [sym("w%d" % i) for i in range(n)])},
              lambda m, v, ax=ax, n=n, key=key: cdiff(host(m, v), fillref([ax], [([], [key(i)], [], sym("w%d" % i)) for i in range(n)], True), "content"))
    big = [("bin", [Bin("x", 70000, 0, 70000)]), ("intbin", [Intbin("x", 0, 70000)]), ("bin.bin", [Bin("x", 300, 0, 300), Bin("y", 300, 0, 300)]), ("intbin.bin.cut", [Intbin("x", 0, 200), Bin("y", 250, 0, 250, u=False), Cut("x > 100")]), ("split.bin", [Split("x", tuple(range(260))), Bin("y", 300, 0, 300, n=False)])]
    for nm, axes in big:
        pts = [(0, 0), (1, 2), (127, 128), (128, 127), (129, 200), (199, 249), (180, 240), (69999, 5)]

        def env(m, pts=pts):
            return {"x": arr(m, [float(q) for q, _ in pts]), "y": arr(m, [float(q) + 0.5 for _, q in pts]), "w": arr(m, [sym("w%d" % i) for i in range(len(pts))])}
        cells = {}
        for i, (px, py) in enumerate(pts):
            pos = tuple(locate(a, ("c", float(px) if a["expr"] == "x" else py + 0.5)) if a["axis"] != "cut" else int(px > 100) for a in axes)
            cells.setdefault(pos, []).append(sym("w%d" % i))

        def judge(m, v, cells=cells):
            got = host(m, v)
            for (pos, terms), (one, _) in zip(sorted(cells.items(), key=lambda q: q[0]), got[0]):
                want = 0
                for t in terms:
                    want = add(want, t)
                d = diff(one, want, "bin %s" % (pos,))
                if d:
                    return d
            return None if got[1] == len(cells) else "%s bins are filled, expected %d" % (got[1], len(cells))
        src = "h = %s\nh.fill(x=x, y=y, w=w)\nc = h.tojson()['content']\nout = []\nfor pos in %r:\n    q = c\n    for i in pos:\n        q = q[i]\n    out.append(q)\nflat = [c]\nfor i in range(%d):\n    flat = [q for p in flat for q in p]\nn = 0\nfor q in flat:\n    if not (isinstance(q[0], float) and q[0] == 0.0):\n        n += 1\nreturn out, n" % (hist(axes, weight="w"), sorted(cells), len(axes))
        ck.ob("big/%s" % nm, "fills of many bins", src, env, judge)
    # three and four group axes: every combination of keys has its own bins
    G = {"c": Groupby("c"), "d": Groupby("d"), "e": Groupby("e"), "g": Groupbin("g", 2), "k": Groupbin("k", 1, n=False)}
    gd = {"c": ["a", "a", "b", "b", "a", "a", "b", "a"], "d": ["u", "v", "u", "v", "u", "u", "u", "v"], "e": ["p", "p", "p", "q", "q", "p", "p", "q"], "g": [0.5, 0.5, 2.5, 0.5, NAN, 2.5, 0.5, 0.5], "k": [0.5, 1.5, 0.5, 0.5, 1.5, 0.5, 1.5, 1.5]}
    for combo in ("cde", "edc", "cdg", "cgd", "gcd", "gkc", "gck", "cgk", "cdeg", "gcdk", "kgce"):
        for rest, prof, weighted in (([], 0, True), ([Bin("x", 2, 0, 2)], 0, False), ([Bin("x", 2, 0, 2), Profile("y")], 1, True), ([Cut("x > 1"), Split("x", (0, 1, 2), u=False), Profile("y")], 1, False)):
            axes = [G[q] for q in combo] + rest
            xs = [0.5, 1.5, 0.5, 0.5, 1.5, 1.5, 0.5, 0.5]
            ys, wz = [sym("y%d" % i) for i in range(8)], [sym("w%d" % i) for i in range(8)]
            rows = [([place(a, xs[i], None, None) for a in rest if a["axis"] in FIXED], [gd[q][i] if q in "cde" else groupkey(G[q], ("c", gd[q][i])) for q in combo], [ys[i]] if prof else [], wz[i] if weighted else None) for i in range(8)]

            def env(m, xs=xs, ys=ys, wz=wz):
                out = dict((k, arr(m, v)) for k, v in gd.items())
                out.update({"x": arr(m, xs), "y": arr(m, ys), "w": arr(m, wz)})
                return out
            for how, code in (("once", "h.fill(x=x, y=y, w=w, c=c, d=d, e=e, g=g, k=k)"), ("twice", "h.fill(x=x[:3], y=y[:3], w=w[:3], c=c[:3], d=d[:3], e=e[:3], g=g[:3], k=k[:3])\nh.fill(x=x[3:], y=y[3:], w=w[3:], c=c[3:], d=d[3:], e=e[3:], g=g[3:], k=k[3:])")):
                ck.ob("groups/%s/%s/%s" % (combo, len(rest), how), "every combination of keys has its own bins", "h = %s\n%s\nreturn h.tojson()['content']" % (hist(axes, **({"weight": "w"} if weighted else {})), code), env, lambda m, v, axes=axes, rows=rows, weighted=weighted: cdiff(host(m, v), fillref(axes, rows, weighted), "content"))
    # a table with columns (pandas) is the same as its columns
    frame = """
class Column(object):
    def __init__(self, values):
        self.values = values
class DataFrame(object):
    def __init__(self, data):
        self._data = data
        self.columns = list(data)
    def __getitem__(self, n):
        return Column(self._data[n])
    def __len__(self):
        return len(self._data[self.columns[0]])
    def __iter__(self):
        return iter(self.columns)
DataFrame.__module__ = "pandas.core.frame"
"""
    for nm, what in (("hist", "h = Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), weight='w')"), ("book", "b = Book({'s': Book({'h': Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), weight='w')})})\nh = b['s/h']"), ("ctor", None)):
        ys3 = [sym("y%d" % i) for i in range(3)]
        tab = "DataFrame({'x': x, 'q': w, 'y': y, 'c': c, 'w': w})"
        src = frame + (what + "\n%s.fill(%s)\n%s.fill(%s)" % ("b" if nm == "book" else "h", tab, "b" if nm == "book" else "h", tab)) if what else frame + "h = Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), weight='w')\nh.fill(%s)\nh.fill(x=x, y=y, c=c, w=w)" % tab
        rows2 = [([1], ["u"], [ys3[0]], ws[0]), ([2], ["v"], [ys3[1]], ws[1]), ([1], ["u"], [ys3[2]], ws[2])] * 2
        ck.ob("frame/%s" % nm, "a pandas table is its columns", src + "\nreturn h.tojson()['content']", lambda m, ys3=ys3: {"x": arr(m, [0.5, 1.5, 0.5]), "c": arr(m, ["u", "v", "u"]), "y": arr(m, ys3), "w": arr(m, ws)},
              lambda m, v, rows2=rows2: cdiff(host(m, v), fillref([Groupby("c"), Bin("x", 2, 0, 2), Profile("y")], rows2, True), "content"))
