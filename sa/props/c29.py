"""C29 plots show exactly the table: positions, values, groups and scopes of Vega-Lite documents."""
import ast
import itertools
import re
from ..spec import *
from ..values import mk
from .c03 import blank, formulas, width
from .c13 import project

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of vegalite(): bin contents are symbols; the document is read the way a plotting program reads it (data rows, filters and calculations in order, then each encoding channel's field), and the points of every "
           "mark must be those of the bins of the projected histogram: position of the bin, value and error of that bin, and the labels of its colour, row and column, for every kind of plot, chain of channels, axis order, option and nesting of combinations")
ASSUME = ["positions are claimed to a relative accuracy of 1e-6 of the axis range", "the drawing of the document by a Vega-Lite implementation", "appearance (titles of the vertical axis, legends, mark interpolation) is not claimed", "group labels that print alike are not distinguished"]

B2, B3, BQ = Bin("x", 2, 0, 2), Bin("v", 3, -1.5, 3, u=False, o=False, n=False), Bin("z", 1, 4, 8, u=False, cl=False)
SP, SQ = Split("s", (0, 1, 3.5)), Split("t", (-2, 0.25, 8), u=False, n=False)
IB, IQ, CT, C2 = Intbin("n", 0, 1), Intbin("m", -1, 1, u=False, o=False), Cut("a > 0"), Cut("b < 1")
GB, GN = Groupby("c"), Groupbin("g", 2)
KEYS = {"c": ["p", "q"], "g": [0.0, 2.0]}
MISSING = object()


# ------------------------------------------------------------------ reading a document

def calc(text, row):
    """Value of a Vega expression over datum fields (differences, sums, conditions on labels)."""
    t = ast.parse(re.sub(r"\bif\(", "if_(", text.replace("===", "==")), mode="eval").body

    def go(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Attribute):
            return row.get(n.attr, MISSING)
        if isinstance(n, ast.Subscript):
            return row.get(n.slice.value, MISSING)
        if isinstance(n, ast.BinOp):
            a, b = go(n.left), go(n.right)
            if a is MISSING or b is MISSING:
                return MISSING
            return mk({"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}[type(n.op).__name__], a, b)
        if isinstance(n, ast.Compare):
            return go(n.left) == go(n.comparators[0])
        if isinstance(n, ast.Call) and n.func.id == "if_":
            return go(n.args[1]) if go(n.args[0]) else go(n.args[2])
        raise ValueError("cannot read the calculation %r" % text)
    return go(t)


def unit(spec, data):
    rows = [dict(r) for r in data]
    for t in spec.get("transform", []):
        if "filter" in t:
            f = t["filter"]
            rows = [r for r in rows if r.get(f["field"], MISSING) == f["equal"]]
        elif "calculate" in t:
            for r in rows:
                r[t["as"]] = calc(t["calculate"], r)
        else:
            raise ValueError("unknown transform %r" % (t,))
    pts = []
    for r in rows:
        pts.append(dict((c, r.get(e["field"], MISSING)) for c, e in spec["encoding"].items() if "field" in e))
    return dict(spec=spec, points=pts, rows=rows)


def flatten(spec, data):
    """Tree of ('h'|'v', children) with lists of units (layers) at the leaves."""
    data = spec.get("data", {}).get("values", data)
    for k, tag in (("hconcat", "h"), ("vconcat", "v")):
        if k in spec:
            return (tag, [flatten(x, data) for x in spec[k]])
    if "layer" in spec:
        out = []
        for x in spec["layer"]:
            u = flatten(x, data)
            if isinstance(u, tuple):
                raise ValueError("plots side by side within a layer")
            out += u
        return out
    return [unit(spec, data)]


# ------------------------------------------------------------------ expected points

def num(a, b, tol):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= tol


def iv(lo, hi):
    return ("iv", lo, hi)


def istext(got, lab):
    """Does the text name this bin?"""
    if not isinstance(got, str):
        return False
    if lab[0] == "text":
        return got == lab[1]
    if lab[0] == "nan":
        return "nan" in got.lower()
    if lab[0] == "int" and got == str(lab[1]):
        return True
    mt = re.match(r"^[\[(]\s*([^\s,]+),\s*([^\s,]+)[\])]$", got.strip())
    if not mt:
        return False
    lo, hi = float(mt.group(1)), float(mt.group(2))
    want = {"int": lambda: (lab[1] - 0.5, lab[1] + 0.5)}.get(lab[0], lambda: (lab[1], lab[2]))()
    # flow bins of integer axes may be described by the integer or by the edge half an integer further
    slack = 0.5 if lab[-1] == "half" else 0.0
    return all(x == y or (abs(x) < INF and abs(y) < INF and abs(x - y) <= max(slack, 1e-5 * max(abs(x), abs(y)))) for x, y in zip((lo, hi), want))


def binlabels(ax, keys):
    """[(text label, (low, high) or None)] of the bins of one axis in order."""
    if ax["axis"] == "groupby":
        return [(("text", str(k)), None) for k in keys]
    if ax["axis"] == "groupbin":
        return [(("nan",), None) if k == "NaN" else (iv(k, k + ax["binwidth"]), (k, k + ax["binwidth"])) for k in keys]
    out = []
    for l in labels(ax):
        if l.kind == "bool":
            out.append((("text", "pass" if l.lo else "fail"), None))
        elif l.kind == "nan":
            out.append((("nan",), None))
        elif l.kind == "int":
            out.append((("int", l.lo), (l.lo - 0.5, l.lo + 0.5)))
        else:
            fin = (l.lo, l.hi) if -INF < l.lo and l.hi < INF else None
            out.append((("iv", l.lo, l.hi) + (("half",) if ax["axis"] == "intbin" else ()), fin))
    return out


NUMERIC = ("bin", "split", "intbin")


def span(ax):
    fin = [p for _, p in binlabels(ax, ()) if p is not None]
    return fin[0][0], fin[-1][1]


def value(cell, nprof, wt, prof, error):
    if prof is None:
        r = formulas(cell, nprof, wt, (), count=True, error=True)
    else:
        r = formulas(cell, nprof, wt, (prof,), count=False, error=True)
    return r if error else r[:1]


def cells(cont, axes, path=()):
    """[(bin number or key per axis, cell)]"""
    if not axes:
        return [(path, cont)]
    out = []
    for k, x in (cont.items() if isinstance(cont, dict) else enumerate(cont)):
        out += cells(x, axes[1:], path + (k,))
    return out


def label(ax, k):
    return (binlabels(ax, [k])[0] if ax["axis"] in GROUP else binlabels(ax, ())[k])


def points1(proj, cont, last, chain, nprof, wt, prof, method, error, log, norm=False):
    """Expected points of a one-dimensional plot: [(channels, value, error, error position)]."""
    out = []
    quant = last["axis"] in NUMERIC and method != "bar"
    total = 0.0
    if norm:
        for path, cell in cells(cont, proj):
            w = width(last)[path[0]]
            if w is not None:
                total = add(total, mk("/", cell[2 * nprof], w))
    for path, cell in cells(cont, proj):
        v = value(cell, nprof, wt, prof, error)
        if norm:
            w = width(last)[path[0]]
            v = [0.0 if w is None or (isinstance(x, float) and x == 0.0) else mk("/", x, mul(total, w)) for x in v]
        chs = {}
        for ch, ax in chain:
            chs[ch] = ("label", label(ax, path[proj.index(ax)])[0])
        lab, fin = label(last, path[proj.index(last)])
        e = v[1] if error else None
        if not quant:
            out.append((dict(chs, x=("label", lab)), v[0], e, ("label", lab)))
            continue
        if fin is None:
            continue
        lo, hi = span(last)
        mid = 0.5 * (fin[0] + fin[1])
        tol = 1e-6 * (hi - lo)
        if method in ("step", "area"):
            out.append((dict(chs, x=("at", fin[0], tol)), v[0], e, ("at", mid, tol)))
            for edge in ([lo] if fin[0] == lo else []) + ([hi] if fin[1] == hi else []):
                out.append((dict(chs, x=("at", edge, 0.0)), 0.0, 0.0 if error else None, None))
        else:
            out.append((dict(chs, x=("at", mid, tol)), v[0], e, ("at", mid, tol)))
    if log:
        out = [p for p in out if not (isinstance(p[1], (int, float)) and p[1] <= 0)]
    return out


def fits(got, want):
    if want is None:
        return True
    if want[0] == "label":
        return istext(got, want[1])
    return num(got, want[1], want[2])


def match(actual, expected, loose, what):
    """Pair up points; expected: [(channels, value)]. With loose, points with value zero may be absent or additional (groups without entries)."""
    rest = list(actual)
    for chs, vals in sorted(expected, key=lambda e: sum(INF if w is None else w[2] if w[0] == "at" else 0.0 for w in e[0].values())):
        hit = None
        for i, p in enumerate(rest):
            if all(fits(p.get(c, MISSING), w) for c, w in chs.items()) and all(p.get(c, MISSING) is not MISSING and not isinstance(p[c], str) and diff(p[c], w, "") is None for c, w in vals.items()):
                hit = i
                break
        if hit is None:
            if loose and all(isinstance(w, (int, float)) and w == 0 for w in vals.values()):
                continue
            near = [p for p in rest if all(fits(p.get(c, MISSING), w) for c, w in chs.items())]
            return "%s: no point %r with values %r%s" % (what, chs, vals, "; at that position: %r" % ([dict((c, show(p.get(c))) for c in vals) for p in near[:3]],) if near else "")
        rest.pop(hit)
    for p in rest:
        if any(x is MISSING for x in p.values()):
            return "%s draws a row of another plot" % what
        if loose and all(isinstance(p.get(c), (int, float)) and p[c] == 0 for c in (expected[0][1] if expected else {})):
            continue
        return "%s: additional point %r" % (what, p)
    return None


def show(x):
    return "nothing" if x is MISSING else x


class Plot(object):
    """One plot: client source and expected reading."""

    def __init__(self, axes, cont, wt, chain, method, last, prof=None, error=None, log=False, order=None, opts="", norm=False):
        self.fixed = [a for a in axes if a["axis"] in FIXED]
        self.groups = [a for a in axes if a["axis"] in GROUP]
        self.profs = [a for a in axes if a["axis"] == "profile"]
        self.wt, self.chain, self.method, self.last, self.log, self.order = wt, chain, method, last, log, order
        self.prof, self.norm = prof, norm
        self.error = (method == "marker") if error is None else error
        ord_ = self.groups + self.fixed
        used = [a for _, a in chain] + (list(last) if method == "heatmap" else [last])
        ncol = 2 * len(self.profs) + (2 if wt else 1)
        self.proj = [a for a in ord_ if a in used]
        self.cont = project(cont, ord_, [a in used for a in ord_], ncol)
        self.loose = any(a["axis"] in GROUP for a in used)
        links = "".join(".%s(%r%s)" % ({"color": "overlay", "stack": "stack", "column": "beside", "row": "below"}[ch], ax["expr"], ", order=%r" % (order,) if order and ch == "stack" else "") for ch, ax in chain)
        args = [repr(a["expr"]) for a in (last if method == "heatmap" else [last])]
        if prof is not None:
            args.append("profile=%r" % self.profs[prof]["expr"])
        if error is not None:
            args.append("error=%r" % error)
        if norm:
            args.append("normalized=True")
        if opts:
            args.append(opts)
        self.src = "%s.%s(%s)" % (links, method, ", ".join(args))

    def judge(self, layers, what):
        heat = self.method == "heatmap"
        err = self.error and not heat
        if len(layers) != (2 if err else 1):
            return "%s has %d marks, expected %d" % (what, len(layers), 2 if err else 1)
        main = layers[0]
        enc = main["spec"]["encoding"]
        n = len(self.profs)
        chain = [("color" if ch == "stack" else ch, ax) for ch, ax in self.chain]
        mark = main["spec"]["mark"]
        mark = mark["type"] if isinstance(mark, dict) else mark
        if heat:
            exp = []
            for path, cell in cells(self.cont, self.proj):
                chs = dict((ch, ("label", label(ax, path[self.proj.index(ax)])[0])) for ch, ax in chain)
                skip = False
                for ch, ax in zip("xy", self.last):
                    lab, fin = label(ax, path[self.proj.index(ax)])
                    if ax["axis"] in ("bin", "intbin", "split", "groupbin"):
                        if fin is None:
                            skip = True
                            continue
                        lo, hi = span(ax) if ax["axis"] in NUMERIC else fin
                        chs[ch] = ("at", 0.5 * (fin[0] + fin[1]), 1e-6 * (hi - lo))
                    else:
                        chs[ch] = ("label", lab)
                if not skip:
                    exp.append((chs, {"color": value(cell, n, self.wt, self.prof, False)[0]}))
            want = "rect"
            for ch, ax in zip("xy", self.last):
                b = enc[ch].get("bin")
                if ax["axis"] in ("bin", "intbin"):
                    lo, hi = span(ax)
                    nb = len([1 for _, f in binlabels(ax, ()) if f is not None])
                    if not isinstance(b, dict) or not num(b.get("extent", [None])[0], lo, 1e-9) or not num(b.get("extent", [0, None])[1], hi, 1e-9) or not num(b.get("minstep"), (hi - lo) / nb, 1e-9 * (hi - lo)) or not b.get("maxbins", 0) >= nb:
                        return "%s bins channel %s as %r, expected %d bins from %r to %r" % (what, ch, b, nb, lo, hi)
                    if enc[ch].get("type") != "quantitative":
                        return "%s has numeric positions of type %r" % (what, enc[ch].get("type"))
                elif b:
                    return "%s bins channel %s of labels" % (what, ch)
                if enc[ch].get("axis", {}).get("title") != ax["expr"]:
                    return "%s titles channel %s %r" % (what, ch, enc[ch].get("axis", {}).get("title"))
        else:
            quant = self.last["axis"] in NUMERIC and self.method != "bar"
            pts = points1(self.proj, self.cont, self.last, chain, n, self.wt, self.prof, self.method, err, self.log, self.norm)
            exp = [(c, {"y": v}) for c, v, e, p in pts]
            want = {"bar": "bar", "step": "line" if quant else "bar", "area": "area" if quant else "bar", "line": "line", "marker": "point"}[self.method]
            for l in layers:
                t = l["spec"]["encoding"]["x"].get("type")
                if (t == "quantitative") != quant:
                    return "%s: %s positions of mark %r have type %r" % (what, "numeric" if quant else "labelled", l["spec"]["mark"], t)
            if enc["x"].get("axis", {}).get("title") != self.last["expr"]:
                return "%s titles the horizontal axis %r" % (what, enc["x"].get("axis", {}).get("title"))
        if mark != want:
            return "%s is drawn with mark %r, expected %r" % (what, mark, want)
        for ch in ("color", "row", "column", "order"):
            has = ch in dict(chain) or (heat and ch == "color") or (ch == "order" and any(c == "stack" for c, _ in self.chain))
            if (ch in enc) != has:
                return "%s %s channel %s" % (what, "lacks" if has else "has a spurious", ch)
        d = match(main["points"], exp, self.loose, what)
        if d:
            return d
        for ch, ax in self.chain:
            if ch in ("color", "stack") and not heat:
                dom = enc["color"].get("scale", {}).get("domain")
                texts = set(p["color"] for p in main["points"])
                labs = self.labelsof(ax)
                if self.order and ch == "stack":
                    if list(dom) != list(reversed(self.order)):
                        return "%s has colours for %r, expected the given order reversed" % (what, dom)
                    ranks = list(self.order)
                else:
                    if dom is None or not texts <= set(dom):
                        return "%s has colours for %r but the data says %r" % (what, dom, sorted(texts))
                    o = list(reversed(dom)) if ch == "stack" else list(dom)
                    idx = [[i for i, l in enumerate(labs) if istext(t, l)] for t in o if t in texts]
                    if any(len(i) != 1 for i in idx) or idx != sorted(idx):
                        return "%s orders colours as %r" % (what, o)
                    ranks = o
                if ch == "stack":
                    got = {}
                    for p in main["points"]:
                        got.setdefault(p["color"], set()).add(p["order"])
                    if any(len(x) != 1 for x in got.values()):
                        return "%s: stacking order of a label differs between points" % what
                    known = [t for t in ranks if t in got]
                    seq = [list(got[t])[0] for t in known]
                    if seq != sorted(seq) or len(set(seq)) != len(seq):
                        return "%s stacks %r in the order %r" % (what, known, seq)
                    if enc["y"].get("aggregate") not in (None, "sum"):
                        return "%s aggregates %r" % (what, enc["y"]["aggregate"])
        if err:
            rule = layers[1]
            pts = points1(self.proj, self.cont, self.last, chain, n, self.wt, self.prof, self.method, True, self.log, self.norm)
            exp = [({"x": p}, {"y": mk("-", v, e), "y2": mk("+", v, e)}) for c, v, e, p in pts]
            return match(rule["points"], exp, self.loose, what + " error bars")
        return None

    def labelsof(self, ax):
        if ax["axis"] not in GROUP:
            return [l for l, _ in binlabels(ax, ())]
        ks = []
        for path, _ in cells(self.cont, self.proj):
            k = path[self.proj.index(ax)]
            if k not in ks:
                ks.append(k)
        return [l for l, _ in binlabels(ax, sorted(k for k in ks if k != "NaN") + [k for k in ks if k == "NaN"])]


def read(m, v):
    doc = host(m, v)
    if not isinstance(doc, dict):
        raise ValueError("not a document")
    return doc, flatten(doc, [])


RULE = "the points of every mark are the bins' positions, values and labels"


def configs():
    """(axes, chain, last) families: every pair and triple of axis roles in both axis orders."""
    one = [B2, B3, BQ, SP, SQ, IB, IQ, CT, GB, GN]
    for a in one:
        yield [a], [], a
    lasts = [B2, SQ, IQ, CT, GB, GN, IB]
    chans = [CT, IB, GB, GN, B3, SP]
    for l in lasts:
        for c in chans:
            if c is l or (l, c) in ((IQ, IB), (IB, IQ)):
                continue
            yield [l, c], [c], l
            yield [c, l], [c], l
    yield [B2, CT, GB], [], B2
    yield [B2, CT, GB], [CT, GB], B2
    yield [GB, CT, B2], [GB, CT], B2
    yield [CT, SQ, C2, IQ], [C2, CT], SQ
    yield [IB, B3, CT, SP], [CT], B3
    yield [GN, GB, SQ], [GB, GN], SQ
    yield [C2, CT, B2, GB], [CT, C2, GB], B2


def conts(axes, wt, prefix="s", keys=KEYS):
    keys = [keys[a["expr"]] for a in axes if a["axis"] in GROUP]
    return blank(content(axes, wt, keys, prefix), (2,))


def run(ck):
    ck.anchor("Hist", "Hist.step", "Hist.overlay", "Hist.heatmap", "overlay", "beside", "below", "grid", "Hist.fromjson")
    profs = [Profile("y"), Profile("q")]

    def plot(key, plots, src, tree):
        """plots: list of Plot; src: client expression over h0, h1...; tree: expected nesting with plot numbers."""
        def judge(m, v):
            doc, got = read(m, v)

            def go(g, t, what):
                if isinstance(t, tuple):
                    if not isinstance(g, tuple) or g[0] != t[0] or len(g[1]) != len(t[1]):
                        return "%s is arranged as %r, expected %r" % (what, arrangement(g), arrangement(t))
                    for i, (x, y) in enumerate(zip(g[1], t[1])):
                        d = go(x, y, "%s, part %d" % (what, i))
                        if d:
                            return d
                    return None
                if isinstance(g, tuple):
                    return "%s is arranged as %r, expected one plot" % (what, arrangement(g))
                i = 0
                for p in t:
                    k = 2 if plots[p].error and plots[p].method != "heatmap" else 1
                    d = plots[p].judge(g[i:i + k], "%s, plot %d" % (what, p))
                    if d:
                        return d
                    i += k
                return "%s has additional marks" % what if i != len(g) else None
            return go(got, tree, "document")
        js = [hjson(p.axes, p.cont0, weight="w" if p.wt else None) for p in plots]
        pre = "".join("h%d = Hist.fromjson(j%d)\n" % (i, i) for i in range(len(js)))
        ck.ob(key, RULE, pre + "return %s.vegalite()" % src, lambda m: dict(("j%d" % i, absv(m, j)) for i, j in enumerate(js)), judge)

    def make(axes, wt, *args, **kw):
        prefix = kw.pop("prefix", "s")
        c = kw.pop("content", None)
        if c is None:
            c = conts(axes, wt, prefix, kw.pop("keys", KEYS))
        p = Plot(axes, c, wt, *args, **kw)
        p.axes, p.cont0 = axes, c
        return p

    def single(key, p):
        plot(key, [p], "h0" + p.src, [0])

    CH = ("color", "stack", "column", "row")
    for n, (axes, chain, last) in enumerate(configs()):
        nm = "-".join(short(a) for a in axes) + "/" + "-".join(short(a) for a in chain) + "/" + short(last)
        for method in ("step", "area", "bar", "line", "marker"):
            for roles in itertools.permutations(CH, len(chain)):
                if "stack" in roles and (method not in ("area", "bar") or "color" in roles):
                    continue
                ch = list(zip(roles, chain))
                split = any(r in ("column", "row") for r in roles)
                if len(chain) > 1 and not ck.thorough and roles != tuple(sorted(roles)):
                    continue
                for np_, wt, prof in ((0, False, None), (1, True, 0), (2, True, 1), (2, False, None)) if ck.thorough or method in ("step", "marker") else ((2, True, 1), (1, False, None)):
                    full = axes + profs[:np_]
                    for error in (False, True):
                        if error and (split or "stack" in roles):
                            continue
                        if not ck.thorough and np_ == 2 and (error or n % 2):
                            continue
                        single("%s/%s/%s/p%d%s/%s%s" % (method, nm, "-".join(roles), np_, "w" if wt else "", prof, "/error" if error else ""), make(full, wt, ch, method, last, prof=prof, error=error))
                if not chain:
                    single("%s/%s/log" % (method, nm), make(axes, True, ch, method, last, error=False, log=True, opts="yscale='log'"))
                    single("%s/%s/logdict" % (method, nm), make(axes, False, ch, method, last, error=False, log=True, opts="yscale={'type': 'log', 'base': 10}"))
                    single("%s/%s/linear" % (method, nm), make(axes, False, ch, method, last, error=False, opts="yscale={'zero': True}"))
                    if last["axis"] in FIXED:
                        for wt in (False, True):
                            single("%s/%s/normalized%d" % (method, nm, wt), make(axes + profs[:1], wt, ch, method, last, norm=True, error=wt))
                    single("%s/%s/default" % (method, nm), make(axes, True, ch, method, last))
    single("stack/order", make([B2, GB], False, [("stack", GB)], "area", B2, order=["q", "p"]))
    single("stack/ordercut", make([B2, CT], False, [("stack", CT)], "area", B2, order=["pass", "fail"]))
    for n in (3, 4):
        for k, perm in enumerate(itertools.permutations("pqrt"[:n])):
            if n == 3 or k % 5 == 0:
                for method in ("area", "bar"):
                    single("stack/order/%s/%s" % (method, "".join(perm)), make([GB, B2], k % 2 == 1, [("stack", GB)], method, B2, order=list(perm), keys={"c": list("pqrt"[:n])}))
    single("stack/three", make([GB, B2], False, [("stack", GB)], "area", B2, keys={"c": ["r", "p", "q", "t"]}))
    single("color/three", make([GB, B2], False, [("color", GB)], "step", B2, keys={"c": ["r", "p", "q", "t"]}))
    # logarithmic scales: which points are left out goes by the value alone (empty bins, negative values, and values whose error is zero)
    V3 = Bin("v", 4, 0, 8, u=False, o=False, n=False)
    cells_ = [[3.0, 9.0, 1.0, 1.0], [9.0, 41.0, 2.0, 2.0], [-2.0, 4.0, 1.0, 1.0], [0.0, 0.0, 0.0, 0.0]]
    for wt in (False, True):
        for method in ("step", "area", "bar", "line", "marker"):
            for error in (False, True):
                for log in (False, True):
                    for prof in (None, 0):
                        kw = dict(opts="yscale='log'") if log else {}
                        single("%s/concrete/%d%d%d%s" % (method, wt, error, log, prof), make([V3, profs[0]], wt, [], method, V3, prof=prof, error=error, log=log, content=[c if wt else c[:3] for c in cells_], **kw))
    # heatmaps
    for axes in itertools.permutations([B2, IQ, CT, C2]) if ck.thorough else ([CT, B2, C2, IQ], [B2, IQ, CT, C2], [IQ, C2, CT, B2]):
        for first, second in (("column", "row"), ("row", "column")):
            for p, q in ((CT, C2), (C2, CT)):
                single("heatmap/both/%s/%s-%s" % ("-".join(short(x) for x in axes), first, short(p)), make(list(axes), False, [(first, p), (second, q)], "heatmap", (IQ, B2)))
    hm = [B2, B3, IB, IQ, CT, GB, GN]
    for a, b in itertools.permutations(hm, 2):
        for axes in ([a, b], [b, a]):
            single("heatmap/%s/%s-%s" % ("-".join(short(x) for x in axes), short(a), short(b)), make(axes, False, [], "heatmap", (a, b)))
        single("heatmap/%s-%s/profile" % (short(a), short(b)), make([b, a] + profs, True, [], "heatmap", (a, b), prof=1))
        for ex, role in ((C2, "row"), (SP, "column")):
            single("heatmap/%s-%s/%s" % (short(a), short(b), role), make([a, ex, b], False, [(role, ex)], "heatmap", (a, b)))
            single("heatmap/%s-%s/summed" % (short(a), short(b) + role), make([a, b, ex], False, [], "heatmap", (a, b)))
    # combinations
    A = make([B2, CT, profs[0]], True, [], "step", B2, prefix="s", error=False)
    Aerr = make([B2, CT, profs[0]], True, [], "step", B2, prefix="s", error=True)
    Bm = make([SQ, GB], False, [("color", GB)], "marker", SQ, prefix="t", error=False)
    Berr = make([IQ, profs[1]], False, [], "marker", IQ, prefix="t", prof=0)
    Cs = make([BQ, CT], False, [("stack", CT)], "area", BQ, prefix="u")
    Cb = make([GB, C2], True, [("color", C2)], "bar", GB, prefix="u")
    Ch = make([B3, IB], False, [], "heatmap", (IB, B3), prefix="u")
    ALL = [A, Aerr, Bm, Berr, Cs, Cb, Ch]
    for (i, p), (k, q) in itertools.product(list(enumerate(ALL)), repeat=2):
        if i == k:
            continue
        flat = [p, q]
        nm = "%d%d" % (i, k)
        c = "h0%s, h1%s" % (p.src, q.src)
        if Ch not in flat:
            plot("overlay/" + nm, flat, "histbook.overlay(%s)" % c, [0, 1])
        plot("beside/" + nm, flat, "histbook.beside(%s)" % c, ("h", [[0], [1]]))
        plot("below/" + nm, flat, "histbook.below([%s])" % c, ("v", [[0], [1]]))
    for trip in itertools.permutations(range(7), 3) if ck.thorough else ((0, 2, 3), (1, 3, 4), (3, 1, 5), (2, 5, 6), (6, 1, 3), (4, 6, 0)):
        ps = [ALL[t] for t in trip]
        a, b, c = ["h%d%s" % (i, p.src) for i, p in enumerate(ps)]
        nm = "".join(map(str, trip))
        plot("grid1/" + nm, ps, "histbook.grid(1, %s, %s, %s)" % (a, b, c), ("v", [("h", [[0]]), ("h", [[1]]), ("h", [[2]])]))
        plot("grid2/" + nm, ps, "histbook.grid(2, %s, %s, %s)" % (a, b, c), ("v", [("h", [[0], [1]]), ("h", [[2]])]))
        plot("grid3/" + nm, ps, "histbook.grid(3, [%s, %s], %s)" % (a, b, c), ("v", [("h", [[0], [1], [2]])]))
        plot("besidebelow/" + nm, ps, "histbook.beside(%s, histbook.below(%s, %s))" % (a, b, c), ("h", [[0], ("v", [[1], [2]])]))
        plot("belowbeside/" + nm, ps, "histbook.below(histbook.beside(%s, %s), %s)" % (a, b, c), ("v", [("h", [[0], [1]]), [2]]))
        plot("besides/" + nm, ps, "histbook.beside(%s, %s, %s)" % (a, b, c), ("h", [[0], [1], [2]]))
        plot("belows/" + nm, ps, "histbook.below(%s, %s, %s)" % (a, b, c), ("v", [[0], [1], [2]]))
        for x, y, z, tree in ((0, 1, 2, True), (1, 2, 0, False)):
            two = [ps[x], ps[y]]
            if Ch in two:
                continue
            three = [ps[x], ps[y], ps[z]]
            s = ["h%d%s" % (i, p.src) for i, p in enumerate(three)]
            plot("besideoverlay/%s%d" % (nm, x), three, "histbook.beside(histbook.overlay(%s, %s), %s)" % tuple(s), ("h", [[0, 1], [2]]))
            plot("overlaybelow/%s%d" % (nm, x), [three[2], three[0], three[1]], "histbook.below(h0%s, histbook.overlay([h1%s, h2%s]))" % (three[2].src, three[0].src, three[1].src), ("v", [[0], [1, 2]]))
            plot("gridoverlay/%s%d" % (nm, x), [three[2], three[0], three[1]], "histbook.grid(2, h0%s, histbook.overlay([h1%s, h2%s]))" % (three[2].src, three[0].src, three[1].src), ("v", [("h", [[0], [1, 2]])]))
    # deeper nestings: every plot keeps its own data wherever overlays of several plots come before it
    def nest(key, src, tree, nums):
        ps = [ALL[t] for t in nums]
        plot("nest/%s/%s" % (key, "".join(map(str, nums))), ps, src % tuple("h%d%s" % (i, p.src) for i, p in enumerate(ps)), tree)
    B, L, O, G = "histbook.beside", "histbook.below", "histbook.overlay", "histbook.grid"
    for nums in ((0, 2, 3, 5), (1, 3, 5, 4), (5, 1, 2, 3), (3, 2, 4, 6), (1, 3, 6, 2)):
        nest("below-beside-overlay", L + "(" + B + "(" + O + "(%s, %s), %s), %s)", ("v", [("h", [[0, 1], [2]]), [3]]), nums)
        nest("beside-below-overlay", B + "(" + L + "(" + O + "(%s, %s), %s), %s)", ("h", [("v", [[0, 1], [2]]), [3]]), nums)
        nest("grid2-overlay-first", G + "(2, " + O + "(%s, %s), %s, %s)", ("v", [("h", [[0, 1], [2]]), ("h", [[3]])]), nums)
        nest("grid3-overlay-first", G + "(3, " + O + "(%s, %s), %s, %s)", ("v", [("h", [[0, 1], [2], [3]])]), nums)
        nest("grid1-overlay-first", G + "(1, " + O + "(%s, %s), %s, %s)", ("v", [("h", [[0, 1]]), ("h", [[2]]), ("h", [[3]])]), nums)
        nest("grid2-overlay-middle", G + "(2, %s, " + O + "(%s, %s), %s)", ("v", [("h", [[0], [1, 2]]), ("h", [[3]])]), (nums[2],) + nums[:2] + nums[3:])
        nest("grid2-overlay-last", G + "(2, %s, %s, " + O + "(%s, %s))", ("v", [("h", [[0], [1]]), ("h", [[2, 3]])]), nums[2:] + nums[:2])
        nest("grid2-four", G + "(2, %s, %s, %s, %s)", ("v", [("h", [[0], [1]]), ("h", [[2], [3]])]), nums)
        nest("below-below-free", L + "(" + B + "(%s, %s), " + B + "(%s, %s))", ("v", [("h", [[0], [1]]), ("h", [[2], [3]])]), nums)
        nest("beside-below2", B + "(%s, " + L + "(%s, %s), %s)", ("h", [[0], ("v", [[1], [2]]), [3]]), nums)
        nest("deep", L + "(%s, " + B + "(%s, " + L + "(%s, %s)))", ("v", [[0], ("h", [[1], ("v", [[2], [3]])])]), nums)
        if 6 not in nums and 4 not in nums:
            nest("overlay-four", O + "(%s, %s, %s, %s)", [0, 1, 2, 3], nums)
            nest("beside-overlays", B + "(" + O + "(%s, %s), " + O + "(%s, %s))", ("h", [[0, 1], [2, 3]]), nums)
            nest("grid1-overlays", G + "(1, " + O + "(%s, %s, %s), %s)", ("v", [("h", [[0, 1, 2]]), ("h", [[3]])]), nums)
            nest("grid2-overlay3", G + "(2, " + O + "(%s, %s, %s), %s)", ("v", [("h", [[0, 1, 2], [3]])]), nums)
    for n in (5, 6, 7):
        for c in (1, 2, 3, 4, 6):
            ps = [ALL[(i * 3) % 7] for i in range(n)]
            plot("grid/%d/%d" % (n, c), ps, "histbook.grid(%d, %s)" % (c, ", ".join("h%d%s" % (i, p.src) for i, p in enumerate(ps))), ("v", [("h", [[i] for i in range(n)[a:a + c]]) for a in range(0, n, c)]))
    many = [make([Bin("x", 1, 0, 1 + i, u=False, o=False, n=False)], False, [], "marker" if i % 3 else "step", Bin("x", 1, 0, 1 + i, u=False, o=False, n=False), prefix="s%d_" % i, error=False) for i in range(90 if ck.thorough else 60)]
    plot("many beside", many, "histbook.beside(%s)" % ", ".join("h%d%s" % (i, p.src) for i, p in enumerate(many)), ("h", [[i] for i in range(len(many))]))
    plot("many", many, "histbook.overlay(%s)" % ", ".join("h%d%s" % (i, p.src) for i, p in enumerate(many)), list(range(len(many))))
    # options are passed on and the source is not changed
    H = "h = Hist(bin('x', 2, 0, 2), cut('a > 0'), groupby('c'), profile('y'))\nh.fill(x=[0.5, 1.5], a=[1, -1], c=['p', 'q'], y=[1.0, 2.0])\n"
    for m_ in ("step", "area", "bar", "line", "marker"):
        src = H + "b = snap(h.tojson())\nd = h.overlay('c').%s('x', width=300, height=200, title='name', config={'view': 1}, xscale='log', yscale={'type': 'pow'}, colorscale='ordinal', error=False).vegalite()\nreturn snap([d['width'], d['height'], d['title'], d['config'], d['encoding']['x']['scale'], d['encoding']['y']['scale'], d['encoding']['color']['scale']]), b, snap(h.tojson())" % m_

        def judge(m, v):
            a, b, c = v
            return diff(a.v, [300, 200, "name", {"view": 1}, {"type": "log"}, {"type": "pow"}, {"type": "ordinal"}], "options") or diff(c.v, b.v, "the histogram afterwards")
        ck.ob("options/" + m_, "options are passed on and plotting does not change the histogram", src, lambda m: {"snap": snapfn()}, judge)
    for o, code, want in (("own", "histbook.overlay(h.step('x', config={'a': 1}), h.step('x', config={'b': 2}))", {"a": 1, "b": 2}), ("given", "histbook.beside(h.step('x', config={'a': 1}), h.step('x'), config={'a': 3, 'c': 4})", {"a": 3, "c": 4}), ("deep", "histbook.below(histbook.overlay(h.step('x', config={'a': 1}), h.step('x', config={'b': 2})), h.step('x', config={'d': 3}), config={'b': 5})", {"a": 1, "b": 5, "d": 3}), ("grid", "histbook.grid(2, histbook.overlay(h.step('x', config={'a': 1}), h.step('x')), h.step('x', config={'d': 3}))", {"a": 1, "d": 3}), ("none", "histbook.below(h.step('x'), h.step('x'))", None)):
        ck.ob("config/" + o, "options are passed on and plotting does not change the histogram", H + "return snap(%s.vegalite().get('config'))" % code, lambda m: {"snap": snapfn()}, lambda m, v, want=want: diff(v.v, want, "configuration of the combination"))
    for o, code, where in (("beside", "histbook.beside(h.step('x', width=100, height=50, title='one'), h.bar('x', width=200, height=60, title='two', error=True))", "[d['hconcat'][0], d['hconcat'][1]['layer'][0]]"), ("grid", "histbook.grid(1, h.step('x', width=100, height=50, title='one'), h.bar('x', width=200, height=60, title='two'))", "[d['vconcat'][0]['hconcat'][0], d['vconcat'][1]['hconcat'][0]]"), ("overlay", "histbook.overlay(h.step('x', width=100, height=50, title='one'), h.bar('x', width=200, height=60, title='two'))", "d['layer']")):
        ck.ob("sizes/" + o, "options are passed on and plotting does not change the histogram", H + "d = %s.vegalite()\nreturn snap([[u['width'], u['height'], u['title']] for u in %s])" % (code, where), lambda m: {"snap": snapfn()}, lambda m, v: diff(v.v, [[100, 50, "one"], [200, 60, "two"]], "sizes and titles of the combined plots"))
    ck.ob("options/to", "to() hands on the document", H + "p = h.step('x')\nreturn p.to(lambda d: [d]) == [p.vegalite()]", lambda m: {}, lambda m, v: None if host(m, v) is True else "to() gives something else than vegalite()")
    bad = ["h.overlay('a > 0').overlay('c')", "h.stack('c').stack('a > 0')", "h.beside('c').beside('a > 0')", "h.below('c').below('a > 0')", "h.stack('c').step('x')", "h.stack('c').line('x')", "h.stack('c').marker('x')", "h.beside('c').step('x', error=True)", "h.below('c').marker('x')", "h.step()", "h.heatmap()", "h.heatmap('x')", "h.overlay('c').heatmap('x', 'a > 0')",
           "h.stack('c').heatmap('x', 'a > 0')", "h.step('nosuch')", "h.overlay('nosuch').step('x')", "h.step('x', profile='nosuch')", "histbook.overlay(h.heatmap('x', 'a > 0'))", "histbook.overlay(h)", "histbook.beside(h.step('x'), 3)", "histbook.overlay(h.step('x'), nosuchoption=1)", "histbook.overlay(histbook.beside(h.step('x')))", "histbook.grid(2, histbook.beside(h.step('x')))", "h.step('x').step('x')", "h.bar(axis=['x'])"]
    for i, b in enumerate(bad):
        ck.ob("refused/%d" % i, "plots that have no meaning are refused", H + "try:\n    %s\nexcept Exception:\n    return True\nreturn False" % b, lambda m: {}, lambda m, v, b=b: None if host(m, v) is True else "%s was accepted" % b)


def arrangement(t):
    return (t[0], [arrangement(x) for x in t[1]]) if isinstance(t, tuple) else "plot"
