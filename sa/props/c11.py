"""C11 axes keep their parameters through every operation that copies or converts them."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("dataflow analysis of axis parameters: each constructor parameter (numbers as symbols or awkward constants, every flag combination) is followed through copying, relabelling, JSON, pickling, "
           "repr and use in a histogram; every public attribute and every bin label must be the declared one afterwards")
ASSUME = ["binwidth of a bin axis is a rounded-down quotient and is compared within 1e-9", "the JSON and repr routes use finite parameters"]

OBS = """
def obs(a):
    out = {"class": a.__class__.__name__}
    for n in ATTRS:
        if not (n == "binwidth" and getattr(a, "numbins", 1) == 0) and hasattr(a, n):
            q = getattr(a, n)
            out[n] = [q(i) for i in range(a.numbins)] if callable(q) else q
    if hasattr(a, "finiteslice"):
        out["finiteslice"] = (a.finiteslice.start, a.finiteslice.stop)
    if isinstance(a, histbook.axis.FixedAxis):
        out["labels"] = [describe(q) for q in a.keys()]
    return snap(out)
""" + KEYS_SRC
ATTRS = ["expr", "numbins", "totbins", "low", "high", "min", "max", "edges", "binwidth", "origin", "underflow", "overflow", "nanflow", "closedlow"]


def want(ax):
    k = ax["axis"]
    out = {"class": k}
    for q, v in ax.items():
        if q != "axis":
            out[q] = v
    if k in FIXED:
        out["labels"] = [l.tup() if l.kind != "iv" else ("iv", l.lo, l.hi, l.clo, l.chi) for l in labels(ax)]
        out["totbins"] = len(out["labels"])
        nb = len(out["labels"]) - sum(1 for q in ("underflow", "overflow", "nanflow") if ax.get(q))
        u = 1 if ax.get("underflow") else 0
        out["finiteslice"] = (u, u + nb)
        out["numbins"] = nb
    if k in ("bin", "split"):
        e = edges(ax)
        out["low"], out["high"] = e[0], e[-1]
        out["binwidth"] = [b - a for a, b in zip(e[:-1], e[1:])] if k == "split" else (ax["high"] - ax["low"]) / ax["numbins"] if ax["numbins"] else None
    if k in ("bin", "split") and out["numbins"] == 0:
        out["binwidth"] = None
    if k in ("intbin", "cut", "groupby"):
        out["binwidth"] = 1
    return out


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return isinstance(a, bool) == isinstance(b, bool) and a == b


def compare(got, w, what):
    got = got.v
    for q in w:
        if w[q] is None:
            continue
        if q not in got:
            return "%s has no %s" % (what, q)
        if q in ("binwidth", "labels", "edges") and w["class"] in ("bin", "split"):
            if not close(got[q], w[q]):
                return "%s has %s %r, declared %r" % (what, q, got[q], w[q])
        elif not close(got[q], w[q]) and diff(got[q], w[q], ""):
            return "%s has %s %r, declared %r" % (what, q, got[q], w[q])


class FLAGSET:
    ALL = list(itertools.product((True, False), repeat=4))


def axes(thorough):
    out = []
    for u, o, n, cl in FLAGSET.ALL:
        for nb, lo, hi in ((3, -1.5, 4.25), (1, 0.0, 1e-3), (7, -1e5, 1e7)):
            out.append(Bin("x + 1", nb, lo, hi, u, o, n, cl))
        for e in ((-1.5, 0.0, 4.25), (0.125, 3.0), (-3.0, -1e-3, 0.0, 2.5, 1e6)):
            out.append(Split("x + 1", e, u, o, n, cl))
        if u or o or n:
            out.append(Split("x + 1", (0.5,), u, o, n, cl))
            out.append(Bin("x", 0, 1.5, 1.5, u, o, n, cl))
        if u and o:
            for w, og in ((2.0, 0.0), (0.125, -3.5), (1e4, 17.0)):
                out.append(Groupbin("x*y", w, og, n, cl))
        if n and cl:
            for lo, hi in ((0, 3), (-5, -2), (7, 7), (-2, 2)):
                out.append(Intbin("n", lo, hi, u, o))
    return out + [Cut("x > 0"), Groupby("c"), Profile("y*2")]


ROUTES = [("ctor", "a"), ("copy", "a.copy()"), ("json", "histbook.axis.Axis.fromjson(a.tojson())"), ("cls-json", "a.__class__.fromjson(a.tojson())"), ("jsontext", "histbook.axis.Axis.fromjson(json.loads(json.dumps(a.tojson())))"), ("pickle", "pickle.loads(pickle.dumps(a))"), ("deepcopy", "copy.deepcopy(a)"),
          ("hist", "Hist(a).axis[0]"), ("hist.copy", "Hist(a).copy().axis[0]"), ("hist.copyonfill", "Hist(a).copyonfill().axis[0]"), ("hist.cleared", "Hist(a).cleared().axis[0]"), ("hist.pickle", "pickle.loads(pickle.dumps(Hist(a))).axis[0]"), ("hist.json", "Hist.fromjson(Hist(a).tojson()).axis[0]"),
          ("hist+", "(Hist(a) + Hist(a)).axis[0]"), ("hist*", "(Hist(a)*2).axis[0]"), ("hist.weight", "Hist(a).weight('w').axis[0]"), ("hist.filter", "Hist(a).filter('x > 0').axis[0]"), ("hist.systematic", "Hist(a).systematic((1,)).axis[0]"),
          ("hist.group", "Hist.group(p=Hist(a)).axis[1]"), ("hist.axis by expr", "Hist(a).axis[a.expr]"), ("hist.axis by class", "getattr(Hist(a).axis, a.__class__.__name__)(a.expr)"), ("copy of copy", "Hist(a.copy()).copy().axis[0].copy()")]


def run(ck):
    ck.anchor("bin", "bin.copy", "bin.relabel", "bin.tojson", "split", "split.copy", "intbin", "intbin.copy", "groupbin", "groupbin.copy", "groupby", "cut", "profile", "Hist")

    def env(m):
        return {"snap": snapfn(), "ATTRS": absv(m, ATTRS)}
    for i, ax in enumerate(axes(ck.thorough)):
        base = "%s%d" % (short(ax), i)
        for rn, rsrc in ROUTES + ([("project", "Hist(a, bin('q', 2, 0, 1)).project(a).axis[0]"), ("project expr", "Hist(a, bin('q', 2, 0, 1)).project(a.expr).axis[0]")] if ax["axis"] != "profile" else []):
            src = OBS + "a = %s\nr = %s\nreturn obs(r), obs(a), r == a, not (r != a), hash(r) == hash(a)" % (ctor(ax), rsrc)

            def judge(m, v, w=want(ax), rn=rn):
                d = compare(v[0], w, "axis after %s" % rn) or compare(v[1], w, "source axis of %s" % rn)
                if d:
                    return d
                if v[2] is not True or v[3] is not True or v[4] is not True:
                    return "axis after %s is not equal to its source" % rn
            ck.ob("%s/%s" % (base, rn), "every declared parameter is found unchanged", src, env, judge)
        src = OBS + "a = %s\nr = a.relabel('q + 2')\nreturn obs(r), obs(a), r == a" % ctor(ax)
        w2 = dict(want(ax), expr="q + 2")
        ck.ob("%s/relabel" % base, "relabelling changes the expression only", src, env, lambda m, v, w2=w2, w=want(ax): compare(v[0], w2, "relabelled axis") or compare(v[1], w, "source axis of relabel") or (None if v[2] is False else "relabelled axis equals its source"))
        ns = "{'bin': histbook.axis.bin}"
        ck.ob("%s/repr" % base, "repr is the constructor call", OBS + "a = %s\nr = repr(a)\nreturn r" % ctor(ax), env, lambda m, v, ax=ax: reprcheck(v, ax))
        # conversions
        if ax["axis"] == "intbin":
            w = want(Bin(ax["expr"], ax["max"] - ax["min"] + 1, ax["min"] - 0.5, ax["max"] + 0.5, ax["underflow"], ax["overflow"], False, True))
            ck.ob("%s/tobin" % base, "conversion keeps the binning", OBS + "return obs(%s.bin())" % ctor(ax), env, lambda m, v, w=w: compare(v, w, "intbin converted to bin"))
        if ax["axis"] in ("intbin", "bin") and ax.get("numbins", 1) > 0:
            if ax["axis"] == "intbin":
                b = Bin(ax["expr"], ax["max"] - ax["min"] + 1, ax["min"] - 0.5, ax["max"] + 0.5, ax["underflow"], ax["overflow"], False, True)
            else:
                b = ax
            w = want(Split(b["expr"], edges(b), b["underflow"], b["overflow"], b["nanflow"], b["closedlow"]))
            ck.ob("%s/tosplit" % base, "conversion keeps the binning", OBS + "return obs(%s.split())" % ctor(ax), env, lambda m, v, w=w: compare(v, w, "axis converted to split"))
    # group axes publish the labels of the keys of a content dict
    for ax in (Groupbin("x", 2.0, 0.0, True, True), Groupbin("x", 2.0, 1.0, True, False), Groupbin("x", 0.25, -0.5, False, True), Groupbin("x", 0.25, -0.5, False, False)):
        ks = [ax["origin"] + k * ax["binwidth"] for k in (3, -1, 0, 7)] + (["NaN"] if ax["nanflow"] else [])
        ref = [("iv", k, k + ax["binwidth"], ax["closedlow"], not ax["closedlow"]) for k in sorted(k for k in ks if k != "NaN")] + ([("nan",)] if ax["nanflow"] else [])
        back = [sorted(k for k in ks if k != "NaN").index(k) if k != "NaN" else len(ks) - 1 for k in ks]
        for perm in (ks, ks[::-1]):
            src = OBS + "a = %s\nc = dict((k, 'at %%s' %% k) for k in ks)\nreturn snap([describe(k) for k in a.keys(c)]), snap([(describe(k), v) for k, v in a.items(c)])" % ctor(ax)

            def judge(m, v, ref=ref, ks=ks):
                order = sorted(k for k in ks if k != "NaN") + [k for k in ks if k == "NaN"]
                got, want = v[0].v, [tuple(r) for r in ref]
                if [tuple(g)[:len(w)] for g, w in zip(got, want)] != want or len(got) != len(want):
                    return "labels of the groups are %r, not %r" % (got, want)
                if [tuple(g[0])[:len(w)] for g, w in zip(v[1].v, want)] != want or [g[1] for g in v[1].v] != ["at %s" % k for k in order]:
                    return "items of the groups are %r" % (v[1].v,)
            ck.ob("keys/%s%g/%s" % (short(ax), ax["origin"], perm is ks), "group labels are those of the keys", src, lambda m, perm=perm: {"snap": snapfn(), "ATTRS": absv(m, ATTRS), "ks": absv(m, list(perm))}, judge)
    ck.ob("keys/groupby", "group labels are those of the keys", OBS + "a = groupby('c')\nc = {'b': 1, 'a': 2, 'd': 3}\nreturn snap(list(a.keys(c))), snap([tuple(q) for q in a.items(c)])", env,
          lambda m, v: None if v[0].v == ["a", "b", "d"] and [tuple(q) for q in v[1].v] == [("a", 2), ("b", 1), ("d", 3)] else "labels of a groupby are %r, %r" % (v[0].v, v[1].v))
    ck.ob("keys/nan", "the NaN label contains only NaN", OBS + "k = bin('x', 1, 0, 1).keys()[-1]\nreturn snap([k.low, k.high, k.closedlow, k.closedhigh, k == k, hash(k) == hash(split('x', [1]).keys()[-1])])", env,
          lambda m, v: None if v.v[0] != v.v[0] and v.v[1] != v.v[1] and v.v[2:] == [True] * 4 else "the NaN label is %r" % (v.v,))
    # defaults and accepted number types
    for key, src, ax in (("bin", "bin('x', 4, 0, 2)", Bin("x", 4, 0, 2)), ("split", "split('x', [2, 0, 1])", Split("x", (0, 1, 2))), ("split1", "split('x', 3)", Split("x", (3,))), ("split-tuple", "split('x', (3, 1.5))", Split("x", (1.5, 3))), ("intbin", "intbin('n', -1, 2)", Intbin("n", -1, 2)),
                         ("groupbin", "groupbin('x', 2)", Groupbin("x", 2)), ("numpy-bin", "bin('x', numpy.int64(4), numpy.float64(0.5), numpy.float64(2.5), numpy.bool_(True), numpy.bool_(False))", Bin("x", 4, 0.5, 2.5, True, False)),
                         ("positional-bin", "bin('x', 4, 0, 2, False, True, False, True)", Bin("x", 4, 0, 2, False, True, False, True)), ("positional-bin2", "bin('x', 4, 0, 2, True, False, True, False)", Bin("x", 4, 0, 2, True, False, True, False)),
                         ("positional-split", "split('x', [1, 2], False, True, False, True)", Split("x", (1, 2), False, True, False, True)), ("positional-split2", "split('x', [1, 2], True, False, True, False)", Split("x", (1, 2), True, False, True, False)),
                         ("positional-intbin", "intbin('n', 1, 2, False, True)", Intbin("n", 1, 2, False, True)), ("positional-intbin2", "intbin('n', 1, 2, True, False)", Intbin("n", 1, 2, True, False)), ("positional-groupbin", "groupbin('x', 3, 1, False, True)", Groupbin("x", 3, 1, False, True)), ("positional-groupbin2", "groupbin('x', 3, 1, True, False)", Groupbin("x", 3, 1, True, False)),
                         ("array-split", "split('x', numpy.array([0.5, 1.5]))", Split("x", (0.5, 1.5)))):
        ck.ob("args/" + key, "constructor arguments are taken as documented", OBS + "return obs(%s)" % src, env, lambda m, v, w=want(ax), key=key: compare(v, w, "axis"))


def reprcheck(text, ax):
    import ast
    try:
        t = ast.parse(text, mode="eval").body
        k = ax["axis"]
        names = {"bin": ["expr", "numbins", "low", "high", "underflow", "overflow", "nanflow", "closedlow"], "split": ["expr", "edges", "underflow", "overflow", "nanflow", "closedlow"], "intbin": ["expr", "min", "max", "underflow", "overflow"],
                 "groupbin": ["expr", "binwidth", "origin", "nanflow", "closedlow"]}.get(k, ["expr"])
        got = {"origin": 0.0, "underflow": True, "overflow": True, "nanflow": True, "closedlow": True}
        for n, a in zip(names, t.args):
            got[n] = ast.literal_eval(a)
        for a in t.keywords:
            got[a.arg] = ast.literal_eval(a.value)
        if t.func.id != k or any(got.get(n) != ax[n] for n in names):
            return "repr %s does not describe the declared axis %r" % (text, ax)
    except (SyntaxError, ValueError, AttributeError):
        return "repr %s is not a constructor call" % text
