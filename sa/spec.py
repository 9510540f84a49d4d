"""Specification side shared by the property oracles: axis descriptions, bin labels, regions of input values, reference statistics.

Everything here is stated from the documented meaning of the axes, independently of the analysed source."""
import itertools
from fractions import Fraction

from .values import sym, mk, Poly, Rng, equal
from . import npmodel as NP
from .objects import AList, ADict
from .harness import host, same, diff

INF = float("inf")
NAN = float("nan")


# ------------------------------------------------------------------ axis descriptions (host dicts)

def Bin(expr="x", numbins=4, low=0.0, high=4.0, u=True, o=True, n=True, cl=True):
    return dict(axis="bin", expr=expr, numbins=numbins, low=float(low), high=float(high), underflow=u, overflow=o, nanflow=n, closedlow=cl)


def Split(expr="x", edges=(0.0, 1.0, 2.5, 4.0), u=True, o=True, n=True, cl=True):
    return dict(axis="split", expr=expr, edges=tuple(float(e) for e in edges), underflow=u, overflow=o, nanflow=n, closedlow=cl)


def Intbin(expr="x", min=0, max=3, u=True, o=True):
    return dict(axis="intbin", expr=expr, min=min, max=max, underflow=u, overflow=o)


def Cut(expr="x > 0"):
    return dict(axis="cut", expr=expr)


def Groupby(expr="c"):
    return dict(axis="groupby", expr=expr)


def Groupbin(expr="x", binwidth=2.0, origin=0.0, n=True, cl=True):
    return dict(axis="groupbin", expr=expr, binwidth=float(binwidth), origin=float(origin), nanflow=n, closedlow=cl)


def Profile(expr="y"):
    return dict(axis="profile", expr=expr)


def ctor(ax):
    """Client source of the axis constructor call."""
    k = ax["axis"]
    if k == "bin":
        return "bin(%r, %r, %r, %r, underflow=%r, overflow=%r, nanflow=%r, closedlow=%r)" % (
            ax["expr"], ax["numbins"], ax["low"], ax["high"], ax["underflow"], ax["overflow"], ax["nanflow"], ax["closedlow"])
    if k == "split":
        return "split(%r, %r, underflow=%r, overflow=%r, nanflow=%r, closedlow=%r)" % (
            ax["expr"], list(ax["edges"]), ax["underflow"], ax["overflow"], ax["nanflow"], ax["closedlow"])
    if k == "intbin":
        return "intbin(%r, %r, %r, underflow=%r, overflow=%r)" % (ax["expr"], ax["min"], ax["max"], ax["underflow"], ax["overflow"])
    if k == "groupbin":
        return "groupbin(%r, %r, origin=%r, nanflow=%r, closedlow=%r)" % (ax["expr"], ax["binwidth"], ax["origin"], ax["nanflow"], ax["closedlow"])
    return "%s(%r)" % (k, ax["expr"])


def hist(axes, **opts):
    args = [ctor(a) for a in axes] + ["%s=%r" % (k, v) for k, v in opts.items() if v is not None]
    return "Hist(%s)" % ", ".join(args)


def short(ax):
    k = ax["axis"]
    if k in ("bin", "split"):
        f = ("U" if ax["underflow"] else "_") + ("O" if ax["overflow"] else "_") + ("N" if ax["nanflow"] else "_") + ("L" if ax["closedlow"] else "H")
        return "%s%s" % (k, f)
    if k == "intbin":
        return "intbin" + ("U" if ax["underflow"] else "_") + ("O" if ax["overflow"] else "_")
    if k == "groupbin":
        return "groupbin" + ("N" if ax["nanflow"] else "_") + ("L" if ax["closedlow"] else "H") + ("" if ax["origin"] == 0 else "o")
    return k


FIXED = ("bin", "split", "intbin", "cut")
GROUP = ("groupby", "groupbin")


def flagged(make, kinds="uoncl"):
    """All flag combinations of bin/split axes."""
    out = []
    for u, o, n, cl in itertools.product((True, False), repeat=4):
        out.append(make(u=u, o=o, n=n, cl=cl))
    return out


# ------------------------------------------------------------------ labels

class Lab(object):
    """What one bin stands for: an interval, NaN, an integer value or a boolean."""

    def __init__(self, kind, lo=None, hi=None, clo=None, chi=None):
        self.kind, self.lo, self.hi, self.clo, self.chi = kind, lo, hi, clo, chi

    def tup(self):
        if self.kind == "iv":
            return ("iv", float(self.lo), float(self.hi), self.clo, self.chi)
        if self.kind == "nan":
            return ("nan",)
        return (self.kind, self.lo)

    def has(self, r):
        """Does the bin contain the region r = ('c', const) or ('r', lo, hi) (open)?"""
        if self.kind == "nan":
            return r[0] == "c" and r[1] != r[1]
        if r[0] == "c":
            v = r[1]
            if self.kind in ("int", "bool"):
                return v == self.lo
            if v != v:
                return False
            return (self.lo < v or (self.clo and v == self.lo)) and (v < self.hi or (self.chi and v == self.hi))
        if self.kind in ("int", "bool"):
            return False
        return self.lo <= r[1] and r[2] <= self.hi


def edges(ax):
    if ax["axis"] == "bin":
        n = ax["numbins"]
        if n == 0:
            return [ax["low"]]
        return [float(Fraction(ax["low"]) + Fraction(i) * (Fraction(ax["high"]) - Fraction(ax["low"])) / n) for i in range(n + 1)]
    return list(ax["edges"])


def labels(ax):
    k = ax["axis"]
    if k in ("bin", "split"):
        e = edges(ax)
        cl = ax["closedlow"]
        out = []
        if ax["underflow"]:
            out.append(Lab("iv", -INF, e[0], True, not cl))
        out += [Lab("iv", a, b, cl, not cl) for a, b in zip(e[:-1], e[1:])]
        if ax["overflow"]:
            out.append(Lab("iv", e[-1], INF, cl, True))
        if ax["nanflow"]:
            out.append(Lab("nan"))
        return out
    if k == "intbin":
        out = []
        if ax["underflow"]:
            out.append(Lab("iv", -INF, ax["min"], True, False))
        out += [Lab("int", i) for i in range(ax["min"], ax["max"] + 1)]
        if ax["overflow"]:
            out.append(Lab("iv", ax["max"], INF, False, True))
        return out
    if k == "cut":
        return [Lab("bool", False), Lab("bool", True)]
    raise AssertionError(k)


def totbins(ax):
    return len(labels(ax))


def shape(axes, weight=False):
    p = sum(1 for a in axes if a["axis"] == "profile")
    return tuple(totbins(a) for a in axes if a["axis"] in FIXED) + (2 * p + (2 if weight else 1),)


def locate(ax, r):
    for i, l in enumerate(labels(ax)):
        if l.has(r):
            return i
    return None


def groupkey(ax, r):
    """Key of a groupbin axis for a region (low edge), 'NaN', or None when dropped."""
    if r[0] == "c" and r[1] != r[1]:
        return "NaN" if ax["nanflow"] else None
    w, o = Fraction(ax["binwidth"]), Fraction(ax["origin"])
    lo, hi = (r[1], r[1]) if r[0] == "c" else (r[1], r[2])
    if lo in (INF, -INF):
        return lo
    q = (Fraction(lo) - o) / w
    if r[0] == "c":
        if ax["closedlow"]:
            k = q.__floor__()
        else:
            k = q.__ceil__() - 1
    else:
        k = q.__floor__()
        assert (Fraction(hi) - o) / w <= k + 1
    return float(k * w + o)


KEYS_SRC = """
def describe(label):
    if isinstance(label, bool):
        return ("bool", label)
    if hasattr(label, "closedlow"):
        if label.low != label.low:
            return ("nan",)
        return ("iv", label.low, label.high, label.closedlow, label.closedhigh)
    return ("int", label)
"""


# ------------------------------------------------------------------ abstract data

BIG = 1e300


def regions(ax, huge=True):
    """Partition of the real line (plus NaN and infinities) that separates every pair of bins of the axis."""
    k = ax["axis"]
    if k in ("bin", "split"):
        e = edges(ax)
        out = [("r", a, b) for a, b in zip(e[:-1], e[1:])] + [("c", x) for x in e]
        out += [("r", e[0] - 1000.0, e[0]), ("r", e[-1], e[-1] + 1000.0), ("c", NAN), ("c", -INF), ("c", INF)]
        if huge:
            out += [("r", -BIG, e[0] - 1000.0), ("r", e[-1] + 1000.0, BIG)]
        return out
    if k == "intbin":
        out = [("c", i) for i in range(ax["min"] - 3, ax["max"] + 4)]
        if huge:
            out += [("c", float(NAN)), ("c", INF), ("c", -INF), ("c", 3e9), ("c", -3e9), ("c", 1e200), ("c", -1e200)]
        return out
    if k == "cut":
        return [("c", False), ("c", True)]
    raise AssertionError(k)


def aval(r):
    if r[0] == "c":
        return r[1]
    return NP.mkrng(r[1], r[2])


def arr(m, vals, dtype=None):
    vals = list(vals)
    if dtype is None:
        dtype = NP.F8
        if vals and all(isinstance(v, bool) for v in vals):
            dtype = NP.B1
        elif vals and all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
            dtype = NP.I8
        elif vals and all(isinstance(v, str) for v in vals):
            return NP.newcast(m, vals, (len(vals),), NP.STR)
    return NP.new(m, vals, (len(vals),), dtype)


def absv(m, v):
    """Host structure -> abstract value."""
    if isinstance(v, list):
        return AList(m, [absv(m, x) for x in v])
    if isinstance(v, tuple):
        return tuple(absv(m, x) for x in v)
    if isinstance(v, dict):
        return ADict(m, [(k, absv(m, x)) for k, x in v.items()])
    return v


def symbols(shape, prefix="s"):
    """Nested list of fresh positive symbols (bin contents)."""
    cnt = itertools.count()

    def go(sh):
        if not sh:
            return sym("%s%d" % (prefix, next(cnt)))
        return [go(sh[1:]) for _ in range(sh[0])]
    return go(list(shape))


def content(axes, weight=False, keys=None, prefix="s", odd=0):
    """Symbolic content of a histogram: nested dicts for the group axes (keys: list of key lists), arrays of symbols below.

    odd != 0: every few bins have no entries at all, or statistics of which the sum of weights is zero or negative (as weights of both signs and scaling give)."""
    groups = [a for a in axes if a["axis"] in GROUP]
    keys = keys or []
    sh = shape(axes, weight)

    def go(i, pre):
        if i == len(groups):
            return symbols(sh, pre) if not odd else strange(symbols(sh, pre), 2 if weight else 1, odd)
        ks = keys[i](pre) if callable(keys[i]) else keys[i]
        return dict((k, go(i + 1, "%s_%s_" % (pre, k))) for k in ks)
    return go(0, prefix)


def strange(cells, last, odd):
    """Some bins empty, some with a zero or negative sum of weights."""
    number = [odd]

    def go(c):
        if c and isinstance(c[0], list):
            return [go(q) for q in c]
        number[0] += 1
        i = len(c) - last
        r = number[0] % 5
        if r == 1:
            return [0.0] * len(c)
        if r == 2:
            return c[:i] + [0.0] + c[i + 1:]
        if r == 3:
            return c[:i] + [-2.0] + c[i + 1:]
        if r == 4:
            return [0.0] * i + c[i:]
        return c
    return go(cells)


def hjson(axes, cont=None, **opts):
    out = {"type": "Hist", "axis": [dict(a) for a in axes]}
    for k, v in opts.items():
        if v is not None:
            out[k] = v
    if cont is not None:
        out["content"] = cont
    return out


# ------------------------------------------------------------------ reference statistics

def add(a, b):
    return mk("+", a, b)


def mul(a, b):
    return mk("*", a, b)


def zeros(sh):
    if not sh:
        return 0.0
    return [zeros(sh[1:]) for _ in range(sh[0])]


def fillref(axes, rows, weight=False, cont=None):
    """Reference content after filling `rows`.

    Each row: (list of fixed bin indexes or None, list of group keys or None, list of profile values, weight or None)."""
    sh = shape(axes, weight)
    groups = [a for a in axes if a["axis"] in GROUP]
    nprof = sum(1 for a in axes if a["axis"] == "profile")
    if cont is None:
        cont = {} if groups else zeros(sh)
    for idx, keys, prof, w in rows:
        node = cont
        if any(k is None for k in keys):
            continue
        for j, k in enumerate(keys):
            if k not in node:
                node[k] = {} if j + 1 < len(keys) else zeros(sh)
            node = node[k]
        if any(i is None for i in idx):
            continue
        for i in idx:
            node = node[i]
        ww = 1 if w is None else w
        for p in range(nprof):
            node[2 * p] = add(node[2 * p], mul(prof[p], ww))
            node[2 * p + 1] = add(node[2 * p + 1], mul(mul(prof[p], prof[p]), ww))
        node[2 * nprof] = add(node[2 * nprof], ww)
        if weight:
            node[2 * nprof + 1] = add(node[2 * nprof + 1], mul(ww, ww))
    return cont


def mapc(f, *conts):
    """Map over the leaves of parallel nested contents."""
    c = conts[0]
    if isinstance(c, dict):
        return dict((k, mapc(f, *[x[k] for x in conts])) for k in c)
    if isinstance(c, (list, tuple)):
        return [mapc(f, *xs) for xs in zip(*conts)]
    return f(*conts)


def leaves(c):
    if isinstance(c, dict):
        for v in c.values():
            for x in leaves(v):
                yield x
    elif isinstance(c, (list, tuple)):
        for v in c:
            for x in leaves(v):
                yield x
    else:
        yield c


def iszero(c):
    return all(isinstance(x, (int, float)) and x == 0 for x in leaves(c))


def prune(c):
    """Drop group entries that hold nothing (an absent group and an all-zero group mean the same)."""
    if isinstance(c, dict):
        out = {}
        for k, v in c.items():
            v = prune(v)
            if not iszero(v):
                out[k] = v
        return out
    return c


def cdiff(got, want, what):
    if isinstance(want, dict) and (isinstance(got, dict) or got is None):
        return diff(prune(got or {}), prune(want), what)
    return diff(got, want, what)


# ------------------------------------------------------------------ snapshots

class Snap(object):
    """Immutable picture of an abstract value at one point of a context (not affected by later writes)."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Snap(%r)" % (self.v,)


def snapfn():
    from .objects import BFn
    return BFn("snap", lambda m, a, k: Snap(host(m, a[0])))


def plainj(x):
    """JSON-like host structure with group dicts kept, for comparing two tojson() pictures."""
    return x
