"""C31 exported tables (pandas, ROOT) hold each bin's statistics under the bin's own label."""
import itertools
from ..spec import *
from ..values import Unsupported
from ..objects import BFn
from ..builtins_model import srcmodule
from .c03 import blank, rows, formulas, names, CONFIGS as TABLES
from . import c27

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of pandas() and root() against stand-ins for these libraries that record what they are given: bin contents are symbols standing for every positive number; each exported row must consist of the label of one bin "
           "and the statistics of that same bin, for every bin once")
ASSUME = ["pandas and ROOT are replaced by stand-ins with their documented constructors (neither is installed here)", "entries are compared as real-number terms", "group keys of one axis have one type", "tables without any column are outside the claim"]

PANDAS = '''
class Interval(object):
    def __init__(self, left, right, closed="right"):
        if isinstance(left, str) or isinstance(right, str) or left is None or right is None or left != left or right != right:
            raise ValueError("Only numeric, Timestamp and Timedelta endpoints are allowed when constructing an Interval.")
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': %s" % closed)
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        self.left = left
        self.right = right
        self.closed = closed

class Index(object):
    def __init__(self, data=None, name=None):
        self.rows = [(x,) for x in data]
        self.names = [name]

class MultiIndex(object):
    def __init__(self, rows, names):
        self.rows = rows
        self.names = names

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        arrays = [list(a) for a in arrays]
        if len(arrays) == 0:
            raise ValueError("Must pass non-zero number of levels/codes")
        for a in arrays:
            if len(a) != len(arrays[0]):
                raise ValueError("all arrays must be same length")
        if names is not None and len(names) != len(arrays):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return cls([tuple([a[i] for a in arrays]) for i in range(len(arrays[0]))], None if names is None else list(names))

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        tuples = [tuple(t) for t in tuples]
        if len(tuples) == 0 and names is None:
            raise TypeError("Cannot infer number of levels from empty list")
        return cls(tuples, None if names is None else list(names))

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        rows = [()]
        for it in iterables:
            it = list(it)
            rows = [r + (x,) for r in rows for x in it]
        return cls(rows, None if names is None else list(names))

class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if dtype is not None:
            unsupported("dtype of a DataFrame")
        if isinstance(data, dict):
            if columns is None:
                columns = list(data.keys())
            data = [list(x) for x in zip(*[list(data[c]) for c in columns])]
        elif data is not None and not isinstance(data, (list, tuple)):
            if data.dtype.names is not None:
                if len(data.shape) != 1:
                    raise ValueError("Must pass 1-d structured data")
                if columns is None:
                    columns = list(data.dtype.names)
                data = [[row[c] for c in columns] for row in data]
            else:
                if len(data.shape) != 2:
                    raise ValueError("Must pass 2-d input")
                if data.shape[1] != len(list(columns)):
                    raise ValueError("Shape of passed values is wrong")
                data = data.tolist()
        elif data is not None:
            data = [list(x) for x in data]
        self.columns = None if columns is None else list(columns)
        if index is None:
            index = Index(range(0 if data is None else len(data)))
        self.index = index if isinstance(index, (Index, MultiIndex)) else Index(index)
        if data is not None:
            if len(data) != len(self.index.rows):
                raise ValueError("Shape of passed values does not fit the index")
            for r in data:
                if len(r) != len(self.columns):
                    raise ValueError("Shape of passed values does not fit the columns")
        self.data = data

    @classmethod
    def from_records(cls, data, index=None, exclude=None, columns=None):
        return cls(data, index=index, columns=columns)

def show(df):
    rows = []
    for r in df.index.rows:
        out = []
        for x in r:
            out.append(("iv", x.left, x.right, x.closed) if isinstance(x, Interval) else x)
        rows.append(out)
    return [None if df.index.names is None else list(df.index.names), rows, df.columns, df.data]
'''

ROOT = '''
class TObj(object):
    def __init__(self, name, title, n, *args):
        self.name = name
        self.title = title
        self.n = n
        if len(args) == 1:
            self.edges = [float(x) for x in args[0]]
            if len(self.edges) != n + 1:
                raise ValueError("edges")
        elif len(args) == 2:
            self.edges = [float(args[0]) + (float(args[1]) - float(args[0])) * i / n for i in range(n + 1)]
        else:
            raise TypeError("arguments of a histogram")
        self.content = [0.0] * (n + 2)
        self.error = None
        self.binentries = [0.0] * (n + 2)
        self.entries = 0.0

    def GetName(self):
        return self.name

    def SetEntries(self, n):
        self.entries = n

    def SetContent(self, a):
        a = list(a)
        if len(a) != self.n + 2:
            raise ValueError("SetContent")
        self.content = a

    def SetError(self, a):
        a = list(a)
        if len(a) != self.n + 2:
            raise ValueError("SetError")
        self.error = a

    def SetBinContent(self, i, x):
        if not 0 <= i < self.n + 2:
            raise ValueError("SetBinContent")
        self.content[i] = x

    def SetBinError(self, i, x):
        if not 0 <= i < self.n + 2:
            raise ValueError("SetBinError")
        if self.error is None:
            self.error = [0.0] * (self.n + 2)
        self.error[i] = x

    def Sumw2(self, flag=True):
        pass

class TH1D(TObj):
    pass

class TProfile(TObj):
    def SetBinEntries(self, i, x):
        self.binentries[i] = x

def show(h):
    return [h.__class__.__name__, h.name, h.title, h.edges, h.content, h.error, h.binentries, h.entries]
'''


def stub(m, name, source):
    def unsupported(mm, a, k):
        raise Unsupported("use of %s: %s" % (name, a[0] if a else ""))
    mod = srcmodule(m, name, source, {"unsupported": BFn("unsupported", unsupported)})
    m.stubs[name] = mod
    return mod.ns["show"]


def envp(j):
    def env(m):
        return {"j": absv(m, j), "show": stub(m, "pandas", PANDAS), "snap": snapfn()}
    return env


def envr(j):
    def env(m):
        return {"j": absv(m, j), "show": stub(m, "ROOT", ROOT), "snap": snapfn()}
    return env


def rowlabels(ax):
    """What the rows of the axis's bins are to be called."""
    out = []
    for l in labels(ax):
        t = l.tup()
        if t[0] == "iv":
            if ax["axis"] == "intbin":
                out.append(("iv", t[1], t[2], "left" if t[1] == -INF else "right"))
            else:
                out.append(("iv", t[1], t[2], "left" if ax["closedlow"] else "right"))
        elif t[0] == "nan":
            out.append("{NaN}")
        elif t[0] == "int":
            out.append(("int", t[1]))
        else:
            out.append(t[1])
    return out


def grouplabel(ax, k):
    if ax["axis"] == "groupby":
        return k
    return "{NaN}" if k == "NaN" else ("iv", k, k + ax["binwidth"], "left" if ax["closedlow"] else "right")


def samelabel(g, w):
    if isinstance(w, tuple) and w[0] == "iv":
        return isinstance(g, tuple) and len(g) == 4 and g[3] == w[3] and all(not isinstance(a, str) and (a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))) for a, b in zip(g[1:3], w[1:3]))
    if isinstance(w, tuple) and w[0] == "int":
        return not isinstance(g, tuple) and (str(g) == str(int(w[1])) or g == w[1])
    return type(g) is type(w) and g == w or (isinstance(w, float) and not isinstance(g, (str, tuple, bool)) and g == w)


def sortgroups(keys):
    nums = sorted(k for k in keys if k != "NaN")
    return nums + [k for k in keys if k == "NaN"]


def expand(cont, axes, at=()):
    """(labels, row) of every bin in the order of the table."""
    if not axes:
        return [(list(at), cont)]
    a = axes[0]
    out = []
    if a["axis"] in GROUP:
        for k in sortgroups(list(cont)):
            out += expand(cont[k], axes[1:], at + (grouplabel(a, k),))
    else:
        for l, c in zip(rowlabels(a), cont):
            out += expand(c, axes[1:], at + (l,))
    return out


CONFIGS = TABLES + [("groupbinN", [Groupbin("g", 2.0)], [[-4.0, 0.0, 2.0, "NaN"]]), ("groupbinN.bin", [Groupbin("g", 0.5, 0.25, cl=False), Bin("x", 2, -1.0, 1.0, cl=False)], [["NaN", 0.25, -0.25]]), ("groupbin.groupby", [Groupbin("g", 2.0, n=False), Groupby("c")], [[6.0, -2.0], ["v", "u"]]),
                    ("groupby.groupbinN.intbin", [Groupby("c"), Groupbin("g", 2.0), Intbin("k", -1, 1, u=False)], [["b", "a"], [4.0, "NaN", -2.0]]), ("intbin", [Intbin("k", -2, 1)], []), ("intbin_", [Intbin("k", 3, 4, o=False)], []), ("splitH", [Split("x", (-1.0, 0.0, 10.0), cl=False)], []), ("bin.bin.bin", [Bin("x", 2, 0.0, 1.0, u=False), Bin("y", 1, 0.0, 1.0, o=False), Bin("z", 3, 0.0, 1.0, n=False)], []),
                    ("bin.groupby.cut", [Bin("x", 2, 0.0, 2.0), Groupby("c"), Cut("y > 0")], [["a", "b"]]), ("groupby number", [Groupby("n")], [[3.0, 1.0, 20.0]])]
FLAGS = list(itertools.product((True, False), repeat=4))
CONFIGS += [("flags.bin%d%d%d%d" % f, [Bin("x", 2, -1.0, 3.0, u=f[0], o=f[1], n=f[2], cl=f[3])], []) for f in FLAGS] + [("flags.split%d%d%d%d" % f, [Split("x", (-1.0, 0.5, 3.0), u=f[0], o=f[1], n=f[2], cl=f[3])], []) for f in FLAGS]
CONFIGS += [("flags.groupbin%d%d" % (n, cl), [Groupbin("g", 0.5, 0.25, n, cl)], [[1.25, 0.25, -0.75] + (["NaN"] if n else [])]) for n in (True, False) for cl in (True, False)] + [("flags.intbin%d%d" % (u, o), [Intbin("k", -1, 1, u=u, o=o)], []) for u in (True, False) for o in (True, False)]
CONFIGS += [("flags.groupbin.split%d%d" % (n, cl), [Groupbin("g", 3.0, 1.0, n, cl), Split("x", (0.0, 2.0), u=cl, o=n, cl=not cl)], [[1.0, -5.0] + (["NaN"] if n else [])]) for n in (True, False) for cl in (True, False)]


def run(ck):
    ck.anchor("Hist", "Hist.pandas", "Hist.root", "Hist.table", "Hist.fraction", "Hist.fromjson")
    profs = ["p", "q*2"]

    def compare(got, ordn, want, cols, what):
        nm, rws, gcols, data = got
        wnames = [a["expr"] for a in ordn]
        if gcols != cols:
            return "%s has columns %s instead of %s" % (what, gcols, cols)
        if ordn and [None if n is None else str(n).replace(" ", "") for n in (nm or [])] != [w.replace(" ", "") for w in wnames]:
            return "%s has index levels %s instead of %s" % (what, nm, wnames)
        if not want:
            return None if not rws and not data else "%s has rows %s instead of none" % (what, rws)
        if len(rws) != len(want):
            return "%s has %d rows instead of %d" % (what, len(rws), len(want))
        if data is None:
            return "%s has labels but no values" % what
        for i, ((wl, wr), gl, gr) in enumerate(zip(want, rws, data)):
            if ordn and (len(gl) != len(wl) or not all(samelabel(a, b) for a, b in zip(gl, wl))):
                return "row %d of %s is called %s instead of %s" % (i, what, gl, wl)
            d = diff(list(gr), list(wr), "row %s of %s" % (gl, what))
            if d:
                return d

    for name, axes, keys in CONFIGS:
        ordn = [a for a in axes if a["axis"] in GROUP] + [a for a in axes if a["axis"] in FIXED]
        nfix = sum(1 for a in axes if a["axis"] in FIXED)
        for nprof, weighted in itertools.product((0, 1, 2), ("none", "w", "filter")):
            if nprof == 2 and weighted == "filter" and not ck.thorough:
                continue
            full = axes + [Profile(p) for p in profs[:nprof]]
            wt = weighted != "none"
            base = content(full, wt, keys)
            for holes in ((), (0, 1)):
                cont = blank(base, holes)
                j = hjson(full, cont, weight="w" if weighted == "w" else None, filter="f > 0" if weighted == "filter" else None)
                for wanted in [()] + [(i,) for i in range(nprof)] + ([(1, 0), (0, 1)] if nprof == 2 else []):
                    for o in (dict(), dict(error=False), dict(count=False), dict(effcount=True), dict(effcount=True, count=False, error=False)):
                        if holes and o and not ck.thorough:
                            continue
                        cols = names(wanted, profs, **o)
                        if not cols:
                            continue
                        if not axes and not o and not wanted and not holes:
                            pass
                        tab = rows(cont, nfix, lambda cell, nprof=nprof, wt=wt, wanted=wanted, o=o: formulas(cell, nprof, wt, wanted, **o))
                        want = expand(tab, ordn)
                        args = [repr(profs[i]) for i in wanted] + ["%s=%r" % i for i in sorted(o.items())]
                        src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nd = h.pandas(%s)\nreturn snap(show(d)), b, snap(h.tojson())" % ", ".join(args)

                        def judge(m, v, ordn=ordn, want=want, cols=cols, name=name, args=args):
                            d = compare(v[0].v, ordn, want, cols, "pandas(%s) of %s" % (", ".join(args), name))
                            return d or diff(v[2].v, v[1].v, "the histogram after pandas()")
                        ck.ob("pandas/%s/%d/%s/%d/%s/%s" % (name, nprof, weighted, len(holes), wanted, sorted(o.items())), "each row is one bin's label and that bin's statistics", src, envp(j), judge)
            # nothing filled yet
            groupless = not any(a["axis"] in GROUP for a in axes)
            cols = names((), profs)
            if groupless:
                zero = rows(blank(base, tuple(range(10000))), nfix, lambda cell: [0.0, 0.0])
                want = expand(zero, ordn)
            else:
                want = []
            ck.ob("unfilled/%s/%d/%s" % (name, nprof, weighted), "an unfilled histogram has the rows of its fixed bins, empty", "h = %s\nreturn snap(show(h.pandas()))" % hist(full, weight="w" if weighted == "w" else None), envp(None),
                  lambda m, v, ordn=ordn, want=want, cols=cols, name=name: compare(v.v, ordn, want, cols, "pandas() of the unfilled %s" % name))

    # fractions
    for name, axes, keys in c27.CONFIGS:
        cuts = [a for a in axes if a["axis"] == "cut"]
        nfix = [a for a in axes if a["axis"] in FIXED]
        for nprof, weighted in ((0, False), (1, True)):
            full = axes + [Profile("p%d" % i) for i in range(nprof)]
            ncol = 2 * nprof + (2 if weighted else 1)
            cont = content(full, weighted, keys)
            j = hjson(full, cont, weight="w" if weighted else None)
            ord_ = [a for a in axes if a["axis"] in GROUP] + nfix
            for w in [(c,) for c in range(len(cuts))] + ([(1, 0)] if len(cuts) > 1 else []):
                chosen = [cuts[i] for i in w]
                left = [a for a in ord_ if a not in chosen]
                cols = ["count()"] + list(itertools.chain(*[(c["expr"], "err(%s)" % c["expr"]) for c in chosen]))
                src = "h = Hist.fromjson(j)\nt = h.fraction(%s, recarray=False)\nd = h.pandas(%s)\nreturn snap(show(d)), snap(t)" % ((", ".join(repr(c["expr"]) for c in chosen),) * 2)

                def judgef(m, v, left=left, cols=cols, name=name, w=w):
                    t = v[1].v
                    return compare(v[0].v, left, expand(t, left), cols, "pandas of cuts %s of %s" % (w, name))
                ck.ob("fraction/%s/%d/%s" % (name, nprof, w), "each row is one bin's label and that bin's fractions", src, envp(j), judgef)
    # refused
    for e in ("h.pandas('x')", "h.pandas('a > 0', 'p')", "h.pandas('nosuch')", "h.pandas('c')", "h.pandas('b > 0')", "h.pandas('p', 'x')", "h.pandas(profile('r'))", "h.pandas(cut('b > 0'))", "h.pandas('p', nosuchoption=True)", "h.pandas('a > 0', nosuchoption=True)"):
        ck.ob("refused/" + e, "what is not a table is refused", "h = Hist(groupby('c'), bin('x', 2, 0, 2), cut('a > 0'), profile('p'))\nd = %s\nreturn snap(show(d))" % e, envp(None), lambda m, v, e=e: "%s is accepted and gives %s" % (e, v.v), onraise=lambda m, x: None)

    # ROOT
    axes1 = [Bin("x", 2, 0.0, 2.0, u=u, o=o, n=n) for u in (True, False) for o in (True, False) for n in (True, False)] + [Bin("x", 3, -1.0, 0.5, cl=False), Split("x", (0.0, 1.0, 5.0)), Split("x", (0.0, 1.0, 5.0), u=False, n=False), Split("x", (-2.0, -1.0, 5.0, 6.0), o=False)]
    for ai, ax in enumerate(axes1):
        for extra in ((), (Profile("p"),), (Profile("q"), Profile("p")), (Cut("y > 0"),), (Groupby("c"), Profile("p"))):
            for weighted in (False, True):
                full = [ax] + list(extra)
                keys = [["a", "b"]] if any(a["axis"] in GROUP for a in extra) else None
                cont = content(full, weighted, keys)
                j = hjson(full, cont, weight="w" if weighted else None)
                prof = [a["expr"] for a in full if a["axis"] == "profile"]
                for p in [None] + prof:
                    if p is not None and weighted:
                        continue        # the error of a weighted TProfile depends on ROOT's own conventions
                    args = ["'x'"] + ([repr(p)] if p else [])
                    if len(extra) == 0 and p is None:
                        args = [[], ["'x'"], ["name='n'", "title='t'"]][ai % 3]
                    src = "h = Hist.fromjson(j)\nb = snap(h.tojson())\nt = h.project('x').table(%srecarray=False)\nd = h.root(%s)\nreturn snap(show(d)), snap(t), b, snap(h.tojson())" % (repr(p) + ", " if p else "", ", ".join(args))

                    def judger(m, v, ax=ax, p=p, weighted=weighted, args=args):
                        cls, nm, title, edg, con, err, ent, tot = v[0].v
                        t = v[1].v
                        if cls != ("TProfile" if p else "TH1D"):
                            return "root() gives a %s" % cls
                        if (nm, title) != (("n", "t") if "name='n'" in args else ("", "")):
                            return "name and title are %r, %r" % (nm, title)
                        if len(edg) != len(edges(ax)) or any(abs(a - b) > 1e-9 for a, b in zip(edg, edges(ax))):
                            return "the bin edges in ROOT are %s instead of %s" % (edg, edges(ax))
                        if not ax["nanflow"]:
                            body = list(t)
                        else:
                            body = list(t)[:-1]
                        nul = [0.0] * len(body[0])
                        body = ([] if ax["underflow"] else [nul]) + body + ([] if ax["overflow"] else [nul])
                        if p is None:
                            d = diff(con, [r[0] for r in body], "contents of the ROOT histogram of %s" % short(ax))
                            if d or not weighted:
                                return d
                            return diff(err, [r[1] for r in body], "errors of the ROOT histogram of %s" % short(ax))
                        d = diff(ent, [r[0] for r in body], "bin entries of the ROOT profile of %s" % short(ax))
                        return d or diff(con, [mul(r[0], r[2]) for r in body], "bin contents (times entries) of the ROOT profile of %s" % short(ax))
                    ck.ob("root/%d/%s/%s/%s/%s" % (ai, short(ax), [short(a) for a in extra], weighted, p), "each ROOT bin has the bin's edges and statistics", src, envr(j), judger)
