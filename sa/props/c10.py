"""C10 histograms survive JSON and pickle round trips."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("value-number analysis of every serialisation route: the histogram is filled with symbolic statistics, sent through the route, and its complete public picture (axes, weight, filter, "
           "definitions, attachments, fields, cells, tables) must be the same terms as before, also after the same further fill of both")
ASSUME = ["JSON text keeps the keys of groupby axes only if they are strings (JSON has no other keys)", "attachments and definitions are made of JSON values", "expressions are given as strings"]

x, n, c, k = "x", "n", "c", "k"
FLAGS = [dict(u=u, o=o, n=nn, cl=cl) for u, o, nn, cl in itertools.product((True, False), repeat=4)]
AXES = ([[Bin("x", 2, 0, 2, **f)] for f in FLAGS] + [[Split("x", (0, 0.75, 2), **f)] for f in FLAGS] + [[Intbin("n", -1, 1, u=u, o=o)] for u in (True, False) for o in (True, False)] +
        [[Groupbin("x", w, origin=o, n=nn, cl=cl)] for w, o in ((2, 0), (0.5, 0.25), (3, -1)) for nn in (True, False) for cl in (True, False)] +
        [[], [Cut("k")], [Cut("x > 1")], [Groupby("c")], [Bin("x", 0, 0, 0)], [Split("x", (1,))], [Split("x", (1,), u=False, n=False)],
         [Groupby("c"), Groupbin("x", 2)], [Groupbin("x", 2), Groupby("c")], [Groupby("c"), Groupbin("x", 0.5, origin=0.25), Bin("x", 2, 0, 2), Cut("k")],
         [Bin("x", 2, 0, 2, u=False), Split("v", (0, 1)), Intbin("n", 0, 1)], [Cut("k"), Bin("x", 1, 0, 2, o=False)], [Groupby("n")], [Groupby("k"), Bin("x", 2, 0, 2)], [Groupby("n"), Groupby("c")]])
PROFS = [[], [Profile("y")], [Profile("y"), Profile("y*z"), Profile("n + 1")]]
AT = {"note": "a", "list": [1, 2.5, None, True], "nest": {"a": {"b": []}}, "systematic": [1, -2]}
OPTS = [("plain", {}), ("w", {"weight": "w"}), ("f", {"filter": "x > 0"}), ("wf", {"weight": "2*w", "filter": "x > 0 and n != 2"}), ("wc", {"weight": 2.5}), ("wci", {"weight": 3, "filter": "n < 2"}), ("w0", {"weight": 0}), ("w00", {"weight": 0.0}), ("w1", {"weight": 1}), ("w-1", {"weight": -1}), ("w0s", {"weight": "0*w"}), ("w0f", {"weight": 0, "filter": "x > 0"}), ("ff", {"filter": "x > 5"}), ("at0", {"attachment": {"": 0, "n": None}}),
        ("at", {"attachment": AT}), ("defs", {"defs": {"aa": "x + n", "bb": "2*w"}, "weight": "bb"}), ("defsn", {"defs": {"s": 2.5, "t": 3, "u": 0, "v2": -1}, "weight": "w*s + t"}), ("all", {"defs": {"aa": "w*w"}, "weight": "aa", "filter": "x > -5", "attachment": AT})]
ROUTES = [("json", "Hist.fromjson(h.tojson())"), ("jsontext", "Hist.fromjson(json.loads(json.dumps(h.tojson())))"), ("json2", "Hist.fromjson(Hist.fromjson(h.tojson()).tojson())"), ("jsontext2", "Hist.fromjson(json.loads(json.dumps(Hist.fromjson(json.loads(json.dumps(h.tojson()))).tojson())))"),
          ("pickle", "pickle.loads(pickle.dumps(h))"), ("deepcopy", "copy.deepcopy(h)"), ("pickle+json", "Hist.fromjson(pickle.loads(pickle.dumps(h)).tojson())")]

OBS = """
def obs(t):
    return snap((repr(t), [repr(a) for a in t.axis], [a.tojson() for a in t.axis], t.shape, list(t.fields), t[()], "content" in t.tojson(), dict(t.attachment), dict(t.defs), t.tojson(), t.table(), t.table(*[a for a in t.axis if isinstance(a, histbook.axis.profile)]) if prof else None))
"""
NAMES = ["repr", "repr of the axes", "axes", "shape", "fields", "cells", "being filled", "attachment", "definitions", "JSON form", "table", "profile table"]


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(y) for y in v]
    if isinstance(v, dict):
        return dict((q, norm(y)) for q, y in v.items())
    return v


def compare(got, want, what):
    for name, a, b in zip(NAMES, got.v, want.v):
        d = diff(norm(a), norm(b), "%s: %s" % (what, name))
        if d:
            return d


def data(m, nan=False):
    ys = [sym("y%d" % i) for i in range(5)]
    if nan:
        ys[2] = NAN
    return {"x": arr(m, [0.5, 1.5, NAN, -2.0, 2.0]), "n": arr(m, [0, 1, 2, -3, 7]), "k": arr(m, [True, False, True, True, False]), "c": arr(m, ["a", "b", "a", "c", "b"]), "y": arr(m, ys), "z": arr(m, [sym("z%d" % i) for i in range(5)]),
            "w": arr(m, [sym("w%d" % i) for i in range(5)]), "v": arr(m, [1.5, 0.5, 9.0, 2.5, NAN]), "snap": snapfn()}


FILL = "fill(x=x, n=n, k=k, c=c, y=y, z=z, w=w, v=v)"


def run(ck):
    ck.anchor("Hist", "Hist.tojson", "Hist.fromjson", "Hist.__getstate__", "Hist.__setstate__", "Hist.fill", "Hist.__eq__")
    for axes in AXES:
        for pi, prof in enumerate(PROFS):
            for on, opts in OPTS:
                flags = len(axes) == 1 and axes[0]["axis"] in ("bin", "split", "groupbin")
                if not ck.thorough and (pi == 1 and on not in ("plain", "w") or pi == 2 and on not in ("all", "wf") or flags and on not in ("plain", "all", "w")):
                    continue
                for rn, rsrc in ROUTES:
                    if "text" in rn and any(a["axis"] == "groupby" and a["expr"] != "c" for a in axes):
                        continue
                    if not ck.thorough and rn in ("json2", "deepcopy", "pickle+json", "jsontext2") and (on not in ("plain", "all") or flags or pi == 1):
                        continue
                    key = "%s/%d/%s/%s" % (".".join(short(a) + (a["expr"] if a["axis"] == "groupby" else "") + ("%gw" % a["binwidth"] if a["axis"] == "groupbin" else "") for a in axes) or "none", pi, on, rn)
                    h = hist(axes + prof, **opts)
                    e = lambda m, pi=pi: dict(data(m, pi == 1), prof=pi > 0)
                    filled = pi != 1

                    def judge(m, v, rn=rn, pi=pi):
                        return compare(v[1], v[0], "after %s" % rn) or compare(v[2], v[0], "source of %s" % rn) or compare(v[4], v[3], "filled after %s" % rn) or (None if v[5] is True or pi == 1 else "%s of the histogram is not equal to it" % rn)
                    src = OBS + "h = %s\n%sb = obs(h)\ng = %s\nr, s = obs(g), obs(h)\neq = g == h and h == g and not (g != h)\nh.%s\ng.%s\nreturn b, r, s, obs(h), obs(g), eq" % (h, "h." + FILL + "\n", rsrc, FILL, FILL)
                    ck.ob(key, "picture before and after serialisation is the same", src, e, judge)
                    if pi == 0:
                        src = OBS + "h = %s\nb = obs(h)\ng = %s\nr, s = obs(g), obs(h)\neq = g == h and h == g and not (g != h)\nh.%s\ng.%s\nreturn b, r, s, obs(h), obs(g), eq" % (h, rsrc, FILL, FILL)
                        ck.ob(key + "/unfilled", "picture before and after serialisation is the same", src, e, lambda m, v, judge=judge: judge(m, v))
    # JSON form is plain data: dict, list, tuple, str, numbers, booleans and None with the documented layout
    plain = """
def plain(t):
    if isinstance(t, dict):
        return all(plain(q) for q in t.values())
    if isinstance(t, (list, tuple)):
        return all(plain(q) for q in t)
    return t is None or isinstance(t, (str, int, float, bool))
"""
    for axes in AXES:
        for on, opts in (("plain", {}), ("wf", {"weight": "2*w", "filter": "x > 0"})):
            src = plain + "h = %s\nh.%s\nj = h.tojson()\nreturn plain(j), isinstance(j['content'], (list, dict))" % (hist(axes + [Profile("y")], **opts), FILL)
            ck.ob("plain/%s/%s" % (".".join(short(a) + a["expr"] for a in axes) or "none", on), "the JSON form consists of JSON values", src, lambda m: dict(data(m), y=arr(m, [1.0] * 5)), lambda m, v: None if v[0] is True and v[1] is True else "JSON form contains other objects than JSON values")
    # definitions given as parsed expressions or numbers
    for rn, rsrc in (("pickle", "pickle.loads(pickle.dumps(h))"), ("deepcopy", "copy.deepcopy(h)"), ("pickle2", "pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(h))))")):
        for dn, d, axes, opts in (("expr", "{'q': histbook.expr.Expr.parse('x + n')}", "bin('q', 2, 0, 2), profile('n*y')", ", weight='w*q'"), ("both", "{'q': histbook.expr.Expr.parse('x + n'), 'r': 'y*z', 's': 2.5, 't': 3}", "bin('q', 2, 0, 2), profile('r*t')", ", weight='w*s'"), ("number", "{'s': 2.5}", "bin('x', 2, 0, 2)", ", weight='w*s', filter='x < s'"), ("zero", "{'s': 0, 't': ''.join(['x'])}", "bin('t', 2, 0, 2)", ", weight='w + s'")):
            for filled in (True, False):
                src = "h = Hist(%s%s, defs=%s)\n%sg = %s\neq = g == h and h == g\nb, r = snap(h.tojson().get('content')), snap(g.tojson().get('content'))\ns = sorted(h.defs), sorted(g.defs), h.fields, g.fields\nh.%s\ng.%s\nreturn b, r, snap(h.tojson()['content']), snap(g.tojson()['content']), s, eq" % (axes, opts, d, "h.%s\n" % FILL if filled else "", rsrc, FILL, FILL)

                def judge(m, v, rn=rn):
                    s = host(m, v[4])
                    return diff(v[1].v, v[0].v, "content after %s" % rn) or diff(v[3].v, v[2].v, "content filled after %s" % rn) or diff(s[1], s[0], "names of the definitions after %s" % rn) or diff(list(s[3]), list(s[2]), "fields after %s" % rn) or (None if v[5] is True else "%s of the histogram is not equal to it" % rn)
                ck.ob("defs/%s/%s/%s" % (rn, dn, filled), "definitions survive in whatever form they were given", src, data, judge)
