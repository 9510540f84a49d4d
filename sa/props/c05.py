"""C05 derived histograms are independent of their source."""
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("ownership and write-effect analysis on the abstract heap: after deriving a histogram, every changing operation is applied to one side and the complete observable "
           "picture (JSON form, attachment, definitions) of the other side must be the same term structure as before; the untouched side must also still fill correctly")
ASSUME = ["values that the user attaches or returns from the attachment dict are the user's own objects: only adding, replacing and removing attachments counts as changing a histogram",
          "copy.copy() of a histogram (Python's shallow copy protocol) is not a documented way to copy one and is not covered; pickling and deep copying are"]

CONFIGS = [
    ("bin.prof", [Bin("x", 2, 0, 2), Profile("y")], None),
    ("split.cut", [Split("x", (0, 1, 2), o=False), Cut("x > 1"), Profile("y"), Profile("x")], None),
    ("groupby.bin", [Groupby("c"), Bin("x", 2, 0, 2)], [["a", "b"]]),
    ("groupby.groupbin.bin.prof", [Groupby("c"), Groupbin("x", 1.0), Bin("x", 2, 0, 2), Profile("y")], [["a", "b"], [0.0, 1.0]]),
    ("groupbin", [Groupbin("x", 1.0), Profile("y")], [[0.0, 1.0, "NaN"]]),
]

# name, source, applicable(axes)
def has(*kinds):
    return lambda axes: all(any(a["axis"] == k for a in axes) for k in kinds)


ANY = lambda axes: True
DERIVE = [
    ("copy", "h.copy()", ANY), ("cleared", "h.cleared()", ANY), ("copyonfill", "h.copyonfill()", ANY),
    ("weight", "h.weight('w*2')", ANY), ("filter", "h.filter('x > 1')", ANY), ("systematic", "h.detach('systematic').systematic((1, 2))", ANY),
    ("h+o", "h + o", ANY), ("o+h", "o + h", ANY), ("h+empty", "h + o.cleared()", ANY), ("empty+h", "o.cleared() + h", ANY), ("h*2", "h * 2", ANY), ("2*h", "2 * h", ANY), ("h*1", "h * 1", ANY),
    ("project-all", "h.project(*[a for a in h.axis if not isinstance(a, profile)])", ANY), ("project-first", "h.project(h.axis[0])", ANY), ("project-none", "h.project()", ANY),
    ("project-last", "h.project([a for a in h.axis if not isinstance(a, profile)][-1])", ANY),
    ("drop", "h.drop('y')", has("profile")),
    ("select-bin", "h.select('x < 1')", has("bin")), ("select-bin-ge", "h.select('x >= 1')", has("bin")), ("select-split", "h.select('x < 1')", has("split")), ("select-cut", "h.select('x > 1')", has("cut")),
    ("select-all", "h.select('x >= -inf')", has("bin")),
    ("select-groupby", "h.select('c == \"a\"')", has("groupby")), ("select-groupby-not", "h.select('c != \"zzz\"')", has("groupby")), ("select-groupbin", "h.select('x < 1')", lambda axes: axes[0]["axis"] == "groupbin"),
    ("select-groupbin-all", "h.select('x >= 0')", lambda axes: axes[0]["axis"] == "groupbin"),
    ("rebin", "h.rebin('x', [0, 2])", lambda axes: has("bin")(axes) and not has("groupbin")(axes)), ("rebin-same", "h.rebin('x', [0, 1, 2])", lambda axes: has("bin")(axes) and not has("groupbin")(axes)),
    ("rebinby", "h.rebinby('x', 2)", lambda axes: has("bin")(axes) and not has("groupbin")(axes)), ("rebinby1", "h.rebinby('x', 1)", lambda axes: has("bin")(axes) and not has("groupbin")(axes)),
    ("rebin-groupbin", "h.rebinby('x', 1)", lambda axes: axes[0]["axis"] == "groupbin"),
    ("group", "Hist.group(by='src', p=h, q=o)", ANY), ("group1", "Hist.group(by='src', p=h)", ANY),
    ("json", "Hist.fromjson(h.tojson())", ANY), ("jsontext", "Hist.fromjson(json.loads(json.dumps(h.tojson())))", lambda axes: not has("groupbin")(axes)),
    ("pickle", "pickle.loads(pickle.dumps(h))", ANY), ("deepcopy", "copy.deepcopy(h)", ANY),
    ("rebuild", "Hist(*h.axis, weight='w', defs=h.defs, attachment=h.attachment)", ANY),
    ("copy-of-copy", "h.copy().copy()", ANY), ("copy-of-copyonfill", "h.copyonfill().copy()", ANY), ("copyonfill-of-copy", "h.copy().copyonfill()", ANY), ("copyonfill2", "h.copyonfill().copyonfill()", ANY),
]

CHANGE = [
    ("fill", "t.fill(x=x, y=y, w=w, c=c, src=c)"),
    ("iadd", "t += Hist.fromjson(t.tojson())"),
    ("imul", "t *= 3"),
    ("clear", "t.clear()"),
    ("clear-fill", "t.clear()\nt.fill(x=x, y=y, w=w, c=c, src=c)"),
    ("attach", "t.attach('new', 1)\nt.attach('systematic', (7, 7))\nt.attachment['k'] = 2\nt.attachment['l'] = 3"),
    ("defs", "t.defs['newdef'] = 'x'\nt.defs['r'] = 'x + 5'"),
]


def run(ck):
    ck.anchor("Hist", "Hist.copy", "Hist.cleared", "Hist.weight", "Hist.filter", "Hist.systematic", "Hist.project", "Hist.select", "Hist.rebin", "Hist.rebinby", "Hist.drop", "Hist.group", "Hist.tojson", "Hist.fromjson", "Hist.fill")
    ys, ws = [sym("y%d" % i) for i in range(4)], [sym("w%d" % i) for i in range(4)]
    xs, cs = [0.5, 1.5, 0.5, 1.0], ["a", "b", "b", "z"]
    for name, axes, keys in CONFIGS:
        for weight, state in (("w", "filled"), (None, "filled"), (None, "unfilled"), ("w", "odd")):
            if weight is None and state == "filled" and not ck.thorough and name not in ("bin.prof", "groupby.bin"):
                continue
            wt = weight is not None
            a = content(axes, wt, keys, "s", odd=state == "odd")
            b = content(axes, wt, keys, "t")

            def env(m, axes=axes, a=a, b=b, weight=weight, state=state):
                opts = dict(weight=weight, defs={"r": "x + 1"}, attachment={"k": "v", "l": [1, 2], "systematic": (1, 1)})
                return {"jh": absv(m, hjson(axes, a if state != "unfilled" else None, **opts)), "jo": absv(m, hjson(axes, b, **opts)), "snap": snapfn(),
                        "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs)}
            pre = ("def obs(t):\n    return snap((t.tojson(), dict(t.attachment), dict(t.defs), str(t), t.shape))\n"
                   "h, o = Hist.fromjson(jh), Hist.fromjson(jo)\n")
            for dn, dsrc, ok in DERIVE:
                if not ok(axes):
                    continue
                for cn, csrc in CHANGE:
                    if cn == "defs" and dn in ("weight", "filter") and False:
                        continue
                    key = "%s/%s/%s/%s/%s" % (name, weight, state, dn, cn)
                    # change the derived one: source (and the other operand) stay
                    src = pre + "d = %s\nb0, b1 = obs(h), obs(o)\nt = d\n%s\nreturn b0, obs(h), b1, obs(o)" % (dsrc, csrc)

                    def judge(m, v, dn=dn, cn=cn):
                        b0, a0, b1, a1 = v
                        return diff(a0.v, b0.v, "source of %s after %s of the result" % (dn, cn)) or diff(a1.v, b1.v, "other operand of %s after %s of the result" % (dn, cn))
                    ck.ob(key + "/derived", "changing the derived histogram leaves its source alone", src, env, judge)
                    src = pre + "d = %s\nb0 = obs(d)\nt = h\n%s\nreturn b0, obs(d)" % (dsrc, csrc)

                    def judge(m, v, dn=dn, cn=cn):
                        b0, a0 = v
                        return diff(a0.v, b0.v, "result of %s after %s of its source" % (dn, cn))
                    ck.ob(key + "/source", "changing the source leaves the derived histogram alone", src, env, judge)
                # interleaved filling: the source accumulates exactly its own entries
                if state == "filled" and weight == "w" or ck.thorough:
                    src = pre + "e = Hist.fromjson(jh)\nd = %s\nh.fill(x=x, y=y, w=w, c=c)\nd.fill(x=x[:3], y=y[:3], w=w[:3], c=c[:3], src=c[:3])\nh.fill(x=x[1:], y=y[1:], w=w[1:], c=c[1:])\n" \
                        "e.fill(x=x, y=y, w=w, c=c)\ne.fill(x=x[1:], y=y[1:], w=w[1:], c=c[1:])\nreturn snap(h.tojson()), snap(e.tojson())" % dsrc

                    def judge(m, v, dn=dn):
                        if dn == "systematic":
                            v[1].v["attachment"].pop("systematic", None)
                        return diff(v[0].v, v[1].v, "source filled in turns with the result of %s" % dn)
                    ck.ob("%s/%s/%s/%s/interleaved" % (name, weight, state, dn), "filling both in turns gives each its own entries", src, env, judge)

    # what the caller passed in or got out
    ax = [Groupby("c"), Bin("x", 2, 0, 2), Profile("y")]
    base = {"a": None}

    def env(m):
        return {"j": absv(m, hjson(ax, content(ax, True, [["a", "b"]]), weight="w", defs={"r": "x + 1"}, attachment={"k": "v"})), "snap": snapfn(),
                "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs)}
    unch = lambda what: (lambda m, v: diff(v[1].v, v[0].v, what))
    fill = "fill(x=x, y=y, w=w, c=c)"
    for cn, csrc in CHANGE:
        ck.ob("caller/json/%s" % cn, "objects passed in are not shared", "t = Hist.fromjson(j)\nb = snap(j)\n%s\nreturn b, snap(j)" % csrc, env, unch("JSON passed to fromjson after %s" % cn))
        ck.ob("caller/tojson/%s" % cn, "objects passed in are not shared", "t = Hist.fromjson(j)\nk = t.tojson()\nb = snap(k)\n%s\nreturn b, snap(k)" % csrc, env, unch("result of tojson after %s" % cn))
        ck.ob("caller/dicts/%s" % cn, "objects passed in are not shared", "at, de = {'k': 1}, {'r': 'x + 1'}\nt = Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), weight='w', defs=de, attachment=at)\nb = snap((at, de))\n%s\nreturn b, snap((at, de))" % csrc, env, unch("dicts passed to Hist after %s" % cn))
        ck.ob("caller/axes/%s" % cn, "objects passed in are not shared", "axs = [profile('y'), groupby('c'), bin('x', 2, 0, 2)]\np = Hist(axs[2], axs[0], weight='w')\nt = Hist(*axs, weight='w')\nq = Hist(axs[1], axs[0], weight='w')\n"
              "b = snap((p.tojson(), q.tojson(), [z.tojson() for z in axs]))\n%s\nreturn b, snap((p.tojson(), q.tojson(), [z.tojson() for z in axs]))" % csrc, env, unch("histograms built from the same axes after %s" % cn))
    ck.ob("caller/mutate-json", "objects passed in are not shared", "t = Hist.fromjson(j)\nb = snap(t.tojson())\nj['content']['a'][0][0] = 5\nj['content']['new'] = 5\nj['attachment']['k'] = 7\nj['defs']['r'] = '0'\nj['axis'][1]['numbins'] = 77\nreturn b, snap(t.tojson())", env, unch("histogram after changing the JSON it was read from"))
    ck.ob("caller/mutate-tojson", "objects passed in are not shared", "t = Hist.fromjson(j)\nb = snap(t.tojson())\nk = t.tojson()\nk['content']['a'][0][0] = 5\nk['content']['new'] = 5\nk['attachment']['k'] = 7\nk['defs']['r'] = '0'\nk['axis'][1]['numbins'] = 77\nreturn b, snap(t.tojson())", env, unch("histogram after changing its JSON"))
    ck.ob("caller/mutate-dicts", "objects passed in are not shared", "at, de = {'k': 1}, {'r': 'x + 1'}\nt = Hist(bin('r', 2, 0, 2), defs=de, attachment=at)\nb = snap((t.tojson(), t.attachment, t.defs))\nat['k'] = 5\nat['z'] = 1\nde['r'] = 'x'\nreturn b, snap((t.tojson(), t.attachment, t.defs))", env, unch("histogram after changing the dicts it was built from"))
    ck.ob("caller/table", "objects passed in are not shared", "t = Hist.fromjson(j)\nb = snap(t.tojson())\ntab = t.table('y', recarray=False)\ntab['a'][...] = 0\ntab = t.table('y', effcount=True, recarray=False)\ntab['b'] *= 0\nreturn b, snap(t.tojson())", env, unch("histogram after changing its table"))
    ck.ob("caller/sharedaxes-fill", "histograms built from the same axes fill independently", "axs = [profile('y'), groupby('c'), bin('x', 2, 0, 2)]\np = Hist(axs[2], axs[0], weight='w')\nt = Hist(*axs, weight='w')\nq = Hist(axs[1], axs[0], weight='w')\n"
          "r = Hist(bin('x', 2, 0, 2), profile('y'), weight='w')\np.%s\nt.%s\nq.%s\nr.%s\nreturn snap(r.tojson()), snap(p.tojson())" % (fill, fill, fill, fill), env, unch("histogram that shares axis objects with others"))
