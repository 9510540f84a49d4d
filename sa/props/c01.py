"""C01 every filled value is counted in exactly the bin whose label contains it."""
import itertools
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("interval abstract interpretation of fill(): for every axis kind and flag combination the input is an array of abstract values "
           "(open intervals between neighbouring edges, each edge, both half-lines, both infinities, NaN), each carrying its own symbolic weight; "
           "the abstract bin contents must credit each weight to the bin whose published label contains the abstract value and nowhere else")
ASSUME = ["axis parameters are taken from contexts whose edges are exactly representable; rounding of the edge arithmetic for other parameters is outside this analysis",
          "non-integer values strictly between two integers are not claimed for integer axes"]


def axes_for(ck):
    out = []
    for mk_ in (lambda **k: Bin(numbins=4, low=0, high=4, **k), lambda **k: Split(edges=(0, 1, 2.5, 4), **k)):
        out += flagged(mk_)
    extra = [Bin(numbins=2, low=-1, high=1), Bin(numbins=1, low=0, high=1), Bin(numbins=1, low=0, high=1, cl=False), Bin(numbins=2, low=0, high=1, u=False), Bin(numbins=2, low=1, high=5, o=False, n=False), Bin(numbins=0, low=2, high=2), Split(edges=(0, 1)), Split(edges=(0, 1), cl=False), Bin(numbins=1, low=-3, high=5, u=False, o=False, n=False), Bin(numbins=3, low=-6, high=-3, cl=False),
             Split(edges=(2,)), Split(edges=(2,), cl=False, u=False), Split(edges=(-3, -1.5), o=False, n=False), Split(edges=(-3, -1.5), u=False, n=False)]
    for u, o in itertools.product((True, False), repeat=2):
        extra += [Intbin(min=0, max=3, u=u, o=o), Intbin(min=-2, max=1, u=u, o=o), Intbin(min=5, max=5, u=u, o=o), Intbin(min=1, max=2, u=u, o=o)]
    if ck.thorough:
        for mk_ in (lambda **k: Bin(numbins=3, low=-1.5, high=1.5, **k), lambda **k: Bin(numbins=8, low=16, high=32, **k), lambda **k: Split(edges=(-2, 7), **k), lambda **k: Split(edges=(3,), **k)):
            for a in flagged(mk_):
                if totbins(a) > 0:
                    extra.append(a)
    return out + extra


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "bin", "split", "intbin", "cut", "groupby", "groupbin")
    for n, ax in enumerate(axes_for(ck)):
        regs = regions(ax)
        tag = "%s#%d" % (short(ax), n)

        def labjudge(m, v, ax=ax):
            got = host(m, v)
            want = [l.tup() for l in labels(ax)]
            if len(got) != len(want):
                return "axis %s publishes %d labels, its bins are %d" % (short(ax), len(got), len(want))
            for g, w in zip(got, want):
                if not same(list(g), list(w)):
                    return "axis %s publishes label %r where the bin is %r" % (short(ax), g, w)
        ck.ob("labels/" + tag, "published labels partition the axis", KEYS_SRC + "return [describe(k) for k in %s.keys()]" % ctor(ax), None, labjudge)

        # all regions in one fill call, each with its own weight
        w = [sym("w%d" % i) for i in range(len(regs))]

        def env(m, regs=regs, w=w):
            return {"x": arr(m, [aval(r) for r in regs], NP.F8 if any(r[0] == "r" or isinstance(r[1], float) for r in regs) else None), "w": arr(m, w)}

        def wjudge(m, v, ax=ax, regs=regs, w=w):
            got = host(m, v)
            want = fillref([ax], [([locate(ax, r)], [], [], w[i]) for i, r in enumerate(regs)], weight=True)
            for b in range(len(want)):
                d = diff(got[b], want[b], "content of bin %d %r" % (b, labels(ax)[b].tup()))
                if d:
                    return "%s after filling %s: %s" % (short(ax), show(regs, w), d)
        ck.ob("weighted/" + tag, "each weight is credited to the bin containing the value", "h = Hist(%s, weight='w')\nh.fill(x=x, w=w)\nreturn h.tojson()['content']" % ctor(ax), env, wjudge)

        def ujudge(m, v, ax=ax, regs=regs):
            got = host(m, v)
            want = fillref([ax], [([locate(ax, r)], [], [], None) for i, r in enumerate(regs)])
            return diff(got, want, "%s unweighted content" % short(ax))
        ck.ob("counts/" + tag, "each value is counted once in the bin containing it", "h = Hist(%s)\nh.fill(x=x)\nreturn h.tojson()['content']" % ctor(ax), env, ujudge)

        # each region alone, and alone in a float32-free scalar fill
        for i, r in enumerate(regs):
            if n >= 36 and not ck.thorough:
                break

            def one(m, r=r):
                return {"x": arr(m, [aval(r)], NP.F8 if r[0] == "r" or isinstance(r[1], float) else None)}

            def ojudge(m, v, ax=ax, r=r):
                got = host(m, v)
                want = fillref([ax], [([locate(ax, r)], [], [], None)])
                d = diff(got, want, "content")
                return d and "%s after filling one value %s: %s" % (short(ax), showr(r), d)
            ck.ob("alone/%s/%s" % (tag, showr(r)), "each value is counted once in the bin containing it", "h = Hist(%s)\nh.fill(x=x)\nreturn h.tojson()['content']" % ctor(ax), one, ojudge)

    # integer arrays on real axes
    for ax in (Bin(numbins=4, low=0, high=4), Split(edges=(0, 1, 3, 4)), Bin(numbins=4, low=0, high=4, cl=False), Split(edges=(0, 1, 3, 4), cl=False), Split(edges=(0, 1, 3, 4), u=False, o=False, n=False)):
        vals = list(range(-3, 8))

        def envi(m, vals=vals):
            return {"x": arr(m, vals, NP.I8)}

        def ij(m, v, ax=ax, vals=vals):
            return cdiff(host(m, v), fillref([ax], [([locate(ax, ("c", float(x)))], [], [], None) for x in vals]), "%s content for integers %r" % (short(ax), vals))
        ck.ob("ints/%s" % short(ax) + str(ax.get("edges", "")), "each value is counted once in the bin containing it", "h = Hist(%s)\nh.fill(x=x)\nreturn h.tojson()['content']" % ctor(ax), envi, ij)

    # integer arrays of every type, up to the limits of the type
    for code in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
        bits = 8 * int(code[1])
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if code[0] == "i" else (0, 2 ** bits - 1)
        vals = sorted(set([lo, lo + 1, 0, 1, 2, 3, 5, 100, hi - 1, hi] + ([-1, -2, -100] if lo < 0 else [])))
        axs = [Bin(numbins=4, low=-2, high=2), Bin(numbins=1, low=0, high=256, cl=False), Split(edges=(-100, 0, 3)), Split(edges=(-1, 0, 255, 256), u=False, cl=False), Intbin(min=0, max=3), Intbin(min=-3, max=1), Intbin(min=-200, max=-100), Intbin(min=2, max=101, u=False), Intbin(min=1, max=2)]
        if bits == 8:
            axs += [Intbin(min=lo, max=hi, u=u, o=o) for u in (True, False) for o in (True, False)] + [Bin(numbins=2, low=lo, high=hi), Intbin(min=-300, max=300, u=False, o=False)]
        for q, ax in enumerate(axs):
            def envt(m, vals=vals, code=code):
                return {"x": arr(m, vals, NP.DType(code))}

            def jt(m, v, ax=ax, vals=vals, code=code):
                return cdiff(host(m, v), fillref([ax], [([locate(ax, ("c", float(x) if ax["axis"] != "intbin" else x))], [], [], None) for x in vals]), "%s content for integers %r of type %s" % (short(ax), vals, code))
            ck.ob("inttype/%s/%s#%d" % (code, short(ax), q), "each value is counted once in the bin containing it", "h = Hist(%s)\nh.fill(x=x)\nreturn h.tojson()['content']" % ctor(ax), envt, jt)

    # floating-point numbers of less than 64 bits are the numbers they hold
    for code, vals in (("f4", [0.1, 0.3, 0.6, 0.7, 0.8, 0.9, 1.1, -0.3, 1e30, -3e38, 16777216.0, 0.0, 3.0, 4.0, -1.0, 9.9, 2.7, NAN, INF, -INF]), ("f2", [0.1, 0.3, 0.7, 0.9, 7.004, 9.999, -0.3, 60000.0, 0.0, 3.0, 4.0, -1.0, 3.3, 2.7, NAN, INF, -INF])):
        vals = [NP.narrowfloat(None, x, NP.DType(code)) for x in vals]
        for q, ax in enumerate([Bin(numbins=10, low=0, high=1), Bin(numbins=10, low=0, high=1, cl=False), Bin(numbins=1000, low=0, high=10), Bin(numbins=3, low=0.3, high=2.7, u=False), Split(edges=(0.1, 0.3, 0.7, 0.9, 2.7)), Split(edges=(0.1, 0.3, 0.7, 0.9, 2.7), u=False, o=False, n=False, cl=False), Intbin(min=0, max=3), Intbin(min=-1, max=9, u=False)]):
            def envf(m, vals=vals, code=code):
                return {"x": arr(m, vals, NP.DType(code))}

            def jf(m, v, ax=ax, vals=vals, code=code):
                return cdiff(host(m, v), fillref([ax], [([locate(ax, ("c", x))], [], [], None) for x in vals if ax["axis"] != "intbin" or x == x]), "%s content for %r of type %s" % (short(ax), vals, code))
            if ax["axis"] == "intbin":
                vals = [x for x in vals if x == x and (abs(x) == INF or x == int(x))]     # an integer axis takes integers
            ck.ob("floattype/%s/%s#%d" % (code, short(ax), q), "each value is counted once in the bin containing it", "h = Hist(%s)\nh.fill(x=x)\nreturn h.tojson()['content']" % ctor(ax), lambda m, vals=vals, code=code: envf(m, vals, code), lambda m, v, ax=ax, vals=vals, code=code: jf(m, v, ax, vals, code))

    # cut
    def cenv(m):
        return {"x": arr(m, [True, False, True], NP.B1), "y": arr(m, [aval(("r", -5.0, 0.0)), 0.0, aval(("r", 0.0, 7.0)), NAN, INF])}
    ck.ob("cut/predicate", "pass/fail bins", "h = Hist(cut('x'))\nh.fill(x=x)\nreturn h.tojson()['content']", cenv, lambda m, v: diff(host(m, v), [[1.0], [2.0]], "cut content"))
    ck.ob("cut/relation", "pass/fail bins", "h = Hist(cut('y > 0'))\nh.fill(y=y)\nreturn h.tojson()['content']", cenv, lambda m, v: diff(host(m, v), [[3.0], [2.0]], "cut content"))
    ck.ob("cut/relation2", "pass/fail bins", "h = Hist(cut('y <= 0'))\nh.fill(y=y)\nreturn h.tojson()['content']", cenv, lambda m, v: diff(host(m, v), [[3.0], [2.0]], "cut content"))

    # groupbin
    for n_, cl, o, w_ in itertools.product((True, False), (True, False), (0.0, 1.0, -0.5), (2.0, 1.0, 0.5)):
        ax = Groupbin(binwidth=w_, origin=o, n=n_, cl=cl)
        e = [o + w_ * i for i in (-2, -1, 0, 1, 2)]
        regs = [("c", x) for x in e] + [("r", a, b) for a, b in zip(e[:-1], e[1:])] + [("c", INF), ("c", -INF), ("c", NAN)]
        w = [sym("w%d" % i) for i in range(len(regs))]

        def genv(m, regs=regs, w=w):
            return {"x": arr(m, [aval(r) for r in regs], NP.F8), "w": arr(m, w)}

        def gj(m, v, ax=ax, regs=regs, w=w):
            return cdiff(host(m, v), fillref([ax], [([], [groupkey(ax, r)], [], w[i]) for i, r in enumerate(regs)], weight=True), "%s content" % short(ax))
        for sub, rr in (("all", regs), ("nonan", regs[:-1]), ("nanonly", regs[-1:])):
            ww = [sym("w%d" % i) for i in range(len(rr))]
            ck.ob("groupbin/%s/%s/%s" % (short(ax), w_, sub) + "/o%s" % o, "each weight is credited to the bin containing the value", "h = Hist(%s, weight='w')\nh.fill(x=x, w=w)\nreturn h.tojson()['content']" % ctor(ax),
                  lambda m, rr=rr, ww=ww: genv(m, rr, ww), lambda m, v, rr=rr, ww=ww, ax=ax: gj(m, v, ax, rr, ww))
    # groupby
    for vals in (["a", "b", "a", "cc"], [3, 1, 3], [True, False, True]):
        w = [sym("w%d" % i) for i in range(len(vals))]
        ck.ob("groupby/%r" % (vals,), "each weight is credited to the bin containing the value", "h = Hist(groupby('c'), weight='w')\nh.fill(c=c, w=w)\nreturn h.tojson()['content']",
              lambda m, vals=vals, w=w: {"c": arr(m, vals), "w": arr(m, w)},
              lambda m, v, vals=vals, w=w: cdiff(host(m, v), fillref([Groupby()], [([], [k], [], w[i]) for i, k in enumerate(vals)], weight=True), "groupby content"))

    # combined fixed axes: the joint bin
    pairs = [(Bin("x", 2, 0, 2), Split("y", (0, 1, 4))), (Bin("x", 2, 0, 2, u=False), Bin("y", 3, 0, 3, o=False, n=False)), (Intbin("x", 0, 1, u=False, o=False), Bin("y", 2, 0, 2, u=False, o=False, n=False)),
             (Cut("x > 1"), Bin("y", 2, 0, 2)), (Split("x", (0, 1, 2), n=False, u=False), Intbin("y", 0, 2))]
    for i, (a, b) in enumerate(pairs):
        ra = regions(a, False) if a["axis"] != "cut" else [("r", -4.0, 1.0), ("c", 1.0), ("r", 1.0, 9.0)]
        rb = regions(b, False)

        def loc(ax, r):
            if ax["axis"] == "cut":
                return 1 if r[0] == "r" and r[1] >= 1.0 else 0
            return locate(ax, r)
        combos = list(itertools.product(ra, rb))
        step = 1 if ck.thorough else max(1, len(combos) // 24)
        combos = combos[::step]
        w = [sym("w%d" % j) for j in range(len(combos))]

        def penv(m, combos=combos, w=w, a=a, b=b):
            fa = None if a["axis"] == "intbin" else NP.F8
            fb = None if b["axis"] == "intbin" else NP.F8
            return {"x": arr(m, [aval(r) for r, _ in combos], fa), "y": arr(m, [aval(s) for _, s in combos], fb), "w": arr(m, w)}

        def pj(m, v, combos=combos, w=w, a=a, b=b):
            return cdiff(host(m, v), fillref([a, b], [([loc(a, r), loc(b, s)], [], [], w[j]) for j, (r, s) in enumerate(combos)], weight=True), "content of %s x %s" % (short(a), short(b)))
        ck.ob("joint/%d/%s/%s" % (i, short(a), short(b)), "joint bin of several axes", "h = Hist(%s, %s, weight='w')\nh.fill(x=x, y=y, w=w)\nreturn h.tojson()['content']" % (ctor(a), ctor(b)), penv, pj)


def showr(r):
    return repr(r[1]) if r[0] == "c" else "(%g,%g)" % r[1:]


def show(regs, w):
    return ", ".join("%s" % showr(r) for r in regs[:20])
