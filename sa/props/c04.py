"""C04 histogram arithmetic acts bin by bin."""
import itertools
from ..spec import *
from ..values import sym, mk

LEVEL = "other"
EXPLAIN = ("value-number abstract interpretation of +, +=, * and *= on histograms whose cells are symbols: every cell of the result must be the sum (or the multiple) of the "
           "corresponding cells, a group present in one operand only must be kept, and operands with different axes must be refused without changing either")
ASSUME = ["cells are compared as real-number terms", "scaling by a negative, infinite or NaN factor is treated like any other factor"]

CONFIGS = [
    ("none", [Profile("y")], ()),
    ("bin", [Bin(numbins=2, low=0, high=2)], ()),
    ("bin.split.prof2", [Bin(numbins=2, low=0, high=2, u=False), Split("z", (0, 1, 3), n=False), Profile("y"), Profile("z")], ()),
    ("cut.intbin", [Cut("x > 0"), Intbin("k", 0, 1)], ()),
    ("groupby.bin", [Groupby("c"), Bin(numbins=2, low=0, high=2)], (["a", "b"], ["b", "d"])),
    ("groupby.prof", [Groupby("c"), Profile("y")], (["a", "b"], ["b", "d"])),
    ("groupbin", [Groupbin("g", 2.0)], ([0.0, 2.0, "NaN"], [2.0, 4.0])),
    ("groupby.groupbin.bin", [Groupby("c"), Groupbin("g", 2.0), Bin(numbins=2, low=0, high=2, n=False)],
     ([["a", "b"], lambda pre: [0.0, 2.0] if "_b_" in pre else [2.0]], [["b", "d"], lambda pre: [2.0, 4.0]])),
]


def addc(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, dict):
        return dict((k, addc(a.get(k), b.get(k))) for k in list(a) + [k for k in b if k not in a])
    if isinstance(a, list):
        return [addc(x, y) for x, y in zip(a, b)]
    return add(a, b)


def scale(c, f):
    return None if c is None else mapc(lambda x: mul(x, f), c)


def pair(axes, keys, wt, odd=0):
    if not keys:
        return content(axes, wt, prefix="s", odd=odd), content(axes, wt, prefix="t", odd=odd and odd + 2)
    k0, k1 = keys
    if not isinstance(k0[0], list):
        k0, k1 = [k0], [k1]
    return content(axes, wt, k0, "s_", odd), content(axes, wt, k1, "t_", odd and odd + 2)


def run(ck):
    ck.anchor("Hist", "Hist.__add__", "Hist.__iadd__", "Hist.__mul__", "Hist.__imul__", "Hist.__rmul__", "Hist.fromjson", "Hist.tojson")
    f = sym("f", pos=None)
    for name, axes, keys in CONFIGS:
        for weight, odd in ((None, 0), ("w", 0), ("w", 1), (None, 3)):
            wt = weight is not None
            a, b = pair(axes, keys, wt, odd)

            def env(m, ja=hjson(axes, a, weight=weight), jb=hjson(axes, b, weight=weight), je=hjson(axes, None, weight=weight)):
                return {"ja": absv(m, ja), "jb": absv(m, jb), "je": absv(m, je), "f": f}
            pre = "a, b, e = Hist.fromjson(ja), Hist.fromjson(jb), Hist.fromjson(je)\n"
            key = "%s/%s%s" % (name, weight, "/odd" if odd else "")
            ops = [
                ("a+b", "r = a + b", addc(a, b)),
                ("b+a", "r = b + a", addc(a, b)),
                ("a+a", "r = a + a", addc(a, a)),
                ("a+e", "r = a + e", a),
                ("e+a", "r = e + a", a),
                ("e+e", "r = e + e", None),
                ("a+b+a", "r = a + b + a", addc(addc(a, b), a)),
                ("sum", "r = a\nfor x in [b, e, a]:\n    r = r + x", addc(addc(a, b), a)),
                ("a+=b", "r = a\nr += b", addc(a, b)),
                ("a+=a", "r = a\nr += a", addc(a, a)),
                ("a+=e", "r = a\nr += e", a),
                ("e+=a", "r = e\nr += a", a),
                ("e+=a+=b", "r = e\nr += a\nr += b", addc(a, b)),
                ("a*3", "r = a * 3", scale(a, 3)),
                ("a*0.5", "r = a * 0.5", scale(a, 0.5)),
                ("3*a", "r = 3 * a", scale(a, 3)),
                ("a*f", "r = a * f", scale(a, f)),
                ("f*a", "r = f * a", scale(a, f)),
                ("a*numpy", "r = a * numpy.float64(2.5)", scale(a, 2.5)),
                ("a*npint", "r = a * numpy.int64(2)", scale(a, 2)),
                ("a*=f", "r = a\nr *= f", scale(a, f)),
                ("a*=2", "r = a\nr *= 2", scale(a, 2)),
                ("a*1", "r = a * 1", a),
                ("a*0", "r = a * 0", scale(a, 0)),
                ("0.0*a", "r = 0.0 * a", scale(a, 0)),
                ("a*=0", "r = a\nr *= 0", scale(a, 0)),
                ("a*-1", "r = a * -1", scale(a, -1)),
                ("a*=-1.0", "r = a\nr *= -1.0", scale(a, -1)),
                ("a*True", "r = a * True", a),
                ("a-a", "r = a + a * -1", addc(a, scale(a, -1))),
                ("a*0+b", "r = a * 0 + b", addc(scale(a, 0), b)),
                ("a*=0+=b", "r = a\nr *= 0\nr += b", addc(scale(a, 0), b)),
                ("e*2", "r = e * 2", None),
                ("e*=2", "r = e\nr *= 2", None),
                ("(a+b)*f", "r = (a + b) * f", scale(addc(a, b), f)),
            ]
            for o, src, want in ops:
                def judge(m, v, want=want, axes=axes):
                    v = host(m, v)
                    w = want if want is not None else ({} if any(x["axis"] in GROUP for x in axes) else None)
                    if w is None:
                        if v is None or iszero(v):
                            return None
                        return "content of the result is %r, expected none" % (v,)
                    return cdiff(v, w, "content of the result")
                ck.ob("%s/%s" % (key, o), "result cells equal the cell-wise sum or multiple", pre + src + "\nreturn r.tojson().get('content')", env, judge)
            for o in ("a + b", "a * 2", "2 * a", "a + e", "e + a"):
                def judge(m, v, a=a, b=b):
                    x, y, z, w = host(m, v)
                    return cdiff(x, a, "left operand afterwards") or cdiff(y, b, "right operand afterwards") or (None if z is None else "the empty operand was filled")
                ck.ob("%s/operands/%s" % (key, o.replace(" ", "")), "operands of + and * are not changed", pre + "r = %s\nreturn a.tojson().get('content'), b.tojson().get('content'), e.tojson().get('content'), 0" % o, env, judge)

            def judge(m, v, a=a, b=b):
                return cdiff(host(m, v), b, "right operand of += afterwards")
            ck.ob(key + "/operands/a+=b", "operands of + and * are not changed", pre + "a += b\nreturn b.tojson()['content']", env, judge)
            # the result is of the same kind: table of the sum
            if not keys:
                ck.ob(key + "/inplace", "in-place operators return the same histogram", pre + "r = a\nr += b\nr *= 2\nreturn r is a", env, lambda m, v: None if m.truth(v) else "in-place arithmetic made a new histogram")

    # refused combinations
    base = [Bin(numbins=2, low=0, high=2), Profile("y")]
    others = {
        "numbins": [Bin(numbins=3, low=0, high=2), Profile("y")], "low": [Bin(numbins=2, low=1, high=2), Profile("y")], "high": [Bin(numbins=2, low=0, high=3), Profile("y")],
        "underflow": [Bin(numbins=2, low=0, high=2, u=False), Profile("y")], "overflow": [Bin(numbins=2, low=0, high=2, o=False), Profile("y")], "nanflow": [Bin(numbins=2, low=0, high=2, n=False), Profile("y")],
        "swapped": [Bin(numbins=2, low=0, high=2, o=False, n=True), Profile("y")],
        "closedlow": [Bin(numbins=2, low=0, high=2, cl=False), Profile("y")], "expr": [Bin("z", numbins=2, low=0, high=2), Profile("y")], "profile": [Bin(numbins=2, low=0, high=2), Profile("z")],
        "noprofile": [Bin(numbins=2, low=0, high=2)], "kind": [Split(edges=(0, 1, 2)), Profile("y")], "group": [Groupby("c"), Bin(numbins=2, low=0, high=2), Profile("y")],
    }
    for n, ax in sorted(others.items()):
        for op in ("a + b", "b + a", "a.__iadd__(b)", "b.__iadd__(a)"):
            keys = [["k"]] if n == "group" else None

            def env(m, ax=ax, keys=keys):
                return {"ja": absv(m, hjson(base, content(base, False))), "jb": absv(m, hjson(ax, content(ax, False, keys, "t")))}

            def judge(m, v, ax=ax, keys=keys, n=n):
                v = host(m, v)
                if v[0] != "refused":
                    return "histograms that differ in %s were added: %r" % (n, v[0])
                return cdiff(v[1], content(base, False), "left operand after a refused addition") or cdiff(v[2], content(ax, False, keys, "t"), "right operand after a refused addition")
            ck.ob("refuse/%s/%s" % (n, op.replace(" ", "")), "different axes are refused", "a, b = Hist.fromjson(ja), Hist.fromjson(jb)\ntry:\n    r = %s\nexcept TypeError:\n    r = 'refused'\nreturn (r if r == 'refused' else 'accepted'), a.tojson()['content'], b.tojson()['content']" % op.replace("a + b", "(a + b).tojson()").replace("b + a", "(b + a).tojson()"), env, judge)
    for n, (wa, wb) in {"weight": (None, "w"), "weight2": ("w", None)}.items():
        for op in ("a + b", "a.__iadd__(b)"):
            ck.ob("refuse/%s/%s" % (n, op.replace(" ", "")), "weighted and unweighted histograms are not mixed", "a, b = Hist.fromjson(ja), Hist.fromjson(jb)\ntry:\n    r = %s\nexcept TypeError:\n    return 'refused'\nreturn 'accepted'" % op,
                  lambda m, wa=wa, wb=wb: {"ja": absv(m, hjson(base, content(base, wa is not None), weight=wa)), "jb": absv(m, hjson(base, content(base, wb is not None, None, "t"), weight=wb))},
                  lambda m, v: None if v == "refused" else "a weighted and an unweighted histogram were added")
    for bad in ("1", "None", "[1]", "'x'", "(1, 2)", "{}", "1j", "numpy.array([1.0, 2.0])", "numpy.zeros(3)", "Book()", "bin('x', 2, 0, 2)", "a.tojson()", "a", "Hist"):
        for op in ("a + %s", "a.__iadd__(%s)", "a * %s", "%s * a", "a.__imul__(%s)"):
            if bad == "a" and "+" in op or bad == "a" and "iadd" in op or bad == "1" and ("mul" in op or "*" in op) or op.startswith("%s") and ("numpy" in bad or bad == "Book()"):
                continue
            for filled in (True, False):
                src = "a = Hist.fromjson(ja)\nb = snap(a.tojson())\ntry:\n    %s\nexcept Exception:\n    return 'refused', b, snap(a.tojson())\nreturn 'accepted', b, snap(a.tojson())" % (op % bad)
                ck.ob("refuse/%s/%s" % ((op % bad).replace(" ", ""), filled), "other types are refused", src, lambda m, filled=filled: {"ja": absv(m, hjson(base, content(base) if filled else None)), "snap": snapfn()},
                      lambda m, v, op=op, bad=bad: diff(v[2].v, v[1].v, "histogram after the refused %s" % (op % bad)) if v[0] == "refused" else "%s was accepted" % (op % bad))
