"""C06 copy-on-fill behaves like an immediate copy."""
import itertools
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("ownership and write-effect analysis of histories over a histogram and its copy-on-fill copies: the abstract heap after every enumerated sequence of operations must "
           "show each histogram exactly the content it would have if every copy-on-fill copy had been an immediate copy")
ASSUME = ["histories of up to three (thorough: four) operations over three histograms"]

CONFIGS = [
    ("bin.w", [Bin("x", 2, 0, 2)], None, "w"),
    ("groupby.prof", [Groupby("c"), Profile("y")], [["a", "b"]], None),
    ("groupby.groupbin", [Groupby("c"), Groupbin("x", 1.0)], [["a", "b"], [0.0, 1.0]], "w"),
]
F = "fill(x=x, y=y, w=w, c=c)"
G = "fill(x=x[1:], y=y[1:], w=w[1:], c=c[1:])"
OPS = [("fa", "a.%s" % F), ("fb", "b.%s" % G), ("a+=b", "a += b"), ("b+=a", "b += a"), ("b+=b", "b += b"), ("a*=", "a *= 2"), ("b*=", "b *= 3"), ("ca", "a.clear()"), ("cb", "b.clear()"),
       ("b=c(a)", "b = COPY(a)"), ("c=c(b)", "c = COPY(b)"), ("c=c(a)", "c = COPY(a)"), ("fc", "c.%s" % G), ("c*=", "c *= 5"), ("ra", "a.table(recarray=False)\na.axis\nstr(a)"), ("rb", "b.table(recarray=False)\nb.tojson()"),
       ("sa", "b = a.select('x < 1')"), ("att", "b.attach('k', 2)"), ("pk", "c = pickle.loads(pickle.dumps(b))"), ("a=a+b", "a = a + b"), ("rej", "try:\n    b.fill(x=x[:1], y=y, w=w, c=c)\nexcept ValueError:\n    pass")]


def indent(s, n=4):
    return "\n".join(" " * n + l for l in s.split("\n"))


def run(ck):
    ck.anchor("Hist", "Hist.copyonfill", "Hist.copy", "Hist.fill", "Hist.tojson")
    ys, ws = [sym("y%d" % i) for i in range(4)], [sym("w%d" % i) for i in range(4)]
    xs, cs = [0.5, 1.5, 0.5, 1.0], ["a", "b", "b", "z"]
    for name, axes, keys, weight in CONFIGS:
        for state in ("filled", "unfilled", "empty"):
            if state == "empty" and not keys:
                continue
            def env(m, axes=axes, keys=keys, weight=weight, state=state):
                return {"jh": absv(m, hjson(axes, content(axes, weight is not None, keys) if state == "filled" else {} if state == "empty" else None, weight=weight, attachment={"k": 1})), "snap": snapfn(),
                        "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs)}
            seqs = []
            for n in (1, 2, 3):
                for seq in itertools.product(OPS, repeat=n):
                    names = [o[0] for o in seq]
                    if any(x == y for x, y in zip(names, names[1:])) or "att" in names[:-1] or ("sa" in names and (name != "bin.w")):
                        continue
                    if "sa" in names and any("+" in x for x in names[names.index("sa"):]):
                        continue            # different axes: the sum is refused
                    if names[-1] in ("ra", "rb") and n > 1:
                        continue
                    if n == 3 and not ck.thorough and not (state == "filled" and name != "groupby.prof" and (names[0] in ("c=c(b)", "c=c(a)", "b=c(a)") or names[1] in ("c=c(b)", "c=c(a)", "b=c(a)"))
                                                             and names[2] in ("fa", "fb", "fc", "a+=b", "b+=a", "a*=", "b*=", "c*=", "rej")):
                        continue
                    seqs.append(seq)
            for seq in seqs:
                body = "\n".join(o[1] for o in seq)
                src = ("def prog(COPY, data):\n    a = Hist.fromjson(jh)\n    b = COPY(a)\n    c = COPY(a)\n    x, y, w, c_ = data\n%s\n    return snap((a.tojson(), b.tojson(), c.tojson()))\n"
                       "data = (x, y, w, c)\nlazy = prog(lambda h: h.copyonfill(), data)\neager = prog(lambda h: h.copy(), data)\nreturn lazy, eager" % indent(body)).replace("c=c)", "c=c_)").replace("c=c[1:])", "c=c_[1:])")

                def judge(m, v, seq=seq):
                    for i, n in enumerate(("original", "copy", "second copy")):
                        d = diff(v[0].v[i], v[1].v[i], "%s after %s" % (n, " ; ".join(o[0] for o in seq)))
                        if d:
                            return d
                ck.ob("%s/%s/%s" % (name, state, ";".join(o[0] for o in seq)), "lazy and immediate copies give the same content", src, env, judge)
    # independent oracle for the first step (in case copy() itself shares)
    ax = [Bin("x", 2, 0, 2)]
    c0 = content(ax, False)

    def env(m):
        return {"jh": absv(m, hjson(ax, c0)), "x": arr(m, [0.5, 1.5])}
    want = [[add(s[0], 1 if i in (1, 2) else 0)] for i, s in enumerate(c0)]
    for cp in ("copyonfill", "copy"):
        ck.ob("direct/%s/copy" % cp, "the copy starts with the original's content", "a = Hist.fromjson(jh)\nb = a.%s()\nb.fill(x=x)\nreturn a.tojson()['content'], b.tojson()['content']" % cp, env,
              lambda m, v: diff(host(m, v)[0], c0, "original after filling the copy") or diff(host(m, v)[1], want, "copy after filling"))
        ck.ob("direct/%s/original" % cp, "the copy starts with the original's content", "a = Hist.fromjson(jh)\nb = a.%s()\na.fill(x=x)\nreturn a.tojson()['content'], b.tojson()['content']" % cp, env,
              lambda m, v: diff(host(m, v)[1], c0, "copy after filling the original") or diff(host(m, v)[0], want, "original after filling"))
