"""C23 a rejected fill changes nothing."""
import random
from ..spec import *
from ..values import sym
from .c22 import HS

LEVEL = "other"
EXPLAIN = ("exceptional-path analysis: for every histogram, book, prior history and way to reject a fill (each required field missing or of another length, functions that take another number of arguments, values that cannot be computed with), "
           "the picture of every histogram after the exception must be the one before it, it must still equal its twin, copies that share storage must stay apart, and later fills must give the terms of a twin that never saw the rejected fill")
ASSUME = ["fields are one-dimensional arrays or single numbers", "the caller's data does not change during the fill"]

VALS = {"x": "[0.25, 1.5, 5.0]", "y": "[0.5, 0.125, 3.0]", "n": "[1, 2, 2]", "c": "['u', 'v', 'u']", "b": "[True, False, True]", "w": "[w1, w2, w3]"}
USES = [("x",), ("x", "y", "w"), ("x", "y"), ("c", "x", "y", "w"), ("x", "y", "n"), ("x", "w"), ("n", "x", "w"), ("x", "y", "w"), ("x",), ("w", "b", "n"), ("w",), ("x",), ("x", "y", "n"), ("n", "b", "w"), ("n", "c", "w"), ("x", "y", "w"), ("w",), ("x", "y", "w")]
SHORT = {"x": "[0.25, 1.5]", "y": "[0.5]", "n": "[1, 2, 2, 2]", "c": "['u']", "b": "[True, False, True, False]", "w": "[w4, w5]"}
EMPTY = {"x": "[]", "y": "[]", "n": "[]", "c": "[]", "b": "[]", "w": "[]"}
DATA2 = "x=[0.75, -1.0], y=[-0.5, 1.5], n=[2, 0], c=['v', 't'], b=[False, False], w=[w4, w5]"
BAD = [("wrong arguments", "Hist(profile('arctan2(x)'))"), ("wrong arguments in a bin", "Hist(bin('x', 2, 0, 2), bin('sqrt(y, x)', 2, 0, 2), profile('w'))"), ("wrong arguments in the weight", "Hist(bin('x', 2, 0, 2), weight='sqrt(y, x)')"), ("wrong arguments in the filter", "Hist(bin('x', 2, 0, 2), filter='sqrt(y, x) > 0')"), ("wrong number of arguments", "Hist(profile('x'), profile('sqrt(x, y)'))"),
       ("wrong number of arguments after good axes", "Hist(groupby('c'), bin('x', 2, 0, 2), profile('y'), profile('sqrt(x, y, w)'))"), ("field that is not given", "Hist(bin('x', 2, 0, 2), profile('notgiven'))"), ("group that is not given", "Hist(groupby('notgiven'), bin('x', 2, 0, 2))"), ("profile of strings", "Hist(bin('x', 2, 0, 2), profile('c'))"), ("weight of strings", "Hist(bin('x', 2, 0, 2), profile('y'), weight='c')")]
PRE = """
def pic(h):
    return snap(h.tojson())
def attempt(f, **data):
    try:
        f.fill(**data)
    except Exception:
        return True
    return False
"""


def call(over=None, drop=()):
    v = dict(VALS)
    v.update(over or {})
    return ", ".join("%s=%s" % (k, v[k]) for k in v if k not in drop)


def run(ck):
    ck.anchor("Hist", "Hist.fill", "Hist.tojson", "Book", "Book.fill")
    r = random.Random(23)

    def env(m):
        out = dict(("w%d" % i, sym("w%d" % i)) for i in range(1, 7))
        out["snap"] = snapfn()
        return out

    def judge(m, v, what):
        rejected, pairs, flags = host(m, v)
        if rejected is not True:
            return "%s: the fill was accepted" % what
        for n, a, b in pairs:
            d = diff(a.v, b.v, "%s: %s" % (what, n))
            if d:
                return d
        for n, f in flags:
            if f is not True:
                return "%s: %s" % (what, n)

    def ob(name, rule, src, what, orders=(0,)):
        ck.ob(name, rule, PRE + src, env, lambda m, v, what=what: judge(m, v, what), orders=orders)
    STATES = [("fresh", "h = %(h)s\nt = %(h)s\nk = t\n"), ("filled", "h = %(h)s\nt = %(h)s\nh.fill(%(d)s)\nt.fill(%(d)s)\nk = t\n"), ("shared", "k = %(h)s\nt = %(h)s\nk.fill(%(d)s)\nt.fill(%(d)s)\nh = k.copyonfill()\n"), ("scaled", "h = %(h)s\nt = %(h)s\nh.fill(%(d)s)\nt.fill(%(d)s)\nh *= 2\nt *= 2\nk = t\n"), ("cleared", "h = %(h)s\nt = %(h)s\nh.fill(%(d)s)\nt.fill(%(d)s)\nh.clear()\nt.clear()\nk = t\n")]

    def single(name, hs, badcall, what, later=True):
        for st, setup in STATES:
            src = setup % {"h": hs, "d": call()} if later or st == "fresh" else None
            if src is None:
                continue
            src += "p0, k0 = pic(h), pic(k)\nr = attempt(h, %s)\np1, k1 = pic(h), pic(k)\ne1 = h == t\n" % badcall
            if later:
                src += "h.fill(%s)\nt2 = t.copy()\nt2.fill(%s)\np2, q2, k2 = pic(h), pic(t2), pic(k)\n" % (DATA2, DATA2)
                src += "return r, [('state after the rejected fill (%s)', p1, p0), ('another histogram', k1, k0), ('content after a later fill', p2, q2), ('another histogram after a later fill', k2, k0)], [('the histogram no longer equals its twin', e1)]" % st
            else:
                src += "return r, [('state after the rejected fill (%s)', p1, p0), ('another histogram', k1, k0)], [('the histogram no longer equals its twin', e1)]" % st
            ob("%s/%s" % (name, st), "a rejected fill leaves the histogram as it was", src, "%s, %s" % (hs, what))
    for i, (h, use) in enumerate(zip(HS, USES)):
        for f in use:
            single("missing/%d-%s" % (i, f), h, call(drop=(f,)), "field %s missing" % f)
            if len(use) > 1:
                single("length/%d-%s" % (i, f), h, call({f: SHORT[f]}), "field %s of another length" % f)
                if ck.thorough or f == use[-1]:
                    single("empty/%d-%s" % (i, f), h, call({f: EMPTY[f]}), "field %s empty" % f)
        single("nothing/%d" % i, h, "", "no fields")
    for i, (what, h) in enumerate(BAD):
        single("bad/%d" % i, h, call(), what, later=False)
    # books: no member may change
    for k in range(600 if ck.thorough else 60):
        idx = r.sample(range(len(HS)), r.choice((2, 3, 4)))
        paths = r.sample(["a", "b", "s/a", "s/b", "s/t/a", "z"], len(idx))
        bad = r.choice(BAD) if r.random() < 0.6 else None
        members = dict(zip(paths, [HS[i] for i in idx]))
        order = list(paths)
        src = "b = Book()\ntw = {}\n"
        fields = sorted(set(f for i in idx for f in USES[i]))
        if bad is None and len(fields) > 1 and r.random() < 0.6:
            f = r.choice(fields)
            data, what = call({f: SHORT[f]}), "field %s of another length" % f
        elif bad is None:
            f = r.choice(fields)
            data, what = call(drop=(f,)), "field %s missing" % f
        else:
            data, what = call(), bad[0]
            order.insert(r.randrange(len(order) + 1), "bad")
        for p in order:
            hs = bad[1] if p == "bad" else members[p]
            src += "b[%r] = %s\ntw[%r] = %s\n" % (p, hs, p, hs)
        pre = r.randrange(3)
        if pre:
            if bad:
                src += "for p, x in tw.items():\n    if p != 'bad':\n        b[p].fill(%s)\n        x.fill(%s)\n" % (call(), call())
            else:
                src += "b.fill(%s)\nfor x in tw.values():\n    x.fill(%s)\n" % (call(), call())
        src += "p0 = [pic(b[p]) for p in tw]\nr = attempt(b, %s)\np1 = [pic(b[p]) for p in tw]\ne = [b[p] == x for p, x in tw.items()]\n" % data
        if bad:
            src += "del b['bad'], tw['bad']\n"
        src += "b.fill(%s)\nfor x in tw.values():\n    x.fill(%s)\n" % (DATA2, DATA2)
        src += "return r, [('some member after the rejected fill', q, p) for p, q in zip(p0, p1)] + [('member %s after a later fill' % p, pic(b[p]), pic(x)) for p, x in tw.items()], [('some member no longer equals its twin', x) for x in e]"
        ob("book/%d" % k, "a rejected fill of a book leaves every member as it was", src, "book of %s, %s" % (", ".join(order), what), orders=(0, 1))
    # several rejected fills, interleaved with accepted ones
    for k in range(400 if ck.thorough else 40):
        i = r.randrange(len(HS))
        src = "h = %s\nt = %s\nr = True\n" % (HS[i], HS[i])
        for _ in range(r.choice((3, 4, 5))):
            if r.random() < 0.5:
                f = r.choice(USES[i])
                bad = call(drop=(f,)) if r.random() < 0.5 or len(USES[i]) == 1 else call({f: SHORT[f]})
                src += "r = attempt(h, %s) and r\n" % bad
            else:
                d = r.choice([call(), DATA2])
                src += "h.fill(%s)\nt.fill(%s)\n" % (d, d)
        src += "return r, [('content', pic(h), pic(t))], [('the histogram no longer equals its twin', h == t)]"
        ob("history/%d" % k, "rejected fills leave no trace in later ones", src, "history on " + HS[i])
