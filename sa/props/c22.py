"""C22 filling a book is filling each of its histograms."""
import random
from ..spec import *
from ..values import sym

LEVEL = "other"
EXPLAIN = ("differential value-number analysis: after every history of fills (of the book, of nested books, of views, of members alone) and membership changes, each histogram of the book must have the same terms in every cell as a twin outside of "
           "any book that was filled alone with the same data; the shared computation is scheduled under several iteration orders of its sets")
ASSUME = ["each histogram object is a member of one book once", "all fields of all members are given, as arrays (a histogram of single numbers only has one entry, but in a book they are broadcast along the arrays of the others)"]

HS = ["Hist(bin('x', 2, 0, 2))", "Hist(bin('x', 2, 0, 2), profile('y'), weight='w')", "Hist(bin('x + y', 2, 0, 2), profile('x + y'))", "Hist(groupby('c'), bin('x', 1, 0, 2), profile('y*w'))", "Hist(split('x', [0, 1]), cut('x > y'), filter='n > 1')", "Hist(groupbin('x', 0.5), profile('w'), weight='w')", "Hist(intbin('n', 0, 2), profile('q'), defs={'q': 'x*x + w'})",
      "Hist(profile('(x + y)*w'), profile('w'))", "Hist(bin('x', 2, 0, 2), weight=3)", "Hist(profile('w'), filter='b and n > 1')", "Hist(weight='w*w')", "Hist(bin('2', 2, 0, 2), profile('x'))", "Hist(bin('x', 2, 0, 2, nanflow=False, overflow=False), weight='x + y', filter='x < 1 or n == 2')", "Hist(cut('n > 1'), cut('not b'), profile('w'))", "Hist(groupby('n'), groupby('c'), weight='q', defs={'q': 'w*2'})", "Hist(bin('q', 2, 0, 2), weight='w', defs={'q': 'x + y'})", "Hist(profile('sqrt(w)'), profile('sqrt(w) + w'), weight='sqrt(w)')", "Hist(split('x + y', [0.5, 1.5]), weight='(x + y)*w')"]
PRE = """
def apply(b, tw, ops):
    for op in ops:
        op(b, tw)
def tojs(b, tw):
    return [[(n, snap(b[n].tojson().get('content')), snap(t.tojson().get('content'))) for n, t in tw.items()], sorted(b.allkeys(onlyhist=True)) == sorted(tw.keys()), b.fields if hasattr(b, 'fields') else None]
"""
DATA = ["x=[0.25, 1.5, 5.0], y=[0.5, 0.125, 3.0], n=[1, 2, 2], c=['u', 'v', 'u'], b=[True, False, True], w=[w1, w2, w3]", "x=[0.75, -1.0], y=[-0.5, 1.5], n=[2, 0], c=['v', 't'], b=[False, False], w=[w4, w5]", "x=[1.25, 0.5], y=[0.5, 1.5], n=[3, 1], c=['u', 'u'], b=[True, True], w=[w6, w1]"]


def run(ck):
    ck.anchor("Book", "Book.fill", "Hist", "Hist.fill", "SamplesBook", "SystematicsBook", "ChannelsBook.view")
    r = random.Random(22)

    def env(m):
        out = dict(("w%d" % i, sym("w%d" % i)) for i in range(1, 7))
        out["snap"] = snapfn()
        return out

    def judge(m, v, what):
        v = host(m, v)
        if v[1] is not True:
            return "%s: the members are not the expected ones" % what
        for n, a, b in v[0]:
            d = diff(a.v, b.v, "%s: content of %s" % (what, n))
            if d:
                return d

    def program(book, members, ops, cls="Book"):
        """book: source of the construction with placeholders {path}; members: path -> Hist source."""
        src = PRE + "tw = {}\n"
        for p, hs in members.items():
            src += "tw[%r] = %s\n" % (p, hs)
        src += "b = %s()\n" % cls if book is None else "b = %s\n" % book
        if book is None:
            for p, hs in members.items():
                src += "b[%r] = %s\n" % (p, hs)
        return src + "".join(ops) + "return tojs(b, tw)"

    def fill(i, only=None):
        sel = "tw.items()" if only is None else "[q for q in tw.items() if %s]" % only[1]
        return "%s.fill(%s)\nfor p, t in %s:\n    t.fill(%s)\n" % ("b" if only is None else only[0], DATA[i], sel, DATA[i])

    def setop(p, hs):
        return "b[%r] = %s\ntw[%r] = %s\n" % (p, hs, p, hs)

    def delop(p):
        return "del b[%r]\nfor p in list(tw):\n    if p == %r or p.startswith(%r):\n        del tw[p]\n" % (p, p, p + "/")

    def member(p, i):
        return "b[%r].fill(%s)\ntw[%r].fill(%s)\n" % (p, DATA[i], p, DATA[i])
    orders = (0, 1, 2, 3) if ck.thorough else (0, 1)
    n = 0

    def ob(name, src, o=orders):
        ck.ob(name, "each histogram as if filled alone", src, env, lambda m, v, name=name: judge(m, v, name), orders=o)
    # every pair of histograms
    for i, a in enumerate(HS):
        for j, b in enumerate(HS):
            if i < j or ck.thorough and i != j:
                ob("pair/%d-%d" % (i, j), program(None, {"p": a, "q": b}, [fill(0), fill(1)]))
    # single numbers are broadcast
    usex = [HS[i] for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 17)]
    S = "x=[0.25, 1.5, 5.0], y=0.5, n=1, c='u', b=True, w=w6"
    for i, a in enumerate(usex):
        b = usex[(i + 3) % len(usex)]
        ob("broadcast/%d" % i, program(None, {"p": a, "s/q": b}, ["b.fill(%s)\nfor t in tw.values():\n    t.fill(%s)\n" % (S, S), fill(1)]))
    # triples and larger, nested
    for k in range(300 if ck.thorough else 40):
        hs = r.sample(HS, r.choice((3, 4, 5)))
        paths = r.sample(["a", "b", "s/a", "s/b", "s/t/a", "z", "t/q"], len(hs))
        ob("many/%d %s" % (k, " ".join(paths)), program(None, dict(zip(paths, hs)), [fill(0), fill(2)]))
    # one expression used over and over, in one histogram and in several
    for k, (a, b) in enumerate((("Hist(profile('x'), profile('x'), profile('x'))", "Hist(profile('x'), weight='x')"), ("Hist(profile('w'), profile('w'), profile('w'), profile('w'), weight='w')", "Hist(bin('x', 2, 0, 2), profile('w'))"), ("Hist(bin('x', 2, 0, 2), bin('x', 2, 0, 2), bin('x', 2, 0, 2))", "Hist(bin('x', 2, 0, 2), bin('x', 3, 0, 2), bin('x', 2, 0, 2))"), ("Hist(cut('x > y'), cut('x > y'), cut('x > y'), filter='x > y')", "Hist(cut('n > 1'), cut('x > y'), filter='x > y')"),
                               ("Hist(groupby('c'), groupby('c'), groupby('c'))", "Hist(groupby('c'), groupby('n'), groupby('c'))"), ("Hist(groupbin('x', 0.5), groupbin('x', 0.5), groupbin('x', 0.5), profile('w'))", "Hist(groupbin('x', 0.5), groupbin('x', 1), weight='w*w')"), ("Hist(intbin('n', 0, 2), intbin('n', 0, 2), intbin('n', 0, 2))", "Hist(split('x', [0, 1]), split('x', [0, 1]), split('x', [0, 1]))"),
                               ("Hist(profile('w*w'), profile('w'), profile('w*w'), profile('w*w*w*w'), weight='w*w')", "Hist(profile('w*w'), profile('w*w*w*w'), weight='w')"))):
        ob("repeat/%d" % k, program(None, {"p": a, "s/q": b}, [fill(0), fill(1)]))
        ob("repeat2/%d" % k, program(None, {"p": a, "s/q": b, "z": a, "s/z": b}, [fill(0), fill(2)]))
    # large books: an intermediate result may be needed long after it was computed
    for k, (num, exprs) in enumerate(((6, ("x", "y", "n", "x*y", "x*n", "y*n")), (25, ("x", "y", "x*y")))):
        members = dict(("m%d_%d" % (i, j), "Hist(bin('%s', %d, 0, 2)%s)" % (e, i + 1, ", weight='w'" if (i + j) % 3 == 0 else "")) for i in range(num) for j, e in enumerate(exprs))
        if k % 2:
            members = dict(sorted(members.items(), key=lambda q: (q[0][-1], q[0])))
        ob("large/%d" % k, program(None, members, [fill(1)]), orders)
    # histories
    for k in range(1500 if ck.thorough else 170):
        hs = r.sample(HS, 3)
        paths = r.sample(["a", "b", "s/a", "s/b", "s/t/a"], 3)
        live = list(paths)
        ops, desc = [], []
        for _ in range(r.choice((2, 3, 4, 5))):
            q = r.random()
            if q < 0.35:
                i = r.randrange(3)
                ops.append(fill(i))
                desc.append("fill")
            elif q < 0.45 and any(p.startswith("s/") for p in live):
                i = r.randrange(3)
                ops.append(fill(i, ("b['s']", "q[0].startswith('s/')")))
                desc.append("fill s")
            elif q < 0.55 and live:
                p = r.choice(live)
                ops.append(member(p, r.randrange(3)))
                desc.append("fill member " + p)
            elif q < 0.75:
                p = r.choice(["a", "b", "s/a", "s/b", "s/t/a", "z", "s/n", "v/a"])
                ops.append(setop(p, r.choice(HS)))
                if p not in live:
                    live.append(p)
                desc.append("set " + p)
            elif q < 0.8 and any(p.startswith("s/") for p in live):
                p = r.choice([x for x in live if x.startswith("s/")])
                hs_ = r.choice(HS)
                ops.append("b['s'][%r] = %s\ntw[%r] = %s\n" % (p[2:], hs_, p, hs_))
                desc.append("set in s " + p)
            elif q < 0.88 and live:
                p = r.choice(live)
                live.remove(p)
                ops.append(delop(p))
                desc.append("del " + p)
            elif q < 0.92:
                ops.append("b.fields\nb.tojson()\n")
                desc.append("read")
            elif q < 0.96:
                ops.append("b = b.%s()\nfor p in list(tw):\n    tw[p] = tw[p].copy()\n" % r.choice(("copy", "copyonfill")))
                desc.append("copy")
            else:
                ops.append("b.clear()\nfor t in tw.values():\n    t.clear()\n")
                desc.append("clear")
        ops.append(fill(r.randrange(3)))
        ob("history/%d %s" % (k, "; ".join(desc)), program(None, dict(zip(paths, hs)), ops))
    # other books and views
    for i in range(0, len(HS) - 1):
        a, b = HS[i], HS[i + 1]
        ob("view/%d" % i, PRE + "tw = {'u/p': %s, 'u/q': %s, 'v/p': %s}\nb = histbook.ChannelsBook({'u': Book({'p': %s, 'q': %s}), 'v': Book({'p': %s})})\nb.view('*/p').fill(%s)\nfor p in ('u/p', 'v/p'):\n    tw[p].fill(%s)\nb.view('u/*').fill(%s)\nfor p in ('u/p', 'u/q'):\n    tw[p].fill(%s)\nb['v'].fill(%s)\ntw['v/p'].fill(%s)\nreturn tojs(b, tw)" % (a, b, b, a, b, b, DATA[0], DATA[0], DATA[1], DATA[1], DATA[2], DATA[2]))
        ob("viewtwice/%d" % i, PRE + "tw = {'u/p': %s, 'u/q': %s}\nb = histbook.ChannelsBook({'u': Book({'p': %s, 'q': %s})})\nw = b.view('u/p')\nw.fill(%s)\nb.view('*').fill(%s)\nw.fill(%s)\ntw['u/p'].fill(%s)\nfor t in tw.values():\n    t.fill(%s)\ntw['u/p'].fill(%s)\nreturn tojs(b, tw)" % ((a, b, a, b) + tuple(DATA[k] for k in (0, 1, 2, 0, 1, 2))))
        ob("samples/%d" % i, PRE + "tw = {'u/p': %s, 'u/q': %s, 'v/p': %s, 'v/q': %s}\nb = histbook.SamplesBook(['u', 'v'], {'p': %s, 'q': %s})\nb['u'].fill(%s)\nfor p in ('u/p', 'u/q'):\n    tw[p].fill(%s)\nb['v'].fill(%s)\nfor p in ('v/p', 'v/q'):\n    tw[p].fill(%s)\nb.view('*/q').fill(%s)\nfor p in ('u/q', 'v/q'):\n    tw[p].fill(%s)\nreturn tojs(b, tw)" % (a, b, a, b, a, b, DATA[0], DATA[0], DATA[1], DATA[1], DATA[2], DATA[2]))
        ob("samples-filled/%d" % i, PRE + "p0, q0 = %s, %s\np0.fill(%s)\nq0.fill(%s)\ntw = {'u/p': p0.copy(), 'u/q': q0.copy(), 'v/p': p0.copy(), 'v/q': q0.copy()}\nb = histbook.SamplesBook(['u', 'v'], {'p': p0, 'q': q0})\nb['u'].fill(%s)\nfor p in ('u/p', 'u/q'):\n    tw[p].fill(%s)\nreturn tojs(b, tw)" % (a, b, DATA[0], DATA[0], DATA[1], DATA[1]))
    for i, a in enumerate(HS):
        s = "%s.attach('systematic', [%%d])" % a
        ob("systematics/%d" % i, PRE + "tw = {'up': %s, 'down': %s}\nb = histbook.SystematicsBook({'up': %s, 'down': %s})\n" % (s % 1, s % 2, s % 1, s % 2) + fill(0) + fill(1) + "return tojs(b, tw)")
        ob("systematics-nested/%d" % i, PRE + "tw = {'up/h': %s, 'down/h': %s}\nb = histbook.SystematicsBook({'up': Book({'h': %s}), 'down': Book({'h': %s})})\n" % (s % 1, s % 2, s % 1, s % 2) + fill(0) + fill(1) + "return tojs(b, tw)")
        ob("dict/%d" % i, PRE + "tw = {'h': %s, 's/h': %s}\nb = Book({'h': %s, 's': Book({'h': %s})})\nd = dict(%s)\nb.fill(d)\nb.fill({'x': [0.5], 'n': [1], 'c': ['u'], 'b': [True]}, y=[0.25], w=[w5])\nfor t in tw.values():\n    t.fill(d)\n    t.fill(x=[0.5], n=[1], c=['u'], b=[True], y=[0.25], w=[w5])\nreturn tojs(b, tw)" % (a, a, a, a, DATA[0]))
        ob("empty/%d" % i, PRE + "tw = {'h': %s}\nb = Book({'h': %s, 'e': Book()})\n" % (a, a) + fill(0) + "b.fill(x=[], y=[], n=[], c=[], b=[], w=[])\n" + fill(1) + "return tojs(b, tw)" if "groupby" not in a else PRE + "tw = {'h': %s}\nb = Book({'h': %s, 'e': Book()})\n" % (a, a) + fill(0) + fill(1) + "return tojs(b, tw)")
