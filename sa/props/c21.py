"""C21 a book is an ordered tree addressed by paths."""
import fnmatch
import random
from collections import OrderedDict
from ..spec import *

LEVEL = "other"
EXPLAIN = ("heap analysis of book operations against a reference tree: for every base tree and sequence of assignments and deletions (by path, by wildcard, accepted or refused), the names, order and identity of all members as seen "
           "through every accessor (keys, values, items, recursive and histogram-only forms, iteration, len, in, paths, wildcards, views) must be those of the reference")
ASSUME = ["names are non-empty and have no wildcard characters", "the same histogram object is in a book once", "popitem and update with a book are not claimed", "refused changes of a SystematicsBook are not claimed"]


class T(object):
    def __init__(self, id=None, kids=()):
        self.id, self.kids = id, OrderedDict(kids)

    def copy(self):
        return T(self.id, [(n, x.copy() if isinstance(x, T) else x) for n, x in self.kids.items()])

    def get(self, name):
        if name in self.kids:
            return self.kids[name]
        if "/" in name:
            a, b = name.split("/", 1)
            k = self.kids.get(a)
            if isinstance(k, T):
                return k.get(b)
        return None

    def set(self, name, v):
        if "/" not in name:
            self.kids[name] = v
            return True
        a, b = name.split("/", 1)
        k = self.kids.get(a)
        if k is None:
            k = T()
            if not k.set(b, v):
                return False
            self.kids[a] = k
            return True
        return isinstance(k, T) and k.set(b, v)

    def delete(self, name):
        if name in self.kids:
            del self.kids[name]
            return True
        if "/" in name:
            a, b = name.split("/", 1)
            k = self.kids.get(a)
            return isinstance(k, T) and k.delete(b)
        return False

    def walk(self, path=None):
        for n, x in self.kids.items():
            p = n if path is None else path + "/" + n
            yield p, x
            if isinstance(x, T):
                for y in x.walk(p):
                    yield y

    def src(self, cls="Book"):
        out = "%s({%s})" % (cls, ", ".join("%r: %s" % (n, x.src() if isinstance(x, T) else "h(%d)" % x) for n, x in self.kids.items()))
        return out if self.id is None else out + ".attach('id', %r)" % self.id


TREES = [
    T("r"), T("r", [("a", 1)]), T("r", [("b", 1), ("a", 2), ("ab", 3)]),
    T("r", [("s", T("S", [("a", 1), ("b", 2)])), ("a", 3), ("t", T("T", [("a", 4)]))]),
    T("r", [("z", 1), ("s", T("S", [("t", T("T", [("u", T("U", [("a", 2), ("b", 3)])), ("a", 4)])), ("b", 5)])), ("a", 6)]),
    T("r", [("s", T("S", [("s", T("T", [("s", T("U", [("a", 1)])), ("a", 2)])), ("a", 3)])), ("a", T("V", [("a", T("W", [("a", 4), ("b", 5)]))])), ("b", 6)]),
    T("r", [("s", T("S")), ("t", T("T", [("s", T("V")), ("a", 1)])), ("st", 2)]),
]
PATHS = ["a", "b", "z", "s", "t", "n", "s/a", "s/b", "s/n", "s/t", "s/t/a", "s/t/u", "s/t/u/a", "s/t/u/n", "t/a", "t/s", "t/s/q", "a/b", "n/m", "n/m/o", "st", "u", "t/a/b"]
GLOBS = ["*", "?", "a*", "*a", "*/a", "s/*", "s/t*", "s/*/a", "*/*", "[ab]", "[!a]", "s/[a]", "*b", "x*", "s/?", "*/t/*", "?/a"]
PRE = """
H = {}
def h(i):
    H[i] = Hist(bin('x', 2, 0, 2)).attach('id', i)
    return H[i]
def tag(x):
    return x.get('id', None)
"""
OBS = """
def obs(b, paths, globs):
    out = []
    out.append(b.keys())
    out.append([tag(x) for x in b.values()])
    out.append([(n, tag(x)) for n, x in b.items()])
    out.append([(n, tag(x)) for n, x in b.allitems()])
    out.append([(n, tag(x)) for n, x in b.allitems(onlyhist=True)])
    out.append([b.allkeys(), b.allkeys(onlyhist=True), [tag(x) for x in b.allvalues()], [tag(x) for x in b.allvalues(onlyhist=True)]])
    out.append([b.keys(recursive=True), b.keys(onlyhist=True), b.keys(recursive=True, onlyhist=True), list(b.iterkeys()), list(b.iterkeys(recursive=True)), [tag(x) for x in b.itervalues(onlyhist=True)], [(n, tag(x)) for n, x in b.iteritems(recursive=True)]])
    out.append([(n, tag(x)) for n, x in b])
    out.append(len(b))
    out.append([p in b for p in paths])
    got = []
    for p in paths:
        try:
            x = b[p]
        except KeyError:
            got.append('KeyError')
        else:
            got.append((tag(x), isinstance(x, Hist), tag(x) is None or isinstance(tag(x), str) or x is H[tag(x)]))
    out.append(got)
    out.append([[tag(x) for x in b[g]] for g in globs])
    return out
"""
WHAT = ("keys", "values", "items", "allitems", "allitems(onlyhist)", "allkeys/allvalues", "keys/iterkeys/itervalues/iteritems", "iteration", "len", "in", "paths", "wildcards")


def ref(t, paths, globs):
    tg = lambda x: x.id if isinstance(x, T) else x
    allx = list(t.walk())
    hs = [(p, x) for p, x in allx if not isinstance(x, T)]
    top = list(t.kids.items())
    toph = [(p, x) for p, x in top if not isinstance(x, T)]
    out = [[n for n, _ in top], [tg(x) for _, x in top], [(n, tg(x)) for n, x in top], [(n, tg(x)) for n, x in allx], [(n, tg(x)) for n, x in hs],
           [[n for n, _ in allx], [n for n, _ in hs], [tg(x) for _, x in allx], [tg(x) for _, x in hs]],
           [[n for n, _ in allx], [n for n, _ in toph], [n for n, _ in hs], [n for n, _ in top], [n for n, _ in allx], [tg(x) for _, x in toph], [(n, tg(x)) for n, x in allx]],
           [(n, tg(x)) for n, x in hs], len(top), [t.get(p) is not None for p in paths], [], []]
    for p in paths:
        x = t.get(p)
        out[10].append("KeyError" if x is None else (tg(x), not isinstance(x, T), True))
    out[11] = [[tg(x) for n, x in allx if fnmatch.fnmatchcase(n, g)] for g in globs]
    return out


def apply(t, op):
    """Reference effect; returns None (accepted) or the kind of refusal."""
    k, p, v = op
    if k == "set":
        return None if t.set(p, v.copy() if isinstance(v, T) else v) else "KeyError"
    if k == "del":
        return None if t.delete(p) else "KeyError"
    if k == "glob":
        for n, x in [(n, x) for n, x in t.walk()]:
            if fnmatch.fnmatchcase(n, p) and t.get(n) is not None:
                t.delete(n)
        return None
    if k == "bad":
        return "TypeError"
    if k == "pop":
        return None if t.delete(p) else "KeyError"
    if k == "setdefault":
        if t.get(p) is None:
            return None if t.set(p, v) else "KeyError"
        return None
    raise AssertionError(k)


def opsrc(op):
    k, p, v = op
    val = v.src() if isinstance(v, T) else "h(%s)" % v
    return {"set": "b[%r] = %s" % (p, val), "del": "del b[%r]" % p, "glob": "del b[%r]" % p, "bad": "b[%s] = %s" % (p, v), "pop": "b.pop(%r)" % p, "setdefault": "b.setdefault(%r, H[%s] if %s in H else %s)" % (p, v, v, val)}[k]


def run(ck):
    ck.anchor("Book", "Book.keys", "Book.values", "Book.items", "Book.allkeys", "Hist", "ChannelsBook.view")
    ops = [("set", p, 11 + i) for i, p in enumerate(PATHS)] + [("set", p, T("N%d" % i, [("c", 60 + i), ("d", T("M%d" % i, [("e", 80 + i)]))])) for i, p in enumerate(PATHS[:12])] + [("del", p, None) for p in PATHS] + [("glob", g, None) for g in GLOBS]
    ops += [("bad", "'a'", "3"), ("bad", "'a'", "None"), ("bad", "3", "h(9)"), ("bad", "'s/a'", "'x'"), ("bad", "None", "h(9)"), ("bad", "('a',)", "h(9)")]
    if ck.thorough:
        ops += [("pop", p, None) for p in PATHS] + [("setdefault", p, 131 + i) for i, p in enumerate(PATHS)]
    r = random.Random(21)
    seqs = []
    for ti, t in enumerate(TREES):
        seqs.append((ti, []))
        seqs += [(ti, [o]) for o in ops]
        pairs = list(itertools.product(ops, ops))
        seqs += [(ti, list(p)) for p in (pairs if ck.thorough and ti in (3, 4) else r.sample(pairs, 60))]
        for _ in range(300 if ck.thorough else 20):
            seqs.append((ti, [r.choice(ops) for _ in range(r.choice((3, 4, 5)))]))

    def judge(m, v, want, refusals, what):
        v = host(m, v)
        if v[1] != refusals:
            return "%s: refusals are %s, expected %s" % (what, v[1], refusals)
        for n, g, w in zip(WHAT, v[0], want):
            if g != w:
                return "%s: %s are %r, expected %r" % (what, n, g, w)
    for cls in ("Book", "histbook.book.GenericBook", "histbook.ChannelsBook"):
        for ti, seq in seqs:
            if cls != "Book" and (len(seq) > 1 or not ck.thorough and ti not in (3, 4)):
                continue
            t = TREES[ti].copy()
            src = PRE + OBS + "b = %s\nrefused = []\n" % t.src(cls)
            refusals = []
            for o in seq:
                if o[0] == "set" and isinstance(o[2], int):
                    o = (o[0], o[1], o[2])
                before = t.copy()
                refuse = apply(t, o)
                if refuse is not None:
                    t = before
                refusals.append(refuse)
                src += "try:\n    %s\n    refused.append(None)\nexcept KeyError:\n    refused.append('KeyError')\nexcept TypeError:\n    refused.append('TypeError')\n" % opsrc(o)
            globs = GLOBS if len(seq) < 2 else GLOBS[:6]
            src += "return [obs(b, %r, %r), refused]" % (PATHS, globs)
            want = ref(t, PATHS, globs)
            name = "%s/tree%d/%s" % (cls.split(".")[-1], ti, "; ".join("%s %s" % o[:2] + (" book" if isinstance(o[2], T) else "") for o in seq))
            ck.ob(name, "all accessors agree with the reference tree", src, lambda m: {}, lambda m, v, want=want, refusals=refusals, what=name: judge(m, v, want, refusals, what))
    # construction
    for n, src_, want in (("positional", "Book(h(1), h(2), h(3))", [("0", 1), ("1", 2), ("2", 3)]), ("keywords", "Book(q=h(1), a=h(2))", [("q", 1), ("a", 2)]), ("mixed", "Book({'z': h(1), 'b': h(2)}, a=h(3))", [("z", 1), ("b", 2), ("a", 3)]), ("override", "Book({'z': h(1), 'b': h(2)}, z=h(3))", [("z", 3), ("b", 2)]), ("positional-keyword", "Book(h(1), x=h(2))", [("0", 1), ("x", 2)]),
                       ("path", "Book({'s/a': h(1), 't': h(2), 's/b': h(3)})", [("s", None), ("s/a", 1), ("s/b", 3), ("t", 2)]), ("many", "Book(*[h(i) for i in range(12)])", [(str(i), i) for i in range(12)]), ("book", "Book(Book(h(1)), h(2))", [("0", None), ("0/0", 1), ("1", 2)])):
        ck.ob("construct/" + n, "constructed books have the given members in order", PRE + "b = %s\nreturn [(n, tag(x)) for n, x in b.allitems()]" % src_, lambda m: {}, lambda m, v, n=n, want=want: None if host(m, v) == want else "%s: members are %s, expected %s" % (n, host(m, v), want))
    for n, src_ in (("two dicts", "Book({}, {})"), ("number", "Book(3)"), ("string", "Book('a')"), ("value", "Book({'a': 3})"), ("keyword value", "Book(a=None)"), ("key", "Book({3: Hist()})"), ("positional value", "Book(Hist(), 3)"), ("dict and hist", "Book({'a': Hist()}, Hist())")):
        src = "try:\n    %s\nexcept TypeError:\n    return True\nreturn False" % src_
        ck.ob("refuse/" + n, "other things are refused as members", src, lambda m: {}, lambda m, v, n=n: None if host(m, v) is True else "%s is accepted" % n)
    # views: same objects, tree pruned to the matches
    for ti, t in enumerate(TREES):
        for g in GLOBS + ["a", "s/a", "s/t/u/a", "nothing", "s"]:
            def prune_(node, path):
                out = []
                for n, x in node.kids.items():
                    p = n if path is None else path + "/" + n
                    if isinstance(x, T):
                        d = prune_(x, p)
                        if d is not None:
                            out.append((n, d))
                    elif fnmatch.fnmatchcase(p, g):
                        out.append((n, x))
                return T(node.id, out) if out else None
            w = prune_(t, None)
            src = PRE + OBS + "b = %s\ntry:\n    v = b.view(%r)\nexcept ValueError:\n    return None\nreturn [obs(v, %r, %r), obs(b, %r, []), [x is H[tag(x)] for x in v.allvalues(onlyhist=True)]]" % (t.src("histbook.ChannelsBook"), g, PATHS, GLOBS[:5], PATHS)
            want = None if w is None else [ref(w, PATHS, GLOBS[:5]), ref(t, PATHS, []), [True] * len([1 for _, x in w.walk() if not isinstance(x, T)])]

            def vjudge(m, v, want=want, g=g, ti=ti):
                v = host(m, v)
                if (v is None) != (want is None):
                    return "view(%r) of tree %d is %s" % (g, ti, "refused" if v is None else "accepted, though nothing matches")
                if v is None:
                    return None
                for n, a, b in zip(WHAT, v[0], want[0]):
                    if a != b:
                        return "view(%r) of tree %d: %s are %r, expected %r" % (g, ti, n, a, b)
                if v[1] != want[1]:
                    return "the book changed when view(%r) was taken" % g
                if v[2] != want[2]:
                    return "view(%r) does not hold the histograms of the book itself" % g
            ck.ob("view/tree%d/%s" % (ti, g), "a view is the book pruned to the matching histograms", src, lambda m: {}, vjudge)
    # samples: one independent copy of the members per sample
    src = PRE + "b = histbook.SamplesBook(['u', 'v'], {'p': h(1), 's': Book({'q': h(2)})})\nreturn [[(n, tag(x)) for n, x in b.allitems()], [x is y for x in b.allvalues(onlyhist=True) for y in H.values()], b['u/p'] is b['v/p'], [type(x) is Book for x in b.values()]]"
    ck.ob("samples", "a SamplesBook has all members for each sample", src, lambda m: {}, lambda m, v: None if host(m, v) == [[(p + q, i) for p in ("u", "v") for q, i in (("", None), ("/p", 1), ("/s", None), ("/s/q", 2))], [False] * 8, False, [True, True]] else "members of the SamplesBook are %s" % host(m, v))
