"""C12 books survive JSON and pickle round trips."""
from ..spec import *
from ..values import sym
from .c10 import norm, data, FILL, AT
from .c07 import contents

LEVEL = "other"
EXPLAIN = ("value-number analysis of the serialisation of books: for every book type and nesting, the picture of the tree (types, member names and order, attachments, definitions, cells) after the route must be "
           "the same terms as before, and filling or changing the result afterwards must do what it does to the original")
ASSUME = ["JSON text keeps group keys that are strings or bin edges", "attachments are made of JSON values", "member names contain no wildcard characters"]

H1 = "Hist(bin('x', 2, 0, 2), profile('y'), weight='w', attachment={'n': 1})"
H2 = "Hist(groupby('c'), groupbin('x', 0.5), bin('x', 1, 0, 2), filter='n > 0')"
H3 = "Hist(split('x', [0, 1]), cut('k'), defs={'q': 'x + n'}, weight='q')"
H4 = "Hist(intbin('n', 0, 2))"
S = "Hist(bin('x', 2, 0, 2), weight='w', systematic=[%d])"
BOOKS = [
    ("empty", "Book()"),
    ("one", "Book(%s)" % H1),
    ("positional", "Book(%s, %s, %s)" % (H1, H2, H4)),
    ("dict", "Book({'z': %s, 'a': %s, 'm': %s})" % (H1, H2, H3)),
    ("keywords", "Book({'z': %s}, a=%s)" % (H1, H4)),
    ("nested", "Book({'z': %s, 'sub': Book({'b': %s, 'a': %s, 'deep': Book({'q': %s}).attach('lvl', 3)}).attach('lvl', 2), 'a': %s}).attach('lvl', 1)" % (H1, H2, H3, H4, H4)),
    ("paths", "B({'s/t/u': %s, 's/v': %s, 'w': %s})" % (H1, H2, H4)),
    ("emptysub", "Book({'a': Book(), 'b': %s})" % H4),
    ("samename", "Book({'a': %s, 'sub': Book({'a': %s, 'sub': Book({'a': %s})})})" % (H1, H4, H2)),
    ("generic", "histbook.book.GenericBook({'a': %s, 'b': Book({'c': %s})})" % (H1, H2)),
    ("channels", "histbook.ChannelsBook({'a': Book({'h': %s}).attach('u', 1), 'b': Book({'h': %s})}).attach('v', 2)" % (H1, H2)),
    ("samples", "histbook.SamplesBook(['u', 'v'], {'h': %s, 'sub': Book({'g': %s})}).attach('v', 2)" % (H1, H2)),
    ("systematics", "histbook.SystematicsBook({'up': %s, 'down': %s}).attach('v', [1, 2])" % (S % 1, S % -1)),
    ("systematics-nested", "histbook.SystematicsBook({'up': Book({'h': %s}), 'down': Book({'h': %s})})" % (S % 1, S % -1)),
    ("sys-in-book", "Book({'s': histbook.SystematicsBook({'up': %s, 'down': %s}).attach('p', 0), 'h': %s})" % (S % 1, S % -1, H4)),
    ("samples-in-channels", "histbook.ChannelsBook({'c1': histbook.SamplesBook(['u', 'v'], h=%s), 'c2': histbook.SamplesBook(['v'], h=%s)})" % (H1, H4)),
    ("view", "histbook.ChannelsBook({'a': Book({'h': %s}).attach('u', 1), 'b': Book({'h': %s, 'g': %s})}).attach('v', 2).view('*/h')" % (H1, H2, H4)),
    ("attachments", "Book({'a': %s.attach('deep', {'a': [1, {'b': None}]})}).attach('deep', {'a': [1, {'b': None}]}).attach('flag', True)" % H1),
    ("attachments0", "Book({'a': Hist(intbin('n', 0, 2)).attach('k', None).attach('', 0), 's': Book({'h': %s}).attach('k', None).attach('f', False)}).attach('k', None).attach('l', []).attach('', '')" % H1),
    ("numberdefs", "Book({'a': Hist(bin('x', 2, 0, 2), weight='w*s', defs={'s': 2.5, 't': 3, 'u': 0}), 'b': Hist(bin('q', 2, 0, 2), defs={'q': 'x + n'}, weight=0)})"),
]
ROUTES = [("json", "histbook.book.GenericBook.fromjson(h.tojson())"), ("cls-json", "h.__class__.fromjson(h.tojson())"), ("jsontext", "Book.fromjson(json.loads(json.dumps(h.tojson())))"), ("json2", "Book.fromjson(Book.fromjson(h.tojson()).tojson())"), ("pickle", "pickle.loads(pickle.dumps(h))"),
          ("pickle2", "pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(h))))"), ("deepcopy", "copy.deepcopy(h)")]
OBS = """
def one(t):
    if isinstance(t, Hist):
        return (repr(t), [a.tojson() for a in t.axis], t[()], "content" in t.tojson(), dict(t.attachment), dict(t.defs), list(t.fields))
    return (t.__class__.__name__, t.keys(), [one(q) for q in t.values()], dict(t.attachment), len(t))
def obs(t):
    return snap((one(t), t.tojson(), t.allkeys(), t.allkeys(onlyhist=True), list(t.fields) if hasattr(t, "fields") else None))
def B(d):
    t = Book()
    for n, q in d.items():
        t[n] = q
    return t
def fillall(t):
    if hasattr(t, "fill"):
        t.%s
    else:
        for q in t.values():
            fillall(q)
""" % FILL
AFTER = [("fill", "fillall(t)"), ("set", "t['new'] = Hist(bin('x', 3, 0, 1))\nfillall(t)"), ("del", "for q in t.keys()[:1]:\n    del t[q]\nfillall(t)"), ("replace", "for q in t.allkeys(onlyhist=True)[:1]:\n    t[q] = Hist(bin('x', 3, 0, 1), systematic=[0])\nfillall(t)"), ("clear", "t.clear()"), ("imul", "t *= 2"), ("iadd", "t += t.copy()")]


def run(ck):
    ck.anchor("Book", "Book.tojson", "Book.fromjson", "Book.fill", "Hist", "SamplesBook", "ChannelsBook", "SystematicsBook")

    def compare(a, b, what):
        for n, p, q in zip(("members", "JSON form", "paths", "histogram paths", "fields"), a.v, b.v):
            d = diff(norm(p), norm(q), "%s: %s" % (what, n))
            if d:
                return d
    for bn, bsrc in BOOKS:
        for st, pre in (("unfilled", ""), ("filled", "fillall(h)\n"), ("filled2", "fillall(h)\nfillall(h)\n"), ("read", "obs(h)\n")):
            for rn, rsrc in ROUTES:
                src = OBS + "h = %s\n%sb = obs(h)\ng = %s\nreturn b, obs(g), obs(h), g == h and h == g and not (g != h), g is h" % (bsrc, pre, rsrc)

                def judge(m, v, rn=rn):
                    return compare(v[1], v[0], "after %s" % rn) or compare(v[2], v[0], "source of %s" % rn) or (None if v[3] is True else "%s of the book is not equal to it" % rn) or ("%s gave the same object" % rn if v[4] is True else None)
                ck.ob("%s/%s/%s" % (bn, st, rn), "picture before and after serialisation is the same", src, data, judge)
                if not ck.thorough and (st in ("filled2",) or rn in ("json2", "pickle2", "cls-json")):
                    continue
                for an, asrc in AFTER:
                    if bn.startswith("systematics") and an in ("set", "replace") or bn == "sys-in-book" and an == "replace":
                        continue
                    src = OBS + "h = %s\n%sg = %s\nt = h\n%s\nt = g\n%s\nreturn obs(h), obs(g)" % (bsrc, pre, rsrc, asrc, asrc)
                    ck.ob("%s/%s/%s/%s" % (bn, st, rn, an), "later changes act as on the original", src, data, lambda m, v, rn=rn, an=an: compare(v[1], v[0], "%s after %s" % (an, rn)))
