"""C07 book arithmetic and copies."""
from ..spec import *
from ..values import sym
from .c04 import addc, scale

LEVEL = "other"
EXPLAIN = ("value-number and ownership analysis of book operations: every histogram of a sum or multiple of books must hold the sum or multiple of the cells of the histograms at the same "
           "path, histograms found in one operand only must be copied, and changing a derived book or its source afterwards (histograms, members or attachments) must leave the other as it was")
ASSUME = ["a histogram put into a book is that same histogram (books are containers); only derived books are required to be independent",
          "member names contain no wildcard characters", "each histogram object is a member of a book once"]

AX1 = [Bin("x", 2, 0, 2), Profile("y")]
AX2 = [Groupby("c"), Bin("x", 2, 0, 2, u=False)]
AX3 = [Split("x", (0, 1, 2))]


def bjson(tree, attachment=None, type="Book"):
    out = {"type": type, "content": []}
    for n, x in tree:
        if isinstance(x, dict):
            x = dict(x)
        x["name"] = n
        out["content"].append(x)
    if attachment:
        out["attachment"] = attachment
    return out


def parts(prefix, keys):
    return {"one": content(AX1, True, None, prefix + "1_"), "two": content(AX2, False, [keys], prefix + "2_"), "three": content(AX3, False, None, prefix + "3_")}


def book(p, at, members=("one", "two", "sub/three"), filled=True, type="Book"):
    def h(n):
        ax, w = {"one": (AX1, "w"), "two": (AX2, None), "three": (AX3, None), "four": (AX3, None)}[n]
        return hjson(ax, p[n if n != "four" else "three"] if filled else None, weight=w, attachment={"systematic": (1,), "n": n})
    top, sub = [], []
    for mname in members:
        if mname.startswith("sub/"):
            if not sub:
                top.append(("sub", None))
            sub.append((mname[4:], h(mname[4:])))
        else:
            top.append((mname, h(mname)))
    top = [(n, bjson(sub, {"s": at}) if x is None else x) for n, x in top]
    return bjson(top, {"k": at}, type)


def contents(j, path=""):
    """{path: content} of a book's JSON picture, and {path: attachment}."""
    out, att = {}, {path: j.get("attachment", {})}
    for node in j["content"]:
        p = path + "/" + node["name"] if path else node["name"]
        if node["type"] == "Hist":
            out[p] = node.get("content")
            att[p] = node.get("attachment", {})
        else:
            o, a = contents(node, p)
            out.update(o)
            att.update(a)
    return out, att


DERIVE = [("copy", "h.copy()"), ("cleared", "h.cleared()"), ("copyonfill", "h.copyonfill()"), ("h+o", "h + o"), ("o+h", "o + h"), ("h+e", "h + e"), ("e+h", "e + h"), ("h*2", "h * 2"), ("2*h", "2 * h"),
          ("json", "Book.fromjson(h.tojson())"), ("jsontext", "Book.fromjson(json.loads(json.dumps(h.tojson())))"), ("pickle", "pickle.loads(pickle.dumps(h))"), ("deepcopy", "copy.deepcopy(h)"),
          ("group", "Book.group(by='src', p=h, q=o)"), ("group1", "Book.group(by='src', p=h)"), ("iadd", "e.__iadd__(h)"), ("iadd-o", "o.__iadd__(h)"),
          ("h+none", "h + Book()"), ("none+h", "Book() + h"), ("iadd-none", "Book().__iadd__(h)"), ("h+p", "h + p"), ("p+h", "p + h"), ("iadd-p", "p.__iadd__(h)"), ("group-p", "Book.group(by='src', p=h, q=p)")]
CHANGE = [("fill", "t.fill(x=x, y=y, w=w, c=c, src=c)"), ("iadd", "t += Book.fromjson(t.tojson())"), ("imul", "t *= 3"), ("clear", "t.clear()"),
          ("attach", "t.attach('k', 5)\nt.attachment['z'] = 1"), ("setnew", "t['new'] = Hist(bin('x', 1, 0, 1))"), ("replace", "t['one'] = Hist(bin('x', 1, 0, 1))"), ("del", "del t['one']"), ("delsub", "del t['sub/three']"),
          ("nested", "t['sub'].attach('s', 5)\nt['sub']['new'] = Hist(bin('x', 1, 0, 1))"), ("histfill", "t['sub/three'].fill(x=x, src=c)\nt['one'].fill(x=x, y=y, w=w, src=c)"), ("histimul", "t['sub/three'].__imul__(7)\nt['two'].__imul__(7)"),
          ("histattach", "t['one'].attach('n', 0)\nt['sub/three'].attach('q', 0)")]


def run(ck):
    ck.anchor("Book", "Book.copy", "Book.copyonfill", "Book.cleared", "Book.__add__", "Book.__mul__", "Book.__iadd__", "Book.__imul__", "Book.tojson", "Book.fromjson", "Book.fill", "Book.group")
    ys, ws = [sym("y%d" % i) for i in range(4)], [sym("w%d" % i) for i in range(4)]
    xs, cs = [0.5, 1.5, 0.5, 1.0], ["a", "b", "b", "z"]
    pa, pb = parts("s", ["a", "b"]), parts("t", ["b", "d"])
    f = sym("f", pos=None)

    def env(m, ma=("one", "two", "sub/three"), mb=("one", "two", "sub/three")):
        return {"jh": absv(m, book(pa, "h", ma)), "jo": absv(m, book(pb, "o", mb)), "je": absv(m, book(pb, "e", filled=False)), "jp": absv(m, book(pb, "p", ("two", "sub/four"))), "snap": snapfn(), "f": f,
                "x": arr(m, xs), "y": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs)}
    pre = "h, o, e, p = Book.fromjson(jh), Book.fromjson(jo), Book.fromjson(je), Book.fromjson(jp)\n"

    # values
    def flat(p, members):
        return dict((n, p[n.split("/")[-1]] if n.split("/")[-1] != "four" else p["three"]) for n in members)

    def expect(got, want, what):
        cont, att = contents(got)
        if set(cont) != set(want):
            return "%s: members %s instead of %s" % (what, sorted(cont), sorted(want))
        for n in want:
            w = want[n]
            if w is None or w == {}:
                if cont[n] is not None and not iszero(cont[n]):
                    return "%s[%r] is filled, expected empty" % (what, n)
                continue
            d = cdiff(cont[n], w, "%s[%r]" % (what, n))
            if d:
                return d
    M = ("one", "two", "sub/three")
    KEEP = ("h*f", "3*h", "h*=f", "copy", "copyonfill", "cleared", "clear", "json")
    for ma, mb in ((M, M), (("one",), ("two", "sub/three")), (("one", "sub/three"), ("two", "sub/four", "one")), ((), M), (M, ()), (("sub/three",), ("sub/four",)), (("sub/three", "one"), ("one",)), (("three",), ("sub/three",))):
        A, B = flat(pa, ma), flat(pb, mb)
        both = dict((n, addc(A.get(n), B.get(n))) for n in list(A) + [n for n in B if n not in A])
        ev = lambda m, ma=ma, mb=mb: env(m, ma, mb)
        key = "%s+%s" % (",".join(ma), ",".join(mb))
        for on, src, want, att in (("h+o", "r = h + o", both, "o"), ("o+h", "r = o + h", both, "h"), ("h+=o", "r = h\nr += o", both, None), ("o+=h", "r = o\nr += h", both, None), ("(h+o)*f", "r = (h + o) * f", dict((n, scale(c, f)) for n, c in both.items()), "o"),
                                    ("h*f", "r = h * f", dict((n, scale(c, f)) for n, c in A.items()), "h"), ("3*h", "r = 3 * h", dict((n, scale(c, 3)) for n, c in A.items()), "h"), ("h*=f", "r = h\nr *= f", dict((n, scale(c, f)) for n, c in A.items()), "h"),
                                    ("copy", "r = h.copy()", A, "h"), ("copyonfill", "r = h.copyonfill()", A, "h"), ("cleared", "r = h.cleared()", dict((n, None) for n in A), "h"), ("clear", "r = h\nr.clear()", dict((n, None) for n in A), "h"), ("json", "r = Book.fromjson(h.tojson())", A, "h")):
            def judge(m, v, want=want, att=att, on=on):
                r = v.v
                d = expect(r, want, "result of %s" % on)
                if d:
                    return d
                if att and r.get("attachment") != {"k": att}:
                    return "attachment of the result of %s is %r" % (on, r.get("attachment"))
                if r["type"] != "Book":
                    return "result of %s is a %s" % (on, r["type"])
                for n, a in contents(r)[1].items():
                    if n and on in KEEP:
                        w = {"s": "h"} if n == "sub" else {"systematic": [1], "n": n.split("/")[-1]}
                        if dict((k, list(x) if isinstance(x, (list, tuple)) else x) for k, x in a.items()) != w:
                            return "attachment of %s in the result of %s is %r" % (n, on, a)
            ck.ob("value/%s/%s" % (key, on), "histograms of the result are the cell-wise sums, multiples or copies", pre + src + "\nreturn snap(r.tojson())", ev, judge)

            def judge(m, v, A=A, B=B, on=on):
                return expect(v[0].v, A, "left operand after %s" % on) or expect(v[1].v, B, "right operand after %s" % on)
            if on in ("h+o", "o+h", "(h+o)*f", "h*f", "3*h", "copy", "copyonfill", "cleared"):
                ck.ob("operands/%s/%s" % (key, on), "operands are not changed", pre + src + "\nreturn snap(h.tojson()), snap(o.tojson())", ev, judge)
    for n, op in {"hist": "h + h['one']", "number": "h + 1", "dict": "h + {}", "str*": "h * 'x'", "book*": "h * h"}.items():
        ck.ob("refuse/%s" % n, "other types are refused", pre + "try:\n    %s\nexcept TypeError:\n    return 'refused'\nreturn 'accepted'" % op, env, lambda m, v, op=op: None if v == "refused" else "%s was accepted" % op)

    # isolation
    obs = "def obs(t):\n    return snap((t.tojson(), t.allkeys(), dict(t.attachment)))\n"
    for dn, dsrc in DERIVE:
        for cn, csrc in CHANGE:
            src = obs + pre + "d = %s\nb0, b1 = obs(h), obs(o)\nt = d\n%s\nreturn b0, obs(h), b1, obs(o)" % (dsrc, csrc)

            def judge(m, v, dn=dn, cn=cn):
                return diff(v[1].v, v[0].v, "source of %s after %s of the result" % (dn, cn)) or (None if dn == "iadd-o" else diff(v[3].v, v[2].v, "other operand of %s after %s of the result" % (dn, cn)))
            ck.ob("iso/%s/%s/derived" % (dn, cn), "changing the derived book leaves its source alone", src, env, judge)
            src = obs + pre + "d = %s\nb0 = obs(d)\nt = h\n%s\nreturn b0, obs(d)" % (dsrc, csrc)
            ck.ob("iso/%s/%s/source" % (dn, cn), "changing the source leaves the derived book alone", src, env,
                  lambda m, v, dn=dn, cn=cn: diff(v[1].v, v[0].v, "result of %s after %s of its source" % (dn, cn)))
    # attachments of books at every depth
    for on, op in (("copy", "h.copy()"), ("cleared", "h.cleared()"), ("copyonfill", "h.copyonfill()"), ("h*2", "h * 2"), ("2*h", "2 * h"), ("deepcopy", "copy.deepcopy(h)"), ("pickle", "pickle.loads(pickle.dumps(h))"), ("json", "Book.fromjson(h.tojson())"), ("h+none", "h + Book()"), ("none+h", "Book() + h"), ("iadd", "Book().__iadd__(h)"), ("h+h", "h + h"), ("h+empty", "h + Book({'u': Book()})")):
        src = "h = Book({'u': Book({'v': Book({'a': Hist(bin('x', 2, 0, 2)).attach('a', 4)}).attach('n', 3), 'w': Book().attach('n', 5)}).attach('n', 2), 'b': Hist(bin('x', 2, 0, 2)).attach('b', 6)}).attach('n', 1)\nr = %s\nreturn snap(sorted((n, sorted(q.attachment.items())) for n, q in r.allitems() if isinstance(q, Book)))" % op
        ck.ob("attachments/%s" % on, "derived books keep the attachments of every nested book", src, lambda m: {"snap": snapfn()}, lambda m, v, on=on: diff([[a, [list(x) for x in b]] for a, b in v.v], [["u", [["n", 2]]], ["u/v", [["n", 3]]], ["u/w", [["n", 5]]]], "attachments in the result of %s" % on))
    # the same histograms offered to several samples / channels stay separate
    for cn, csrc in (("fill", "t['u'].fill(x=x, y=y, w=w)"), ("imul", "t['u'] *= 3"), ("hist", "t['u/one'].fill(x=x, y=y, w=w)")):
        src = "g = Hist.fromjson(jg)\nt = histbook.SamplesBook(['u', 'v'], {'one': g})\nb = snap((t['v'].tojson(), g.tojson()))\n%s\nreturn b, snap((t['v'].tojson(), g.tojson()))" % csrc
        ck.ob("samples/%s" % cn, "samples of a SamplesBook are independent", src, lambda m: dict(env(m), jg=absv(m, hjson(AX1, pa["one"], weight="w"))), lambda m, v, cn=cn: diff(v[1].v, v[0].v, "second sample and prototype after %s of the first" % cn))
    # books without members, alone and nested, on either side
    T = {"none": "Book()", "sub0": "Book({'sub': Book().attach('s', 1)})", "deep0": "Book({'sub': Book({'deep': Book()})})", "sub": "Book({'sub': Book({'three': H(0)})})", "deep": "Book({'sub': Book({'deep': Book({'three': H(0)}), 'three': H(0)})})", "two": "Book({'three': H(0), 'sub': Book(), 'end': H(0)})"}
    P = {"none": [], "sub0": ["sub"], "deep0": ["sub", "sub/deep"], "sub": ["sub", "sub/three"], "deep": ["sub", "sub/deep", "sub/deep/three", "sub/three"], "two": ["three", "sub", "end"]}
    hpre = "def H(i):\n    return Hist.fromjson(jt)\n"
    for a in T:
        for b in T:
            for on, op in (("a+b", "r = a + b"), ("a+=b", "r = a\nr += b")):
                want = dict((n, (n in P[a] and n.split("/")[-1] in ("three", "end")) + (n in P[b] and n.split("/")[-1] in ("three", "end"))) for n in P[a] + P[b])

                def judge(m, v, want=want, a=a, b=b, on=on):
                    got, ident = v[0].v, v[1].v
                    if set(got) != set(want):
                        return "%s of %s and %s has %s, expected %s" % (on, a, b, sorted(got), sorted(want))
                    for n, k in want.items():
                        if k == 0:
                            if got[n] is not None:
                                return "%s of %s and %s: %s is not a book" % (on, a, b, n)
                        else:
                            d = cdiff(got[n], scale(pa["three"], k), "%s of %s and %s at %s" % (on, a, b, n))
                            if d:
                                return d
                    return "%s of %s and %s shares books with the right operand: %s" % (on, a, b, ident) if ident else None
                src = hpre + "a, b = %s, %s\n%s\nreturn snap(dict((n, q.tojson()['content'] if isinstance(q, Hist) else None) for n, q in r.allitems())), snap([n for n, q in r.allitems() for p, t in b.allitems() if q is t])" % (T[a], T[b], op)
                ck.ob("empty/%s/%s/%s" % (a, b, on), "histograms of the result are the cell-wise sums, multiples or copies", src, lambda m: {"jt": absv(m, hjson(AX3, pa["three"])), "snap": snapfn()}, judge)
    # clearing empties every bin, whatever it holds
    for on, csrc in (("clear", "b.clear()\nr = b"), ("cleared", "r = b.cleared()"), ("clear-member", "b['s/h'].clear()\nb['g'].clear()\nr = b")):
        src = "b = Book({'s': Book({'h': Hist(bin('x', 2, 0, 2), profile('y'))}), 'g': Hist(groupby('c'), profile('y'), weight='w')})\nb.fill(x=x, y=y, w=w, c=c)\n%s\nz = snap((r['s/h'].table('y', recarray=False).tolist(), r['g'].project().table('y', recarray=False).tolist()))\nr.fill(x=x, y=q, w=w, c=c)\nreturn z, snap((r['s/h'].tojson()['content'], r['g'].tojson()['content']))" % csrc

        def judge(m, v, on=on):
            bad = [q for q in leaves(v[0].v) if q != 0]
            if bad:
                return "table after %s holds %r" % (on, bad[0])
            return diff(v[1].v[0], fillref(AX1, [([i], [], [q], None) for i, q in zip((1, 2, 1, 2), ys)]), "content filled after %s" % on) or cdiff(v[1].v[1], fillref([Groupby("c"), Profile("y")], [([], [k], [q], w) for k, q, w in zip(cs, ys, ws)], True), "groups filled after %s" % on)
        ck.ob("emptied/%s" % on, "clearing leaves nothing behind", src, lambda m: {"x": arr(m, xs), "y": arr(m, [NAN, INF, 1.0, -INF]), "q": arr(m, ys), "w": arr(m, ws), "c": arr(m, cs), "snap": snapfn()}, judge)
