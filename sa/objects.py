"""Abstract heap objects."""
import itertools
from .values import Unsupported, Poly, Rng

_counter = itertools.count(1)


class Obj(object):
    __slots__ = ("oid", "site", "glob", "lastw")

    def __init__(self, m=None):
        self.oid = next(_counter)
        self.site = m.here() if m is not None else None
        self.lastw = self.site
        self.glob = m.loading if m is not None else False

    def wrote(self, m):
        self.lastw = h = m.here()
        if h is not None and m.wlog is not None and not isinstance(self, AObj):
            m.wlog[h] = m.wlog.get(h, 0) + 1
        if self.glob and not m.loading:
            m.dirty = True
        if m.hepoch is not None and isinstance(self, AObj) and self.hflag:
            m.hepoch += 1


class AList(Obj):
    __slots__ = ("v",)

    def __init__(self, m, v):
        Obj.__init__(self, m)
        self.v = list(v)

    def __repr__(self):
        return "AList(%r)" % (self.v,)


class HVal(object):
    """Abstract hash value: structural."""
    __slots__ = ("k", "hv")

    def __init__(self, k):
        self.k = k
        self.hv = None

    def __eq__(self, o):
        return self is o or isinstance(o, HVal) and hash(self) == hash(o) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self.hv is None:
            self.hv = hash(self.k)
        return self.hv

    def __repr__(self):
        return "HVal(%r)" % (self.k,)


class ADict(Obj):
    __slots__ = ("idx", "ent", "n", "ordered")

    def __init__(self, m, items=(), ordered=False):
        Obj.__init__(self, m)
        self.idx = {}
        self.ent = {}
        self.n = 0
        self.ordered = ordered
        for k, v in items:
            self.set(m, k, v, init=True)

    def _find(self, m, k):
        hk = m.hashkey(k)
        for num in self.idx.get(hk, ()):
            e = self.ent[num]
            if e[0] is k or m.same_key(e[0], k):
                return hk, num
        return hk, None

    def has(self, m, k):
        return self._find(m, k)[1] is not None

    def get(self, m, k, default=None):
        num = self._find(m, k)[1]
        return default if num is None else self.ent[num][1]

    def set(self, m, k, v, init=False):
        hk, num = self._find(m, k)
        if num is None:
            num = self.n
            self.n += 1
            self.ent[num] = [k, v, hk, None]
            self.idx.setdefault(hk, []).append(num)
        else:
            self.ent[num][1] = v
        if not init:
            self.wrote(m)
        self.ent[num][3] = m.here()

    def delete(self, m, k):
        hk, num = self._find(m, k)
        if num is None:
            return False
        del self.ent[num]
        self.idx[hk].remove(num)
        self.wrote(m)
        return True

    def clear(self, m):
        self.idx, self.ent = {}, {}
        self.wrote(m)

    def keys(self):
        return [e[0] for e in self.ent.values()]

    def values(self):
        return [e[1] for e in self.ent.values()]

    def items(self):
        return [(e[0], e[1]) for e in self.ent.values()]

    def __len__(self):
        return len(self.ent)

    def __repr__(self):
        return "ADict(%r)" % (self.items(),)


class ASet(Obj):
    __slots__ = ("d", "frozen")

    def __init__(self, m, items=(), frozen=False):
        Obj.__init__(self, m)
        self.d = ADict(m, [(x, None) for x in items])
        self.frozen = frozen

    def items(self):
        return self.d.keys()

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return "ASet(%r)" % (self.items(),)


class AClass(Obj):
    __slots__ = ("name", "bases", "ns", "mro", "module", "host")

    def __init__(self, m, name, bases, ns, module=None, host=None):
        Obj.__init__(self, m)
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.host = host
        self.mro = [self] + _c3([list(b.mro) for b in bases] + [list(bases)])

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def lookup_owner(self, name):
        for c in self.mro:
            if name in c.ns:
                return c
        return None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


def _c3(seqs):
    res = []
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        res.append(c)
        seqs = [[x for x in s if x is not c] for s in seqs]
        seqs = [s for s in seqs if s]
    return res


class AObj(Obj):
    __slots__ = ("cls", "attrs", "base", "wsite", "prim", "hflag", "hcache")

    def __init__(self, m, cls, base=None):
        Obj.__init__(self, m)
        self.cls = cls
        self.attrs = {}
        self.base = base
        self.wsite = {}
        self.prim = None
        self.hflag = False
        self.hcache = None

    def setattr(self, m, n, v):
        self.attrs[n] = v
        self.wsite[n] = m.here()
        self.wrote(m)

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.oid)


class AFunc(object):
    __slots__ = ("node", "name", "defaults", "kwdefaults", "scope", "module", "qual", "owner", "isgen", "attrs")

    def __init__(self, node, name, defaults, kwdefaults, scope, module, qual, owner, isgen):
        self.node = node
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.scope = scope
        self.module = module
        self.qual = qual
        self.owner = owner
        self.isgen = isgen
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound(object):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class BFn(object):
    """Modelled builtin: fn(m, args, kwargs)."""
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn, attrs=None):
        self.name = name
        self.fn = fn
        self.attrs = attrs or {}

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop(object):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM(object):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM(object):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class AMod(object):
    __slots__ = ("name", "ns", "file", "attr")

    def __init__(self, name, ns, file=None, attr=None):
        self.name = name
        self.ns = ns
        self.file = file
        self.attr = attr     # fallback attribute function

    def __repr__(self):
        return "<module %s>" % self.name


class HostObj(object):
    """Opaque host object (e.g. a node of the Python `ast` library, a compiled regex)."""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "<host %r>" % (self.o,)


class AIter(object):
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class Super(object):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class PyExc(Exception):
    def __init__(self, obj, site=None, tb=None):
        Exception.__init__(self)
        self.obj = obj
        self.site = site
        self.tb = tb

    @property
    def name(self):
        return self.obj.cls.name

    def msg(self):
        a = self.obj.attrs.get("args", ())
        return ", ".join(str(x) for x in a)

    def __str__(self):
        return "%s(%s) at %s" % (self.name, self.msg(), self.site)


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass
