"""Drives the analyser over *client contexts*: small client programs over the public API whose data are abstract.

A context is a piece of client source (kept in the property modules).  It is parsed and abstractly interpreted together with the
analysed package; names bound in `env` are abstract values.  Nothing is imported from or executed in the analysed tree."""
import ast
import os
import sys
import threading

from .interp import Machine, Program, Scope, Frame, explore, PyExc, Unsupported, Poly, Rng, NPFloat, NPInt
from .objects import *
from . import values as V
from . import npmodel as NP
from .values import sym, equal

ROOT = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "histbook"


class Anchor(Exception):
    """A public anchor of the property is gone: the check cannot give an answer."""


class Analyser(object):
    def __init__(self, root=None, setorder=0):
        self.root = root or ROOT
        self.program = Program(self.root, PACKAGE)
        self.setorder = setorder
        self.machine = None
        self.covered = {}
        self.paths = 0
        self.contexts = 0
        self.reloads = 0
        self.cache = {}

    def fresh(self):
        m = self.machine
        if m is None or m.dirty:
            m = Machine(self.program)
            m.setorder = self.setorder
            m.loop = 0
            m.load(PACKAGE)
            m.dirty = False
            self.machine = m
            self.reloads += 1
        return m

    def harvest(self, m):
        self.lastcovered = dict(m.covered)
        for k, n in m.covered.items():
            self.covered[k] = self.covered.get(k, 0) + n
        m.covered = {}

    def run(self, src, env=None, name="<client>", path_limit=400, order=0):
        """Yield (taken, (status, value), machine) for every trace partition of the context.

        `src` must define main() (or be a function body that is wrapped into main)."""
        tree = self.cache.get(src)
        if tree is None:
            import textwrap
            body = textwrap.dedent(src)
            tree = ast.parse("def main():\n" + textwrap.indent(body, "    "), name)
            self.cache[src] = tree
        self.contexts += 1

        def go(m):
            m.setorder = order
            mod = AMod(name, {"__name__": name}, None)
            ns = mod.ns
            hb = m.modules[PACKAGE]
            for k, v in hb.ns.items():
                if not k.startswith("__"):
                    ns[k] = v
            ns["histbook"] = hb
            ns["numpy"] = m.import_("numpy")
            ns["math"] = m.import_("math")
            ns["json"] = m.import_("json")
            ns["pickle"] = m.import_("pickle")
            ns["copy"] = m.import_("copy")
            if env:
                e = env(m) if callable(env) else env
                ns.update(e)
            scope = Scope(None, mod)
            scope.vars = ns
            m.frame = Frame(name, "<client>", 1, mod, None)
            m.exec_block(tree.body, scope)
            return m.call(ns["main"], [], {})

        for taken, out, m in explore(self.fresh, go, path_limit):
            self.paths += 1
            self.harvest(m)
            yield taken, out, m

    def one(self, src, env=None, name="<client>"):
        """Single-partition contexts (used where the abstract inputs determine every branch)."""
        res = list(self.run(src, env, name))
        return res


# ------------------------------------------------------------------------------- conversions

def host(m, v, depth=0):
    """Abstract value -> host structure (lists/dicts/tuples of constants and terms) for the oracles."""
    if depth > 40:
        return "..."
    if isinstance(v, NPFloat):
        return float(v)
    if isinstance(v, NPInt):
        return int(v)
    if isinstance(v, AObj) and v.base is not None:
        return host(m, v.base, depth + 1)
    if isinstance(v, AList):
        return [host(m, x, depth + 1) for x in v.v]
    if isinstance(v, tuple):
        return tuple(host(m, x, depth + 1) for x in v)
    if isinstance(v, ADict):
        return dict((hkey(host(m, k, depth + 1)), host(m, x, depth + 1)) for k, x in v.items())
    if isinstance(v, ASet):
        return set(hkey(host(m, x, depth + 1)) for x in v.items())
    if isinstance(v, NP.NDArr):
        if v.dtype.fields is not None:
            return ("rec", [n for n, _ in v.dtype.fields], host(m, NP.tolist(m, v), depth + 1))
        return host(m, NP.tolist(m, v), depth + 1)
    if isinstance(v, m.Cond):
        return m.truth(v)
    return v


def hkey(k):
    if isinstance(k, list):
        return tuple(hkey(x) for x in k)
    if isinstance(k, dict):
        return tuple(sorted((repr(a), repr(b)) for a, b in k.items()))
    return k


def same(a, b):
    """Deep equality of host structures whose leaves may be abstract terms."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        if not (isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float))):
            return False
        return a == b
    try:
        return equal(a, b)
    except Unsupported:
        return a is b


def diff(a, b, path=""):
    """First difference between two host structures, as text (None if the same)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d instead of %d" % (path or "value", len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %s instead of %s" % (path or "value", sorted(map(repr, a)), sorted(map(repr, b)))
        for k in a:
            d = diff(a[k], b[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if same(a, b):
        return None
    return "%s is %r, expected %r" % (path or "value", a, b)


# ------------------------------------------------------------------------------- ownership

def reach(m, v, out=None, path="", opaque=()):
    """Mutable storage reachable from an abstract value: {storage id: (kind, access path, object)}."""
    out = {} if out is None else out
    if isinstance(v, NP.NDArr):
        if v.buf.oid not in out:
            out[v.buf.oid] = ("array", path, v.buf)
        return out
    if isinstance(v, AList):
        if v.oid in out:
            return out
        out[v.oid] = ("list", path, v)
        for i, x in enumerate(v.v):
            reach(m, x, out, "%s[%d]" % (path, i), opaque)
    elif isinstance(v, ADict):
        if v.oid in out:
            return out
        out[v.oid] = ("dict", path, v)
        for k, x in v.items():
            reach(m, x, out, "%s[%s]" % (path, m.bt.repr_(m, k)), opaque)
    elif isinstance(v, ASet):
        if v.oid in out:
            return out
        out[v.oid] = ("set", path, v)
        for x in v.items():
            reach(m, x, out, path + "{}", opaque)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            reach(m, x, out, "%s[%d]" % (path, i), opaque)
    elif isinstance(v, AObj):
        if v.oid in out:
            return out
        out[v.oid] = ("object %s" % v.cls.name, path, v)
        if v.base is not None:
            reach(m, v.base, out, path, opaque)
        for n, x in v.attrs.items():
            reach(m, x, out, "%s.%s" % (path, n), opaque)
    return out


def site(o):
    s = o if isinstance(o, tuple) else getattr(o, "site", None)
    if s is None:
        return "?"
    return "%s:%d in %s" % (s[0], s[1], s[2])


def bigstack(fn, *args):
    """Run fn in a thread with a large stack (the interpreter is recursive)."""
    res = {}

    def go():
        try:
            res["v"] = fn(*args)
        except BaseException as e:      # re-raised in the caller
            res["e"] = e
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in res:
        raise res["e"]
    return res["v"]
