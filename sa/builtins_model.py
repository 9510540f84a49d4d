"""Models of Python builtins and the standard-library modules used by the analysed package."""
import ast as _ast
import builtins as _pyb
import fnmatch as _fnmatch
import functools as _functools
import itertools as _itertools
import math as _math
import string as _string
from fractions import Fraction

from .objects import *
from .values import *
from . import interp as I
from . import npmodel as NP

MISSING = object()
HOST_BUILTIN_NAMES = set(dir(_pyb))


class AttrDict(object):
    """obj.__dict__ view."""

    def __init__(self, o):
        self.o = o

    def asdict(self, m):
        return ADict(m, list(self.o.attrs.items()))


EXC = ["BaseException", "Exception", "ArithmeticError", "OverflowError", "ZeroDivisionError", "FloatingPointError", "AssertionError",
       "AttributeError", "BufferError", "EOFError", "ImportError", "ModuleNotFoundError", "LookupError", "IndexError", "KeyError", "MemoryError",
       "NameError", "UnboundLocalError", "OSError", "ReferenceError", "RuntimeError", "NotImplementedError", "RecursionError",
       "StopIteration", "SyntaxError", "SystemError", "TypeError", "ValueError", "UnicodeError", "Warning", "DeprecationWarning", "UserWarning",
       "RuntimeWarning", "FutureWarning", "KeyboardInterrupt", "SystemExit", "GeneratorExit"]


def make_types(m):
    t = {}

    def add(name, bases, host):
        t[name] = AClass(None, name, [t[b] for b in bases], {}, None, host)
        t[name].ns["__module__"] = "builtins"
        return t[name]
    add("object", [], object)
    add("type", ["object"], type)
    for n, h in (("int", int), ("float", float), ("complex", complex), ("str", str), ("bytes", bytes), ("tuple", tuple), ("list", list),
                 ("dict", dict), ("set", set), ("frozenset", frozenset), ("slice", slice), ("range", range)):
        add(n, ["object"], h)
    add("bool", ["int"], bool)
    for n in ("NoneType", "function", "method", "module", "generator", "ellipsis", "property", "builtin_function_or_method", "NotImplementedType", "classmethod", "staticmethod", "hostobject", "super"):
        add(n, ["object"], n)
    for n in EXC:
        h = getattr(_pyb, n)
        add(n, [b.__name__ for b in h.__bases__], h)
    add("OrderedDict", ["dict"], dict)
    # numbers ABCs
    for n, b in (("Number", "object"), ("Complex", "Number"), ("Real", "Complex"), ("Rational", "Real"), ("Integral", "Rational")):
        add("numbers." + n, ["object" if b == "object" else "numbers." + b], "abc")
    # numpy types
    add("ndarray", ["object"], "ndarray")
    add("MaskedArray", ["ndarray"], "ndarray")
    add("MaskedConstant", ["MaskedArray"], "ndarray")
    add("ufunc", ["object"], "ufunc")
    add("dtype", ["object"], "dtype")
    for n, b in (("generic", "object"), ("number", "generic"), ("integer", "number"), ("inexact", "number"), ("floating", "inexact"), ("complexfloating", "inexact"),
                 ("flexible", "generic"), ("character", "flexible"), ("bool_", "generic"), ("str_", "character"), ("bytes_", "character"), ("void", "flexible"), ("object_", "generic")):
        add("np." + n, ["object" if b == "object" else "np." + b], "npabc")
    for n, kind, b in (("int8", "i1", "integer"), ("int16", "i2", "integer"), ("int32", "i4", "integer"), ("int64", "i8", "integer"), ("uint8", "u1", "integer"),
                       ("uint16", "u2", "integer"), ("uint32", "u4", "integer"), ("uint64", "u8", "integer"), ("float16", "f2", "floating"), ("float32", "f4", "floating"), ("float64", "f8", "floating"), ("complex128", "c16", "complexfloating")):
        add("np." + n, ["np." + b], ("npscalar", kind))
    return t


def typeof(m, v):
    t = m.types
    if v is None:
        return t["NoneType"]
    if isinstance(v, bool) or isinstance(v, I.Cond):
        return t["bool"]
    if isinstance(v, I.NPFloat):
        return t["np.float64"]
    if isinstance(v, I.NPInt):
        return t["np.int64"]
    if isinstance(v, int):
        return t["int"]
    if isinstance(v, (float, Fraction)):
        return t["float"]
    if isinstance(v, (Poly, Rng)):
        return t["int"] if v.isint else t["float"]
    if isinstance(v, str):
        return t["str"]
    if isinstance(v, bytes):
        return t["bytes"]
    if isinstance(v, complex):
        return t["complex"]
    if isinstance(v, tuple):
        return t["tuple"]
    if isinstance(v, AObj):
        return v.cls
    if isinstance(v, AList):
        return t["list"]
    if isinstance(v, ADict):
        return t["OrderedDict"] if v.ordered else t["dict"]
    if isinstance(v, AttrDict):
        return t["dict"]
    if isinstance(v, ASet):
        return t["frozenset"] if v.frozen else t["set"]
    if isinstance(v, AClass):
        return t["type"]
    if isinstance(v, AFunc):
        return t["function"]
    if isinstance(v, Bound):
        return t["method"]
    if isinstance(v, BFn):
        return t["builtin_function_or_method"]
    if isinstance(v, AMod):
        return t["module"]
    if isinstance(v, slice):
        return t["slice"]
    if isinstance(v, range):
        return t["range"]
    if isinstance(v, AIter):
        return t["generator"]
    if isinstance(v, NP.NDArr):
        return t["MaskedArray"] if v.masked else t["ndarray"]
    if isinstance(v, NP.Masked):
        return t["MaskedConstant"]
    if isinstance(v, NP.UFunc):
        return t["ufunc"]
    if isinstance(v, NP.DType):
        return t["dtype"]
    if v is Ellipsis:
        return t["ellipsis"]
    if isinstance(v, HostObj):
        return t["hostobject"]
    if isinstance(v, HVal):
        return t["int"]
    if isinstance(v, Prop):
        return t["property"]
    if v is I.NOTIMPL:
        return t["NotImplementedType"]
    if isinstance(v, StaticM):
        return t["staticmethod"]
    if isinstance(v, ClassM):
        return t["classmethod"]
    if isinstance(v, Super):
        return t["super"]
    raise Unsupported("type of %r" % (v,))


ABC = {"numbers.Number": 0, "numbers.Complex": 1, "numbers.Real": 2, "numbers.Rational": 3, "numbers.Integral": 4}


def isinstance_(m, v, c):
    if isinstance(c, tuple):
        return any(isinstance_(m, v, x) for x in c)
    if isinstance(c, HostObj) and isinstance(c.o, type):
        return isinstance(v, HostObj) and isinstance(v.o, c.o)
    if not isinstance(c, AClass):
        if isinstance(c, BFn) and "type" in c.attrs:
            c = c.attrs["type"]
        else:
            raise m.exc("TypeError", "isinstance() arg 2 must be a type or tuple of types")
    if isinstance(v, HostObj):
        return c is m.types["object"]
    if c.name in ABC:
        lvl = ABC[c.name]
        if isinstance(v, (Poly, Rng)):
            return lvl <= (4 if v.isint else 2)
        if isinstance(v, (bool, int, I.Cond)):
            return True
        if isinstance(v, (float, Fraction)):
            return lvl <= 2
        if isinstance(v, complex):
            return lvl <= 1
        return False
    t = typeof(m, v)
    if c.host == "abc-mapping":
        return isinstance(v, (ADict,)) or (isinstance(v, AObj) and v.cls.issub(c))
    if isinstance(v, I.NPFloat) and c is m.types["float"]:
        return True
    return t.issub(c)


def issubclass_(m, a, c):
    if isinstance(c, tuple):
        return any(issubclass_(m, a, x) for x in c)
    if not isinstance(a, AClass):
        raise m.exc("TypeError", "issubclass() arg 1 must be a class")
    return a.issub(c)


def unbase(v):
    if isinstance(v, AObj) and v.base is not None:
        return v.base
    return v


def attrdict(m, o):
    return AttrDict(o)


# ------------------------------------------------------------------ construction

def new_instance(m, cls, args, kw):
    o = AObj(m, cls)
    for c in cls.mro:
        if c.host is tuple:
            o.base = tuple(m.iterate(args[0])) if args else ()
            break
        if c.host is list:
            o.base = AList(m, m.iterate(args[0]) if args and not isinstance(cls.lookup("__init__"), AFunc) else ())
            break
        if c.host is dict:
            o.base = construct(m, m.types["dict"], args, kw) if not isinstance(cls.lookup("__init__"), AFunc) else ADict(m)
            break
        if c.host is str:
            o.base = str_(m, args[0]) if args else ""
            break
        if c.host in (int, float):
            o.base = construct(m, c, args, kw)
            break
    if cls.issub(m.types["BaseException"]):
        o.attrs["args"] = tuple(args)
    return o


def intof(m, v):
    if isinstance(v, I.Cond):
        v = m.truth(v)
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return m.host(int, v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        return m.host(int, v)
    if isinstance(v, Rng):
        return v.trunc()
    if isinstance(v, Poly):
        return v if v.isint else Poly("trunc", (v,), isint=True)
    if isinstance(v, NP.NDArr):
        return intof(m, NP.scalar(m, v))
    if isinstance(v, AObj):
        f = v.cls.lookup("__int__")
        if f is not None:
            return m.call(m.bind(f, v), [], {})
        if v.base is not None:
            return intof(m, v.base)
    raise m.exc("TypeError", "int() argument must be a string or a number, not '%s'" % typeof(m, v).name)


def floatof(m, v):
    if isinstance(v, I.Cond):
        v = m.truth(v)
    if isinstance(v, (bool, int, float, Fraction)):
        return float(v)
    if isinstance(v, str):
        return m.host(float, v)
    if isinstance(v, Rng):
        return Rng(v.lo, v.hi, v.lo_open, v.hi_open, False, v.tag) if not v.isint else v
    if isinstance(v, Poly):
        return v
    if isinstance(v, NP.NDArr):
        return floatof(m, NP.scalar(m, v))
    if isinstance(v, AObj):
        f = v.cls.lookup("__float__")
        if f is not None:
            return m.call(m.bind(f, v), [], {})
        if v.base is not None:
            return floatof(m, v.base)
    raise m.exc("TypeError", "float() argument must be a string or a number, not '%s'" % typeof(m, v).name)


def construct(m, cls, args, kw):
    n = cls.name
    h = cls.host
    if isinstance(h, type) and issubclass(h, BaseException):
        o = AObj(m, cls)
        o.attrs["args"] = tuple(args)
        return o
    if h is int and n == "int":
        if len(args) == 2:
            return m.host(int, args[0], args[1])
        return intof(m, args[0]) if args else 0
    if h is float:
        return floatof(m, args[0]) if args else 0.0
    if h is bool:
        return m.truth(args[0]) if args else False
    if h is str:
        if not args:
            return ""
        if isinstance(args[0], bytes) and len(args) > 1:
            return m.host(str, *args)
        return str_(m, args[0])
    if h is bytes:
        if all(isinstance(a, I.CONST) for a in args):
            return m.host(bytes, *args)
    if h is complex:
        return m.host(complex, *args)
    if h is tuple:
        return tuple(m.iterate(args[0])) if args else ()
    if h is list:
        return AList(m, m.iterate(args[0]) if args else ())
    if h is set or h is frozenset:
        return ASet(m, list(m.iterate(args[0])) if args else (), frozen=(h is frozenset))
    if h is dict:
        d = ADict(m, ordered=(n == "OrderedDict"))
        if args:
            dict_update(m, d, args[0], init=True)
        for k, v in kw.items():
            d.set(m, k, v, init=True)
        return d
    if h is type:
        if len(args) == 1:
            if isinstance(args[0], HostObj) and isinstance(args[0].o, _ast.AST):
                return HostObj(type(args[0].o))
            return typeof(m, args[0])
        if len(args) == 3:
            bases = list(args[1]) or [m.types["object"]]
            return AClass(m, args[0], bases, dict(args[2].items()), None)
    if h is object:
        return AObj(m, cls)
    if h is slice:
        a = list(args)
        if len(a) == 1:
            return slice(None, a[0], None)
        return slice(*a)
    if h is range:
        return range(*[m.index(a) for a in args])
    if h == "property":
        return Prop(args[0], args[1] if len(args) > 1 else kw.get("fset"))
    if h == "staticmethod":
        return StaticM(args[0])
    if h == "classmethod":
        return ClassM(args[0])
    if h == "super":
        return Super(args[0], args[1])
    if h == "dtype":
        return NP.todtype(m, args[0])
    if isinstance(h, tuple) and h[0] == "npscalar":
        return NP.npscalar(m, h[1], args[0] if args else 0)
    if n == "np.bool_":
        return m.truth(args[0]) if args else False
    if n in ("ndarray",):
        raise Unsupported("ndarray constructor")
    raise Unsupported("constructor of %s" % n)


def dict_update(m, d, src, init=False):
    if isinstance(src, AttrDict):
        src = src.asdict(m)
    if isinstance(src, ADict):
        for k, v in src.items():
            d.set(m, k, v, init)
        return
    if isinstance(src, AObj) and src.base is None and m.hasattr(src, "keys"):
        for k in m.iterate(m.call(m.getattr(src, "keys"), [], {})):
            d.set(m, k, m.getitem(src, k), init)
        return
    if isinstance(src, AObj) and isinstance(src.base, ADict):
        return dict_update(m, d, src.base, init)
    for p in m.iterate(src):
        kv = list(m.iterate(p))
        if len(kv) != 2:
            raise m.exc("ValueError", "dictionary update sequence element has length %d; 2 is required" % len(kv))
        d.set(m, kv[0], kv[1], init)


# ------------------------------------------------------------------ strings

def repr_(m, v):
    if isinstance(v, I.Cond):
        v = m.truth(v)
    if isinstance(v, I.NPFloat):
        return repr(float(v))
    if isinstance(v, I.NPInt):
        return repr(int(v))
    if isinstance(v, Fraction):
        return repr(float(v))
    if isinstance(v, I.CONST):
        return repr(v)
    if isinstance(v, (Poly, Rng)):
        return "\u27e8%r\u27e9" % (v,)
    if isinstance(v, AObj):
        f = v.cls.lookup("__repr__")
        if f is not None:
            return m.call(m.bind(f, v), [], {})
        if v.cls.issub(m.types["BaseException"]):
            return v.cls.name + "(" + ", ".join(repr_(m, x) for x in v.attrs.get("args", ())) + ")"
        if v.base is not None:
            return repr_(m, v.base)
        return "<%s object at #%d>" % (v.cls.name, v.oid)
    if isinstance(v, tuple):
        return "(" + ", ".join(repr_(m, x) for x in v) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, AList):
        return "[" + ", ".join(repr_(m, x) for x in v.v) + "]"
    if isinstance(v, ADict):
        return "{" + ", ".join(repr_(m, k) + ": " + repr_(m, x) for k, x in v.items()) + "}"
    if isinstance(v, ASet):
        return "{" + ", ".join(repr_(m, k) for k in v.items()) + "}" if len(v) else "set()"
    if isinstance(v, AClass):
        return "<class '%s'>" % v.name
    if isinstance(v, slice):
        return "slice(%s, %s, %s)" % (repr_(m, v.start), repr_(m, v.stop), repr_(m, v.step))
    return repr(v)


def str_(m, v):
    if isinstance(v, str):
        return v
    if isinstance(v, AObj):
        f = v.cls.lookup("__str__")
        if f is not None:
            return m.call(m.bind(f, v), [], {})
        if v.cls.issub(m.types["BaseException"]):
            a = v.attrs.get("args", ())
            return "" if not a else (str_(m, a[0]) if len(a) == 1 else repr_(m, a))
        if isinstance(v.base, str):
            return v.base
    if isinstance(v, NP.DType):
        return NP.dtname(v)
    return repr_(m, v)


def format_(m, v, spec=""):
    if isinstance(v, I.Cond):
        v = m.truth(v)
    if spec == "":
        return str_(m, v)
    if isinstance(v, AObj):
        f = v.cls.lookup("__format__")
        if f is not None:
            return m.call(m.bind(f, v), [spec], {})
        if v.base is not None:
            return format_(m, v.base, spec)
        raise m.exc("TypeError", "unsupported format string passed to %s.__format__" % v.cls.name)
    if isinstance(v, (Poly, Rng)):
        return repr_(m, v)
    if isinstance(v, Fraction):
        v = float(v)
    if isinstance(v, I.CONST):
        return m.host(format, v, spec)
    if isinstance(v, (BFn, AMod, HVal)):
        return "0"
    raise m.exc("TypeError", "unsupported format string passed to %s.__format__" % typeof(m, v).name)


def str_dot_format(m, s, args, kw):
    out = []
    auto = [0]
    try:
        parts = list(_string.Formatter().parse(s))
    except ValueError as e:
        raise m.exc("ValueError", str(e))
    for lit, field, spec, conv in parts:
        out.append(lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == "":
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(args):
                raise m.exc("IndexError", "Replacement index %d out of range for positional args tuple" % first)
            v = args[first]
        else:
            if first not in kw:
                raise m.exc("KeyError", first)
            v = kw[first]
        for isattr, i in rest:
            v = m.getattr(v, i) if isattr else m.getitem(v, i)
        if conv == "r":
            v = repr_(m, v)
        elif conv == "s":
            v = str_(m, v)
        if spec and "{" in spec:
            spec = str_dot_format(m, spec, args, kw)
        out.append(format_(m, v, spec))
    return "".join(out)


def strformat(m, s, b):
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, ADict):
        host = dict((k, conc(m, v)) for k, v in b.items())
        return m.host(lambda: s % host)
    return m.host(lambda: s % tuple(conc(m, x) for x in args))


class _Str(object):
    def __init__(self, s, r):
        self.s, self.r = s, r

    def __str__(self):
        return self.s

    def __repr__(self):
        return self.r


def conc(m, v):
    if isinstance(v, I.CONST):
        return v
    return _Str(str_(m, v), repr_(m, v))


# ------------------------------------------------------------------ builtin attribute access

def B(name):
    def deco(f):
        return BFn(name, f)
    return deco


def bfn(name, f):
    return BFn(name, f)


def builtin_attr(m, o, name):
    if name == "__class__" and isinstance(o, HostObj):
        return wraphost(m, type(o.o))
    if name == "__class__":
        return typeof(m, o)
    if name == "__doc__":
        return None
    if isinstance(o, (str, bytes)):
        if not hasattr(type(o), name):
            raise m.exc("AttributeError", "'str' object has no attribute '%s'" % name)
        if name == "join":
            def join(mm, args, kw):
                parts = list(mm.iterate(args[0]))
                for p in parts:
                    if not isinstance(p, type(o)):
                        raise mm.exc("TypeError", "sequence item: expected str instance, %s found" % typeof(mm, p).name)
                return o.join(parts)
            return bfn("str.join", join)
        if name == "format":
            return bfn("str.format", lambda mm, args, kw: str_dot_format(mm, o, args, kw))

        if name == "translate":
            return bfn("str.translate", lambda mm, a, k: o.translate(dict((x, y) for x, y in (unbase(a[0]).items() if isinstance(unbase(a[0]), ADict) else a[0].items()))))

        def meth(mm, args, kw):
            args = [tuple(unbase(y) for y in x) if isinstance(x, tuple) else unbase(x) for x in args]
            if not all(isinstance(a, I.CONST + (tuple,)) for a in args):
                if name in ("__eq__",):
                    return False
                raise mm.exc("TypeError", "bad argument to str.%s" % name)
            r = mm.host(getattr(o, name), *args, **kw)
            return AList(mm, r) if isinstance(r, list) else r
        return bfn("str." + name, meth)
    if isinstance(o, AList):
        return list_attr(m, o, name)
    if isinstance(o, ADict):
        return dict_attr(m, o, name)
    if isinstance(o, AttrDict):
        return attrdict_attr(m, o, name)
    if isinstance(o, ASet):
        return set_attr(m, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return bfn("tuple.index", lambda mm, a, k: seq_index(mm, o, a))
        if name == "count":
            return bfn("tuple.count", lambda mm, a, k: sum(1 for x in o if x is a[0] or mm.truth(mm.compare("==", x, a[0]))))
        if name in ("__getitem__",):
            return bfn("tuple.__getitem__", lambda mm, a, k: mm.getitem(o, a[0]))
        if name == "__len__":
            return bfn("tuple.__len__", lambda mm, a, k: len(o))
        if name == "__iter__":
            return bfn("tuple.__iter__", lambda mm, a, k: AIter(iter(o)))
        if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            op = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[name]
            return bfn("tuple." + name, lambda mm, a, k: mm.compare(op, o, unbase(a[0])))
        if name == "__add__":
            return bfn("tuple.__add__", lambda mm, a, k: mm.binop("+", o, unbase(a[0])))
        if name == "__contains__":
            return bfn("tuple.__contains__", lambda mm, a, k: mm.contains(o, a[0]))
        if hasattr(tuple, name):
            raise Unsupported("tuple.%s" % name)
        raise m.exc("AttributeError", "'tuple' object has no attribute '%s'" % name)
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            return bfn("slice.indices", lambda mm, a, k: mm.hostslice(o).indices(a[0]))
        raise m.exc("AttributeError", name)
    if isinstance(o, (int, float, complex, Fraction)):
        if name in ("real",):
            return o
        if name == "imag" and not isinstance(o, complex):
            return 0
        if name in ("dtype", "shape", "ndim", "tolist", "item", "astype", "size", "any", "all", "sum", "max", "min") and not isinstance(o, bool):
            if name in ("tolist", "item"):
                return bfn("scalar." + name, lambda mm, a, k: o)
            if isinstance(o, I.NPFloat):
                if name == "dtype":
                    return NP.DType("f8")
                if name == "shape":
                    return ()
            if isinstance(o, I.NPInt):
                if name == "dtype":
                    return NP.DType("i8")
                if name == "shape":
                    return ()
            raise m.exc("AttributeError", "'%s' object has no attribute '%s'" % (typeof(m, o).name, name))
        if not hasattr(type(o), name):
            raise m.exc("AttributeError", "'%s' object has no attribute '%s'" % (typeof(m, o).name, name))
        return bfn("num." + name, lambda mm, a, k: mm.host(getattr(o, name), *a, **k))
    if isinstance(o, (Poly, Rng)):
        if name in ("tolist", "item"):
            return bfn("scalar." + name, lambda mm, a, k: o)
        if name == "shape":
            return ()
        if name == "dtype":
            return NP.DType("i8" if o.isint else "f8")
        if name == "is_integer":
            return bfn("is_integer", lambda mm, a, k: True if o.isint else mm.fork(("isint", repr(o)), "is_integer"))
        if name in ("__class__",):
            return typeof(m, o)
        raise Unsupported("attribute %s of number" % name)
    if o is None:
        raise m.exc("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, BFn):
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return o.name
        raise m.exc("AttributeError", "builtin has no attribute '%s'" % name)
    if isinstance(o, HostObj):
        return hostattr(m, o, name)
    if isinstance(o, AIter):
        if name in ("__next__", "next"):
            return bfn("next", lambda mm, a, k: next_(mm, [o], {}))
        if name == "__iter__":
            return bfn("iter", lambda mm, a, k: o)
        if name == "throw" and hasattr(o.it, "throw"):
            def throw(mm, a, k):
                try:
                    return o.it.throw(PyExc(a[0]))
                except StopIteration:
                    raise mm.exc("StopIteration")
            return bfn("throw", throw)
        if name in ("send", "close", "throw"):
            raise Unsupported("generator.%s" % name)
        raise m.exc("AttributeError", "generator has no attribute '%s'" % name)
    if isinstance(o, Prop):
        if name == "setter":
            return bfn("setter", lambda mm, a, k: Prop(o.fget, a[0]))
        if name == "fget":
            return o.fget
    if isinstance(o, NP.Masked):
        raise Unsupported("attribute of masked")
    if isinstance(o, I.Cond):
        raise Unsupported("attribute of condition")
    raise m.exc("AttributeError", "%r has no attribute '%s'" % (typeof(m, o).name, name))


def seq_index(m, seq, a):
    for i, x in enumerate(seq):
        if len(a) > 1 and i < a[1]:
            continue
        if x is a[0] or m.truth(m.compare("==", x, a[0])):
            return i
    raise m.exc("ValueError", "value is not in list")


def sort_(m, items, kw):
    key = kw.get("key")
    rev = m.truth(kw.get("reverse", False))
    keyed = [(x if key is None else m.call(key, [x], {}), i, x) for i, x in enumerate(items)]

    def lt(a, b):
        return m.truth(m.compare("<", a, b))

    def cmp(a, b):
        if lt(a[0], b[0]):
            return -1
        if lt(b[0], a[0]):
            return 1
        return 0
    keyed = sorted(keyed, key=_functools.cmp_to_key(cmp), reverse=rev)
    return [x[2] for x in keyed]


def list_attr(m, o, name):
    def w(f):
        def g(mm, a, k):
            r = f(mm, a, k)
            o.wrote(mm)
            return r
        return bfn("list." + name, g)
    if name == "append":
        return w(lambda mm, a, k: o.v.append(a[0]))
    if name == "extend":
        return w(lambda mm, a, k: o.v.extend(list(mm.iterate(a[0]))))
    if name == "insert":
        return w(lambda mm, a, k: o.v.insert(mm.index(a[0]), a[1]))
    if name == "pop":
        def pop(mm, a, k):
            i = mm.index(a[0]) if a else -1
            if not o.v or not -len(o.v) <= i < len(o.v):
                raise mm.exc("IndexError", "pop from empty list")
            return o.v.pop(i)
        return w(pop)
    if name == "remove":
        return w(lambda mm, a, k: o.v.pop(seq_index(mm, o.v, a)) and None)
    if name == "sort":
        def srt(mm, a, k):
            o.v[:] = sort_(mm, o.v, k)
        return w(srt)
    if name == "reverse":
        return w(lambda mm, a, k: o.v.reverse())
    if name == "clear":
        return w(lambda mm, a, k: o.v.clear())
    if name == "copy":
        return bfn("list.copy", lambda mm, a, k: AList(mm, o.v))
    if name == "index":
        return bfn("list.index", lambda mm, a, k: seq_index(mm, o.v, a))
    if name == "count":
        return bfn("list.count", lambda mm, a, k: sum(1 for x in o.v if x is a[0] or mm.truth(mm.compare("==", x, a[0]))))
    if name == "__len__":
        return bfn("list.len", lambda mm, a, k: len(o.v))
    if name == "__getitem__":
        return bfn("list.getitem", lambda mm, a, k: mm.getitem(o, a[0]))
    if name == "__setitem__":
        return bfn("list.setitem", lambda mm, a, k: mm.setitem(o, a[0], a[1]))
    if name == "__contains__":
        return bfn("list.contains", lambda mm, a, k: mm.contains(o, a[0]))
    if name == "__iter__":
        return bfn("list.iter", lambda mm, a, k: AIter(mm.iterate(o)))
    if hasattr(list, name):
        raise Unsupported("list.%s" % name)
    raise m.exc("AttributeError", "'list' object has no attribute '%s'" % name)


def dict_attr(m, o, name):
    if name == "get":
        return bfn("dict.get", lambda mm, a, k: o.get(mm, a[0], a[1] if len(a) > 1 else k.get("default")))
    if name == "items":
        return bfn("dict.items", lambda mm, a, k: View(o, "items"))
    if name == "keys":
        return bfn("dict.keys", lambda mm, a, k: View(o, "keys"))
    if name == "values":
        return bfn("dict.values", lambda mm, a, k: View(o, "values"))
    if name == "copy":
        return bfn("dict.copy", lambda mm, a, k: ADict(mm, o.items(), o.ordered))
    if name == "update":
        def upd(mm, a, k):
            if a:
                dict_update(mm, o, a[0])
            for kk, v in k.items():
                o.set(mm, kk, v)
            o.wrote(mm)
        return bfn("dict.update", upd)
    if name == "pop":
        def pop(mm, a, k):
            if o.has(mm, a[0]):
                v = o.get(mm, a[0])
                o.delete(mm, a[0])
                return v
            if len(a) > 1:
                return a[1]
            raise mm.exc("KeyError", a[0])
        return bfn("dict.pop", pop)
    if name == "popitem":
        def popitem(mm, a, k):
            if not len(o):
                raise mm.exc("KeyError", "popitem(): dictionary is empty")
            last = k.get("last", a[0] if a else True)
            kk, v = o.items()[-1 if last else 0]
            o.delete(mm, kk)
            return (kk, v)
        return bfn("dict.popitem", popitem)
    if name == "setdefault":
        def sd(mm, a, k):
            if not o.has(mm, a[0]):
                o.set(mm, a[0], a[1] if len(a) > 1 else None)
            return o.get(mm, a[0])
        return bfn("dict.setdefault", sd)
    if name == "clear":
        return bfn("dict.clear", lambda mm, a, k: o.clear(mm))
    if name == "__contains__" or name == "has_key":
        if name == "has_key":
            raise m.exc("AttributeError", "'dict' object has no attribute 'has_key'")
        return bfn("dict.contains", lambda mm, a, k: o.has(mm, a[0]))
    if name == "__getitem__":
        return bfn("dict.getitem", lambda mm, a, k: mm.getitem(o, a[0]))
    if name == "__setitem__":
        return bfn("dict.setitem", lambda mm, a, k: o.set(mm, a[0], a[1]))
    if name == "__len__":
        return bfn("dict.len", lambda mm, a, k: len(o))
    if name == "__iter__":
        return bfn("dict.iter", lambda mm, a, k: AIter(mm.iterate(o)))
    if name == "move_to_end" and o.ordered:
        def mte(mm, a, k):
            v = mm.getitem(o, a[0])
            last = k.get("last", a[1] if len(a) > 1 else True)
            kk = [x for x in o.keys() if mm.same_key(x, a[0])][0]
            o.delete(mm, kk)
            if last:
                o.set(mm, kk, v)
            else:
                rest = o.items()
                o.clear(mm)
                o.set(mm, kk, v)
                for x, y in rest:
                    o.set(mm, x, y)
        return bfn("dict.move_to_end", mte)
    if name in ("iteritems", "iterkeys", "itervalues"):
        raise m.exc("AttributeError", "'dict' object has no attribute '%s'" % name)
    if hasattr(dict, name):
        raise Unsupported("dict.%s" % name)
    raise m.exc("AttributeError", "'dict' object has no attribute '%s'" % name)


class View(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def list(self):
        return list(getattr(self.d, self.kind)())


def attrdict_attr(m, o, name):
    obj = o.o
    if name == "update":
        def upd(mm, a, k):
            for s in a:
                src = s
                if isinstance(src, AttrDict):
                    pairs = list(src.o.attrs.items())
                else:
                    d = ADict(mm)
                    dict_update(mm, d, src)
                    pairs = d.items()
                for kk, v in pairs:
                    obj.setattr(mm, kk, v)
            for kk, v in k.items():
                obj.setattr(mm, kk, v)
        return bfn("__dict__.update", upd)
    if name == "pop":
        def pop(mm, a, k):
            if a[0] in obj.attrs:
                v = obj.attrs.pop(a[0])
                obj.wrote(mm)
                return v
            if len(a) > 1:
                return a[1]
            raise mm.exc("KeyError", a[0])
        return bfn("__dict__.pop", pop)
    if name == "setdefault":
        def sd(mm, a, k):
            if a[0] not in obj.attrs:
                obj.setattr(mm, a[0], a[1] if len(a) > 1 else None)
            return obj.attrs[a[0]]
        return bfn("__dict__.setdefault", sd)
    return dict_attr(m, o.asdict(m), name)


def set_attr(m, o, name):
    d = o.d

    def elems(mm, a):
        out = []
        for x in a:
            out.extend(mm.iterate(x))
        return out
    if name == "add":
        def add(mm, a, k):
            if not d.has(mm, a[0]):
                d.set(mm, a[0], None)
            o.wrote(mm)
        return bfn("set.add", add)
    if name == "update":
        def upd(mm, a, k):
            for x in elems(mm, a):
                if not d.has(mm, x):
                    d.set(mm, x, None)
            o.wrote(mm)
        return bfn("set.update", upd)
    if name in ("discard", "remove"):
        def rm(mm, a, k):
            if not d.delete(mm, a[0]) and name == "remove":
                raise mm.exc("KeyError", a[0])
            o.wrote(mm)
        return bfn("set." + name, rm)
    if name == "union":
        return bfn("set.union", lambda mm, a, k: ASet(mm, o.items() + elems(mm, a)))
    if name == "intersection":
        return bfn("set.intersection", lambda mm, a, k: mm.binop("&", o, ASet(mm, elems(mm, a))))
    if name == "difference":
        return bfn("set.difference", lambda mm, a, k: mm.binop("-", o, ASet(mm, elems(mm, a))))
    if name == "symmetric_difference":
        return bfn("set.symmetric_difference", lambda mm, a, k: mm.binop("^", o, ASet(mm, elems(mm, a))))
    if name == "copy":
        return bfn("set.copy", lambda mm, a, k: ASet(mm, o.items()))
    if name == "issubset":
        return bfn("set.issubset", lambda mm, a, k: mm.compare("<=", o, ASet(mm, elems(mm, a))))
    if name == "issuperset":
        return bfn("set.issuperset", lambda mm, a, k: mm.compare(">=", o, ASet(mm, elems(mm, a))))
    if name == "isdisjoint":
        return bfn("set.isdisjoint", lambda mm, a, k: not any(d.has(mm, x) for x in elems(mm, a)))
    if name == "clear":
        def clr(mm, a, k):
            d.clear(mm)
            o.wrote(mm)
        return bfn("set.clear", clr)
    if name == "pop":
        def pop(mm, a, k):
            ks = d.keys()
            if not ks:
                raise mm.exc("KeyError", "pop from an empty set")
            x = ks[-1 if mm.setorder else 0]
            d.delete(mm, x)
            o.wrote(mm)
            return x
        return bfn("set.pop", pop)
    if name == "__contains__":
        return bfn("set.contains", lambda mm, a, k: d.has(mm, a[0]))
    if name == "__len__":
        return bfn("set.len", lambda mm, a, k: len(d))
    if hasattr(set, name):
        raise Unsupported("set.%s" % name)
    raise m.exc("AttributeError", "'set' object has no attribute '%s'" % name)


def class_attr(m, cls, name):
    """Attributes of builtin/host classes (unbound methods, __new__, ...)."""
    host = next((c for c in cls.mro if c.host is not None), None)
    if name == "__new__":
        return bfn("__new__", lambda mm, a, k: new_instance(mm, a[0], a[1:], k) if a[0].host is None else construct(mm, a[0], a[1:], k))
    if name == "__init__":
        return bfn("__init__", lambda mm, a, k: baseinit(mm, unbase(a[0]), a[1:], k))
    if name == "__doc__":
        return None
    if name == "__hash__":
        return bfn("__hash__", lambda mm, a, k: HVal(("id", getattr(a[0], "oid", id(a[0])))))
    if name == "__subclasses__":
        raise Unsupported("__subclasses__")
    if host is not None and host.host in (tuple, list, dict, set, str, frozenset) or (host is not None and host.name == "OrderedDict"):
        if host.host is dict and name == "fromkeys":
            return bfn("fromkeys", lambda mm, a, k: ADict(mm, [(x, a[1] if len(a) > 1 else None) for x in mm.iterate(a[0])], ordered=(cls.name == "OrderedDict")))
        if hasattr(host.host, name):
            return bfn("%s.%s" % (host.name, name), lambda mm, a, k: mm.call(builtin_attr(mm, unbase(a[0]), name), a[1:], k))
    if name in ("__eq__", "__ne__", "__repr__", "__str__", "__setattr__", "__getattribute__", "__delattr__", "__reduce__", "__reduce_ex__", "__format__", "__sizeof__", "__dir__", "__init_subclass__", "__subclasshook__"):
        if name == "__setattr__":
            return bfn("object.__setattr__", lambda mm, a, k: a[0].setattr(mm, a[1], a[2]))
        if name == "__eq__":
            return bfn("object.__eq__", lambda mm, a, k: a[0] is a[1] or I.NOTIMPL)
        if name == "__repr__":
            return bfn("object.__repr__", lambda mm, a, k: "<%s object>" % typeof(mm, a[0]).name)
        raise Unsupported("object.%s" % name)
    if cls.host is not None and isinstance(cls.host, type) and hasattr(cls.host, name):
        raise Unsupported("%s.%s" % (cls.name, name))
    return MISSING


def baseinit(m, base, args, kw):
    if isinstance(base, AList) and args:
        base.v[:] = list(m.iterate(args[0]))
    elif isinstance(base, ADict):
        if args:
            dict_update(m, base, args[0])
        for k, v in kw.items():
            base.set(m, k, v)


def instance_attr(m, o, name):
    if name == "__init__" and isinstance(o.base, (AList, ADict)):
        return bfn("__init__", lambda mm, a, k: baseinit(mm, o.base, a, k))
    if o.base is not None:
        try:
            return builtin_attr(m, o.base, name)
        except PyExc:
            return MISSING
    if name == "__new__":
        return class_attr(m, o.cls, name)
    if name in ("__init__",):
        def ini(mm, a, k):
            if o.cls.issub(mm.types["BaseException"]):
                o.attrs["args"] = tuple(a)
        return bfn("__init__", ini)
    if name == "__repr__" or name == "__str__":
        return bfn(name, lambda mm, a, k: repr_(mm, o))
    if name == "__eq__":
        return bfn(name, lambda mm, a, k: True if a[0] is o else I.NOTIMPL)
    if name == "__ne__":
        return bfn(name, lambda mm, a, k: not mm.truth(mm.compare("==", o, a[0])))
    if name == "__hash__":
        return bfn(name, lambda mm, a, k: HVal(mm.hashkey(o)))
    if name == "__setattr__":
        return bfn(name, lambda mm, a, k: o.setattr(mm, a[0], a[1]))
    if name == "__doc__":
        return None
    return MISSING


def hostattr(m, o, name):
    h = o.o
    if isinstance(h, (_ast.AST, type)):
        if not hasattr(h, name):
            # modern Python has removed some deprecated ast attributes/classes
            if isinstance(h, _ast.Constant) and name in ("n", "s"):
                return wraphost(m, h.value)
            raise m.exc("AttributeError", "%s has no attribute %s" % (type(h).__name__, name))
        if isinstance(h, type) and name == "__name__":
            return h.__name__
        return wraphost(m, getattr(h, name))
    if hasattr(h, name):
        v = getattr(h, name)
        if callable(v):
            def f(mm, a, k):
                if not all(isinstance(x, I.CONST) for x in a):
                    raise Unsupported("host method %s" % name)
                return wraphost(mm, mm.host(v, *a, **k))
            return bfn(name, f)
        return wraphost(m, v)
    raise m.exc("AttributeError", name)


def wraphost(m, v):
    if isinstance(v, I.CONST):
        return v
    if isinstance(v, list):
        return AList(m, [wraphost(m, x) for x in v])
    if isinstance(v, tuple):
        return tuple(wraphost(m, x) for x in v)
    if isinstance(v, dict):
        return ADict(m, [(wraphost(m, k), wraphost(m, x)) for k, x in v.items()])
    return HostObj(v)


def unwrap(m, v):
    if isinstance(v, HostObj):
        return v.o
    if isinstance(v, AList):
        return [unwrap(m, x) for x in v.v]
    if isinstance(v, tuple):
        return tuple(unwrap(m, x) for x in v)
    if isinstance(v, I.CONST):
        return v
    raise Unsupported("host argument %r" % (v,))


def getitem(m, o, k):
    if isinstance(o, range):
        if isinstance(k, slice):
            return o[m.hostslice(k)]
        return m.host(lambda: o[m.index(k)])
    if isinstance(o, AttrDict):
        if k in o.o.attrs:
            return o.o.attrs[k]
        raise m.exc("KeyError", k)
    if isinstance(o, NP.NpCRow):
        return o
    if isinstance(o, BFn) and "__getitem__" in o.attrs:
        return m.call(o.attrs["__getitem__"], [k], {})
    if isinstance(o, HostObj) and hasattr(o.o, "__getitem__"):
        return wraphost(m, m.host(lambda: o.o[k]))
    raise m.exc("TypeError", "'%s' object is not subscriptable" % typeof(m, o).name)


def iterate(m, v):
    if isinstance(v, View):
        return _iterview(m, v)
    if isinstance(v, AttrDict):
        return iter(list(v.o.attrs))
    if isinstance(v, HostObj) and hasattr(v.o, "__iter__"):
        return iter([wraphost(m, x) for x in v.o])
    return None


def _iterview(m, v):
    n = len(v.d.ent)
    for k in list(v.d.ent):
        if len(v.d.ent) != n:
            raise m.exc("RuntimeError", "dictionary changed size during iteration")
        if k in v.d.ent:
            e = v.d.ent[k]
            yield e[0] if v.kind == "keys" else e[1] if v.kind == "values" else (e[0], e[1])


def next_(m, args, kw):
    o = args[0]
    if isinstance(o, AIter):
        try:
            return next(o.it)
        except StopIteration:
            if len(args) > 1:
                return args[1]
            raise m.exc("StopIteration")
    if isinstance(o, AObj):
        f = o.cls.lookup("__next__")
        if f is not None:
            try:
                return m.call(m.bind(f, o), [], {})
            except PyExc as e:
                if e.name == "StopIteration" and len(args) > 1:
                    return args[1]
                raise
    raise m.exc("TypeError", "object is not an iterator")


# ------------------------------------------------------------------ builtin functions

def len_(m, v):
    if isinstance(v, (str, bytes, tuple, range)):
        return len(v)
    if isinstance(v, AList):
        return len(v.v)
    if isinstance(v, (ADict, ASet)):
        return len(v)
    if isinstance(v, View):
        return len(v.d)
    if isinstance(v, AttrDict):
        return len(v.o.attrs)
    if isinstance(v, NP.NDArr):
        if v.shape == ():
            raise m.exc("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, AObj):
        f = v.cls.lookup("__len__")
        if f is not None:
            return m.call(m.bind(f, v), [], {})
        if v.base is not None:
            return len_(m, v.base)
    raise m.exc("TypeError", "object of type '%s' has no len()" % typeof(m, v).name)


def make_builtins(m):
    b = dict(m.types)
    for k in list(b):
        if "." in k or k in ("OrderedDict", "NoneType", "function", "method", "module", "generator", "ellipsis", "builtin_function_or_method", "NotImplementedType", "hostobject", "ndarray", "MaskedArray", "MaskedConstant", "ufunc", "dtype"):
            del b[k]
    b["None"], b["True"], b["False"], b["NotImplemented"], b["Ellipsis"], b["__debug__"] = None, True, False, I.NOTIMPL, Ellipsis, True

    def reg(name):
        def d(f):
            b[name] = BFn(name, f)
            return f
        return d

    reg("len")(lambda m, a, k: len_(m, a[0]))
    reg("isinstance")(lambda m, a, k: isinstance_(m, a[0], a[1]))
    reg("issubclass")(lambda m, a, k: issubclass_(m, a[0], a[1]))
    reg("repr")(lambda m, a, k: repr_(m, a[0]))
    reg("hash")(lambda m, a, k: HVal(m.hashkey(a[0])))
    reg("id")(lambda m, a, k: getattr(a[0], "oid", None) or id(a[0]))
    reg("callable")(lambda m, a, k: isinstance(a[0], (AFunc, BFn, Bound, AClass, NP.UFunc)) or (isinstance(a[0], AObj) and a[0].cls.lookup("__call__") is not None))
    reg("hasattr")(lambda m, a, k: m.hasattr(a[0], a[1]))

    @reg("getattr")
    def getattr_(m, a, k):
        if len(a) > 2:
            try:
                return m.getattr(a[0], a[1])
            except PyExc as e:
                if e.name == "AttributeError":
                    return a[2]
                raise
        return m.getattr(a[0], a[1])
    reg("setattr")(lambda m, a, k: m.setattr(a[0], a[1], a[2]))

    @reg("delattr")
    def delattr_(m, a, k):
        o = a[0]
        if a[1] not in o.attrs:
            raise m.exc("AttributeError", a[1])
        del o.attrs[a[1]]
        o.wrote(m)

    @reg("vars")
    def vars_(m, a, k):
        return m.getattr(a[0], "__dict__")
    reg("all")(lambda m, a, k: all(m.truth(x) for x in m.iterate(a[0])))
    reg("any")(lambda m, a, k: any(m.truth(x) for x in m.iterate(a[0])))
    reg("sorted")(lambda m, a, k: AList(m, sort_(m, list(m.iterate(a[0])), k)))

    @reg("reversed")
    def reversed_(m, a, k):
        v = a[0]
        if isinstance(v, AObj):
            f = v.cls.lookup("__reversed__")
            if f is not None:
                return m.call(m.bind(f, v), [], {})
        return AIter(iter(list(m.iterate(v))[::-1]))
    reg("enumerate")(lambda m, a, k: AIter(_enum(m, a[0], a[1] if len(a) > 1 else k.get("start", 0))))
    reg("zip")(lambda m, a, k: AIter(_zip(m, a, k)))
    reg("map")(lambda m, a, k: AIter(_map(m, a)))
    reg("filter")(lambda m, a, k: AIter(_filter(m, a)))
    reg("iter")(lambda m, a, k: AIter(m.iterate(a[0])))
    reg("next")(next_)

    @reg("sum")
    def sum_(m, a, k):
        s = a[1] if len(a) > 1 else k.get("start", 0)
        for x in m.iterate(a[0]):
            s = m.binop("+", s, x)
        return s

    def minmax(op):
        def f(m, a, k):
            items = list(a) if len(a) > 1 else list(m.iterate(a[0]))
            if not items:
                if "default" in k:
                    return k["default"]
                raise m.exc("ValueError", "arg is an empty sequence")
            key = k.get("key")
            best = items[0]
            bk = best if key is None else m.call(key, [best], {})
            for x in items[1:]:
                xk = x if key is None else m.call(key, [x], {})
                if m.truth(m.compare(op, xk, bk)):
                    best, bk = x, xk
            return best
        return f
    reg("min")(minmax("<"))
    reg("max")(minmax(">"))

    @reg("abs")
    def abs_(m, a, k):
        v = a[0]
        if isinstance(v, AObj):
            f = v.cls.lookup("__abs__")
            if f is not None:
                return m.call(m.bind(f, v), [], {})
        if isinstance(v, NP.NDArr):
            return NP.call_ufunc(m, NP.UFUNCS["absolute"], [v], {})
        return NP.sun(m, "absolute", v)

    @reg("round")
    def round_(m, a, k):
        v = a[0]
        nd = a[1] if len(a) > 1 else k.get("ndigits")
        if isinstance(v, I.CONST):
            return m.host(round, v, nd) if nd is not None else m.host(round, v)
        if isinstance(v, Rng) and nd is None:
            return v.rint()
        if isinstance(v, Poly):
            return Poly("rint", (v,), isint=True) if nd is None else Poly("round%d" % nd, (v,))
        raise Unsupported("round of %r" % (v,))

    @reg("pow")
    def pow_(m, a, k):
        return m.binop("**", a[0], a[1])

    @reg("divmod")
    def divmod_(m, a, k):
        return (m.binop("//", a[0], a[1]), m.binop("%", a[0], a[1]))
    reg("print")(lambda m, a, k: None)
    reg("globals")(lambda m, a, k: None)
    reg("locals")(lambda m, a, k: None)
    reg("ord")(lambda m, a, k: m.host(ord, a[0]))
    reg("chr")(lambda m, a, k: m.host(chr, a[0]))
    reg("bin")(lambda m, a, k: m.host(bin, a[0]))
    reg("hex")(lambda m, a, k: m.host(hex, a[0]))
    reg("oct")(lambda m, a, k: m.host(oct, a[0]))
    reg("format")(lambda m, a, k: format_(m, a[0], a[1] if len(a) > 1 else ""))

    @reg("__import__")
    def imp(m, a, k):
        return m.import_(a[0])
    return b


def _enum(m, v, start):
    i = start
    for x in m.iterate(v):
        yield (i, x)
        i += 1


def _zip(m, a, k):
    its = [m.iterate(x) for x in a]
    if not its:
        return
    while True:
        row = []
        for i, it in enumerate(its):
            try:
                row.append(next(it))
            except StopIteration:
                if k.get("strict") and i > 0:
                    raise m.exc("ValueError", "zip() arguments have different lengths")
                return
        yield tuple(row)


def _map(m, a):
    its = [m.iterate(x) for x in a[1:]]
    while True:
        row = []
        for it in its:
            try:
                row.append(next(it))
            except StopIteration:
                return
        yield m.call(a[0], row, {})


def _filter(m, a):
    for x in m.iterate(a[1]):
        if m.truth(x if a[0] is None else m.call(a[0], [x], {})):
            yield x


# ------------------------------------------------------------------ modules

MUTABLEMAPPING_SRC = '''
class Mapping(object):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True
    def keys(self):
        return [k for k in self]
    def items(self):
        return [(k, self[k]) for k in self]
    def values(self):
        return [self[k] for k in self]
    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())
    __hash__ = None

class MutableMapping(Mapping):
    __marker = object()
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if len(default) == 0:
                raise
            return default[0]
        else:
            del self[key]
            return value
    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError
        value = self[key]
        del self[key]
        return key, value
    def clear(self):
        try:
            while True:
                self.popitem()
        except KeyError:
            pass
    def update(self, other=(), **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        self.default_factory = default_factory
    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        value = self.default_factory()
        self[key] = value
        return value
    def copy(self):
        return defaultdict(self.default_factory, self)

class Counter(dict):
    def __init__(self, *args, **kwargs):
        dict.__init__(self)
        self.update(*args, **kwargs)
    def __missing__(self, key):
        return 0
    def update(self, *args, **kwargs):
        for x in args:
            if isinstance(x, dict):
                for k, v in x.items():
                    self[k] = self[k] + v
            else:
                for k in x:
                    self[k] = self[k] + 1
        for k, v in kwargs.items():
            self[k] = self[k] + v
    def elements(self):
        for k, v in self.items():
            for i in range(v):
                yield k

class deque(object):
    def __init__(self, iterable=(), maxlen=None):
        if maxlen is not None:
            raise NotImplementedError
        self._v = list(iterable)
    def append(self, x):
        self._v.append(x)
    def appendleft(self, x):
        self._v.insert(0, x)
    def pop(self):
        return self._v.pop()
    def popleft(self):
        return self._v.pop(0)
    def extend(self, xs):
        self._v.extend(xs)
    def extendleft(self, xs):
        for x in xs:
            self._v.insert(0, x)
    def clear(self):
        del self._v[:]
    def remove(self, x):
        self._v.remove(x)
    def reverse(self):
        self._v.reverse()
    def rotate(self, n=1):
        if len(self._v) > 0:
            n = n % len(self._v)
            self._v = self._v[len(self._v) - n:] + self._v[:len(self._v) - n]
    def __len__(self):
        return len(self._v)
    def __iter__(self):
        return iter(self._v)
    def __getitem__(self, i):
        return self._v[i]
    def __setitem__(self, i, x):
        self._v[i] = x
    def __contains__(self, x):
        return x in self._v
    def __reversed__(self):
        return reversed(self._v)
    def __eq__(self, other):
        return isinstance(other, deque) and self._v == other._v
    def __ne__(self, other):
        return not self == other
'''


FUNCTOOLSSRC = '''
def _cached(f):
    memo = {}
    def wrapper(*args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        if key not in memo:
            memo[key] = f(*args, **kwargs)
        return memo[key]
    return wrapper
def cache(f):
    return _cached(f)
def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached
def cmp_to_key(mycmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj
        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0
        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0
        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0
        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0
        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0
    return K
def total_ordering(cls):
    roots = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in cls.__dict__]
    root = roots[0]
    if root == "__lt__":
        new = {"__gt__": lambda self, other: not (self < other) and self != other, "__le__": lambda self, other: self < other or self == other, "__ge__": lambda self, other: not (self < other)}
    elif root == "__le__":
        new = {"__ge__": lambda self, other: not (self <= other) or self == other, "__lt__": lambda self, other: self <= other and not self == other, "__gt__": lambda self, other: not (self <= other)}
    elif root == "__gt__":
        new = {"__lt__": lambda self, other: not (self > other or self == other), "__ge__": lambda self, other: self > other or self == other, "__le__": lambda self, other: not (self > other)}
    else:
        new = {"__le__": lambda self, other: not (self >= other) or self == other, "__gt__": lambda self, other: self >= other and not self == other, "__lt__": lambda self, other: not (self >= other)}
    for n, f in new.items():
        if n not in roots:
            setattr(cls, n, f)
    return cls
'''
CONTEXTSRC = '''
class _GeneratorContextManager(object):
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return next(self.gen)
    def __exit__(self, kind, value, tb):
        if kind is None:
            for x in self.gen:
                raise RuntimeError("generator didn't stop")
            return False
        try:
            self.gen.throw(value)
        except StopIteration:
            return True
        except BaseException as e:
            if e is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")
def contextmanager(f):
    def helper(*args, **kwargs):
        return _GeneratorContextManager(f(*args, **kwargs))
    return helper
class suppress(object):
    def __init__(self, *kinds):
        self.kinds = kinds
    def __enter__(self):
        return None
    def __exit__(self, kind, value, tb):
        return kind is not None and issubclass(kind, self.kinds)
class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *exc):
        return None
'''
ASTSRC = '''
class NodeVisitor(object):
    def visit(self, node):
        return getattr(self, "visit_" + node.__class__.__name__, self.generic_visit)(node)
    def generic_visit(self, node):
        for field, value in iter_fields(node):
            if isinstance(value, list):
                for item in value:
                    if isinstance(item, AST):
                        self.visit(item)
            elif isinstance(value, AST):
                self.visit(value)
'''


def srcmodule(m, name, src, extra=None):
    mod = AMod(name, {"__name__": name})
    if extra:
        mod.ns.update(extra)
    old, m.loading = m.loading, True
    of = m.frame
    m.frame = I.Frame("<model:%s>" % name, "<module>", 1, mod, of)
    sc = I.Scope(None, mod)
    sc.vars = mod.ns
    try:
        m.exec_block(_ast.parse(src).body, sc)
    finally:
        m.loading = old
        m.frame = of
    return mod


def deepcopy(m, v, memo=None, deep=True):
    memo = {} if memo is None else memo
    if isinstance(v, AObj):
        f = v.cls.lookup("__deepcopy__" if deep else "__copy__")
        if f is not None:
            return m.call(m.bind(f, v), [ADict(m)] if deep else [], {})
        if v.oid in memo:
            return memo[v.oid]
        gs = v.cls.lookup("__getstate__")
        ss = v.cls.lookup("__setstate__")
        o = AObj(m, v.cls, v.base if not deep else deepcopy(m, v.base, memo))
        memo[v.oid] = o
        if isinstance(gs, AFunc):
            state = m.call(gs, [v], {})
            if deep:
                state = deepcopy(m, state, memo)
            if isinstance(ss, AFunc):
                m.call(ss, [o, state], {})
            else:
                for k, x in state.items():
                    o.attrs[k] = x
            return o
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(m, x, memo) if deep else x
        return o
    rec = (lambda x: deepcopy(m, x, memo)) if deep else (lambda x: x)
    if isinstance(v, tuple):
        return tuple(rec(x) for x in v)
    if isinstance(v, (AList, ADict, ASet, NP.NDArr)) and v.oid in memo:
        return memo[v.oid]
    if isinstance(v, AList):
        o = AList(m, ())
        memo[v.oid] = o
        o.v.extend(rec(x) for x in v.v)
        return o
    if isinstance(v, ADict):
        o = ADict(m, (), v.ordered)
        memo[v.oid] = o
        for k, x in v.items():
            o.set(m, rec(k), rec(x), init=True)
        return o
    if isinstance(v, ASet):
        return ASet(m, [rec(x) for x in v.items()], v.frozen)
    if isinstance(v, NP.NDArr):
        o = v.copy(m)
        memo[v.oid] = o
        return o
    if isinstance(v, (AFunc, BFn, AClass, AMod)) or isinstance(v, I.CONST) or isinstance(v, (Poly, Rng, HVal, slice, HostObj, NP.Masked, NP.DType)):
        return v
    raise Unsupported("deepcopy of %r" % (v,))


def hostfn(mod, name):
    f = getattr(mod, name)

    def call(m, a, k):
        a = [unbase(x) for x in a]
        a = [NP.scalar(m, x) if isinstance(x, NP.NDArr) and x.shape == () else x for x in a]
        if all(isinstance(x, I.CONST) for x in a):
            return m.host(f, *a, **k)
        if mod is _math:
            return NP.mathfn(m, name, a)
        raise Unsupported("%s.%s on abstract value" % (mod.__name__, name))
    return BFn("%s.%s" % (mod.__name__, name), call)


_MODCACHE = {}


def make_module(m, name):
    t = m.types
    if name == "numpy":
        return NP.make_module(m)
    if name in ("numpy.ma",):
        return m.getattr(m.import_("numpy"), "ma")
    if name == "math":
        ns = {}
        for n in dir(_math):
            if n.startswith("_"):
                continue
            v = getattr(_math, n)
            ns[n] = v if isinstance(v, float) else hostfn(_math, n)

        def mattr(mm, n):
            raise mm.exc("AttributeError", "module 'math' has no attribute '%s'" % n)
        return AMod("math", ns, attr=mattr)
    if name == "numbers":
        return AMod("numbers", dict((n, t["numbers." + n]) for n in ("Number", "Complex", "Real", "Rational", "Integral")))
    if name == "sys":
        def modules(mm, a, k):
            return None

        class _Mods(object):
            pass
        getm = BFn("sys.modules.__getitem__", lambda mm, a, k: mm.import_(a[0]))
        gget = BFn("sys.modules.get", lambda mm, a, k: mm.modules.get(a[0], a[1] if len(a) > 1 else None))
        return AMod("sys", {"version_info": (3, 9, 18, "final", 0), "maxsize": 2 ** 63 - 1, "version": "3.9.18", "platform": "linux",
                            "modules": BFn("sys.modules", None, {"__getitem__": getm, "get": gget}),
                            "stdout": HostObj(None), "stderr": HostObj(None), "getrecursionlimit": BFn("grl", lambda mm, a, k: 1000),
                            "float_info": HostObj(__import__("sys").float_info)})
    if name in ("collections", "collections.abc"):
        mod = srcmodule(m, name, MUTABLEMAPPING_SRC)
        mod.ns["OrderedDict"] = t["OrderedDict"]
        mod.ns["abc"] = mod

        def namedtuple(mm, a, k):
            fields = a[1].replace(",", " ").split() if isinstance(a[1], str) else [x for x in mm.iterate(a[1])]
            cls = AClass(mm, a[0], [t["tuple"]], {"_fields": tuple(fields)})
            for i, f in enumerate(fields):
                cls.ns[f] = Prop(BFn(f, lambda m2, a2, k2, i=i: a2[0].base[i]))

            def new(m2, a2, k2):
                vals = list(a2[1:])
                for f in fields[len(vals):]:
                    if f not in k2:
                        raise m2.exc("TypeError", "missing argument " + f)
                    vals.append(k2[f])
                o = AObj(m2, a2[0], tuple(vals))
                return o
            cls.ns["__new__"] = StaticM(BFn("__new__", new))
            cls.ns["_asdict"] = BFn("_asdict", lambda m2, a2, k2: ADict(m2, list(zip(fields, a2[0].base))))
            cls.ns["_replace"] = BFn("_replace", lambda m2, a2, k2: AObj(m2, a2[0].cls, tuple(k2.get(f, v) for f, v in zip(fields, a2[0].base))))
            cls.ns["_make"] = ClassM(BFn("_make", lambda m2, a2, k2: AObj(m2, a2[0], tuple(m2.iterate(a2[1])))))
            if k:
                raise Unsupported("namedtuple options")
            return cls
        mod.ns["namedtuple"] = BFn("namedtuple", namedtuple)

        def attr(mm, n):
            if n in ("Sized", "Iterable", "Container", "Hashable", "Callable", "Sequence"):
                raise Unsupported("collections.%s" % n)
            return MISSING
        mod.attr = attr
        return mod
    if name == "functools":
        def reduce_(mm, a, k):
            it = mm.iterate(a[1])
            if len(a) > 2:
                acc = a[2]
            else:
                try:
                    acc = next(it)
                except StopIteration:
                    raise mm.exc("TypeError", "reduce() of empty sequence with no initial value")
            for x in it:
                acc = mm.call(a[0], [acc, x], {})
            return acc

        def partial(mm, a, k):
            return BFn("partial", lambda m2, a2, k2: m2.call(a[0], list(a[1:]) + list(a2), dict(k, **k2)))
        ident = BFn("wraps", lambda mm, a, k: BFn("wraps2", lambda m2, a2, k2: a2[0]))
        src = srcmodule(m, "functools", FUNCTOOLSSRC)
        return AMod("functools", {"reduce": BFn("reduce", reduce_), "partial": BFn("partial", partial), "wraps": ident, "total_ordering": src.ns["total_ordering"], "cmp_to_key": src.ns["cmp_to_key"],
                                  "lru_cache": src.ns["lru_cache"], "cache": src.ns["cache"]})
    if name == "itertools":
        def product(mm, a, k):
            pools = [list(mm.iterate(x)) for x in a] * k.get("repeat", 1)
            return AIter(iter(_itertools.product(*pools)))

        def chain(mm, a, k):
            def g():
                for x in a:
                    for y in mm.iterate(x):
                        yield y
            return AIter(g())

        def from_iterable(mm, a, k):
            def g():
                for x in mm.iterate(a[0]):
                    for y in mm.iterate(x):
                        yield y
            return AIter(g())

        def islice(mm, a, k):
            return AIter(_itertools.islice(mm.iterate(a[0]), *a[1:]))

        def accumulate(mm, a, k):
            def g():
                acc = MISSING
                for x in mm.iterate(a[0]):
                    acc = x if acc is MISSING else (mm.call(a[1], [acc, x], {}) if len(a) > 1 else mm.binop("+", acc, x))
                    yield acc
            return AIter(g())

        def groupby_(mm, a, k):
            key = k.get("key", a[1] if len(a) > 1 else None)

            def g():
                cur, items = MISSING, []
                for x in mm.iterate(a[0]):
                    kx = x if key is None else mm.call(key, [x], {})
                    if cur is not MISSING and mm.truth(mm.compare("==", cur, kx)):
                        items.append(x)
                    else:
                        if cur is not MISSING:
                            yield (cur, AIter(iter(items)))
                        cur, items = kx, [x]
                if cur is not MISSING:
                    yield (cur, AIter(iter(items)))
            return AIter(g())

        def compress(mm, a, k):
            return AIter(x for x, c in zip(mm.iterate(a[0]), mm.iterate(a[1])) if mm.truth(c))

        def filterfalse(mm, a, k):
            return AIter(x for x in mm.iterate(a[1]) if not mm.truth(x if a[0] is None else mm.call(a[0], [x], {})))

        def pairwise(mm, a, k):
            return AIter(iter(_itertools.pairwise(mm.iterate(a[0]))))

        def tee(mm, a, k):
            items = list(mm.iterate(a[0]))
            return tuple(AIter(iter(items)) for _ in range(a[1] if len(a) > 1 else 2))

        def starmap(mm, a, k):
            return AIter(mm.call(a[0], list(mm.iterate(x)), {}) for x in mm.iterate(a[1]))

        def takewhile(mm, a, k):
            return AIter(_itertools.takewhile(lambda x: mm.truth(mm.call(a[0], [x], {})), mm.iterate(a[1])))

        def dropwhile(mm, a, k):
            return AIter(_itertools.dropwhile(lambda x: mm.truth(mm.call(a[0], [x], {})), mm.iterate(a[1])))

        def zip_longest(mm, a, k):
            return AIter(_itertools.zip_longest(*[mm.iterate(x) for x in a], fillvalue=k.get("fillvalue")))
        simple = {}
        for n in ("combinations", "permutations"):
            simple[n] = BFn(n, lambda mm, a, k, n=n: AIter(getattr(_itertools, n)(list(mm.iterate(a[0])), *a[1:])))
        simple.update({"product": BFn("product", product), "chain": BFn("chain", chain, {"from_iterable": BFn("from_iterable", from_iterable)}),
                       "groupby": BFn("groupby", groupby_), "compress": BFn("compress", compress), "filterfalse": BFn("filterfalse", filterfalse), "tee": BFn("tee", tee),
                       "islice": BFn("islice", islice), "count": BFn("count", lambda mm, a, k: AIter(_itertools.count(*a))),
                       "repeat": BFn("repeat", lambda mm, a, k: AIter(_itertools.repeat(*a, **k))), "starmap": BFn("starmap", starmap),
                       "accumulate": BFn("accumulate", accumulate), "takewhile": BFn("takewhile", takewhile), "dropwhile": BFn("dropwhile", dropwhile),
                       "zip_longest": BFn("zip_longest", zip_longest), "cycle": BFn("cycle", lambda mm, a, k: AIter(_itertools.cycle(list(mm.iterate(a[0])))))})
        return AMod("itertools", simple)
    if name == "operator":
        ns = {}
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("or_", "|"), ("and_", "&"), ("xor", "^")):
            ns[n] = BFn(n, lambda mm, a, k, op=op: mm.binop(op, a[0], a[1]))
        for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            ns[n] = BFn(n, lambda mm, a, k, op=op: mm.compare(op, a[0], a[1]))
        ns["iadd"] = BFn("iadd", lambda mm, a, k: mm.inplace(_ast.Add(), a[0], a[1]))
        ns["imul"] = BFn("imul", lambda mm, a, k: mm.inplace(_ast.Mult(), a[0], a[1]))
        ns["not_"] = BFn("not_", lambda mm, a, k: not mm.truth(a[0]))
        ns["neg"] = BFn("neg", lambda mm, a, k: mm.unary("-", a[0]))
        ns["getitem"] = BFn("getitem", lambda mm, a, k: mm.getitem(a[0], a[1]))
        ns["contains"] = BFn("contains", lambda mm, a, k: mm.contains(a[0], a[1]))
        ns["is_"] = BFn("is_", lambda mm, a, k: mm.is_(a[0], a[1]))

        def itemgetter(mm, a, k):
            if len(a) == 1:
                return BFn("itemgetter", lambda m2, a2, k2: m2.getitem(a2[0], a[0]))
            return BFn("itemgetter", lambda m2, a2, k2: tuple(m2.getitem(a2[0], x) for x in a))

        def attrgetter(mm, a, k):
            def one(m2, o, path):
                for p in path.split("."):
                    o = m2.getattr(o, p)
                return o
            if len(a) == 1:
                return BFn("attrgetter", lambda m2, a2, k2: one(m2, a2[0], a[0]))
            return BFn("attrgetter", lambda m2, a2, k2: tuple(one(m2, a2[0], x) for x in a))
        ns["itemgetter"] = BFn("itemgetter", itemgetter)
        ns["attrgetter"] = BFn("attrgetter", attrgetter)
        return AMod("operator", ns)
    if name == "ast":
        def aattr(mm, n):
            if n in ("Num", "Str", "NameConstant", "Bytes", "Ellipsis", "Index", "ExtSlice"):
                return _legacy(n)
            v = getattr(_ast, n, None)
            if isinstance(v, type):
                def new(m2, a, k, v=v):
                    return HostObj(v(*[unwrap(m2, x) for x in a], **dict((kk, unwrap(m2, x)) for kk, x in k.items())))
                return HostType(v, new)
            return MISSING

        def parse(mm, a, k):
            if isinstance(a[0], AObj) and isinstance(a[0].base, str):
                a = [a[0].base] + list(a[1:])
            if not isinstance(a[0], str):
                raise mm.exc("TypeError", "compile() arg 1 must be a string, bytes or AST object")
            try:
                return HostObj(_ast.parse(a[0], mode=k.get("mode", "exec")))
            except SyntaxError as e:
                raise mm.exc("SyntaxError", str(e))
        def fields(mm, a, k):
            n = a[0].o
            return AList(mm, [(f, wraphost(mm, getattr(n, f))) for f in n._fields if hasattr(n, f)])

        def children(mm, a, k):
            return AList(mm, [HostObj(x) for x in _ast.iter_child_nodes(a[0].o)])

        def walk(mm, a, k):
            return AList(mm, [HostObj(x) for x in _ast.walk(a[0].o)])

        def literal(mm, a, k):
            v = a[0].o if isinstance(a[0], HostObj) else a[0]
            if not isinstance(v, (str, _ast.AST)):
                raise mm.exc("ValueError", "malformed node or string")
            try:
                return wraphost(mm, _ast.literal_eval(v))
            except Exception as e:
                raise mm.exc(type(e).__name__ if type(e).__name__ in mm.types else "ValueError", str(e))
        ns = {"parse": BFn("ast.parse", parse), "iter_fields": BFn("ast.iter_fields", fields), "iter_child_nodes": BFn("ast.iter_child_nodes", children),
              "walk": BFn("ast.walk", walk), "literal_eval": BFn("ast.literal_eval", literal),
              "dump": BFn("ast.dump", lambda mm, a, k: _ast.dump(a[0].o, *a[1:], **k))}
        src = srcmodule(m, "ast", ASTSRC, dict(ns, AST=aattr(m, "AST")))
        ns["NodeVisitor"] = src.ns["NodeVisitor"]
        return AMod("ast", ns, attr=aattr)
    if name == "fnmatch":
        return AMod("fnmatch", {"fnmatchcase": hostfn(_fnmatch, "fnmatchcase"), "fnmatch": hostfn(_fnmatch, "fnmatch"), "translate": hostfn(_fnmatch, "translate"),
                                "filter": BFn("fnmatch.filter", lambda mm, a, k: AList(mm, [x for x in mm.iterate(a[0]) if _fnmatch.fnmatchcase(x, a[1])]))})
    if name == "re":
        import re as _re

        def rattr(mm, n):
            v = getattr(_re, n, None)
            if v is None:
                return MISSING
            if callable(v):
                def call(m2, a, k):
                    if not all(isinstance(x, I.CONST + (HostObj,)) for x in a):
                        raise Unsupported("re." + n)
                    return wraphost(m2, m2.host(v, *[unwrap(m2, x) for x in a], **k))
                return BFn("re." + n, call)
            return wraphost(mm, v)
        return AMod("re", {}, attr=rattr)
    if name in ("pickle",):
        def dumps(mm, a, k):
            check_picklable(mm, a[0])
            return Pickled(a[0], mm)

        def loads(mm, a, k):
            return deepcopy(mm, a[0].attrs["v"])
        return AMod("pickle", {"dumps": BFn("dumps", dumps), "loads": BFn("loads", loads), "HIGHEST_PROTOCOL": 5, "PicklingError": t["ValueError"]})
    if name == "copy":
        return AMod("copy", {"copy": BFn("copy", lambda mm, a, k: deepcopy(mm, a[0], deep=False)), "deepcopy": BFn("deepcopy", lambda mm, a, k: deepcopy(mm, a[0]))})
    if name == "json":
        return AMod("json", {"dumps": BFn("dumps", lambda mm, a, k: Pickled(jsonify(mm, a[0]), mm)), "loads": BFn("loads", lambda mm, a, k: deepcopy(mm, a[0].attrs["v"]))})
    if name in ("threading", "types", "tokenize", "os", "os.path", "warnings", "__future__", "abc", "contextlib", "string", "datetime", "time", "random", "bisect", "struct", "io", "textwrap", "typing", "enum", "heapq", "inspect", "traceback", "logging", "decimal", "fractions", "statistics", "weakref", "uuid", "hashlib", "base64"):
        ns = {}
        if name == "types":
            ns = {"FunctionType": t["function"], "LambdaType": t["function"], "MethodType": t["method"], "ModuleType": t["module"], "GeneratorType": t["generator"], "BuiltinFunctionType": t["builtin_function_or_method"]}
        if name == "bisect":
            def bis(right):
                def f(mm, a, k):
                    seq = list(mm.iterate(a[0]))
                    lo = 0
                    for x in seq:
                        c = mm.compare("<=" if right else "<", x, a[1])
                        if mm.truth(c):
                            lo += 1
                        else:
                            break
                    return lo
                return f
            ns = {"bisect_left": BFn("bisect_left", bis(False)), "bisect_right": BFn("bisect_right", bis(True)), "bisect": BFn("bisect", bis(True))}
        if name == "contextlib":
            ns = srcmodule(m, "contextlib", CONTEXTSRC).ns
        if name == "warnings":
            ns = {"warn": BFn("warn", lambda mm, a, k: None)}
        if name == "threading":
            def lock(mm, a, k):
                return HostObj("lock")
            ns = {}
        if name == "string":
            ns = {n: getattr(_string, n) for n in ("ascii_letters", "digits", "ascii_lowercase", "ascii_uppercase")}
        return AMod(name, ns)
    return None


def Pickled(v, m):
    b = BFn("pickled", None, {"v": deepcopy(m, v) if not isinstance(v, AObj) else v})
    return b


def check_picklable(m, v):
    if isinstance(v, (AFunc, AIter)):
        raise m.exc("TypeError", "cannot pickle")
    if isinstance(v, tuple):
        for x in v:
            check_picklable(m, x)
    if isinstance(v, AList):
        for x in v.v:
            check_picklable(m, x)


def jsonify(m, v):
    """Value after a JSON text round trip (tuples become lists, keys become strings)."""
    if isinstance(v, I.NPFloat):
        return float(v)
    if isinstance(v, I.NPInt):
        raise m.exc("TypeError", "Object of type int64 is not JSON serializable")
    if isinstance(v, (Poly, Rng)) or v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, tuple):
        return AList(m, [jsonify(m, x) for x in v])
    if isinstance(v, AList):
        return AList(m, [jsonify(m, x) for x in v.v])
    if isinstance(v, ADict):
        out = []
        for k, x in v.items():
            if isinstance(k, str):
                kk = k
            elif k is True or k is False or k is None:
                kk = {True: "true", False: "false", None: "null"}[k]
            elif isinstance(k, (int, float)):
                kk = repr(k)
            else:
                raise m.exc("TypeError", "keys must be str, int, float, bool or None, not %s" % typeof(m, k).name)
            out.append((kk, jsonify(m, x)))
        return ADict(m, out)
    raise m.exc("TypeError", "Object of type %s is not JSON serializable" % typeof(m, v).name)


class HostType(HostObj):
    __slots__ = ("new",)

    def __init__(self, o, new):
        HostObj.__init__(self, o)
        self.new = new


class _NeverMeta(type):
    def __instancecheck__(cls, o):
        return cls.check(o)


_LEGACY = {}


def _legacy(n):
    if n not in _LEGACY:
        _LEGACY[n] = _legacy1(n)
    return _LEGACY[n]


def _legacy1(n):
    class L(metaclass=_NeverMeta):
        @staticmethod
        def check(o):
            if not isinstance(o, _ast.Constant):
                return False
            if n == "Num":
                return isinstance(o.value, (int, float, complex)) and not isinstance(o.value, bool)
            if n == "Str":
                return isinstance(o.value, str)
            if n == "Bytes":
                return isinstance(o.value, bytes)
            if n == "NameConstant":
                return o.value is None or isinstance(o.value, bool)
            if n == "Ellipsis":
                return o.value is Ellipsis
            return False
    L.__name__ = n
    return HostObj(L)
