"""Abstract model of the part of NumPy that the analysed package uses.

Arrays have a small concrete shape and abstract elements (constants, Poly terms, Rng intervals).
Storage identity (`Buf`) is tracked, so aliasing between arrays is visible to the ownership analysis.
"""
import builtins as _b
import math
import struct
from fractions import Fraction

from .objects import *
from .values import *
from . import values as V


_hostgetattr = _b.getattr


class Masked(object):
    def __repr__(self):
        return "masked"


MASKED = Masked()


class NpCRow(object):
    pass


# --------------------------------------------------------------------------------------- dtypes

class DType(object):
    __slots__ = ("code", "fields")

    def __init__(self, code, fields=None):
        self.code = code
        self.fields = fields

    @property
    def kind(self):
        return self.code[0]

    @property
    def size(self):
        return int(self.code[1:] or 0) if self.code[0] in "iufbc" else 0

    def __eq__(self, o):
        return isinstance(o, DType) and self.code == o.code and self.fields == o.fields

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.code)

    def __repr__(self):
        return "dtype(%s)" % (self.code if self.fields is None else self.fields)


F8, I8, I4, B1, OBJ, STR, BYT, U8 = DType("f8"), DType("i8"), DType("i4"), DType("b1"), DType("O"), DType("U"), DType("S"), DType("u8")
NAMES = {"float": F8, "float64": F8, "double": F8, "int": I8, "int64": I8, "int32": I4, "bool": B1, "bool_": B1, "object": OBJ, "str": STR, "uint64": U8,
         "f8": F8, "i8": I8, "i4": I4, "<f8": F8, "<i4": I4, "<i8": I8, "f4": DType("f4"), "float32": DType("f4"), "f2": DType("f2"), "float16": DType("f2"), "half": DType("f2"), "single": DType("f4"), "<f4": DType("f4"), "<f2": DType("f2"), "i": I4, "f": DType("f4"), "d": F8, "?": B1,
         "int8": DType("i1"), "int16": DType("i2"), "uint8": DType("u1"), "uint16": DType("u2"), "uint32": DType("u4"), "i2": DType("i2"), "i1": DType("i1"), "U": STR, "S": BYT, "O": OBJ}


def todtype(m, v):
    if v is None:
        return F8
    if isinstance(v, DType):
        return v
    if isinstance(v, AClass):
        h = v.host
        if isinstance(h, tuple) and h[0] == "npscalar":
            return DType(h[1])
        n = v.name.replace("np.", "")
        if n in NAMES:
            return NAMES[n]
        if n in ("object_", "object"):
            return OBJ
        if n in ("floating", "number", "inexact"):
            return F8
        if n in ("integer",):
            return I8
        if n in ("str_", "bytes", "bytes_"):
            return STR if n == "str_" else BYT
    if isinstance(v, BFn) and "type" in v.attrs:
        return todtype(m, v.attrs["type"])
    if isinstance(v, str):
        if v in NAMES:
            return NAMES[v]
        if v[:1] in "US" and v[1:].isdigit():
            return DType(v) if int(v[1:]) else DType(v[0])
        if v[:2] in ("<U", "|S"):
            return DType(v[1:]) if v[2:].isdigit() and int(v[2:]) else DType(v[1])
    if isinstance(v, AList):
        out = []
        for f in v.v:
            if not isinstance(f, tuple):
                f = tuple(m.iterate(f))
            name = f[0]
            if not isinstance(name, str):
                raise m.exc("TypeError", "field names must be strings")
            if name in [n for n, _ in out]:
                raise m.exc("ValueError", "field %r occurs more than once" % name)
            out.append((name, todtype(m, f[1])))
        return DType("V", tuple(out))
    raise Unsupported("dtype %r" % (v,))


def dtype_eq(m, a, b):
    try:
        return todtype(m, a) == todtype(m, b)
    except (Unsupported, PyExc):
        return False


def dtype_of(v):
    if isinstance(v, bool) or type(v).__name__ == "Cond":
        return B1
    if isinstance(v, int):
        return I8
    if isinstance(v, (float, Fraction)):
        return F8
    if isinstance(v, (Poly, Rng)):
        return I8 if v.isint else F8
    if isinstance(v, str):
        return STR
    if isinstance(v, bytes):
        return BYT
    if isinstance(v, complex):
        return DType("c16")
    return OBJ


_ORD = {"b": 0, "u": 1, "i": 2, "f": 3, "c": 4, "S": 5, "U": 6, "O": 7, "V": 8}


def promote(a, b):
    if a == b:
        return a
    if a.kind == b.kind:
        if a.kind in "US":                   # texts of an explicit width: the wider, without one they are never cut
            return DType(a.kind) if a.code == a.kind or b.code == b.kind else a if int(a.code[1:]) >= int(b.code[1:]) else b
        return a if a.size >= b.size else b
    ka, kb = a.kind, b.kind
    if _ORD[ka] > _ORD[kb]:
        a, b, ka, kb = b, a, kb, ka
    if kb == "f":
        if ka in "iu" and a.size > 2 and b.size < 8:
            return F8
        if ka in "iu" and a.size == 2 and b.size < 4:
            return DType("f4")
        return b
    if kb == "i" and ka == "u":
        if a.size >= 8:
            return F8
        return b if b.size > a.size else DType("i%d" % (a.size * 2))
    return b


def weak(d, scal, v=None):
    """dtype of array operand d combined with a scalar of dtype scal and value v (value-based casting)."""
    if d.kind in "iu" and scal.kind in "iu":
        if not isinstance(v, int) or isinstance(v, bool):
            return d                # a symbolic integer is taken to be small
        for t in [d] + [DType("%s%d" % (k, z)) for z in (1, 2, 4, 8) for k in (d.kind, "i") if z >= d.size]:
            if d.kind == "u" and t.kind == "i" and t.size <= d.size:
                continue
            lo, hi = (-2 ** (8 * t.size - 1), 2 ** (8 * t.size - 1) - 1) if t.kind == "i" else (0, 2 ** (8 * t.size) - 1)
            if lo <= v <= hi:
                return t
        return F8
    if d.kind == "f" and d.size < 8 and isinstance(v, (int, float)) and not isinstance(v, bool) and v not in (INF, -INF):
        if isinstance(v, int):
            return promote(d, DType("u1" if 0 <= v < 256 else "i1" if -128 <= v < 0 else "i2" if -2 ** 15 <= v < 2 ** 16 else "i4" if -2 ** 31 <= v < 2 ** 32 else "i8"))
        return promote(d, DType("f2") if not abs(v) >= 65520 else DType("f4") if abs(v) < 3.4028236e38 else F8)
    if _ORD[scal.kind] <= _ORD[d.kind]:
        return d
    return scal


# --------------------------------------------------------------------------------------- scalars

def iv(m, r):
    """Current (narrowed) interval of r on this trace partition."""
    b = basetag(r.tag)
    n = m.facts.get(("iv", b))
    if n is None:
        return r
    if r.tag == b:
        return n
    return applytag(r.tag, n)


def rngcmp(m, tag, op, c):
    b = basetag(tag)
    n = m.facts.get(("iv", b))
    if n is None:
        n = Rng(b[2], b[3], m.facts.get(("open", b), (True, True))[0], m.facts.get(("open", b), (True, True))[1], b[4], tag=b)
        o = _OPEN.get(b)
        if o is not None:
            n = Rng(b[2], b[3], o[0], o[1], b[4], tag=b)
    r = applytag(tag, n)
    if not isinstance(r, Rng):
        return hostcmp(op, r, c)
    return r.cmp(op, c)


_OPEN = {}


def assume(m, refine, truth):
    tag, op, c = refine
    if not truth:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    b = basetag(tag)
    n = m.facts.get(("iv", b))
    if n is None:
        o = _OPEN.get(b, (True, True))
        n = Rng(b[2], b[3], o[0], o[1], b[4], tag=b)
    d = pushdown(tag, op, c)
    if d is None:
        return
    r = narrow(n, d[0], d[1])
    if r is not None:
        m.facts[("iv", b)] = r


def mkrng(lo, hi, lo_open=True, hi_open=True, isint=False):
    r = Rng(lo, hi, lo_open, hi_open, isint)
    _OPEN[r.tag] = (r.lo_open, r.hi_open)
    return r


def hostcmp(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return a != b


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def scmp(m, op, a, b):
    Cond = m.Cond
    if isinstance(a, Cond):
        a = m.truth(a)
    if isinstance(b, Cond):
        b = m.truth(b)
    if isinstance(a, Masked) or isinstance(b, Masked):
        return False
    na, nb = isinstance(a, (Poly, Rng)), isinstance(b, (Poly, Rng))
    if not na and not nb:
        if isinstance(a, (str, bytes)) != isinstance(b, (str, bytes)):
            if op == "==":
                return False
            if op == "!=":
                return True
            raise m.exc("TypeError", "'%s' not supported between %r and %r" % (op, a, b))
        if a is None or b is None or isinstance(a, Obj) or isinstance(b, Obj):
            return m.compare(op, a, b)
        return hostcmp(op, a, b)
    for x in (a, b):
        if isinstance(x, (str, bytes)) or x is None:
            if op in ("==", "!="):
                return op == "!="
            raise m.exc("TypeError", "comparison")
    # NaN constants
    if (not na and a != a) or (not nb and b != b):
        return op == "!="
    if isinstance(b, Rng) and not na:
        return scmp(m, FLIP[op], b, a)
    if isinstance(a, Rng) and not nb:
        r = rngcmp(m, a.tag, op, b)
        if r is None:
            if b in (INF, -INF):
                raise Unsupported("compare interval with infinity")
            return Cond(("rc", a.tag, op, frac(b)), why="%r %s %r" % (a, op, b), refine=(a.tag, op, b))
        return r
    if isinstance(a, Rng) and isinstance(b, Rng):
        ca, cb = iv(m, a), iv(m, b)
        if isinstance(ca, Rng) and isinstance(cb, Rng):
            r = ca.cmp(op, cb)
            if r is not None:
                return r
        if op in ("==", "!="):
            if equal(a, b):
                return op == "=="
        return Cond(("rr", a.tag, op, b.tag), why="%r %s %r" % (a, op, b))
    if equal(a, b):
        return op in ("==", "<=", ">=")
    if op in ("==", "!="):
        return op == "!="
    # infinities
    for x, y, o in ((a, b, op), (b, a, FLIP[op])):
        if isinstance(y, float) and y in (INF, -INF):
            return (y == INF) if o in ("<", "<=") else (y == -INF)
    if not nb and b == 0:
        s = sign_of(a)
        d = a
    elif not na and a == 0:
        s = sign_of(b)
        s = {">0": "<0", "<0": ">0", ">=0": "<=0", "<=0": ">=0"}.get(s)
        d = b
    else:
        s = mk("-", a, b).sign()
    if s in (">0", "<0"):
        return hostcmp(op, 1 if s == ">0" else -1, 0)
    if s == ">=0" and op in (">=", "<"):
        return op == ">="
    if s == "<=0" and op in ("<=", ">"):
        return op == "<="
    ra, rb = repr(a), repr(b)
    lt = op in ("<", "<=")
    if ra <= rb:
        return Cond(("lt", ra, rb), neg=not lt, why="%s < %s" % (ra, rb))
    return Cond(("lt", rb, ra), neg=lt, why="%s < %s" % (rb, ra))


def fin(v):
    return not isinstance(v, float) or (v == v and v not in (INF, -INF))


def sbin(m, op, a, b):
    """Binary arithmetic on element values with numpy (not Python) error semantics."""
    Cond = m.Cond
    if isinstance(a, Cond):
        a = m.truth(a)
    if isinstance(b, Cond):
        b = m.truth(b)
    na, nb = isinstance(a, (Poly, Rng)), isinstance(b, (Poly, Rng))
    if not na and not nb:
        return constbin(m, op, a, b)
    for x in (a, b):
        if not isinstance(x, (Poly, Rng, bool, int, float, Fraction)):
            raise m.exc("TypeError", "unsupported operand for %s: %r, %r" % (op, a, b))
    if (not na and a != a) or (not nb and b != b):
        return NAN
    if op in ("max", "min"):
        c = scmp(m, "<=" if op == "max" else ">=", a, b)
        if c is True:
            return b
        c = m.truth(scmp(m, ">=" if op == "max" else "<=", a, b))
        return a if c else b
    # infinities
    for x, y, first in ((a, b, False), (b, a, True)):
        if isinstance(y, float) and y in (INF, -INF):
            if op == "+":
                return y
            if op == "-":
                return y if first else -y
            if op in ("*", "/"):
                if op == "/" and not first:
                    return 0.0
                s = sign_of(x)
                if s in (">0", "<0"):
                    return y if s == ">0" else -y
                if m.truth(scmp(m, ">", x, 0)):
                    return y
                return -y
            raise Unsupported("%s with infinity" % op)
    if isinstance(a, Rng) and not nb:
        if op == "+":
            return a.affine(1, b)
        if op == "-":
            return a.affine(1, -frac(b))
        if op == "*":
            return a.affine(b, 0)
        if op == "/":
            if b == 0:
                if m.truth(scmp(m, ">", a, 0)):
                    return INF
                return -INF if m.truth(scmp(m, "<", a, 0)) else NAN
            return a.affine(1 / frac(b), 0)
        if op == "//" and b != 0:
            q = a.affine(1 / frac(b), 0)
            return q.floor() if isinstance(q, Rng) else float(math.floor(q))
        if op == "**" and b == 1:
            return a
    elif isinstance(b, Rng) and not na:
        if op == "+":
            return b.affine(1, a)
        if op == "-":
            return b.affine(-1, a)
        if op == "*":
            return b.affine(a, 0)
    if op == "+" or op == "-" or op == "*":
        r = mk(op, a, b)
        return r
    if op == "/":
        if isinstance(b, (int, float)) and b == 0:
            s = sign_of(a)
            if s == ">0":
                return INF
            if s == "<0":
                return -INF
            raise Unsupported("division by zero")
        return mk("/", a, b)
    if op == "**":
        if not nb and b == 2:
            return mk("*", a, a)
        if not nb and b == 1:
            return a
        if not nb and b == 0:
            return 1.0
        if not nb and b == 0.5:
            return sun(m, "sqrt", a)
        return mk("pow", a, b)
    if op == "//":
        return Poly("floordiv", (a, b))
    if op == "%":
        return Poly("mod", (a, b))
    return Poly(op, (a, b))


def _xpow(a, b):
    try:
        r = a ** b
        return NAN if isinstance(r, complex) else r
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF


def constbin(m, op, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return MASKED
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        if op == "+" and type(a) is type(b):
            return a + b
        if op in ("max", "min") and type(a) is type(b):
            return max(a, b) if op == "max" else min(a, b)
        raise m.exc("TypeError", "ufunc %r not supported for the input types" % op)
    if not isinstance(a, (bool, int, float, Fraction, complex)) or not isinstance(b, (bool, int, float, Fraction, complex)):
        return m.binop(op, a, b)
    if isinstance(a, Fraction):
        a = float(a)
    if isinstance(b, Fraction):
        b = float(b)
    try:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                if a != a or a == 0:
                    return NAN
                s = (a > 0) == (math.copysign(1.0, float(b)) > 0)
                return INF if s else -INF
            return a / b
        if op == "//":
            if b == 0:
                return 0 if isinstance(a, int) and isinstance(b, int) else (NAN if a == 0 or a != a else math.copysign(INF, a))
            return a // b
        if op == "%":
            if b == 0 or (isinstance(a, float) and a in (INF, -INF)):
                return 0 if isinstance(a, int) and isinstance(b, int) else NAN
            return a % b
        if op == "**":
            return _xpow(a, b)
        if op == "max":
            return NAN if a != a or b != b else (a if a >= b else b)
        if op == "min":
            return NAN if a != a or b != b else (a if a <= b else b)
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "fmod":
            return NAN if b == 0 or a in (INF, -INF) else math.fmod(a, b)
        if op == "arctan2":
            return math.atan2(a, b)
        if op == "hypot":
            return math.hypot(a, b)
        if op == "copysign":
            return math.copysign(a, b)
        if op == "nextafter":
            return math.nextafter(a, b)
        if op == "heaviside":
            return NAN if a != a else (0.0 if a < 0 else (1.0 if a > 0 else b))
        if op == "logaddexp":
            mx = max(a, b)
            return mx + math.log1p(math.exp(min(a, b) - mx))
        if op == "logaddexp2":
            mx = max(a, b)
            return mx + math.log2(1 + 2.0 ** (min(a, b) - mx))
        if op == "fmax":
            return b if a != a else (a if b != b else max(a, b))
        if op == "fmin":
            return b if a != a else (a if b != b else min(a, b))
        if op == "isclose":
            return abs(a - b) <= 1e-8 + 1e-5 * abs(b)
    except OverflowError:
        return INF
    except TypeError as e:
        raise m.exc("TypeError", str(e))
    raise Unsupported("operator %s" % op)


def _m(f):
    def g(x):
        try:
            return f(x)
        except ValueError:
            return NAN
        except OverflowError:
            return INF
    return g


def _log(f):
    def g(x):
        if x == 0:
            return -INF
        if x < 0:
            return NAN
        return f(x)
    return g


def _fl(f):
    def g(x):
        if isinstance(x, float) and (x != x or x in (INF, -INF)):
            return x
        return math.copysign(float(f(x)), x)
    return g


UNCONST = {
    "floor": _fl(math.floor), "ceil": _fl(math.ceil), "trunc": _fl(math.trunc), "rint": _fl(round), "round": _fl(round), "sqrt": _m(math.sqrt),
    "absolute": abs, "fabs": lambda x: float(abs(x)), "negative": lambda x: -x, "positive": lambda x: +x, "square": lambda x: x * x, "exp": _m(math.exp), "exp2": _m(lambda x: 2.0 ** x),
    "expm1": _m(math.expm1), "log": _log(math.log), "log2": _log(math.log2), "log10": _log(math.log10),
    "log1p": lambda x: -INF if x == -1 else (NAN if x < -1 else math.log1p(x)), "sin": _m(math.sin), "cos": _m(math.cos), "tan": _m(math.tan),
    "arcsin": _m(math.asin), "arccos": _m(math.acos), "arctan": math.atan, "sinh": _m(math.sinh), "cosh": _m(math.cosh), "tanh": math.tanh,
    "arcsinh": math.asinh, "arccosh": _m(math.acosh), "arctanh": lambda x: INF if x == 1 else (-INF if x == -1 else _m(math.atanh)(x)),
    "deg2rad": math.radians, "rad2deg": math.degrees, "conjugate": lambda x: x, "sign": lambda x: x if x != x else (type(x)(1) if x > 0 else (type(x)(-1) if x < 0 else type(x)(0))),
    "isnan": lambda x: x != x, "isinf": lambda x: x in (INF, -INF), "isfinite": lambda x: x == x and x not in (INF, -INF), "reciprocal": lambda x: INF if x == 0 else 1.0 / x,
    "logical_not": lambda x: not x, "invert": lambda x: (not x) if isinstance(x, bool) else ~x, "signbit": lambda x: math.copysign(1.0, x) < 0, "cbrt": lambda x: math.copysign(abs(x) ** (1.0 / 3), x),
    "gamma": _m(math.gamma), "lgamma": _m(math.lgamma), "erf": math.erf, "erfc": math.erfc,
}


def sun(m, name, v):
    if isinstance(v, m.Cond):
        if name in ("logical_not", "invert"):
            return m.Cond(v.key, not v.neg, v.why, v.refine)
        v = m.truth(v)
    if isinstance(v, Masked):
        return v
    if isinstance(v, Rng):
        v = iv(m, v) if name in ("floor", "ceil", "trunc", "rint", "round") else v
    if isinstance(v, Rng):
        if name in ("floor", "ceil", "trunc", "rint"):
            return _hostgetattr(v, name)()
        if name == "round":
            return v.rint()
        if name == "negative":
            return v.affine(-1, 0)
        if name in ("positive", "conjugate"):
            return v
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        if name in ("absolute", "fabs"):
            return v if m.truth(scmp(m, ">=", v, 0)) else v.affine(-1, 0)
        if name == "sign":
            if m.truth(scmp(m, ">", v, 0)):
                return 1.0
            return -1.0 if m.truth(scmp(m, "<", v, 0)) else 0.0
        if name == "logical_not":
            return not m.truth(scmp(m, "!=", v, 0))
        if name == "square":
            return mk("*", v, v)
        return Poly(name, (v,))
    if isinstance(v, Poly):
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        if name == "negative":
            return mk("*", v, -1)
        if name in ("positive", "conjugate"):
            return v
        if name == "square":
            return mk("*", v, v)
        if name in ("absolute", "fabs"):
            s = v.sign()
            if s in (">0", ">=0"):
                return v
            if s in ("<0", "<=0"):
                return mk("*", v, -1)
            return Poly("abs", (v,))
        if name == "logical_not":
            return not m.truth(v)
        if name == "sign":
            s = v.sign()
            if s == ">0":
                return 1.0
            if s == "<0":
                return -1.0
        if name == "signbit":
            return scmp(m, "<", v, 0)
        if name in ("floor", "ceil", "trunc", "rint", "round") and v.isint:
            return v
        if name == "sqrt":
            if v.sign() in ("<0",):
                return NAN
            return Poly("sqrt", (v,))
        return Poly({"radians": "deg2rad"}.get(name, name), (v,))
    if isinstance(v, complex) and name in ("absolute",):
        return abs(v)
    if isinstance(v, (str, bytes)) or v is None or isinstance(v, Obj):
        raise m.exc("TypeError", "ufunc '%s' not supported for the input types" % name)
    if isinstance(v, Fraction):
        v = float(v)
    f = UNCONST.get(name)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    return m.host(f, v)


def narrowfloat(m, v, d):
    """v rounded to a floating-point type of less than 64 bits: an unknown value of an open interval may become its end."""
    code = {2: "e", 4: "f"}[d.size]

    def rounded(x):
        try:
            return struct.unpack(code, struct.pack(code, x))[0]
        except OverflowError:
            return INF if x > 0 else -INF
    if isinstance(v, Rng):
        c = iv(m, v)
        if not isinstance(c, Rng):
            return rounded(float(c))
        if c.isint and max(abs(c.lo), abs(c.hi)) <= 2 ** (11 if d.size == 2 else 24):
            return v
        lo, hi = rounded(float(c.lo)), rounded(float(c.hi))
        return mkrng(lo, hi, lo == -INF and c.lo_open, hi == INF and c.hi_open) if lo < hi else lo
    if isinstance(v, Poly):
        return v if v.op == code + "32" or v.isint else Poly(code + "32", (v,))
    return rounded(v)


def cast(m, v, d):
    """Element v stored in an array of dtype d."""
    k = d.kind
    if k == "f":
        if d.size < 8:
            return narrowfloat(m, cast(m, v, F8), d)
        if isinstance(v, m.Cond):
            v = m.truth(v)
        if isinstance(v, (bool, int)):
            return m.host(float, v)
        if isinstance(v, (float, Fraction)):
            return float(v)
        if isinstance(v, Poly):
            return Poly(v.op, v.args, v._pos, False) if v.isint and v.op == "sym" else v
        if isinstance(v, Rng):
            return v
        if isinstance(v, (str, bytes)):
            return m.host(float, v)
        if v is None:
            return NAN
        if isinstance(v, Masked):
            return 0.0
        raise m.exc("TypeError", "float() argument must be a string or a number")
    if k in "iu":
        if isinstance(v, m.Cond):
            return int(m.truth(v))
        if isinstance(v, bool):
            return int(v)
        bits = d.size * 8
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if k == "i" else (0, 2 ** bits - 1)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            return (v - lo) % 2 ** bits + lo
        if isinstance(v, (float, Fraction)):
            if v != v or v in (INF, -INF) or not lo <= int(v) <= hi:
                return garbage(m, lo, hi)
            return int(v)
        if isinstance(v, Rng):
            c = iv(m, v)
            if isinstance(c, Rng):
                if c.hi > hi and not m.truth(scmp(m, "<", v, hi + 1)):
                    return garbage(m, lo, hi)
                if c.lo < lo and not m.truth(scmp(m, ">", v, lo - 1)):
                    return garbage(m, lo, hi)
                c = iv(m, v)
            if not isinstance(c, Rng):
                return int(c)
            r = c.trunc()
            return r if isinstance(r, Rng) else int(r)
        if isinstance(v, Poly):
            return v if v.isint else Poly("trunc", (v,), isint=True)
        if isinstance(v, (str, bytes)):
            return m.host(int, v)
        if isinstance(v, Masked):
            return 0
        raise m.exc("TypeError", "int() argument must be a string or a number")
    if k == "b":
        if isinstance(v, m.Cond) or isinstance(v, bool):
            return v
        if isinstance(v, (str, bytes)):
            return len(v) > 0
        return m.truth(v)
    if k == "U":
        if not isinstance(v, str):
            v = m.bt.str_(m, v)
        return v[:int(d.code[1:])] if len(d.code) > 1 and isinstance(v, str) else v
    if k == "S" and len(d.code) > 1 and isinstance(v, bytes):
        return v[:int(d.code[1:])]
    return v


def garbage(m, lo, hi):
    """Cast of NaN or of an out-of-range float: the platform's "integer indefinite" value."""
    return lo


# --------------------------------------------------------------------------------------- arrays

class Buf(Obj):
    __slots__ = ("data",)

    def __init__(self, m, data):
        Obj.__init__(self, m)
        self.data = data


class NDArr(Obj):
    __slots__ = ("buf", "idx", "shape", "dtype", "masked", "mbuf", "fill")

    def __init__(self, m, buf, idx, shape, dtype, masked=False, mbuf=None):
        Obj.__init__(self, m)
        self.buf = buf
        self.idx = idx
        self.shape = tuple(shape)
        self.dtype = dtype
        self.masked = masked
        self.mbuf = mbuf

    @property
    def elems(self):
        d = self.buf.data
        if self.dtype.fields is not None:
            return [tuple(d[j] for j in i) for i in self.idx]
        return [d[i] for i in self.idx]

    def maskof(self):
        """None (nomask) or list of bools."""
        if self.mbuf is None:
            return None
        return [self.mbuf.data[i] for i in self.idx]

    @property
    def size(self):
        return len(self.idx)

    def item(self):
        return self.elems[0]

    def copy(self, m):
        r = new(m, self.elems, self.shape, self.dtype, self.masked)
        mk_ = self.maskof()
        if mk_ is not None:
            r.mbuf = Buf(m, list(mk_))
        return r

    def write(self, m, pos, v):
        i = self.idx[pos]
        if self.dtype.fields is not None:
            if not isinstance(v, tuple) or len(v) != len(i):
                raise Unsupported("record assignment")
            for j, x, (n, d) in zip(i, v, self.dtype.fields):
                self.buf.data[j] = cast(m, x, d)
        else:
            self.buf.data[i] = cast(m, v, self.dtype)
        self.buf.wrote(m)

    def __repr__(self):
        return "array(%r, shape=%r, %r%s)" % (self.elems, self.shape, self.dtype, "" if self.mbuf is None else ", mask=%r" % self.maskof())


def prod(t):
    r = 1
    for x in t:
        r *= x
    return r


def new(m, elems, shape, dtype, masked=False):
    elems = list(elems)
    if dtype.fields is not None:
        flat = []
        idx = []
        for e in elems:
            if not isinstance(e, (tuple, list)):
                raise Unsupported("structured array")
            idx.append(tuple(range(len(flat), len(flat) + len(e))))
            flat.extend(e)
        return NDArr(m, Buf(m, flat), idx, shape, dtype, masked)
    if prod(shape) != len(elems):
        raise Unsupported("internal: shape %r for %d elements" % (shape, len(elems)))
    return NDArr(m, Buf(m, elems), list(range(len(elems))), shape, dtype, masked)


def newcast(m, elems, shape, dtype, masked=False):
    return new(m, [cast(m, e, dtype) for e in elems], shape, dtype, masked)


def nested(m, v):
    """(elems, shape) of a nested sequence."""
    if isinstance(v, NDArr):
        return v.elems, v.shape
    if isinstance(v, AObj) and v.base is not None and isinstance(v.base, (tuple, AList)):
        v = v.base
    if isinstance(v, (tuple, AList, range)):
        items = [nested(m, x) for x in m.iterate(v)]
        if not items:
            return [], (0,)
        sh = items[0][1]
        for e, s in items:
            if s != sh:
                raise m.exc("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
        return [e for es, _ in items for e in es], (len(items),) + sh
    return [v], ()


def structured(m, v):
    """The dtype of the records that a nested sequence consists of."""
    if isinstance(v, AObj) and v.base is not None and isinstance(v.base, (tuple, AList)):
        v = v.base
    if isinstance(v, NpRec):
        return v.a.dtype
    if isinstance(v, NDArr):
        return v.dtype if v.dtype.fields is not None else None
    if isinstance(v, (tuple, AList)):
        for x in m.iterate(v):
            return structured(m, x)
    return None


def asarr(m, v, dtype=None):
    if isinstance(v, NDArr):
        if dtype is not None and v.dtype != dtype:
            return astype(m, v, dtype)
        return v
    if isinstance(v, Masked):
        r = new(m, [0.0], (), F8, True)
        r.mbuf = Buf(m, [True])
        return r
    elems, shape = nested(m, v)
    if dtype is None:
        st = structured(m, v)
        if st is not None:
            if any(not isinstance(e, (tuple, NpRec)) for e in elems):
                raise Unsupported("array of mixed records")
            return new(m, [e.values() if isinstance(e, NpRec) else e for e in elems], shape, st)
        if not elems:
            dtype = F8
        else:
            dtype = dtype_of(elems[0])
            for e in elems[1:]:
                dtype = promote(dtype, dtype_of(e))
    return newcast(m, elems, shape, dtype)


def astype(m, a, dtype):
    if a.dtype.fields is not None or dtype.fields is not None:
        if a.dtype == dtype:
            return a.copy(m)
        raise Unsupported("structured astype")
    r = newcast(m, a.elems, a.shape, dtype, a.masked)
    mk_ = a.maskof()
    if mk_ is not None:
        r.mbuf = Buf(m, list(mk_))
    return r


def scalar(m, a):
    if a.size != 1:
        raise m.exc("TypeError", "only size-1 arrays can be converted to Python scalars")
    return a.elems[0]


def npscalar(m, code, v):
    d = DType(code)
    if isinstance(v, NDArr):
        return astype(m, v, d)
    if isinstance(v, (tuple, AList)):
        return asarr(m, v, d)
    if d.kind == "u" and isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0:
        raise Unsupported("negative to unsigned")
    return wrapscalar(m, cast(m, v, d))


def truth(m, a):
    if a.size == 1:
        mk_ = a.maskof()
        if mk_ is not None and mk_[0]:
            return False
        return m.truth(a.elems[0])
    if a.size == 0:
        return False
    raise m.exc("ValueError", "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")


def iterate(m, a):
    if a.shape == ():
        raise m.exc("TypeError", "iteration over a 0-d array")
    for i in range(a.shape[0]):
        yield getitem(m, a, i)


# ---------------------------------------------------------------- indexing

def concrete(m, v, what="index"):
    """Make an integer element concrete (partitioning an integer interval if needed)."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float) and v == int(v):
        raise m.exc("IndexError", "arrays used as indices must be of integer (or boolean) type")
    if isinstance(v, Rng) and v.isint:
        c = iv(m, v)
        if not isinstance(c, Rng):
            return int(c)
        if c.lo != -INF and c.hi != INF and c.hi - c.lo <= 32:
            for k in range(int(c.lo), int(c.hi) + 1):
                if m.truth(scmp(m, "<=", v, k)):
                    return k
            return int(c.hi)
    raise Unsupported("%s %r is not determined" % (what, v))


def isadv(k):
    return isinstance(k, (NDArr, AList))


def resolve(m, a, key):
    """-> (list of positions into a.idx, result shape, isview)"""
    if isinstance(key, AObj) and isinstance(key.base, (tuple, AList)):
        key = key.base
    if isinstance(key, AList) and any(isinstance(x, (slice, AList, tuple)) or x is None or x is Ellipsis for x in key.v):
        key = tuple(key.v)         # legacy list-of-slices index
    if not isinstance(key, tuple):
        key = (key,)
    keys = []
    nd = 0
    for k in key:
        if isinstance(k, m.Cond):
            k = m.truth(k)
        if isinstance(k, AObj) and isinstance(k.base, (tuple, AList)):
            k = k.base
        if isinstance(k, tuple):
            k = AList(m, k)
        if isinstance(k, AList):
            k = asarr(m, k)
            if k.size == 0:
                k = new(m, [], k.shape, I8)
        if isinstance(k, NDArr) and k.dtype.kind == "b":
            nd += len(k.shape)
        elif k is None or k is Ellipsis:
            pass
        elif isinstance(k, bool):
            raise Unsupported("scalar bool index")
        else:
            if isinstance(k, (float, str)) :
                raise m.exc("IndexError", "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            nd += 1
        keys.append(k)
    if nd > len(a.shape):
        raise m.exc("IndexError", "too many indices for array: array is %d-dimensional, but %d were indexed" % (len(a.shape), nd))
    if any(k is Ellipsis for k in keys):
        i = [j for j, k in enumerate(keys) if k is Ellipsis][0]
        keys[i:i + 1] = [slice(None)] * (len(a.shape) - nd)
    else:
        keys += [slice(None)] * (len(a.shape) - nd)
    strides = [0] * len(a.shape)
    s = 1
    for i in reversed(range(len(a.shape))):
        strides[i] = s
        s *= a.shape[i]
    # per-output-dimension specs
    specs = []          # ("i", off) | ("s", offsets list) | ("n",) | ("a", list of per-element offsets, shape)
    d = 0
    for k in keys:
        if k is None:
            specs.append(("n",))
        elif isinstance(k, slice):
            r = range(*m.hostslice(k).indices(a.shape[d]))
            specs.append(("s", [i * strides[d] for i in r]))
            d += 1
        elif isinstance(k, NDArr) and k.dtype.kind == "b":
            n = len(k.shape)
            if k.shape != a.shape[d:d + n]:
                raise m.exc("IndexError", "boolean index did not match indexed array along dimension %d; dimension is %r but corresponding boolean dimension is %r" % (d, a.shape[d:d + n], k.shape))
            offs = []
            for p, e in enumerate(k.elems):
                if m.truth(e):
                    # unravel p in k.shape
                    rem = p
                    off = 0
                    for q in reversed(range(n)):
                        off += (rem % k.shape[q]) * strides[d + q]
                        rem //= k.shape[q]
                    offs.append(off)
            specs.append(("a", offs, (len(offs),)))
            d += n
        elif isinstance(k, NDArr):
            if k.dtype.kind not in "iu":
                raise m.exc("IndexError", "arrays used as indices must be of integer (or boolean) type")
            offs = []
            for e in k.elems:
                i = concrete(m, e)
                if not -a.shape[d] <= i < a.shape[d]:
                    raise m.exc("IndexError", "index %d is out of bounds for axis %d with size %d" % (i, d, a.shape[d]))
                offs.append((i % a.shape[d]) * strides[d])
            if k.shape == ():
                specs.append(("i", offs[0]))
            else:
                specs.append(("a", offs, k.shape))
            d += 1
        else:
            i = concrete(m, k) if not isinstance(k, AObj) else m.index(k)
            if not -a.shape[d] <= i < a.shape[d]:
                raise m.exc("IndexError", "index %d is out of bounds for axis %d with size %d" % (i, d, a.shape[d]))
            specs.append(("i", (i % a.shape[d]) * strides[d]))
            d += 1
    adv = [s for s in specs if s[0] == "a"]
    if not adv:
        shape = []
        offs = [0]
        for sp in specs:
            if sp[0] == "i":
                offs = [o + sp[1] for o in offs]
            elif sp[0] == "s":
                shape.append(len(sp[1]))
                offs = [o + x for o in offs for x in sp[1]]
            else:
                shape.append(1)
        return offs, tuple(shape), True
    # broadcast the advanced indices
    bshape = ()
    for sp in adv:
        bshape = bcast(m, bshape, sp[2])
    n = prod(bshape)
    aoff = [0] * n
    for sp in specs:
        if sp[0] == "a":
            e = broadcast_to(m, sp[1], sp[2], bshape)
            aoff = [x + y for x, y in zip(aoff, e)]
        elif sp[0] == "i":
            aoff = [x + sp[1] for x in aoff]
    pos = [i for i, sp in enumerate(specs) if sp[0] in "ai"]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    first = pos[0] if contiguous else 0
    shape = []
    offs = [0]
    done = False
    if not contiguous:
        shape += list(bshape)
        offs = list(aoff)
        done = True
    for i, sp in enumerate(specs):
        if i == first and not done:
            shape += list(bshape)
            offs = [o + x for o in offs for x in aoff]
            done = True
        if sp[0] == "s":
            shape.append(len(sp[1]))
            offs = [o + x for o in offs for x in sp[1]]
        elif sp[0] == "n":
            shape.append(1)
    return offs, tuple(shape), False


def getitem(m, a, key):
    if isinstance(a, DType):
        if isinstance(key, str) and a.fields is not None:
            for n, d in a.fields:
                if n == key:
                    return d
        raise m.exc("KeyError", key)
    if isinstance(key, str):
        if a.dtype.fields is None:
            raise m.exc("IndexError", "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        for p, (n, d) in enumerate(a.dtype.fields):
            if n == key:
                return NDArr(m, a.buf, [i[p] for i in a.idx], a.shape, d)
        raise m.exc("ValueError", "no field of name %s" % key)
    pos, shape, view = resolve(m, a, key)
    if shape == () and view:
        if a.mbuf is not None and a.mbuf.data[a.idx[pos[0]]] is True:
            return MASKED
        if a.dtype.fields is not None:
            return NpRec(a, a.idx[pos[0]])
        return wrapscalar(m, a.buf.data[a.idx[pos[0]]])
    if view:
        return NDArr(m, a.buf, [a.idx[p] for p in pos], shape, a.dtype, a.masked, a.mbuf)
    el = a.elems
    r = new(m, [el[p] for p in pos], shape, a.dtype, a.masked)
    if a.mbuf is not None:
        mk_ = a.maskof()
        r.mbuf = Buf(m, [mk_[p] for p in pos])
    return r


class NpRec(object):
    """One record of a structured array."""

    def __init__(self, a, idx):
        self.a = a
        self.idx = idx

    def values(self):
        return tuple(self.a.buf.data[j] for j in self.idx)


def wrapscalar(m, v):
    if type(v) is float:
        return m.NPFloat(v)
    if type(v) is int:
        return m.NPInt(v)
    return v


def setitem(m, a, key, v):
    if isinstance(key, str) and a.dtype.fields is not None:
        return setitem(m, getitem(m, a, key), slice(None), v)
    pos, shape, view = resolve(m, a, key)
    if isinstance(v, Masked):
        if not a.masked:
            # assigning the masked constant to a plain array stores its data (0.0)
            raise Unsupported("masked constant stored in plain array")
        if a.mbuf is None:
            a.mbuf = Buf(m, [False] * len(a.buf.data))
        for p in pos:
            a.mbuf.data[a.idx[p]] = True
        a.wrote(m)
        return
    if isinstance(v, NDArr) or isinstance(v, (tuple, AList)) or (isinstance(v, AObj) and v.base is not None and isinstance(v.base, (tuple, AList))):
        if a.dtype.fields is not None and isinstance(v, tuple):
            for p in pos:
                a.write(m, p, v)
            return
        va = asarr(m, v)
        vsh = va.shape
        while len(vsh) > len(shape) and vsh[0] == 1:
            vsh = vsh[1:]
        vals = broadcast_to(m, va.elems, vsh, shape, assign=True)
        vm = va.maskof()
        vmask = None if vm is None else broadcast_to(m, vm, vsh, shape)
    else:
        vals = [v] * len(pos)
        vmask = None
    vals = list(vals)
    for p, x in zip(pos, vals):
        a.write(m, p, x)
    if a.masked:
        if vmask is not None:
            if a.mbuf is None:
                a.mbuf = Buf(m, [False] * len(a.buf.data))
            for p, x in zip(pos, vmask):
                a.mbuf.data[a.idx[p]] = x
        elif a.mbuf is not None and not (isinstance(key, NDArr) and key.masked and not (isinstance(v, NDArr) and v.masked)):
            for p in pos:
                a.mbuf.data[a.idx[p]] = False


def bcast(m, s, t):
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + tuple(s)
    t = (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(s, t):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            raise m.exc("ValueError", "operands could not be broadcast together with shapes %r %r" % (s, t))
    return tuple(out)


def broadcast_to(m, elems, shape, target, assign=False):
    if tuple(shape) == tuple(target):
        return elems
    if len(shape) > len(target):
        raise m.exc("ValueError", "could not broadcast input array from shape %r into shape %r" % (shape, target))
    s = (1,) * (len(target) - len(shape)) + tuple(shape)
    for x, y in zip(s, target):
        if x != y and x != 1:
            raise m.exc("ValueError", "could not broadcast input array from shape %r into shape %r" % (shape, target))
    strides = []
    st = 1
    for x in reversed(s):
        strides.append(0 if x == 1 else st)
        st *= x
    strides.reverse()
    offs = [0]
    for d, n in enumerate(target):
        offs = [o + i * strides[d] for o in offs for i in range(n)]
    return [elems[o] for o in offs]


# ---------------------------------------------------------------- ufuncs

class UFunc(object):
    __slots__ = ("name", "nin", "fn", "kind")

    def __init__(self, name, nin, fn, kind):
        self.name = name
        self.nin = nin
        self.fn = fn
        self.kind = kind         # "same", "float", "bool"

    def __repr__(self):
        return "<ufunc %s>" % self.name


UFUNCS = {}


def _bu(name, op, kind="same"):
    UFUNCS[name] = UFunc(name, 2, (lambda m, a, b: sbin(m, op, a, b)), kind)


def _cu(name, op):
    UFUNCS[name] = UFunc(name, 2, (lambda m, a, b: scmp(m, op, a, b)), "bool")


def _uu(name, kind):
    UFUNCS[name] = UFunc(name, 1, (lambda m, a, _n=name: sun(m, _n, a)), kind)


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("floor_divide", "//"), ("remainder", "%"), ("mod", "%"), ("power", "**"), ("maximum", "max"), ("minimum", "min"),
               ("bitwise_and", "&"), ("bitwise_or", "|"), ("bitwise_xor", "^"), ("left_shift", "<<"), ("right_shift", ">>"), ("fmod", "fmod"), ("fmax", "fmax"), ("fmin", "fmin")):
    _bu(_n, _o)
for _n, _o in (("true_divide", "/"), ("divide", "/"), ("arctan2", "arctan2"), ("hypot", "hypot"), ("copysign", "copysign"), ("nextafter", "nextafter"), ("heaviside", "heaviside"),
               ("logaddexp", "logaddexp"), ("logaddexp2", "logaddexp2"), ("float_power", "**")):
    _bu(_n, _o, "float")
for _n, _o in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")):
    _cu(_n, _o)


def _logical(op):
    def f(m, a, b):
        if op == "and":
            return m.truth(a) and m.truth(b)
        if op == "or":
            return m.truth(a) or m.truth(b)
        return m.truth(a) != m.truth(b)
    return f


for _n, _o in (("logical_and", "and"), ("logical_or", "or"), ("logical_xor", "xor")):
    UFUNCS[_n] = UFunc(_n, 2, _logical(_o), "bool")
for _n in ("floor", "ceil", "trunc", "rint", "sqrt", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
           "arcsinh", "arccosh", "arctanh", "deg2rad", "rad2deg", "fabs", "cbrt"):
    _uu(_n, "float")
for _n in ("absolute", "negative", "positive", "square", "conjugate", "sign", "invert", "reciprocal"):
    _uu(_n, "same")
for _n in ("isnan", "isinf", "isfinite", "logical_not", "signbit"):
    _uu(_n, "bool")
for _n, _o in (("radians", "deg2rad"), ("degrees", "rad2deg"), ("abs", "absolute"), ("bitwise_not", "invert"), ("conj", "conjugate")):
    UFUNCS[_n] = UFUNCS[_o]


def resdtype(m, uf, dts, scal, vals=None):
    """dts: dtypes; scal: which operands are Python/0-d scalars; vals: the values of these."""
    if uf.kind == "bool":
        return B1
    arrs = [d for d, s in zip(dts, scal) if not s]
    scs = [d for d, s in zip(dts, scal) if s]
    vs = [v for v, s in zip(vals, scal) if s] if vals is not None else [None] * len(scs)
    if arrs:
        r = arrs[0]
        for d in arrs[1:]:
            r = promote(r, d)
        for d, v in zip(scs, vs):
            r = weak(r, d, v)
    else:
        r = scs[0]
        for d in scs[1:]:
            r = promote(r, d)
    if r.kind == "O":
        return r
    if uf.name in ("add", "subtract", "multiply", "square", "negative") and r.kind == "b":
        if uf.name in ("subtract", "negative"):
            raise m.exc("TypeError", "numpy boolean subtract, the `-` operator, is not supported")
        return B1
    if uf.kind == "float" and r.kind in "biu":
        return F8
    if uf.name in ("floor_divide", "remainder", "power", "square", "fmod") and r.kind == "b":
        return DType("i1")
    return r


def call_ufunc(m, uf, args, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dt = kw.pop("dtype", None)
    kw.pop("casting", None)
    if kw:
        raise Unsupported("ufunc keyword %s" % list(kw))
    args = list(args)
    if len(args) > uf.nin:
        if len(args) > uf.nin + 1 or out is not None:
            raise m.exc("TypeError", "%s() takes from %d to %d positional arguments but %d were given" % (uf.name, uf.nin, uf.nin + 1, len(args)))
        out = args.pop()
    if len(args) < uf.nin:
        raise m.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (uf.name, uf.nin, len(args)))
    if isinstance(out, tuple):
        out = out[0]
    if any(isinstance(a, Masked) for a in args):
        if out is None:
            return MASKED
        raise Unsupported("masked constant with out")
    arrs = []
    for a in args:
        if isinstance(a, AObj) and a.base is None:
            raise m.exc("TypeError", "ufunc '%s' did not contain a loop with signature matching types" % uf.name)
        arrs.append(asarr(m, a))
    allscalar = all(x.shape == () for x in arrs)
    scal = [x.shape == () for x in arrs]
    dts = [x.dtype for x in arrs]
    if any(d.fields is not None for d in dts):
        raise Unsupported("ufunc on structured array")
    if uf.kind != "bool" or uf.name in ("isnan", "isinf", "isfinite", "signbit"):
        for d in dts:
            if d.kind in "US":
                raise m.exc("TypeError", "ufunc '%s' did not contain a loop with signature matching types" % uf.name)
    if uf.name in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal"):
        st = [d.kind in "US" for d in dts]
        if any(st) and not all(st) and not any(d.kind == "O" for d in dts):
            # numpy 1.22: elementwise comparison failed -> NotImplemented scalar
            if uf.name == "equal":
                return False
            if uf.name == "not_equal":
                return True
            raise m.exc("TypeError", "ufunc '%s' not supported for these types" % uf.name)
    rd = todtype(m, dt) if dt is not None else resdtype(m, uf, dts, scal, [x.elems[0] if x.shape == () else None for x in arrs])
    shape = ()
    for x in arrs:
        shape = bcast(m, shape, x.shape)
    if uf.name == "power" and rd.kind in "iu":
        for e in arrs[1].elems:
            if isinstance(e, int) and e < 0:
                raise m.exc("ValueError", "Integers to negative integer powers are not allowed.")
    if out is not None:
        if not isinstance(out, NDArr):
            raise m.exc("TypeError", "return arrays must be of ArrayType")
        oshape = bcast(m, shape, out.shape)
        if oshape != out.shape:
            raise m.exc("ValueError", "non-broadcastable output operand with shape %r doesn't match the broadcast shape %r" % (out.shape, oshape))
        shape = out.shape
        if _ORD[rd.kind] > _ORD[out.dtype.kind] and not (rd.kind in "iu" and out.dtype.kind in "iu"):
            raise m.exc("TypeError", "Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (uf.name, rd, out.dtype))
    cols = [broadcast_to(m, x.elems, x.shape, shape) for x in arrs]
    if rd.kind == "f" and uf.kind != "bool" and any(d.kind in "iu" for d in dts):
        cols = [[float(e) if type(e) is int and abs(e) < 2 ** 1000 else e for e in c] if d.kind in "iu" else c for c, d in zip(cols, dts)]
    if any(d.kind == "f" and d.size < 8 for d in dts) or dt is not None and rd.kind == "f" and rd.size < 8:
        cd = rd
        if uf.kind == "bool":
            arrd = [d for d, s in zip(dts, scal) if not s]
            cd = arrd[0] if arrd else F8
            for d in arrd[1:]:
                cd = promote(cd, d)
        if cd.kind == "f" and cd.size < 8:
            cols = [[cast(m, e, cd) if not isinstance(e, Masked) else e for e in c] for c in cols]
    vals = [uf.fn(m, *t) for t in zip(*cols)]
    if uf.kind != "bool":
        vals = [cast(m, v, rd) if not isinstance(v, Masked) else v for v in vals]
    masked = any(x.masked for x in arrs) or (out is not None and out.masked)
    mask = None
    if where is not True:
        wa = asarr(m, where)
        if masked or (out is None and bcast(m, shape, wa.shape) != shape):
            raise Unsupported("ufunc where=")
        keep = [m.truth(x) for x in broadcast_to(m, wa.elems, wa.shape, shape)]
        if out is None:
            base = uninit(m, len(vals), rd)
        else:
            base = out.elems
        vals = [v if k else b for v, k, b in zip(vals, keep, base)]
    if masked:
        any_ = False
        mask = [False] * len(vals)
        for x in arrs:
            mm = x.maskof()
            if mm is not None:
                any_ = True
                mask = [p or q for p, q in zip(mask, broadcast_to(m, mm, x.shape, shape))]
        if not any(mask):
            mask = None if (len(arrs) > 1 or not any_) else mask
    if out is None:
        if allscalar and not masked:
            return wrapscalar(m, vals[0])
        r = new(m, vals, shape, rd, masked)
        if mask is not None:
            r.mbuf = Buf(m, mask)
        return r
    for p, v in enumerate(vals):
        out.write(m, p, v)
    if out.masked:
        setmask(m, out, mask)
    return out


def uninit(m, n, d):
    if d.kind == "f":
        m.uninit = m_uninit(m) + n
        return [Poly("sym", ("uninit#%d" % (m.uninit - i),)) for i in range(n)]
    return [{"b": False, "U": ""}.get(d.kind, 0)] * n


def setmask(m, a, mask):
    if mask is None:
        a.mbuf = None
    else:
        b = Buf(m, [False] * (max([i for i in a.idx] + [-1]) + 1))
        for i, x in zip(a.idx, mask):
            b.data[i] = x
        a.mbuf = b


OPUF = {"+": "add", "-": "subtract", "*": "multiply", "/": "true_divide", "//": "floor_divide", "%": "remainder", "**": "power", "&": "bitwise_and", "|": "bitwise_or", "^": "bitwise_xor",
        "<<": "left_shift", ">>": "right_shift"}
CMPUF = {"==": "equal", "!=": "not_equal", "<": "less", "<=": "less_equal", ">": "greater", ">=": "greater_equal"}


def binop(m, op, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return MASKED
    if a is None or b is None:
        raise m.exc("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, m.typeof(a).name, m.typeof(b).name))
    if isinstance(a, (ADict, ASet)) or isinstance(b, (ADict, ASet)):
        raise m.exc("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, m.typeof(a).name, m.typeof(b).name))
    if op not in OPUF:
        raise Unsupported("array operator %s" % op)
    return call_ufunc(m, UFUNCS[OPUF[op]], [a, b], {})


def inplace(m, op, a, b):
    if isinstance(b, Masked):
        raise Unsupported("in-place with masked")
    if b is None or isinstance(b, (ADict, ASet)):
        raise m.exc("TypeError", "unsupported operand type(s) for %s=: '%s' and '%s'" % (op, m.typeof(a).name, m.typeof(b).name))
    if a.masked:
        r = call_ufunc(m, UFUNCS[OPUF[op]], [a, b], {})
        if _ORD[r.dtype.kind] > _ORD[a.dtype.kind]:
            raise m.exc("TypeError", "Cannot cast ufunc output")
        mk_ = r.maskof()
        am = a.maskof()
        for p, v in enumerate(r.elems):
            if am is None or not am[p]:
                a.write(m, p, v)
        setmask(m, a, mk_)
        return a
    if a.shape == () and not isinstance(b, NDArr):
        pass
    return call_ufunc(m, UFUNCS[OPUF[op]], [a, b, a], {})


def compare(m, op, a, b):
    if b is None or a is None or isinstance(a, (ADict,)) or isinstance(b, (ADict,)) or (isinstance(a, AObj) and a.base is None) or (isinstance(b, AObj) and b.base is None):
        arr = a if isinstance(a, NDArr) else b
        if op in ("==", "!="):
            return new(m, [op == "!="] * arr.size, arr.shape, B1)
        raise m.exc("TypeError", "'%s' not supported" % op)
    try:
        r = call_ufunc(m, UFUNCS[CMPUF[op]], [a, b], {})
    except PyExc as e:
        if e.name == "ValueError" and op in ("==", "!="):
            return op == "!="        # numpy 1.22: elementwise comparison failed
        raise
    if op in ("==", "!=") and isinstance(r, NDArr) and r.masked and r.mbuf is not None:
        for p, x in enumerate(r.maskof()):
            if x:
                r.buf.data[r.idx[p]] = (op == "!=")
    return r


def unary(m, op, a):
    return call_ufunc(m, UFUNCS[{"-": "negative", "+": "positive", "~": "invert"}[op]], [a], {})


# ---------------------------------------------------------------- reductions

def norm_axis(m, a, axis):
    if axis is None:
        return tuple(range(len(a.shape)))
    ax = list(m.iterate(axis)) if isinstance(axis, (tuple, AList)) else [axis]
    out = []
    for x in ax:
        x = m.index(x)
        if not -len(a.shape) <= x < len(a.shape):
            raise m.exc("ValueError", "axis %d is out of bounds for array of dimension %d" % (x, len(a.shape)))
        out.append(x % len(a.shape))
    if len(set(out)) != len(out):
        raise m.exc("ValueError", "duplicate value in 'axis'")
    return tuple(out)


def reduce_(m, a, axis, f, init, keepdims=False, dtype=None, empty=None):
    a = asarr(m, a)
    ax = norm_axis(m, a, axis)
    keep = [i for i in range(len(a.shape)) if i not in ax]
    oshape = tuple(a.shape[i] for i in keep)
    acc = [init] * prod(oshape)
    seen = [False] * prod(oshape)
    el = a.elems
    mk_ = a.maskof()
    for p, e in enumerate(el):
        if mk_ is not None and mk_[p]:
            continue
        rem = p
        co = [0] * len(a.shape)
        for d in reversed(range(len(a.shape))):
            co[d] = rem % a.shape[d]
            rem //= a.shape[d]
        q = 0
        for i in keep:
            q = q * a.shape[i] + co[i]
        if seen[q] or init is not None:
            acc[q] = f(acc[q], e)
        else:
            acc[q] = e
        seen[q] = True
    if init is None and not all(seen):
        raise m.exc("ValueError", "zero-size array to reduction operation which has no identity")
    d = dtype or a.dtype
    if keepdims:
        oshape = tuple(1 if i in ax else s for i, s in enumerate(a.shape))
    if len(ax) == len(a.shape) and not keepdims:
        return wrapscalar(m, cast(m, acc[0], d) if d.kind not in "b" else acc[0])
    return newcast(m, acc, oshape, d)


def sum_(m, a, axis=None, keepdims=False, dtype=None):
    a = asarr(m, a)
    if a.dtype.kind in "US":
        raise m.exc("TypeError", "cannot perform reduce with flexible type")
    d = todtype(m, dtype) if dtype is not None else (I8 if a.dtype.kind in "bi" else a.dtype)
    return reduce_(m, a, axis, lambda x, y: sbin(m, "+", x, y), 0.0 if d.kind == "f" else 0, keepdims, d)


def any_(m, a, axis=None):
    return reduce_(m, a, axis, lambda x, y: m.truth(x) or m.truth(y), False, dtype=B1)


def all_(m, a, axis=None):
    return reduce_(m, a, axis, lambda x, y: m.truth(x) and m.truth(y), True, dtype=B1)


def kwargs(kw, **defaults):
    kw = dict(kw)
    out = []
    for k, d in defaults.items():
        out.append(kw.pop(k, d))
    if kw:
        raise Unsupported("keyword %s" % list(kw))
    return out


def bindargs(name, args, kw, *spec):
    """spec: names (with optional '=default' tuples)"""
    kw = dict(kw)
    out = []
    for i, s in enumerate(spec):
        n, d = s if isinstance(s, tuple) else (s, _REQ)
        if i < len(args):
            out.append(args[i])
        elif n in kw:
            out.append(kw.pop(n))
        elif d is _REQ:
            raise Unsupported("%s: missing argument %s" % (name, n))
        else:
            out.append(d)
    if len(args) > len(spec) or kw:
        raise Unsupported("%s: extra arguments %s" % (name, list(kw)))
    return out


_REQ = object()


# ---------------------------------------------------------------- attributes

def reshape(m, a, shape):
    shape = [m.index(x) for x in (m.iterate(shape) if isinstance(shape, (tuple, AList)) else [shape])]
    n = a.size
    if shape.count(-1) > 1:
        raise m.exc("ValueError", "can only specify one unknown dimension")
    if -1 in shape:
        rest = prod([x for x in shape if x != -1])
        if rest == 0 or n % rest:
            raise m.exc("ValueError", "cannot reshape array of size %d into shape %r" % (n, tuple(shape)))
        shape[shape.index(-1)] = n // rest
    if prod(shape) != n:
        raise m.exc("ValueError", "cannot reshape array of size %d into shape %r" % (n, tuple(shape)))
    return NDArr(m, a.buf, list(a.idx), tuple(shape), a.dtype, a.masked, a.mbuf)


def tolist(m, a):
    mk_ = a.maskof()
    el = [None if mk_ is not None and mk_[i] is True else x for i, x in enumerate(a.elems)]

    def rec(shape, lo):
        if not shape:
            v = el[lo]
            return float(v) if isinstance(v, m.NPFloat) else int(v) if isinstance(v, m.NPInt) else v
        n = prod(shape[1:])
        return AList(m, [rec(shape[1:], lo + i * n) for i in range(shape[0])])
    return rec(a.shape, 0)


def dtname(d):
    if d.fields is not None or d.kind in "USO":
        raise Unsupported("name of dtype %r" % (d,))
    return "bool" if d.kind == "b" else {"f": "float", "i": "int", "u": "uint", "c": "complex"}[d.kind] + str(8 * d.size)


def getattr(m, o, name):
    if isinstance(o, DType):
        if name == "kind":
            return o.code[0]
        if name == "names":
            return None if o.fields is None else tuple(n for n, _ in o.fields)
        if name == "type":
            for t in m.types.values():
                if isinstance(t.host, tuple) and t.host[1] == o.code:
                    return t
            if o.kind == "b":
                return m.types["np.bool_"]
            if o.kind == "U":
                return m.types["np.str_"]
        if name == "itemsize":
            if o.kind in "US":
                raise Unsupported("width of a text dtype")
            return o.size if o.fields is None else sum(d.size for _, d in o.fields)
        if name == "fields":
            return None if o.fields is None else ADict(m, [(n, (d, 0)) for n, d in o.fields])
        if name == "name":
            return dtname(o)
        if name == "str":
            return "<" + o.code
        raise Unsupported("dtype attribute %s" % name)
    if isinstance(o, UFunc):
        if name == "at":
            return BFn("at", lambda m, a, k: ufunc_at(m, o, a))
        if name in ("__name__",):
            return o.name
        if name == "nin":
            return o.nin
        if name == "reduce":
            def red(m, a, k):
                arr, axis, dt, out, keep = bindargs("reduce", a, k, "array", ("axis", 0), ("dtype", None), ("out", None), ("keepdims", False))
                if out is not None:
                    raise Unsupported("reduce out")
                arr = asarr(m, arr)
                if o.name == "add":
                    return sum_(m, arr, axis, keep, dt)
                init = {"multiply": 1, "logical_and": True, "logical_or": False}.get(o.name)
                return reduce_(m, arr, axis, lambda x, y: o.fn(m, x, y), init, keep, arr.dtype if o.kind != "bool" else B1)
            return BFn("reduce", red)
        raise Unsupported("ufunc attribute %s" % name)
    a = o
    if name == "shape":
        return a.shape
    if name == "dtype":
        return a.dtype
    if name == "ndim":
        return len(a.shape)
    if name == "size":
        return a.size
    if name == "T":
        return transpose(m, a, None)
    if name == "mask":
        if not a.masked:
            raise m.exc("AttributeError", "'numpy.ndarray' object has no attribute 'mask'")
        mk_ = a.maskof()
        return NOMASK if mk_ is None else new(m, mk_, a.shape, B1)
    if name == "data":
        if a.masked:
            return NDArr(m, a.buf, a.idx, a.shape, a.dtype)
        raise Unsupported("ndarray.data")
    if name == "flat":
        return reshape(m, a, (-1,))
    if name == "nbytes":
        return a.size * 8
    if name == "base":
        return None
    if name in METHODS:
        f = METHODS[name]
        return BFn(name, lambda m, args, kw: f(m, a, args, kw))
    if name in ("columns", "keys", "items", "values", "get", "isspark", "_jdf", "rdd", "select", "toPandas", "__array__", "_parsed", "goal"):
        raise m.exc("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
    if name.startswith("_") and not name.startswith("__"):
        raise m.exc("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
    d = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/"}
    if name in d:
        return BFn(name, lambda m, args, kw: binop(m, d[name], a, args[0]))
    d2 = {"__iadd__": "+", "__isub__": "-", "__imul__": "*", "__itruediv__": "/"}
    if name in d2:
        return BFn(name, lambda m, args, kw: inplace(m, d2[name], a, args[0]))
    if name == "__getitem__":
        return BFn(name, lambda m, args, kw: getitem(m, a, args[0]))
    if name == "__setitem__":
        return BFn(name, lambda m, args, kw: setitem(m, a, args[0], args[1]))
    if name == "__len__":
        return BFn(name, lambda m, args, kw: a.shape[0])
    raise Unsupported("ndarray attribute %s" % name)


def setattr(m, a, name, v):
    if name == "shape":
        r = reshape(m, a, v)
        a.shape = r.shape
        return
    if name == "mask" and a.masked:
        if isinstance(v, bool):
            setmask(m, a, [v] * a.size)
        elif v is NOMASK:
            setmask(m, a, None)
        else:
            v = asarr(m, v)
            setmask(m, a, [m.truth(x) for x in broadcast_to(m, v.elems, v.shape, a.shape)])
        return
    if name == "fill_value":
        return
    if name == "dtype":
        a.dtype = todtype(m, v)
        return
    raise m.exc("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)


def transpose(m, a, axes):
    n = len(a.shape)
    axes = list(reversed(range(n))) if axes is None else [m.index(x) % n for x in axes]
    shape = tuple(a.shape[i] for i in axes)
    strides = [0] * n
    s = 1
    for i in reversed(range(n)):
        strides[i] = s
        s *= a.shape[i]
    offs = [0]
    for i in axes:
        offs = [o + k * strides[i] for o in offs for k in range(a.shape[i])]
    return NDArr(m, a.buf, [a.idx[o] for o in offs], shape, a.dtype, a.masked, a.mbuf)


def view_(m, a, dt):
    if isinstance(dt, AClass) and dt.host == "ndarray":
        return NDArr(m, a.buf, a.idx, a.shape, a.dtype, dt.name == "MaskedArray", a.mbuf if dt.name == "MaskedArray" else None)
    d = todtype(m, dt)
    if d.fields is not None and a.dtype.fields is None:
        k = len(d.fields)
        if any(x != a.dtype for _, x in d.fields):
            raise Unsupported("view with different field types")
        if not a.shape or a.shape[-1] % k if k else True:
            raise m.exc("ValueError", "When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
        shape = a.shape[:-1] + (a.shape[-1] // k,)
        idx = [tuple(a.idx[i:i + k]) for i in range(0, len(a.idx), k)]
        return NDArr(m, a.buf, idx, shape, d)
    if d.fields is None and a.dtype.fields is not None:
        if any(x != d for _, x in a.dtype.fields):
            raise Unsupported("view")
        k = len(a.dtype.fields)
        shape = a.shape[:-1] + (a.shape[-1] * k,) if a.shape else (k,)
        return NDArr(m, a.buf, [j for i in a.idx for j in i], shape, d)
    if d == a.dtype:
        return NDArr(m, a.buf, a.idx, a.shape, a.dtype, a.masked, a.mbuf)
    raise Unsupported("view as %r" % d)


def compressed(m, a):
    mk_ = a.maskof()
    if not a.masked:
        raise m.exc("AttributeError", "'numpy.ndarray' object has no attribute 'compressed'")
    el = [x for i, x in enumerate(a.elems) if mk_ is None or not m.truth(mk_[i])]
    return new(m, el, (len(el),), a.dtype)


def _shapearg(m, args):
    if len(args) == 1 and isinstance(args[0], (tuple, AList)):
        return args[0]
    return tuple(args)


def put_fill(m, a, v):
    for p in range(a.size):
        a.write(m, p, v)


METHODS = {
    "copy": lambda m, a, x, k: (bindargs("copy", x, k, ("order", "C")), a.copy(m))[1],
    "reshape": lambda m, a, x, k: reshape(m, a, _shapearg(m, x)) if not k and x else unsupported("reshape arguments"),
    "tolist": lambda m, a, x, k: tolist(m, a),
    "astype": lambda m, a, x, k: astype_(m, a, *bindargs("astype", x, k, "dtype", ("order", "K"), ("casting", "unsafe"), ("subok", True), ("copy", True))),
    "sum": lambda m, a, x, k: (lambda axis, dt, out, keep: intoout(m, out, sum_(m, a, axis, keep, dt)))(*bindargs("sum", x, k, ("axis", None), ("dtype", None), ("out", None), ("keepdims", False))),
    "any": lambda m, a, x, k: any_(m, a, *bindargs("any", x, k, ("axis", None))),
    "all": lambda m, a, x, k: all_(m, a, *bindargs("all", x, k, ("axis", None))),
    "max": lambda m, a, x, k: (lambda axis, out, keep: intoout(m, out, reduce_(m, a, axis, lambda p, q: sbin(m, "max", p, q), None, keep)))(*bindargs("max", x, k, ("axis", None), ("out", None), ("keepdims", False))),
    "min": lambda m, a, x, k: (lambda axis, out, keep: intoout(m, out, reduce_(m, a, axis, lambda p, q: sbin(m, "min", p, q), None, keep)))(*bindargs("min", x, k, ("axis", None), ("out", None), ("keepdims", False))),
    "mean": lambda m, a, x, k: mean_(m, a, *bindargs("mean", x, k, ("axis", None), ("dtype", None), ("out", None), ("keepdims", False))),
    "item": lambda m, a, x, k: scalar(m, a) if not x else scalar(m, asarr(m, getitem(m, reshape(m, a, (-1,)) if len(x) == 1 and not isinstance(x[0], tuple) else a, x[0] if len(x) == 1 else tuple(x)))),
    "flatten": lambda m, a, x, k: (bindargs("flatten", x, k), reshape(m, a.copy(m), (-1,)))[1],
    "ravel": lambda m, a, x, k: (bindargs("ravel", x, k), ravel_(m, a))[1],
    "view": lambda m, a, x, k: view_(m, a, bindargs("view", x, k, ("dtype", a.dtype))[0]),
    "compressed": lambda m, a, x, k: compressed(m, a),
    "filled": lambda m, a, x, k: filled(m, a, bindargs("filled", x, k, ("fill_value", None))[0]),
    "fill": lambda m, a, x, k: put_fill(m, a, x[0]),
    "transpose": lambda m, a, x, k: transpose(m, a, None if not x and not k else list(m.iterate(_shapearg(m, x))) if x and x[0] is not None and not k else k["axes"] if list(k) == ["axes"] and not x else None),
    "squeeze": lambda m, a, x, k: squeeze(m, a, bindargs("squeeze", x, k, ("axis", None))[0]),
    "swapaxes": lambda m, a, x, k: swapaxes(m, a, *bindargs("swapaxes", x, k, "axis1", "axis2")),
    "take": lambda m, a, x, k: take(m, a, *bindargs("take", x, k, "indices", ("axis", None))),
    "argmax": lambda m, a, x, k: argext(m, a, ">", *bindargs("argmax", x, k, ("axis", None))),
    "argmin": lambda m, a, x, k: argext(m, a, "<", *bindargs("argmin", x, k, ("axis", None))),
    "nonzero": lambda m, a, x, k: nonzero(m, a),
    "clip": lambda m, a, x, k: clip(m, [a] + list(x), k),
    "round": lambda m, a, x, k: call_ufunc(m, ROUND, [a], {}) if bindargs("round", x, k, ("decimals", 0))[0] == 0 else roundto(m, a, bindargs("round", x, k, ("decimals", 0))[0]),
    "cumsum": lambda m, a, x, k: cumsum(m, a, *bindargs("cumsum", x, k, ("axis", None))),
    "dot": lambda m, a, x, k: dot(m, a, *bindargs("dot", x, k, "b")),
    "repeat": lambda m, a, x, k: repeat(m, a, *bindargs("repeat", x, k, "repeats", ("axis", None))),
    "searchsorted": lambda m, a, x, k: searchsorted(m, a, *bindargs("searchsorted", x, k, "v", ("side", "left"))),
    "argsort": lambda m, a, x, k: argsort(m, a, *bindargs("argsort", x, k, ("axis", -1), ("kind", None))),
    "sort": lambda m, a, x, k: sort_inplace(m, a, *bindargs("sort", x, k, ("axis", -1), ("kind", None))),
    "conj": lambda m, a, x, k: a,
    "prod": lambda m, a, x, k: reduce_(m, a, bindargs("prod", x, k, ("axis", None))[0], lambda p, q: sbin(m, "*", p, q), 1, dtype=I8 if a.dtype.kind in "bi" else a.dtype),
}


def astype_(m, a, dt, order, casting, subok, copy):
    d = todtype(m, dt)
    if order not in ("K", "C", "A") or casting not in ("unsafe", "same_kind", "safe"):
        raise Unsupported("astype arguments")
    if casting != "unsafe" and _ORD[a.dtype.kind] > _ORD[d.kind]:
        raise m.exc("TypeError", "Cannot cast array data according to the rule")
    if not m.truth(copy) and d == a.dtype:
        return a
    return astype(m, a, d)


def ravel_(m, a):
    # a view for contiguous arrays, a copy otherwise
    if a.idx and not isinstance(a.idx[0], tuple) and list(a.idx) != list(range(a.idx[0], a.idx[0] + len(a.idx))):
        a = a.copy(m)
    return reshape(m, a, (-1,))


def mean_(m, a, axis, dt, out, keep):
    if dt is not None or a.masked:
        raise Unsupported("mean arguments")
    ax = norm_axis(m, a, axis)
    n = prod([a.shape[i] for i in ax])
    r = sum_(m, astype(m, a, F8) if a.dtype.kind != "f" else a, axis, keep)
    if n == 0:
        raise Unsupported("mean of nothing")
    return intoout(m, out, call_ufunc(m, UFUNCS["true_divide"], [r, n], {}))


def filled(m, a, v):
    mk_ = a.maskof()
    if v is None:
        if mk_ is not None and any(mk_):
            raise Unsupported("filled with the default value")
        v = 0
    return newcast(m, [v if mk_ is not None and m.truth(mk_[i]) else e for i, e in enumerate(a.elems)], a.shape, a.dtype)


def squeeze(m, a, axis):
    if axis is None:
        ax = [i for i, s in enumerate(a.shape) if s == 1]
    else:
        ax = norm_axis(m, a, axis)
        if any(a.shape[i] != 1 for i in ax):
            raise m.exc("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    return NDArr(m, a.buf, a.idx, tuple(s for i, s in enumerate(a.shape) if i not in ax), a.dtype, a.masked, a.mbuf)


def swapaxes(m, a, i, j):
    order = list(range(len(a.shape)))
    i, j = m.index(i) % len(order), m.index(j) % len(order)
    order[i], order[j] = order[j], order[i]
    return transpose(m, a, order)


def take(m, a, indices, axis):
    if axis is None:
        return getitem(m, reshape(m, a, (-1,)), asarr(m, indices) if isinstance(indices, (tuple, AList)) else indices)
    return getitem(m, a, (slice(None),) * (m.index(axis) % len(a.shape)) + (asarr(m, indices) if isinstance(indices, (tuple, AList)) else indices,))


def argext(m, a, op, axis):
    if axis is not None and len(a.shape) > 1 or a.masked or a.size == 0:
        raise Unsupported("argmax/argmin along an axis")
    best = 0
    el = a.elems
    if any(isinstance(e, float) and e != e for e in el):
        raise Unsupported("argmax of NaN")
    for i in range(1, len(el)):
        if m.truth(scmp(m, op, el[i], el[best])):
            best = i
    return best


def roundto(m, a, n):
    if not all(isinstance(e, (int, float)) for e in a.elems) or any(isinstance(e, Poly) for e in a.elems):
        raise Unsupported("rounding of terms to decimals")
    return newcast(m, [round(e * 10**n) / 10.0**n for e in a.elems], a.shape, a.dtype)


def dot(m, a, b):
    b = asarr(m, b)
    if len(a.shape) != 1 or len(b.shape) != 1:
        raise Unsupported("dot of more than one dimension")
    if a.shape != b.shape:
        raise m.exc("ValueError", "shapes not aligned")
    return sum_(m, binop(m, "*", a, b))


def repeat(m, a, n, axis=None):
    a = asarr(m, a)
    if axis is not None and len(a.shape) > 1:
        raise Unsupported("repeat along an axis")
    if isinstance(n, (NDArr, AList, tuple)):
        n = [m.index(x) for x in (n.elems if isinstance(n, NDArr) else m.iterate(n))]
        n = n * a.size if len(n) == 1 else n
        if len(n) != a.size:
            raise m.exc("ValueError", "operands could not be broadcast together")
    else:
        n = [m.index(n)] * a.size
    el = [e for e, c in zip(a.elems, n) for _ in range(c)]
    return new(m, el, (len(el),), a.dtype)


def cumsum(m, a, axis=None):
    if axis is not None and len(a.shape) > 1 or a.masked:
        raise Unsupported("cumsum along an axis")
    acc = 0
    out = []
    for e in a.elems:
        acc = sbin(m, "+", acc, e)
        out.append(acc)
    return newcast(m, out, (a.size,), I8 if a.dtype.kind in "bi" else a.dtype)


def sortedidx(m, el):
    import functools

    def c(i, j):
        x, y = el[i], el[j]
        xn, yn = isinstance(x, float) and x != x, isinstance(y, float) and y != y
        if xn or yn:
            return xn - yn
        if m.truth(scmp(m, "<", x, y)):
            return -1
        if m.truth(scmp(m, ">", x, y)):
            return 1
        return 0
    return sorted(range(len(el)), key=functools.cmp_to_key(c))


def argsort(m, a, axis=-1, kind=None):
    if len(a.shape) > 1 and axis is not None or a.masked:
        raise Unsupported("argsort of several dimensions")
    return new(m, sortedidx(m, a.elems), (a.size,), I8)


def sort_inplace(m, a, axis=-1, kind=None):
    if len(a.shape) > 1 or a.masked:
        raise Unsupported("sort of several dimensions")
    el = a.elems
    for p, i in enumerate(sortedidx(m, el)):
        a.write(m, p, el[i])


def nonzero(m, a):
    a = asarr(m, a)
    cols = [[] for _ in a.shape]
    for p, e in enumerate(a.elems):
        if m.truth(e):
            rem = p
            co = []
            for s in reversed(a.shape):
                co.append(rem % s)
                rem //= s
            for c, v in zip(cols, reversed(co)):
                c.append(v)
    return tuple(new(m, c, (len(c),), I8) for c in cols)


def clip(m, args, kw):
    a, lo, hi, out = bindargs("clip", args, kw, "a", ("a_min", kw.get("min")), ("a_max", kw.get("max")), ("out", None)) if not ("min" in kw or "max" in kw) else (args[0], kw.get("min"), kw.get("max"), None)
    r = asarr(m, a)
    if lo is not None:
        r = call_ufunc(m, UFUNCS["maximum"], [r, lo], {})
    if hi is not None:
        r = call_ufunc(m, UFUNCS["minimum"], [r, hi], {"out": out} if out is not None else {})
    elif out is not None:
        setitem(m, out, Ellipsis, r)
        return out
    return r


def ufunc_at(m, uf, args):
    a, ind = args[0], args[1]
    vals = args[2] if len(args) > 2 else None
    if not isinstance(a, NDArr):
        raise m.exc("TypeError", "first operand must be array")
    if isinstance(ind, NDArr) and ind.dtype.kind == "b":
        pos, shape, _ = resolve(m, a, ind)
    else:
        if not isinstance(ind, (NDArr, tuple, AList, slice)):
            ind = asarr(m, ind)
            ind = reshape(m, ind, (-1,))
        pos, shape, _ = resolve(m, a, ind)
    if uf.nin == 1:
        for p in pos:
            a.write(m, p, uf.fn(m, a.buf.data[a.idx[p]]))
        return None
    va = asarr(m, vals)
    vv = broadcast_to(m, va.elems, va.shape, shape) if len(va.shape) <= len(shape) else None
    if vv is None:
        raise m.exc("ValueError", "array is not broadcastable to correct shape")
    if _ORD[va.dtype.kind] > _ORD[a.dtype.kind]:
        raise m.exc("TypeError", "Cannot cast ufunc '%s' output with casting rule 'same_kind'" % uf.name)
    for p, v in zip(pos, vv):
        a.write(m, p, uf.fn(m, a.buf.data[a.idx[p]], v))
    return None


# ---------------------------------------------------------------- functions

def _shape(m, s):
    if isinstance(s, (tuple, AList)):
        return tuple(m.index(x) for x in m.iterate(s))
    return (m.index(s),)


def full(m, shape, v, dtype=None, masked=False):
    shape = _shape(m, shape)
    if any(s < 0 for s in shape):
        raise m.exc("ValueError", "negative dimensions are not allowed")
    if isinstance(v, NDArr):
        if dtype is None:
            dtype = v.dtype
        el = broadcast_to(m, v.elems, v.shape, shape)
    else:
        if dtype is None:
            dtype = dtype_of(v)
        el = [v] * prod(shape)
    return newcast(m, el, shape, dtype, masked)


def unique(m, a, return_index=False, return_inverse=False, return_counts=False):
    a = asarr(m, a)
    el = a.elems
    for e in el:
        if isinstance(e, Poly):
            raise Unsupported("unique of terms")
    uniq = []
    inv = []
    for e in el:
        for i, u in enumerate(uniq):
            if u is e or (isinstance(u, float) and u != u and isinstance(e, float) and e != e) or m.truth(scmp(m, "==", u, e)):
                inv.append(i)
                break
        else:
            inv.append(len(uniq))
            uniq.append(e)
    order = sortedidx(m, uniq)
    rank = dict((o, r) for r, o in enumerate(order))
    u = new(m, [uniq[o] for o in order], (len(order),), a.dtype)
    out = [u]
    if return_index:
        out.append(new(m, [inv.index(o) for o in order], (len(order),), I8))
    if return_inverse:
        out.append(new(m, [rank[i] for i in inv], (len(inv),), I8))
    if return_counts:
        out.append(new(m, [inv.count(o) for o in order], (len(order),), I8))
    return tuple(out) if len(out) > 1 else u


def searchsorted(m, a, v, side="left"):
    edges = asarr(m, a).elems
    va = asarr(m, v)
    out = []
    for x in va.elems:
        n = 0
        for e in edges:
            if isinstance(x, float) and x != x:
                n += 1 if (e == e or side == "right") else 0
                continue
            if m.truth(scmp(m, "<=" if side == "right" else "<", e, x)):
                n += 1
        out.append(n)
    if va.shape == ():
        return out[0]
    return new(m, out, va.shape, I8)


def digitize(m, x, bins, right=False):
    edges = asarr(m, bins).elems
    inc = all(not m.truth(scmp(m, ">", p, q)) for p, q in zip(edges, edges[1:]))
    if inc:
        return searchsorted(m, bins, x, "left" if right else "right")
    raise Unsupported("digitize with decreasing bins")


def isin(m, x, test, invert=False):
    xa, ta = asarr(m, x), asarr(m, test)
    out = []
    for e in xa.elems:
        r = any(m.truth(scmp(m, "==", e, t)) for t in ta.elems)
        out.append(r != invert)
    if xa.shape == ():
        return new(m, out, (), B1)
    return new(m, out, xa.shape, B1)


def where(m, args):
    if len(args) == 1:
        return nonzero(m, args[0])
    c, a, b = [asarr(m, x) for x in args]
    shape = bcast(m, bcast(m, c.shape, a.shape), b.shape)
    sc = [a.shape == (), b.shape == ()]
    if sc == [True, True] or sc == [False, False]:
        d = promote(a.dtype, b.dtype)
    elif sc[0]:
        d = weak(b.dtype, a.dtype)
    else:
        d = weak(a.dtype, b.dtype)
    ce, ae, be = [broadcast_to(m, x.elems, x.shape, shape) for x in (c, a, b)]
    el = [ae[i] if m.truth(x) else be[i] for i, x in enumerate(ce)]
    return newcast(m, el, shape, d)


def concatenate(m, seq, axis=0):
    arrs = [asarr(m, x) for x in m.iterate(seq)]
    if not arrs:
        raise m.exc("ValueError", "need at least one array to concatenate")
    d = arrs[0].dtype
    for a in arrs[1:]:
        d = promote(d, a.dtype)
    axis = m.index(axis)
    n = len(arrs[0].shape)
    axis %= max(n, 1)
    for a in arrs:
        if len(a.shape) != n or any(i != axis and x != y for i, (x, y) in enumerate(zip(a.shape, arrs[0].shape))):
            raise m.exc("ValueError", "all the input array dimensions for the concatenation axis must match exactly")
    outer = prod(arrs[0].shape[:axis])
    el = []
    for o in range(outer):
        for a in arrs:
            k = a.size // outer if outer else 0
            el.extend(a.elems[o * k:(o + 1) * k])
    shape = list(arrs[0].shape)
    shape[axis] = sum(a.shape[axis] for a in arrs)
    return newcast(m, el, tuple(shape), d)


def array_equal(m, a, b):
    a, b = asarr(m, a), asarr(m, b)
    if a.shape != b.shape:
        return False
    return all(m.truth(scmp(m, "==", x, y)) if not isinstance(x, tuple) else x == y for x, y in zip(a.elems, b.elems))


class _NoMask(object):
    def __repr__(self):
        return "nomask"


NOMASK = False


def mathfn(m, name, args):
    """math.<name> on abstract scalars."""
    names = {"sqrt": "sqrt", "exp": "exp", "log": "log", "log2": "log2", "log10": "log10", "log1p": "log1p", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "arcsin", "acos": "arccos",
             "atan": "arctan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh", "floor": "floor", "ceil": "ceil", "trunc": "trunc",
             "fabs": "absolute", "isnan": "isnan", "isinf": "isinf", "degrees": "rad2deg", "radians": "deg2rad", "expm1": "expm1", "erf": "erf", "erfc": "erfc", "gamma": "gamma", "lgamma": "lgamma", "isfinite": "isfinite"}
    if len(args) == 1 and name in names:
        return sun(m, names[name], args[0])
    if len(args) == 2 and name in ("pow", "atan2", "fmod", "hypot", "copysign"):
        return sbin(m, {"pow": "**", "atan2": "arctan2", "fmod": "fmod", "hypot": "hypot", "copysign": "copysign"}[name], args[0], args[1])
    raise Unsupported("math.%s of abstract value" % name)


def make_module(m):
    t = m.types
    ns = {}

    def reg(name):
        def d(f):
            ns[name] = BFn("numpy." + name, f)
            return f
        return d
    for n, u in UFUNCS.items():
        ns[n] = u
    for n in ("generic", "number", "integer", "inexact", "floating", "complexfloating", "bool_", "str_", "bytes_", "object_", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
              "float16", "float32", "float64", "complex128", "character", "flexible", "void"):
        ns[n] = t["np." + n]
    ns["bool"] = t["bool"]
    ns["float"] = t["float"]
    ns["int"] = t["int"]
    ns["object"] = t["object"]
    ns["str"] = t["str"]
    ns["double"] = t["np.float64"]
    ns["intp"] = t["np.int64"]
    ns["float_"] = t["np.float64"]
    ns["int_"] = t["np.int64"]
    ns["ndarray"] = t["ndarray"]
    ns["dtype"] = t["dtype"]
    ns["ufunc"] = t["ufunc"]
    ns["pi"], ns["e"], ns["inf"], ns["nan"], ns["newaxis"] = math.pi, math.e, INF, NAN, None
    ns["Inf"], ns["NaN"], ns["NAN"], ns["infty"] = INF, NAN, NAN, INF
    ns["__version__"] = "1.22.4"

    @reg("array")
    def _array(m, a, k):
        obj, dt, copy, ndmin, order, subok = bindargs("array", a, k, "object", ("dtype", None), ("copy", True), ("ndmin", 0), ("order", None), ("subok", False))
        d = todtype(m, dt) if dt is not None else None
        r = asarr(m, obj, d)
        if r is obj:
            r = r.copy(m) if m.truth(copy) else r
            if isinstance(obj, NDArr) and obj.masked and not subok:
                r = NDArr(m, r.buf, r.idx, r.shape, r.dtype)
        if ndmin > len(r.shape):
            r = reshape(m, r, (1,) * (ndmin - len(r.shape)) + r.shape)
        return r

    @reg("asarray")
    def _asarray(m, a, k):
        obj, dt = bindargs("asarray", a, k, "a", ("dtype", None))
        return asarr(m, obj, todtype(m, dt) if dt is not None else None)
    ns["asanyarray"] = ns["ascontiguousarray"] = ns["asarray"]

    @reg("zeros")
    def _zeros(m, a, k):
        s, d = bindargs("zeros", a, k, "shape", ("dtype", None))
        d = todtype(m, d)
        return full(m, s, {"b": False, "f": 0.0, "U": ""}.get(d.kind, 0), d)

    @reg("ones")
    def _ones(m, a, k):
        s, d = bindargs("ones", a, k, "shape", ("dtype", None))
        return full(m, s, 1.0, todtype(m, d))

    @reg("empty")
    def _empty(m, a, k):
        s, d = bindargs("empty", a, k, "shape", ("dtype", None))
        d = todtype(m, d)
        return new(m, uninit(m, prod(_shape(m, s)), d), _shape(m, s), d)

    @reg("full")
    def _full(m, a, k):
        s, v, d = bindargs("full", a, k, "shape", "fill_value", ("dtype", None))
        return full(m, s, v, None if d is None else todtype(m, d))

    def like(val):
        def f(m, a, k):
            x, d = bindargs("like", a, k, "a", ("dtype", None))
            x = asarr(m, x)
            return full(m, x.shape, val, x.dtype if d is None else todtype(m, d))
        return f
    ns["zeros_like"] = BFn("zeros_like", like(0))
    ns["ones_like"] = BFn("ones_like", like(1))

    @reg("empty_like")
    def _empty_like(m, a, k):
        x, d = bindargs("empty_like", a, k, "a", ("dtype", None))
        x = asarr(m, x)
        d = x.dtype if d is None else todtype(m, d)
        return new(m, uninit(m, x.size, d), x.shape, d)

    @reg("full_like")
    def _full_like(m, a, k):
        x, v, d = bindargs("full_like", a, k, "a", "fill_value", ("dtype", None))
        x = asarr(m, x)
        return full(m, x.shape, v, todtype(m, d) if d is not None else x.dtype)

    @reg("arange")
    def _arange(m, a, k):
        d = bindargs("arange", [], k, ("dtype", None))[0]
        if not all(isinstance(x, (int, float)) for x in a) or len(a) > 3:
            raise Unsupported("arange of abstract bounds")
        if len(a) == 1:
            st, sp, step = 0, a[0], 1
        elif len(a) == 2:
            st, sp, step = a[0], a[1], 1
        else:
            st, sp, step = a[:3]
        n = max(0, int(math.ceil((sp - st) / step)))
        el = [st + i * step for i in range(n)]
        dt = todtype(m, d) if d is not None else (I8 if all(isinstance(x, int) for x in a) else F8)
        return newcast(m, el, (n,), dt)

    @reg("linspace")
    def _linspace(m, a, k):
        st, sp, n, endpoint = bindargs("linspace", a, k, "start", "stop", ("num", 50), ("endpoint", True))
        div = (n - 1) if endpoint else n
        el = [st + (sp - st) * i / float(div) if div else float(st) for i in range(n)]
        if endpoint and n > 1:
            el[-1] = float(sp)
        return newcast(m, el, (n,), F8)
    reg("sum")(lambda m, a, k: (lambda x, axis, dt, out, keep: intoout(m, out, sum_(m, x, axis, keep, dt)))(*bindargs("sum", a, k, "a", ("axis", None), ("dtype", None), ("out", None), ("keepdims", False))))
    for meth in ("any", "all", "max", "min", "squeeze", "prod", "mean", "cumsum", "argsort", "repeat", "take", "ravel", "reshape", "transpose", "nonzero", "dot", "argmax", "argmin", "swapaxes", "compress", "round",
                 "searchsorted", "trace", "ptp"):
        if meth in METHODS:
            reg(meth)(lambda m, a, k, meth=meth: METHODS[meth](m, asarr(m, a[0]), list(a[1:]), k) if a else unsupported("numpy.%s without positional array" % meth))
    ns["amax"], ns["amin"] = ns["max"], ns["min"]
    reg("count_nonzero")(lambda m, a, k: (lambda x, axis: sum(1 for e in asarr(m, x).elems if m.truth(e)) if axis is None else reduce_(m, x, axis, lambda p, q: p + (1 if m.truth(q) else 0), 0, dtype=I8))(*bindargs("count_nonzero", a, k, "a", ("axis", None))))
    reg("unique")(lambda m, a, k: unique(m, *bindargs("unique", a, k, "ar", ("return_index", False), ("return_inverse", False), ("return_counts", False))))
    reg("digitize")(lambda m, a, k: digitize(m, *bindargs("digitize", a, k, "x", "bins", ("right", False))))
    reg("isin")(lambda m, a, k: (lambda e, t, au, inv: isin(m, e, t, inv))(*bindargs("isin", a, k, "element", "test_elements", ("assume_unique", False), ("invert", False))))
    reg("in1d")(lambda m, a, k: (lambda e, t, au, inv: reshape(m, isin(m, e, t, inv), (-1,)))(*bindargs("in1d", a, k, "ar1", "ar2", ("assume_unique", False), ("invert", False))))
    reg("where")(lambda m, a, k: where(m, a) if not k and len(a) in (1, 3) else unsupported("numpy.where arguments"))
    reg("clip")(lambda m, a, k: clip(m, a, k))
    reg("concatenate")(lambda m, a, k: concatenate(m, *bindargs("concatenate", a, k, "arrays", ("axis", 0))))

    @reg("append")
    def _append(m, a, k):
        x, y, axis = bindargs("append", a, k, "arr", "values", ("axis", None))
        if axis is None:
            return concatenate(m, AList(m, [reshape(m, asarr(m, x), (-1,)), reshape(m, asarr(m, y), (-1,))]))
        return concatenate(m, AList(m, [x, y]), axis)
    reg("array_equal")(lambda m, a, k: array_equal(m, *bindargs("array_equal", a, k, "a1", "a2")))

    @reg("array_equiv")
    def _array_equiv(m, a, k):
        x, y = [asarr(m, z) for z in bindargs("array_equiv", a, k, "a1", "a2")]
        try:
            shape = bcast(m, x.shape, y.shape)
        except PyExc:
            return False
        return all(m.truth(scmp(m, "==", p, q)) for p, q in zip(broadcast_to(m, x.elems, x.shape, shape), broadcast_to(m, y.elems, y.shape, shape)))
    reg("copy")(lambda m, a, k: asarr(m, bindargs("copy", a, k, "a")[0]).copy(m))
    reg("flatnonzero")(lambda m, a, k: nonzero(m, reshape(m, asarr(m, a[0]), (-1,)))[0])
    reg("sort")(lambda m, a, k: (lambda r: (METHODS["sort"](m, r, list(a[1:]), k), r)[1])(asarr(m, a[0]).copy(m)))
    reg("isscalar")(lambda m, a, k: not isinstance(a[0], (NDArr, AList, tuple, ADict, AObj)))
    reg("shape")(lambda m, a, k: asarr(m, a[0]).shape)
    reg("ndim")(lambda m, a, k: len(asarr(m, a[0]).shape))
    reg("size")(lambda m, a, k: asarr(m, a[0]).size)
    reg("atleast_1d")(lambda m, a, k: (lambda r: r if r.shape else reshape(m, r, (1,)))(asarr(m, bindargs("atleast_1d", a, k, "a")[0])))
    reg("atleast_2d")(lambda m, a, k: (lambda r: r if len(r.shape) > 1 else reshape(m, r, (1, -1)))(asarr(m, bindargs("atleast_2d", a, k, "a")[0])))
    reg("moveaxis")(lambda m, a, k: moveaxis(m, *bindargs("moveaxis", a, k, "a", "source", "destination")))
    reg("flip")(lambda m, a, k: flip(m, *bindargs("flip", a, k, "m", ("axis", None))))

    @reg("allclose")
    def _allclose(m, a, k):
        return m.truth(all_(m, asarr(m, ns["isclose"].fn(m, a, k))))

    @reg("eye")
    def _eye(m, a, k):
        n, mm, kk, d = bindargs("eye", a, k, "N", ("M", None), ("k", 0), ("dtype", None))
        n = m.index(n)
        mm = n if mm is None else m.index(mm)
        return newcast(m, [1 if j == i + kk else 0 for i in range(n) for j in range(mm)], (n, mm), todtype(m, d))
    ns["identity"] = ns["eye"]

    @reg("ndindex")
    def _ndindex(m, a, k):
        import itertools
        shape = _shape(m, a[0]) if len(a) == 1 else tuple(m.index(x) for x in a)
        return AIter(iter(list(itertools.product(*[range(x) for x in shape]))))

    @reg("ndenumerate")
    def _ndenumerate(m, a, k):
        import itertools
        x = asarr(m, a[0])
        return AIter(iter(list(zip(itertools.product(*[range(i) for i in x.shape]), [wrapscalar(m, e) for e in x.elems]))))

    @reg("unravel_index")
    def _unravel(m, a, k):
        x, shape = bindargs("unravel_index", a, k, "indices", "shape")
        shape = _shape(m, shape)
        sc = not isinstance(x, (NDArr, AList, tuple))
        x = asarr(m, x)
        cols = [[] for _ in shape]
        for e in x.elems:
            e = concrete(m, e)
            if not 0 <= e < prod(shape):
                raise m.exc("ValueError", "index out of bounds")
            for c, n in reversed(list(zip(cols, shape))):
                c.append(e % n)
                e //= n
        return tuple(c[0] if sc else new(m, c, x.shape, I8) for c in cols)

    @reg("ravel_multi_index")
    def _ravelmulti(m, a, k):
        xs, shape = bindargs("ravel_multi_index", a, k, "multi_index", "dims")
        xs = list(m.iterate(xs))
        shape = _shape(m, shape)
        sc = not any(isinstance(x, (NDArr, AList, tuple)) for x in xs)
        xs = [asarr(m, x) for x in xs]
        if len(xs) != len(shape):
            raise m.exc("ValueError", "parameter multi_index must be a sequence of length %d" % len(shape))
        sh = ()
        for x in xs:
            sh = bcast(m, sh, x.shape)
        cols = [[concrete(m, e) for e in broadcast_to(m, x.elems, x.shape, sh)] for x in xs]
        out = []
        for t in zip(*cols):
            p = 0
            for e, n in zip(t, shape):
                if not 0 <= e < n:
                    raise m.exc("ValueError", "invalid entry in coordinates array")
                p = p * n + e
            out.append(p)
        return out[0] if sc else new(m, out, sh, I8)
    reg("broadcast_to")(lambda m, a, k: (lambda r, s: NDArr(m, r.buf, broadcast_to(m, r.idx, r.shape, s), s, r.dtype))(asarr(m, a[0]), _shape(m, a[1])))

    @reg("expand_dims")
    def _expand(m, a, k):
        x, ax = bindargs("expand_dims", a, k, "a", "axis")
        return expand(m, asarr(m, x), ax)

    @reg("diff")
    def _diff(m, a, k):
        r, n, axis = bindargs("diff", a, k, "a", ("n", 1), ("axis", -1))
        r = asarr(m, r)
        pre = (slice(None),) * (m.index(axis) % len(r.shape))
        for _ in range(m.index(n)):
            r = binop(m, "-", getitem(m, r, pre + (slice(1, None),)), getitem(m, r, pre + (slice(None, -1),)))
        return r

    @reg("result_type")
    def _result_type(m, a, k):
        ds = [x.dtype if isinstance(x, NDArr) else todtype(m, x) for x in a]
        d = ds[0]
        for x in ds[1:]:
            d = promote(d, x)
        return d
    reg("issubdtype")(lambda m, a, k: {"floating": "f", "integer": "iu", "number": "iufc", "inexact": "fc", "bool_": "b", "str_": "U", "generic": "biufcUSOV", "character": "US"}.get(a[1].name.replace("np.", ""), todtype(m, a[1]).kind).find(todtype(m, a[0]).kind) >= 0)

    @reg("tile")
    def _tile(m, a, k):
        x, reps = bindargs("tile", a, k, "A", "reps")
        x = asarr(m, x)
        reps = _shape(m, reps)
        n = max(len(reps), len(x.shape))
        reps = (1,) * (n - len(reps)) + reps
        x = reshape(m, x, (1,) * (n - len(x.shape)) + x.shape)
        for i, r in enumerate(reps):
            if r == 0:
                raise Unsupported("tile zero times")
            x = concatenate(m, AList(m, [x] * r), i)
        return x

    def two(m, r):
        return r if len(r.shape) > 1 else reshape(m, r, (1, -1))

    @reg("vstack")
    def _vstack(m, a, k):
        return concatenate(m, AList(m, [two(m, asarr(m, x)) for x in m.iterate(bindargs("vstack", a, k, "tup")[0])]), 0)

    @reg("hstack")
    def _hstack(m, a, k):
        arrs = [asarr(m, x) for x in m.iterate(bindargs("hstack", a, k, "tup")[0])]
        arrs = [x if x.shape else reshape(m, x, (1,)) for x in arrs]
        return concatenate(m, AList(m, arrs), 0 if arrs and len(arrs[0].shape) == 1 else 1)

    @reg("column_stack")
    def _colstack(m, a, k):
        arrs = [asarr(m, x) for x in m.iterate(bindargs("column_stack", a, k, "tup")[0])]
        return concatenate(m, AList(m, [x if len(x.shape) > 1 else reshape(m, x, (-1, 1)) for x in arrs]), 1)

    @reg("dstack")
    def _dstack(m, a, k):
        arrs = [two(m, asarr(m, x)) for x in m.iterate(bindargs("dstack", a, k, "tup")[0])]
        return concatenate(m, AList(m, [x if len(x.shape) > 2 else reshape(m, x, x.shape + (1,)) for x in arrs]), 2)

    @reg("stack")
    def _stack(m, a, k):
        arrs, axis = bindargs("stack", a, k, "arrays", ("axis", 0))
        arrs = [asarr(m, x) for x in m.iterate(arrs)]
        if not arrs:
            raise m.exc("ValueError", "need at least one array to stack")
        if any(x.shape != arrs[0].shape for x in arrs):
            raise m.exc("ValueError", "all input arrays must have the same shape")
        axis = m.index(axis) % (len(arrs[0].shape) + 1)
        return concatenate(m, AList(m, [expand(m, x, axis) for x in arrs]), axis)
    reg("isclose")(lambda m, a, k: call_ufunc(m, UFunc("isclose", 2, lambda m, x, y: constbin(m, "isclose", x, y), "bool"), a, {}) if len(a) == 2 and not k else unsupported("numpy.isclose with tolerances"))
    reg("may_share_memory")(lambda m, a, k: a[0].buf is a[1].buf)
    ns["shares_memory"] = ns["may_share_memory"]
    reg("seterr")(lambda m, a, k: ADict(m))
    reg("bincount")(lambda m, a, k: bincount(m, *bindargs("bincount", a, k, "x", ("weights", None), ("minlength", 0))))
    ns["around"] = ns["round_"] = ns["round"]
    reg("nan_to_num")(lambda m, a, k: nan_to_num(m, asarr(m, bindargs("nan_to_num", a, k, "x")[0])))

    @reg("copyto")
    def _copyto(m, a, k):
        dst, src, casting, wh = bindargs("copyto", a, k, "dst", "src", ("casting", "same_kind"), ("where", True))
        if wh is True:
            setitem(m, dst, Ellipsis, src)
        else:
            wa, sa = asarr(m, wh), asarr(m, src)
            vals = broadcast_to(m, sa.elems, sa.shape, dst.shape)
            for p, w in enumerate(broadcast_to(m, wa.elems, wa.shape, dst.shape)):
                if m.truth(w):
                    dst.write(m, p, cast(m, vals[p], dst.dtype))
    reg("iscomplexobj")(lambda m, a, k: asarr(m, a[0]).dtype.kind == "c")

    def errstate(m, a, k):
        o = AObj(m, errcls)
        return o
    errcls = AClass(None, "errstate", [t["object"]], {"__enter__": BFn("__enter__", lambda m, a, k: None), "__exit__": BFn("__exit__", lambda m, a, k: None)}, None)
    ns["errstate"] = BFn("errstate", errstate)

    ma = {}

    def ma_array(m, a, k):
        obj, dt, copy, mask, order, keep, sub = bindargs("ma.array", a, k, "data", ("dtype", None), ("copy", False), ("mask", NOMASK), ("order", None), ("keep_mask", True), ("subok", True))
        src = obj if isinstance(obj, NDArr) else None
        arr = asarr(m, obj, todtype(m, dt) if dt is not None else None)
        if m.truth(copy) and arr is src:
            arr = arr.copy(m)
        r = NDArr(m, arr.buf, arr.idx, arr.shape, arr.dtype, True, arr.mbuf)
        if mask is not NOMASK and mask is not None:
            if mask is True:
                mk_ = [True] * r.size
            else:
                ma_ = asarr(m, mask)
                mk_ = [m.truth(x) for x in broadcast_to(m, ma_.elems, ma_.shape, r.shape)]
            old = arr.maskof()
            if old is not None:
                mk_ = [p or q for p, q in zip(mk_, old)]
            setmask(m, r, mk_)
        return r
    ma["array"] = ma["masked_array"] = BFn("ma.array", ma_array)
    ma["asarray"] = ma["array"]
    ma["MaskedArray"] = t["MaskedArray"]
    ma["masked"] = MASKED
    ma["nomask"] = NOMASK
    ma["zeros"] = BFn("ma.zeros", lambda m, a, k: (lambda s, d: full(m, s, 0, todtype(m, d), True))(*bindargs("ma.zeros", a, k, "shape", ("dtype", None))))
    ma["ones"] = BFn("ma.ones", lambda m, a, k: (lambda s, d: full(m, s, 1, todtype(m, d), True))(*bindargs("ma.ones", a, k, "shape", ("dtype", None))))
    ma["empty"] = ma["zeros"]

    def getmask(m, a, k):
        x = a[0]
        if isinstance(x, Masked):
            return True
        if isinstance(x, NDArr) and x.masked:
            mk_ = x.maskof()
            return NOMASK if mk_ is None else NDArr(m, x.mbuf, list(x.idx), x.shape, B1)
        return NOMASK
    ma["getmask"] = BFn("ma.getmask", getmask)

    def getmaskarray(m, a, k):
        x = a[0]
        mk_ = x.maskof() if isinstance(x, NDArr) else None
        x = asarr(m, x)
        return new(m, mk_ if mk_ is not None else [False] * x.size, x.shape, B1)
    ma["getmaskarray"] = BFn("ma.getmaskarray", getmaskarray)
    ma["getdata"] = BFn("ma.getdata", lambda m, a, k: NDArr(m, a[0].buf, a[0].idx, a[0].shape, a[0].dtype) if isinstance(a[0], NDArr) else asarr(m, a[0]))
    ma["isMaskedArray"] = BFn("ma.isMaskedArray", lambda m, a, k: isinstance(a[0], NDArr) and a[0].masked)
    ma["is_masked"] = BFn("ma.is_masked", lambda m, a, k: isinstance(a[0], NDArr) and a[0].masked and any(a[0].maskof() or ()))
    ma["compressed"] = BFn("ma.compressed", lambda m, a, k: compressed(m, a[0]) if a[0].masked else reshape(m, a[0], (-1,)))
    ma["masked_where"] = BFn("ma.masked_where", lambda m, a, k: ma_array(m, [asarr(m, a[1]).copy(m)], {"mask": a[0]}))
    ns["ma"] = AMod("numpy.ma", ma)
    return AMod("numpy", ns)


ROUND = UFunc("round", 1, lambda m, a: sun(m, "round", a), "same")


def m_uninit(m):
    return m.__dict__.get("uninit", 0)


def unsupported(what):
    raise Unsupported(what)


def nan_to_num(m, x):
    def one(e):
        if isinstance(e, float) and (e != e or e in (INF, -INF)):
            return 0.0 if e != e else 1.7976931348623157e308 if e > 0 else -1.7976931348623157e308
        return e
    return newcast(m, [one(e) for e in x.elems], x.shape, x.dtype)


def intoout(m, out, r):
    if out is None:
        return r
    if not isinstance(out, NDArr):
        raise m.exc("TypeError", "return arrays must be of ArrayType")
    if asarr(m, r).shape != out.shape:
        raise m.exc("ValueError", "output parameter has the wrong shape")
    setitem(m, out, Ellipsis, r)
    return out


def expand(m, x, ax):
    n = len(x.shape) + 1
    ax = m.index(ax)
    if not -n <= ax < n:
        raise m.exc("ValueError", "axis %d is out of bounds for array of dimension %d" % (ax, n))
    ax %= n
    return reshape(m, x, x.shape[:ax] + (1,) + x.shape[ax:])


def moveaxis(m, x, src, dst):
    x = asarr(m, x)
    n = len(x.shape)
    src = [i % n for i in _shape(m, src)]
    dst = [i % n for i in _shape(m, dst)]
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(m, x, order)


def flip(m, x, axis):
    x = asarr(m, x)
    ax = norm_axis(m, x, axis)
    return getitem(m, x, tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(len(x.shape))))


def bincount(m, x, weights, minlength):
    x = asarr(m, x)
    idx = [concrete(m, e) for e in x.elems]
    n = max([minlength] + [i + 1 for i in idx])
    w = asarr(m, weights).elems if weights is not None else [1] * len(idx)
    acc = [0.0 if weights is not None else 0] * n
    for i, v in zip(idx, w):
        if i < 0:
            raise m.exc("ValueError", "'list' argument must have no negative elements")
        acc[i] = sbin(m, "+", acc[i], v)
    return newcast(m, acc, (n,), F8 if weights is not None else I8)
