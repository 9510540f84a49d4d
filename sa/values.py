"""Abstract scalar domains used by the analyser.

Constants are host Python values (None, bool, int, float, str, bytes, Fraction-free).
Non-constant scalars are one of

* Poly -- a value-number (Herbrand) term over named symbols.  A symbol stands for *every*
          finite real number in its declared sign class.  Two terms are equal iff they are equal
          as functions of their symbols (decided by polynomial-identity evaluation of the terms).
* Rng  -- an interval of the real line (open/closed ends, possibly integer valued).  It stands for
          every value in the interval.

Nothing here executes analysed code.
"""
import cmath
import math
import random
from fractions import Fraction

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """The analysed construct is outside the modelled subset: the obligation stays undetermined."""


class Undecided(Exception):
    pass


def isnum(v):
    return isinstance(v, (bool, int, float, Fraction))


def frac(v):
    if isinstance(v, Fraction):
        return v
    return Fraction(v)


# ---------------------------------------------------------------------------------------- Poly

class Poly(object):
    __slots__ = ("op", "args", "_key", "_pos", "isint")

    def __init__(self, op, args, pos=None, isint=False):
        self.op = op
        self.args = args
        self._key = None
        self._pos = pos
        self.isint = isint

    # printing -------------------------------------------------------------------------------
    def __repr__(self):
        if self.op == "sym":
            return self.args[0]
        if self.op in ("+", "-", "*", "/") and len(self.args) == 2:
            return "(%r %s %r)" % (self.args[0], self.op, self.args[1])
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))

    # sign: ">0", ">=0", "<0", None ------------------------------------------------------------
    def sign(self):
        if self._pos is None:
            self._pos = self._sign() or "?"
        return None if self._pos == "?" else self._pos

    def _sign(self):
        o = self.op
        if o == "sym":
            return None
        s = [sign_of(a) for a in self.args]
        if o == "+":
            if all(x in (">0", ">=0", "0") for x in s):
                return ">0" if ">0" in s else ">=0"
            if all(x in ("<0", "<=0", "0") for x in s):
                return "<0" if "<0" in s else "<=0"
            return None
        if o == "-":
            a, b = s
            if a in (">0", ">=0", "0") and b in ("<0", "<=0", "0"):
                return ">0" if a == ">0" or b == "<0" else ">=0"
            if a in ("<0", "<=0", "0") and b in (">0", ">=0", "0"):
                return "<0" if a == "<0" or b == ">0" else "<=0"
            return None
        if o in ("*", "/"):
            if None in s:
                if o == "*" and equal(self.args[0], self.args[1]):
                    return ">=0"
                return None
            if "0" in s:
                return ">=0"
            neg = sum(1 for x in s if x.startswith("<")) % 2
            strict = all("=" not in x for x in s)
            return ("<" if neg else ">") + ("0" if strict else "=0")
        if o in ("sqrt", "square", "abs"):
            if s[0] in (">0", "<0"):
                return ">0"
            return ">=0"
        if o in ("exp", "exp2", "cosh"):
            return ">0"
        return None

    def symbols(self, acc=None):
        acc = set() if acc is None else acc
        if self.op == "sym":
            acc.add(self.args[0])
        else:
            for a in self.args:
                if isinstance(a, Poly):
                    a.symbols(acc)
        return acc


def sign_of(v):
    if isinstance(v, Poly):
        return v.sign()
    if isinstance(v, (bool, int, float, Fraction)):
        if v != v:
            return None
        return ">0" if v > 0 else ("<0" if v < 0 else "0")
    if isinstance(v, Rng):
        if v.lo > 0 or (v.lo == 0 and v.lo_open):
            return ">0"
        if v.hi < 0 or (v.hi == 0 and v.hi_open):
            return "<0"
        if v.lo >= 0:
            return ">=0"
        if v.hi <= 0:
            return "<=0"
    return None


def sym(name, pos=">0", isint=False):
    return Poly("sym", (name,), pos=pos, isint=isint)


_POINTS = {}


def _point(name, k):
    key = (name, k)
    v = _POINTS.get(key)
    if v is None:
        r = random.Random("%s#%d" % (name, k))
        v = Fraction(r.randint(500, 2000), r.choice([701, 811, 907, 997]))
        _POINTS[key] = v
    return v


_FUN = {
    "sqrt": cmath.sqrt, "exp": cmath.exp, "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan,
    "sinh": cmath.sinh, "cosh": cmath.cosh, "tanh": cmath.tanh, "log": cmath.log,
}


def _hashfun(name, vals):
    # opaque function: deterministic pseudo-random value of its (rounded) arguments
    key = name + "|" + "|".join("%.9e,%.9e" % (complex(v).real, complex(v).imag) for v in vals)
    return random.Random(key).uniform(0.5, 1.9)


def evalterm(v, k, memo):
    if isinstance(v, Poly):
        i = id(v)
        if i in memo:
            return memo[i][1]
        o = v.op
        if o == "sym":
            r = _point(v.args[0], k)
            if v.sign() is None and random.Random("%s!%d" % (v.args[0], k)).random() < 0.5:
                r = -r
        else:
            a = [evalterm(x, k, memo) for x in v.args]
            if o == "+":
                r = a[0] + a[1]
            elif o == "-":
                r = a[0] - a[1]
            elif o == "*":
                r = a[0] * a[1]
            elif o == "/":
                if a[1] == 0:
                    r = complex(12345.678, 9.1)
                else:
                    r = a[0] / a[1]
            elif o == "neg":
                r = -a[0]
            elif o == "abs":
                r = abs(a[0])
            elif o == "square":
                r = a[0] * a[0]
            elif o == "pow":
                try:
                    r = complex(a[0]) ** complex(a[1]) if not (isinstance(a[1], Fraction) and a[1].denominator == 1 and isinstance(a[0], Fraction) and a[0] != 0) else a[0] ** int(a[1])
                except (OverflowError, ZeroDivisionError):
                    r = complex(5.5, 1)
            elif o in _FUN:
                try:
                    r = _FUN[o](complex(a[0]))
                except (OverflowError, ValueError):
                    r = complex(3.3, 1)
            elif o in ("max", "min"):
                key = (lambda z: complex(z).real)
                r = max(a, key=key) if o == "max" else min(a, key=key)
            else:
                r = _hashfun(o, a)
        memo[i] = (v, r)
        return r
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            return complex(v, 0)
        return Fraction(v)
    if isinstance(v, complex):
        return v
    if isinstance(v, Rng):
        return evaltag(v.tag, k)
    raise Unsupported("cannot evaluate term %r" % (v,))


def _close(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        if a == b:
            return True
        # coefficients may come from rounded float constants (e.g. 1.0/3)
        return abs(a - b) <= Fraction(1, 10 ** 9) * max(abs(a), abs(b), Fraction(1, 1000))
    a, b = complex(a), complex(b)
    if a != a and b != b:
        return True
    if a == b:
        return True
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def equal(a, b, n=4):
    """Equality of two scalar abstract values as functions of their symbols."""
    if a is b:
        return True
    if isinstance(a, Rng) and isinstance(b, Rng) and a.same(b):
        return True
    if isinstance(a, (Poly, Rng)) or isinstance(b, (Poly, Rng)):
        for v in (a, b):
            if not isinstance(v, (Poly, Rng, bool, int, float, Fraction, complex)):
                return False
        for k in range(n):
            memo = {}
            if not _close(evalterm(a, k, memo), evalterm(b, k, memo)):
                return False
        return True
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a != a and b != b:
            return True
        if a == b:
            return True
        if a in (INF, -INF) or b in (INF, -INF) or a != a or b != b:
            return False
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return type(a) == type(b) and a == b


def mk(op, *args):
    """Build a term with light constant folding."""
    consts = all(isinstance(a, (bool, int, float, Fraction)) for a in args)
    if op == "+":
        a, b = args
        if isnum(a) and a == 0:
            return b
        if isnum(b) and b == 0:
            return a
    elif op == "-":
        a, b = args
        if isnum(b) and b == 0:
            return a
    elif op == "*":
        a, b = args
        if (isnum(a) and a == 1):
            return b
        if (isnum(b) and b == 1):
            return a
        if (isnum(a) and a == 0) or (isnum(b) and b == 0):
            return 0.0
    elif op == "/":
        a, b = args
        if isnum(b) and b == 1:
            return a
        if isnum(a) and a == 0:
            return 0.0
    isint = op in ("+", "-", "*") and all(isintlike(a) for a in args)
    return Poly(op, tuple(args), isint=isint)


def isintlike(a):
    if isinstance(a, Poly):
        return a.isint
    if isinstance(a, Rng):
        return a.isint
    return isinstance(a, int)


# ---------------------------------------------------------------------------------------- Rng

class Rng(object):
    """Real interval <lo, hi>; lo/hi are Fractions or +-inf floats."""
    __slots__ = ("lo", "hi", "lo_open", "hi_open", "isint", "tag")
    count = 0

    def __init__(self, lo, hi, lo_open=True, hi_open=True, isint=False, tag=None):
        self.lo = lo if lo in (INF, -INF) else frac(lo)
        self.hi = hi if hi in (INF, -INF) else frac(hi)
        self.lo_open = lo_open or self.lo == -INF
        self.hi_open = hi_open or self.hi == INF
        self.isint = isint
        if isint:
            if self.lo != -INF:
                l = math.ceil(self.lo)
                if self.lo_open and l == self.lo:
                    l += 1
                self.lo, self.lo_open = Fraction(l), False
            if self.hi != INF:
                h = math.floor(self.hi)
                if self.hi_open and h == self.hi:
                    h -= 1
                self.hi, self.hi_open = Fraction(h), False
        if tag is None:
            Rng.count += 1
            tag = ("r", Rng.count, self.lo, self.hi, isint)
        self.tag = tag

    def __repr__(self):
        def f(x):
            return "%g" % float(x)
        return "%s%s%s,%s%s" % ("int" if self.isint else "", "(" if self.lo_open else "[", f(self.lo), f(self.hi), ")" if self.hi_open else "]")

    def same(self, o):
        return self.tag == o.tag

    def sign(self):
        return sign_of(self)

    def norm(self):
        """Collapse a single-point interval to a constant."""
        if self.lo == self.hi and not self.lo_open and not self.hi_open:
            v = self.lo
            if v.denominator == 1 and self.isint:
                return int(v)
            return float(v)
        return self

    def affine(self, a, b):
        """a*x + b with exact constants a, b (finite)."""
        a, b = frac(a), frac(b)
        if a == 0:
            return float(b)

        def ap(x):
            if x in (INF, -INF):
                return x if a > 0 else -x
            return a * x + b
        lo, hi, lo_o, hi_o = ap(self.lo), ap(self.hi), self.lo_open, self.hi_open
        if a < 0:
            lo, hi, lo_o, hi_o = hi, lo, hi_o, lo_o
        isint = self.isint and a.denominator == 1 and b.denominator == 1
        if a == 1 and b == 0:
            return self
        return Rng(lo, hi, lo_o, hi_o, isint, tag=("aff", self.tag, a, b)).norm()

    def floor(self):
        if self.isint:
            return self
        lo = self.lo if self.lo == -INF else math.floor(self.lo)
        if self.hi == INF:
            hi = INF
        else:
            hi = math.floor(self.hi)
            if self.hi_open and hi == self.hi:
                hi -= 1
        return Rng(lo, hi, False, False, True, tag=("floor", self.tag)).norm()

    def ceil(self):
        if self.isint:
            return self
        hi = self.hi if self.hi == INF else math.ceil(self.hi)
        if self.lo == -INF:
            lo = -INF
        else:
            lo = math.ceil(self.lo)
            if self.lo_open and lo == self.lo:
                lo += 1
        return Rng(lo, hi, False, False, True, tag=("ceil", self.tag)).norm()

    def trunc(self):
        if self.isint:
            return self
        if self.lo >= 0:
            return self.floor()
        if self.hi <= 0:
            return self.ceil()
        lo = self.lo
        if lo != -INF:
            lo = math.ceil(lo)
            if self.lo_open and lo == self.lo:
                lo += 1
        hi = self.hi
        if hi != INF:
            hi = math.floor(hi)
            if self.hi_open and hi == self.hi:
                hi -= 1
        return Rng(lo, hi, False, False, True, tag=("trunc", self.tag)).norm()

    def rint(self):
        if self.isint:
            return self

        def r(x):
            return x if x in (INF, -INF) else Fraction(round(x))
        lo = r(self.lo)
        hi = r(self.hi)
        # open ends at exact halves: round-half-even may exclude the end
        if self.lo != -INF and self.lo_open and self.lo.denominator == 2 and lo < self.lo:
            lo += 1
        if self.hi != INF and self.hi_open and self.hi.denominator == 2 and hi > self.hi:
            hi -= 1
        return Rng(lo, hi, False, False, True, tag=("rint", self.tag)).norm()

    def cmp(self, op, c):
        """Three-valued comparison with a constant or another Rng: True/False/None."""
        if isinstance(c, Rng):
            if c.tag == self.tag:
                return op in ("<=", ">=", "==")
            if self.hi < c.lo or (self.hi == c.lo and (self.hi_open or c.lo_open)):
                r = "lt"
            elif self.lo > c.hi or (self.lo == c.hi and (self.lo_open or c.hi_open)):
                r = "gt"
            elif self.hi == c.lo:
                return True if op == "<=" else (False if op == ">" else None)
            elif self.lo == c.hi:
                return True if op == ">=" else (False if op == "<" else None)
            else:
                return None
        else:
            if c != c:
                return op == "!="
            if c not in (INF, -INF):
                c = frac(c)
            if c == INF or self.hi < c or (self.hi == c and self.hi_open):
                r = "lt"
            elif c == -INF or self.lo > c or (self.lo == c and self.lo_open):
                r = "gt"
            elif self.hi == c:
                return True if op == "<=" else (False if op == ">" else None)
            elif self.lo == c:
                return True if op == ">=" else (False if op == "<" else None)
            else:
                if self.isint and op in ("==", "!=") and c.denominator != 1:
                    return op == "!="
                return None
        return {"<": r == "lt", "<=": r == "lt", ">": r == "gt", ">=": r == "gt", "==": False, "!=": True}[op]


GARBAGE32 = (-2 ** 31, 2 ** 31 - 1)


def evaltag(tag, k):
    """Sample point of an interval value (used only to compare terms for identity)."""
    op = tag[0]
    if op == "r":
        lo, hi, isint = tag[2], tag[3], tag[4]
        u = _point("rng%d" % tag[1], k)
        f = u - math.floor(u)
        f = f / 2 + Fraction(1, 4)
        if lo == -INF and hi == INF:
            v = u
        elif lo == -INF:
            v = hi - u
        elif hi == INF:
            v = lo + u
        else:
            v = lo + (hi - lo) * f
        return Fraction(math.floor(v)) if isint else v
    x = evaltag(tag[1], k)
    if op == "aff":
        return tag[2] * x + tag[3]
    if op == "floor":
        return Fraction(math.floor(x))
    if op == "ceil":
        return Fraction(math.ceil(x))
    if op == "trunc":
        return Fraction(math.trunc(x))
    if op == "rint":
        return Fraction(round(x))
    raise Unsupported("tag %r" % (tag,))


def applytag(tag, base):
    """Re-derive the interval of a tagged value from a (narrowed) interval of its base."""
    op = tag[0]
    if op == "r":
        return base
    x = applytag(tag[1], base)
    if not isinstance(x, Rng):
        v = frac(x)
        if op == "aff":
            v = tag[2] * v + tag[3]
        elif op == "floor":
            v = math.floor(v)
        elif op == "ceil":
            v = math.ceil(v)
        elif op == "trunc":
            v = math.trunc(v)
        else:
            v = round(v)
        return float(v)
    if op == "aff":
        return x.affine(tag[2], tag[3])
    return getattr(x, op)()


def basetag(tag):
    while tag[0] != "r":
        tag = tag[1]
    return tag


def pushdown(tag, op, c):
    """Translate a constraint `value op c` on a tagged value to its base: list of (op, const)."""
    c = frac(c)
    while tag[0] != "r":
        k = tag[0]
        if k == "aff":
            a, b = tag[2], tag[3]
            c = (c - b) / a
            if a < 0:
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        elif k == "floor":
            if op == "<":
                c = Fraction(math.ceil(c))
            elif op == "<=":
                op, c = "<", Fraction(math.floor(c) + 1)
            elif op == ">=":
                c = Fraction(math.ceil(c))
            elif op == ">":
                op, c = ">=", Fraction(math.floor(c) + 1)
            else:
                return None
        elif k == "ceil":
            if op == ">":
                c = Fraction(math.floor(c))
            elif op == ">=":
                op, c = ">", Fraction(math.ceil(c) - 1)
            elif op == "<=":
                c = Fraction(math.floor(c))
            elif op == "<":
                op, c = "<=", Fraction(math.ceil(c) - 1)
            else:
                return None
        else:
            return None
        tag = tag[1]
    return op, c


def narrow(r, op, c):
    """Interval r intersected with `op c` (same tag); None when empty."""
    lo, hi, lo_o, hi_o = r.lo, r.hi, r.lo_open, r.hi_open
    if op in ("<", "<="):
        if c < hi or (c == hi and op == "<"):
            hi, hi_o = c, (op == "<")
    elif op in (">", ">="):
        if c > lo or (c == lo and op == ">"):
            lo, lo_o = c, (op == ">")
    elif op == "==":
        lo, hi, lo_o, hi_o = c, c, False, False
    elif op == "!=":
        return r
    if lo > hi or (lo == hi and (lo_o or hi_o)):
        return None
    return Rng(lo, hi, lo_o, hi_o, r.isint, tag=r.tag)
