"""Symbolic scalars.

Sym  : a mathematical real or integer term (z3)
SymB : a boolean term; taking its truth value in Python forks the current path

Machine floats are treated as mathematical reals; a concrete float entering
arithmetic is read as the decimal number its repr() denotes (so the source
literal 8.353535 is exactly 8.353535).
"""
from __future__ import annotations
import math
from fractions import Fraction
import z3


class Unsupported(BaseException):
    """The engine has no sound treatment for a construct it met."""


class EngineState:
    decide = None      # set by explore: SymB -> bool
    div_guard = None   # set by explore: z3 expr -> None (may raise ZeroDivisionError)
    fresh_n = 0


ST = EngineState()


_TERM_NAMES = {}


def term_name(base, *key):
    """The same name whenever the same term is met again (keeps re-executions reproducible)."""
    k = (base,) + tuple(x.get_id() if isinstance(x, z3.AstRef) else x for x in key)
    hit = _TERM_NAMES.get(k)
    if hit is None:
        hit = _TERM_NAMES[k] = (fresh_name(base), key)
    return hit[0]


def fresh_name(base):
    ST.fresh_n += 1
    return f"{base}!{ST.fresh_n}"


def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported(f"non-finite float {x} in exact arithmetic")
        return Fraction(repr(x))
    # numpy scalars
    if hasattr(x, "item") and not isinstance(x, (Sym, SymB)):
        return to_frac(x.item())
    raise Unsupported(f"not a number: {type(x).__name__}")


def is_num(x):
    if isinstance(x, (bool, int, float, Fraction)):
        return True
    import numpy as np
    return isinstance(x, np.generic) and not isinstance(x, (np.str_,))


def z(x):
    """z3 arithmetic term of a number-like value."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymB):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    f = to_frac(x)
    if isinstance(f, int):
        # an int-valued literal: IntVal, coerced to real when needed
        return z3.IntVal(f)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator))


def zb(x):
    if isinstance(x, SymB):
        return x.t
    if isinstance(x, Sym):
        return x.t != 0
    return z3.BoolVal(bool(x))


def is_sym(x):
    return isinstance(x, (Sym, SymB))


def _real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def coerce2(a, b):
    ta, tb = z(a), z(b)
    if ta.sort() != tb.sort():
        ta, tb = _real_lit(ta), _real_lit(tb)
    return ta, tb


def _real_lit(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def wrap(t):
    """z3 arith term -> Sym or exact constant."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return Sym(t)


def wrapb(t, neg=None):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymB(t, neg)


_OPNUM = (int, float, Fraction)


def _isdiv(t):
    return z3.is_app_of(t, z3.Z3_OP_DIV)


def _without(t, f):
    """t without the factor f, or None if f is not a factor of t."""
    if t.eq(f):
        return z3.RealVal(1)
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        cs = list(t.children())
        for i, c in enumerate(cs):
            r = _without(c, f)
            if r is not None:
                rest = cs[:i] + cs[i + 1:]
                if not (z3.is_rational_value(r) and r.as_fraction() == 1):
                    rest = [r] + rest
                if not rest:
                    return z3.RealVal(1)
                out = rest[0]
                for x in rest[1:]:
                    out = out * x
                return out
    return None


def _mul(a, b):
    """Product; a factor cancels against an equal (non-zero: it was divided by) denominator."""
    for x, y in ((a, b), (b, a)):
        if _isdiv(y):
            r = _without(x, y.arg(1))
            if r is not None:
                if z3.is_rational_value(r) and r.as_fraction() == 1:
                    return y.arg(0)
                return _mul(r, y.arg(0))
    return a * b


def _div(a, b):
    if a.eq(b) or z3.simplify(a).eq(z3.simplify(b)):
        return z3.RealVal(1)
    r = _without(a, b)
    if r is not None:
        return r
    if _isdiv(b):
        r = _without(a, b.arg(0))           # a / (n / d) with n a factor of a
        if r is not None:
            return b.arg(1) if z3.is_rational_value(r) and r.as_fraction() == 1 else _mul(r, b.arg(1))
    if _isdiv(a):
        r = _without(a.arg(0), b)           # (x b / y) / b
        if r is not None:
            return r / a.arg(1)
    return a / b


def _add(a, b):
    """Sum, with fractions over the same (non-zero) denominator combined."""
    if z3.is_app_of(a, z3.Z3_OP_DIV) and z3.is_app_of(b, z3.Z3_OP_DIV) and a.arg(1).eq(b.arg(1)):
        return _div(a.arg(0) + b.arg(0), a.arg(1))
    return a + b


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    # --- arithmetic
    def _bin(self, o, f, swap=False):
        if not (isinstance(o, (Sym, SymB)) or is_num(o)):
            return NotImplemented
        if isinstance(o, float) and not math.isfinite(o):
            raise Unsupported("non-finite float mixed with symbolic value")
        a, b = (o, self) if swap else (self, o)
        ta, tb = coerce2(a, b)
        return f(ta, tb)

    def __add__(self, o):
        if is_num(o) and not isinstance(o, bool) and o == 0:
            return self if (self.is_int is False or isinstance(o, int)) else wrap(_real(self.t))
        return self._bin(o, lambda a, b: wrap(_add(a, b)))

    def __radd__(self, o):
        if is_num(o) and not isinstance(o, bool) and o == 0:
            return self if (self.is_int is False or isinstance(o, int)) else wrap(_real(self.t))
        return self._bin(o, lambda a, b: wrap(_add(a, b)), True)

    def __sub__(self, o):
        if is_num(o) and o == 0 and not self.is_int:
            return self
        return self._bin(o, lambda a, b: wrap(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: wrap(a - b), True)

    def __mul__(self, o):
        if is_num(o) and not self.is_int:
            if o == 1:
                return self
            if o == 0:
                return Fraction(0)
        return self._bin(o, lambda a, b: wrap(_mul(a, b)))

    def __rmul__(self, o):
        if is_num(o) and not self.is_int:
            if o == 1:
                return self
            if o == 0:
                return Fraction(0)
        return self._bin(o, lambda a, b: wrap(_mul(a, b)), True)

    def __truediv__(self, o):
        if is_num(o):
            f = to_frac(o)
            if f == 0:
                raise ZeroDivisionError("division by zero")
            if f == 1 and not self.is_int:
                return self
            t = _real(self.t)
            return wrap(t * z3.RealVal(str(Fraction(1) / Fraction(f))))
        if isinstance(o, (Sym, SymB)):
            tb = _real(z(o))
            ST.div_guard(tb)
            return wrap(_div(_real(self.t), tb))
        return NotImplemented

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        tb = _real(self.t)
        ST.div_guard(tb)
        return wrap(_real_lit(z(o)) / tb)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n):
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, int) and 0 <= n <= 12:
            r = Fraction(1) if not self.is_int else 1
            for _ in range(n):
                r = self if (isinstance(r, (int, Fraction)) and r == 1) else r * self
            return r
        raise Unsupported(f"power with exponent {n!r}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __floor__(self):
        return wrap(z3.ToInt(self.t)) if not self.is_int else self

    def __ceil__(self):
        return wrap(-z3.ToInt(-self.t)) if not self.is_int else self

    def __trunc__(self):
        return to_int(self)

    def __int__(self):
        raise Unsupported("int() of a symbolic value in native code")

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __index__(self):
        raise Unsupported("symbolic value used as a native index")

    # --- comparisons
    def _cmp(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0,
                    "eq": False, "ne": True}[f]
        if isinstance(o, float) and math.isnan(o):
            return f == "ne"
        if not (isinstance(o, (Sym, SymB)) or is_num(o)):
            return NotImplemented
        ta, tb = coerce2(self, o)
        t = {"lt": lambda: ta < tb, "le": lambda: ta <= tb, "gt": lambda: ta > tb,
             "ge": lambda: ta >= tb, "eq": lambda: ta == tb, "ne": lambda: ta != tb}[f]()
        if ta.eq(tb):
            return f in ("le", "ge", "eq")
        return wrapb(t)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(self != 0)

    def is_integer(self):
        return True if self.is_int else wrapb(z3.IsInt(self.t))

    def item(self):
        return self

    def __repr__(self):
        s = str(self.t)
        return f"<{s if len(s) < 60 else s[:57] + '...'}>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymB:
    """neg: optional z3 formula 'violated by a clear margin' (used for replay)."""
    __slots__ = ("t", "neg")
    __array_priority__ = 1000

    def __init__(self, t, neg=None):
        self.t = t
        self.neg = neg

    def __bool__(self):
        return ST.decide(self)

    def _i(self):
        return Sym(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i() if not isinstance(o, SymB) else o._i() + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __truediv__(self, o): return self._i() / o

    def __and__(self, o):
        return wrapb(z3.And(self.t, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrapb(z3.Or(self.t, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return wrapb(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymB, bool)):
            return wrapb(self.t == zb(o))
        if isinstance(o, (Sym, int, float, Fraction)):
            return self._i() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrapb(z3.Not(zb(r)))

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        s = str(self.t)
        return f"<?{s if len(s) < 60 else s[:57] + '...'}>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def isint(x):
    return (isinstance(x, Sym) and x.is_int) or isinstance(x, (int, SymB)) or (
        hasattr(x, "dtype") and not isinstance(x, (Sym, SymB)) and getattr(x.dtype, "kind", "") in "iu")


def floordiv(a, b):
    if is_num(b):
        f = to_frac(b)
        if f == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if isint(a) and isint(b):
            if f > 0:
                return wrap(z(a) / z3.IntVal(int(f)))
            return wrap((-z(a)) / z3.IntVal(int(-f)))
        r = z3.ToInt(_real(z(a)) / z3.RealVal(str(Fraction(f))))
        return wrap(z3.ToReal(r))
    tb = z(b)
    ST.div_guard(tb)
    if isint(a) and isint(b):
        # Python floors; z3's integer division is Euclidean: equal for b > 0
        ta = z(a)
        return wrap(z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    return wrap(z3.ToReal(z3.ToInt(_real(z(a)) / _real(tb))))


def mod(a, b):
    if is_num(b) and isint(a) and isint(b):
        f = int(to_frac(b))
        if f == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if f > 0:
            return wrap(z(a) % z3.IntVal(f))
    q = floordiv(a, b)
    return a - q * b


def to_int(x):
    if isinstance(x, SymB):
        return x._i()
    if x.is_int:
        return x
    return wrap(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


def to_float(x):
    if isinstance(x, SymB):
        x = x._i()
    return wrap(z3.ToReal(x.t)) if x.is_int else x


def ite(c, a, b):
    """Merge two scalars (numbers or booleans); c: z3 Bool."""
    if a is b:
        return a
    ab = isinstance(a, (bool, SymB)) and isinstance(b, (bool, SymB))
    if ab:
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        if a is True and b is False:
            return wrapb(c)
        if a is False and b is True:
            return wrapb(z3.Not(c))
        return wrapb(z3.If(c, zb(a), zb(b)))
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    ta, tb = coerce2(a, b)
    if ta.eq(tb):
        return wrap(ta)
    return wrap(z3.If(c, ta, tb))


def smax(a, b):
    """Python's max(a, b): returns a on ties."""
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    c = b > a
    if isinstance(c, bool):
        return b if c else a
    return ite(c.t, b, a)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    c = b < a
    if isinstance(c, bool):
        return b if c else a
    return ite(c.t, b, a)
