"""Symbolic Python values: booleans, integers, reals."""
import functools
import operator
from fractions import Fraction

import z3

from . import core
from .core import Unsupported


def eng():
    return core.ENG


def _frac(f):
    if isinstance(f, int):
        return Fraction(f)
    if isinstance(f, Fraction):
        return f
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float in symbolic arithmetic")
    x = Fraction(f)
    if x.denominator <= 1 << 20:
        return x
    # decimal literals such as 3.77953 stand for that decimal number
    return x.limit_denominator(10 ** 9)


@functools.lru_cache(4096)
def real_const(f):
    f = _frac(f)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of all symbolic values."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    """z3 Bool of a (symbolic or native) truth value."""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, SymNum):
        return b.e != 0
    return z3.BoolVal(bool(b))


class SymBool(Sym):
    __slots__ = ("e", "neg")

    def __init__(self, e, neg=None):
        self.e = e
        self.neg = neg  # optional stronger negation (used to pick robust counterexamples)

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == bexpr(o))
        if isinstance(o, (int, float, SymNum)):
            return self._num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(bexpr(r)))

    def __hash__(self):
        return hash(bool(self))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return "<SymBool %s>" % self.e

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "lt", "le", "gt", "ge", "neg", "abs"):
    def _mk(name):
        def f(self, *a):
            return getattr(self._num(), name)(*a)
        return f
    setattr(SymBool, "__%s__" % _n, _mk("__%s__" % _n))


def lift(x):
    """native/symbolic number -> z3 arithmetic term (or None)."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return real_const(x)
    return None


def mknum(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymReal(e) if e.is_real() else SymInt(e)


def _wrap(e):
    return SymReal(e) if e.is_real() else SymInt(e)


def to_real(e):
    return e if e.is_real() else z3.ToReal(e)


def _is_zero_const(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.numerator_as_long() == 0)


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # -- arithmetic
    def _bin(self, o, f, refl=False):
        a = self.e
        real = self._real
        if isinstance(o, SymNum):
            b = o.e
            if o._real != real:
                a, b = to_real(a), to_real(b)
                real = True
        else:
            b = lift(o)
            if b is None:
                return NotImplemented
            if b.is_real() != real:
                a, b = to_real(a), to_real(b)
                real = True
        e = f(b, a) if refl else f(a, b)
        return SymReal(e) if real else SymInt(e)

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, operator.add, True)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) or getattr(o, "_is_symstr", False):
            return o * self.__index__()
        return self._bin(o, operator.mul)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, operator.mul, True)

    @staticmethod
    def _truediv(a, b):
        a, b = to_real(a), to_real(b)
        if eng().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(a / b)

    def __truediv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._truediv(self.e, b)

    def __rtruediv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._truediv(b, self.e)

    @staticmethod
    def _floordiv(a, b):
        if eng().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.is_real() or b.is_real():
            return SymReal(z3.ToReal(z3.ToInt(to_real(a) / to_real(b))))
        if z3.is_int_value(b) and b.as_long() > 0:
            return SymInt(a / b)
        return SymInt(z3.If(b > 0, a / b, (-a) / (-b)))

    @classmethod
    def _mod(cls, a, b):
        q = cls._floordiv(a, b)
        if a.is_real() or b.is_real():
            return SymReal(to_real(a) - to_real(b) * q.e)
        return SymInt(a - b * q.e)

    def __floordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._floordiv(self.e, b)

    def __rfloordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._floordiv(b, self.e)

    def __mod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._mod(self.e, b)

    def __rmod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else self._mod(b, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, float) and o == 0.5:
            from .shims import sym_sqrt
            return sym_sqrt(self)
        raise Unsupported("power")

    def __neg__(self):
        return _wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison
    def _cmp(self, o, f):
        b = lift(o)
        if b is None:
            if isinstance(o, float):
                raise Unsupported("nan/inf")
            return NotImplemented
        a = self.e
        if self._real != b.is_real():
            a, b = to_real(a), to_real(b)
        return mkbool(f(a, b))

    def _cmpi(self, o, f, lt):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return (o > 0) if lt else (o < 0)
        return self._cmp(o, f)

    def __lt__(self, o):
        return self._cmpi(o, operator.lt, True)

    def __le__(self, o):
        return self._cmpi(o, operator.le, True)

    def __gt__(self, o):
        return self._cmpi(o, operator.gt, False)

    def __ge__(self, o):
        return self._cmpi(o, operator.ge, False)

    def __eq__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return False
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(bexpr(r)))

    def __bool__(self):
        return eng().branch(self.e != 0)

    # -- conversion
    def __hash__(self):
        return hash(self._value())

    def _value(self):
        def conv(v):
            f = core.z3_to_fraction(v)
            if f.denominator == 1 and not self.e.is_real():
                return int(f)
            return int(f) if f.denominator == 1 else float(f)
        return eng().concretise(self.e, conv)

    def __index__(self):
        if self.e.is_real():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._value()

    def __int__(self):
        return to_int(self).__index__() if isinstance(to_int(self), Sym) else to_int(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic number in native code")

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return mknum(z3.ToInt(self.e)) if self.e.is_real() else self

    def __ceil__(self):
        return mknum(-z3.ToInt(-self.e)) if self.e.is_real() else self

    def __round__(self, n=None):
        if not self.e.is_real():
            return self
        if n is None or n == 0:
            fl = z3.ToInt(self.e)
            d = self.e - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
            return SymInt(r) if n is None else SymReal(z3.ToReal(r))
        k = 10 ** n if n > 0 else Fraction(1, 10 ** -n)
        return round(self * k, 0) / k

    def is_integer(self):
        if not self.e.is_real():
            return True
        return mkbool(z3.IsInt(self.e))

    def __str__(self):
        raise Unsupported("str() of a symbolic number in native code")

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic number in native code")

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, str(self.e)[:200])


class SymInt(SymNum):
    __slots__ = ()
    _real = False

    def bit_length(self):
        return self._value().bit_length()

    def __and__(self, o):
        return self._value() & o

    def __or__(self, o):
        return self._value() | o

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)

    @property
    def real(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


class SymReal(SymNum):
    __slots__ = ()
    _real = True


def to_int(x):
    """int(x) for a symbolic number (truncation)."""
    if not x.e.is_real():
        return x
    return mknum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def to_float(x):
    return x if x.e.is_real() else SymReal(z3.ToReal(x.e))


def ite(c, a, b):
    """Value-level if-then-else without forking where possible."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    x, y = lift(a), lift(b)
    if x is not None and y is not None and not isinstance(a, bool) and not isinstance(b, bool):
        if x.is_real() != y.is_real():
            x, y = to_real(x), to_real(y)
        return _wrap(z3.If(c.e, x, y))
    return a if c else b


def sym_minmax(args, lt):
    """max/min with Python's 'first one wins' rule, as an ite chain."""
    best = args[0]
    for a in args[1:]:
        if is_sym(a) or is_sym(best):
            c = (a < best) if lt else (a > best)
            best = ite(c, a, best)
        else:
            c = (a < best) if lt else (a > best)
            if c:
                best = a
    return best
