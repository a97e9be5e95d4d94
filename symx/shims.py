"""Symbolic stand-ins for library modules used by the code under test."""
import functools
import json as _json
import hashlib as _hashlib
import math as _math
import types
from fractions import Fraction

import z3

from . import core
from .core import Unsupported
from .values import Sym, SymBool, SymInt, SymNum, SymReal, is_sym, lift, to_real, mkbool, mknum, to_int, ite, _wrap, real_const
from .strings import SymStr, SymBytes, Opq, has_sym, units_of, mk
from .containers import SymDict, SymSet
from .regex import ReShim


def eng():
    return core.ENG


# ------------------------------------------------------------------- math
_fresh = {}


def reset_path():
    _fresh.clear()


def _fresh_real(tag, key):
    """Skolem constant determined by (tag, structural key) on this path."""
    k = (tag, key)
    if k not in _fresh:
        _fresh[k] = (z3.Real("%s!%d" % (tag, len(_fresh))), False)
    return _fresh[k][0]


def sym_sqrt(x):
    if not is_sym(x):
        return _math.sqrt(x)
    e = z3.simplify(to_real(x.e))
    if eng().branch(e < 0):
        raise ValueError("math domain error")
    k = ("sqrt", e.sexpr())
    if k in _fresh:
        return SymReal(_fresh[k])
    y = z3.Real("sqrt!%d" % len(_fresh))
    eng().assume(z3.And(y >= 0, y * y == e))
    _fresh[k] = y
    return SymReal(y)


class Angle(Sym):
    """Sum of angle terms: ('pi', coef) with native/symbolic coef, ('atan2', y, x)."""
    __slots__ = ("terms",)

    def __init__(self, terms):
        self.terms = tuple(terms)

    @staticmethod
    def of(x):
        if isinstance(x, Angle):
            return x
        return None

    def __add__(self, o):
        if isinstance(o, Angle):
            return Angle(self.terms + o.terms)
        if not is_sym(o) and o == 0:
            return self
        if isinstance(o, (int, float, SymNum)):
            return Angle(self.terms + (("rad", o, 1),))
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return Angle([(k, d, -c) for k, d, c in self.terms])

    def __sub__(self, o):
        if isinstance(o, Angle):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def _scale(self, f):
        out = []
        for k, d, c in self.terms:
            if k in ("pi", "rad"):
                out.append((k, d * f, c))
            elif not is_sym(f) and f == int(f):
                out.append((k, d, c * int(f)))
            elif not is_sym(f) and k == "atan2deg" :
                raise Unsupported("angle scaling")
            else:
                return None
        return Angle(out)

    def __mul__(self, o):
        r = self._scale(o) if isinstance(o, (int, float, SymNum, Fraction)) else None
        if r is None:
            raise Unsupported("angle multiplication")
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_sym(o):
            return self * (1 / o)
        return self * (Fraction(1) / Fraction(o))

    def _pi_coef(self):
        t = 0
        for k, d, c in self.terms:
            if k != "pi":
                return None
            t = t + d * c
        return t

    def __eq__(self, o):
        a = self._pi_coef()
        if isinstance(o, Angle):
            b = o._pi_coef()
            if a is None or b is None:
                raise Unsupported("angle comparison")
            return a == b
        if not is_sym(o) and o == 0 and a is not None:
            return a == 0
        raise Unsupported("angle comparison")

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def _cmp(self, o, op):
        a = self._pi_coef()
        b = o._pi_coef() if isinstance(o, Angle) else (0 if o == 0 else None)
        if a is None or b is None:
            raise Unsupported("angle comparison")
        return op(a, b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("angle hashed")

    def __repr__(self):
        return "<Angle %r>" % (self.terms,)

    def cossin(self):
        c, s = z3.RealVal(1), z3.RealVal(0)
        # merge pi terms with native coefficients first
        native = Fraction(0)
        rest = []
        for k, d, n in self.terms:
            if k == "pi" and not is_sym(d):
                native += Fraction(d) * n if not isinstance(d, float) else Fraction(d).limit_denominator(10 ** 9) * n
            else:
                rest.append((k, d, n))
        parts = []
        if native:
            parts.append(_pi_cossin(native))
        # symbolic terms with the same argument and opposite sign cancel
        acc = {}
        for k, d, n in rest:
            if k in ("pi", "rad"):
                key = (k, z3.simplify(lift(d)).sexpr())
            else:
                key = (k, z3.simplify(to_real(lift(d[0]))).sexpr(), z3.simplify(to_real(lift(d[1]))).sexpr())
            if key in acc:
                acc[key] = (k, d, acc[key][2] + n)
            else:
                acc[key] = (k, d, n)
        for k, d, n in acc.values():
            if n == 0:
                continue
            cc, ss = _atom_cossin(k, d)
            if n < 0:
                ss = -ss
            for _ in range(abs(n)):
                parts.append((cc, ss))
        for cc, ss in parts:
            c, s = c * cc - s * ss, s * cc + c * ss
        return SymReal(z3.simplify(c)), SymReal(z3.simplify(s))


PI = Angle([("pi", 1, 1)])


def _pi_cossin(f):
    f = f % 2
    exact = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if f in exact:
        c, s = exact[f]
        return z3.RealVal(c), z3.RealVal(s)
    neg = False
    if f > 1:
        f = 2 - f
        neg = True
    flip = f > Fraction(1, 2)
    if flip:
        f = 1 - f
    c, s = _unit_pair(("pi", str(f)))
    if not _fresh.get(("bounds", str(f))):
        # enclose the true values
        fc, fs = _math.cos(_math.pi * float(f)), _math.sin(_math.pi * float(f))
        d = Fraction(1, 10 ** 9)
        cf, sf = Fraction(fc).limit_denominator(10 ** 12), Fraction(fs).limit_denominator(10 ** 12)
        eng().assume(z3.And(c > real_const(cf - d), c < real_const(cf + d), s > real_const(sf - d), s < real_const(sf + d)))
        _fresh[("bounds", str(f))] = True
    return (-c if flip else c), (-s if neg else s)


def _unit_pair(key):
    k = ("unit", key)
    if k not in _fresh:
        n = len(_fresh)
        c, s = z3.Real("cos!%d" % n), z3.Real("sin!%d" % n)
        eng().assume(z3.And(c * c + s * s == 1))
        _fresh[k] = (c, s)
    return _fresh[k]


def _atom_cossin(k, d):
    if k in ("pi", "rad"):
        e = z3.simplify(to_real(lift(d)))
        c, s = _unit_pair((k, e.sexpr()))
        zk = ("zero", k, e.sexpr())
        if zk not in _fresh:
            _fresh[zk] = True
            ax = [z3.Implies(e == 0, z3.And(c == 1, s == 0))]
            if k == "pi":
                h = z3.RealVal("1/2")
                ax += [z3.Implies(e == h, z3.And(c == 0, s == 1)), z3.Implies(e == 1, z3.And(c == -1, s == 0)),
                       z3.Implies(e == -h, z3.And(c == 0, s == -1)),
                       z3.Implies(z3.And(e > 0, e < 1), s > 0), z3.Implies(z3.And(e > 0, e < h), c > 0),
                       z3.Implies(z3.And(e > h, e < 1), c < 0)]
            eng().assume(z3.And(ax))
        return c, s
    y, x = to_real(lift(d[0])), to_real(lift(d[1]))
    if eng().branch(z3.And(y == 0, x == 0)):
        return z3.RealVal(1), z3.RealVal(0)
    r = sym_sqrt(SymReal(x * x + y * y)).e
    return x / r, y / r


class MathShim:
    pi = PI
    tau = Angle([("pi", 2, 1)])
    inf = _math.inf
    e = _math.e

    @staticmethod
    def sqrt(x):
        return sym_sqrt(x)

    @staticmethod
    def hypot(*a):
        t = 0
        for x in a:
            t = t + x * x
        return sym_sqrt(t)

    @staticmethod
    def dist(p, q):
        return MathShim.hypot(*[a - b for a, b in zip(p, q)])

    @staticmethod
    def atan2(y, x):
        if not is_sym(y) and not is_sym(x):
            if y == 0 and x == 0:
                return 0
        return Angle([("atan2", (y, x), 1)])

    @staticmethod
    def radians(d):
        if not is_sym(d):
            d = Fraction(d).limit_denominator(10 ** 9)
            return Angle([("pi", d / 180, 1)])
        return Angle([("pi", d / 180, 1)])

    @staticmethod
    def degrees(a):
        if isinstance(a, Angle):
            c = a._pi_coef()
            if c is None:
                raise Unsupported("degrees of atan2")
            return c * 180
        raise Unsupported("degrees")

    @staticmethod
    def _ang(a):
        if isinstance(a, Angle):
            return a
        if not is_sym(a) and a == 0:
            return Angle(())
        return Angle([("rad", a, 1)])

    @staticmethod
    def sin(a):
        return MathShim._ang(a).cossin()[1]

    @staticmethod
    def cos(a):
        return MathShim._ang(a).cossin()[0]

    @staticmethod
    def tan(a):
        c, s = MathShim._ang(a).cossin()
        return s / c

    @staticmethod
    def floor(x):
        return x.__floor__() if is_sym(x) else _math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if is_sym(x) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return to_int(x) if is_sym(x) else _math.trunc(x)

    @staticmethod
    def fabs(x):
        return abs(x)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else _math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else _math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else _math.isfinite(x)

    @staticmethod
    def copysign(a, b):
        if not is_sym(a) and not is_sym(b):
            return _math.copysign(a, b)
        return ite(b >= 0, abs(a), -abs(a))

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        from .instr import shim_max
        return abs(a - b) <= shim_max(rel_tol * shim_max(abs(a), abs(b)), abs_tol)

    @staticmethod
    def pow(a, b):
        return a ** b

    @staticmethod
    def fsum(it):
        t = 0
        for x in it:
            t = t + x
        return t

    @staticmethod
    def prod(it, start=1):
        for x in it:
            start = start * x
        return start

    def __getattr__(self, n):
        f = getattr(_math, n)

        def g(*a):
            if has_sym(a):
                raise Unsupported("math." + n)
            return f(*a)
        return g


# -------------------------------------------------------------- functools
class FunctoolsShim:
    def __getattr__(self, n):
        return getattr(functools, n)

    @staticmethod
    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return FunctoolsShim._memo(maxsize)
        return FunctoolsShim._memo

    @staticmethod
    def cache(f):
        return FunctoolsShim._memo(f)

    @staticmethod
    def _memo(f):
        store = SymDict()
        PATH_CACHES.append(store)

        @functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if key in store:
                return store[key]
            r = f(*a, **k)
            store[key] = r
            return r
        g.cache_clear = store.clear
        g.cache_info = lambda: None
        return g


PATH_CACHES = []


# -------------------------------------------------------------------- json
class JsonShim:
    """json round trip on Python values (text form is opaque when symbolic)."""
    JSONDecodeError = _json.JSONDecodeError

    @staticmethod
    def _conv(x):
        if isinstance(x, dict):
            for k in x:
                if not isinstance(k, (str, SymStr, int, float, bool, type(None))):
                    raise TypeError("keys must be str, int, float, bool or None, not tuple")
            return SymDict([(k if not isinstance(k, (int, float)) or isinstance(k, str) else str(k), JsonShim._conv(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return [JsonShim._conv(y) for y in x]
        if isinstance(x, (str, int, float, bool, type(None), Sym)) and not isinstance(x, SymBytes):
            return x
        raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)

    @staticmethod
    def dumps(obj, **k):
        if not has_sym(obj, 6):
            return _json.dumps(obj, **k)
        return SymStr((Opq("json", _frozen(JsonShim._conv(obj))),))

    @staticmethod
    def dump(obj, f, **k):
        f.write(JsonShim.dumps(obj, **k))

    @staticmethod
    def loads(s, **k):
        if isinstance(s, (str, bytes)):
            r = _json.loads(s, **k)
            return _todict(r)
        if len(s.u) == 1 and isinstance(s.u[0], Opq) and s.u[0].tag == "json":
            return _thaw(s.u[0].payload)
        raise Unsupported("json of symbolic text")

    @staticmethod
    def load(f, **k):
        return JsonShim.loads(f.read(), **k)


def _todict(r):
    if isinstance(r, dict):
        return SymDict([(k, _todict(v)) for k, v in r.items()])
    if isinstance(r, list):
        return [_todict(x) for x in r]
    return r


def _frozen(x):
    if isinstance(x, dict):
        return ("d",) + tuple((k, _frozen(v)) for k, v in x.items())
    if isinstance(x, list):
        return ("l",) + tuple(_frozen(v) for v in x)
    return ("v", x)


def _thaw(x):
    if x[0] == "d":
        return SymDict([(k, _thaw(v)) for k, v in x[1:]])
    if x[0] == "l":
        return [_thaw(v) for v in x[1:]]
    return x[1]


# ----------------------------------------------------------------- hashlib
class _Hash:
    """Collision-free digest: an injective function of the fed bytes."""

    def __init__(self, name, data=()):
        self.name = name
        self.data = tuple(data)

    def update(self, b):
        self.data += (b,)

    def copy(self):
        return _Hash(self.name, self.data)

    def hexdigest(self):
        if not has_sym(self.data):
            h = _hashlib.new(self.name)
            for b in self.data:
                h.update(b)
            return h.hexdigest()
        acc = SymBytes(())
        for b in self.data:
            acc = acc + b
        return SymStr((Opq(self.name, (SymStr(acc.text_units()),)),))

    def digest(self):
        raise Unsupported("binary digest")


class HashlibShim:
    def __getattr__(self, n):
        if n in ("sha1", "md5", "sha256", "sha512", "sha224", "sha384", "blake2b", "blake2s"):
            return lambda data=b"", **k: _Hash(n, (data,) if (is_sym(data) or data) else ())
        return getattr(_hashlib, n)

    @staticmethod
    def new(name, data=b""):
        return _Hash(name, (data,) if (is_sym(data) or data) else ())


# ------------------------------------------------------------------ base64
class Base64Shim:
    @staticmethod
    def _enc(b, tag):
        import base64
        if isinstance(b, SymBytes):
            return SymBytes.of_text(SymStr((Opq(tag, (SymStr(b.text_units()),)),)))
        return getattr(base64, tag)(b)

    def b64encode(self, b):
        return self._enc(b, "b64encode")

    def standard_b64encode(self, b):
        return self._enc(b, "b64encode")

    def encodebytes(self, b):
        return self._enc(b, "encodebytes")

    def __getattr__(self, n):
        import base64
        return getattr(base64, n)


def base_shims():
    return {
        "re": ReShim(), "math": MathShim(), "functools": FunctoolsShim(), "json": JsonShim,
        "hashlib": HashlibShim(), "base64": Base64Shim(),
    }
