"""Symbolic implementation of the session API."""
import json
import z3
from fractions import Fraction

from . import core, instr, shims, strings
from .core import Unsupported, PathAbort, z3_to_fraction
from .session import Session
from .values import SymBool, SymInt, SymReal, SymNum, Sym, is_sym, lift, mkbool, bexpr, ite, sym_minmax, to_real, real_const
from .strings import SymStr, SymBytes, Ch, Num, Opq, units_of, mk, units_eq

MARGIN = z3.RealVal("1/64")


class Candidate:
    """A possible violation found on a path."""

    def __init__(self, label, inputs, kind):
        self.label = label
        self.inputs = inputs
        self.kind = kind  # 'check' / 'exception' / 'hang'


class SymSession(Session):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.vars = {}
        self.labels = {}
        self.proved = 0
        self.candidates = []
        self.undecided = []
        self.max_models = 3
        self._reported = set()

    def begin(self):
        self.vars = {}
        strings.DIGITS["on"], strings.DIGITS["seen"] = False, {}

    def split_numbers(self):
        """Texts of integers are looked at by their (symbolic) digits."""
        strings.DIGITS["on"] = True

    # ------------------------------------------------------------- inputs
    def _name(self, name):
        if name in self.vars:
            raise RuntimeError("input %r declared twice" % name)
        return name

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self._name(name))
        self.vars[name] = ("int", v)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.eng.assume(z3.And(cs))
        if lo is not None and lo == hi:
            return lo
        return SymInt(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(self._name(name))
        self.vars[name] = ("real", v)
        cs = []
        if lo is not None:
            cs.append(v >= real_const(lo))
        if hi is not None:
            cs.append(v <= real_const(hi))
        if cs:
            self.eng.assume(z3.And(cs))
        return SymReal(v)

    number = real

    def bool(self, name):
        v = z3.Bool(self._name(name))
        self.vars[name] = ("bool", v)
        return SymBool(v)

    def choice(self, name, options):
        options = list(options)
        v = z3.Int(self._name(name))
        self.vars[name] = ("int", v)
        if len(options) == 1:
            self.eng.assume(v == 0)
            return options[0]
        self.eng.assume(z3.And(v >= 0, v < len(options)))
        i = self.eng.concretise(v, lambda c: c.as_long())
        return options[i]

    def str(self, name, n, alphabet=None, exclude=""):
        self._name(name)
        es = [z3.Int("%s[%d]" % (name, i)) for i in range(n)]
        self.vars[name] = ("str", es)
        cs = []
        for e in es:
            if alphabet is not None:
                cs.append(z3.Or([e == ord(c) for c in alphabet]))
            else:
                cs.append(z3.Or(z3.And(e >= 0, e <= 0xD7FF), z3.And(e >= 0xE000, e <= 0x10FFFF)))
            for c in exclude:
                cs.append(e != ord(c))
        if cs:
            self.eng.assume(z3.And(cs))
        dom = frozenset(ord(c) for c in alphabet if c not in exclude) if alphabet is not None else None
        if dom is not None and len(dom) == 1:
            return chr(min(dom)) * n
        return mk(Ch(e, dom) for e in es)

    def text(self, name, lo, hi, alphabet=None, exclude=""):
        n = self.choice(name + ".len", range(lo, hi + 1))
        return self.str(name, n, alphabet, exclude)

    # ------------------------------------------------------------ logic
    def assume(self, c):
        if isinstance(c, Sym):
            self.eng.assume(bexpr(c))
        elif not c:
            raise PathAbort()

    def check(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(c, Sym):
            if c:
                self.proved += 1
                return
            self._candidate(label, None, "check")
            raise PathAbort()
        neg = getattr(c, "neg", None)
        verdict, model = self.eng.prove(bexpr(c))
        if verdict == "proved":
            self.proved += 1
        elif verdict == "old":
            pass
        elif verdict == "unknown":
            self.undecided.append(label)
        else:
            if (label, self.cfgkey()) not in self._reported or len(self.candidates) < 40:
                self._candidate(label, z3.Not(bexpr(c)), "check", neg=neg, popped=verdict == "refuted")
            if verdict == "refuted-all":
                raise PathAbort()

    def cfgkey(self):
        return None

    def _candidate(self, label, negc, kind, neg=None, popped=False):
        """Collect models violating the assertion, preferring simple values."""
        s = self.eng.solver
        e = self.eng
        if popped:
            # the engine has already assumed the assertion: remove that layer
            s.pop()
        models = []
        try:
            nice = self._nice()
            base = [negc] if negc is not None else []
            variants = []
            if neg is not None:
                variants += [[neg] + nice, [neg]]
            variants += [base + nice, base]
            for v in variants:
                s.push()
                try:
                    s.add(*v)
                    e.queries += 1
                    if s.check() == z3.sat:
                        m = s.model()
                        if self._sound(m):
                            models.append(self.extract(m))
                finally:
                    s.pop()
                if len(models) >= self.max_models:
                    break
        finally:
            if popped:
                s.push()
                s.add(z3.Not(negc))
        seen = []
        for m in models:
            if m not in seen:
                seen.append(m)
        self._reported.add((label, self.cfgkey()))
        self.candidates.append(Candidate(label, seen, kind))

    def _nice(self):
        out = []
        for n, (k, v) in self.vars.items():
            if k == "real":
                out.append(z3.IsInt(v * 8))
                out.append(z3.And(v <= 4096, v >= -4096))
            elif k == "int":
                out.append(z3.And(v <= 100000, v >= -100000))
        return out

    def extract(self, m):
        r = {}
        for n, (k, v) in self.vars.items():
            if k == "str":
                r[n] = [m.eval(e, model_completion=True).as_long() for e in v]
                continue
            val = m.eval(v, model_completion=True)
            if k == "int":
                r[n] = val.as_long()
            elif k == "bool":
                r[n] = z3.is_true(val)
            else:
                f = z3_to_fraction(val)
                r[n] = "%d/%d" % (f.numerator, f.denominator)
        return r

    def _sound(self, m):
        """The solver's models of nonlinear constraints are sometimes wrong."""
        return not any(z3.is_false(m.eval(a, model_completion=True)) for a in self.eng.solver.assertions())

    def witness(self):
        """Inputs of the current path (simple values preferred)."""
        s = self.eng.solver
        s.push()
        try:
            s.add(*self._nice())
            self.eng.queries += 1
            if s.check() == z3.sat:
                m = s.model()
                if self._sound(m):
                    return self.extract(m)
        finally:
            s.pop()
        try:
            m = self.eng.current_model()
            return self.extract(m) if self._sound(m) else None
        except (PathAbort, Unsupported):
            return None

    def fail(self, label):
        self.check(False, label)

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (SymStr, SymBytes)) or isinstance(b, (SymStr, SymBytes)) or isinstance(a, str) or isinstance(b, str):
            return a == b
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return a == b
        if x.is_real() != y.is_real():
            x, y = to_real(x), to_real(y)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
        e = z3.simplify(x == y)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = x - y
        m = MARGIN if x.is_real() else z3.IntVal(1)
        return SymBool(e, neg=z3.Or(d >= m, -d >= m))

    def le(self, a, b):
        r = a <= b
        if isinstance(r, SymBool):
            d = lift(a) if lift(a).is_real() else to_real(lift(a))
            e = lift(b) if lift(b).is_real() else to_real(lift(b))
            r = SymBool(r.e, neg=d - e >= MARGIN)
        return r

    def lt(self, a, b):
        return a < b

    def And(self, *a):
        cs, negs = [], []
        for x in a:
            if not isinstance(x, Sym):
                if not x:
                    return False
                continue
            cs.append(bexpr(x))
            n = getattr(x, "neg", None)
            negs.append(n if n is not None else z3.Not(bexpr(x)))
        if not cs:
            return True
        return SymBool(z3.And(cs), neg=z3.Or(negs))

    def Or(self, *a):
        cs, negs = [], []
        for x in a:
            if not isinstance(x, Sym):
                if x:
                    return True
                continue
            cs.append(bexpr(x))
            n = getattr(x, "neg", None)
            negs.append(n if n is not None else z3.Not(bexpr(x)))
        if not cs:
            return False
        return SymBool(z3.Or(cs), neg=z3.And(negs))

    def Not(self, a):
        return mkbool(z3.Not(bexpr(a))) if isinstance(a, Sym) else not a

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *a):
        return sym_minmax(list(a), False)

    def min(self, *a):
        return sym_minmax(list(a), True)

    def raised(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None

    def units(self, s):
        return list(units_of(s))

    def xml(self, text):
        from .xmlrope import parse
        return parse(text)

    def is_sym(self, x):
        return isinstance(x, Sym)

    def same_text(self, a, b):
        """Structural equality of texts without forking."""
        ua, ub = units_of(a), units_of(b)
        if len(ua) != len(ub):
            return False
        for x, y in zip(ua, ub):
            if x is y:
                continue
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
                continue
            if type(x) is not type(y):
                return False
            if isinstance(x, Ch):
                if not z3.simplify(x.e).eq(z3.simplify(y.e)):
                    return False
            elif isinstance(x, Num):
                if x.spec != y.spec or not z3.simplify(x.v.e).eq(z3.simplify(y.v.e)):
                    return False
            else:
                if x.tag != y.tag or not (x.payload is y.payload or all(self.same_text(p, q) for p, q in zip(x.payload, y.payload))):
                    return False
        return True

    def key(self, x):
        return x

    def concrete(self, x):
        if isinstance(x, SymStr):
            return x._concrete()
        if isinstance(x, SymNum):
            return x._value()
        if isinstance(x, SymBool):
            return bool(x)
        return x

    def sin_cos_deg(self, d):
        a = shims.MathShim.radians(d)
        return shims.MathShim.sin(a), shims.MathShim.cos(a)

    def atan_unit(self, dx, dy):
        n = shims.MathShim.hypot(dx, dy)
        return dx / n, dy / n

    def sqrt(self, x):
        return shims.sym_sqrt(x)

    def forall(self, items):
        return self.And(*list(items))

    def note(self, *a):
        pass
