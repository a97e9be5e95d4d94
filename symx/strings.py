"""Symbolic strings: ropes of native characters, symbolic characters and
symbolic-number / opaque segments."""
import functools
import sys
import unicodedata

import z3

from . import core
from .core import Unsupported, ENG
from .values import Sym, SymBool, SymInt, SymNum, SymReal, mkbool, bexpr, is_sym, mknum, to_float, lift, to_real


def eng():
    return core.ENG


class Ch:
    """A symbolic character (code point term)."""
    __slots__ = ("e", "dom")

    def __init__(self, e, dom=None):
        self.e = e
        self.dom = dom  # possible code points (frozenset), when few

    def __repr__(self):
        return "<%s>" % self.e


class Num:
    """Decimal text of a symbolic number (spec: format spec or '')."""
    __slots__ = ("v", "spec")

    def __init__(self, v, spec=""):
        self.v = v
        self.spec = spec

    def __repr__(self):
        return "<num %s>" % (str(self.v.e)[:60])


class Opq:
    """Opaque text: injective function `tag` of a payload (e.g. a hash digest)."""
    __slots__ = ("tag", "payload", "length")

    def __init__(self, tag, payload, length=None):
        self.tag = tag
        self.payload = payload
        self.length = length

    def __repr__(self):
        return "<%s %r>" % (self.tag, self.payload)


NUMCHARS = set("0123456789+-.einfa")


@functools.lru_cache(None)
def ranges_of(name):
    """Code point ranges satisfying str predicate `name`."""
    pred = _native_pred(name)
    out = []
    start = None
    for cp, c in enumerate(_all_chars()):
        ok = pred(c)
        if ok:
            if start is None:
                start = cp
        elif start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return tuple(out)


@functools.lru_cache(None)
def _all_chars():
    return "".join(map(chr, range(0x110000)))


def _native_pred(name):
    if name == "word":
        return lambda c: c.isalnum() or c == "_"
    return getattr(str, name)


def in_ranges(e, rs):
    return z3.Or([(e == lo) if lo == hi else z3.And(e >= lo, e <= hi) for lo, hi in rs])


@functools.lru_cache(2000)
def _dom_ranges(dom, name):
    """Members of the domain satisfying the predicate: True / False (all / none) or ranges."""
    pred = _native_pred(name)
    ok = sorted(c for c in dom if pred(chr(c)))
    if not ok:
        return False
    if len(ok) == len(dom):
        return True
    out = []
    for c in ok:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return tuple(out)


_FORM = {}


def class_formula(u, name):
    """z3 Bool / bool: symbolic character u satisfies the predicate."""
    if u.dom is not None:
        rs = _dom_ranges(u.dom, name)
        if isinstance(rs, bool):
            return rs
        return in_ranges(u.e, rs)
    k = (u.e.get_id(), name)
    f = _FORM.get(k)
    if f is None or not f[0].eq(u.e):
        if len(_FORM) > 4000:
            _FORM.clear()
        f = _FORM[k] = (u.e, in_ranges(u.e, ranges_of(name)))
    return f[1]


def char_pred(u, name):
    """Truth (native or SymBool) of a one-character predicate."""
    if isinstance(u, str):
        return _native_pred(name)(u)
    if isinstance(u, Ch):
        f = class_formula(u, name)
        return f if isinstance(f, bool) else mkbool_raw(f)
    raise Unsupported("character predicate on %r" % (u,))


def mkbool_raw(f):
    return SymBool(f)


def char_eq(a, b):
    """z3 Bool / bool: equality of two one-character units."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        if b.dom is not None and ord(a) not in b.dom:
            return False
    elif isinstance(b, str):
        if a.dom is not None and ord(b) not in a.dom:
            return False
    elif a is b:
        return True
    elif a.dom is not None and b.dom is not None and not (a.dom & b.dom):
        return False
    ea = ord(a) if isinstance(a, str) else a.e
    eb = ord(b) if isinstance(b, str) else b.e
    return ea == eb


def mk(units):
    units = tuple(units)
    for u in units:
        if not isinstance(u, str):
            return SymStr(units)
    return "".join(units)


def units_of(s):
    if isinstance(s, str):
        return tuple(s)
    if isinstance(s, SymStr):
        return s.u
    raise TypeError("expected str, got %r" % type(s))


def is_strlike(s):
    return isinstance(s, (str, SymStr))


def _fixed(u):
    return not isinstance(u, (Num, Opq)) or (isinstance(u, Opq) and u.length == 1)


def units_eq(a, b):
    """z3 Bool or bool: equality of two unit sequences."""
    if len(a) == len(b) and all(_fixed(x) for x in a) and all(_fixed(x) for x in b):
        conds = []
        for x, y in zip(a, b):
            c = char_eq(x, y)
            if c is True:
                continue
            if c is False:
                return False
            conds.append(c)
        if not conds:
            return True
        return z3.And(conds)
    af, bf = all(_fixed(x) for x in a), all(_fixed(x) for x in b)
    if af and bf:
        return False
    conds = []
    i = j = 0
    while i < len(a) or j < len(b):
        if i >= len(a) or j >= len(b):
            return False  # Num/Opq segments are never empty
        x, y = a[i], b[j]
        if _fixed(x) and _fixed(y):
            c = char_eq(x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
            i += 1
            j += 1
            continue
        if isinstance(x, Opq) and isinstance(y, Opq):
            if x.tag != y.tag:
                raise Unsupported("comparison of different opaque segments")
            c = payload_eq(x.payload, y.payload)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
            i += 1
            j += 1
            continue
        if isinstance(x, Num) and isinstance(y, Num):
            if x.spec != y.spec:
                raise Unsupported("comparison of differently formatted numbers")
            if x.v.e.is_real() != y.v.e.is_real():
                # '1' and '1.0' are different texts
                return False
            conds.append(x.v.e == y.v.e)
            i += 1
            j += 1
            continue
        # Num against characters: take the literal numeric run
        if isinstance(x, Num) or isinstance(y, Num):
            num, seq, k = (x, b, j) if isinstance(x, Num) else (y, a, i)
            run = ""
            while k < len(seq) and isinstance(seq[k], str) and seq[k] in NUMCHARS:
                run += seq[k]
                k += 1
            if not run:
                if k < len(seq) and isinstance(seq[k], str):
                    return False
                raise Unsupported("comparison of a number text with symbolic text")
            other = a if isinstance(x, Num) else b
            oi = (i if isinstance(x, Num) else j) + 1
            follows_num = oi < len(other) and (not isinstance(other[oi], str) or other[oi] in NUMCHARS)
            if follows_num or (k < len(seq) and not isinstance(seq[k], str)) or num.spec:
                raise Unsupported("comparison of a number text with adjacent text")
            try:
                val = float(run)
            except ValueError:
                return False
            if num.v.e.is_real():
                if repr(val) != run:
                    return False
                from .values import real_const
                conds.append(num.v.e == real_const(val))
            else:
                if not val.is_integer() or str(int(val)) != run:
                    return False
                conds.append(num.v.e == int(val))
            if isinstance(x, Num):
                i += 1
                j = k
            else:
                j += 1
                i = k
            continue
        raise Unsupported("comparison of opaque text with characters")
    return z3.And(conds) if conds else True


def payload_eq(p, q):
    if isinstance(p, tuple) and isinstance(q, tuple):
        if len(p) != len(q):
            return False
        cs = []
        for x, y in zip(p, q):
            c = payload_eq(x, y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return z3.And(cs) if cs else True
    if isinstance(p, SymBytes) or isinstance(q, SymBytes):
        if isinstance(p, (bytes, SymBytes)) and isinstance(q, (bytes, SymBytes)):
            return _raw(SymBytes.of(p) == q)
        return False
    r = p == q
    return _raw(r)


def _raw(r):
    if isinstance(r, SymBool):
        return r.e
    return bool(r)


def _tobool(c):
    return mkbool(c) if not isinstance(c, bool) else c


# harnesses switch this on: number texts become symbolic digits when their
# characters are needed (otherwise the number is enumerated)
DIGITS = {"on": False, "seen": {}}


def digits_of(e):
    """Characters of the decimal text of an integer: forks on the sign and the
    number of digits only."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return list(str(e.as_long()))
    k = e.sexpr()
    if k in DIGITS["seen"]:
        return DIGITS["seen"][k]
    if not bool(_tobool(e >= 0)):
        r = ["-"] + digits_of(-e)
    else:
        for n in range(1, 8):
            if bool(_tobool(e < 10 ** n)):
                break
        else:
            raise Unsupported("long number inspected")
        ds = [z3.Int("digit!%d!%d" % (len(DIGITS["seen"]), i)) for i in range(n)]
        eng().assume(z3.And([z3.And(d >= (1 if i == 0 and n > 1 else 0), d <= 9) for i, d in enumerate(ds)] +
                            [e == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)])]))
        r = [Ch(48 + d) for d in ds]
    DIGITS["seen"][k] = r
    return r


class SymStr(Sym):
    __slots__ = ("u",)
    _is_symstr = True

    def __init__(self, units):
        self.u = tuple(units)

    # ----------------------------------------------------------- structure
    def fix(self):
        """Rope without variable-length segments (forks on integer values)."""
        if all(_fixed(x) for x in self.u):
            return self
        out = []
        for x in self.u:
            if _fixed(x):
                out.append(x)
            elif isinstance(x, Num) and not x.v.e.is_real() and not x.spec:
                out.extend(digits_of(x.v.e) if DIGITS["on"] else str(x.v._value()))
            else:
                raise Unsupported("structure of %r inspected" % (x,))
        return SymStr(out)

    def _concrete(self):
        """Fork until every character is concrete."""
        s = self.fix()
        out = []
        for x in s.u:
            if isinstance(x, Ch):
                out.append(chr(eng().concretise(x.e, lambda v: v.as_long())))
            elif isinstance(x, str):
                out.append(x)
            else:
                raise Unsupported("opaque text concretised")
        return "".join(out)

    def __len__(self):
        return len(self.fix().u)

    def __bool__(self):
        return len(self.u) > 0

    def __iter__(self):
        for x in self.fix().u:
            yield x if isinstance(x, str) else SymStr((x,))

    def __reversed__(self):
        return iter([x if isinstance(x, str) else SymStr((x,)) for x in reversed(self.fix().u)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step = i.start, i.stop, i.step
            if is_sym(start):
                start = start.__index__()
            if is_sym(stop):
                stop = stop.__index__()
            if step in (None, 1):
                n = len(self.u)
                # slices that do not cross a variable-length segment
                if (start is None or (start >= 0 and all(_fixed(x) for x in self.u[:start]) and start <= n)) and \
                        (stop is None or (stop < 0 and all(_fixed(x) for x in self.u[stop:]) and -stop <= n)
                         or (stop >= 0 and stop <= n and all(_fixed(x) for x in self.u[:stop]))):
                    return mk(self.u[start:stop])
                if start is not None and start < 0 and -start <= n and stop is None and all(_fixed(x) for x in self.u[start:]):
                    return mk(self.u[start:])
            return mk(self.fix().u[slice(start, stop, step)])
        if is_sym(i):
            i = i.__index__()
        n = len(self.u)
        if i >= 0 and i < n and all(_fixed(x) for x in self.u[:i + 1]):
            return mk((self.u[i],))
        if i < 0 and -i <= n and all(_fixed(x) for x in self.u[i:]):
            return mk((self.u[i],))
        return mk((self.fix().u[i],))

    # ----------------------------------------------------------- operators
    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(self.u + units_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(units_of(o) + self.u)

    def __mul__(self, n):
        return mk(self.u * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported("%% formatting with a symbolic format")

    def __eq__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return _tobool(units_eq(self.u, units_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def _lt(self, o, orequal):
        a, b = self.fix().u, (SymStr(units_of(o)).fix().u)
        # lexicographic comparison as a formula
        res = z3.BoolVal(len(a) < len(b) or (orequal and len(a) == len(b)))
        if len(a) > len(b):
            res = z3.BoolVal(False)
        for x, y in reversed(list(zip(a, b))):
            ex = z3.IntVal(ord(x)) if isinstance(x, str) else x.e
            ey = z3.IntVal(ord(y)) if isinstance(y, str) else y.e
            res = z3.Or(ex < ey, z3.And(ex == ey, res))
        return mkbool(res)

    def __lt__(self, o):
        return self._lt(o, False) if is_strlike(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if is_strlike(o) else NotImplemented

    def __gt__(self, o):
        return SymStr(units_of(o))._lt(self, False) if is_strlike(o) else NotImplemented

    def __ge__(self, o):
        return SymStr(units_of(o))._lt(self, True) if is_strlike(o) else NotImplemented

    def __hash__(self):
        return hash(self._concrete())

    def __contains__(self, sub):
        u, pat = self.u, units_of(sub)
        if 0 < len(pat) <= len(u) and all(_fixed(x) for x in u) and all(_fixed(x) for x in pat):
            conds = []
            if len(pat) == 1 and isinstance(pat[0], Ch) and all(isinstance(x, str) for x in u):
                # a symbolic character in a native text: one formula over code point ranges
                cps = sorted({ord(x) for x in u})
                if pat[0].dom is not None:
                    cps = [c for c in cps if c in pat[0].dom]
                    if len(cps) == len(pat[0].dom):
                        return True
                rs = []
                for c in cps:
                    if rs and rs[-1][1] == c - 1:
                        rs[-1] = (rs[-1][0], c)
                    else:
                        rs.append((c, c))
                return bool(mkbool(in_ranges(pat[0].e, rs))) if rs else False
            for i in range(len(u) - len(pat) + 1):
                c = units_eq(u[i:i + len(pat)], pat)
                if c is True:
                    return True
                if c is not False:
                    conds.append(c)
            return bool(mkbool(z3.Or(conds))) if conds else False
        return self.find(sub) >= 0

    def __str__(self):
        raise Unsupported("symbolic string used by native code")

    def __format__(self, spec):
        raise Unsupported("symbolic string formatted by native code")

    def __repr__(self):
        return "<SymStr %s>" % ("".join(x if isinstance(x, str) else repr(x) for x in self.u))[:200]

    # ------------------------------------------------------------- matching
    def _match_at(self, u, i, pat):
        """Fork: does pattern (units) occur at position i?"""
        if i < 0 or i + len(pat) > len(u):
            return False
        seg = u[i:i + len(pat)]
        return bool(_tobool(units_eq(seg, pat)))

    def _search_ok(self, pat):
        """Variable-length number segments may be skipped when the pattern
        cannot contain or overlap number text."""
        return pat and all(isinstance(p, str) and p not in NUMCHARS for p in pat)

    def find(self, sub, start=0, end=None):
        pat = units_of(sub)
        if all(_fixed(x) for x in self.u):
            u = self.u
            n = len(u)
            s = slice(start, end).indices(n)
            lo, hi = s[0], s[1]
            if start is not None and start > n:
                return -1
            for i in range(lo, hi - len(pat) + 1):
                if self._match_at(u, i, pat):
                    return i
            return -1
        if start in (0, None) and end is None and self._search_ok(pat):
            # position is only meaningful if no variable segment precedes it
            for i in range(len(self.u)):
                if not _fixed(self.u[i]):
                    continue
                seg = self.u[i:i + len(pat)]
                if len(seg) == len(pat) and all(_fixed(x) for x in seg) and bool(_tobool(units_eq(seg, pat))):
                    if all(_fixed(x) for x in self.u[:i]):
                        return i
                    return len(SymStr(self.u[:i]).fix().u)
            return -1
        return self.fix().find(sub, start, end) if self.fix() is not self else -1

    def rfind(self, sub, start=0, end=None):
        u = self.fix().u
        pat = units_of(sub)
        lo, hi, _ = slice(start, end).indices(len(u))
        for i in range(hi - len(pat), lo - 1, -1):
            if self._match_at(u, i, pat):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        if a:
            return mk(self.fix().u[slice(*a)]).count(sub)
        return len(_split(self, sub, -1)) - 1

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        pat = units_of(p)
        u = self.u
        if start or end is not None:
            u = units_of(self[start:end])
        if len(pat) <= len(u) and all(_fixed(x) for x in u[:len(pat)]):
            return bool(_tobool(units_eq(u[:len(pat)], pat)))
        # a number segment overlapping a non-numeric pattern character cannot match
        for x, y in zip(u, pat):
            if _fixed(x):
                if not bool(_tobool(units_eq((x,), (y,)))):
                    return False
            elif isinstance(x, Num) and isinstance(y, str) and y not in NUMCHARS:
                return False
            else:
                f = SymStr(u).fix()
                return f._match_at(f.u, 0, pat)
        f = SymStr(u).fix()
        return f._match_at(f.u, 0, pat)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        pat = units_of(p)
        u = self.u
        if start or end is not None:
            u = units_of(self[start:end])
        if not pat:
            return True
        if len(pat) <= len(u) and all(_fixed(x) for x in u[-len(pat):]):
            return bool(_tobool(units_eq(u[-len(pat):], pat)))
        for x, y in zip(reversed(u), reversed(pat)):
            if _fixed(x):
                if not bool(_tobool(units_eq((x,), (y,)))):
                    return False
            elif isinstance(x, Num) and isinstance(y, str) and y not in NUMCHARS:
                return False
            else:
                break
        f = SymStr(u).fix()
        return f._match_at(f.u, len(f.u) - len(pat), pat)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.u) - len(p)] if p and self.endswith(p) else self

    # ------------------------------------------------------------ splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return _split_ws(self, maxsplit)
        return _split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        out = []
        rest = self
        while maxsplit:
            i = rest.rfind(sep) if isinstance(rest, SymStr) else rest.rfind(sep)
            if i < 0:
                break
            out.append(rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        out.append(rest)
        return out[::-1]

    def splitlines(self, keepends=False):
        u = self.fix().u
        out, cur = [], []
        i = 0
        while i < len(u):
            x = u[i]
            isnl = bool(_is_linebreak(x))
            if not isnl:
                cur.append(x)
                i += 1
                continue
            end = [x]
            if bool(_tobool(char_eq(x, "\r"))) and i + 1 < len(u) and bool(_tobool(char_eq(u[i + 1], "\n"))):
                end.append(u[i + 1])
            i += len(end)
            out.append(mk(cur + end if keepends else cur))
            cur = []
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def join(self, items):
        return sym_join(self, items)

    # ------------------------------------------------------------ stripping
    def _strip_test(self, chars):
        if chars is None:
            return lambda x: False if isinstance(x, Num) else bool(char_pred(x, "isspace"))
        cs = units_of(chars)

        def test(x):
            if isinstance(x, Num) and all(isinstance(c, str) and c not in NUMCHARS for c in cs):
                return False
            if not _fixed(x):
                raise Unsupported("strip on opaque text")
            return any(bool(_tobool(char_eq(x, c))) for c in cs)
        return test

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        u = self.u
        i = 0
        while i < len(u) and t(u[i]):
            i += 1
        return mk(u[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        u = self.u
        i = len(u)
        while i > 0 and t(u[i - 1]):
            i -= 1
        return mk(u[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    # ---------------------------------------------------------- replacement
    def replace(self, old, new, count=-1):
        if is_sym(count):
            count = count.__index__()
        po, pn = units_of(old), units_of(new)
        if not po:
            u = self.fix().u
            out = []
            n = 0
            for x in u:
                if count < 0 or n < count:
                    out.extend(pn)
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out.extend(pn)
            return mk(out)
        u = self.u
        if not all(_fixed(x) for x in u) and not self._search_ok(po):
            u = self.fix().u
        out = []
        i = 0
        n = 0
        while i < len(u):
            if (count < 0 or n < count) and i + len(po) <= len(u):
                seg = u[i:i + len(po)]
                if all(_fixed(x) for x in seg):
                    c = units_eq(seg, po)
                    if c is not False and len(po) == 1 and len(pn) == 1 and count < 0 and c is not True:
                        # single character substitution: no fork needed
                        x = seg[0]
                        e = z3.If(c, z3.IntVal(ord(pn[0])) if isinstance(pn[0], str) else pn[0].e, x.e)
                        dom = None
                        if x.dom is not None and isinstance(pn[0], str):
                            dom = x.dom | {ord(pn[0])}
                            if isinstance(po[0], str):
                                dom = (x.dom - {ord(po[0])}) | {ord(pn[0])}
                        out.append(Ch(e, dom))
                        i += 1
                        continue
                    if bool(_tobool(c)):
                        out.extend(pn)
                        i += len(po)
                        n += 1
                        continue
            out.append(u[i])
            i += 1
        return mk(out)

    def translate(self, table):
        out = []
        for x in self.fix().u:
            done = False
            for k, v in table.items():
                if bool(_tobool(char_eq(x, chr(k)))):
                    if v is not None:
                        out.extend(units_of(chr(v) if isinstance(v, int) else v))
                    done = True
                    break
            if not done:
                out.append(x)
        return mk(out)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for x in self.fix().u:
            if bool(_tobool(char_eq(x, "\t"))):
                k = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(" " * k)
                col += k
            else:
                out.append(x)
                col += 1
                if bool(_tobool(char_eq(x, "\n"))) or bool(_tobool(char_eq(x, "\r"))):
                    col = 0
        return mk(out)

    # --------------------------------------------------------------- cases
    def _map_case(self, fn):
        out = []
        for x in self.fix().u:
            if isinstance(x, str):
                out.extend(fn(x))
                continue
            if x.dom is not None:
                m = {c: fn(chr(c)) for c in x.dom}
                if all(len(v) == 1 for v in m.values()):
                    e = x.e
                    for c, v in sorted(m.items()):
                        if ord(v) != c:
                            e = z3.If(x.e == c, z3.IntVal(ord(v)), e)
                    out.append(Ch(e, frozenset(ord(v) for v in m.values())))
                    continue
            if bool(mkbool(x.e < 128)):
                lo, hi, d = (97, 122, -32) if fn("a") == "A" else (65, 90, 32)
                out.append(Ch(z3.If(z3.And(x.e >= lo, x.e <= hi), x.e + d, x.e)))
            else:
                nm = "isupper" if fn("A") == "a" else "islower"
                if bool(mkbool(z3.Not(class_formula(x, "isalpha")))):
                    out.append(x)
                else:
                    out.extend(fn(chr(eng().concretise(x.e, lambda v: v.as_long()))))
        return mk(out)

    def lower(self):
        return self._map_case(lambda c: c.lower())

    def upper(self):
        return self._map_case(lambda c: c.upper())

    casefold = lower

    def capitalize(self):
        return mk(units_of(_sym(self[:1]).upper()) + units_of(_sym(self[1:]).lower()))

    def title(self):
        return self._concrete().title()

    def swapcase(self):
        return self._concrete().swapcase()

    # ----------------------------------------------------------- predicates
    def _all(self, name):
        u = self.u
        if not u:
            return False
        return all(bool(char_pred(x, name)) for x in self.fix().u)

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return all(bool(char_pred(x, "isprintable")) for x in self.fix().u)

    def isascii(self):
        return all(x.isascii() if isinstance(x, str) else bool(mkbool(x.e < 128)) for x in self.fix().u)

    def isidentifier(self):
        return self._concrete().isidentifier()

    def isupper(self):
        return self._concrete().isupper()

    def islower(self):
        return self._concrete().islower()

    # -------------------------------------------------------------- padding
    def zfill(self, n):
        s = self.fix()
        n = n.__index__()
        if len(s.u) >= n:
            return mk(s.u)
        if s.u and (bool(_tobool(char_eq(s.u[0], "-"))) or bool(_tobool(char_eq(s.u[0], "+")))):
            return mk(s.u[:1] + ("0",) * (n - len(s.u)) + s.u[1:])
        return mk(("0",) * (n - len(s.u)) + s.u)

    def ljust(self, n, c=" "):
        s = self.fix()
        return mk(s.u + tuple(units_of(c)) * max(0, n.__index__() - len(s.u)))

    def rjust(self, n, c=" "):
        s = self.fix()
        return mk(tuple(units_of(c)) * max(0, n.__index__() - len(s.u)) + s.u)

    def center(self, n, c=" "):
        s = self.fix()
        pad = max(0, n.__index__() - len(s.u))
        left = pad // 2 + (pad & n & 1)
        return mk(tuple(units_of(c)) * left + s.u + tuple(units_of(c)) * (pad - left))

    # ------------------------------------------------------------- encoding
    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.replace("-", "").lower() not in ("utf8",):
            if encoding.lower() == "ascii":
                return SymBytes.of_text(self)
            raise Unsupported("encoding %s" % encoding)
        return SymBytes.of_text(self)

    def format(self, *args, **kw):
        return sym_format(self, args, kw)


def _sym(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def _is_linebreak(x):
    if isinstance(x, str):
        return x in LINEBREAKS
    return mkbool(z3.Or([x.e == ord(c) for c in LINEBREAKS]))


def _split(s, sep, maxsplit):
    pat = units_of(sep)
    if not pat:
        raise ValueError("empty separator")
    s = _sym(s)
    u = s.u
    if not all(_fixed(x) for x in u) and not s._search_ok(pat):
        u = s.fix().u
    out, cur = [], []
    i = 0
    n = 0
    while i < len(u):
        seg = u[i:i + len(pat)]
        if (maxsplit < 0 or n < maxsplit) and len(seg) == len(pat) and all(_fixed(x) for x in seg) and bool(_tobool(units_eq(seg, pat))):
            out.append(mk(cur))
            cur = []
            i += len(pat)
            n += 1
        else:
            cur.append(u[i])
            i += 1
    out.append(mk(cur))
    return out


def _split_ws(s, maxsplit):
    out, cur = [], []
    u = _sym(s).u
    i = 0
    while i < len(u):
        x = u[i]
        sp = False if isinstance(x, Num) else bool(char_pred(x, "isspace"))
        if sp:
            if cur:
                out.append(mk(cur))
                cur = []
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = i
                    while j < len(u) and (not isinstance(u[j], Num)) and bool(char_pred(u[j], "isspace")):
                        j += 1
                    if j < len(u):
                        out.append(mk(u[j:]))
                    return out
        else:
            cur.append(x)
            if maxsplit == 0:
                return [mk(u[i:]).rstrip()] if False else [mk(u[i:])]
        i += 1
    if cur:
        out.append(mk(cur))
    return out


def sym_join(sep, items):
    out = []
    us = units_of(sep)
    first = True
    for it in items:
        if not is_strlike(it):
            raise TypeError("sequence item: expected str instance, %s found" % type(it).__name__)
        if not first:
            out.extend(us)
        first = False
        out.extend(units_of(it))
    return mk(out)


def to_str(x):
    """str(x) for any value."""
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymNum):
        return SymStr((Num(x),))
    if isinstance(x, SymBytes):
        raise Unsupported("str(bytes)")
    if isinstance(x, Sym):
        raise Unsupported("str(%s)" % type(x).__name__)
    if isinstance(x, BaseException) and len(x.args) == 1 and is_sym(x.args[0]):
        return to_str(x.args[0])
    if type(x) in (list, tuple, dict, set) or isinstance(x, (list, tuple)):
        return to_repr(x)
    cls = type(x)
    if cls.__str__ is not object.__str__ and not isinstance(x, (int, float, bytes, BaseException, type)):
        r = cls.__str__(x)
        return r
    if cls.__str__ is object.__str__ and cls.__repr__ is not object.__repr__:
        r = cls.__repr__(x)
        return r
    return str(x)


def to_repr(x):
    """repr(x); symbolic strings are quoted without escaping (messages only)."""
    if isinstance(x, SymStr):
        return mk(("'",) + x.u + ("'",))
    if isinstance(x, SymBool):
        return repr(bool(x))
    if isinstance(x, SymNum):
        return SymStr((Num(x),))
    if isinstance(x, SymBytes):
        return "b'<symbolic>'"
    if type(x) is list:
        return sym_join("", ["["] + [sym_join(", ", [to_repr(y) for y in x])] + ["]"])
    if type(x) is tuple:
        if len(x) == 1:
            return sym_join("", ["(", to_repr(x[0]), ",)"])
        return sym_join("", ["("] + [sym_join(", ", [to_repr(y) for y in x])] + [")"])
    if isinstance(x, dict):
        return sym_join("", ["{"] + [sym_join(", ", [sym_join(": ", [to_repr(k), to_repr(v)]) for k, v in x.items()])] + ["}"])
    if isinstance(x, (set, frozenset)):
        return sym_join("", ["{"] + [sym_join(", ", [to_repr(y) for y in x])] + ["}"])
    cls = type(x)
    if not isinstance(x, (int, float, bytes, str, type, BaseException)) and cls.__repr__ is not object.__repr__:
        return cls.__repr__(x)
    return repr(x)


def _has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(_has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(_has_sym(k, depth - 1) or _has_sym(v, depth - 1) for k, v in x.items())
    return False


has_sym = _has_sym


def fmt_value(x, conv, spec):
    """One replacement field: value, conversion ('', 'r', 's', 'a'), spec."""
    if conv in ("r", "a"):
        x = to_repr(x)
    elif conv == "s":
        x = to_str(x)
    if not spec:
        if isinstance(x, str):
            return x
        if isinstance(x, Sym):
            return to_str(x)
        if type(x).__format__ is not object.__format__ and not isinstance(x, (int, float, str, bytes)):
            return format(x, "")
        return to_str(x)
    if isinstance(spec, SymStr):
        spec = spec._concrete()
    if isinstance(x, SymNum):
        import re
        m = re.fullmatch(r"(0?)(\d*)([dn]?)", spec)
        if m and not x.e.is_real():
            return format(x._value(), spec)
        return SymStr((Num(x, spec),))
    if isinstance(x, SymStr):
        import re
        m = re.fullmatch(r"(?:(.)?([<>^]))?(\d*)s?", spec)
        if m:
            w = int(m.group(3) or 0)
            f = {"<": "ljust", ">": "rjust", "^": "center", None: "ljust"}[m.group(2)]
            return getattr(x, f)(w, m.group(1) or " ")
        raise Unsupported("format spec %s" % spec)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    return format(x, spec)


def fstring(*parts):
    """Instrumented f-string: parts are native strings or (value, conv, spec)."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            out.append(fmt_value(*p))
    for o in out:
        if not isinstance(o, str):
            return sym_join("", out)
    return "".join(out)


def sym_format(s, args, kw):
    """str.format with symbolic arguments (format string native)."""
    import string
    if isinstance(s, SymStr):
        # only whole-literal symbolic formats: '{' / '}' are syntax
        raise Unsupported("symbolic format string")
    auto = 0
    out = []
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[name]
        if spec:
            spec = sym_format(spec, args[auto:], kw) if "{" in spec else spec
        out.append(fmt_value(v, conv or "", spec))
    return sym_join("", out)


def percent_format(s, args):
    """native 's % args' with symbolic arguments."""
    import re
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        t = m.group(5)
        if t == "%":
            out.append("%")
            continue
        if m.group(1):
            v = args[0][m.group(1)]
        else:
            v = args[i]
            i += 1
        if not _has_sym(v):
            out.append(("%" + m.group(2) + m.group(3) + ("." + m.group(4) if m.group(4) else "") + t) % (v,))
        elif m.group(2) or m.group(3) or m.group(4):
            out.append(SymStr((Num(v, m.group(0)),)))
        elif t == "r":
            out.append(to_repr(v))
        elif t in "di":
            from .values import to_int
            out.append(to_str(to_int(v)))
        else:
            out.append(to_str(v))
    out.append(s[pos:])
    return sym_join("", out)


# ------------------------------------------------------------------ numbers
def _digit_value(x):
    """(is decimal digit, value) of a unit; forks."""
    if isinstance(x, str):
        return (True, unicodedata.decimal(x)) if x.isdecimal() else (False, None)
    if not isinstance(x, Ch):
        return False, None
    if x.dom is not None and all(c < 128 for c in x.dom):
        if bool(char_pred(x, "isdecimal")):
            return True, SymInt(x.e - 48)
        return False, None
    if bool(mkbool(z3.And(x.e >= 48, x.e <= 57))):
        return True, SymInt(x.e - 48)
    rs = ranges_of("isdecimal")
    if not bool(char_pred(x, "isdecimal")):
        return False, None
    v = z3.IntVal(0)
    for lo, hi in rs:
        for b in range(lo, hi + 1, 10):
            v = z3.If(z3.And(x.e >= b, x.e <= b + 9), x.e - b, v)
    return True, SymInt(v)


def parse_int(s, base=10):
    if base != 10:
        return int(_sym(s)._concrete(), base)
    s = _sym(s)
    if len(s.u) == 1 and isinstance(s.u[0], Num) and not s.u[0].v.e.is_real() and not s.u[0].spec:
        return s.u[0].v
    t = _sym(s.strip()).fix().u
    i = 0
    neg = False
    if t and (bool(_tobool(char_eq(t[0], "-")))):
        neg = True
        i = 1
    elif t and bool(_tobool(char_eq(t[0], "+"))):
        i = 1
    val = 0
    n = 0
    prev_us = True
    for x in t[i:]:
        ok, d = _digit_value(x)
        if ok:
            val = val * 10 + d
            n += 1
            prev_us = False
        elif not prev_us and bool(_tobool(char_eq(x, "_"))):
            prev_us = True
        else:
            raise ValueError("invalid literal for int() with base 10")
    if not n or prev_us:
        raise ValueError("invalid literal for int() with base 10")
    return -val if neg else val


def parse_float(s):
    s = _sym(s)
    u = s.u
    if len(u) == 1 and isinstance(u[0], Num) and not u[0].spec:
        return to_float(u[0].v)
    if len(u) == 2 and u[0] in ("-", "+") and isinstance(u[1], Num) and not u[1].spec:
        v = to_float(u[1].v)
        return -v if u[0] == "-" else v
    if len(u) == 1 and isinstance(u[0], Num) and u[0].spec[:1] == "." and u[0].spec[-1:] == "f" and u[0].spec[1:-1].isdigit():
        # rounded to a number of digits (any value at most half a digit away)
        v = to_float(u[0].v)
        half = z3.RealVal(1) / (2 * 10 ** int(u[0].spec[1:-1]))
        r = z3.FreshReal("rounded")
        eng().assume(z3.And(r - v.e <= half, v.e - r <= half))
        return type(v)(r)
    if all(isinstance(x, str) for x in u):
        return float("".join(u))
    t = _sym(s.strip()).fix().u
    i = 0
    neg = False
    err = ValueError("could not convert string to float")
    if t and bool(_tobool(char_eq(t[0], "-"))):
        neg = True
        i = 1
    elif t and bool(_tobool(char_eq(t[0], "+"))):
        i = 1
    for word in ("inf", "nan", "infinity"):
        rest = t[i:]
        if len(rest) == len(word):
            conds = []
            for x, w in zip(rest, word):
                if isinstance(x, str):
                    conds.append(z3.BoolVal(x.lower() == w))
                else:
                    conds.append(z3.Or(x.e == ord(w), x.e == ord(w.upper())))
            if bool(mkbool(z3.And(conds))):
                v = float(word)
                return -v if neg else v
    val = 0
    n = 0
    frac = 0
    seen_dot = False
    j = i
    prev_us = True
    while j < len(t):
        x = t[j]
        ok, d = _digit_value(x)
        if ok:
            val = val * 10 + d
            n += 1
            if seen_dot:
                frac += 1
            prev_us = False
        elif not prev_us and bool(_tobool(char_eq(x, "_"))):
            prev_us = True
        elif not seen_dot and (n == 0 or not prev_us) and bool(_tobool(char_eq(x, "."))):
            seen_dot = True
            prev_us = True
        else:
            break
        j += 1
    if not n:
        raise err
    if prev_us and not (seen_dot and frac == 0):
        raise err
    exp = 0
    if j < len(t):
        x = t[j]
        if not bool(_tobool(char_eq(x, "e"))) and not bool(_tobool(char_eq(x, "E"))):
            raise err
        e = parse_int(mk(t[j + 1:])) if t[j + 1:] else None
        if e is None or bool(char_pred(t[j + 1], "isspace")):
            raise err
        exp = e.__index__()
    from fractions import Fraction
    k = exp - frac
    r = val * Fraction(10) ** k if is_sym(val) else Fraction(val) * Fraction(10) ** k
    if is_sym(r):
        r = to_float(r)
    else:
        r = float(r)
    return -r if neg else r


# -------------------------------------------------------------------- bytes
class SymBytes(Sym):
    """Byte string given by a text rope (its UTF-8 encoding) or by byte terms."""
    __slots__ = ("parts",)

    # parts: tuple of ('t', units) | ('b', bytes)
    def __init__(self, parts):
        self.parts = tuple(parts)

    @staticmethod
    def of_text(s):
        return SymBytes((("t", units_of(s)),))

    @staticmethod
    def of(b):
        if isinstance(b, SymBytes):
            return b
        try:
            return SymBytes((("t", tuple(bytes(b).decode("utf-8"))),))
        except UnicodeDecodeError:
            return SymBytes((("b", bytes(b)),))

    def text_units(self):
        out = []
        for k, p in self.parts:
            if k == "b":
                raise Unsupported("bytes as text")
            out.extend(p)
        return tuple(out)

    def decode(self, encoding="utf-8", errors="strict"):
        return mk(self.text_units())

    def __add__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(self.parts + SymBytes.of(o).parts)

    def __radd__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(SymBytes.of(o).parts + self.parts)

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return _tobool(units_eq(self.text_units(), SymBytes.of(o).text_units()))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(SymStr(self.text_units())._concrete().encode())

    def __bool__(self):
        return any(len(p) for _, p in self.parts)

    def __len__(self):
        n = 0
        for x in SymStr(self.text_units()).fix().u:
            if isinstance(x, str):
                n += len(x.encode("utf-8"))
            elif isinstance(x, Ch):
                if bool(mkbool(x.e < 0x80)):
                    n += 1
                elif bool(mkbool(x.e < 0x800)):
                    n += 2
                elif bool(mkbool(x.e < 0x10000)):
                    n += 3
                else:
                    n += 4
            else:
                raise Unsupported("byte length of opaque text")
        return n

    def startswith(self, p):
        return SymStr(self.text_units()).startswith(SymBytes.of(p).decode())

    def rstrip(self, chars=None):
        return SymBytes.of_text(_sym(SymStr(self.text_units()).rstrip(None if chars is None else chars.decode())))

    def strip(self, chars=None):
        return SymBytes.of_text(_sym(SymStr(self.text_units()).strip(None if chars is None else chars.decode())))

    def __repr__(self):
        return "<SymBytes %r>" % (self.parts,)
