"""Backtracking matcher for symbolic strings over sre parse trees.

Follows the ordering semantics of Python's re; every test of a symbolic
character forks the path, so on each path the match result is exact.
"""
import re as _re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as C

import z3

from .core import Unsupported
from .strings import SymStr, units_of, mk, Ch, Num, Opq, _tobool, char_eq, class_formula, is_strlike, _fixed, NUMCHARS
from .values import mkbool, is_sym
from .containers import SymDict


def _category(av):
    return {
        C.CATEGORY_DIGIT: ("isdecimal", False), C.CATEGORY_NOT_DIGIT: ("isdecimal", True),
        C.CATEGORY_SPACE: ("isspace", False), C.CATEGORY_NOT_SPACE: ("isspace", True),
        C.CATEGORY_WORD: ("word", False), C.CATEGORY_NOT_WORD: ("word", True),
    }[av]


def _in_formula(u, items):
    """z3 Bool/bool: unit u is in the character class."""
    neg = False
    conds = []
    ascii_u = isinstance(u, str)
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(char_eq(u, chr(av)))
        elif op is C.RANGE:
            if ascii_u:
                conds.append(av[0] <= ord(u) <= av[1])
            elif u.dom is not None and not any(av[0] <= c <= av[1] for c in u.dom):
                conds.append(False)
            elif u.dom is not None and all(av[0] <= c <= av[1] for c in u.dom):
                conds.append(True)
            else:
                conds.append(z3.And(u.e >= av[0], u.e <= av[1]))
        elif op is C.CATEGORY:
            name, n = _category(av)
            if ascii_u:
                r = (u.isalnum() or u == "_") if name == "word" else getattr(u, name)()
                conds.append(r != n)
            else:
                r = class_formula(u, name)
                conds.append((not r) if isinstance(r, bool) and n else r if not n else z3.Not(r))
        else:
            raise Unsupported("regex class item %s" % op)
    if all(isinstance(c, bool) for c in conds):
        return any(conds) != neg
    if any(c is True for c in conds):
        return not neg
    e = z3.Or([c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds])
    return z3.Not(e) if neg else e


class Matcher:
    def __init__(self, tree, units, flags):
        self.u = units
        self.flags = flags
        self.groups = {}
        self.ignorecase = bool(flags & _re.IGNORECASE)

    def test(self, c):
        return c if isinstance(c, bool) else bool(mkbool(c))

    def char(self, i, pred):
        if i >= len(self.u):
            return False
        x = self.u[i]
        if not _fixed(x):
            raise Unsupported("regex over opaque text")
        return self.test(pred(x))

    def run(self, ops, idx, i, k):
        """Match ops[idx:] at position i, then continuation k(i). Returns end or None."""
        while idx < len(ops):
            op, av = ops[idx]
            if op is C.LITERAL or op is C.NOT_LITERAL or op is C.ANY or op is C.IN:
                if not self.char(i, self._pred(op, av)):
                    return None
                i += 1
                idx += 1
                continue
            if op is C.AT:
                if not self._at(av, i):
                    return None
                idx += 1
                continue
            if op is C.SUBPATTERN:
                group, addf, delf, p = av
                nxt = idx + 1

                def after(j, group=group, start=i, nxt=nxt):
                    old = self.groups.get(group)
                    if group is not None:
                        self.groups[group] = (start, j)
                    r = self.run(ops, nxt, j, k)
                    if r is None and group is not None:
                        if old is None:
                            self.groups.pop(group, None)
                        else:
                            self.groups[group] = old
                    return r
                return self.run(list(p), 0, i, after)
            if op is C.BRANCH:
                for alt in av[1]:
                    r = self.run(list(alt), 0, i, lambda j: self.run(ops, idx + 1, j, k))
                    if r is not None:
                        return r
                return None
            if op is C.MAX_REPEAT or op is C.MIN_REPEAT or op is getattr(C, "POSSESSIVE_REPEAT", None):
                lo, hi, p = av
                if op is getattr(C, "POSSESSIVE_REPEAT", None):
                    raise Unsupported("possessive repeat")
                return self._repeat(list(p), lo, hi, op is C.MAX_REPEAT, i, lambda j: self.run(ops, idx + 1, j, k))
            if op is C.ASSERT or op is C.ASSERT_NOT:
                d, p = av
                if d < 0:
                    w = p.getwidth()
                    if w[0] != w[1]:
                        raise Unsupported("lookbehind width")
                    st = i - w[0]
                    ok = st >= 0 and self.run(list(p), 0, st, lambda j: j if j == i else None) is not None
                else:
                    ok = self.run(list(p), 0, i, lambda j: j) is not None
                if ok != (op is C.ASSERT):
                    return None
                idx += 1
                continue
            if op is C.GROUPREF:
                g = self.groups.get(av)
                if g is None:
                    return None
                seg = self.u[g[0]:g[1]]
                for n, x in enumerate(seg):
                    if i + n >= len(self.u) or not self.test(char_eq(self.u[i + n], x)):
                        return None
                i += len(seg)
                idx += 1
                continue
            raise Unsupported("regex op %s" % op)
        return k(i)

    def _pred(self, op, av):
        if op is C.LITERAL:
            if self.ignorecase:
                return lambda x: _or(char_eq(x, chr(av).lower()), char_eq(x, chr(av).upper()))
            return lambda x: char_eq(x, chr(av))
        if op is C.NOT_LITERAL:
            return lambda x: _not(char_eq(x, chr(av)))
        if op is C.ANY:
            if self.flags & _re.DOTALL:
                return lambda x: True
            return lambda x: _not(char_eq(x, "\n"))
        if self.ignorecase:
            raise Unsupported("ignorecase class")
        return lambda x: _in_formula(x, av)

    def _at(self, av, i):
        n = len(self.u)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return av is C.AT_BEGINNING and bool(self.flags & _re.MULTILINE) and self.char(i - 1, lambda x: char_eq(x, "\n"))
        if av is C.AT_END:
            if i == n:
                return True
            if self.flags & _re.MULTILINE:
                return self.char(i, lambda x: char_eq(x, "\n"))
            return i == n - 1 and self.char(i, lambda x: char_eq(x, "\n"))
        if av is C.AT_END_STRING:
            return i == n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = [(C.CATEGORY, C.CATEGORY_WORD)]
            a = i > 0 and self.char(i - 1, lambda x: _in_formula(x, w))
            b = i < n and self.char(i, lambda x: _in_formula(x, w))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported("regex anchor %s" % av)

    def _repeat(self, p, lo, hi, greedy, i, k):
        hi = None if hi is C.MAXREPEAT else hi

        def rec(n, i, last):
            def more():
                if hi is not None and n >= hi:
                    return None
                if n >= lo and last == i and n > 0:
                    return None  # empty iteration
                return self.run(p, 0, i, lambda j: rec(n + 1, j, i))
            if n < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else k(i)
            r = k(i)
            return r if r is not None else more()
        return rec(0, i, -1)


def _not(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def _or(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


class Match:
    def __init__(self, pat, string, groups, span):
        self.re = pat
        self.string = string
        self._groups = dict(groups)
        self._groups[0] = span
        self.pos = 0
        self.lastindex = max([g for g in groups], default=None)

    def _g(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._groups.get(self._g(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            sp = self._groups.get(self._g(g))
            r.append(None if sp is None else self.string[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(default if self._groups.get(i) is None else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return SymDict([(n, default if self._groups.get(i) is None else self.group(i)) for n, i in self.re.groupindex.items()])

    @property
    def lastgroup(self):
        best = None
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                best = n
        return best

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        self._re = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = dict(self._re.groupindex)
        self._tree = list(sre_parse.parse(pattern, flags)) if isinstance(pattern, str) else None

    def _at(self, s, units, i, full):
        m = Matcher(self._tree, units, self.flags)
        end = m.run(self._tree, 0, i, (lambda j: j if j == len(units) else None) if full else (lambda j: j))
        if end is None:
            return None
        return Match(self, s, m.groups, (i, end))

    def match(self, s, *a):
        if isinstance(s, str) or not is_strlike(s):
            return self._re.match(s, *a)
        s = s.fix()
        return self._at(s, s.u, a[0] if a else 0, False)

    def fullmatch(self, s, *a):
        if isinstance(s, str) or not is_strlike(s):
            return self._re.fullmatch(s, *a)
        s = s.fix()
        return self._at(s, s.u, a[0] if a else 0, True)

    def search(self, s, *a):
        if isinstance(s, str) or not is_strlike(s):
            return self._re.search(s, *a)
        s = s.fix()
        for i in range(a[0] if a else 0, len(s.u) + 1):
            m = self._at(s, s.u, i, False)
            if m:
                return m
        return None

    def finditer(self, s, *a):
        if isinstance(s, str):
            return self._re.finditer(s, *a)
        return self._finditer(s)

    def _finditer(self, s):
        s = s.fix()
        i = 0
        last_empty_end = None
        while i <= len(s.u):
            m = None
            for j in range(i, len(s.u) + 1):
                m = self._at(s, s.u, j, False)
                if m:
                    break
            if not m:
                return
            st, en = m.span()
            yield m
            i = en if en > st else en + 1

    def findall(self, s, *a):
        if isinstance(s, str):
            return self._re.findall(s, *a)
        out = []
        for m in self._finditer(s):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(m.groups(""))
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and not is_sym(repl) and not callable(repl):
            return self._re.sub(repl, s, count)
        return self._sub(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        return self._sub(repl, s, count)

    def _sub(self, repl, s, count):
        from .strings import sym_join, _sym
        if isinstance(s, str):
            it = self._re.finditer(s)
        else:
            s = s.fix()
            it = self._finditer(s)
        out = []
        pos = 0
        n = 0
        for m in it:
            if count and n >= count:
                break
            out.append(s[pos:m.start()])
            if callable(repl):
                out.append(repl(m))
            elif isinstance(repl, str):
                out.append(_expand(repl, m))
            else:
                if any((not isinstance(x, str)) or x == "\\" for x in repl.u):
                    # symbolic replacement templates: escapes would need parsing
                    if bool("\\" in repl):
                        raise Unsupported("symbolic replacement template")
                out.append(repl)
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return sym_join("", out), n

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self._re.split(s, maxsplit)
        s = s.fix()
        out = []
        pos = 0
        n = 0
        for m in self._finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return out


def _expand(t, m):
    from .strings import sym_join
    if "\\" not in t:
        return t
    out = []
    pos = 0
    for e in _re.finditer(r"\\(?:g<(\w+)>|(\d+)|(.))", t):
        out.append(t[pos:e.start()])
        pos = e.end()
        g = e.group(1) or e.group(2)
        if g:
            v = m.group(int(g) if g.isdigit() else g)
            out.append(v if v is not None else "")
        else:
            out.append({"n": "\n", "t": "\t", "\\": "\\"}.get(e.group(3), e.group(3)))
    out.append(t[pos:])
    return sym_join("", out)


class ReShim:
    """Drop-in for the re module."""
    Pattern = Pattern
    Match = Match
    error = _re.error

    def __init__(self):
        self._cache = {}

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if is_sym(p):
            p = p._concrete() if not _escaped_only(p) else p
        k = (p, int(flags))
        if k not in self._cache:
            self._cache[k] = Pattern(p, flags)
        return self._cache[k]

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def escape(self, s):
        if isinstance(s, str):
            return _re.escape(s)
        return s._concrete() and _re.escape(s._concrete())

    def __getattr__(self, n):
        return getattr(_re, n)


def _escaped_only(p):
    return False
