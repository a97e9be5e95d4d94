"""Session API used by the property harnesses; concrete (replay) implementation.

This module must not import the solver: replays run with the project's own
interpreter on the untouched sources.
"""
import contextlib
import os
import shutil
import tempfile
from fractions import Fraction

TOL = 1e-6


class CheckFailed(BaseException):
    """A property assertion failed (replay)."""


class Discard(BaseException):
    """The replayed inputs do not satisfy an assumption of the harness."""


class XmlError(Exception):
    """Text is not a well-formed XML document."""


class Node:
    """Element of a parsed document (attribute values / texts may be symbolic)."""

    def __init__(self, tag):
        self.tag = tag
        self.attrs = {}
        self.attr_order = []
        self.items = []  # child Nodes and texts

    @property
    def children(self):
        return [c for c in self.items if isinstance(c, Node)]

    def text(self):
        """Concatenated text of the whole subtree."""
        r = ""
        for c in self.items:
            r = r + (c.text() if isinstance(c, Node) else c)
        return r

    def iter(self):
        yield self
        for c in self.children:
            yield from c.iter()

    def find_all(self, tag):
        return [n for n in self.iter() if n.tag == tag]

    def get(self, k, d=None):
        return self.attrs.get(k, d)


def parse_xml_plain(text):
    import xml.parsers.expat
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    stack = []
    root = []

    def start(tag, attrs):
        n = Node(tag)
        for k, v in attrs.items():
            n.attrs[k] = v
            n.attr_order.append(k)
        if stack:
            stack[-1].items.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def data(d):
        if stack[-1].items and isinstance(stack[-1].items[-1], str):
            stack[-1].items[-1] += d
        else:
            stack[-1].items.append(d)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = data
    try:
        p.Parse(text.encode("utf-8"), True)
    except xml.parsers.expat.ExpatError as e:
        raise XmlError(str(e))
    return root[0]


class Session:
    symbolic = False

    def __init__(self):
        self.tmp = None

    # -- scratch directory (one per process, emptied for each path)
    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="elsieverif.")
        for n in os.listdir(self.tmp):
            p = os.path.join(self.tmp, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        return self.tmp

    def cleanup(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


class ConcreteSession(Session):
    """Replays recorded inputs on the real code."""

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.labels = {}
        self.failures = []

    def _get(self, name):
        if name not in self.inputs:
            # the replayed path needs an input the symbolic path never created
            return None
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        return (lo if lo is not None else 0) if v is None else int(v)

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if v is None:
            return float(lo) if lo is not None else 0.0
        f = Fraction(v)
        return float(f)

    def number(self, name, lo=None, hi=None):
        return self.real(name, lo, hi)

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        v = self._get(name)
        options = list(options)
        return options[v or 0]

    def str(self, name, n, alphabet=None, exclude=""):
        v = self._get(name)
        if v is None:
            return (alphabet[0] if alphabet else "a") * n
        return "".join(chr(c) for c in v)

    def text(self, name, lo, hi, alphabet=None, exclude=""):
        n = self.choice(name + ".len", range(lo, hi + 1))
        return self.str(name, n, alphabet, exclude)

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def eq(self, a, b):
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) and not isinstance(a, bool):
            return abs(a - b) <= TOL * max(1, abs(a), abs(b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def le(self, a, b):
        return a <= b + TOL * max(1, abs(a), abs(b))

    def lt(self, a, b):
        return a < b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def raised(self, fn, *a, **k):
        """Exception raised by fn (None when it returns)."""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None

    def units(self, s):
        return list(s)

    def xml(self, text):
        return parse_xml_plain(text)

    def is_sym(self, x):
        return False

    def same_text(self, a, b):
        return a == b

    def key(self, x):
        return x

    def concrete(self, x):
        return x

    def split_numbers(self):
        pass

    def sin_cos_deg(self, d):
        import math
        return math.sin(math.radians(d)), math.cos(math.radians(d))

    def atan_unit(self, dx, dy):
        """Unit vector of (dx, dy)."""
        import math
        n = math.hypot(dx, dy)
        return dx / n, dy / n

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def forall(self, items):
        return all(items)

    def note(self, *a):
        pass


class H:
    """A harness: fn(S, **cfg) for each configuration of the tier."""

    def __init__(self, name, fn, quick, thorough=None, bounds="", assumes=""):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds
        self.assumes = assumes


def product(**kw):
    """All combinations of the given configuration values."""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out
