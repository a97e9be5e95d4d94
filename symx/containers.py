"""dict/set that accept symbolic keys (equality is decided by forking)."""
from .values import Sym, is_sym
from .strings import has_sym


class DictMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, dict)


class _Key:
    """Holder for a symbolic key inside the native dict (identity hashed)."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def unkey(k):
    return k.k if type(k) is _Key else k


class SymDict(dict, metaclass=DictMeta):
    """dict subclass; keys containing symbolic parts are kept in insertion order
    in _Key holders and looked up by (forking) equality."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self._nsym = 0
        self.update(*a, **kw)

    def _find(self, k):
        """native storage key equal to k, or None."""
        if not has_sym(k):
            if dict.__contains__(self, k):
                return k
            if not self._nsym:
                return None
            for s in dict.keys(self):
                if type(s) is _Key and bool(s.k == k):
                    return s
            return None
        for s in list(dict.keys(self)):
            kk = unkey(s)
            if kk is k or bool(kk == k):
                return s
        return None

    def __contains__(self, k):
        if not self._nsym and not has_sym(k):
            return dict.__contains__(self, k)
        return self._find(k) is not None

    def __getitem__(self, k):
        if not self._nsym and not has_sym(k):
            return dict.__getitem__(self, k)
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        return dict.__getitem__(self, s)

    def get(self, k, d=None):
        if not self._nsym and not has_sym(k):
            return dict.get(self, k, d)
        s = self._find(k)
        return d if s is None else dict.__getitem__(self, s)

    def __setitem__(self, k, v):
        if not self._nsym and not has_sym(k):
            return dict.__setitem__(self, k, v)
        s = self._find(k)
        if s is None:
            if has_sym(k):
                s = _Key(k)
                self._nsym += 1
            else:
                s = k
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        if type(s) is _Key:
            self._nsym -= 1
        dict.__delitem__(self, s)

    _MISSING = object()

    def pop(self, k, d=_MISSING):
        s = self._find(k)
        if s is None:
            if d is SymDict._MISSING:
                raise KeyError(k)
            return d
        if type(s) is _Key:
            self._nsym -= 1
        return dict.pop(self, s)

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is None:
            self[k] = d
            return d
        return dict.__getitem__(self, s)

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        if not self._nsym:
            r = SymDict()
            dict.update(r, self)
            return r
        return SymDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SymDict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.items()])

    def keys(self):
        if not self._nsym:
            return dict.keys(self)
        return [unkey(k) for k in dict.keys(self)]

    def __iter__(self):
        if not self._nsym:
            return dict.__iter__(self)
        return iter([unkey(k) for k in dict.keys(self)])

    def items(self):
        if not self._nsym:
            return dict.items(self)
        return [(unkey(k), v) for k, v in dict.items(self)]

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is _Key:
            self._nsym -= 1
        return unkey(k), v

    def clear(self):
        self._nsym = 0
        dict.clear(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        return SymDict([(k, v) for k in it])

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % kv for kv in self.items()) + "}"


class SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, set) or type(o) is SymSet or isinstance(o, SymSetBase)

    def __subclasscheck__(cls, c):
        return issubclass(c, set) or SymSetBase in c.__mro__


class SymSetBase:
    pass


class SymSet(SymSetBase, metaclass=SetMeta):
    """Set over a SymDict."""

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def __contains__(self, x):
        return x in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        # native sets have no defined order; keep a deterministic one
        return iter(list(self._d.keys()))

    def __bool__(self):
        return len(self._d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self._d[x] = True

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def intersection(self, *o):
        r = SymSet(self)
        for s in o:
            s = s if isinstance(s, SymSetBase) else SymSet(s)
            r = SymSet([x for x in r if x in s])
        return r

    def difference(self, *o):
        r = SymSet(self)
        for s in o:
            s = s if isinstance(s, SymSetBase) else SymSet(s)
            r = SymSet([x for x in r if x not in s])
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    def difference_update(self, *o):
        self._d = self.difference(*o)._d

    def intersection_update(self, *o):
        self._d = self.intersection(*o)._d

    def issubset(self, o):
        o = o if isinstance(o, SymSetBase) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    __ror__ = __or__
    __rand__ = __and__

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSetBase)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"


class FrozenMeta(SetMeta):
    def __instancecheck__(cls, o):
        return isinstance(o, frozenset) or type(o) is SymFrozenSet


class SymFrozenSet(SymSet, metaclass=FrozenMeta):
    pass
