"""Import hook running the real elsie sources on symbolic values.

Each elsie module is read from the repository at import time, parsed, rewritten
(only where native CPython operations cannot accept symbolic operands) and
executed with builtins whose int/str/len/... understand symbolic values.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.util
import io
import os
import sys
import types
from fractions import Fraction

import z3

from . import core
from .core import Unsupported, BudgetExceeded
from .values import (Sym, SymBool, SymInt, SymNum, SymReal, is_sym, to_int, to_float, sym_minmax, ite, lift, mkbool, mknum)
from . import strings as S
from .strings import SymStr, SymBytes, has_sym, to_str, to_repr, parse_int, parse_float, units_of, mk
from .containers import SymDict, SymSet, SymSetBase, SymFrozenSet, unkey

REPO = os.environ.get("VERIF_REPO", "/repo")
FUNCS = set()
STR_METHODS = {n for n in dir(str) if not n.startswith("__")} | {"decode", "encode"}
DICT_METHODS = {"get", "pop", "setdefault", "update", "copy"}
LOOP_LIMIT = 20000


class State:
    loops = 0
    yield_hook = None
    mode = "symbolic"  # or "concrete"
    env = {}           # module shims of the current environment
    env_builtins = {}


def _enter(name):
    FUNCS.add(name)


def _reraise():
    e = sys.exc_info()[1]
    if isinstance(e, core.Control):
        raise e


def _loop():
    State.loops += 1
    if State.loops > LOOP_LIMIT:
        raise HangSuspected()


def _yield(where):
    h = State.yield_hook
    if h is not None:
        h(where)


class HangSuspected(core.Control):
    pass


# ---------------------------------------------------------------- operations
def _m(obj, name):
    t = type(obj)
    if t is str or t is bytes:
        return functools.partial(_strcall, obj, name)
    if t is dict and name in DICT_METHODS:
        return functools.partial(_dictcall, obj, name)
    return getattr(obj, name)


def _dictcall(d, name, *a, **k):
    if a and name in ("get", "pop", "setdefault") and has_sym(a[0]):
        for kk in list(d):
            if bool(kk == a[0]):
                return getattr(d, name)(kk, *a[1:])
        if name == "get":
            return a[1] if len(a) > 1 else None
        if name == "pop":
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
    return getattr(d, name)(*a, **k)


def _strcall(s, name, *a, **k):
    if name == "join":
        items = list(a[0])
        if any(is_sym(x) for x in items):
            if isinstance(s, bytes):
                r = None
                out = SymBytes(())
                for i, x in enumerate(items):
                    if i:
                        out = out + s
                    out = out + x
                return out
            return S.sym_join(s, items)
        return s.join(items)
    if name == "format":
        if has_sym(a) or has_sym(k) or any(_objfmt(x) for x in a) or any(_objfmt(x) for x in k.values()):
            return S.sym_format(s, a, k)
        return s.format(*a, **k)
    if not any(has_sym(x) for x in a) and not any(has_sym(x) for x in k.values()):
        return getattr(s, name)(*a, **k)
    if isinstance(s, bytes):
        return getattr(SymBytes.of(s), name)(*a, **k)
    if any(isinstance(x, SymStr) for x in a) or name in ("replace", "split"):
        return getattr(SymStr(tuple(s)), name)(*a, **k)
    return getattr(s, name)(*[x.__index__() if isinstance(x, SymNum) else x for x in a], **k)


def _objfmt(x):
    """Objects whose attributes may be symbolic ('{0.x}' formats)."""
    return not isinstance(x, (str, int, float, bytes, type(None), list, tuple, dict))


def _contains(item, cont):
    if isinstance(cont, str) and isinstance(item, SymStr):
        return SymStr(tuple(cont)).__contains__(item)
    if isinstance(item, (int, float, SymNum)) and type(cont) in (list, tuple, set, frozenset) and \
            (isinstance(item, SymNum) or any(isinstance(x, SymNum) for x in cont)):
        conds = []
        for x in cont:
            if x is item:
                return True
            if isinstance(x, (int, float, SymNum)):
                r = x == item
                if isinstance(r, SymBool):
                    conds.append(r.e)
                elif r is True:
                    return True
        return bool(mkbool(z3.Or(conds))) if conds else False
    if isinstance(cont, (dict, set, frozenset)) and not isinstance(cont, (SymDict, SymSetBase)) and has_sym(item):
        return any(bool(k == item) for k in cont)
    if isinstance(cont, (SymDict, SymSetBase)):
        return item in cont
    return item in cont


def _mod(a, b):
    if isinstance(a, str) and (has_sym(b) or (not isinstance(b, (int, float, str)) and isinstance(b, tuple) and any(_objfmt(x) for x in b))):
        return S.percent_format(a, b)
    return a % b


def _getitem(o, k):
    if is_sym(k) or (type(k) is tuple and has_sym(k)):
        if type(o) is dict:
            for kk in list(o):
                if bool(kk == k):
                    return o[kk]
            raise KeyError(k)
    return o[k]


def _mkdict(*parts):
    d = SymDict()
    for p in parts:
        if isinstance(p, tuple):
            d[p[0]] = p[1]
        else:
            d.update(p)
    return d


# -------------------------------------------------------------- shim classes
class NumMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(cls._native, n)

    def __eq__(cls, o):
        return cls is o or o is cls.__dict__.get("_native")

    def __hash__(cls):
        return hash(cls.__dict__.get("_native"))

    def __repr__(cls):
        return repr(cls.__dict__.get("_native"))

    def __instancecheck__(cls, o):
        return isinstance(o, cls._native) or (isinstance(o, Sym) and cls._symcheck(o))

    def __subclasscheck__(cls, c):
        nat = cls.__dict__.get("_native")
        return c is cls or (nat is not None and (c is nat or nat in getattr(c, "__mro__", ())))

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)


class ShimInt(metaclass=NumMeta):
    _native = int

    @staticmethod
    def _symcheck(o):
        return isinstance(o, (SymInt, SymBool))

    @staticmethod
    def _make(*a, **k):
        if a:
            x = a[0]
            if isinstance(x, SymBool):
                return x._num()
            if isinstance(x, SymNum):
                return to_int(x)
            if isinstance(x, SymStr):
                base = a[1] if len(a) > 1 else k.get("base", 10)
                return parse_int(x, base)
        return int(*a, **k)


class ShimFloat(metaclass=NumMeta):
    _native = float

    @staticmethod
    def _symcheck(o):
        return isinstance(o, SymReal)

    @staticmethod
    def _make(*a):
        if a:
            x = a[0]
            if isinstance(x, SymBool):
                return to_float(x._num())
            if isinstance(x, SymNum):
                return to_float(x)
            if isinstance(x, SymStr):
                return parse_float(x)
            if isinstance(x, Fraction):
                return float(x)
        return float(*a)


class ShimStr(metaclass=NumMeta):
    _native = str

    @staticmethod
    def _symcheck(o):
        return isinstance(o, SymStr)

    @staticmethod
    def _make(*a, **k):
        if len(a) == 1 and not k:
            return to_str(a[0])
        if a and isinstance(a[0], SymBytes):
            return a[0].decode()
        return str(*a, **k)


class ShimBytes(metaclass=NumMeta):
    _native = bytes

    @staticmethod
    def _symcheck(o):
        return isinstance(o, SymBytes)

    @staticmethod
    def _make(*a, **k):
        if a and isinstance(a[0], (SymStr, SymBytes)):
            return a[0].encode() if isinstance(a[0], SymStr) else a[0]
        return bytes(*a, **k)


class ShimBool(metaclass=NumMeta):
    _native = bool

    @staticmethod
    def _symcheck(o):
        return isinstance(o, SymBool)

    @staticmethod
    def _make(*a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        return bool(*a)


_TYPEMAP = {int: ShimInt, float: ShimFloat, str: ShimStr, bytes: ShimBytes, bool: ShimBool, SymInt: ShimInt, SymReal: ShimFloat, SymStr: ShimStr,
            SymBytes: ShimBytes, SymBool: ShimBool, dict: SymDict, set: SymSet}


class TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            return _TYPEMAP.get(t, t)
        return type(*a, **k)

    def __getattr__(cls, n):
        return getattr(type, n)


class ShimType(metaclass=TypeMeta):
    pass


_NOKEY = object()


def shim_max(*a, **k):
    return _mm(a, k, False)


def shim_min(*a, **k):
    return _mm(a, k, True)


def _mm(a, k, is_min):
    key = k.get("key")
    items = list(a[0]) if len(a) == 1 else list(a)
    if not items:
        if "default" in k:
            return k["default"]
        raise ValueError("max()/min() arg is an empty sequence")
    if key is None and any(isinstance(x, SymNum) for x in items) and all(isinstance(x, (int, float, SymNum, Fraction)) for x in items):
        return sym_minmax(items, is_min)
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        xk = key(x) if key else x
        if bool(xk < bk if is_min else xk > bk):
            best, bk = x, xk
    return best


class SymRange:
    """range() with symbolic bounds: only its length is enumerated."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        self._n = None

    def __len__(self):
        if self._n is None:
            d = self.stop - self.start
            if self.step != 1:
                d = (d + self.step - (1 if self.step > 0 else -1)) // self.step
            if isinstance(d, SymNum):
                if bool(d <= 0):
                    d = 0
                else:
                    d = d.__index__()
            self._n = max(0, d)
        return self._n

    def __iter__(self):
        n = len(self)
        for i in range(n):
            v = self.start + i * self.step
            yield mknum(v.e) if isinstance(v, SymNum) else v

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else bool(self.start > self.stop)

    def __contains__(self, x):
        if self.step != 1:
            return any(bool(v == x) for v in self)
        return bool(x >= self.start) and bool(x < self.stop)

    def __getitem__(self, i):
        return list(self)[i]


class shim_range(metaclass=NumMeta):
    _native = range

    @staticmethod
    def _make(*a):
        if not any(isinstance(x, Sym) for x in a):
            return range(*a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if isinstance(step, Sym):
            step = step.__index__()
        if any(isinstance(x, SymReal) for x in (start, stop)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return SymRange(start, stop, step)

    @classmethod
    def _symcheck(cls, o):
        return False


def shim_ord(c):
    if isinstance(c, SymStr):
        c = c.fix()
        if len(c.u) != 1:
            raise TypeError("ord() expected a character")
        return SymInt(c.u[0].e)
    return ord(c)


def shim_chr(i):
    if isinstance(i, SymNum):
        return SymStr((S.Ch(i.e),))
    return chr(i)


def shim_round(x, n=None):
    return round(x) if n is None else round(x, n)


def shim_print(*a, **k):
    return None


def shim_format(x, spec=""):
    return S.fmt_value(x, "", spec)


def shim_isinstance(o, t):
    if isinstance(t, tuple):
        return any(shim_isinstance(o, x) for x in t)
    t = _TYPEMAP.get(t, t)
    return isinstance(o, t)


def shim_issubclass(c, t):
    return issubclass(c, t)


def shim_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def shim_any(it):
    for x in it:
        if x:
            return True
    return False


def shim_hash(x):
    return hash(x)


def shim_callable(x):
    return callable(x)


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(
        int=ShimInt, float=ShimFloat, str=ShimStr, bytes=ShimBytes, bool=ShimBool, type=ShimType,
        dict=SymDict, set=SymSet, frozenset=SymFrozenSet,
        max=shim_max, min=shim_min, range=shim_range, ord=shim_ord, chr=shim_chr, repr=to_repr, print=shim_print,
        format=shim_format, sum=shim_sum, isinstance=shim_isinstance,
        __import__=importer,
        __symx_m__=_m, __symx_in__=_contains, __symx_f__=S.fstring, __symx_mod__=_mod, __symx_enter__=_enter,
        __symx_loop__=_loop, __symx_reraise__=_reraise, __symx_dict__=_mkdict, __symx_set__=SymSet, __symx_yield__=_yield, __symx_get__=_getitem,
    )
    d.update(State.env_builtins)
    return d


# ------------------------------------------------------------ AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, yields=False):
        self.modname = modname
        self.stack = []
        self.yields = yields

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, n, args):
        return ast.Call(func=self._name(n), args=args, keywords=[])

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.returns = None
        for a in list(node.args.args) + list(node.args.kwonlyargs) + list(node.args.posonlyargs):
            a.annotation = None
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = self._yielded(body)
        node.body.insert(0, ast.Expr(self._call("__symx_enter__", [ast.Constant(self.modname + ":" + qual)])))
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _yielded(self, body):
        if not self.yields:
            return body
        out = []
        for s in body:
            out.append(ast.Expr(self._call("__symx_yield__", [ast.Constant(getattr(s, "lineno", 0))])))
            out.append(s)
        return out

    def _block(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b:
                nb = []
                for s in b:
                    r = self.visit(s)
                    nb.extend(r if isinstance(r, list) else [r])
                setattr(node, f, self._yielded(nb))

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self._block(node)
        node.body.insert(0, ast.Expr(self._call("__symx_loop__", [])))
        return node

    def visit_For(self, node):
        node.target = self.visit(node.target)
        node.iter = self.visit(node.iter)
        self._block(node)
        node.body.insert(0, ast.Expr(self._call("__symx_loop__", [])))
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        self._block(node)
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
            if it.optional_vars:
                it.optional_vars = self.visit(it.optional_vars)
        self._block(node)
        return node

    def visit_Try(self, node):
        self._block(node)
        for h in node.handlers:
            if h.type:
                h.type = self.visit(h.type)
            self._block(h)
            # a handler for BaseException must not swallow the engine's steering
            h.body.insert(0, ast.Expr(self._call("__symx_reraise__", [])))
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value))

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = "" if v.conversion == -1 else chr(v.conversion)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return self._call("__symx_f__", parts)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Load) and (f.attr in STR_METHODS or f.attr in DICT_METHODS):
            node.func = self._call("__symx_m__", [f.value, ast.Constant(f.attr)])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call("__symx_in__", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__symx_mod__", [node.left, node.right])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(v if k is None else ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self._call("__symx_dict__", parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__symx_set__", [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call("__symx_dict__", [ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)]) if False else \
            ast.Call(func=self._name("dict"), args=[ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)], keywords=[])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("__symx_set__", [ast.ListComp(elt=node.elt, generators=node.generators)])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._call("__symx_get__", [node.value, node.slice])
        return node


_CODE = {}


def compile_module(path, modname, transform, yields):
    key = (path, transform, yields)
    st = os.stat(path)
    stamp = (st.st_mtime_ns, st.st_size)
    if key in _CODE and _CODE[key][0] == stamp:
        return _CODE[key][1]
    with open(path, "rb") as f:
        src = f.read()
    tree = ast.parse(src, path)
    if transform:
        tree = Rewriter(modname, yields).visit(tree)
        ast.fix_missing_locations(tree)
    code = compile(tree, path, "exec")
    _CODE[key] = (stamp, code)
    return code


class Loader(importlib.abc.Loader):
    def __init__(self, finder, path, is_pkg):
        self.finder = finder
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = self.finder
        yields = module.__name__ in f.yield_modules
        code = compile_module(self.path, module.__name__, f.transform, yields)
        if f.transform:
            module.__dict__["__builtins__"] = f.get_builtins()
        elif State.env or State.env_builtins:
            b = dict(vars(builtins))
            b["__import__"] = f.importer
            b.update(State.env_builtins)
            module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, transform, base_shims, yield_modules=()):
        self.roots = roots  # name -> directory containing the package
        self.transform = transform
        self.base_shims = base_shims
        self.yield_modules = set(yield_modules)
        self._b = None

    def get_builtins(self):
        if self._b is None:
            self._b = make_builtins(self.importer)
        return self._b

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            for table in (State.env, self.base_shims):
                if name in table:
                    m = table[name]
                    if "." in name and not fromlist:
                        ns = types.SimpleNamespace()
                        cur = ns
                        parts = name.split(".")[1:]
                        for p in parts[:-1]:
                            nxt = types.SimpleNamespace()
                            setattr(cur, p, nxt)
                            cur = nxt
                        setattr(cur, parts[-1], m)
                        return ns
                    return m
                if root in table and "." in name:
                    m = table[root]
                    if fromlist:
                        for p in name.split(".")[1:]:
                            m = getattr(m, p)
                    return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in self.roots:
            return None
        base = os.path.join(self.roots[root], *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(name, Loader(self, p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            p = base + ".py"
            spec = importlib.util.spec_from_loader(name, Loader(self, p, False), origin=p)
        else:
            return None
        spec.has_location = False
        return spec


_finder = None


def install(mode, env=None, env_builtins=None, yield_modules=()):
    """(Re)install the hook; forgets previously imported elsie/props modules."""
    global _finder
    uninstall()
    State.mode = mode
    State.env = dict(env or {})
    State.env_builtins = dict(env_builtins or {})
    roots = {"elsie": REPO, "props": os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}
    base = {}
    if mode == "symbolic":
        from .shims import base_shims
        base = base_shims()
    _finder = Finder(roots, mode == "symbolic", base, yield_modules)
    sys.meta_path.insert(0, _finder)
    return _finder


def uninstall():
    global _finder
    if _finder is not None:
        sys.meta_path.remove(_finder)
        _finder = None
    for n in list(sys.modules):
        if n == "elsie" or n.startswith("elsie.") or n == "props" or n.startswith("props."):
            del sys.modules[n]


def functions_hash():
    """Hash of the sources of the modules imported so far from the repository."""
    import hashlib
    h = hashlib.sha256()
    for (p, _, _) in sorted(_CODE):
        if p.startswith(REPO):
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()
