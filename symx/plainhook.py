"""Import of the untouched elsie sources for replays (no solver needed)."""
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _Loader(importlib.abc.Loader):
    def __init__(self, finder, path):
        self.finder = finder
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        tr = self.finder.transforms.get(module.__name__)
        if tr is not None:
            code = compile(tr(src, self.path, module.__name__), self.path, "exec", dont_inherit=True)
        if self.finder.env or self.finder.env_builtins:
            b = dict(vars(builtins))
            b["__import__"] = self.finder.importer
            b.update(self.finder.env_builtins)
            module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, env, env_builtins, transforms):
        self.env = env
        self.env_builtins = env_builtins
        self.transforms = transforms or {}

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            if name in self.env:
                m = self.env[name]
                if "." in name and not fromlist:
                    ns = types.SimpleNamespace()
                    cur = ns
                    parts = name.split(".")[1:]
                    for p in parts[:-1]:
                        nxt = types.SimpleNamespace()
                        setattr(cur, p, nxt)
                        cur = nxt
                    setattr(cur, parts[-1], m)
                    return ns
                return m
            if root in self.env and "." in name:
                m = self.env[root]
                if fromlist:
                    for p in name.split(".")[1:]:
                        m = getattr(m, p)
                return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in ("elsie", "props"):
            return None
        base = os.path.join(REPO if root == "elsie" else VERIF, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(name, _Loader(self, p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_loader(name, _Loader(self, p), origin=p)
        return None


_cur = None


def install(env=None, env_builtins=None, transforms=None):
    global _cur
    if _cur is not None:
        sys.meta_path.remove(_cur)
    for n in list(sys.modules):
        if n.split(".")[0] in ("elsie", "props"):
            del sys.modules[n]
    _cur = _Finder(dict(env or {}), dict(env_builtins or {}), transforms)
    sys.meta_path.insert(0, _cur)
