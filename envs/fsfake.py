"""In-memory file system below /vfs with crash and error points, used by elsie
modules and harnesses in symbolic runs and in replays. Digests are injective.

Every change of the file system is one point at which the process may end or
an error may be raised; writing a text is two points with half of it written
in between."""
import builtins
import os as _os
import tempfile as _tempfile
import shutil as _shutil
import glob as _glob
import uuid as _uuid
import types
import hashlib as _hashlib
import fnmatch

ROOT = "/vfs"
_S = [None]


class Crash(BaseException):
    """The process ended."""


class State:
    files = {}
    dirs = set()
    ticks = 0
    crash_at = None
    error_at = None
    dead = False
    names = 0
    interned = []
    on_tick = None
    unflushed = set()


st = State()


def outside(what):
    if _S[0] is not None and _S[0].symbolic:
        from symx.core import Unsupported
        raise Unsupported(what)
    from symx.session import Discard
    raise Discard(what)


def reset():
    st.files, st.dirs = {}, {ROOT}
    st.ticks, st.crash_at, st.error_at, st.dead = 0, None, None, False
    st.names, st.interned, st.on_tick = 0, [], None
    st.unflushed = set()


def tick():
    if st.dead:
        raise Crash()
    st.ticks += 1
    if st.on_tick is not None:
        st.on_tick()
    if st.crash_at is not None and st.ticks == st.crash_at:
        st.dead = True
        raise Crash()
    if st.error_at is not None and st.ticks == st.error_at:
        raise OSError(28, "No space left on device")


def arm(crash=None, error=None):
    """Crash (error) at the n-th change from now on."""
    st.ticks = 0
    st.crash_at, st.error_at = crash, error


def disarm():
    st.crash_at = st.error_at = None


def restart():
    st.dead = False
    disarm()


def mine(p):
    try:
        p = _os.fspath(p)
    except TypeError:
        return False
    return isinstance(p, str) and (p == ROOT or p.startswith(ROOT + "/"))


def norm(p):
    return _os.path.normpath(_os.fspath(p))


def missing(p):
    return FileNotFoundError(2, "No such file or directory: %r" % (p,))


def parent_ok(p):
    if _os.path.dirname(p) not in st.dirs:
        raise missing(p)


def length(x):
    return len(x)


class File:
    def __init__(self, path, mode):
        self.name, self.mode = path, mode
        self.binary = "b" in mode
        self.closed = False
        self.write_ok = any([m in mode for m in "wax+"])
        if "r" in mode:
            if path not in st.files:
                raise missing(path)
        else:
            parent_ok(path)
            if "x" in mode and path in st.files:
                raise FileExistsError(17, path)
            if "a" not in mode or path not in st.files:
                tick()
                st.files[path] = b"" if self.binary else ""
        self.pos = 0

    def _content(self):
        c = st.files[self.name]
        if self.binary and not _is_bytes(c):
            return c.encode()
        if not self.binary and _is_bytes(c):
            return c.decode()
        return c

    def read(self, n=-1):
        if n is None or n < 0:
            r = self._content()[self.pos:] if self.pos else self._content()
            self.pos = len(self._content())
        else:
            r = self._content()[self.pos:self.pos + n]
            self.pos += n
        return r

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if not self.write_ok:
            raise OSError("not writable")
        if self.binary != _is_bytes(s):
            raise TypeError("a bytes-like object is required" if self.binary else "write() argument must be str")
        old = self._content()
        tick()
        n = len(s)
        if n > 1 and (st.crash_at is not None or st.error_at is not None or st.on_tick is not None):
            st.files[self.name] = old + s[:n // 2]
            tick()
        st.files[self.name] = old + s
        st.unflushed.add(self.name)
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        st.unflushed.discard(self.name)

    def fileno(self):
        return 99

    def seek(self, p, *a):
        self.pos = p

    def truncate(self, *a):
        tick()
        st.files[self.name] = self._content()[:0]

    def close(self):
        self.closed = True
        st.unflushed.discard(self.name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _is_bytes(c):
    return isinstance(c, (bytes, bytearray)) or type(c).__name__ == "SymBytes"


def fake_open(path, mode="r", *a, **kw):
    if not mine(path):
        return builtins.open(path, mode, *a, **kw)
    if st.dead:
        raise Crash()
    p = norm(path)
    if p in st.dirs:
        raise IsADirectoryError(21, p)
    return File(p, mode)


# ----------------------------------------------------------------------- os
def _route(real, fake):
    def f(p, *a, **kw):
        if mine(p):
            if st.dead:
                raise Crash()
            return fake(norm(p), *a, **kw)
        return real(p, *a, **kw)
    return f


def _remove(p, **kw):
    if p not in st.files:
        raise missing(p)
    tick()
    del st.files[p]


def _rename(p, q, **kw):
    q = norm(q)
    if p not in st.files:
        raise missing(p)
    parent_ok(q)
    tick()
    st.files[q] = st.files.pop(p)


def _listdir(p):
    if p not in st.dirs:
        raise missing(p)
    out = [f[len(p) + 1:] for f in list(st.files) + sorted(st.dirs) if f.startswith(p + "/") and "/" not in f[len(p) + 1:]]
    return sorted(out)


def _mkdir(p, *a, **kw):
    if p in st.dirs or p in st.files:
        raise FileExistsError(17, p)
    parent_ok(p)
    tick()
    st.dirs.add(p)


def _makedirs(p, mode=511, exist_ok=False):
    if p in st.dirs:
        if not exist_ok:
            raise FileExistsError(17, p)
        return
    up = _os.path.dirname(p)
    if up not in st.dirs:
        _makedirs(up, exist_ok=True)
    _mkdir(p)


def _rmdir(p, **kw):
    if p not in st.dirs:
        raise missing(p)
    if _listdir(p):
        raise OSError(39, "not empty")
    tick()
    st.dirs.discard(p)


def _rmtree(p, *a, **kw):
    for f in [f for f in st.files if f.startswith(p + "/")]:
        _remove(f)
    for d in [d for d in st.dirs if d == p or d.startswith(p + "/")]:
        st.dirs.discard(d)


def _copy(p, q, **kw):
    q = norm(q)
    if q in st.dirs:
        q = q + "/" + _os.path.basename(p)
    parent_ok(q)
    tick()
    st.files[q] = st.files[p]
    return q


class Entry:
    def __init__(self, d, n):
        self.name, self.path = n, d + "/" + n

    def is_file(self, **kw):
        return self.path in st.files

    def is_dir(self, **kw):
        return self.path in st.dirs


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _stat(p, **kw):
    if p in st.files:
        return types.SimpleNamespace(st_size=len(st.files[p]), st_mtime=0, st_mode=0o100644)
    if p in st.dirs:
        return types.SimpleNamespace(st_size=0, st_mtime=0, st_mode=0o40755)
    raise missing(p)


class _Path:
    isfile = staticmethod(_route(_os.path.isfile, lambda p: p in st.files))
    isdir = staticmethod(_route(_os.path.isdir, lambda p: p in st.dirs))
    exists = staticmethod(_route(_os.path.exists, lambda p: p in st.files or p in st.dirs))
    lexists = exists
    islink = staticmethod(_route(_os.path.islink, lambda p: False))
    getsize = staticmethod(_route(_os.path.getsize, lambda p: _stat(p).st_size))
    getmtime = staticmethod(_route(_os.path.getmtime, lambda p: _stat(p).st_mtime))
    realpath = staticmethod(_route(_os.path.realpath, lambda p: p))

    def __getattr__(self, n):
        return getattr(_os.path, n)


PURE = ("sep", "altsep", "linesep", "name", "environ", "getenv", "getpid", "getcwd", "fspath", "PathLike", "fsencode", "fsdecode", "cpu_count", "error", "curdir", "pardir",
        "extsep", "pathsep", "devnull", "urandom", "get_terminal_size", "getuid", "umask", "strerror", "W_OK", "R_OK", "X_OK", "F_OK", "O_RDONLY", "O_WRONLY", "O_CREAT", "O_EXCL")


class _Os:
    path = _Path()
    remove = staticmethod(_route(_os.remove, _remove))
    unlink = staticmethod(_route(_os.unlink, _remove))
    rename = staticmethod(_route(_os.rename, _rename))
    replace = staticmethod(_route(_os.replace, _rename))
    renames = staticmethod(_route(_os.renames, _rename))
    listdir = staticmethod(_route(_os.listdir, _listdir))
    scandir = staticmethod(_route(_os.scandir, lambda p: _Scan([Entry(p, n) for n in _listdir(p)])))
    walk = staticmethod(_route(_os.walk, lambda p, **kw: [(p, [n for n in _listdir(p) if p + "/" + n in st.dirs], [n for n in _listdir(p) if p + "/" + n in st.files])]))
    mkdir = staticmethod(_route(_os.mkdir, _mkdir))
    makedirs = staticmethod(_route(_os.makedirs, _makedirs))
    rmdir = staticmethod(_route(_os.rmdir, _rmdir))
    stat = staticmethod(_route(_os.stat, _stat))
    access = staticmethod(_route(_os.access, lambda p, *a, **kw: p in st.files or p in st.dirs))
    utime = staticmethod(_route(_os.utime, lambda p, *a, **kw: None))
    chmod = staticmethod(_route(_os.chmod, lambda p, *a, **kw: None))
    link = staticmethod(_route(_os.link, _copy))

    @staticmethod
    def fsync(fd):
        pass

    def __getattr__(self, n):
        if n in PURE:
            return getattr(_os, n)
        return lambda *a, **kw: outside("os." + n)


os = _Os()


# ----------------------------------------------------------------- tempfile
def fresh():
    st.names += 1
    return "tmp%06d" % st.names


class _Named(File):
    def __init__(self, mode="w+b", suffix="", prefix="tmp", dir=None, delete=True, **kw):
        d = norm(dir) if dir is not None else ROOT
        super().__init__(d + "/" + (prefix or "") + fresh() + (suffix or ""), mode.replace("+", "").replace("r", "w"))
        self.delete = delete

    @property
    def file(self):
        return self

    def close(self):
        if not self.closed and self.delete and self.name in st.files and not st.dead:
            del st.files[self.name]
        self.closed = True


class _TempDir:
    def __init__(self, suffix=None, prefix=None, dir=None, **kw):
        self.name = (norm(dir) if dir is not None else ROOT) + "/" + (prefix or "tmp") + fresh() + (suffix or "")
        _mkdir(self.name)

    def cleanup(self):
        if not st.dead:
            _rmtree(self.name)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()
        return False


class _Temp:
    NamedTemporaryFile = _Named
    TemporaryDirectory = _TempDir

    @staticmethod
    def _get_candidate_names():
        while True:
            yield fresh()

    @staticmethod
    def mkdtemp(suffix=None, prefix=None, dir=None):
        return _TempDir(suffix, prefix, dir).name

    @staticmethod
    def mktemp(suffix="", prefix="tmp", dir=None):
        return (norm(dir) if dir is not None else ROOT) + "/" + prefix + fresh() + suffix

    @staticmethod
    def gettempdir():
        return ROOT

    def __getattr__(self, n):
        return lambda *a, **kw: outside("tempfile." + n)


tempfile = _Temp()


class _Shutil:
    move = staticmethod(_route(_shutil.move, _rename))
    copy = staticmethod(_route(_shutil.copy, _copy))
    copy2 = copyfile = copy
    rmtree = staticmethod(_route(_shutil.rmtree, _rmtree))

    def __getattr__(self, n):
        return lambda *a, **kw: outside("shutil." + n)


class _Glob:
    @staticmethod
    def glob(pat, **kw):
        return sorted([f for f in list(st.files) + list(st.dirs) if fnmatch.fnmatchcase(f, pat) and f.count("/") == pat.count("/")])

    iglob = glob


class _Uuid:
    @staticmethod
    def uuid4():
        st.names += 1
        return _uuid.UUID(int=st.names)

    def __getattr__(self, n):
        return getattr(_uuid, n)


# ------------------------------------------------------------------ hashlib
class Digest:
    """Injective digest of possibly symbolic data (interned)."""

    def __init__(self, data=None):
        self.data = b"" if data is None else data

    def update(self, b):
        self.data = self.data + b

    def copy(self):
        return Digest(self.data)

    def hexdigest(self):
        for i, d in enumerate(st.interned):
            if len(d) == len(self.data) and bool(d == self.data):
                return "%040x" % (i + 1)
        st.interned.append(self.data)
        return "%040x" % len(st.interned)


class _Hashlib:
    def __getattr__(self, n):
        if n in ("sha1", "md5", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s"):
            return lambda data=None, **kw: Digest(data)
        return getattr(_hashlib, n)

    @staticmethod
    def new(name, data=None, **kw):
        return Digest(data)


class Thread1:
    """Locks for a single thread: waiting for somebody else is waiting forever."""


def hang(what):
    if _S[0].symbolic:
        from symx.instr import HangSuspected
        raise HangSuspected(what)
    import time
    time.sleep(1000)


class Lock:
    def __init__(self):
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.n:
            if not blocking or timeout >= 0:
                return False
            hang("lock")
        self.n += 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return False


class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        self.n += 1
        return True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()

    def acquire(self, *a):
        return self.lock.acquire(*a)

    def release(self):
        return self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if timeout is not None:
            return False
        hang("wait")

    def wait_for(self, pred, timeout=None):
        r = pred()
        if not r and timeout is None:
            hang("wait_for")
        return r

    def notify(self, n=1):
        pass

    def notify_all(self):
        pass


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        if not self.flag and timeout is None:
            hang("event")
        return self.flag


class _Threading:
    Lock, RLock, Condition, Event = Lock, RLock, Condition, Event

    @staticmethod
    def get_ident():
        return 1

    def __getattr__(self, n):
        return lambda *a, **kw: outside("threading." + n)


def env(symbolic):
    e = {"os": os, "os.path": os.path, "tempfile": tempfile, "shutil": _Shutil(), "glob": _Glob(), "uuid": _Uuid(), "threading": _Threading()}
    if symbolic:
        e["hashlib"] = _Hashlib()
    return e


def symbolic():
    return env(True), {"open": fake_open}, ()


def concrete():
    return env(False), {"open": fake_open}, {}


def begin(S):
    _S[0] = S
    reset()
