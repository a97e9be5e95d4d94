"""C24: histories of the file cache with failures, crashes and restarts."""
from symx.session import H, product
from envs import fsfake as fs
from elsie.utils.cache import FsCache

DIR = "/vfs/cache"


class Fail(Exception):
    pass


class Run:
    """One constructor run."""

    def __init__(self, key):
        self.key, self.done = key, False


class World:
    def __init__(self, S, nkeys, dlen, binary, types, wide=False):
        self.S = S
        fs.os.makedirs(DIR)
        self.datas = []
        for i in range(nkeys):
            d = S.str("d%d" % i, dlen if not isinstance(dlen, list) else dlen[i], None)
            for c in d:
                S.assume(S.Or(c < "\ud800", c > "\udfff") if wide else c < "\x80")
            self.datas.append(d.encode() if binary else d)
        # (of the same length, so that no version is the start of another)
        self.versions = [S.str("v%d" % i, 2, None, exclude="/") for i in range(2)]
        for v in self.versions:
            for c in v:
                S.assume(c < "\x80")
        S.assume(self.versions[0] != self.versions[1])
        self.types = types
        self.runs = []
        self.kept = []       # [key, token] (the entries of the cache)
        self.maybe = []      # keys whose entry may have been finished before a crash
        self.open(0)

    def open(self, v):
        self.v = v
        self.cache = FsCache(DIR, self.versions[v])
        self.touched = []

    def key(self, i, t):
        """Representative of the key (the same object for equal data)."""
        for j in range(i):
            if self.S.concrete(self.datas[j] == self.datas[i]):
                i = j
                break
        return (self.v, i, t)

    def token(self, key):
        self.runs.append(Run(key))
        return "<%d>" % len(self.runs)

    def find(self, key):
        for e in self.kept:
            if e[0] == key:
                return e
        return None

    def lookup(self, i, t, how, fail=None):
        """One lookup; returns the content."""
        key = self.key(i, t)
        before = len(self.runs)
        self.touched.append(key)
        if how == "get":
            def ctor(data):
                tok = self.token(key)
                if fail is not None:
                    raise Fail()
                self.runs[-1].done = True
                return tok
            return self.cache.get(self.datas[i], t, ctor)

        def ctor(data, output, data_type):
            tok = self.token(key)
            run = self.runs[-1]
            want = self.datas[i]
            if how == "file":
                want = want.encode()
            self.S.check(data_type == t and data == want, "the constructor gets the input and type")
            if fail == "early":
                raise Fail()
            with open(output, "w") as f:
                if fail == "late":
                    f.write(tok[:1])
                    raise Fail()
                f.write(tok)
            run.done = True
        if how == "file":
            with open("/vfs/input", "w") as f:
                f.write(self.datas[i])
            path = self.cache.ensure_by_file("/vfs/input", t, ctor)
        elif how == "nowait":
            path = self.cache.ensure(self.datas[i], t, ctor, wait_on_collision=False)
        else:
            path = self.cache.ensure(self.datas[i], t, ctor)
        with open(path) as f:
            return f.read()

    def settle(self, key, ran, content):
        """Check a successful lookup against the model."""
        S = self.S
        e = self.find(key)
        if key in self.maybe:
            self.maybe.remove(key)
            if not ran:
                S.check(content[:1] == "<" and content[-1:] == ">", "a half-written entry is never used")
                run = self.runs[int(content[1:-1]) - 1]
                S.check(run.done and run.key == key, "the content was produced for this input by a completed run")
                if e is not None:
                    self.kept.remove(e)
                self.kept.append([key, content])
                return
            if e is not None:
                self.kept.remove(e)
            e = None
        if e is None:
            S.check(ran == 1, "the constructor runs once for a new entry")
            S.check(content == "<%d>" % len(self.runs), "content of the new entry")
            self.kept.append([key, content])
        else:
            S.check(ran == 0, "the constructor does not run while the entry is kept")
            S.check(content == e[1], "content of the kept entry")

    def step(self, op, k):
        S = self.S
        if op == "restart":
            self.open(self.v)
        elif op == "version":
            self.open(1 - self.v)
        elif op == "prune":
            self.cache.remove_unused()
            self.pruned()
        else:
            i = S.choice("i%d" % k, range(len(self.datas)))
            t = S.choice("t%d" % k, self.types)
            how, _, fail = op.partition("-")
            before = len(self.runs)
            key = self.key(i, t)
            if fail:
                e = self.find(key)
                out = {}
                err = S.raised(lambda: out.update(c=self.lookup(i, t, how, fail)))
                ran = len(self.runs) - before
                if err is None:
                    S.check(ran == 0, "failures of the constructor are reported")
                    self.settle(key, 0, out["c"])
                else:
                    S.check(ran == 1 and (e is None or key in self.maybe), "only a failing constructor makes a lookup fail")
                    if key in self.maybe:
                        self.maybe.remove(key)
                        if e is not None:
                            self.kept.remove(e)
                return
            content = self.lookup(i, t, how)
            self.settle(key, len(self.runs) - before, content)

    def pruned(self):
        self.kept = [e for e in self.kept if e[0] in self.touched]
        self.maybe = [k for k in self.maybe if k in self.touched]

    def crash(self, op, k, at, error):
        """The process ends (or the disk is full) at the at-th change during an operation."""
        S = self.S
        i = S.choice("i%d" % k, range(len(self.datas)))
        t = S.choice("t%d" % k, self.types)
        key = self.key(i, t)
        before = len(self.runs)
        fs.arm(**({"error": at} if error else {"crash": at}))
        content = None
        try:
            if op == "prune":
                self.cache.remove_unused()
            else:
                content = self.lookup(i, t, op)
        except fs.Crash:
            S.check(not error, "no crash")
        except OSError:
            S.check(error, "errors of the file system are reported")
        else:
            fs.disarm()
            S.assume(False)  # the operation has fewer changes
        fs.restart()
        if op == "prune":
            for e in list(self.kept):
                if e[0] not in self.touched and e[0] not in self.maybe:
                    self.maybe.append(e[0])
        elif self.find(key) is None or key in self.maybe:
            if key not in self.maybe:
                self.maybe.append(key)
        if not error:
            self.open(self.v)

    def final(self):
        """After a restart every kept entry is used and nothing else."""
        self.open(self.v)
        for j in range(len(self.datas)):
            for t in self.types:
                key = self.key(j, t)
                before = len(self.runs)
                content = self.lookup(j, t, "ensure")
                self.settle(key, len(self.runs) - before, content)


def history(S, n, ops, nkeys, dlen=1, binary=False, types=("pdf",), wide=False):
    w = World(S, nkeys, dlen, binary, list(types), wide)
    for k in range(n):
        w.step(S.choice("op%d" % k, ops), k)
    w.final()


def crashes(S, before, ops, after, nkeys, error=False, dlen=1, types=("pdf",), maxat=6):
    """One crash (error) at any change of an operation within a history."""
    w = World(S, nkeys, dlen, False, list(types))
    for k in range(before):
        w.step(S.choice("op%d" % k, ["ensure", "get", "version"]), k)
    op = S.choice("op", ops)
    w.crash(op, before, S.choice("at", range(1, maxat + 1)), error)
    for k in range(after):
        w.step(S.choice("op%d" % (before + 1 + k), ["ensure", "get", "prune", "ensure-late"]), before + 1 + k)
    w.final()


def foreign(S):
    """Other files of the cache directory are left alone."""
    w = World(S, 1, 1, False, ["pdf"])
    fs.st.files[DIR + "/queries3.cache"] = "q"
    fs.st.files[DIR + "/1-1.svg"] = "svg"
    w.open(0)
    w.step("ensure", 0)
    w.open(0)
    w.cache.remove_unused()
    S.check(fs.st.files.get(DIR + "/queries3.cache") == "q" and fs.st.files.get(DIR + "/1-1.svg") == "svg", "other files are kept")
    S.check(len(fs.st.files) == 2, "pruning removes unused entries")


HARNESSES = [
    H("history", history, [dict(n=4, ops=["ensure", "prune", "restart"], nkeys=2), dict(n=3, ops=["ensure", "get", "prune", "version"], nkeys=2), dict(n=4, ops=["get", "prune", "restart"], nkeys=2), dict(n=4, ops=["file", "get", "prune", "restart"], nkeys=1), dict(n=4, ops=["nowait", "prune", "restart"], nkeys=1),
                           dict(n=3, ops=["ensure", "ensure-early", "ensure-late", "get-early", "restart"], nkeys=1), dict(n=3, ops=["ensure", "file", "get"], nkeys=2, dlen=[1, 2]),
                           dict(n=2, ops=["ensure", "nowait", "get"], nkeys=2, binary=False, types=("pdf", "png")), dict(n=2, ops=["ensure"], nkeys=2, binary=True, dlen=2), dict(n=1, ops=["ensure", "get"], nkeys=2, wide=True, dlen=[1, 2])],
      [dict(n=5, ops=["ensure", "prune", "restart"], nkeys=2), dict(n=5, ops=["get", "prune", "restart"], nkeys=2), dict(n=5, ops=["ensure", "nowait", "file", "get", "prune", "restart"], nkeys=1), dict(n=4, ops=["ensure", "get", "prune", "version"], nkeys=2), dict(n=4, ops=["ensure", "ensure-early", "ensure-late", "get-early", "restart", "prune"], nkeys=1),
       dict(n=4, ops=["ensure", "file", "get", "prune"], nkeys=2, dlen=[1, 2]), dict(n=3, ops=["ensure", "nowait", "get", "ensure-late"], nkeys=2, types=("pdf", "png")), dict(n=3, ops=["ensure", "prune"], nkeys=3, binary=True, dlen=2), dict(n=2, ops=["ensure", "get", "prune"], nkeys=2, wide=True, dlen=[2, 2])],
      "histories of at most 5 operations on 1-3 arbitrary inputs of 1-2 characters, 2 arbitrary versions of equal length"),
    H("crashes", crashes, [dict(before=1, ops=["ensure", "get", "prune", "file"], after=1, nkeys=1), dict(before=1, ops=["ensure", "get"], after=1, nkeys=1, error=True), dict(before=2, ops=["prune"], after=0, nkeys=2)],
      [dict(before=2, ops=["ensure", "get", "prune", "file"], after=1, nkeys=2), dict(before=1, ops=["ensure", "get", "prune"], after=2, nkeys=1), dict(before=2, ops=["ensure", "get", "prune"], after=1, nkeys=2, error=True)],
      "one crash or full disk at any of the first 6 changes of an operation"),
    H("foreign", foreign, [{}]),
]
