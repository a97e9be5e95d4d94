"""Cooperative threads on the in-memory file system.

Every statement of the cache module, every lock operation and every change of
the file system is a point where the running thread may lose control. Which
thread continues is decided by the harness (symbolic choices)."""
import ast
import threading as _threading
from . import fsfake
from .fsfake import outside

YIELD_MODULES = ("elsie.utils.cache",)


class Killed(BaseException):
    """Unwinds the threads of an abandoned run."""


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, sched, no, fn):
        self.sched, self.no, self.fn = sched, no, fn
        self.go = _threading.Event()
        self.done = False
        self.pred = None          # condition the task is blocked on
        self.why = None
        self.error = None         # exception of the body
        self.waits = 0            # how often it waited for a condition or event
        self.nonwaiting = False
        self.thread = None

    def ready(self):
        return not self.done and (self.pred is None or self.pred())


class Sched:
    """Runs tasks one at a time."""

    def __init__(self, S, preemptions):
        self.S = S
        self.left = preemptions
        self.tasks = []
        self.cur = None
        self.main = _threading.Event()
        self.dead = False
        self.abort = None
        self.n = 0
        self.focus = None         # preempt the running task only where this holds

    def spawn(self, fn):
        self.tasks.append(Task(self, len(self.tasks), fn))
        return self.tasks[-1]

    def run(self):
        global current
        current = self
        _threading.stack_size(256 * 1024 * 1024)
        for t in self.tasks:
            t.thread = _threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        try:
            self._switch(self._pick(None, forced=True))
            self.main.wait()
        finally:
            self.dead = True
            current = None
            for t in self.tasks:
                if not t.done:
                    t.go.set()
            for t in self.tasks:
                t.thread.join(20)
        if self.abort is not None:
            raise self.abort

    def _switch(self, t):
        self.cur = t
        t.go.set()

    def _pick(self, me, forced):
        """Next task to run (decided by the session)."""
        ready = [t for t in self.tasks if t.ready()]
        if not ready:
            return None
        if me is not None and me in ready:
            ready.remove(me)
            ready.insert(0, me)
        if len(ready) == 1:
            return ready[0]
        if not forced and self.left <= 0:
            return me
        self.n += 1
        t = self.S.choice("sw%d" % self.n, ready)
        if not forced and t is not me:
            self.left -= 1
        return t

    def _give(self, me, t):
        """Let t run, me continues when it is chosen again."""
        if t is me:
            return
        me.go.clear()
        self._switch(t)
        me.go.wait()
        if self.dead:
            raise Killed()

    def point(self):
        me = self.cur
        if self.dead:
            raise Killed()
        if self.focus is not None and not self.focus(me):
            return
        self._give(me, self._pick(me, forced=False))

    def block(self, pred, why):
        """Continue when pred holds."""
        me = self.cur
        if self.dead:
            raise Killed()
        if pred():
            return
        me.pred, me.why = pred, why
        t = self._pick(None, forced=True)
        if t is None:
            raise Deadlock("thread %d waits forever (%s)" % (me.no, why))
        self._give(me, t)
        me.pred = None

    def _body(self, t):
        t.go.wait()
        if self.dead:
            t.done = True
            return
        stop = False
        try:
            t.fn()
        except Killed:
            t.done = True
            return
        except Exception as e:
            t.error = e
        except BaseException as e:
            self.abort = e
            stop = True
        t.done = True
        if not stop:
            try:
                nxt = self._pick(None, forced=True)
            except BaseException as e:
                self.abort = e
                nxt = None
            if nxt is not None:
                self._switch(nxt)
                return
            if self.abort is None and any([not x.done for x in self.tasks]):
                b = [x for x in self.tasks if not x.done]
                self.abort = Deadlock("thread %d waits forever (%s)" % (b[0].no, b[0].why))
        self.main.set()


current = None


def active():
    return current is not None and not current.dead and current.cur is not None and _threading.current_thread() is current.cur.thread


def hook(where=0):
    if active():
        current.point()
    elif current is not None and current.dead and _threading.current_thread() is not _threading.main_thread():
        raise Killed()


def block(pred, why):
    if active():
        current.block(pred, why)
    elif not pred():
        fsfake.hang(why)


def me():
    return current.cur if active() else "main"


# ---------------------------------------------------------------- threading
class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        hook()
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            note_lock_wait(self)
            block(lambda: self.owner is None, "lock")
        self.owner = me()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        hook()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False


on_lock_wait = [None]


def note_lock_wait(lock):
    if on_lock_wait[0] is not None:
        on_lock_wait[0](me(), lock.owner)


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None and self.owner is me():
            self.depth += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.depth = 1
        return r

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            super().release()


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.tokens = []

    def acquire(self, *a):
        return self.lock.acquire(*a)

    def release(self):
        return self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def _own(self):
        if self.lock.owner is None or self.lock.owner is not me():
            raise RuntimeError("cannot wait on or notify un-acquired lock")

    def wait(self, timeout=None):
        self._own()
        token = [timeout is not None]
        self.tokens.append(token)
        if active():
            current.cur.waits += 1
        self.lock.owner = None
        try:
            block(lambda: token[0], "condition")
        finally:
            if current is None or not current.dead:
                self.lock.acquire()
        if token in self.tokens:
            self.tokens.remove(token)
        return timeout is None

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            self.wait(timeout)
            r = pred()
            if timeout is not None:
                break
        return r

    def notify(self, n=1):
        self._own()
        for t in self.tokens[:n]:
            t[0] = True
        del self.tokens[:n]

    def notify_all(self):
        self.notify(len(self.tokens))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        hook()

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        hook()
        if not self.flag and timeout is None:
            if active():
                current.cur.waits += 1
            block(lambda: self.flag, "event")
        return self.flag


class Semaphore:
    def __init__(self, value=1):
        self.n = value

    def acquire(self, blocking=True, timeout=None):
        hook()
        if self.n <= 0:
            if not blocking or timeout is not None:
                return False
            block(lambda: self.n > 0, "semaphore")
        self.n -= 1
        return True

    def release(self, n=1):
        self.n += n
        hook()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()
        return False


class _Threads:
    Lock, RLock, Condition, Event, Semaphore, BoundedSemaphore = Lock, RLock, Condition, Event, Semaphore, Semaphore

    @staticmethod
    def get_ident():
        t = me()
        return 100 if t == "main" else t.no

    @staticmethod
    def current_thread():
        return me()

    def __getattr__(self, n):
        return lambda *a, **kw: outside("threading." + n)


class Inserter(ast.NodeTransformer):
    """Calls of the hook before every statement of a function."""

    def __init__(self):
        self.depth = 0

    def _body(self, body):
        out = []
        for s in body:
            out.append(ast.Expr(ast.Call(func=ast.Name(id="__verif_yield__", ctx=ast.Load()), args=[ast.Constant(getattr(s, "lineno", 0))], keywords=[])))
            out.append(self.visit(s))
        return out

    def generic(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b:
                setattr(node, f, self._body(b))
        return node

    def visit_FunctionDef(self, node):
        return self.generic(node)

    visit_If = visit_While = visit_For = visit_With = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_Try(self, node):
        self.generic(node)
        for h in node.handlers:
            h.body = self._body(h.body)
        return node


def transform(src, path, name):
    tree = Inserter().visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    return tree


def env(symbolic):
    e = fsfake.env(symbolic)
    e["threading"] = _Threads()
    return e


def symbolic():
    return env(True), {"open": fsfake.fake_open}, YIELD_MODULES


def concrete():
    return env(False), {"open": fsfake.fake_open, "__verif_yield__": hook}, {m: transform for m in YIELD_MODULES}


def begin(S):
    global current
    fsfake.begin(S)
    current = None
    on_lock_wait[0] = None
    fsfake.st.on_tick = hook
    if S.symbolic:
        from symx import instr
        instr.State.yield_hook = hook
