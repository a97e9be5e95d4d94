"""C25: concurrent users of the file cache under all schedules with few preemptions."""
from symx.session import H, product
from envs import fsfake as fs, threadfake as th
from elsie.utils.cache import FsCache

DIR = "/vfs/cache"


class Fail(Exception):
    pass


class Requester:
    def __init__(self, no, data, how, fail):
        self.no, self.data, self.how, self.fail = no, data, how, fail
        self.runs = 0
        self.path = None
        self.content = None
        self.inside = False


def race(S, hows, preemptions, fails=0, same=False, kept=False, dlen=1, focus=False):
    """Several threads look up entries of possibly equal inputs."""
    fs.os.makedirs(DIR)
    cache = FsCache(DIR, "1")
    rs = []
    datas = []
    for i, how in enumerate(hows):
        d = datas[0] if same and datas else S.str("d%d" % i, dlen, None)
        for c in d:
            S.assume(c < "\x80")
        k = i
        for j in range(i):
            if S.concrete(datas[j] == d):
                k = j
                break
        datas.append(d)
        rs.append(Requester(i, d, how, i < fails and S.choice("fail%d" % i, [False, True])))
        rs[-1].key = k
    held = []            # requesters that waited for a lock held during a constructor run
    active = []
    finished = []
    if kept:
        def first(data, output, data_type):
            with open(output, "w") as f:
                f.write("<kept>")
        cache.ensure(datas[0], "pdf", first)
        finished.append(rs[0].key)
    sched = th.Sched(S, preemptions)
    if focus:
        sched.focus = lambda task: any([r.inside for r in rs if r.task is task])

    def lock_wait(who, owner):
        for r in rs:
            for q in rs:
                if r.task is who and q.task is owner and q.inside:
                    held.append(r.no)
    th.on_lock_wait[0] = lock_wait

    def body(r):
        def run(data, output, data_type):
            S.check(r.key not in active, "the constructor of an entry runs once at a time")
            S.check(r.key not in finished, "the constructor does not run again after success")
            active.append(r.key)
            r.runs += 1
            r.inside = True
            th.hook()
            try:
                with open(output, "w") as f:
                    f.write("<%d" % r.key)
                    if r.fail:
                        raise Fail()
                    f.write(">")
            finally:
                if not sched.dead:
                    r.inside = False
                    active.remove(r.key)
            if not r.fail:
                finished.append(r.key)

        r.path = cache.ensure(r.data, "pdf", run, wait_on_collision=r.how == "wait")
        if r.how == "wait":
            r.ok = fs.st.files.get(r.path)

    for r in rs:
        r.task = sched.spawn(lambda r=r: body(r))
        r.ok = None
    deadlock = None
    try:
        sched.run()
    except th.Deadlock as e:
        deadlock = str(e)
    S.check(deadlock is None, "nobody waits forever")
    for r in rs:
        err = r.task.error
        if isinstance(err, Fail):
            S.check(r.fail and r.runs == 1, "failures are reported to the requester whose constructor failed")
        elif err is not None:
            S.check(any([q.fail and q.runs and q.key == r.key for q in rs]), "a request fails only if a constructor failed")
        else:
            S.check(r.path is not None, "path of the entry")
            if r.how == "wait":
                want = "<kept>" if kept and r.key == rs[0].key else "<%d>" % r.key
                S.check(r.ok == want, "a waiting requester gets the path after the entry is finished")
        if r.how == "nowait":
            S.check(r.task.waits == 0, "a requester that does not wait never blocks")
            S.check(r.no not in held, "a requester that does not wait never blocks")
        for q in rs:
            if q.key == r.key and q.task.error is None and r.task.error is None:
                S.check(q.path == r.path, "all requesters of an entry get the same path")
    # different inputs have different entries
    for r in rs:
        for q in rs:
            if q.key != r.key and q.path is not None and r.path is not None:
                S.check(q.path != r.path, "different inputs have different entries")
    for r in rs:
        ran = []

        def again(data, output, data_type):
            ran.append(1)
            with open(output, "w") as f:
                f.write("<%d>" % r.key)
        path = cache.ensure(r.data, "pdf", again)
        S.check(bool(ran) == (r.key not in finished), "later lookups use the finished entry")
        if ran:
            finished.append(r.key)
        S.check(fs.st.files.get(path) == ("<kept>" if kept and r.key == rs[0].key else "<%d>" % r.key), "content of the entry")


W, N = "wait", "nowait"
HARNESSES = [
    H("race", race, [dict(hows=[W, W], preemptions=2, fails=1, same=True), dict(hows=[W, W], preemptions=1, fails=2, same=True), dict(hows=[W, W], preemptions=1), dict(hows=[W, N], preemptions=2, fails=1, same=True), dict(hows=[N, N], preemptions=1, same=True),
                     dict(hows=[W, W, W], preemptions=1, fails=1, same=True), dict(hows=[W, W], preemptions=1, kept=True), dict(hows=[W, N, W], preemptions=1, same=True),
                     dict(hows=[W, W, W], preemptions=2, fails=3, same=True, focus=True)],
      [dict(hows=[W, W], preemptions=4, fails=2, same=True), dict(hows=[W, W], preemptions=3, fails=1), dict(hows=[W, N], preemptions=3, fails=2, same=True), dict(hows=[N, N], preemptions=3, fails=2, same=True),
       dict(hows=[W, W, W], preemptions=2, fails=1, same=True), dict(hows=[W, W, W], preemptions=1), dict(hows=[W, W], preemptions=2, kept=True), dict(hows=[W, N, W], preemptions=2, fails=1, same=True), dict(hows=[W, W, W, W], preemptions=1, fails=1, same=True),
       dict(hows=[W, W, W], preemptions=4, fails=3, same=True, focus=True), dict(hows=[W, W, W, W], preemptions=3, fails=3, same=True, focus=True)],
      "2-4 threads, at most the stated number of preemptions at statements, lock operations and file changes; switches at blocking and ending threads are free; with focus, preemptions only while a constructor runs"),
]
