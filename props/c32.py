"""C32: the dialogue with Inkscape."""
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf
from elsie.render.inkscape import InkscapeShell, export_by_inkscape

PIPE_SIZE = 65536


class Inkscape:
    """A process which behaves like `inkscape --shell`: a prompt `> ` at the
    beginning of a line, commands one per line, answers ended by a newline."""

    def __init__(self, S, args, kw):
        self.S = S
        self.args, self.kw = args, kw
        self.out = []            # characters printed and not read yet
        self.inp = ""
        self.docs = []
        self.selected = None
        self.export = {}
        self.log = []            # answered queries: (query, document, identifier)
        self.exports = []
        self.commands = 0
        self.alive = True
        self.eofs = 0
        self.stderr_used = 0
        self.stuck = False
        self.returncode = None
        self.pid = 4242
        # adjustable behaviour
        self.noise = lambda n, command: ""
        self.number = lambda n: "1.5"
        self.answer = None       # replaces the answer of a query
        self.die_at = None
        self.die_after = 0
        self.diagnostics = lambda n: 0
        self.no_export = False
        self.stdin, self.stdout = _In(self), _Out(self)
        self.stderr = None

    def start(self):
        self.respond("", self.noise(0, "start"))

    def respond(self, answer, noise):
        n = self.commands
        self.commands += 1
        self.err(self.diagnostics(n))
        if self.stuck:
            return
        text = noise + (answer + "\n" if len(answer) else "") + "> "
        chars = [c for c in text]
        if self.die_at is not None and n == self.die_at:
            chars = chars[:self.die_after]
            self.alive = False
            self.returncode = -11
        self.out.extend(chars)

    def err(self, n):
        target = self.kw.get("stderr")
        if target == rf._Subprocess.PIPE:
            self.stderr_used = self.stderr_used + n
            if self.stderr_used > PIPE_SIZE:
                self.stuck = True            # blocked in write()
        elif target == rf._Subprocess.STDOUT:
            if n > 0:
                self.out.extend("W\n")

    def command(self, line):
        if self.stuck:
            return
        name, _, arg = line.partition(":")
        answer = ""
        if name == "file-open":
            c = fs.st.files.get(arg)
            if c is None:
                answer = "ink_file_open: '%s' cannot be opened!" % arg
            else:
                if isinstance(c, str) or type(c).__name__ == "SymStr":
                    c = c.encode()
                self.docs.append(b"" if arg in fs.st.unflushed else c)
        elif name == "file-close":
            if self.docs:
                self.docs.pop()
            self.selected = None
        elif name == "select":
            self.selected = arg
        elif name in ("query-x", "query-y", "query-width", "query-height"):
            self.log.append((name, self.docs[-1] if self.docs else None, self.selected))
            answer = self.number(len(self.log) - 1) if self.answer is None else ""
            if self.answer is not None:
                self.respond("", self.answer)
                self.answer = None
                return
        elif name == "inkscape-version":
            answer = "Inkscape 1.1 (c68e22c387, 2021-05-23)"
        elif name == "export-do":
            if not self.no_export and self.docs:
                self.exports.append((self.docs[-1], dict(self.export)))
                f = self.export.get("export-filename")
                if f:
                    fs.st.files[f] = b"exported"
        elif name.startswith("export-"):
            self.export[name] = arg
        elif name == "quit":
            self.alive = False
        else:
            answer = "InkscapeApplication::parse_actions: could not find action for: " + name
        self.respond(answer, self.noise(self.commands, name))

    def hang(self, what):
        fs.hang(what)

    def poll(self):
        return None if self.alive else self.returncode

    def wait(self, timeout=None):
        if self.alive:
            self.hang("waiting for the end of Inkscape")
        return self.returncode

    def kill(self):
        self.alive = False

    terminate = kill

    def __getattr__(self, n):
        return fs.outside("Popen." + n)


class _In:
    closed = False

    def __init__(self, p):
        self.p = p

    def write(self, s):
        self.p.inp = self.p.inp + s
        return len(s)

    def flush(self):
        if not self.p.alive:
            raise BrokenPipeError(32, "Broken pipe")
        data, self.p.inp = self.p.inp, ""
        while "\n" in data:
            line, data = data.split("\n", 1)
            if self.p.alive:
                self.p.command(line)
        self.p.inp = data

    def close(self):
        self.closed = True


class _Out:
    closed = False

    def __init__(self, p):
        self.p = p

    def _get(self):
        p = self.p
        if p.out:
            return p.out.pop(0)
        if p.alive or p.stuck:
            p.hang("waiting for a text of Inkscape that never comes")
        p.eofs += 1
        if p.eofs > 20:
            p.hang("reading again and again after the end of Inkscape")
        return ""

    def read(self, n=-1):
        if n == 1:
            return self._get()
        r = ""
        while n < 0 or len(r) < n:
            c = self._get()
            if c == "":
                break
            r = r + c
        return r

    def readline(self, *a):
        r = ""
        while True:
            c = self._get()
            r = r + c
            if c == "" or c == "\n":
                return r

    def __iter__(self):
        return iter(self.readline, "")

    def close(self):
        self.closed = True

    def __getattr__(self, n):
        return fs.outside("stdout." + n)


def attempt(S, fn):
    out = []
    e = S.raised(lambda: out.append(fn()))
    return e is not None, out[0] if out else None


def connect(S, setup, text_to_path=False):
    procs = []

    def popen(args, **kw):
        p = Inkscape(S, args, kw)
        S.check(list(args)[-1] == "--shell" and list(args)[0] == "/opt/ink", "Inkscape is started as a shell")
        S.check(kw.get("stdin") == -1 and kw.get("stdout") == -1 and bool(kw.get("universal_newlines") or kw.get("text") or kw.get("encoding")), "the dialogue uses text pipes")
        setup(p)
        p.start()
        procs.append(p)
        return p
    rf.rec.popen = popen
    err, shell = attempt(S, lambda: InkscapeShell("/opt/ink", text_to_path))
    S.check(len(procs) == 1, "one Inkscape is started")
    return procs[0], shell, err


# ------------------------------------------------------------------- texts
def no_prompt(S, t):
    """Texts that cannot be told from a prompt are excluded."""
    S.assume(not t.startswith("> "))
    S.assume(not ("\n> " in t))


def noise_text(S, name, n):
    """A text printed before an answer: any lines."""
    t = S.text(name, 0, n, None, "\r")
    t = t + "\n" if len(t) else t
    no_prompt(S, t)
    return t


def num(S, name):
    """A printed number and its value."""
    d = S.str(name, 3, "0123456789")
    neg = S.bool(name + ".neg")
    v = (int(d[0]) * 100 + int(d[1]) * 10 + int(d[2])) / 10
    s = d[:2] + "." + d[2:]
    return ("-" + s, -v) if neg else (s, v)


# ---------------------------------------------------------------- harnesses
def call(S, p, shell, i, op, numbers, tail=""):
    """One operation and its check."""
    svg = "<svg %s%s/>" % (i, tail)
    n = len(p.log)
    e = len(p.exports)
    if op == "version":
        S.check(shell.get_version() == "Inkscape 1.1 (c68e22c387, 2021-05-23)", "commands get their answers")
    elif op == "export":
        export_by_inkscape(shell, svg.encode(), "/vfs/out%d.pdf" % i, "pdf" if i % 2 else "png")
        S.check(len(p.exports) == e + 1, "a document is exported")
        doc, opts = p.exports[-1]
        S.check(doc == svg.encode(), "the given document is exported")
        S.check(opts.get("export-filename") == "/vfs/out%d.pdf" % i and opts.get("export-type") == ("pdf" if i % 2 else "png"), "the document is exported into the given file")
        S.check("export-area-page" in opts, "the page is exported")
        S.check(("export-text-to-path" in opts) == bool(shell.text_to_path), "texts are converted to paths on request")
    else:
        fn = {"x": shell.get_x, "width": shell.get_width, "height": shell.get_height}[op]
        v = fn(svg, "id%d" % i)
        S.check(len(p.log) == n + 1, "one query is asked")
        q, doc, ident = p.log[-1]
        S.check(q == "query-" + op and ident == "id%d" % i and doc == svg.encode(), "queries are asked about the given object")
        S.check(S.eq(v, numbers[n]), "queries return the printed number")
    S.check(p.docs == [], "opened documents are closed")
    S.check(p.out == [], "the dialogue stays in step")
    S.check([f for f in fs.st.files if not f.startswith("/vfs/out")] == [], "temporary files are removed")


def dialogue(S, ops, at, n, text_to_path=False, svg_len=0):
    nums = [num(S, "num%d" % i) for i in range(3)]

    def setup(p):
        p.number = lambda k: nums[k][0]
        p.noise = lambda k, name: noise_text(S, "noise%d" % k, n) if name in at else ""
    p, shell, err = connect(S, setup, text_to_path)
    S.check(not err, "Inkscape is started")
    tail = S.text("svg", svg_len, svg_len) if svg_len else ""
    for i, op in enumerate(ops):
        call(S, p, shell, i, op, [v for _, v in nums], tail)


def reading(S, t):
    """Reference reading of an answer: a number, 'bad' or None (unspecified)."""
    lines = [l for l in t.split("\n") if any([c != " " for c in l])]
    if not lines:
        return "bad"
    l = lines[-1]
    while l.startswith(" "):
        l = l[1:]
    while l.endswith(" "):
        l = l[:-1]
    for c in l:
        if c == " " or c == ">" or c == "x":
            return "bad"
    if l.endswith(".") or l.startswith("."):
        return "bad" if l == "." else None
    v, frac, scale = 0, False, 1
    for c in l:
        if c == ".":
            if frac:
                return "bad"
            frac = True
        else:
            v = v * 10 + int(c)
            if frac:
                scale *= 10
    return v / scale


def answer(S, n, op, alphabet):
    """The answer of a query is any text."""
    def setup(p):
        p.number = lambda k: "7.25"
    p, shell, err = connect(S, setup)
    t = S.str("answer", n, alphabet) + "\n"
    no_prompt(S, t)
    p.answer = t
    want = reading(S, t)
    fn = {"x": shell.get_x, "width": shell.get_width, "height": shell.get_height}[op]
    err, v = attempt(S, lambda: fn("<svg/>", "a"))
    if want == "bad":
        S.check(err, "an answer that is no number is an error")
    elif want is not None:
        S.check(not err, "a number is returned")
        if not err:
            S.check(S.eq(v, want), "queries return the number printed last")
    S.check(p.docs == [], "opened documents are closed")
    S.check(p.out == [], "the dialogue stays in step")
    S.check(len(fs.st.files) == 0, "temporary files are removed")
    call(S, p, shell, 3, "width", [0, 7.25])


def terminated(S, ops, n):
    """Inkscape ends somewhere, after a part of an answer."""
    last = 4 * len(ops) + (6 if "export" in ops else 2)
    die_at = S.int("die_at", 0, last)
    after = S.choice("after", range(n + 3))
    nums = [num(S, "num%d" % i) for i in range(len(ops))]
    nm = S.choice("noisy", ["query-width", "file-open", "select", "start"])

    def setup(p):
        p.number = lambda k: nums[k][0]
        p.die_at, p.die_after = die_at, after
        p.noise = lambda k, name: noise_text(S, "noise%d" % k, n) if name == nm else ""
    p, shell, err = connect(S, setup)
    if err:
        S.check(not p.alive, "a living Inkscape is used")
        return
    for i, op in enumerate(ops):
        was = p.alive
        k = len(p.log)
        fn = {"version": shell.get_version, "width": lambda: shell.get_width("<svg/>", "a"),
              "export": lambda: export_by_inkscape(shell, b"<svg/>", "/vfs/out.pdf", "pdf")}[op]
        err, v = attempt(S, fn)
        if p.alive:
            S.check(not err, "a living Inkscape is used")
        if not was:
            S.check(err, "a terminated Inkscape is reported")
        if not err and op == "width":
            S.check(S.eq(v, nums[k][1]), "queries return the printed number")
        if not err and op == "version":
            S.check(v == "Inkscape 1.1 (c68e22c387, 2021-05-23)", "commands get their answers")
        if not err and op == "export":
            S.check("/vfs/out.pdf" in fs.st.files, "exported files exist")
            del fs.st.files["/vfs/out.pdf"]
        S.check([f for f in fs.st.files if f != "/vfs/out.pdf"] == [], "temporary files are removed")


def silent(S, fail):
    """Inkscape that does not write the requested file is reported."""
    p, shell, err = connect(S, lambda p: None)
    p.no_export = S.bool("fails")
    err, _ = attempt(S, lambda: export_by_inkscape(shell, b"<svg/>", "/vfs/out.pdf", fail))
    S.check(err == bool(p.no_export), "a missing file is reported")
    S.check(p.docs == [], "opened documents are closed")
    p.no_export = False
    call(S, p, shell, 1, "export", [])


def diagnostics(S, ops, n):
    """Messages on the error stream."""
    d = [S.int("err%d" % i, 0, 200000) for i in range(n)]

    def setup(p):
        p.diagnostics = lambda k: d[k] if k < n else 0
        p.number = lambda k: "7.25"
    p, shell, err = connect(S, setup)
    for i, op in enumerate(ops):
        call(S, p, shell, i, op, [7.25] * 9)


HARNESSES = [
    H("dialogue", dialogue, [dict(ops=["x", "export", "width"], at=["query-x", "query-width"], n=2), dict(ops=["version", "height"], at=["start", "file-open", "file-close"], n=1), dict(ops=["export", "x"], at=["export-do", "select"], n=2, text_to_path=True), dict(ops=["width", "export"], at=["query-width"], n=4, svg_len=2)],
      product(ops=[["x", "width", "height"], ["version", "export", "x"], ["export", "width", "export"]], at=[["query-x", "query-width"], ["start", "file-close"], ["file-open", "select"], ["export-do", "inkscape-version", "query-height"]], n=[3], svg_len=[0, 2], text_to_path=[False, True]),
      "sequences of up to 3 operations; before each answer any text of up to n characters (no carriage returns, nothing that reads as a prompt at the beginning of a line)"),
    H("answer", answer, [dict(n=4, op="width", alphabet="12. \nx>"), dict(n=1, op="x", alphabet="12. \nx>"), dict(n=3, op="height", alphabet="12. \nx>")],
      product(n=[0, 1, 2, 3, 4, 5, 6], op=["width", "x"], alphabet=["12. \nx>", "0123456789. \n>"]), "any answer of n characters over digits, point, space, newline, letter, `>`"),
    H("terminated", terminated, [dict(ops=["width", "export", "version"], n=1)], product(ops=[["width", "export", "version"], ["export", "width", "width"], ["version", "width", "export"]], n=[2]), "termination at any answer, after any part of it"),
    H("silent", silent, [dict(fail="pdf")], None, "exports that produce no file"),
    H("diagnostics", diagnostics, [dict(ops=["width", "export"], n=5)], [dict(ops=["width", "export", "x", "version"], n=12)], "up to 200000 characters on the error stream at each command, pipes of 64 KiB"),
]
