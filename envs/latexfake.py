"""Image stand-ins plus child processes standing for pdflatex and pdf2svg.

The harness registers what each source becomes in `rec.answer`; the programs
work on the files of their working directory, as the real ones do."""
import builtins
import os
import types
from . import etfake, imgfake, fsfake


class Rec:
    answer = None     # function source text -> E (or None: pdflatex fails)
    runs = []         # sources compiled
    pdfs = {}         # path of a PDF -> source
    fail_svg = False
    symbolic = False


rec = Rec()


def outside(what):
    fsfake.outside(what)


def _read(path):
    if rec.symbolic:
        with etfake.fake_open(path) as f:
            return f.read()
    with builtins.open(path, encoding="utf-8", newline="") as f:
        return f.read()


def command(args, cwd=None):
    """(return code, stderr)"""
    args = list(args)
    prog = os.path.basename(args[0])
    rest = args[1:]

    def full(p):
        return os.path.abspath(os.path.join(cwd or os.getcwd(), p))
    if prog == "pdflatex":
        out, src = None, None
        for a in rest:
            if a.startswith("-output-directory="):
                out = full(a.split("=", 1)[1])
            elif a.startswith("-jobname"):
                return outside("pdflatex " + a)
            elif not a.startswith("-"):
                src = full(a)
        if out is None:
            out = full(".")
        base = os.path.join(out, os.path.splitext(os.path.basename(src))[0])
        text = _read(src)
        rec.runs.append(text)
        e = rec.answer(text)
        with builtins.open(base + ".log", "w") as f:
            f.write("LOG OF THE RUN")
        if e is None:
            return 1, b""
        with builtins.open(base + ".pdf", "w") as f:
            f.write("pdf %d" % len(rec.pdfs))
        rec.pdfs["pdf %d" % len(rec.pdfs)] = e
        return 0, b""
    if prog == "pdf2svg":
        if rec.fail_svg:
            return 1, b"NO SVG"
        with builtins.open(full(rest[0])) as f:
            e = rec.pdfs[f.read()]
        p = full(rest[1])
        if rec.symbolic:
            etfake.FILES[p] = ("svg", e)
            with builtins.open(p, "w") as f:
                f.write("symbolic svg")
        else:
            with builtins.open(p, "w", encoding="utf-8") as f:
                f.write(etfake.write(e))
        return 0, b""
    return outside("program %r" % (args[0],))


class CalledProcessError(Exception):
    def __init__(self, returncode, stderr=b""):
        super().__init__("command failed")
        self.returncode, self.stderr, self.stdout, self.output = returncode, stderr, b"", b""


class Popen:
    def __init__(self, args, cwd=None, **kw):
        self.returncode, self.err = command(args, cwd)

    def communicate(self, input=None, timeout=None):
        return b"", self.err

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Subprocess:
    PIPE, STDOUT, DEVNULL = -1, -2, -3
    CalledProcessError = CalledProcessError
    SubprocessError = CalledProcessError
    Popen = Popen

    @staticmethod
    def run(args, cwd=None, check=False, text=False, universal_newlines=False, encoding=None, **kw):
        code, err = command(args, cwd)
        if code and check:
            raise CalledProcessError(code, err)
        t = bool(text or universal_newlines or encoding)
        return types.SimpleNamespace(returncode=code, stdout="" if t else b"", stderr=err.decode() if t else err)

    @classmethod
    def check_call(cls, args, **kw):
        cls.run(args, check=True, **kw)
        return 0

    @classmethod
    def check_output(cls, args, **kw):
        return cls.run(args, check=True, **kw).stdout

    @classmethod
    def call(cls, args, **kw):
        return cls.run(args, **kw).returncode

    def __getattr__(self, n):
        return outside("subprocess." + n)


def symbolic():
    e, b, x = imgfake.symbolic()
    e = dict(e)
    e["subprocess"] = Subprocess()
    e["hashlib"] = fsfake._Hashlib()
    return e, b, x


def concrete():
    e, b, x = imgfake.concrete()
    e = dict(e)
    e["subprocess"] = Subprocess()
    return e, b, x


def begin(S):
    fsfake.begin(S)
    imgfake.begin(S)
    rec.answer, rec.runs, rec.pdfs, rec.fail_svg, rec.symbolic = None, [], {}, False, S.symbolic
