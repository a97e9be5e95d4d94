"""In-memory file system (fsfake) and stand-ins for the programs and libraries
elsie hands its pages to: PDF mergers, child processes, JSON files."""
import json as _json
import types
from . import fsfake
from .fsfake import outside, st, norm


class Rec:
    merged = {}          # output path -> contents of the inputs in the order of the output
    inputs = {}          # output path -> paths of the inputs
    popen = None         # replacement of subprocess.Popen
    structs = []         # values written as JSON in symbolic runs


rec = Rec()


# ------------------------------------------------------------------- mergers
def _content(f):
    if hasattr(f, "read"):
        return f.name, f.read()
    p = norm(f)
    with fsfake.fake_open(p, "rb") as g:
        return p, g.read()


def _write(out, names, contents):
    if hasattr(out, "write"):
        out.write(b"merged")
        name = out.name
    else:
        name = norm(out)
        with fsfake.fake_open(name, "wb") as f:
            f.write(b"merged")
    rec.merged[name] = contents
    rec.inputs[name] = names


class PdfFileMerger:
    def __init__(self, *a, **kw):
        self.names, self.contents = [], []

    def append(self, fileobj, *a, **kw):
        n, c = _content(fileobj)
        self.names.append(n)
        self.contents.append(c)

    def merge(self, position, fileobj, *a, **kw):
        n, c = _content(fileobj)
        self.names.insert(position, n)
        self.contents.insert(position, c)

    def write(self, fileobj):
        _write(fileobj, list(self.names), list(self.contents))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _PyPDF2:
    PdfFileMerger = PdfMerger = PdfFileMerger

    def __getattr__(self, n):
        return outside("PyPDF2." + n)


class CalledProcessError(Exception):
    pass


def _command(args):
    """Programs known by the stand-in."""
    args = list(args)
    if args[0] == "pdfunite":
        if len(args) < 3:
            return 99
        got = [_content(a) for a in args[1:-1]]
        _write(args[-1], [g[0] for g in got], [g[1] for g in got])
        return 0
    return outside("program %r" % (args[0],))


class _Subprocess:
    PIPE, STDOUT, DEVNULL = -1, -2, -3
    CalledProcessError = CalledProcessError
    SubprocessError = CalledProcessError

    @staticmethod
    def check_call(args, **kw):
        r = _command(args)
        if r:
            raise CalledProcessError(r)
        return 0

    @staticmethod
    def call(args, **kw):
        return _command(args)

    @staticmethod
    def run(args, check=False, **kw):
        r = _command(args)
        if r and check:
            raise CalledProcessError(r)
        return types.SimpleNamespace(returncode=r, stdout=b"", stderr=b"")

    @staticmethod
    def Popen(args, **kw):
        if rec.popen is None:
            return outside("subprocess.Popen")
        return rec.popen(args, **kw)

    def __getattr__(self, n):
        return outside("subprocess." + n)


# ---------------------------------------------------------------------- pptx
class _Layouts(list):
    def get_by_name(self, name, default=None):
        return ([l for l in self if l.name == name] + [default])[0]


class _Shapes:
    def __init__(self, pics):
        self.pics = pics

    def add_picture(self, image_file, left, top, width=None, height=None):
        self.pics.append((_content(image_file)[1], left, top, width, height))


class _Slides:
    def __init__(self, out):
        self.out = out

    def add_slide(self, layout):
        pics = []
        self.out.append((layout.name, pics))
        return types.SimpleNamespace(shapes=_Shapes(pics))


class Presentation:
    def __init__(self, *a):
        self.out = []
        self.slides = _Slides(self.out)
        self.slide_layouts = _Layouts([types.SimpleNamespace(name=n) for n in pptx.layouts])
        self.slide_width, self.slide_height = pptx.width, pptx.height

    def save(self, name):
        pptx.saved[norm(name)] = self.out


pptx = types.SimpleNamespace(Presentation=Presentation, layouts=["Blank"], saved={}, width=9144000, height=6858000)


# ---------------------------------------------------------------------- json
def _jkey(k):
    if isinstance(k, bool):
        return "true" if k else "false"
    if k is None:
        return "null"
    if isinstance(k, (int, float)) and type(k).__name__ not in ("SymInt", "SymReal"):
        return str(k)
    if _text(k):
        return k
    raise TypeError("keys must be str, int, float, bool or None")


def _text(x):
    return isinstance(x, str) or type(x).__name__ == "SymStr"


def _jcopy(x):
    if isinstance(x, (list, tuple)):
        return [_jcopy(y) for y in x]
    if type(x).__name__ == "SymDict" or isinstance(x, dict):
        return {_jkey(k): _jcopy(v) for k, v in x.items()}
    if x is None or _text(x) or isinstance(x, (bool, int, float)) or type(x).__name__ in ("SymInt", "SymReal", "SymBool", "Fraction"):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


class _Json:
    JSONDecodeError = _json.JSONDecodeError

    @staticmethod
    def dumps(x, **kw):
        rec.structs.append(_jcopy(x))
        return "<json %d>" % (len(rec.structs) - 1)

    @classmethod
    def dump(cls, x, f, **kw):
        f.write(cls.dumps(x))

    @staticmethod
    def loads(s, **kw):
        if isinstance(s, bytes):
            s = s.decode()
        if isinstance(s, str) and s.startswith("<json ") and s.endswith(">"):
            return _jcopy(rec.structs[int(s[6:-1])])
        raise _json.JSONDecodeError("Expecting value", "", 0)

    @classmethod
    def load(cls, f, **kw):
        return cls.loads(f.read())

    def __getattr__(self, n):
        return outside("json." + n)


def env(symbolic):
    e = fsfake.env(symbolic)
    e["PyPDF2"] = _PyPDF2()
    e["pptx"] = pptx
    e["subprocess"] = _Subprocess()
    if symbolic:
        e["json"] = _Json()
    return e


def symbolic():
    return env(True), {"open": fsfake.fake_open}, ()


def concrete():
    return env(False), {"open": fsfake.fake_open}, {}


def begin(S):
    fsfake.begin(S)
    pptx.layouts, pptx.saved = ["Blank"], {}
    rec.merged, rec.inputs, rec.popen, rec.structs = {}, {}, None, []
