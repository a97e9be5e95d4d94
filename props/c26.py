"""C26: histories of text measurements, prunings, saves and restarts."""
import sys
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf
from elsie import TextStyle
from elsie.render.backends.svg.backend import InkscapeBackend
from elsie.render.inkscape import InkscapeShell
from elsie.text.textparser import parse_text

DIR = "/vfs/cache"
METHODS = ["compute_text_width", "compute_text_height", "compute_text_x"]
KIND = dict(compute_text_width="w", compute_text_height="h", compute_text_x="x")


class Shell(InkscapeShell):
    """Inkscape stand-in answering for the request that is being served."""

    def __init__(self, world, version):
        self.world, self.version = world, version

    def _answer(self, kind):
        w = self.world
        w.calls += 1
        w.S.check(kind == KIND[w.serving.method], "the requested quantity is measured")
        return w.serving.value

    def get_width(self, svg, id):
        return self._answer("w")

    def get_height(self, svg, id):
        return self._answer("h")

    def get_x(self, svg, id):
        return self._answer("x")

    def get_version(self):
        return self.version

    def close(self):
        pass


def set_version(v):
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "elsie" and isinstance(getattr(m, "VERSION", None), str) or n == "elsie.version":
            m.VERSION = v


class Request:
    pass


class World:
    def __init__(self, S, shape, nreq, tlen=1):
        self.S = S
        fs.os.makedirs(DIR)
        self.calls = 0
        self.serving = None
        self.requests = []
        for i in range(nreq):
            r = Request()
            r.method = S.choice("m%d" % i, METHODS) if shape != "text" else METHODS[0]
            r.text = "ab"
            if shape in ("text", "mixed"):
                r.text = S.str("t%d" % i, tlen, None)
                for c in r.text:
                    S.assume(S.And(c != "~", c != "}", c < "\x7f", S.Or(c >= " ", c == "\n") if shape == "text" else c >= "a"))
            r.index = None
            r.bold = False
            r.size = 10
            r.font = "a"
            if shape == "style":
                r.size = S.real("size%d" % i, 1, 100)
                r.bold = S.choice("bold%d" % i, [True, False])
                r.font = S.choice("font%d" % i, ["a", "b"])
            r.span = r.variant = None
            r.italic, r.align, r.tt = False, "left", "mono"
            if shape == "font":
                r.font = S.choice("fl%d" % i, ["ab", "a" + S.str("font%d" % i, 1, " -_aA'") + "b"])
            if shape == "look":
                r.italic = S.choice("italic%d" % i, [True, False])
                r.align = S.choice("align%d" % i, ["left", "middle", "right"])
                r.variant = S.choice("variant%d" % i, [None, "normal", "ordinal"])
            if shape == "span":
                r.text = S.choice("st%d" % i, ["a~tt{b}", "~tt{a}b"])
                r.span = S.real("span%d" % i, 1, 100)
                r.tt = "a" + S.str("tt%d" % i, 1, " aA") + "b"
            if shape == "index":
                r.text = S.choice("it%d" % i, ["a~tt{b}c~tt{d}", "a~tt{bc}~tt{d}", "a~alert{b}c~tt{d}"])
                r.index = S.choice("index%d" % i, [None] + [k for k, t in enumerate(parse_text(r.text)) if t[0] == "begin"])
            r.key = i
            for j in range(i):
                if self.same(r, self.requests[j]):
                    r.key = self.requests[j].key
                    break
            r.value = S.real("value%d" % i, 0) if r.key == i else self.requests[r.key].value
            self.requests.append(r)

    def same(self, a, b):
        S = self.S
        if a.method != b.method or a.index != b.index or a.bold != b.bold or a.italic != b.italic or a.align != b.align or a.variant != b.variant:
            return False
        if not S.concrete(a.font == b.font) or not S.concrete(a.tt == b.tt):
            return False
        if a.span is not None and not S.concrete(S.eq(a.span, b.span)):
            return False
        return S.concrete(a.text == b.text) and S.concrete(S.eq(a.size, b.size))

    def open(self, elsie, ink):
        set_version(elsie)
        self.backend = InkscapeBackend(inkscape=Shell(self, ink), cache_dir=DIR)

    def ask(self, i):
        """Value of request i; tells whether Inkscape was asked."""
        r = self.requests[i]
        self.serving = r
        n = self.calls
        style = TextStyle(font=r.font, size=r.size, bold=r.bold, italic=r.italic, color="black", line_spacing=1, align=r.align, variant_numeric=r.variant)
        styles = {"default": style, "tt": TextStyle(font=r.tt, size=r.span), "alert": TextStyle(bold=True)}
        v = getattr(self.backend, r.method)(parse_text(r.text), style, styles, id_index=r.index)
        self.S.check(self.S.eq(v, r.value), "a measurement equals what measuring again returns")
        self.S.check(self.calls - n <= 1, "each quantity is measured once")
        return self.calls > n


def share(S, shape, nreq=2, tlen=1):
    """Distinct requests never share a value, equal ones are measured once."""
    w = World(S, shape, nreq, tlen)
    w.open("1.0", "Inkscape 1.1")
    for i in range(nreq):
        asked = w.ask(i)
        S.check(asked == (w.requests[i].key == i), "equal requests are measured once")


VERSIONS = [("1.0", "Inkscape 1.1 (a)"), ("1.1", "Inkscape 1.1 (a)"), ("1.0", "Inkscape 1.1 (b)")]


def history(S, nreq, steps, shape="style0", crash=False, symver=False, vlens=((1, 1), (1, 1))):
    """Histories of requests, prunings, saves and new sessions."""
    w = World(S, shape, nreq)
    versions = VERSIONS
    if symver:
        versions = [(S.str("e%d" % i, vlens[0][i], None), "Inkscape 1." + S.str("i%d" % i, vlens[1][i], None)) for i in range(2)]
        for v in versions:
            for c in v[0] + v[1]:
                S.assume(S.And(c >= " ", c < "\x7f"))
    cur = versions[0]
    w.open(*cur)
    cache, used = [], []
    saved, sver = None, None
    for s in range(steps):
        ops = ["ask%d" % i for i in range(nreq)] + ["prune", "save"] + ["open%d" % i for i in range(len(versions))]
        if s == steps - 1:
            ops = ops[:nreq]
        op = S.choice("op%d" % s, ops)
        if op.startswith("ask"):
            i = int(op[3:])
            k = w.requests[i].key
            asked = w.ask(i)
            S.check(asked == (k not in cache), "measurements are reused exactly when they are kept")
            if k not in cache:
                cache.append(k)
            if k not in used:
                used.append(k)
        elif op == "prune":
            w.backend.prune_cache()
            cache, used = used, []
            cache = list(cache)
        elif op == "save":
            if crash:
                n = S.choice("crash%d" % s, [0, 1, 2, 3, 4, 5])
                if n:
                    fs.arm(crash=n)
                try:
                    w.backend.save_cache()
                    fs.disarm()
                    saved, sver = list(cache), cur
                except fs.Crash:
                    fs.restart()
                    # the session is over
                    set_version(cur[0])
                    w.backend = InkscapeBackend(inkscape=Shell(w, cur[1]), cache_dir=DIR)
                    new, old = list(cache), list(saved) if sver == cur else []
                    state = None
                    for i in range(nreq):
                        k = w.requests[i].key
                        if k != i:
                            continue
                        hit = not w.ask(i)
                        S.check(hit == (k in new) or hit == (k in old), "an interrupted save leaves the old or the new measurements")
                    return
            else:
                w.backend.save_cache()
                saved, sver = list(cache), cur
        else:
            cur = versions[int(op[4:])]
            w.open(*cur)
            same = sver is not None and S.concrete(cur[0] == sver[0]) and S.concrete(cur[1] == sver[1])
            cache, used = (list(saved) if same else []), []


HARNESSES = [
    H("share", share, [dict(shape="text", tlen=2), dict(shape="style"), dict(shape="index"), dict(shape="mixed"), dict(shape="font"), dict(shape="look"), dict(shape="span")], [dict(shape="text", nreq=3), dict(shape="style", nreq=3), dict(shape="index", nreq=3), dict(shape="mixed", nreq=3), dict(shape="font", nreq=3), dict(shape="look"), dict(shape="span", nreq=3)],
      "2 (3) requests: texts of 1 character, sizes 1-100, bold and italic or not, alignments, digit variants, font names of 3 characters, inline spans and their fonts and sizes, three quantities; measured values any number >= 0"),
    H("history", history, [dict(nreq=2, steps=5, shape="plain"), dict(nreq=2, steps=4, shape="plain", crash=True), dict(nreq=1, steps=4, shape="plain", symver=True),
                           dict(nreq=1, steps=4, shape="plain", symver=True, vlens=((1, 1), (1, 2))), dict(nreq=1, steps=4, shape="plain", symver=True, vlens=((2, 1), (1, 1)))],
      [dict(nreq=2, steps=7, shape="plain"), dict(nreq=3, steps=5, shape="plain"), dict(nreq=2, steps=5, shape="plain", crash=True), dict(nreq=2, steps=5, shape="mixed"), dict(nreq=1, steps=5, shape="plain", symver=True),
       dict(nreq=1, steps=5, shape="plain", symver=True, vlens=((1, 1), (1, 3))), dict(nreq=1, steps=5, shape="plain", symver=True, vlens=((1, 2), (2, 1)))],
      "histories of up to 7 steps (request, prune, save, new session with one of three versions or symbolic version texts)"),
]
