"""Helpers shared by the harnesses (run on symbolic values and in replays)."""
from elsie import SlideDeck
from elsie.render.backends.svg.backend import InkscapeBackend
from elsie.render.inkscape import InkscapeShell


class FakeShell(InkscapeShell):
    """Inkscape stand-in: measurements are arbitrary non-negative numbers,
    one per distinct measured document."""

    def __init__(self, S, version="Inkscape 1.2 (verif)", lo=0, hi=None, fixed=None):
        self.S = S
        self.version = version
        self.measured = []
        self.lo = lo
        self.hi = hi
        self.fixed = fixed
        self.exports = []

    def _value(self, kind, svg, id, lo):
        for k, s, v in self.measured:
            if k == kind and self.S.same_text(s, svg):
                return v
        if self.fixed is not None:
            v = self.fixed
        else:
            v = self.S.real("measure%d" % len(self.measured), lo, self.hi)
        self.measured.append((kind, svg, v))
        return v

    def get_width(self, svg, id):
        return self._value("w", svg, id, self.lo)

    def get_height(self, svg, id):
        return self._value("h", svg, id, self.lo)

    def get_x(self, svg, id):
        return self._value("x", svg, id, None)

    def get_version(self):
        return self.version

    def convert_to_pdf(self, source, target, type):
        self.exports.append((source, target, type))

    def close(self):
        pass


def make_deck(S, width=1000, height=700, shell=None, **kw):
    d = S.scratch()
    if shell is None:
        shell = FakeShell(S)
    backend = InkscapeBackend(inkscape=shell, cache_dir=d)
    kw.setdefault("name_policy", "ignore")
    deck = SlideDeck(width=width, height=height, backend=backend, cache_dir=d, **kw)
    deck.test_shell = shell
    return deck


def render_units(deck, **kw):
    kw.setdefault("prune_cache", False)
    kw.setdefault("save_cache", False)
    return deck.render(output=None, return_units=True, **kw)


def render_pages(S, deck, **kw):
    """Parsed SVG documents of all pages."""
    return [S.xml(u.get_svg()) for u in render_units(deck, **kw)]


class R:
    """Rectangle read from the output."""

    def __init__(self, x, y, w, h):
        self.x, self.y, self.w, self.h = x, y, w, h

    def start(self, axis):
        return self.y if axis else self.x

    def size(self, axis):
        return self.h if axis else self.w

    def end(self, axis):
        return self.start(axis) + self.size(axis)


def style_map(style):
    out = {}
    for part in style.split(";"):
        if part:
            k, v = part.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def rects_by_fill(page):
    """fill colour -> R for every <rect> of the page."""
    out = {}
    for n in page.find_all("rect"):
        fill = style_map(n.attrs["style"])["fill"]
        out[fill] = R(float(n.attrs["x"]), float(n.attrs["y"]), float(n.attrs["width"]), float(n.attrs["height"]))
    return out


def mark(box, name):
    """Paint a marker rectangle exposing the content area of the box."""
    box.rect(bg_color=name)
    return box


def numbers_of(text):
    return [float(t) for t in text.replace(",", " ").split()]


def points_of(text):
    """'x,y x,y ...' -> list of number pairs."""
    n = numbers_of(text)
    assert len(n) % 2 == 0, text
    return list(zip(n[::2], n[1::2]))


def parse_path(d):
    """SVG path data (absolute commands) -> [(letter, [points])]."""
    out = []
    for t in d.replace(",", " ").split():
        for c in "MLCSQTZ":
            if t.startswith(c):
                out.append((c, []))
                t = t[1:]
                break
        if t:
            out[-1][1].append(float(t))
    for _, n in out:
        assert len(n) % 2 == 0, d
    return [(c, list(zip(n[::2], n[1::2]))) for c, n in out]


def svg_text(S, node):
    """Content of a <text> element: [(dy from the first line, [(char, effective attributes)])] per printed line."""
    lines = [(0, [])]

    def attrs_of(n, inherited):
        a = dict(inherited)
        for k in ("font-family", "font-size", "font-variant-numeric"):
            if k in n.attrs:
                a[k] = n.attrs[k]
        a.update(style_map(n.attrs.get("style", "")))
        return a

    def walk(n, inherited):
        a = attrs_of(n, inherited)
        if n.tag == "tspan" and "dy" in n.attrs:
            S.check(S.eq(float(n.attrs["x"]), float(node.attrs["x"])), "every line starts at the same x")
            lines.append((lines[-1][0] + float(n.attrs["dy"]), []))
        for c in n.items:
            if hasattr(c, "tag"):
                walk(c, a)
            else:
                for ch in c:
                    lines[-1][1].append((ch, a))
    walk(node, {})
    return lines


def css_of(d):
    """Attributes an SVG character gets from (composed) style attributes given as a dictionary."""
    out = {}
    if d.get("font") is not None:
        out["font-family"] = d["font"]
    if d.get("size") is not None:
        out["font-size"] = d["size"]
    if d.get("color") is not None:
        out["fill"] = d["color"]
    if d.get("opacity") is not None:
        out["fill-opacity"] = d["opacity"]
    out["font-weight"] = "bold" if d.get("bold") else "normal"
    out["font-style"] = "italic" if d.get("italic") else "normal"
    return out


def check_css(S, got, want, label):
    got = dict(got)
    got.setdefault("font-weight", "normal")
    got.setdefault("font-style", "normal")
    for k, v in want.items():
        S.check(k in got, label)
        if k in ("font-size", "fill-opacity"):
            S.check(S.eq(float(got[k]), v), label)
        else:
            S.check(got[k] == v, label)
    for k in got:
        S.check(k in want or k == "font-variant-numeric", label)
