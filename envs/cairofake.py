"""Recording stand-ins for cairocffi, pangocffi, pangocairocffi and cairosvg.

They implement the documented state semantics (current transformation, path in
device space, save/restore, attributes with byte ranges) and record what is
drawn; nothing is rasterised. Used with symbolic and with concrete numbers."""
import math
import types

_S = [None]
SURFACES = []
LAYOUTS = []
TEXTS = []


def cossin(a):
    """Cosine and sine of an angle (number, or angle object of the engine)."""
    if hasattr(a, "cossin"):
        return a.cossin()
    if type(a) not in (int, float):
        raise TypeError("angle")
    return math.cos(a), math.sin(a)


def full_turn(a):
    if hasattr(a, "cossin"):
        return bool(abs(a._pi_coef()) == 2)
    return abs(abs(a) - 2 * math.pi) < 1e-9


class Matrix:
    def __init__(self, xx=1, yx=0, xy=0, yy=1, x0=0, y0=0):
        self.t = (xx, yx, xy, yy, x0, y0)

    def apply(self, x, y):
        a, b, c, d, e, f = self.t
        return (a * x + c * y + e, b * x + d * y + f)

    def vec(self, x, y):
        a, b, c, d, e, f = self.t
        return (a * x + c * y, b * x + d * y)

    def mul(self, o):
        """First o, then self."""
        a, b, c, d, e, f = self.t
        p = (a * o.t[0] + c * o.t[1], b * o.t[0] + d * o.t[1])
        q = (a * o.t[2] + c * o.t[3], b * o.t[2] + d * o.t[3])
        r = self.apply(o.t[4], o.t[5])
        return Matrix(p[0], p[1], q[0], q[1], r[0], r[1])

    def inverse_apply(self, x, y):
        a, b, c, d, e, f = self.t
        det = a * d - b * c
        x, y = x - e, y - f
        return ((d * x - c * y) / det, (a * y - b * x) / det)


class Surface:
    def __init__(self, *args):
        self.args = args
        self.ops = []
        SURFACES.append(self)

    def finish(self):
        pass

    def flush(self):
        pass

    def get_data(self):
        return b""

    def set_device_scale(self, x, y):
        self.device_scale = (x, y)

    def get_width(self):
        return self.args[1]

    def get_height(self):
        return self.args[2]


class PDFSurface(Surface):
    pass


class ImageSurface(Surface):
    def __init__(self, fmt=0, width=0, height=0, data=None, stride=None):
        super().__init__(fmt, width, height)
        self.data = data


class Op:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Context:
    def __init__(self, surface):
        self.surface = surface
        self.m = Matrix()
        self.src = ("rgba", 0, 0, 0, 1)
        self.lw = 2
        self.dash = ()
        self.stack = []
        self.new_path()

    # ---- state
    def save(self):
        self.stack.append((self.m, self.src, self.lw, self.dash))

    def restore(self):
        self.m, self.src, self.lw, self.dash = self.stack.pop()

    def translate(self, tx, ty):
        self.m = self.m.mul(Matrix(1, 0, 0, 1, tx, ty))

    def scale(self, sx, sy=None):
        if sx == 0 or (sy is not None and sy == 0):
            raise Exception("CairoError: invalid matrix (not invertible)")
        self.m = self.m.mul(Matrix(sx, 0, 0, sx if sy is None else sy, 0, 0))

    def rotate(self, a):
        c, s = cossin(a)
        self.m = self.m.mul(Matrix(c, s, -s, c, 0, 0))

    def transform(self, m):
        self.m = self.m.mul(m)

    def identity_matrix(self):
        self.m = Matrix()

    def get_matrix(self):
        return self.m

    def set_matrix(self, m):
        self.m = m

    def set_source_rgb(self, r, g, b):
        self.src = ("rgba", r, g, b, 1)

    def set_source_rgba(self, r, g, b, a=1):
        self.src = ("rgba", r, g, b, a)

    def set_source_surface(self, surface, x=0, y=0):
        self.src = ("surface", surface, self.m, x, y)

    def set_line_width(self, w):
        self.lw = w

    def get_line_width(self):
        return self.lw

    def set_dash(self, dashes, offset=0):
        self.dash = tuple(dashes)

    def set_line_cap(self, c):
        pass

    def set_line_join(self, j):
        pass

    def set_antialias(self, a):
        pass

    # ---- path (device space)
    def new_path(self):
        self.path = []
        self.cur = None
        self.cur_user = None

    def new_sub_path(self):
        self.cur = self.cur_user = None

    def _go(self, x, y):
        self.cur = self.m.apply(x, y)
        self.cur_user = (self.m, (x, y))

    def get_current_point(self):
        if self.cur is None:
            return (0.0, 0.0)
        if self.cur_user is not None and self.cur_user[0] is self.m:
            return self.cur_user[1]
        return self.m.inverse_apply(*self.cur)

    def has_current_point(self):
        return self.cur is not None

    def move_to(self, x, y):
        self._go(x, y)
        self.path.append([("M", self.cur)])

    def line_to(self, x, y):
        if self.cur is None:
            return self.move_to(x, y)
        self._go(x, y)
        self.path[-1].append(("L", self.cur))

    def curve_to(self, x1, y1, x2, y2, x3, y3):
        if self.cur is None:
            self.move_to(x1, y1)
        p1, p2 = self.m.apply(x1, y1), self.m.apply(x2, y2)
        self._go(x3, y3)
        self.path[-1].append(("C", p1, p2, self.cur))

    def _rel(self, x, y):
        if self.cur is None:
            raise Exception("no current point")
        a, b = self.get_current_point()
        return a + x, b + y

    def rel_move_to(self, x, y):
        self.move_to(*self._rel(x, y))

    def rel_line_to(self, x, y):
        self.line_to(*self._rel(x, y))

    def rel_curve_to(self, x1, y1, x2, y2, x3, y3):
        self.curve_to(*self._rel(x1, y1), *self._rel(x2, y2), *self._rel(x3, y3))

    def close_path(self):
        if self.path:
            self.path[-1].append(("Z",))
            self.cur = self.path[-1][0][1]
            self.cur_user = None

    def rectangle(self, x, y, w, h):
        self.move_to(x, y)
        self.line_to(x + w, y)
        self.line_to(x + w, y + h)
        self.line_to(x, y + h)
        self.close_path()

    def arc(self, xc, yc, r, a1, a2):
        if not full_turn(a2 - a1):
            raise NotImplementedError("partial arc")
        seg = ("ARC", self.m.apply(xc, yc), self.m.vec(r, 0), self.m.vec(0, r))
        if self.cur is None:
            self.path.append([])
        else:
            # cairo connects the current point to the start of the arc
            self.path[-1].append(("JOIN", self.cur))
        self.path[-1].append(seg)
        c, s = cossin(a2)
        self._go(xc + r * c, yc + r * s)

    # ---- painting
    def _op(self, kind):
        self.surface.ops.append(Op(kind, path=self.path, src=self.src, lw=self.lw, dash=self.dash, m=self.m))

    def fill(self):
        self._op("fill")
        self.new_path()

    def fill_preserve(self):
        self._op("fill")

    def stroke(self):
        self._op("stroke")
        self.new_path()

    def stroke_preserve(self):
        self._op("stroke")

    def paint(self, *a):
        self._op("paint")

    def paint_with_alpha(self, a):
        self._op("paint")


cairocffi = types.SimpleNamespace(
    Context=Context, Surface=Surface, PDFSurface=PDFSurface, ImageSurface=ImageSurface, Matrix=Matrix,
    FORMAT_ARGB32=0, FORMAT_RGB24=1)


# ------------------------------------------------------------------- pango
class Attribute:
    def __init__(self, kind, value, start_index=0, end_index=None):
        self.kind, self.value = kind, value
        self.start_index, self.end_index = start_index, end_index

    @staticmethod
    def _init_pointer(p, *a, **k):
        return p


def _attr(kind):
    def make(*values, start_index=0, end_index=None):
        return Attribute(kind, values[0] if len(values) == 1 else values, start_index, end_index)
    return staticmethod(make)


for _n in ("size_absolute", "size", "family", "foreground_color", "background_color", "weight", "style", "variant",
           "letter_spacing", "foreground_alpha"):
    setattr(Attribute, "from_" + _n, _attr(_n))


class AttrList:
    def __init__(self):
        self.attrs = []

    def insert(self, a):
        self.attrs.append(a)

    def change(self, a):
        self.attrs.append(a)

    def insert_before(self, a):
        self.attrs.insert(0, a)


class FontDescription:
    def __init__(self):
        self.family = self.size = None

    def set_family(self, f):
        self.family = f

    def set_absolute_size(self, s):
        self.size = s

    def get_pointer(self):
        return self


class Rectangle:
    def __init__(self, x, y, width, height):
        self.x, self.y, self.width, self.height = x, y, width, height


class Iter:
    """Iterates the characters of a single-line layout; widths are arbitrary."""

    def __init__(self, layout):
        self.layout = layout
        self.i = 0

    def get_index(self):
        return self.layout.offset(self.i)

    def get_char_extents(self):
        x = 0
        for k in range(self.i):
            x = x + self.layout.char_width(k)
        return Rectangle(x * 1024, 0, self.layout.char_width(self.i) * 1024, 1024)

    def next_char(self):
        if self.i >= len(self.layout.text):
            return False
        self.i += 1
        return self.i < len(self.layout.text)


class Rec:
    pass


class Layout:

    def __init__(self, ctx):
        self.ctx = ctx
        self.text = ""
        self.attributes = None
        self.width = None
        self.spacing = 0
        self.line_spacing = 0
        self.alignment = None
        self.rec = None
        LAYOUTS.append(self)

    def offset(self, i):
        return len(self.text[:i].encode("utf8"))

    def metrics(self):
        """Arbitrary non-negative measurements, the same for the same text."""
        if self.rec is None:
            for r in TEXTS:
                if _S[0].same_text(r.text, self.text):
                    self.rec = r
                    break
            else:
                self.rec = Rec()
                self.rec.text, self.rec.id, self.rec.v = self.text, len(TEXTS), {}
                TEXTS.append(self.rec)
        return self.rec

    def measure(self, name, hi):
        r = self.metrics()
        if name not in r.v:
            r.v[name] = _S[0].real("%s_%d" % (name, r.id), 0, hi)
        return r.v[name]

    def char_width(self, i):
        return self.measure("cw%d" % i, 100)

    def set_text(self, t):
        self.text = t

    def get_text(self):
        return self.text

    def set_attributes(self, a):
        self.attributes = a

    def set_width(self, w):
        self.width = w

    def set_spacing(self, s):
        self.spacing = s

    def set_alignment(self, a):
        self.alignment = a

    def set_ellipsize(self, e):
        pass

    def set_wrap(self, e):
        pass

    def set_font_description(self, d):
        self.font = d

    def set_line_spacing(self, s):
        self.line_spacing = s

    def get_line_count(self):
        return self.text.count("\n") + 1

    def get_baseline(self):
        return self.measure("baseline", 100) * 1024

    def get_extents(self):
        w, h = self.measure("lw", 1000), self.measure("lh", 1000)
        return (Rectangle(1, 2, w * 512, h * 512), Rectangle(0, 0, w * 1024, h * 1024))

    def get_size(self):
        r = self.get_extents()[1]
        return r.width, r.height

    def get_iter(self):
        return Iter(self)


class _Pango:
    @staticmethod
    def pango_attr_scale_new(f):
        return Attribute("scale", f)

    @staticmethod
    def pango_context_get_metrics(ctx, font, lang):
        return ("metrics", font)

    @staticmethod
    def pango_font_metrics_get_ascent(m):
        return _metric("ascent", m[1])

    @staticmethod
    def pango_font_metrics_get_descent(m):
        return _metric("descent", m[1])


_METRICS = []


def font_metric(n, family, size):
    """Arbitrary ascents and descents of a font, in pango units."""
    S = _S[0]
    for kind, fam, sz, v in _METRICS:
        if kind == n and S.concrete(fam == family) and S.concrete(S.eq(sz, size)):
            return v * 1024
    v = S.real("%s_%d" % (n, len(_METRICS)), 0, 100)
    _METRICS.append((n, family, size, v))
    return v * 1024


def _metric(n, font):
    return font_metric(n, font.family, font.size)


def line_advance(layout, family, size, scale=1):
    """Distance of two baselines in a layout whose text has one font, in pango units; fonts scale linearly."""
    height = (font_metric("ascent", family, size * 1024) + font_metric("descent", family, size * 1024)) * scale
    if layout.line_spacing:
        return height * layout.line_spacing
    return height + layout.spacing


ffi = types.SimpleNamespace(cast=lambda t, v: v, NULL=None)
Weight = types.SimpleNamespace(BOLD=700, NORMAL=400, LIGHT=300, THIN=100)
Style = types.SimpleNamespace(ITALIC="italic", NORMAL="normal", OBLIQUE="oblique")
Alignment = types.SimpleNamespace(CENTER="center", LEFT="left", RIGHT="right")
EllipsizeMode = types.SimpleNamespace(NONE=0)

pangocffi = types.SimpleNamespace(
    Attribute=Attribute, AttrList=AttrList, FontDescription=FontDescription, Layout=Layout, Rectangle=Rectangle,
    ffi=ffi, pango=_Pango, Weight=Weight, Style=Style, Alignment=Alignment, EllipsizeMode=EllipsizeMode,
    units_from_double=lambda d: d * 1024, units_to_double=lambda u: u / 1024, Context=object)


class PangoContext:
    def __init__(self, ctx):
        self.ctx = ctx

    def get_pointer(self):
        return self


def show_layout(ctx, layout):
    ctx.surface.ops.append(Op("layout", layout=layout, at=ctx.cur, m=ctx.m, src=ctx.src))


pangocairocffi = types.SimpleNamespace(
    create_context=PangoContext, create_layout=Layout, show_layout=show_layout)


# ---------------------------------------------------------------- cairosvg
class SvgSurface:
    """Base class of elsie's surface; nothing of an embedded image is drawn."""
    @property
    def device_units_per_user_units(self):
        return 72 / self.dpi


    def set_context_size(self, width, height, viewbox, tree):
        self.size_args = (width, height, viewbox)

    def draw(self, node):
        self.context.surface.ops.append(Op("svg", m=self.context.m, size=self.size_args, svg=node.text, dpi=self.dpi))


class Tree(dict):
    def __init__(self, bytestring=None, **kw):
        self.text = bytestring
        self.url = None


def node_format(surface, node, reference=True):
    return (10, 10, (0, 0, 10, 10))


cairosvg = types.SimpleNamespace(
    colors=types.SimpleNamespace(color=lambda *a, **k: (0, 0, 0, 1)),
    helpers=types.SimpleNamespace(node_format=node_format, size=lambda *a, **k: 12),
    parser=types.SimpleNamespace(Tree=Tree),
    surface=types.SimpleNamespace(Surface=SvgSurface))


def env():
    return {"cairocffi": cairocffi, "pangocffi": pangocffi, "pangocairocffi": pangocairocffi, "cairosvg": cairosvg}


def symbolic():
    return env(), {}, ()


def concrete():
    return env(), {}, {}


def begin(S):
    _S[0] = S
    del SURFACES[:]
    del LAYOUTS[:]
    del TEXTS[:]
    del _METRICS[:]
