"""C19: images keep their aspect ratio, fit the box and are centred."""
import io
from symx.session import H, product
from envs.etfake import E, svg_file, bitmap_file, bitmap_data, data_of
from props.lib import make_deck, render_pages, rects_by_fill, mark, R, style_map
from props.cairolib import K, cairo_deck, cairo_ops

UNIT = {"": 1, "px": 1, "mm": 3.77953, "cm": 37.7953, "pt": 1.33333}
DIG = "0123456789"


def image_of(S, kind, unit="", n=0, digits=2, where=""):
    """(source arguments, width, height, data or None)"""
    name = {"": "im%d.%s", "dirs": "dir%d/image.%s", "long": "image-with-a-long-name-%d.%s", "suffix": "%d-image.%s"}[where]
    if kind == "svg":
        size = []
        for a in "wh":
            d = S.str("%s%d" % (a, n), digits, DIG)
            v = float(d)
            S.assume(v >= 1)
            size.append((d + unit, v * UNIT[unit]))
        p = svg_file(S, E("svg", {"width": size[0][0], "height": size[1][0]}, E("circle", {"id": "pic%d" % n})), name % (n, "svg"))
        return p, {}, size[0][1], size[1][1], None
    w, h = S.int("w%d" % n, 1, 400), S.int("h%d" % n, 1, 400)
    fmt = "JPEG" if kind == "jpeg" else "PNG"
    if kind == "bytes":
        data = bitmap_data(S, w, h, fmt, n=n)
        return data, {"image_type": "png"}, w, h, data
    if kind == "stream":
        data = bitmap_data(S, w, h, fmt, n=n)
        return io.BytesIO(data), {"image_type": "png"}, w, h, data
    p = bitmap_file(S, w, h, name % (n, kind), fmt, n)
    with open(p, "rb") as f:
        return p, {}, w, h, f.read()


class Drawn:
    """Where an image was drawn: three corners (origin, end of the top and of the left side)."""

    def __init__(self, o, x, y):
        self.o, self.x, self.y = o, x, y


def numbers(t):
    return [float(v) for v in t.replace(",", " ").split()]


def transforms(S, text):
    """[(name, [numbers])] of a transform attribute."""
    out = []
    for part in text.split(")"):
        part = part.strip()
        if part:
            name, args = part.split("(")
            out.append((name, numbers(args)))
    return out


def apply(S, ts, p):
    for name, v in reversed(ts):
        if name == "translate":
            p = (p[0] + v[0], p[1] + v[1])
        elif name == "scale":
            p = (p[0] * v[0], p[1] * v[-1])
        elif name == "rotate":
            s, c = S.sin_cos_deg(v[0])
            cx, cy = v[1:] if len(v) == 3 else (0, 0)
            dx, dy = p[0] - cx, p[1] - cy
            p = (cx + c * dx - s * dy, cy + s * dx + c * dy)
        else:
            S.fail("only rotations, translations and scaling")
    return p


def drawn_svg(S, page, iw, ih, data, ids=None):
    """Images of a page of the SVG backend (lists: sizes, data and numbers of several images)."""
    out = []
    many = (iw, ih, data, ids)
    for n in page.children:
        if isinstance(many[0], list) and n.tag in ("image", "g"):
            k = len(out)
            S.check(k < len(many[0]), "every image is drawn once")
            iw, ih, data, ids = [None if v is None else v[k] for v in many]
        if n.tag == "image":
            if data is not None:
                head, d = data_of(n.attrs["xlink:href"])
                S.check(d == data[1] and head == "data:image/%s;base64" % data[0], "the given image is drawn")
            x, y, w, h = [float(n.attrs[k]) for k in ("x", "y", "width", "height")]
            ts = transforms(S, n.attrs.get("transform", ""))
            out.append(Drawn(*[apply(S, ts, p) for p in ((x, y), (x + w, y), (x, y + h))]))
        elif n.tag == "g":
            inner = n.find_all("svg")
            S.check(len(inner) == 1 and len(inner[0].find_all("circle")) == 1, "the given image is drawn")
            if ids is not None:
                S.check(inner[0].find_all("circle")[0].attrs["id"].startswith("pic%d" % ids), "the given image is drawn")
            ts = transforms(S, n.attrs["transform"])
            out.append(Drawn(*[apply(S, ts, p) for p in ((0, 0), (iw, 0), (0, ih))]))
    return out


def drawn_cairo(S, ops, iw, ih, data, ids=None):
    out = []
    for o in ops:
        if o.kind == "svg":
            if ids is not None:
                S.check("pic%d" % ids in (o.svg.decode() if isinstance(o.svg, bytes) else o.svg), "the given image is drawn")
            w, h = o.size[:2]
            out.append([o.m.apply(*p) for p in ((0, 0), (w, 0), (0, h))])
        elif o.kind == "paint":
            _, surface, m, x, y = o.src
            S.check(surface.args[1] == iw and surface.args[2] == ih, "all pixels are drawn")
            sx, sy = surface.device_scale
            w, h = iw / sx, ih / sy
            out.append([m.apply(*p) for p in ((x, y), (x + w, y), (x, y + h))])
    return [Drawn(*[(p[0] / K, p[1] / K) for p in c]) for c in out]


def near(S, p, q):
    return S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1]))


def check_drawn(S, d, r, s, iw, ih, deg=None):
    """Drawn at scale s, centred in r, rotated about the centre."""
    w, h = iw * s, ih * s
    cx, cy = r.x + r.w / 2, r.y + r.h / 2

    def turn(p):
        if deg is None:
            return p
        si, co = S.sin_cos_deg(deg)
        dx, dy = p[0] - cx, p[1] - cy
        return (cx + co * dx - si * dy, cy + si * dx + co * dy)
    o = (cx - w / 2, cy - h / 2)
    S.check(near(S, d.o, turn(o)), "image is centred in its box")
    S.check(near(S, d.x, turn((o[0] + w, o[1]))), "image width keeps the scale")
    S.check(near(S, d.y, turn((o[0], o[1] + h))), "image height keeps the scale")


def expected_scale(S, r, iw, ih, scale):
    if scale is not None:
        return scale
    zw, zh = S.concrete(S.eq(r.w, 0)), S.concrete(S.eq(r.h, 0))
    if zw and zh:
        return 0
    if zw:
        return r.h / ih
    if zh:
        return r.w / iw
    return S.min(r.w / iw, r.h / ih)


def rect_of_mark(S, backend, page):
    if backend == "svg":
        return rects_by_fill(page)["red"]
    op = [o for o in page if o.kind == "fill" and o.src[1:4] == (1, 0, 0)]
    S.check(len(op) == 1, "marker")
    p = [(s[1][0] / K, s[1][1] / K) for s in op[0].path[0] if s[0] in "ML"]
    return R(p[0][0], p[0][1], p[1][0] - p[0][0], p[2][1] - p[1][1])


def show(S, deck, backend, n, iw, ih, data):
    if backend == "svg":
        page = render_pages(S, deck)[0]
        ds = drawn_svg(S, page, iw, ih, data)
    else:
        page = cairo_ops(deck)[0]
        ds = drawn_cairo(S, page, iw, ih, data)
    if n is not None:
        S.check(len(ds) == n, "every image is drawn once")
    return page, ds


def new_deck(S, backend):
    return make_deck(S) if backend == "svg" else cairo_deck(S)


def mime(kind, data):
    return None if data is None else ("jpeg" if kind == "jpeg" else "png", data)


def fit(S, kind, backend, scaled, box, rotated=False, unit=""):
    """Image in a box with a given (or partly given) size."""
    deck = new_deck(S, backend)
    src, kw, iw, ih, data = image_of(S, kind, unit)
    slide = deck.new_slide()
    b = {"x": S.real("x", -50, 500), "y": S.real("y", -50, 500)}
    lo = 0
    if box == "both":
        b["width"], b["height"] = S.real("bw", lo, 1000), S.real("bh", lo, 1000)
    elif box == "width":
        b["width"] = S.real("bw", lo, 1000)
    elif box == "height":
        b["height"] = S.real("bh", lo, 1000)
    elif box == "fill":
        b = {"width": "fill", "height": "fill"}
        outer = slide.box(x=0, y=0, width=S.real("bw", lo + 1, 1000), height=S.real("bh", lo + 1, 1000))
        slide = outer
    elif box == "percent":
        outer = slide.box(x=0, y=0, width=S.real("bw", lo + 1, 1000), height=S.real("bh", lo + 1, 1000))
        b["width"], b["height"] = "50%", "100%"
        slide = outer
    if box in ("both", "fill"):
        b["p_left"], b["p_top"] = S.real("pl", 0, 20), S.real("pt", 0, 20)
    target = mark(slide.box(**b), "red")
    scale = S.real("scale", 0.125, 8) if scaled else None
    deg = (S.real("deg", -360, 360) if rotated is True else rotated) if rotated else None
    if deg is not None:
        kw["rotation"] = deg
    target.image(src, scale=scale, **kw)
    page, ds = show(S, deck, backend, None, iw, ih, mime(kind, data))
    r = rect_of_mark(S, backend, page)
    S.assume(S.And(r.w >= 0, r.h >= 0))
    s = expected_scale(S, r, iw, ih, scale)
    if not ds and S.concrete(S.eq(s, 0)):
        return      # no picture is the same as one without area
    S.check(len(ds) == 1, "every image is drawn once")
    check_drawn(S, ds[0], r, s, iw, ih, deg)


def request(S, kind, scaled, given):
    """Space requested for an image."""
    deck = new_deck(S, "svg")
    src, kw, iw, ih, data = image_of(S, kind)
    slide = deck.new_slide()
    b = {}
    v = S.real("v", 1, 500)
    if given in ("width", "height"):
        b[given] = v
    pl, pr, pt, pb = [S.real(n, 0, 20) for n in ("pl", "pr", "pt", "pb")]
    target = slide.box(x=5, y=5, p_left=pl, p_right=pr, p_top=pt, p_bottom=pb, **b)
    scale = S.real("scale", 0.125, 8) if scaled else None
    mark(target, "red")
    target.image(src, scale=scale, **kw)
    page, ds = show(S, deck, "svg", 1, iw, ih, mime(kind, data))
    r = rects_by_fill(page)["red"]
    if given == "none":
        k = 1 if scale is None else scale
        S.check(S.And(S.eq(r.w, iw * k), S.eq(r.h, ih * k)), "box requests the size of the image")
        s = k
    else:
        inner = v - pl - pr if given == "width" else v - pt - pb
        S.assume(inner > 0)
        if given == "width":
            S.check(S.And(S.eq(r.w, inner), S.eq(r.h, inner * ih / iw)), "height follows from the width")
        else:
            S.check(S.And(S.eq(r.h, inner), S.eq(r.w, inner * iw / ih)), "width follows from the height")
        s = r.w / iw if scale is None else scale
    check_drawn(S, ds[0], r, s, iw, ih)


def nested(S, kind):
    """The requested space reaches the enclosing boxes."""
    deck = new_deck(S, "svg")
    src, kw, iw, ih, data = image_of(S, kind)
    slide = deck.new_slide()
    outer = slide.box(x=0, y=0, p_left=S.real("pl", 0, 20))
    mark(outer, "blue")
    a, c = S.real("a", 0, 300), S.real("c", 0, 300)
    outer.box(width=a, height=c)
    inner = outer.box()
    mark(inner, "red")
    inner.image(src, **kw)
    page, ds = show(S, deck, "svg", 1, iw, ih, mime(kind, data))
    rs = rects_by_fill(page)
    S.check(S.And(S.eq(rs["blue"].w, S.max(a, iw)), S.eq(rs["blue"].h, c + ih)), "enclosing box has room for the image")
    check_drawn(S, ds[0], rs["red"], 1, iw, ih)


def twice(S, k1, k2, same, where="", slides=2, backend="svg", equal=False):
    """Two images (or the same one twice) on two slides do not influence each other."""
    deck = new_deck(S, backend)
    src, kw, iw, ih, data = image_of(S, k1, n=0, where=where)
    if same:
        src2, kw2, iw2, ih2, data2 = src, kw, iw, ih, data
    else:
        src2, kw2, iw2, ih2, data2 = image_of(S, k2, n=1, where=where)
    if equal:
        S.assume(S.And(iw == iw2, ih == ih2))
    w1, h1, w2, h2 = [S.real(n, 1, 500) for n in ("bw1", "bh1", "bw2", "bh2")]
    s1 = deck.new_slide()
    b1 = mark(s1.box(x=0, y=0, width=w1, height=h1), "red")
    b1.image(src, **kw)
    s2 = deck.new_slide() if slides == 2 else s1
    b2 = mark(s2.box(x=10, y=0, width=w2, height=h2), "red" if slides == 2 else "blue")
    scale = S.real("scale", 0.125, 4)
    b2.image(src2, scale=scale, **kw2)
    k2 = k1 if same else k2
    if slides == 1:
        page = render_pages(S, deck)[0]
        ds = drawn_svg(S, page, [iw, iw2], [ih, ih2], [mime(k1, data), mime(k2, data2)], [0, 0 if same else 1])
        S.check(len(ds) == 2, "every image is drawn once")
        rs = rects_by_fill(page)
        check_drawn(S, ds[0], rs["red"], expected_scale(S, rs["red"], iw, ih, None), iw, ih)
        check_drawn(S, ds[1], rs["blue"], scale, iw2, ih2)
        return
    pages = render_pages(S, deck) if backend == "svg" else cairo_ops(deck)
    for page, kind, d, w, h, sc, no in ((pages[0], k1, data, iw, ih, None, 0), (pages[1], k2, data2, iw2, ih2, scale, 0 if same else 1)):
        ds = (drawn_svg if backend == "svg" else drawn_cairo)(S, page, w, h, mime(kind, d), no)
        S.check(len(ds) == 1, "every image is drawn once")
        r = rect_of_mark(S, backend, page)
        check_drawn(S, ds[0], r, expected_scale(S, r, w, h, sc), w, h)


def rejected(S):
    deck = new_deck(S, "svg")
    slide = deck.new_slide()
    ext = S.str("ext", 3, "svgpno")
    S.assume(S.And(ext != "svg", ext != "png"))
    S.check(S.raised(lambda: slide.image("/nonexistent/x." + ext)) is not None, "unknown extension is rejected")
    S.check(S.raised(lambda: slide.image(b"abc")) is not None, "image data need a type")
    S.check(S.raised(lambda: slide.image(b"abc", image_type="svg")) is not None, "SVG data are rejected")
    S.check(S.raised(lambda: slide.image("/nonexistent/x.svg", image_type=ext)) is not None, "unknown type is rejected")


_FITQ = [
    dict(kind="svg", backend="svg", scaled=False, box="both"), dict(kind="png", backend="svg", scaled=False, box="both"),
    dict(kind="svg", backend="svg", scaled=True, box="both"), dict(kind="png", backend="svg", scaled=True, box="both"),
    dict(kind="png", backend="cairo", scaled=False, box="both"), dict(kind="svg", backend="cairo", scaled=False, box="both"),
    dict(kind="svg", backend="svg", scaled=False, box="fill"), dict(kind="png", backend="svg", scaled=False, box="percent"),
    dict(kind="svg", backend="svg", scaled=False, box="width"), dict(kind="png", backend="svg", scaled=False, box="height"),
    dict(kind="bytes", backend="svg", scaled=False, box="both"), dict(kind="jpeg", backend="svg", scaled=False, box="both"),
    dict(kind="svg", backend="svg", scaled=False, box="both", rotated=True), dict(kind="png", backend="svg", scaled=True, box="both", rotated=True),
    dict(kind="png", backend="cairo", scaled=True, box="both", rotated=True),
    dict(kind="svg", backend="svg", scaled=False, box="both", unit="mm"),
    dict(kind="svg", backend="cairo", scaled=True, box="both", rotated=90), dict(kind="svg", backend="cairo", scaled=False, box="both", rotated=-180),
]
_FITT = product(kind=["svg", "png", "jpeg", "bytes", "stream"], backend=["svg", "cairo"], scaled=[False, True], box=["both", "width", "height", "fill", "percent"], rotated=[False, True]) + \
    product(kind=["svg"], backend=["svg", "cairo"], scaled=[False], box=["both"], unit=["px", "mm", "cm", "pt"])
_TW = [dict(k1="png", k2="png", same=False, where="dirs"), dict(k1="svg", k2="svg", same=False, where="long", slides=1), dict(k1="jpeg", k2="png", same=False, where="suffix"),
       dict(k1="bytes", k2="bytes", same=False, equal=True), dict(k1="png", k2="png", same=False, where="long", slides=1), dict(k1="svg", k2="svg", same=False, where="dirs", backend="cairo")]
HARNESSES = [
    H("fit", fit, _FITQ, _FITT, "SVG images of 1-99 units, bitmaps of 1-400 pixels, symbolic boxes, paddings, scales 1/8-8, rotation angles",
      "images without area and negative content areas excluded"),
    H("request", request, product(kind=["svg", "png"], scaled=[False, True], given=["none", "width", "height"]), bounds="symbolic image sizes, paddings, scales and given dimension"),
    H("nested", nested, product(kind=["svg", "png"]), bounds="image in a box in a box with a sibling"),
    H("twice", twice, [dict(k1="svg", k2="svg", same=True), dict(k1="png", k2="png", same=True), dict(k1="svg", k2="png", same=False), dict(k1="bytes", k2="stream", same=False)] + _TW,
      product(k1=["svg", "png", "bytes"], k2=["svg", "jpeg", "stream", "bytes"], same=[False]) + [dict(k1=k, k2=k, same=True) for k in ("svg", "png", "jpeg", "bytes")] + _TW + [dict(d, slides=1) for d in _TW if "backend" not in d],
      bounds="two images on two slides"),
    H("rejected", rejected, [{}], bounds="three-letter extensions"),
]
