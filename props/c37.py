"""C37: text size requests, scale-to-fit and text placement."""
from symx.session import H, product
from elsie import TextStyle
from props.lib import make_deck, render_pages, rects_by_fill, mark, style_map, FakeShell
from props.c19 import transforms

FRAC = {"left": 0, "middle": 0.5, "right": 1}
ANCHOR = {"left": None, "middle": "middle", "right": "end"}


def dims(S, kind, full, name):
    """(box argument, size of the box or None if it follows from the text, minimum)"""
    if kind is None:
        return None, None
    if kind == "num":
        v = S.real(name, 1, 900)
        return v, v
    if kind == "half":
        return "50%", full / 2
    return "fill", full


def texts(page):
    return [n for n in page.iter() if n.tag == "text"]


def placed(S, n):
    """(x, y of the first baseline, scale, rotation) on the page."""
    ts = transforms(S, n.attrs.get("transform", ""))
    names = [t for t, _ in ts]
    S.check(names in ([], ["scale"], ["rotate"], ["rotate", "scale"]), "texts are only rotated and scaled")
    s, rot = 1, None
    for t, v in ts:
        if t == "scale":
            S.check(len(v) == 1, "uniform scale")
            s = v[0]
        else:
            rot = v
    return float(n.attrs["x"]) * s, float(n.attrs["y"]) * s, s, rot


def fit(S, w, h, fit, lines, align, pad, horizontal=False, rotate=False, pages=1, empty=False):
    """A text in a box with given or open dimensions and paddings."""
    deck = make_deck(S, shell=FakeShell(S, lo=0 if empty else 0.125, hi=3000))
    slide = deck.new_slide()
    W, HH = 800, 600
    parent = slide.box(x=50, y=70, width=W, height=HH, horizontal=horizontal)
    bw, fw = dims(S, w, W, "w")
    bh, fh = dims(S, h, HH, "h")
    p = [0, 0, 0, 0]
    if pad == "sym":
        p = [S.real(k, 0, 40) for k in ("pl", "pr", "pt", "pb")]
    kw = dict(p_left=p[0], p_right=p[1], p_top=p[2], p_bottom=p[3]) if pad else {}
    if pages > 1:
        kw["show"] = "1-%d" % pages
    box = parent.box(width=bw, height=bh, **kw)
    if fw is not None:
        S.assume(fw - p[0] - p[1] >= 0.125)
    if fh is not None:
        S.assume(fh - p[2] - p[3] >= 0.125)
    mark(box, "c")
    size, spacing = S.real("size", 1, 100), S.real("spacing", 0.5, 3)
    text = "x"
    n = 1
    for i in range(lines - 1):
        c = S.str("c%d" % i, 1, "y\n")
        if S.concrete(c == "\n"):
            n += 1
        text = text + c + "z"
    rot = S.real("rot", -360, 360) if rotate else None
    item = box.text(text, TextStyle(size=size, line_spacing=spacing, align=align), scale_to_fit=fit, **({"rotation": rot} if rotate else {}))
    out = render_pages(S, deck)
    S.check(len(out) == pages, "number of pages")
    tw = deck.test_shell.measured[0][2]
    th = n * size * spacing
    for page in out:
        r = rects_by_fill(page)["c"]
        # space requested by the text
        for axis, full, have, need, pp in ((0, fw, r.w, tw, p[0] + p[1]), (1, fh, r.h, th, p[2] + p[3])):
            if full is None:
                S.check(S.eq(have, need), "an open dimension follows the text")
            elif fit:
                S.check(S.eq(have, full - pp), "a given dimension is kept")
            else:
                S.check(S.eq(have, S.max(full - pp, need)), "a box is at least as large as its text")
        ts = texts(page)
        S.check(len(ts) == 1, "the text is drawn once")
        x, y, s, ro = placed(S, ts[0])
        if fit:
            if empty:
                S.assume(tw >= 0.125)
            S.check(S.And(S.le(s * tw, r.w), S.le(s * th, r.h)), "the text fits")
            S.check(S.Or(S.eq(s * tw, r.w), S.eq(s * th, r.h)), "the text fills its box")
        else:
            S.check(S.eq(s, 1), "unscaled text")
        S.check(S.eq(x, r.x + FRAC[align] * r.w), "text is anchored by its alignment")
        st = style_map(ts[0].attrs.get("style", ""))
        anchor = ts[0].attrs.get("text-anchor", st.get("text-anchor"))
        S.check(anchor == ANCHOR[align] or (anchor == "start" and align == "left"), "text anchor")
        S.check(S.eq(y, r.y + (r.h - s * th) / 2 + s * size), "text is centred vertically")
        S.check(S.eq(float(ts[0].attrs.get("font-size", 0) or 0), size), "font size")
        if rotate:
            if ro is None:
                S.check(S.eq(rot, 0), "rotation")
            else:
                S.check(S.And(S.eq(ro[0], rot), S.eq(ro[1], r.x + r.w / 2), S.eq(ro[2], r.y + r.h / 2)), "rotation about the centre of the box")
        else:
            S.check(ro is None, "rotation")


def several(S, fits):
    """Several texts in one box each get their own scale and position."""
    deck = make_deck(S, shell=FakeShell(S, lo=0.125, hi=3000))
    slide = deck.new_slide()
    W, HH = S.real("W", 1, 900), S.real("H", 1, 700)
    box = slide.box(x=10, y=20, width=W, height=HH)
    mark(box, "c")
    sizes = []
    for i, f in enumerate(fits):
        size = S.real("size%d" % i, 1, 100)
        sizes.append(size)
        box.text("text" + str(i), TextStyle(size=size, line_spacing=1.5), scale_to_fit=f)
    page = render_pages(S, deck)[0]
    r = rects_by_fill(page)["c"]
    tws = [m[2] for m in deck.test_shell.measured]
    rw, rh = W, HH
    for i, f in enumerate(fits):
        if not f:
            rw, rh = S.max(rw, tws[i]), S.max(rh, sizes[i] * 1.5)
    S.check(S.And(S.eq(r.w, rw), S.eq(r.h, rh)), "size of the box")
    ts = texts(page)
    S.check(len(ts) == len(fits), "all texts are drawn")
    for i, (n, f) in enumerate(zip(ts, fits)):
        x, y, s, _ = placed(S, n)
        th = sizes[i] * 1.5
        want = S.min(r.w / tws[i], r.h / th) if f else 1
        S.check(S.eq(s * tws[i], want * tws[i]), "scale of each text")
        S.check(S.eq(x, r.x + r.w / 2), "text is anchored by its alignment")
        S.check(S.eq(y, r.y + (r.h - s * th) / 2 + s * sizes[i]), "text is centred vertically")


def snippet(S, fit, numbers):
    """Code follows the same rules."""
    deck = make_deck(S, shell=FakeShell(S, lo=0.125, hi=3000))
    slide = deck.new_slide()
    W = S.real("W", 1, 900)
    box = slide.box(x=10, y=20, width=W)
    mark(box, "c")
    size = S.real("size", 1, 100)
    box.set_style("code", TextStyle(font="mono", align="left", size=size, line_spacing=1.25))
    box.code("", "a\nb\n\nc", scale_to_fit=fit, line_numbers=numbers)
    page = render_pages(S, deck)[0]
    r = rects_by_fill(page)["c"]
    tw, th = deck.test_shell.measured[0][2], 4 * size * 1.25
    S.check(S.eq(r.h, th), "an open dimension follows the text")
    S.check(S.eq(r.w, W if fit else S.max(W, tw)), "width of the box")
    x, y, s, _ = placed(S, texts(page)[0])
    S.check(S.eq(s * tw, S.min(r.w, tw) if fit else tw), "scale of the code")
    S.check(S.And(S.eq(x, r.x), S.eq(y, r.y + (r.h - s * th) / 2 + s * size)), "position of the code")


_SIZES = [None, "num", "half", "fill"]
HARNESSES = [
    H("fit", fit, [dict(w="num", h="num", fit=True, lines=3, align="middle", pad="sym"), dict(w="num", h=None, fit=True, lines=2, align="left", pad="sym"),
                   dict(w=None, h="num", fit=True, lines=2, align="right", pad=None), dict(w=None, h=None, fit=True, lines=2, align="middle", pad="sym"),
                   dict(w="fill", h="half", fit=True, lines=1, align="right", pad="sym"), dict(w="half", h="fill", fit=True, lines=1, align="left", pad=None, horizontal=True),
                   dict(w="num", h="num", fit=False, lines=3, align="left", pad="sym"), dict(w=None, h=None, fit=False, lines=3, align="right", pad="sym"),
                   dict(w="half", h="fill", fit=False, lines=1, align="middle", pad="sym"), dict(w="num", h="num", fit=True, lines=1, align="middle", pad=None, rotate=True),
                   dict(w=None, h="num", fit=False, lines=1, align="middle", pad="sym", rotate=True), dict(w="num", h="num", fit=True, lines=2, align="left", pad=None, pages=3),
                   dict(w="num", h="num", fit=True, lines=1, align="left", pad=None, empty=True)],
      product(w=_SIZES, h=_SIZES, fit=[True, False], lines=[3], align=["left", "middle", "right"], pad=["sym"], horizontal=[False, True]) +
      product(w=_SIZES, h=_SIZES, fit=[True, False], lines=[2], align=["left", "middle", "right"], pad=["sym"], rotate=[True]) +
      product(w=["num", None], h=["num", None], fit=[True, False], lines=[5], align=["middle"], pad=[None, "sym"], pages=[1, 3]),
      "text widths 1/8-3000, font sizes 1-100, line spacings 0.5-3, up to 5 lines", "content areas under 1/8 pixel"),
    H("several", several, [dict(fits=[True, False]), dict(fits=[True, True]), dict(fits=[False, True])], product(fits=[[a, b, c] for a in (True, False) for b in (True, False) for c in (True, False)]), "2-3 texts in a box"),
    H("snippet", snippet, product(fit=[True, False], numbers=[False]), product(fit=[True, False], numbers=[False, True]), "four lines of code"),
]
