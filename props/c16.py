"""C16: text on the Cairo backend (layout text, attribute byte ranges, measured spans)."""
from symx.session import H, product
from elsie import TextStyle
from envs import cairofake as fake
from props.cairolib import cairo_deck, cairo_ops, subpaths, to_page
from props.c10 import spec
from props.c14 import effective
from props.c23 import rot

RGB = {"black": (0, 0, 0), "red": (255, 0, 0), "blue": (0, 0, 255), "green": (0, 128, 0), "#ff8000": (255, 128, 0)}
BLANK = "\u2800"


def fill(S, skeleton):
    """'?': letter or line break, '!': any character but controls and markup, '.': letter of 1 to 4 bytes"""
    pools = {"?": S.str("q", skeleton.count("?"), "x\n"),
             "!": S.str("w", skeleton.count("!"), None, exclude="~{}\n\r\u2800\u2028\u2029\u0085"),
             ".": S.str("d", skeleton.count("."), "aé€\U0001f600")}
    for c in pools["!"]:
        S.assume(c >= " ")
        S.assume(S.Or(c < "\ud800", c > "\udfff"))
    n = {k: 0 for k in pools}
    text = ""
    for c in skeleton:
        if c in pools:
            text = text + pools[c][n[c]]
            n[c] += 1
        else:
            text = text + c
    return text


def attributes_at(layout, a, b):
    """Attribute values in force for the bytes [a, b)."""
    out = {}
    rank = {}
    for i, at in enumerate(layout.attributes.attrs):
        end = at.end_index
        if at.start_index <= a and (end is None or b <= end):
            r = (at.start_index, i)
            if at.kind not in rank or rank[at.kind] < r:
                rank[at.kind] = r
                out[at.kind] = at.value
    return out


def check_attrs(S, got, eff, what):
    S.check(S.eq(got.get("size_absolute", -1), eff["size"] * 1024), "font size of " + what)
    S.check(got.get("family") == eff["font"], "font of " + what)
    S.check(got.get("weight") == (fake.Weight.BOLD if eff.get("bold") else fake.Weight.NORMAL), "weight of " + what)
    S.check(got.get("style") == (fake.Style.ITALIC if eff.get("italic") else fake.Style.NORMAL), "slant of " + what)
    col = got.get("foreground_color")
    want = RGB[eff["color"]]
    S.check(col is not None and all([abs(c - w * 257) <= 1 for c, w in zip(col, want)]), "colour of " + what)


def setup(S, skeleton, table, prio, align="left", args=None):
    deck = cairo_deck(S)
    box = deck.new_slide().box(x=30, y=40, width=600, height=500)
    styles = {}
    for nm, attrs in table.items():
        d = dict(attrs)
        d["priority"] = S.int("p_" + nm, -1, 2) if nm in prio else d.get("priority", 0)
        if d.get("size") == "?":
            d["size"] = S.real("size_" + nm, 1, 100)
        styles[nm] = d
        box.set_style(nm, TextStyle(**d))
    base = {"font": "serif", "size": S.real("size", 1, 100), "color": "black", "priority": S.int("p0", -1, 1) if "" in prio else 0}
    markup = fill(S, skeleton)
    style = TextStyle(line_spacing=S.real("spacing", 1, 2), align=align, **base)
    return deck, box, styles, base, markup, style


def check_layout(S, layout, out, names, styles, base, scale):
    """The layout shows the characters out = [(char, chain)]; returns the byte ranges of the characters."""
    lines = [[]]
    for c, chain in out:
        if c == "\n":
            lines.append([])
        else:
            lines[-1].append((c, chain))
    chars = list(layout.text)
    offs = [0]
    for c in chars:
        offs.append(offs[-1] + len(c.encode("utf8")))
    got = [[]]
    for i, c in enumerate(chars):
        if c == "\n":
            got.append([])
        else:
            got[-1].append(i)
    # (trailing line breaks may be dropped)
    while len(lines) > len(got) and not lines[-1]:
        lines.pop()
    S.check(len(got) >= len(lines), "all lines are shown")
    where = []
    for k, idx in enumerate(got):
        want = lines[k] if k < len(lines) else []
        if not want:
            S.check(k == len(got) - 1 or len(idx) >= 1, "empty lines keep their height")
            for i in idx:
                S.check(S.Or(chars[i] == BLANK, chars[i] == " "), "nothing visible on empty lines")
            continue
        S.check(len(idx) == len(want), "every line has exactly its characters")
        for i, (c, chain) in zip(idx, want):
            S.check(chars[i] == c, "characters are kept")
            a = attributes_at(layout, offs[i], offs[i + 1])
            check_attrs(S, a, effective(S, base, styles, names, chain), "every character")
            if scale is not None:
                S.check(S.eq(a.get("scale", 1), scale), "scale of every character")
            where.append((chain, i))
    return where


def text(S, skeleton, table, prio, align="left"):
    deck, box, styles, base, markup, style = setup(S, skeleton, table, prio, align)
    out, names, starts = spec(S, list(markup), "~", "{", "}")
    unknown = [n for n in names if not n.startswith("#") and n not in styles]
    try:
        box.text(markup, style)
        ops = cairo_ops(deck)[0]
    except Exception:
        S.check(len(unknown) > 0, "only unknown style names are rejected")
        return
    S.check(not unknown, "unknown style names are rejected")
    shown = [o for o in ops if o.kind == "layout"]
    S.check(len(shown) == 1, "the text is drawn once")
    layout = shown[0].layout
    check_layout(S, layout, out, names, styles, base, None)
    for at in layout.attributes.attrs:
        if at.kind == "scale":
            S.check(S.eq(at.value, 1), "unscaled text")
    S.check(layout.alignment == {"left": "left", "middle": "center", "right": "right"}[align], "alignment")
    S.check(S.eq(layout.width, S.max(600, layout.measure("lw", 1000)) * 1024), "the text spans the box")
    x, y = to_page(shown[0].at)
    S.check(S.eq(x, 30), "text starts at the left side of its box")
    n = len([1 for c, _ in out if c == "\n"])
    # trailing newlines are not counted
    k = len(out)
    while k > 0 and S.concrete(out[k - 1][0] == "\n"):
        k -= 1
    lines = 1 + len([1 for c, _ in out[:k] if S.concrete(c == "\n")])
    dropped = 1 + n - lines
    if dropped == 0:
        h = lines * style.size * style.line_spacing
        S.check(S.eq(y + layout.get_baseline() / 1024, 40 + (S.max(500, h) - h) / 2 + style.size), "baseline of the first line")


def lines(S, fit, w, h, view, align="left", default=False, n=2, turn=False):
    """Lines of one style: their distance, scale and place."""
    deck = cairo_deck(S)
    kw = {}
    if view:
        kw["view_box"] = tuple([S.real(k, lo, 2000) for k, lo in (("vx", -500), ("vy", -500), ("vw", 10), ("vh", 10))])
    slide = deck.new_slide(**kw)
    W = S.real("w", 1, 900) if w else None
    HH = S.real("h", 1, 700) if h else None
    box = slide.box(x=30, y=40, width=W, height=HH)
    size, spacing = S.real("size", 1, 100), S.real("spacing", 1, 2)
    style = TextStyle(size=size, line_spacing=spacing, align=align, font="mono")
    args = {"scale_to_fit": True} if fit else {}
    deg = None
    if turn:
        deg = args["rotation"] = S.real("deg", -360, 360)
    if default:
        box.update_style("default", style)
        box.text("x\ny\nz"[:2 * n - 1], **args)
    else:
        box.text("x\ny\nz"[:2 * n - 1], style, **args)
    ops = cairo_ops(deck)[0]
    shown = [o for o in ops if o.kind == "layout"]
    S.check(len(shown) == 1, "the text is drawn once")
    lay = shown[0].layout
    tw, th = lay.measure("lw", 1000), n * size * spacing
    S.assume(tw >= 0.125)
    rw, rh = W, HH
    if W is None:
        rw = tw
    elif not fit:
        rw = S.max(W, tw)
    if HH is None:
        rh = th
    elif not fit:
        rh = S.max(HH, th)
    s = S.min(rw / tw, rh / th) if fit else 1
    a = attributes_at(lay, 0, 1)
    S.check(S.eq(a.get("scale", 1), s), "scale of the text")
    S.check(S.eq(a.get("size_absolute", -1), size * 1024), "font size")
    S.check(S.eq(fake.line_advance(lay, "mono", size, s), size * spacing * s * 1024), "distance of the lines")
    S.check(S.eq(lay.width, rw * 1024), "the text spans its box")
    # the page is the view box
    if view:
        vx, vy, vw, vh = kw["view_box"]
        k = S.min(1000 / vw, 700 / vh)
        ox, oy = (1000 - vw * k) / 2 - vx * k, (700 - vh * k) / 2 - vy * k
    else:
        k, ox, oy = 1, 0, 0
    x, y = to_page(shown[0].at)
    by = 40 + (rh - s * th) / 2 + s * size
    mid = (30 + rw / 2, 40 + rh / 2)
    px, py = rot(S, mid, deg, (30, by - lay.get_baseline() / 1024))
    S.check(S.And(S.eq(x, ox + k * px), S.eq(y, oy + k * py)), "the text starts at the left side of its box, centred vertically")
    for v in ((1, 0), (0, 1)):
        gx, gy = to_page(shown[0].m.vec(*v))
        ex, ey = rot(S, (0, 0), deg, v)
        S.check(S.And(S.eq(gx, k * ex), S.eq(gy, k * ey)), "rotation of the text")


def span_bounds(S, out, names, target, nth):
    """(characters before the span on its line, its characters, the whole line) or None"""
    starts = {}
    for j, nm in enumerate(names):
        if nm == target:
            nth -= 1
            if nth == 0:
                return j
    return None


def inline(S, skeleton, table, target, nth=1, align="left"):
    """The measured box of a (single line) span."""
    deck, box, styles, base, markup, style = setup(S, skeleton, table, [], align)
    out, names, starts = spec(S, list(markup), "~", "{", "}")
    item = box.text(markup, style)
    before = len(fake.LAYOUTS)
    b = item.inline_box(target, nth)
    b.rect(bg_color="red")
    j = span_bounds(S, out, names, target, nth)
    lines = [[]]
    for c, chain in out:
        if S.concrete(c == "\n"):
            lines.append([])
        else:
            lines[-1].append((c, chain))
    no = [k for k, l in enumerate(lines) if any([j in ch for _, ch in l])][0]
    line = lines[no]
    pos = [i for i, (_, ch) in enumerate(line) if j in ch]
    S.check(len(fake.LAYOUTS) > before, "the span is measured")
    for lay in fake.LAYOUTS[before:]:
        check_layout(S, lay, line, names, styles, base, 1)
    lay = fake.LAYOUTS[before]
    w = lay.get_extents()[1].width / 1024
    x = sum([lay.char_width(i) for i in range(pos[0])])
    sw = sum([lay.char_width(i) for i in pos])
    ops = cairo_ops(deck)[0]
    fills = [o for o in ops if o.kind == "fill"]
    S.check(len(fills) == 1, "one marker")
    pts = [to_page(p[1]) for p in subpaths(fills[0])[0][:4]]
    frac = {"left": 0, "middle": 0.5, "right": 1}[align]
    wx = 30 + frac * (S.max(600, w) - w) + x
    S.check(S.eq(pts[0][0], wx), "left side of the span")
    S.check(S.eq(pts[1][0] - pts[0][0], sw), "width of the span")


T1 = {"a": dict(color="red", bold=True), "b": dict(size="?", bold=False), "c": dict(color="blue", italic=True, font="mono")}
T2 = {"a": dict(italic=True, color="#ff8000"), "b": dict(color="green", italic=False, size=7)}
_Q = [
    dict(skeleton="?~a{?~b{é~#m{?}?}y}€", table=T1, prio=[]),
    dict(skeleton="x~a{?~b{y~c{?}z}z?}w", table=T1, prio=["a", "b", "c"], align="middle"),
    dict(skeleton="~#m{x?}~a{?y}?~#n{~b{€}}z", table=T2, prio=["a", "b", ""]),
    dict(skeleton="x~a{!}!", table=T1, prio=["a"], align="right"),
    dict(skeleton="é~a{.~b{.}}.x", table=T1, prio=[]),
    dict(skeleton="x~a{y~q{?z}}", table=T1, prio=[]),
]
_T = _Q + [
    dict(skeleton="?~a{?~b{?~#m{?}?}?}?!", table=T1, prio=[]),
    dict(skeleton="x~a{?~b{y?~c{?}?}z?}w", table=T1, prio=["a", "b", "c"], align="middle"),
    dict(skeleton="?~#m{x?}~a{?y}?~#n{~b{?}}z", table=T2, prio=["a", "b", ""]),
    dict(skeleton="!~a{!}!", table=T1, prio=["a"], align="right"),
    dict(skeleton=".~a{.~b{.}.}x", table=T1, prio=[]),
    dict(skeleton="?~a{?~#m{?~b{y~c{?}?}z}?}x", table=T1, prio=["b"]),
    dict(skeleton="?~c{y~b{?~a{?~b{x}y}?}}x", table=T1, prio=["a", "b", "c", ""]),
    dict(skeleton="~a{?}~b{?}~#m{?~a{?}?}?~#k{?}x", table=T2, prio=["a", "b", ""]),
    dict(skeleton="x!~a{!~b{é}}!", table=T1, prio=[]),
    dict(skeleton="~a{.é~b{.}}€~c{.}", table=T1, prio=["a"]),
]
_QI = [
    dict(skeleton="é~a{.~b{.}€}x", table=T1, target="b"),
    dict(skeleton="x~a{.x}.", table=T1, target="a", align="middle"),
    dict(skeleton="x~#m{!}!", table=T1, target="#m", align="right"),
    dict(skeleton="é\n~a{x\n.~b{€}y~b{.}}\nz", table=T1, target="b", nth=2),
]
_TI = _QI + [
    dict(skeleton=".~a{.~b{.}.}.", table=T1, target="b"),
    dict(skeleton="x~a{.x}.", table=T1, target="a", align="middle"),
    dict(skeleton="!~#m{!}!", table=T1, target="#m", align="right"),
    dict(skeleton=".\n~a{x\n.~b{.}y~b{.}}\nz", table=T1, target="b", nth=2),
    dict(skeleton="é~a{.~b{x~c{.}€}.}.", table=T1, target="b", align="right"),
    dict(skeleton="!~a{!~#x{!}}!", table=T2, target="#x"),
    dict(skeleton="!~#{!}x", table=T2, target="#"),
    dict(skeleton="~b{é}~b{.}~b{.}~b{.}", table=T1, target="b", nth=3, align="middle"),
    dict(skeleton="x~a{.\n.~b{x\n.~c{.}}\n.}", table=T1, target="c"),
]
_QL = [
    dict(fit=False, w=False, h=False, view=False, align="right"),
    dict(fit=False, w=True, h=True, view=True, default=True),
    dict(fit=True, w=True, h=True, view=False, n=3),
    dict(fit=True, w=True, h=False, view=True, align="middle"),
    dict(fit=True, w=False, h=True, view=False, default=True, turn=True),
    dict(fit=False, w=True, h=True, view=True, turn=True),
]
_TL = product(fit=[True, False], w=[True, False], h=[True, False], view=[True, False], align=["left", "middle", "right"], default=[True, False], n=[2, 3], turn=[True, False])
HARNESSES = [
    H("text", text, _Q, _T, "listed markups; '?' a letter or line break, '!' any character, '.' a letter of 1 to 4 bytes; symbolic priorities, font sizes, spacing, baseline"),
    H("inline", inline, _QI, _TI, "listed markups with one measured non-empty span, symbolic character widths and line extents"),
    H("lines", lines, _QL, _TL, "2-3 lines of one style, symbolic size, spacing 1-2, box, view box; fonts of arbitrary ascent and descent that scale linearly", "lines that mix font sizes"),
]
