"""C12: line boxes and inline boxes."""
from symx.session import H, product
from elsie import TextStyle
from props.lib import make_deck, render_pages, rects_by_fill, mark, style_map, FakeShell
from props.c10 import spec

FILL = {"a": "red", "b": "blue"}


def scene(S, text, scaled, align, sym):
    """A text in a box: (deck, item, geometry)."""
    deck = make_deck(S)
    slide = deck.new_slide()
    if sym == "geo":
        x, y = S.real("x", -100, 500), S.real("y", -100, 500)
        w, h = S.real("w", 1, 1000), S.real("h", 1, 1000)
        size, spacing = 20, 1.5
    else:
        x, y, w, h = 10, 20, 300, 400
        size, spacing = S.real("size", 1, 200), S.real("spacing", 1, 3)
    box = slide.box(x=x, y=y, width=w, height=h)
    mark(box, "outer")
    box.set_style("a", TextStyle(color="red"))
    box.set_style("b", TextStyle(color="blue"))
    style = TextStyle(size=size, line_spacing=spacing, align=align)
    item = box.text(text, style, scale_to_fit=scaled)
    return deck, box, item, size * spacing


def layout(S, deck, r, lh, nlines, scaled):
    """(scale, top of the text) of the text inside the final rectangle r."""
    tw = deck.test_shell.measured[0][2]
    th = lh * nlines
    scale = 1
    if scaled:
        if tw > 0.00001 and th > 0.00001:
            scale = S.min(r.w / tw, r.h / th)
    return scale, r.y + (r.h - th * scale) / 2


def lines(S, n, scaled, align, sym):
    text = S.str("t", 5, "x\n") + "x"
    deck, box, item, lh = scene(S, text, scaled, align, sym)
    nlines = 1 + len([c for c in text if c == "\n"])
    i = S.choice("line", range(0, nlines))
    k = S.choice("count", range(1, nlines - i + 2))
    mark(item.line_box(i, k), "lb")
    mark(item.line_box(i), "one")
    rects = rects_by_fill(render_pages(S, deck)[0])
    scale, top = layout(S, deck, rects["outer"], lh, nlines, scaled)
    for name, count in (("lb", k), ("one", 1)):
        r = rects[name]
        S.check(S.eq(r.y, top + lh * scale * i), "line box starts at the top of its line")
        S.check(S.And(S.le(lh * scale * count, r.h), S.le(r.h, lh * scale * count + 2)), "line box covers the requested lines")
        S.check(S.And(S.eq(r.x, rects["outer"].x), S.eq(r.w, rects["outer"].w)), "line box is as wide as the text box")




def target_path(page):
    """Elements from the text element down to the measured one."""
    found = []

    def walk(n, path):
        path = path + [n]
        if n.attrs.get("id", None) == "target":
            found.append(path)
        for c in n.children:
            walk(c, path)
    walk(page, [])
    return found


def fills(path):
    out = []
    for n in path:
        if n.tag == "tspan":
            f = style_map(n.attrs.get("style", "")).get("fill")
            if f in ("red", "blue"):
                out.append(f)
    return out


def inline(S, skeleton, scaled, align, sym):
    """skeleton: '?' is a letter or a line break."""
    q = S.str("t", skeleton.count("?"), "a\n")
    text = ""
    k = 0
    for c in skeleton:
        if c == "?":
            text = text + q[k]
            k += 1
        else:
            text = text + c
    out, names, starts = spec(S, list(text), "~", "{", "}")
    # last line break characters are dropped by the parser
    while out and out[-1][0] == "\n":
        out.pop()
    deck, box, item, lh = scene(S, text, scaled, align, sym)
    nlines = 1 + len([1 for c, _ in out if c == "\n"])
    style = S.choice("style", ["a", "b"])
    which = [j for j, nm in enumerate(names) if nm == style]
    nth = S.choice("nth", range(1, len(which) + 2))
    n0 = len(deck.test_shell.measured)
    if nth > len(which):
        S.check(S.raised(item.inline_box, style, nth) is not None, "missing span is rejected")
        return
    S.check(S.raised(item.inline_box, style, 0) is not None, "occurrences are counted from 1")
    ib = item.inline_box(style, nth) if nth > 1 else item.inline_box(style)
    mark(ib, "ib")
    rects = rects_by_fill(render_pages(S, deck)[0])
    scale, top = layout(S, deck, rects["outer"], lh, nlines, scaled)
    j = which[nth - 1]
    # position of the command: line number and characters of this line
    first = [p for p, (c, st) in enumerate(out) if j in st]
    if not first:
        S.assume(False)
    p = first[0]
    if out[p][0] == "\n":
        S.assume(False)  # the span starts with a line break
    line = len([1 for c, _ in out[:p] if c == "\n"])
    a = p
    while a > 0 and not (out[a - 1][0] == "\n"):
        a -= 1
    b = p
    while b < len(out) and not (out[b][0] == "\n"):
        b += 1
    whole = out[a:b]
    r = rects["ib"]
    S.check(S.eq(r.y, top + lh * scale * line), "inline box is on the line of its span")
    S.check(S.And(S.le(lh * scale, r.h), S.le(r.h, lh * scale + 2)), "inline box is one line high")
    used = {}
    for kind, svg, v in deck.test_shell.measured:
        page = S.xml(svg)
        path = target_path(page)
        S.check(len(path) == 1, "one measured element")
        if path[0][-1].tag != "tspan":
            continue
        t = path[0][-1].text()
        if kind == "x" or kind == "w":
            S.check(page.text() == "".join([c for c, _ in whole]), "the line of the span is measured")
            S.check(t == "".join([c for c, st in whole if j in st]), "the requested span is measured")
            S.check(fills(path[0]) == [FILL[names[s]] for s in out[p][1] if s <= j], "measured in the context of the open styles")
            used[kind] = v
    S.check(sorted(used) == ["w", "x"], "offset and width of the span are measured")
    o = rects["outer"]
    anchor = {"left": o.x, "middle": o.x + o.w / 2, "right": o.x + o.w}[align]
    S.check(S.eq(r.x, anchor + used["x"] * scale), "inline box starts at the measured offset")
    S.check(S.eq(r.w, used["w"] * scale), "inline box has the measured width")


_SK = ["?~a{x?}?~b{y?~a{?z}}?x", "x?~b{?y?~a{?}?}?~a{w}", "~a{?x~b{?}~a{?}}?~b{q}", "~a{~b{?x?y}z}~a{w}"]


def args(S, kind):
    """Arguments given for the box are used instead of the computed ones."""
    deck, box, item, lh = scene(S, "a~a{b}\nx~a{c}", False, "left", "geo")

    def make(**kw):
        return item.line_box(1, **kw) if kind == "line" else item.inline_box("a", 2, **kw)

    mark(make(), "plain")
    v = S.real("v", 1, 99)
    mark(make(x=v), "x")
    mark(make(y=v), "y")
    mark(make(width=v), "w")
    mark(make(height=v), "h")
    mark(make(z_level=-1), "z")
    mark(make(show="2"), "s")
    ps = [rects_by_fill(p) for p in render_pages(S, deck)]
    S.check(len(ps) == 2 and "s" in ps[1] and "s" not in ps[0], "fragments of the box")
    S.check(list(ps[0])[0] == "z", "z-level of the box")
    a = ps[0]["plain"]
    o = ps[0]["outer"]
    want = {"plain": (a.x, a.y, a.w, a.h), "x": (o.x + v, a.y, a.w, a.h), "y": (a.x, o.y + v, a.w, a.h),
            "w": (a.x, a.y, v, a.h), "h": (a.x, a.y, a.w, v), "z": (a.x, a.y, a.w, a.h)}
    for k, (x, y, w, h) in want.items():
        r = ps[0][k]
        S.check(S.And(S.eq(r.x, x), S.eq(r.y, y), S.eq(r.w, w), S.eq(r.h, h)), "given arguments replace the computed ones")


HARNESSES = [
    H("args", args, product(kind=["line", "inline"]), bounds="symbolic geometry; each argument given on its own"),
    H("lines", lines, product(n=[0], scaled=[False, True], align=["left", "middle"], sym=["geo", "font"]), bounds="texts of 1-6 lines; symbolic geometry of the box and measured width, or symbolic font size and line spacing; any line and count"),
    H("inline", inline, [dict(skeleton=_SK[0], scaled=False, align="middle", sym="geo"), dict(skeleton=_SK[1], scaled=True, align="left", sym="geo"), dict(skeleton=_SK[2], scaled=False, align="right", sym="font"), dict(skeleton=_SK[3], scaled=True, align="middle", sym="font")],
      product(skeleton=_SK, scaled=[False, True], align=["left", "middle", "right"], sym=["geo", "font"]),
      bounds="the listed texts with every choice of letter or line break in 4-6 places, every span of two styles, symbolic geometry and measurements"),
]
