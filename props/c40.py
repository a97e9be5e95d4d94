"""C40: slide backgrounds."""
from symx.session import H
from props.lib import make_deck, render_pages, style_map, mark, R
from props.cairolib import cairo_deck, cairo_ops, to_page, subpaths

DECK, SLIDE = "#0000f0", "#0000f1"


def painted(S, deck, backend):
    """[(fill, R)] in paint order for every page."""
    out = []
    if backend == "svg":
        for page in render_pages(S, deck):
            out.append([
                (style_map(n.attrs["style"])["fill"],
                 R(float(n.attrs["x"]), float(n.attrs["y"]), float(n.attrs["width"]), float(n.attrs["height"])))
                for n in page.find_all("rect")])
    else:
        for ops in cairo_ops(deck):
            page = []
            for o in ops:
                if o.kind != "fill":
                    continue
                pts = [to_page(seg[-1]) for s in subpaths(o) for seg in s if seg[0] in "ML"]
                x, y = S.min(*[p[0] for p in pts]), S.min(*[p[1] for p in pts])
                r = R(x, y, S.max(*[p[0] for p in pts]) - x, S.max(*[p[1] for p in pts]) - y)
                page.append(("#0000%02x" % round(o.src[3] * 255), r))
            out.append(page)
    return out


def fill_slide(slide, z, sel, sizes, style, px):
    """The same content on every slide."""
    if style == "row":
        parent = slide.box(width="fill", height="80%", horizontal=True)
    elif style == "late":
        parent = slide
        slide.box(prepend=True, height=sizes[1], width=20)
    else:
        parent = slide
    mark(slide, "#000010")
    b = parent.box(width=sizes[0], height=sizes[1], z_level=z)
    mark(b, "#000011")
    c = parent.box(show=sel, height="fill" if style != "row" else 30, width="fill")
    mark(c, "#000012")
    d = slide.box(x=px, y=0, width="50%", height=40, prepend=(style == "late"))
    mark(d, "#000013")
    if style == "late":
        mark(d.overlay(), "#000014")


def background(S, backend, deck_bg, slide_bgs, style, how="new"):
    W, Hh = S.real("W", 100, 4000), S.real("H", 100, 4000)
    sel = S.int("sel", 1, 3)
    z = S.int("z", -999999, 999999)
    sizes = (S.real("w", 0, 90), S.real("h", 0, 90))
    px = S.real("px", -500, 500)

    def build(bgs, deck_colour):
        deck = (make_deck if backend == "svg" else cairo_deck)(S, width=W, height=Hh, **({} if deck_colour is None else {"bg_color": deck_colour}))
        for b in bgs:
            kw = {} if b is None else {"bg_color": b}
            if how == "new":
                fill_slide(deck.new_slide(**kw), z, sel, sizes, style, px)
            else:
                @deck.slide(**kw)
                def some(slide):
                    fill_slide(slide, z, sel, sizes, style, px)
        return painted(S, deck, backend)

    got = build(slide_bgs, deck_bg)
    plain = build([None] * len(slide_bgs), None)
    S.check(len(got) == len(plain), "a background adds no page")
    per = len(plain) // len(slide_bgs)
    for i, (g, p) in enumerate(zip(got, plain)):
        bg = slide_bgs[i // per] or deck_bg
        if bg:
            S.check(len(g) > 0 and g[0][0] == bg, "the colour of the slide, or else of the deck, is painted first")
            r = g[0][1]
            S.check(S.And(S.eq(r.x, 0), S.eq(r.y, 0), S.eq(r.w, W), S.eq(r.h, Hh)), "the background covers the page")
            g = g[1:]
        S.check([n for n, _ in g] == [n for n, _ in p], "everything else is painted as without a background")
        S.check(S.And(*[S.And(S.eq(a.x, b.x), S.eq(a.y, b.y), S.eq(a.w, b.w), S.eq(a.h, b.h)) for (_, a), (_, b) in zip(g, p)]),
                "a background moves nothing")


D, S_, N = DECK, SLIDE, None
_BG = [(N, (S_,)), (D, (N,)), (D, (S_,)), (N, (N, S_)), (D, (S_, N))]
_MORE = [(N, (S_, N)), (D, (N, S_)), (D, (N, S_, N)), (N, (S_, S_))]


def configs(bgs, styles, how=("new",)):
    return [dict(backend=b, deck_bg=d, slide_bgs=list(s), style=st, how=h)
            for b in ("svg", "cairo") for d, s in bgs for st in styles for h in how]


HARNESSES = [
    H("background", background,
      configs(_BG, ["col"], ["new", "decorator"]) + configs(_BG[:3], ["row", "late"]),
      configs(_MORE, ["col", "row", "late"], ["new", "decorator"]),
      "decks of 1-3 slides, page sides 100-4000, up to 5 boxes with sizes 0-90 and fills, one z-level -999999..999999, one fragment 1-3"),
]
