"""C38: LaTeX snippets: what is compiled, how often, and where the picture is drawn."""
from symx.session import H, product
from envs import latexfake as lf
from envs.etfake import E
from elsie.ext.latex import latex
from props.lib import R, render_pages, rects_by_fill, mark
from props.c19 import new_deck, drawn_svg, drawn_cairo, check_drawn, rect_of_mark, show
from props.cairolib import cairo_ops

PT = 1.33333
DIG = "0123456789"


def size_of(S, name):
    d = S.str(name, 2, DIG)
    v = float(d)
    S.assume(v >= 1)
    return d, v * PT


def picture(w, h, n=0):
    """What pdf2svg makes of a page: glyphs used by references."""
    return E("svg", {"width": w + "pt", "height": h + "pt", "viewBox": "0 0 " + w + " " + h},
             E("defs", {}, E("g", {"id": "glyph0"}, E("path", {"d": "M%d" % n}))),
             E("use", {"xlink:href": "#glyph0"}), E("circle", {"id": "pic"}))


def place(S, backend, scaled, box, alone=True):
    """The picture is drawn at the given scale, centred, and its space is requested."""
    deck = new_deck(S, backend)
    w, iw = size_of(S, "w")
    h, ih = size_of(S, "h")
    lf.rec.answer = lambda text: picture(w, h)
    slide = deck.new_slide()
    b = {"x": S.real("x", -50, 500), "y": S.real("y", -50, 500)}
    full = [None, None]
    if box in ("both", "width"):
        b["width"] = full[0] = S.real("bw", 25, 1000)
    if box in ("both", "height"):
        b["height"] = full[1] = S.real("bh", 25, 1000)
    p = [0, 0, 0, 0]
    if box in ("both", "open"):
        p = [S.real(k, 0, 12) for k in ("pl", "pr", "pt", "pb")]
        b.update(p_left=p[0], p_right=p[1], p_top=p[2], p_bottom=p[3])
    scale = S.real("scale", 0.125, 8) if scaled else None
    if box == "small":
        b["width"] = b["height"] = S.real("outer", 1, 50)
        target = mark(slide.box(**b).box(**S.choice("over", [{"x": 0, "y": 0, "width": "fill"}, {"x": 0, "y": 0, "height": "100%"}])), "red")
    else:
        target = mark(slide.box(**b), "red")
    item = latex(target, "a", **({} if scale is None else {"scale": scale}))
    page, ds = show(S, deck, backend, 1, iw, ih, None)
    r = rect_of_mark(S, backend, page)
    s = 1 if scale is None else scale
    if box == "small":
        check_drawn(S, ds[0], r, s, iw, ih)
        return
    S.check(S.eq(r.w, S.max(full[0] - p[0] - p[1], iw * s) if full[0] is not None else iw * s), "the box has room for the width of the picture")
    S.check(S.eq(r.h, S.max(full[1] - p[2] - p[3], ih * s) if full[1] is not None else ih * s), "the box has room for the height of the picture")
    check_drawn(S, ds[0], r, s, iw, ih)


def source(S, n, header, tail):
    """The compiled document is header, snippet and tail."""
    deck = new_deck(S, "svg")
    seen = []

    def answer(text):
        seen.append(text)
        return picture("10", "10")
    lf.rec.answer = answer
    slide = deck.new_slide()

    def symbol(name):
        t = S.str(name, n, None)
        for c in t:
            S.assume(S.And(c >= " ", c < "\x7f"))
        return t
    text = symbol("text")
    kw = {}
    if header:
        kw["header"] = symbol("header")
    if tail:
        kw["tail"] = symbol("tail")
    latex(slide.box(), text, **kw)
    S.check(len(seen) == 1, "the snippet is compiled once")
    lines = seen[0].split("\n")
    if header:
        S.check(lines[0] == kw["header"], "the given header starts the document")
        S.check(lines[1] == text, "the snippet follows the header")
    if tail:
        S.check(lines[-1] == kw["tail"], "the given tail ends the document")
        S.check(lines[-2] == text, "the tail follows the snippet")
    if not header:
        k = [i for i, l in enumerate(lines) if l == "\\begin{document}"]
        S.check(len(k) == 1 and lines[k[0] + 1] == text, "the snippet is inside of the document")
        S.check(any(["\\documentclass" in l for l in lines[:k[0]]]), "the default header is a preamble")
    if not tail:
        S.check(lines[-1] == "\\end{document}" and lines[-2] == text, "the snippet is inside of the document")


def drawn(S, page):
    """Names of the glyphs of the pictures of a page; references stay inside."""
    out, ids = [], []
    for g in page.children:
        inner = g.find_all("svg")
        if not inner:
            continue
        S.check(len(inner) == 1, "one picture")
        mine = [n.attrs["id"] for n in inner[0].iter() if "id" in n.attrs]
        uses = inner[0].find_all("use")
        S.check(len(uses) == 1, "the picture is complete")
        t = [n for n in inner[0].iter() if n.attrs.get("id") == uses[0].attrs["xlink:href"][1:]]
        S.check(len(t) == 1, "references lead to the own glyphs")
        out.append(t[0].children[0].attrs["d"])
        ids.append(mine)
    return out, ids


def history(S, ntexts, steps, fails=False, reopen=False, frame=None):
    """Snippets are compiled once each; failures are reported and not kept."""
    deck = new_deck(S, "svg")
    cache_dir = deck.fs_cache.cache_dir
    texts = [(S.str("t%d" % i, 1, "xy{"), S.str("h%d" % i, 1, "ab") if frame == "header" else "h", S.str("e%d" % i, 1, "ab") if frame == "tail" else "e") for i in range(ntexts)]
    if frame == "body":
        texts = [(texts[i][0], S.str("h%d" % i, 1, "ab") + "\\begin{document}", "\\end{document}") for i in range(ntexts)]

    def same(a, b):
        return all([S.concrete(x == y) for x, y in zip(a, b)])
    bad = [False]
    model = []       # [text, number]

    def answer(text):
        for k, t in enumerate(texts):
            if text == t[1] + "\n" + t[0] + "\n" + t[2]:
                return None if bad[0] == "tex" else picture("10", "10", len(lf.rec.runs))
        S.fail("the snippet is compiled")
    lf.rec.answer = answer
    slide = deck.new_slide()
    want = []
    for s in range(steps):
        if reopen and S.choice("reopen%d" % s, [False, True]):
            from elsie import SlideDeck
            deck = SlideDeck(width=1000, height=700, backend=deck.backend, cache_dir=cache_dir, name_policy="ignore")
            slide, want = deck.new_slide(), []
        i = S.choice("i%d" % s, range(ntexts))
        bad[0] = S.choice("bad%d" % s, [False, "tex", "svg"]) if fails else False
        lf.rec.fail_svg = bad[0] == "svg"
        known = [m for m in model if same(m[0], texts[i])]
        before = len(lf.rec.runs)
        err = S.raised(latex, slide.box(width=20, height=20), texts[i][0], header=texts[i][1], tail=texts[i][2])
        ran = len(lf.rec.runs) - before
        if known:
            S.check(err is None and ran == 0, "a known snippet is not compiled again")
            want.append(known[0][1])
        elif bad[0]:
            S.check(err is not None and ran == 1, "failures are reported")
            S.check(("LOG OF THE RUN" if bad[0] == "tex" else "NO SVG") in str(err), "the message of the program is reported")
        else:
            S.check(err is None and ran == 1, "a new snippet is compiled once")
            model.append([texts[i], "M%d" % len(lf.rec.runs)])
            want.append("M%d" % len(lf.rec.runs))
    page = render_pages(S, deck)[0]
    got, ids = drawn(S, page)
    S.check(got == want, "every snippet shows its own picture")
    for a in range(len(want)):
        for b in range(a):
            if want[a] != want[b]:
                for x in ids[a]:
                    S.check(all([x != y for y in ids[b]]), "pictures of different snippets share no identifiers")


HARNESSES = [
    H("place", place, product(backend=["svg", "cairo"], scaled=[True, False], box=["both", "open"]) + product(backend=["svg", "cairo"], scaled=[True], box=["width", "height", "small"]), bounds="pictures of 1-99 pt, scales 1/8-8, boxes of 25-1000 pixels"),
    H("source", source, [dict(n=2, header=True, tail=True), dict(n=2, header=False, tail=False), dict(n=1, header=True, tail=False), dict(n=1, header=False, tail=True), dict(n=0, header=True, tail=True)], product(n=[0, 1, 3, 5], header=[True, False], tail=[True, False]), "snippets, headers and tails of up to 5 printable characters"),
    H("history", history, [dict(ntexts=2, steps=3), dict(ntexts=2, steps=3, fails=True), dict(ntexts=2, steps=2, fails=True, reopen=True), dict(ntexts=2, steps=3, frame="header"), dict(ntexts=2, steps=3, frame="tail"), dict(ntexts=2, steps=2, frame="body")],
      [dict(ntexts=3, steps=4), dict(ntexts=2, steps=4, frame="header"), dict(ntexts=3, steps=3, frame="tail"), dict(ntexts=2, steps=4, fails=True), dict(ntexts=2, steps=4, fails=True, reopen=True)], "up to 4 snippets, failures of either program, sessions reopened"),
]
