"""C28: order and grouping of pages, from slides to the merged document."""
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf
from props.lib import FakeShell, R, style_map
from elsie import SlideDeck
from elsie.ext.export import export_pptx
from elsie.render.backends.svg.backend import InkscapeBackend

COLORS = ["#%02x0000" % i for i in range(1, 200)]


class Shell(FakeShell):
    """Writes a page file holding the document it was given."""

    def convert_to_pdf(self, source, target, type):
        with fs.fake_open(target, "wb") as f:
            f.write(source)


def build(S, items, dup=False, size=None):
    """Deck of slides with the given numbers of fragments and inserted PDFs ("pdf")."""
    fs.os.makedirs("/vfs/cache")
    W, Hh = size or (S.int("width", 1, 4000), S.int("height", 1, 4000))
    backend = InkscapeBackend(inkscape=Shell(S), cache_dir="/vfs/cache")
    deck = SlideDeck(width=W, height=Hh, backend=backend, cache_dir="/vfs/cache", name_policy="ignore")
    deck.W, deck.H = W, Hh
    pages = []          # per deck item: list of expected pages
    for i, k in enumerate(items):
        if k == "any":
            k = S.choice("item%d" % i, [1, 2, 3, "pdf"])
        if k == "pdf":
            name = "/vfs/in%d.pdf" % (0 if dup else i)
            fs.st.files[name] = b"<in>" + name.encode()
            deck.add_pdf(name)
            pages.append([name])
        else:
            b = deck.new_slide()
            mine = []
            for s in range(1, k + 1):
                c = COLORS[0] if dup else COLORS[10 * i + s]
                # visible in exactly one fragment
                b.box(x=0, y=0, width=1, height=1, show=str(s)).rect(bg_color=c)
                mine.append(c)
            pages.append(mine)
    return deck, pages


def fills(node):
    return [style_map(n.attrs["style"])["fill"] for n in node.find_all("rect")]


def cells(S, page, W, H):
    """[(x, y, colour)] of the slides on an SVG page."""
    inner = [n for n in page.children if n.tag in ("g", "svg")]
    if not inner:
        S.check(S.And(float(page.attrs["width"]) == W, float(page.attrs["height"]) == H), "size of the page")
        return [(0, 0, fills(page))]
    out = []
    for g in page.children:
        x = y = 0
        if g.tag == "g":
            t = g.attrs["transform"].strip()
            S.check(t.startswith("translate(") and t.endswith(")"), "cells are only moved")
            x, y = [float(v) for v in t[10:-1].replace(",", " ").split()]
            S.check(len(g.children) == 1, "one slide in each cell")
            g = g.children[0]
        S.check(g.tag == "svg", "one slide in each cell")
        x += float(g.attrs.get("x", "0"))
        y += float(g.attrs.get("y", "0"))
        S.check(S.And(float(g.attrs["width"]) == W, float(g.attrs["height"]) == H), "slides keep their size in the cells")
        out.append((x, y, fills(g)))
    return out


def check_pages(S, deck, docs, want, grid):
    """docs: list of ("svg", text) or ("pdf", name)."""
    cx, cy = grid if grid is not None else (1, 1)
    # expected pages
    layout = []
    cur = None
    for w in want:
        if w.startswith("/"):
            layout.append(w)
            cur = None
            continue
        if cur is None or S.concrete(len(cur) == cx * cy):
            cur = []
            layout.append(cur)
        cur.append(w)
    S.check(len(docs) == len(layout), "number of pages")
    for d, l in zip(docs, layout):
        if not isinstance(l, list):
            S.check(d == ("pdf", l), "inserted PDFs stay at their place")
            continue
        S.check(d[0] == "svg", "order of pages")
        page = S.xml(d[1])
        got = cells(S, page, deck.W, deck.H)
        S.check(S.And(float(page.attrs["width"]) == deck.W * cx, float(page.attrs["height"]) == deck.H * cy), "size of the page")
        S.check(len(got) == len(l), "slides on the page")
        for k, ((x, y, c), w) in enumerate(zip(got, l)):
            S.check(c == [w], "slides are in order, each exactly once")
            S.check(S.And(x == deck.W * (k % cx), y == deck.H * (k // cx)), "slides are placed row by row")


def choose(S, deck, pages, pick):
    """Selected slides and the pages expected from them."""
    if pick is None:
        return None, [p for q in pages for p in q]
    left = list(range(len(pages)))
    order = []
    for i in range(pick):
        j = S.choice("slide%d" % i, left)
        left.remove(j)
        order.append(j)
    return [deck._slides[j] for j in order], [p for j in order for p in pages[j]]


def units(S, items, grid=None, pick=None, gmax=4, post=False):
    """Rendering into render units."""
    deck, pages = build(S, items)
    sel, want = choose(S, deck, pages, pick)
    g = None
    if grid == "any":
        g = (S.int("cx", 1, gmax), S.int("cy", 1, gmax))
    elif grid:
        g = grid
    seen = []
    us = deck.render(output=None, return_units=True, select_slides=sel, slides_per_page=g, save_cache=False, prune_cache=False, slide_postprocessing=(lambda bs: seen.append(list(bs))) if post else None)
    if post:
        roots = [p.box() for p in (sel if sel is not None else deck._slides) if hasattr(p, "max_step")]
        S.check(len(seen) == 1 and len(seen[0]) == len(roots), "postprocessing gets the root box of each rendered slide")
        for b, r in zip(seen[0], roots):
            S.check(b.slide is r.slide, "postprocessing gets the root boxes in the order of the slides")
    docs = []
    for u in us:
        svg = u.get_svg()
        docs.append(("svg", svg) if svg is not None else ("pdf", u.filename))
    check_pages(S, deck, docs, want, g)


def merged(S, items, merger="pypdf", grid=None, pick=None, dup=False, again=False):
    """Rendering into the final document."""
    deck, pages = build(S, items, dup, size=(640, 480))
    sel, want = choose(S, deck, pages, pick)
    if again:
        deck.render(output="/vfs/first.pdf", pdf_merger="pypdf", select_slides=sel)
    deck.render(output="/vfs/out.pdf", pdf_merger=merger, select_slides=sel, slides_per_page=grid)
    S.check("/vfs/out.pdf" in rf.rec.merged, "the document is written")
    docs = []
    for name, c in zip(rf.rec.inputs["/vfs/out.pdf"], rf.rec.merged["/vfs/out.pdf"]):
        if name.startswith("/vfs/in"):
            S.check(c == fs.st.files[name], "inserted PDFs are handed over unchanged")
            docs.append(("pdf", name))
        else:
            docs.append(("svg", c.decode()))
    check_pages(S, deck, docs, want, grid)


def files(S, items, pick=None, etype="png", prune=True, twice=False):
    """Formats that are not merged: the files are returned in order."""
    deck, pages = build(S, items, size=(640, 480))
    sel, want = choose(S, deck, pages, pick)
    for i in range(1 + twice):
        out = deck.render(export_type=etype, pdf_merger=None if etype == "pdf" else "pypdf", select_slides=sel, prune_cache=prune)
    docs = []
    for name in out:
        S.check(name in fs.st.files, "returned files exist")
        if name.startswith("/vfs/in"):
            docs.append(("pdf", name))
        else:
            docs.append(("svg", fs.st.files[name].decode()))
    check_pages(S, deck, docs, want, None)


def pptx(S, items, pick=None):
    """PowerPoint export."""
    deck, pages = build(S, items, size=(640, 480))
    sel, want = choose(S, deck, pages, pick)
    lay = S.choice("layouts", [["Title", "Blank", "Other"], ["Blank"], ["A", "B"]])
    rf.pptx.layouts = lay
    err = S.raised(export_pptx, deck, "/vfs/out.pptx", **({} if sel is None else {"select_slides": sel}))
    if "Blank" not in lay:
        S.check(err is not None and "/vfs/out.pptx" not in rf.pptx.saved, "a missing layout is reported")
        return
    S.check(err is None and list(rf.pptx.saved) == ["/vfs/out.pptx"], "the presentation is written")
    slides = rf.pptx.saved["/vfs/out.pptx"]
    S.check(len(slides) == len(want), "one slide for each page")
    for (layout, pics), c in zip(slides, want):
        S.check(layout == "Blank" and len(pics) == 1, "each slide has one picture and nothing else")
        data, x, y, w, h = pics[0]
        S.check((x, y, w, h) == (0, 0, rf.pptx.width, rf.pptx.height), "the picture covers the slide")
        S.check(fills(S.xml(data.decode())) == [c], "slides are in order, each exactly once")


P, A = "pdf", "any"
HARNESSES = [
    H("units", units, [dict(items=[A, A, A], grid="any", gmax=3), dict(items=[2, 1, P, 2], grid="any", gmax=3), dict(items=[P, 3, P], grid="any", gmax=3), dict(items=[A, A, 1, P], pick=2), dict(items=[A, 2, A], pick=2, grid="any", gmax=2),
                        dict(items=[A, A, A, A]), dict(items=[A, P, A], post=True), dict(items=[1, P, 2], post=True, pick=2), dict(items=[A], grid="any", gmax=3), dict(items=[1, P], grid="any", gmax=2), dict(items=[1] * 10, grid="any", gmax=4), dict(items=[1] * 7, grid="any", gmax=6)],
      [dict(items=[A, A, P, 2, A], grid="any", gmax=4), dict(items=[P, A, P, A, 4], grid="any", gmax=4), dict(items=[A, A, 1, A], pick=4, grid="any", gmax=3), dict(items=[1] * 18, grid="any", gmax=5), dict(items=[A, P] * 4, grid="any", gmax=3), dict(items=[A, P, A, A], post=True, pick=3)],
      "decks of up to 18 slides and inserted PDFs with up to 4 fragments, any subset in any order up to 4 slides, any grid up to 5x5, slide sizes 1-4000"),
    H("merged", merged, [dict(items=[A, A, A]), dict(items=[A, A, A], merger="pdfunite", pick=2), dict(items=[A, A, A], grid=(2, 1)), dict(items=[A, A], dup=True), dict(items=[A, A, A], dup=True, merger="pdfunite"), dict(items=[2, A, 1], again=True), dict(items=[A, A, 1], merger="pdfunite", grid=(1, 2))],
      [dict(items=[A, P, A, A], pick=4), dict(items=[A, P, A, A], merger="pdfunite", pick=3), dict(items=[A, P, A, 3], grid=(2, 1), pick=4), dict(items=[A, P, A, A], grid=(2, 2), pick=4, merger="pdfunite", again=True), dict(items=[A, A, A], dup=True, grid=(2, 1), again=True)],
      "the document handed to the merger libraries (replaced by recorders)"),
    H("files", files, [dict(items=[2, 1, 1], pick=2), dict(items=[A, A, A], etype="pdf"), dict(items=[2, 1], twice=True), dict(items=[2, 1], prune=False)],
      [dict(items=[2, 1, 3], pick=3), dict(items=[A, P, A, A], etype="pdf", pick=3, twice=True), dict(items=[3, 2], pick=2, twice=True)],
      "export without merging"),
    H("pptx", pptx, [dict(items=[2, 1, 3]), dict(items=[2, 1, 2], pick=2)], [dict(items=[3, 1, 2, 1], pick=4)], "export of up to 4 slides to PowerPoint (library replaced by a recorder)"),
]
