"""C29: any sequence of renderings of a deck, through the file system."""
import base64
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf
from elsie import SlideDeck
from elsie.render import jupyter
from elsie.render.backends.svg.backend import InkscapeBackend
from elsie.render.inkscape import InkscapeShell
from props.c29 import k_fit, k_fit2, k_text, k_code, k_nested


def k_shapes(S, b, n):
    """Shapes without rotations and arrow heads (decided in c29)."""
    a = b.box(width=S.real("w%d" % n, 1, 500), height="fill(2)")
    c = b.box(width="50%", height="fill", x="[30%]", show="next+")
    p = a.p("50%", 10).add(7, 0)
    b.line([p, c.p(0, 0), c.mid_point()], color="red", stroke_width=3)
    b.path([("M", a.p(0, 0)), ("L", p), ("Q", c.p(1, 2), c.p("100%", 0))], color="blue")
    b.polygon([a.p(0, 0), p, (3, 4)], color="black")
    a.ellipse(color="green")
    c.rect(rx=3, ry=4, bg_color="#111111", stroke_dasharray="1 2")


KINDS = dict(fit=k_fit, fit2=k_fit2, text=k_text, code=k_code, shapes=k_shapes, nested=k_nested)


class Const:
    """Dimensions of the content."""

    def real(self, name, lo, hi):
        return (lo + hi) * 3 / 8


class Shell(InkscapeShell):
    def __init__(self):
        self.version = "Inkscape 1.1"

    def get_width(self, svg, id):
        return 10.0 + len(svg) % 97

    def get_height(self, svg, id):
        return 5.0 + len(svg) % 31

    def get_x(self, svg, id):
        return 1.0 + len(svg) % 13

    def get_version(self):
        return self.version

    def close(self):
        pass

    def convert_to_pdf(self, source, target, type):
        with fs.fake_open(target, "wb") as f:
            f.write(type.encode() + b":" + source)


def build(kinds, d):
    if not fs.os.path.isdir(d):
        fs.os.makedirs(d)
    deck = SlideDeck(width=640, height=480, backend=InkscapeBackend(inkscape=Shell(), cache_dir=d), cache_dir=d, name_policy="ignore")
    slides = []
    for i, k in enumerate(kinds):
        b = deck.new_slide()
        KINDS[k](Const(), b, i)
        slides.append(b.slide)
    return deck, slides


def docs(units):
    return [u.get_svg() for u in units]


def content(type, data):
    head = type.encode() + b":"
    return data[len(head):].decode() if data.startswith(head) else None


OPS = ["units", "pdf", "unite", "png", "grid", "htmlsvg", "htmlpng", "swap", "new", "pdfgrid"]


def history(S, kinds, steps):
    base, bs = build(kinds, "/vfs/base")
    want = docs(base.render(output=None, return_units=True))
    k0 = bs[0].steps()
    base, bs = build(kinds, "/vfs/base2")
    wgrid = docs(base.render(output=None, return_units=True, slides_per_page=(2, 2)))
    deck, slides = build(kinds, "/vfs/cache")
    label = "repeated rendering yields the same pages"
    for i in range(steps):
        op = S.choice("op%d" % i, OPS)
        prune = S.choice("prune%d" % i, [True, False]) if op in ("pdf", "png", "units") else True
        if op == "units":
            S.check(docs(deck.render(output=None, return_units=True, prune_cache=prune)) == want, label)
        elif op in ("pdf", "unite", "pdfgrid"):
            deck.render(output="/vfs/out.pdf", prune_cache=prune, pdf_merger="pdfunite" if op == "unite" else "pypdf", slides_per_page=(2, 2) if op == "pdfgrid" else None)
            got = [content("pdf", c) for c in rf.rec.merged["/vfs/out.pdf"]]
            S.check(got == (wgrid if op == "pdfgrid" else want), label)
        elif op == "png":
            names = deck.render(export_type="png", prune_cache=prune)
            S.check([content("png", fs.st.files[n]) for n in names] == want, label)
        elif op == "grid":
            S.check(docs(deck.render(output=None, return_units=True, slides_per_page=(2, 2))) == wgrid, label)
        elif op == "htmlsvg":
            html = jupyter.render_slide_html(slides[0], "svg")
            pos = 0
            for w in want[:k0]:
                pos = html.find(w, pos)
                S.check(pos >= 0, label)
                pos += len(w)
            S.check(html.count("<svg") == sum([w.count("<svg") for w in want[:k0]]), label)
        elif op == "htmlpng":
            html = jupyter.render_slide_html(slides[1])
            got = ["".join(p.split('"')[0].split(",")[1].split()) for p in html.split('<img src="')[1:]]
            S.check([content("png", base64.b64decode(g)) for g in got] == want[k0:], label)
        elif op == "swap":
            S.check(docs(deck.render(output=None, return_units=True, select_slides=[slides[1], slides[0]])) == want[k0:] + want[:k0], label)
        else:
            deck, slides = build(kinds, "/vfs/cache")


HARNESSES = [
    H("history", history, product(kinds=[["fit", "text"]], steps=[3]) + product(kinds=[["nested", "fit2"], ["code", "shapes"]], steps=[2]),
      product(kinds=[["fit", "text"], ["nested", "fit2"], ["code", "shapes"], ["text", "fit2"]], steps=[4]),
      "all sequences of up to 4 renderings (units, merged documents, grids, PNG files, notebook output, selections, new sessions on the same cache, with and without pruning)"),
]
