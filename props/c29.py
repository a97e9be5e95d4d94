"""C29: pages of repeated renderings are the same."""
from symx.session import H, product
from envs.etfake import E, LABEL, svg_file, bitmap_file
from elsie import Arrow, TextStyle
from props.lib import make_deck, FakeShell, mark
from props.cairolib import cairo_deck


# ------------------------------------------------------------------- content
def k_fit(S, b, n):
    w, h = S.real("w%d" % n, 1, 500), S.real("h%d" % n, 1, 500)
    inner = b.box(width=w, height=h, p_left=S.real("p%d" % n, 0, 1))
    t = inner.text("ab ~tt{cd}\nef", scale_to_fit=True)
    t.line_box(1).rect(bg_color="red")
    t.inline_box("tt").rect(bg_color="green")


def k_fit2(S, b, n):
    row = b.box(horizontal=True, width="fill")
    row.box(width="fill", height="50%").text("x", scale_to_fit=True, rotation=S.real("rot%d" % n, 0, 90))
    row.fbox(show="2").box().text("y\nz", scale_to_fit=True).line_box(0).rect(color="blue")


def k_text(S, b, n):
    b.update_style("default", TextStyle(size=S.real("size%d" % n, 1, 80), align="left"))
    t = b.box(show="next+").text("ab ~emph{cd}\n~tt{ef}", rotation=S.real("rot%d" % n, 0, 90))
    x = t.inline_box("tt", p_left=3).rect(bg_color="green")
    b.box(x=t.line_box(0).x("50%"), y=0, width=5, height=5, show="next").rect()


def k_code(S, b, n):
    c = b.box().code("", "int ~#A{a};\n\nb", use_styles=True, line_numbers=True)
    c.line_box(0, n_lines=2).rect(bg_color="red")
    c.inline_box("#A").rect(bg_color="blue")


def k_shapes(S, b, n):
    a = b.box(width=S.real("w%d" % n, 1, 500), height="fill(2)")
    c = b.box(width="50%", height="fill", x="[30%]")
    p = a.p("50%", 10).add(S.real("dx%d" % n, -50, 50), 0)
    b.line([p, c.p(0, 0), c.mid_point()], start_arrow=Arrow(10), end_arrow=Arrow(S.real("ar%d" % n, 1, 30), stroke_width=2), color="red", stroke_width=3)
    b.path([("M", a.p(0, 0)), ("L", p), ("Q", c.p(1, 2), c.p("100%", 0))], end_arrow=Arrow(7), color="blue")
    pts = [a.p(0, 0), p, (3, 4)]
    b.polygon(pts, color="black", rotation=30)
    a.ellipse(color="green", rotation=S.real("rot%d" % n, 0, 90))
    c.rect(rx=3, ry=4, bg_color="#111111", stroke_dasharray="1 2")


def k_nested(S, b, n):
    o = b.overlay(show="1-2")
    o.box(width="fill", height=S.real("h%d" % n, 0, 500)).rect(bg_color="#010101")
    o.sbox(show="next").box(padding=S.real("p%d" % n, 0, 30)).rect(bg_color="#020202")
    r = b.fbox(horizontal=True, z_level=-1, show="last")
    r.box(width="fill(3)", height="30%").rect(bg_color="#030303")
    r.box(width="20%", height="fill").rect(bg_color="#040404")
    m = r.box(width=7, height=8, prepend=True)
    m.rect(bg_color="#050505")
    r.box(above=m).rect(bg_color="#060606")
    for i in range(3):
        b.box(x="[100%]", y=i, width=1, height=1, show="next+").rect(color="#00000%d" % i)


def k_svg(S, b, n):
    doc = E("svg", {"width": "40", "height": "20"}, E("g", {"id": "a", LABEL: "x **1"}, E("path", {"id": "b", LABEL: "y **2-3"})), E("rect", {"id": "c", LABEL: "**2+"}), "txt", E("use", {"id": "u", "href": "#b"}))
    p = svg_file(S, doc, "im%d.svg" % n)
    b.box(width=S.real("w%d" % n, 1, 300)).image(p)
    b.box().image(p, scale=S.real("s%d" % n, 0.5, 2), select_fragments=[2, None, 1], rotation=10)
    b.box(height=30).image(p, show_begin=2, fragments=False)


def k_bitmap(S, b, n):
    p = bitmap_file(S, S.int("bw%d" % n, 1, 50), 20, "im%d.png" % n, "PNG")
    b.box(width=S.real("w%d" % n, 1, 300)).image(p)
    b.box(show=2, width="fill", height="fill").image(p, rotation=S.real("rot%d" % n, 0, 90))


KINDS = {k[2:]: f for k, f in list(globals().items()) if k.startswith("k_")}


# ---------------------------------------------------------------- comparison
def same(S, a, b, label, seen=None):
    if isinstance(a, (str, bytes, bool, type(None))) or type(a).__name__ in ("SymStr", "SymBytes"):
        S.check((a is None) == (b is None) and a == b, label)
    elif isinstance(a, (list, tuple)):
        S.check(isinstance(b, (list, tuple)) and len(a) == len(b), label)
        for x, y in zip(a, b):
            same(S, x, y, label)
    elif isinstance(a, dict):
        S.check(isinstance(b, dict) and list(a) == list(b), label)
        for k in a:
            same(S, a[k], b[k], label)
    elif hasattr(a, "__dict__") and not hasattr(a, "numerator") and not hasattr(a, "real"):
        S.check(type(a).__name__ == type(b).__name__, label)
        for k in vars(a):
            if k not in ("surface", "ctx", "S"):
                same(S, vars(a)[k], vars(b)[k], label)
    elif hasattr(type(a), "__slots__") and type(a).__name__ not in ("SymReal", "SymInt", "SymBool", "Fraction"):
        for k in type(a).__slots__:
            same(S, getattr(a, k), getattr(b, k), label)
    else:
        S.check(S.eq(a, b), label)


def pages(S, deck, cairo, **kw):
    us = deck.render(output=None, return_units=True, prune_cache=False, save_cache=False, **kw)
    if cairo:
        return [u.ctx.surface.ops for u in us]
    return [u.get_svg() for u in us]


# ----------------------------------------------------------------- harnesses
def again(S, kinds, between, cairo=False, debug=False, view_box=None):
    """The same deck is rendered twice, with something else rendered in between."""
    deck = cairo_deck(S) if cairo else make_deck(S, shell=FakeShell(S, lo=0.125, hi=3000))
    slides = []
    for n, k in enumerate(kinds):
        b = deck.new_slide(debug_boxes=debug, view_box=tuple(view_box) if view_box else None)
        KINDS[k](S, b, n)
        slides.append(b.slide)
    first = pages(S, deck, cairo)
    steps = [s.steps() for s in slides]
    if between == "select":
        pages(S, deck, cairo, select_slides=[S.choice("pick", slides)])
    elif between == "swap":
        sw = pages(S, deck, cairo, select_slides=[slides[1], slides[0]])
        k = steps[0]
        same(S, sw, first[k:] + first[:k], "a selection renders the same pages")
    elif between == "grid":
        pages(S, deck, cairo, slides_per_page=(2, 1))
    elif between == "post":
        # content that does not change the layout is added and is drawn
        deck.render(output=None, return_units=True, prune_cache=True, save_cache=False)
    S.check([s.steps() for s in slides] == steps and len(first) == sum(steps), "rendering keeps the number of fragments")
    second = pages(S, deck, cairo)
    same(S, second, first, "repeated rendering yields the same pages")


def resume(S, kind, other, cairo=False):
    """Rendering in the middle of the construction of a deck does not change the final pages."""
    out = []
    cut = S.choice("cut", [0, 1])
    vals = {}

    class Same:
        """The same symbolic dimensions for both decks."""
        def __getattr__(self, n):
            f = getattr(S, n)
            if n not in ("real", "int"):
                return f

            def get(name, *a):
                if name not in vals:
                    vals[name] = f(name, *a)
                return vals[name]
            return get
    T = Same()
    shell = None if cairo else FakeShell(S, lo=0.125, hi=3000)
    for early in (False, True):
        deck = cairo_deck(S) if cairo else make_deck(S, shell=shell)
        b = deck.new_slide()
        x = b.box(width="fill", height="50%")
        y = b.box(width="50%", height="fill")
        KINDS[kind](T, x, 0)
        if early and cut == 0:
            pages(S, deck, cairo)
        KINDS[other](T, y, 1)
        b2 = deck.new_slide()
        if early and cut == 1:
            pages(S, deck, cairo)
        KINDS[kind](T, b2, 2)
        out.append(pages(S, deck, cairo))
    same(S, out[1], out[0], "earlier renderings do not influence later ones")


def order(S, kinds, cairo=False, debug=False):
    """Pages do not depend on the pages made before them."""
    deck = cairo_deck(S) if cairo else make_deck(S, shell=FakeShell(S, lo=0.125, hi=3000))
    slides = []
    for n, k in enumerate(kinds):
        b = deck.new_slide(debug_boxes=debug)
        KINDS[k](S, b, n)
        slides.append(b.slide)
    first = pages(S, deck, cairo)
    rev = []
    for s in reversed(slides):
        s.prepare()
        for step in range(s.steps(), 0, -1):
            u = s.make_render_unit(deck.backend, step, "pdf")
            rev.append(u.ctx.surface.ops if cairo else u.get_svg())
    same(S, rev[::-1], first, "pages do not depend on the pages made before them")


ALL = sorted(KINDS)
REP = [k for k in ALL if k != "bitmap"]
HARNESSES = [
    H("again", again, [dict(kinds=["fit", "svg"], between="swap"), dict(kinds=["fit2", "nested"], between="grid"), dict(kinds=["text", "bitmap"], between="select"), dict(kinds=["shapes", "code"], between="post"), dict(kinds=["nested"], between=None, debug=True),
                        dict(kinds=["fit", "fit2"], between="post"), dict(kinds=["svg", "shapes"], between="grid"), dict(kinds=["shapes"], between=None, view_box=(1, 2, 300, 400)),
                        dict(kinds=["shapes", "nested"], between="swap", cairo=True), dict(kinds=["fit"], between=None, cairo=True), dict(kinds=["svg"], between=None, cairo=True), dict(kinds=["text"], between="select", cairo=True)],
      product(kinds=[[a, c] for i, a in enumerate(ALL) for c in ALL[i + 1:]], between=["swap"]) + product(kinds=[[a, "fit"] for a in ALL], between=["grid", "select", "post"]) + product(kinds=[[a] for a in ALL], between=[None], debug=[True]) + product(kinds=[[a, "fit"] for a in ALL], between=["swap"], cairo=[True]),
      "decks of two slides with content of all kinds (dimensions, sizes, angles and measurements symbolic), rendered twice, with a partial, reordered, grouped or pruning rendering in between"),
    H("resume", resume, [dict(kind="fit", other="svg"), dict(kind="text", other="shapes"), dict(kind="nested", other="fit2"), dict(kind="svg", other="nested", cairo=True)],
      product(kind=REP, other=["fit", "svg", "nested"]) + product(kind=REP, other=["svg"], cairo=[True]),
      "decks rendered in the middle of their construction"),
    H("order", order, [dict(kinds=["nested", "svg"], debug=True), dict(kinds=["text", "fit2"], debug=True), dict(kinds=["bitmap", "nested"], cairo=True)],
      product(kinds=[[a] for a in ALL], debug=[True, False]) + product(kinds=[[a] for a in ALL], cairo=[True]),
      "pages made in the opposite order, also with debug boxes"),
]
