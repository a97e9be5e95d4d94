"""C03: box sizes (requests, content minimum, paddings)."""
from symx.session import H, product
from props.lib import make_deck, render_pages, rects_by_fill, mark


class T:
    """A box of the tree with the reference size of each axis."""

    def __init__(self, S, name, box, horizontal, request, pads, kids=()):
        self.S, self.name, self.box = S, name, box
        self.horizontal, self.request, self.pads = horizontal, request, pads
        self.kids = list(kids)
        self.managed = True
        self.text = None  # (width, height) of a text item

    def pad(self, axis):
        return self.pads[0] + self.pads[1] if axis == 0 else self.pads[2] + self.pads[3]

    def minimum(self, axis):
        """Smallest outer size along the axis."""
        S = self.S
        kids = [k for k in self.kids if k.managed]
        inner = 0
        if kids:
            ms = [k.minimum(axis) for k in kids]
            if (axis == 0) == self.horizontal:
                for m in ms:
                    inner = inner + m
            else:
                inner = ms[0]
                for m in ms[1:]:
                    inner = S.max(inner, m)
        r = inner + self.pad(axis)
        if self.text is not None:
            r = S.max(r, self.text[axis] + self.pad(axis))
        k, v = self.request[axis]
        if k == "n":
            r = S.max(r, v)
        return r

    def expected(self, axis, parent_inner):
        k, v = self.request[axis]
        if k == "p":
            return self.S.max(self.minimum(axis), parent_inner * v / 100)
        return self.minimum(axis)


def request(S, name, kind):
    """(argument, (kind, value)) of a size request."""
    if kind == "n":
        v = S.real(name, 0)
        return v, ("n", v)
    if kind == "p":
        t = S.str(name, 2, "0123456789")
        return t + "%", ("p", int(t))
    if kind == "z":
        return 0, ("d", None)
    return None, ("d", None)


def build(S, parent, name, spec, path=""):
    """spec: dict(h=horizontal, w=kind, ht=kind, pads=kind, kids=[...], text=bool, x=bool)"""
    wa, wr = request(S, name + ".w", spec.get("w", "d"))
    ha, hr = request(S, name + ".h", spec.get("ht", "d"))
    kw, pads = paddings(S, name, spec.get("pads", "none"))
    if spec.get("x"):
        kw["x"] = 3
        kw["y"] = 5
    b = parent.box(width=wa, height=ha, horizontal=spec.get("h", False), **kw)
    mark(b, name)
    t = T(S, name, b, spec.get("h", False), (wr, hr), pads)
    if spec.get("x"):
        t.managed = False
    if spec.get("text"):
        size = S.real(name + ".size", 1, 100)
        sp = S.real(name + ".spacing", 0, 3)
        from elsie import TextStyle
        n0 = len(S.shell.measured)
        b.text("ab" if spec["text"] == 1 else "ab\ncd\n\ne", TextStyle(size=size, line_spacing=sp))
        lines = 1 if spec["text"] == 1 else 4
        t.text = (S.shell.measured[n0][2], size * lines * sp)
        S.check(len(S.shell.measured) == n0 + 1, "the text is measured once")
    for i, k in enumerate(spec.get("kids", [])):
        t.kids.append(build(S, b, name + "k%d" % i, k))
    return t


def paddings(S, name, kind):
    """All ways of giving paddings; returns the arguments and the four resulting values."""
    kw = {}
    if kind == "none":
        return kw, (0, 0, 0, 0)
    if kind == "all":
        for p in ("p_left", "p_right", "p_top", "p_bottom"):
            kw[p] = S.real(name + "." + p, 0)
        return kw, tuple(kw[p] for p in ("p_left", "p_right", "p_top", "p_bottom"))
    given = kind.split("+")
    for g in given:
        kw[g] = S.real(name + "." + g, 0)
    out = []
    for side, ax in (("p_left", "p_x"), ("p_right", "p_x"), ("p_top", "p_y"), ("p_bottom", "p_y")):
        for c in (side, ax, "padding"):
            if c in kw:
                out.append(kw[c])
                break
        else:
            out.append(0)
    return kw, tuple(out)


def verify(S, t, rs, inner):
    r = rs[t.name]
    pl, pr, pt, pb = t.pads
    S.check(S.eq(r.w + pl + pr, t.expected(0, inner[0])), "width is max(request, content) plus paddings")
    S.check(S.eq(r.h + pt + pb, t.expected(1, inner[1])), "height is max(request, content) plus paddings")
    for k in t.kids:
        verify(S, k, rs, (r.w, r.h))


def sizes(S, spec):
    deck = make_deck(S)
    S.shell = deck.test_shell
    slide = deck.new_slide()
    root = slide.box(x=0, y=0, width=S.real("rw", 0), height=S.real("rh", 0))
    mark(root, "root")
    t = build(S, root, "b", spec)
    rs = rects_by_fill(render_pages(S, deck)[0])
    verify(S, t, rs, (rs["root"].w, rs["root"].h))


def padding_forms(S, kind):
    deck = make_deck(S)
    slide = deck.new_slide()
    root = slide.box(x=0, y=0, width=400, height=300)
    mark(root, "root")
    kw, pads = paddings(S, "b", kind)
    w, h = S.real("w", 0), S.real("h", 0)
    b = root.box(x=10, y=20, width=w, height=h, **kw)
    mark(b, "b")
    mark(b.box(x=0, y=0, width="100%", height="100%"), "c")
    rs = rects_by_fill(render_pages(S, deck)[0])
    b, c = rs["b"], rs["c"]
    S.check(S.eq(b.x, 10 + pads[0]), "left padding")
    S.check(S.eq(b.y, 20 + pads[2]), "top padding")
    S.check(S.eq(b.w, S.max(w - pads[0] - pads[1], 0)), "right padding")
    S.check(S.eq(b.h, S.max(h - pads[2] - pads[3], 0)), "bottom padding")
    for n in ("x", "y", "w", "h"):
        S.check(S.eq(getattr(b, n), getattr(c, n)), "children live in the content area")


L1 = dict(w="n", ht="n")


def _trees(tier):
    out = []
    for h in (False, True):
        for w, ht in (("n", "d"), ("p", "n"), ("d", "p"), ("z", "d")):
            out.append(dict(h=h, w=w, ht=ht, pads="p_left+p_y", kids=[dict(w="n"), dict(w="n", ht="n")]))
        out.append(dict(h=h, w="d", ht="d", kids=[dict(ht="n", pads="p_x"), dict(w="p", ht="p"), dict(w="n", x=True)]))
        out.append(dict(h=h, w="p", ht="d", kids=[dict(h=not h, kids=[dict(w="n", ht="n"), dict(ht="n")])]))
        out.append(dict(h=h, w="n", ht="n", text=1, pads="p_left+p_bottom"))
        out.append(dict(h=h, w="p", ht="d", text=2, kids=[dict(w="n", ht="n")]))
        out.append(dict(h=h, kids=[dict(text=1, pads="p_top"), dict(ht="n")]))
        if tier == "thorough":
            out.append(dict(h=h, w="n", ht="n", pads="all", kids=[dict(w="n", ht="n"), dict(w="n", ht="n")]))
            out.append(dict(h=h, w="p", ht="p", pads="p_x+p_bottom", kids=[dict(h=not h, kids=[dict(w="n", ht="n"), dict(w="p", ht="n")]), dict(ht="p", w="n")]))
            out.append(dict(h=h, w="d", ht="p", kids=[dict(text=1, w="n"), dict(text=2, pads="p_y"), dict(w="p")]))
            out.append(dict(h=h, kids=[dict(h=not h, kids=[dict(h=h, w="n", ht="n"), dict(w="n", pads="padding")]), dict(w="n", ht="n")]))
            out.append(dict(h=h, w="n", kids=[dict(kids=[dict(kids=[dict(w="n", ht="n", pads="p_top")])])]))
    return out


PADS = ["all", "padding", "p_x", "p_y", "p_x+padding", "p_y+padding", "p_left+padding", "p_left+p_x", "p_top+p_y+padding", "p_right+p_bottom", "p_right+p_x+padding", "p_bottom+p_y"]
HARNESSES = [
    H("sizes", sizes, [dict(spec=s) for s in _trees("quick")], [dict(spec=s) for s in _trees("thorough")],
      "box trees of the listed shapes (depth <= 4) with symbolic sizes, NN% requests, paddings, measured text width, font size and line spacing"),
    H("padding_forms", padding_forms, product(kind=PADS), bounds="12 ways of giving paddings, values symbolic (including explicit zero)"),
]
