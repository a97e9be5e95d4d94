"""C09: paint set and order."""
from symx.session import H, product
from props.lib import make_deck, render_pages, style_map, mark
from props.cairolib import cairo_deck, cairo_ops


class N:
    def __init__(self, name, parent, z, sel):
        self.name, self.parent, self.z, self.sel = name, parent, z, sel
        self.items = []  # names (items) and N (boxes) in paint order


def order(page):
    if isinstance(page, list):
        return ["#0000%02x" % round(o.src[3] * 255) for o in page if o.kind == "fill"]
    return [style_map(n.attrs["style"])["fill"] for n in page.find_all("rect")]


def tree(S, ops, zs, vis, late, backend="svg"):
    """ops: (parent index, mode, reference index); zs: which boxes get a symbolic z-level; vis: which get a symbolic fragment."""
    deck = make_deck(S) if backend == "svg" else cairo_deck(S)
    slide = deck.new_slide()
    slide.box(show=2)  # two pages
    root = N("#000010", None, 0, None)
    mark(slide, root.name)
    root.items = [root.name]
    nodes, boxes = [root], [slide]
    for i, (pi, mode, ref) in enumerate(ops):
        kw = {}
        pn, pb = nodes[pi], boxes[pi]
        z = pn.z
        if i in zs:
            z = S.int("z%d" % i, -10 ** 7, 10 ** 7)
            kw["z_level"] = z
        sel = None
        if i in vis:
            sel = S.int("s%d" % i, 1, 2)
            kw["show"] = sel
        if mode == "prepend":
            kw["prepend"] = True
        elif mode in ("above", "below"):
            kw[mode] = boxes[ref]
        b = pb.box(**kw)
        n = N("#0000%02x" % (i + 32), pn, z, sel)
        if mode == "prepend":
            pn.items.insert(0, n)
        elif mode in ("above", "below"):
            at = pn.items.index(nodes[ref])
            pn.items.insert(at + (1 if mode == "above" else 0), n)
        else:
            pn.items.append(n)
        nodes.append(n)
        boxes.append(b)
        if not late:
            mark(b, n.name)
            n.items.append(n.name)
    if late:
        for b, n in list(zip(boxes, nodes))[1:]:
            mark(b, n.name)
            n.items.append(n.name)
    flat = []

    def walk(n, sels):
        s = sels + ([n.sel] if n.sel is not None else [])
        for it in n.items:
            if isinstance(it, N):
                walk(it, s)
            else:
                flat.append((it, n.z, s))
    walk(root, [])
    pages = render_pages(S, deck) if backend == "svg" else cairo_ops(deck)
    S.check(len(pages) == 2, "two fragments")
    names = [f[0] for f in flat]
    for k, p in enumerate(pages):
        got = order(p)
        S.check(len(set(got)) == len(got), "nothing is painted twice")
        for name, z, sels in flat:
            S.check(S.concrete(S.And(*[s == k + 1 for s in sels])) == (name in got), "painted exactly when all enclosing boxes are visible")
        for a, b in zip(got, got[1:]):
            za, zb = flat[names.index(a)][1], flat[names.index(b)][1]
            before = names.index(a) < names.index(b)
            S.check(za <= zb if before else za < zb, "increasing z-level, then tree order")


def geometry_order(S, mode, horizontal):
    """above/below change the paint order only; prepend changes both."""
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=0, y=0, width=500, height=400, horizontal=horizontal)
    mark(parent, "p")
    dim = "width" if horizontal else "height"
    bs = []
    for i in range(2):
        b = parent.box(**{dim: S.real("s%d" % i, 0, 100)})
        mark(b, "b%d" % i)
        bs.append(b)
    kw = {"prepend": dict(prepend=True), "above": dict(above=bs[0]), "below": dict(below=bs[0]), "append": {}}[mode]
    mark(parent.box(**{dim: S.real("sn", 0, 100)}, **kw), "new")
    from props.lib import rects_by_fill
    page = render_pages(S, deck)[0]
    got = [n for n in order(page) if n != "p"]
    want = {"prepend": ["new", "b0", "b1"], "above": ["b0", "new", "b1"], "below": ["new", "b0", "b1"], "append": ["b0", "b1", "new"]}[mode]
    S.check(got == want, "paint order of %s" % mode)
    rs = rects_by_fill(page)
    axis = 0 if horizontal else 1
    geo = ["new", "b0", "b1"] if mode == "prepend" else ["b0", "b1", "new"]
    for a, b in zip(geo, geo[1:]):
        S.check(S.eq(rs[a].end(axis), rs[b].start(axis)), "geometry order follows creation")


def items(S, n):
    """Items of one box keep their order; every kind of item is painted with its box."""
    deck = make_deck(S)
    slide = deck.new_slide()
    z = S.int("z", -2, 2)
    b = slide.box(z_level=z, show=S.int("s", 1, 2))
    slide.box(show=2)
    b.rect(bg_color="a").ellipse(bg_color="b")
    b.text("t")
    it = b.polygon([(0, 0), (1, 1), (2, 0)], bg_color="c")
    it.box(z_level=S.int("z2", -2, 2)).rect(bg_color="d")
    it.line([(0, 0), (5, 5)], color="e").path([("M", (0, 0)), ("L", (3, 3))], color="f")
    pages = render_pages(S, deck)
    for p in pages:
        tags = [n.tag for n in p.iter() if n.tag in ("rect", "ellipse", "text", "polygon", "polyline", "path")]
        if not tags:
            continue
        i = [k for k, n in enumerate([n for n in p.iter() if n.tag in ("rect", "ellipse", "text", "polygon", "polyline", "path")]) if n.tag == "rect" and "fill:d" in n.attrs["style"]][0]
        rest = tags[:i] + tags[i + 1:]
        S.check(rest == ["rect", "ellipse", "text", "polygon", "polyline", "path"], "items of a box are painted in order")
        S.check(i in (0, 4, 6), "a child box is painted before, at its place or after")
    n1 = [len([n for n in p.find_all("ellipse")]) for p in pages]
    S.check(sorted(n1) == [0, 1], "items are painted in the fragments of their box only")


def _ops(tier):
    A = "append"
    out = [
        dict(ops=[(0, A, 0), (0, A, 0), (0, A, 0)], zs=[0, 1, 2], vis=[1], late=False),
        dict(ops=[(0, A, 0), (1, A, 0), (2, A, 0)], zs=[0, 2], vis=[0, 1, 2], late=False),
        dict(ops=[(0, A, 0), (1, A, 0), (0, A, 0), (1, A, 0)], zs=[0, 1, 2], vis=[0], late=True),
        dict(ops=[(0, A, 0), (0, "prepend", 0), (0, "above", 1), (0, "below", 1)], zs=[], vis=[0], late=False),
        dict(ops=[(0, A, 0), (0, A, 0), (0, "above", 1), (0, "below", 2), (0, "prepend", 0)], zs=[1], vis=[], late=False),
        dict(ops=[(0, A, 0), (1, A, 0), (1, "prepend", 0), (1, "below", 2), (1, "above", 2)], zs=[0], vis=[1], late=True),
        dict(ops=[(0, A, 0), (1, A, 0), (0, "above", 1), (2, A, 0)], zs=[3], vis=[1, 2], late=False),
    ]
    out += [dict(d, backend="cairo") for d in (out[0], out[2], out[3], out[6])]
    if tier == "thorough":
        modes = [A, "prepend", "above", "below"]
        for m1 in modes:
            for m2 in modes:
                for late in (False, True):
                    out.append(dict(ops=[(0, A, 0), (0, m1, 1), (0, m2, 1), (1, A, 0)], zs=[0, 1, 2], vis=[0, 1], late=late))
                    out.append(dict(ops=[(0, A, 0), (1, A, 0), (1, m1, 2), (1, m2, 2)], zs=[0, 2, 3], vis=[0, 1], late=late))
        out.append(dict(ops=[(0, A, 0), (1, A, 0), (2, A, 0), (3, A, 0)], zs=[0, 1, 2, 3], vis=[0, 1, 2, 3], late=False))
        out.append(dict(ops=[(0, A, 0), (0, A, 0), (0, A, 0), (0, A, 0)], zs=[0, 1, 2, 3], vis=[], late=False))
    return out


HARNESSES = [
    H("tree", tree, _ops("quick"), _ops("thorough"), "trees of 3-5 boxes in the listed shapes and insertion modes, symbolic z-levels (-3..3) and fragments, markers created with the box or afterwards"),
    H("geometry_order", geometry_order, product(mode=["append", "prepend", "above", "below"], horizontal=[False, True]), bounds="three siblings"),
    H("items", items, product(n=[0]), bounds="one box with six kinds of items and a child box, symbolic z-levels and fragment"),
]
