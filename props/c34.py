"""C34: conversion of ORA images."""
from symx.session import H, product
from elsie.render.ora import convert_ora_to_svg
from envs.etfake import E, ora_file, data_of, picture
from props.lib import make_deck, render_pages
from props.c19 import transforms


class G:
    def __init__(self, opts, *items):
        self.opts, self.items = opts, items


class L:
    def __init__(self, src, opts=""):
        self.src, self.opts = src, opts


def number(S, name):
    """(text, value) of an integer."""
    form = S.choice(name + ".form", ["-", ".5"])
    d = S.str(name, 1, "0123456789")
    v = int(d)
    if form == ".5":
        return d + form, v + 0.5
    return form + d, (-v if form == "-" else v)


def opacity(S, name):
    d = S.str(name, 2, "0123456789")
    return "0." + d, float("0." + d)


def common(S, n, opts):
    """Attributes of an item; options: p position, o opacity, v visibility, n no optional attributes."""
    a = {}
    if "n" not in opts:
        a = {"name": "item %d" % n, "x": "0", "y": "0", "opacity": "1.0", "visibility": "visible"}
    v = {"x": 0, "y": 0, "opacity": 1, "visible": True, "name": a.get("name")}
    if "p" in opts:
        a["x"], v["x"] = number(S, "x%d" % n)
        a["y"], v["y"] = number(S, "y%d" % n)
    if "o" in opts:
        a["opacity"], v["opacity"] = opacity(S, "o%d" % n)
    if "v" in opts:
        a["visibility"] = S.choice("v%d" % n, ["visible", "hidden"])
        v["visible"] = a["visibility"] == "visible"
    if "N" in opts:
        a["name"] = v["name"] = "a" + S.str("n%d" % n, 2, "b*2&\"<") + "c"
    return a, v


def build(S, item, count, chain, out):
    """Description of an item; out collects (layer, values, values of the groups) in document order."""
    n = count[0]
    count[0] += 1
    a, v = common(S, n, item.opts)
    if isinstance(item, L):
        a["src"] = "data/%s.png" % item.src
        out.append((item.src, v, chain))
        return E("layer", a)
    return E("stack", a, *[build(S, i, count, chain + [v], out) for i in item.items])


def layer_files(S, names, fixed):
    out = []
    for k, n in enumerate(names):
        if n == "empty":
            out.append(("data/empty.png", (5, 5), None))
            continue
        if fixed:
            out.append(("data/%s.png" % n, (12, 10), (3, 2, 8, 6)))
            continue
        x0, y0 = S.int("bx%d" % k, 0, 5), S.int("by%d" % k, 0, 5)
        w, h = S.int("bw%d" % k, 1, 8), S.int("bh%d" % k, 1, 8)
        mx, my = S.int("mx%d" % k, 0, 3), S.int("my%d" % k, 0, 3)
        out.append(("data/%s.png" % n, (x0 + w + mx, y0 + h + my), (x0, y0, x0 + w, y0 + h)))
    return out


def found_images(S, node, chain, out):
    for c in node.children:
        if c.tag == "g":
            found_images(S, c, chain + [c], out)
        elif c.tag == "image":
            out.append((c, chain))
        else:
            S.fail("only layers and groups")
    return out


def offset(S, node):
    x = y = 0
    for name, v in transforms(S, node.attrs.get("transform", "")):
        S.check(name == "translate", "groups are only translated")
        x, y = x + v[0], y + (v[1] if len(v) > 1 else 0)
    return x, y


def check_opacity(S, node, want):
    got = float(node.attrs.get("opacity", "1"))
    S.check(S.And(S.le(got - want, 0.001), S.le(want - got, 0.001)), "opacity is kept")


def check_name(S, node, v):
    if v["name"] is not None:
        S.check(node.attrs.get("inkscape:label") == v["name"], "name is kept")


def check_page(S, page, wanted, layers):
    ims = found_images(S, page, [], [])
    want = []
    for src, v, chain in reversed(wanted):
        l = [x for x in layers if x[0] == "data/%s.png" % src][0]
        if v["visible"] and all([g["visible"] for g in chain]) and l[2] is not None:
            want.append((src, v, chain, l))
    S.check(len(ims) == len(want), "every visible layer is drawn, and nothing else")
    for (node, gs), (src, v, chain, l) in zip(ims, want):
        head, data = data_of(node.attrs["xlink:href"])
        k, w, h, off = picture(S, data, layers)
        S.check(layers[k] is l, "layers are drawn from the bottom")
        S.check(head == "data:image/png;base64", "image type")
        b = l[2]
        S.check(S.And(S.eq(w, b[2] - b[0]), S.eq(h, b[3] - b[1])), "the visible part of the layer is drawn")
        if off is not None:
            S.check(S.And(S.eq(off[0], b[0]), S.eq(off[1], b[1])), "the visible part of the layer is drawn")
        S.check(S.And(S.eq(float(node.attrs["width"]), w), S.eq(float(node.attrs["height"]), h)), "size of the layer")
        S.check("transform" not in node.attrs, "layers are not transformed")
        x, y = float(node.attrs["x"]), float(node.attrs["y"])
        wx, wy = v["x"] + b[0], v["y"] + b[1]
        for g in gs:
            dx, dy = offset(S, g)
            x, y = x + dx, y + dy
        for g in chain:
            wx, wy = wx + g["x"], wy + g["y"]
        S.check(S.And(S.eq(x, wx), S.eq(y, wy)), "position of the layer")
        check_opacity(S, node, v["opacity"])
        check_name(S, node, v)
        S.check(len(gs) == len(chain), "groups are kept")
        for g, gv in zip(gs, chain):
            check_opacity(S, g, gv["opacity"])
            check_name(S, g, gv)


def convert(S, shape, fixed):
    S.scratch()
    wanted = []
    root = E("image", {"w": S.str("w", 2, "123456789"), "h": "30"}, build(S, SHAPES[shape], [0], [], wanted))
    names = []
    for src, _, _ in wanted:
        if src not in names:
            names.append(src)
    layers = layer_files(S, names, fixed)
    p = ora_file(S, root, layers)
    page = S.xml(convert_ora_to_svg(p))
    S.check(page.tag == "svg" and page.attrs["width"] == root.attrs["w"] and page.attrs["height"] == "30", "size of the image")
    check_page(S, page, wanted, layers)


def drawn(S, shape):
    """An ORA image on a slide, layer names select fragments."""
    deck = make_deck(S)
    wanted = []
    root = E("image", {"w": "40", "h": "30"}, build(S, SHAPES[shape], [0], [], wanted))
    names = []
    for src, _, _ in wanted:
        if src not in names:
            names.append(src)
    layers = layer_files(S, names, True)
    sel = [S.choice("sel%d" % i, [1, 2]) for i in range(len(wanted))]
    for e, k in zip(all_layers(root), sel):
        e.attrs["name"] = "layer **%d+" % k
    for (s, v, c), k in zip(wanted, sel):
        v["name"] = "layer **%d+" % k
    p = ora_file(S, root, layers)
    slide = deck.new_slide()
    slide.box().image(p)
    slide.box().image(p, fragments=False)
    pages = render_pages(S, deck)
    seen = [1] + [k for (src, v, c), k in zip(wanted, sel) if v["visible"] and src != "empty" and all([g["visible"] for g in c])]
    S.check(len(pages) == max(seen), "page count")
    for i, page in enumerate(pages):
        ims = [g.find_all("svg")[0] for g in page.children if g.tag == "g"]
        S.check(len(ims) == 2, "both images are drawn")
        check_page(S, ims[0], [w for w, k in zip(wanted, sel) if k <= i + 1], layers)
        check_page(S, ims[1], wanted, layers)


def all_layers(e):
    out = []
    for i in e.items:
        if i.tag == "layer":
            out.append(i)
        else:
            out += all_layers(i)
    return out


def bad_type(S):
    S.scratch()
    m = S.choice("mime", [b"image/openraster\n", b"image/png", b"", b"image/openraster2"])
    p = ora_file(S, E("image", {"w": "4", "h": "3"}, E("stack", {"x": "0", "y": "0", "opacity": "1", "visibility": "visible", "name": "r"})), [], mimetype=m)
    err = S.raised(lambda: convert_ora_to_svg(p))
    S.check((err is None) == (m.strip() == b"image/openraster"), "other archives are rejected")


SHAPES = {
    "one": G("", L("a", "po")),
    "two": G("", L("a", "p"), L("b", "v")),
    "names": G("N", L("a", "N")),
    "groups": G("p", L("a", "p"), G("po", L("b", "pv"))),
    "hidden": G("v", L("a", "v"), G("v", L("b", ""), L("c", "v"))),
    "empty": G("", L("empty", "p"), L("a", "p"), G("", L("empty", ""))),
    "shared": G("", L("a", "p"), L("a", "po"), L("b", "")),
    "opacity": G("o", L("a", "o"), G("o", L("b", "o"))),
    "defaults": G("n", L("a", "n"), G("nv", L("b", "np"))),
    "frag": G("", L("a", "o"), G("v", L("b", ""))),
    "deep": G("p", G("p", G("p", L("a", "p")), L("b", "")), L("c", "p")),
}
HARNESSES = [
    H("convert", convert, product(shape=list(SHAPES), fixed=[True]) + product(shape=["one", "two"], fixed=[False]), product(shape=list(SHAPES), fixed=[True, False]),
      "listed layer trees of up to 3 layers and 3 groups, positions -9..9, opacities 0.00-0.99, symbolic visible parts of layers, names of 4 characters"),
    H("drawn", drawn, product(shape=["frag"]), product(shape=["two", "groups", "frag", "empty", "shared"]), "ORA images on slides with fragments"),
    H("bad_type", bad_type, [{}], bounds="four MIME types"),
]
