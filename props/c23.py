"""C23: rectangles, ellipses, polygons and polylines in both backends; view boxes."""
import os
from symx.session import H, product
from props.lib import make_deck, render_pages, style_map, points_of
from props.cairolib import K, cairo_deck, cairo_ops, subpaths

RGB = {"red": (255, 0, 0), "blue": (0, 0, 255), "#ff8000": (255, 128, 0), "#0f0": (0, 255, 0), "black": (0, 0, 0)}
W, HH = 800, 600


def rot(S, center, deg, p):
    if deg is None:
        return p
    s, c = S.sin_cos_deg(deg)
    dx, dy = p[0] - center[0], p[1] - center[1]
    return (center[0] + c * dx - s * dy, center[1] + s * dx + c * dy)


def same(S, p, q):
    return S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1]))


def cyclic(S, got, want, what):
    """The closed polygon got has the vertices of want, from any start in either direction."""
    n = len(want)
    S.check(len(got) == n, "number of corners of " + what)
    alts = []
    for k in range(n):
        alts.append(S.And(*[same(S, got[i], want[(i + k) % n]) for i in range(n)]))
        alts.append(S.And(*[same(S, got[i], want[(k - i) % n]) for i in range(n)]))
    if S.concrete(alts[0]):
        return
    S.check(S.Or(*alts), "corners of " + what)


# ---------------------------------------------------------------- description of shapes
def describe(S, kinds):
    """Shape parameters: [(kind, geometry, box arguments, draw arguments)]"""
    out = []
    for i, (kind, opts) in enumerate(kinds):
        o = dict(opts)
        for k in list(o):
            if o[k] == "?":
                lo, hi = {"rotation": (-360, 360), "stroke_width": (0, 50), "rx": (0, 100), "ry": (0, 100)}[k]
                o[k] = S.real("%s%d" % (k, i), lo, hi)
        x, y = S.real("x%d" % i, -50, 500), S.real("y%d" % i, -50, 500)
        lo = 0 if kind == "ellipse" else 0.125
        w, h = S.real("w%d" % i, lo, 300), S.real("h%d" % i, lo, 300)
        pts = None
        if kind in ("polygon", "line"):
            n = o.pop("n", 3)
            pts = [(S.real("px%d_%d" % (i, j), -50, 300), S.real("py%d_%d" % (i, j), -50, 300)) for j in range(n)]
        out.append((kind, (x, y, w, h), pts, o))
    return out


def draw(slide, shapes, box=None):
    for kind, (x, y, w, h), pts, o in shapes:
        b = (box or slide).box(x=x, y=y, width=w, height=h)
        if kind == "rect":
            b.rect(**o)
        elif kind == "ellipse":
            b.ellipse(**o)
        elif kind == "polygon":
            b.polygon(pts, **o)
        elif kind == "line":
            b.line(pts, **o)
        elif kind == "text":
            b.text("ab")


def dashes(o):
    d = o.get("stroke_dasharray")
    if not d:
        return None
    return [float(v) for v in d.replace(",", " ").split()]


def width_of(o):
    w = o.get("stroke_width")
    return 1 if w is None else w


def radii(S, o, w, h):
    rx, ry = o.get("rx"), o.get("ry")
    if rx is None:
        rx = ry
    if ry is None:
        ry = rx
    if rx is None:
        return None
    if S.concrete(S.Or(S.eq(rx, 0), S.eq(ry, 0))):
        return None
    return S.min(rx, w / 2), S.min(ry, h / 2)


# ---------------------------------------------------------------- Cairo
def flat(S, sub):
    """Vertices of a subpath of straight lines, without repeated closing point."""
    pts = []
    for seg in sub:
        if seg[0] in "ML":
            pts.append(seg[1])
        else:
            S.check(seg[0] == "Z", "straight lines only")
    return pts


def check_cairo(S, op, shape, to_page, scale):
    kind, (x, y, w, h), pts, o = shape
    deg = o.get("rotation")
    subs = subpaths(op)
    S.check(len(subs) == 1, "one outline")
    sub = subs[0]
    if kind == "rect":
        mid = (x + w / 2, y + h / 2)
        rr = radii(S, o, w, h)
        if rr is None and not any([seg[0] == "C" for seg in sub]):
            got = flat(S, sub)
            if len(got) == 5 and S.concrete(same(S, got[0], got[-1])):
                got.pop()
            want = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
            cyclic(S, got, [to_page(rot(S, mid, deg, p)) for p in want], "the rectangle")
            return
        if rr is None:
            # one radius is zero: the corners are degenerate curves
            rx, ry = o.get("rx"), o.get("ry")
            S.check(rx is not None or ry is not None, "square corners")
            rr = S.min(ry if rx is None else rx, w / 2), S.min(rx if ry is None else ry, h / 2)
        rx, ry = rr
        want = [(x + rx, y), (x + w - rx, y), (x + w, y + ry), (x + w, y + h - ry), (x + w - rx, y + h), (x + rx, y + h), (x, y + h - ry), (x, y + ry)]
        ctl = {1: (x + w, y), 3: (x + w, y + h), 5: (x, y + h), 7: (x, y)}
        S.check(sub[0][0] == "M", "outline starts with a point")
        got = [s for s in sub[1:] if s[0] != "Z"]
        S.check(same(S, sub[0][1], to_page(rot(S, mid, deg, want[0]))), "start of the rounded rectangle")
        for i, seg in enumerate(got):
            S.check(i < 8, "rounded rectangle has 8 parts")
            end = want[(i + 1) % 8]
            S.check(same(S, seg[-1], to_page(rot(S, mid, deg, end))), "outline of the rounded rectangle")
            if i % 2:
                S.check(seg[0] == "C", "corners are curves")
                c = ctl[i]
                for g, p, q in ((seg[1], want[i], c), (seg[2], end, c)):
                    # on the side, about half way to the corner of the rectangle
                    lo, hi = [to_page(rot(S, mid, deg, (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t))) for t in (0.4, 0.6)]
                    for u in (0, 1):
                        S.check(S.And(g[u] >= S.min(lo[u], hi[u]) - 1e-6, g[u] <= S.max(lo[u], hi[u]) + 1e-6), "corners are round")
            else:
                S.check(seg[0] == "L", "sides are straight")
    elif kind == "ellipse":
        arcs = [s for s in sub if s[0] == "ARC"]
        S.check(len(arcs) == 1, "one ellipse")
        _, c, u, v = arcs[0]
        for s in sub:
            S.check(s[0] in ("ARC", "Z") or (s[0] == "JOIN" and S.concrete(same(S, s[1], (c[0] + u[0], c[1] + u[1])))), "nothing but the ellipse")
        mid = (x + w / 2, y + h / 2)
        S.check(same(S, c, to_page(mid)), "centre of the ellipse")
        si, co = (0, 1) if deg is None else S.sin_cos_deg(deg)
        a, b = w / 2 * scale, h / 2 * scale
        S.check(S.And(S.eq(u[0] * u[0] + v[0] * v[0], co * co * a * a + si * si * b * b),
                      S.eq(u[1] * u[1] + v[1] * v[1], si * si * a * a + co * co * b * b),
                      S.eq(u[0] * u[1] + v[0] * v[1], si * co * (a * a - b * b))), "axes of the ellipse")
    else:
        abspts = [(x + p[0], y + p[1]) for p in pts]
        mid = (sum([p[0] for p in abspts]) / len(pts), sum([p[1] for p in abspts]) / len(pts))
        want = [to_page(rot(S, mid, deg, p)) for p in abspts]
        got = flat(S, sub)
        if kind == "polygon":
            closed = sub[-1][0] == "Z"
            if len(got) == len(want) + 1:
                S.check(same(S, got[0], got[-1]), "the polygon is closed")
                got = got[:-1]
            else:
                S.check(closed or op.kind == "fill", "the polygon is closed")
            cyclic(S, got, want, "the polygon")
        else:
            S.check(len(got) == len(want) and sub[-1][0] != "Z", "points of the line")
            for g, e in zip(got, want):
                S.check(same(S, g, e), "points of the line")


def check_cairo_paint(S, op, o, scale):
    kind = op.kind
    color = o.get("bg_color") if kind == "fill" else o.get("color")
    S.check(op.src[0] == "rgba" and [round(v * 255) for v in op.src[1:4]] == list(RGB[color]) and op.src[4] == 1, "colour")
    if kind == "stroke":
        a, b, c, d, _, _ = op.m.t
        S.check(S.And(S.eq(a * a + b * b, scale * scale), S.eq(c * c + d * d, scale * scale), S.eq(a * c + b * d, 0)), "strokes are not distorted")
        S.check(S.eq(op.lw, width_of(o)), "stroke width")
        S.check(list(op.dash) == (dashes(o) or []), "dash pattern")


def run_cairo(S, shapes, view=None):
    kw = {} if view is None else {"view_box": view}
    deck = cairo_deck(S, width=W, height=HH)
    slide = deck.new_slide(**kw)
    draw(slide, shapes)
    ops = [o for o in cairo_ops(deck)[0] if o.kind not in ("layout", "paint")]
    s = 1
    if view is not None:
        s = S.min(W / view[2], HH / view[3])

        def page(p):
            return (K * (s * (p[0] - view[0] - view[2] / 2) + W / 2), K * (s * (p[1] - view[1] - view[3] / 2) + HH / 2))
    else:
        def page(p):
            return (K * p[0], K * p[1])
    i = 0
    for sh in shapes:
        o = sh[3]
        if sh[0] == "text":
            continue
        if sh[0] == "ellipse" and S.concrete(S.Or(S.eq(sh[1][2], 0), S.eq(sh[1][3], 0))):
            continue        # SVG draws nothing
        for kind, c in (("fill", o.get("bg_color")), ("stroke", o.get("color", "black" if sh[0] == "line" else None))):
            if c:
                S.check(i < len(ops) and ops[i].kind == kind, "filled and stroked exactly when a colour is given")
                check_cairo_paint(S, ops[i], o if "color" in o or sh[0] != "line" else dict(o, color="black"), K * s)
                check_cairo(S, ops[i], sh, page, K * s)
                i += 1
    S.check(i == len(ops), "nothing else is drawn")


# ---------------------------------------------------------------- SVG
def parse_rotation(S, node):
    t = node.attrs.get("transform")
    if t is None:
        return None
    S.check(t.startswith("rotate(") and t.endswith(")"), "only rotations")
    v = [float(q) for q in t[7:-1].replace(",", " ").split()]
    S.check(len(v) == 3, "rotation about a point")
    return v


def check_rotation(S, node, deg, mid):
    r = parse_rotation(S, node)
    if r is None:
        S.check(deg is None or S.concrete(S.eq(deg, 0)), "shape is rotated")
    else:
        S.check(deg is not None, "shape is not rotated")
        S.check(S.eq(r[0], deg), "rotation angle")
        S.check(same(S, r[1:], mid), "rotation centre")


def check_svg(S, node, shape):
    kind, (x, y, w, h), pts, o = shape
    deg = o.get("rotation")
    a = node.attrs
    if kind == "rect":
        S.check(node.tag == "rect", "a rectangle")
        for k, v in (("x", x), ("y", y), ("width", w), ("height", h)):
            S.check(S.eq(float(a[k]), v), k)
        got = {}
        for k in ("rx", "ry"):
            if k in a:
                got[k] = float(a[k])
        e1, e2 = radii(S, got, w, h), radii(S, o, w, h)
        S.check((e1 is None) == (e2 is None), "rounded exactly when requested")
        if e1 is not None:
            S.check(same(S, e1, e2), "corner radii")
        check_rotation(S, node, deg, (x + w / 2, y + h / 2))
    elif kind == "ellipse":
        S.check(node.tag == "ellipse", "an ellipse")
        mid = (x + w / 2, y + h / 2)
        for k, v in (("cx", mid[0]), ("cy", mid[1]), ("rx", w / 2), ("ry", h / 2)):
            S.check(S.eq(float(a[k]), v), k)
        check_rotation(S, node, deg, mid)
    else:
        S.check(node.tag == {"polygon": "polygon", "line": "polyline"}[kind], "a polygon")
        got = points_of(a["points"])
        want = [(x + p[0], y + p[1]) for p in pts]
        S.check(len(got) == len(want), "number of points")
        for g, e in zip(got, want):
            S.check(same(S, g, e), "points")
        check_rotation(S, node, deg, (sum([p[0] for p in want]) / len(pts), sum([p[1] for p in want]) / len(pts)))
    st = style_map(a["style"])
    color = o.get("color", "black" if kind == "line" else None)
    S.check(st["fill"] == (o.get("bg_color") or "none"), "filled exactly when a colour is given")
    S.check(st["stroke"] == (color or "none"), "stroked exactly when a colour is given")
    if color:
        S.check(S.eq(float(st.get("stroke-width", "1")), width_of(o)), "stroke width")
        S.check(dashes({"stroke_dasharray": st.get("stroke-dasharray")}) == dashes(o), "dash pattern")


def run_svg(S, shapes, view=None):
    kw = {} if view is None else {"view_box": view}
    deck = make_deck(S, width=W, height=HH)
    slide = deck.new_slide(**kw)
    draw(slide, shapes)
    page = render_pages(S, deck)[0]
    nodes = [n for n in page.children if getattr(n, "tag", "text") != "text"]
    todo = [s for s in shapes if s[0] != "text"]
    S.check(len(nodes) == len(todo), "every shape is drawn once")
    for n, s in zip(nodes, todo):
        check_svg(S, n, s)
    S.check(S.And(S.eq(float(page.attrs["width"]), W), S.eq(float(page.attrs["height"]), HH)), "page size")
    if view is not None:
        v = [float(q) for q in page.attrs["viewBox"].split()]
        S.check(S.And(*[S.eq(p, q) for p, q in zip(v, view)]), "view box")
        S.check(page.attrs.get("preserveAspectRatio", "xMidYMid meet") in ("xMidYMid meet", "xMidYMid"), "view box is centred and undistorted")
    else:
        S.check("viewBox" not in page.attrs, "no view box")


def shapes(S, kinds, backend):
    sh = describe(S, kinds)
    if backend == "svg":
        run_svg(S, sh)
    else:
        run_cairo(S, sh)


def view(S, kinds, backend):
    sh = describe(S, kinds)
    vb = (S.real("vx", -100, 100), S.real("vy", -100, 100), S.real("vw", 1, 2000), S.real("vh", 1, 2000))
    if backend == "svg":
        run_svg(S, sh, vb)
    else:
        run_cairo(S, sh, vb)


def view_image(S):
    """Embedded SVG images on the Cairo backend follow the view box too."""
    vb = (S.real("vx", -100, 100), S.real("vy", -100, 100), S.real("vw", 1, 2000), S.real("vh", 1, 2000))
    x, y, w = S.real("x", -50, 500), S.real("y", -50, 500), S.real("w", 1, 300)
    deck = cairo_deck(S, width=W, height=HH)
    slide = deck.new_slide(view_box=vb)
    p = os.path.join(S.tmp, "im.svg")
    with open(p, "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" width="20" height="10"><circle r="1"/></svg>')
    slide.box(x=x, y=y, width=w, height=w / 2).image(p)
    ops = [o for o in cairo_ops(deck)[0] if o.kind == "svg"]
    S.check(len(ops) == 1, "the image is drawn")
    s = S.min(W / vb[2], HH / vb[3])
    wd, ht = ops[0].size[:2]
    for ux, uy in ((0, 0), (1, 0), (0, 1), (1, 1)):
        got = ops[0].m.apply(wd * ux, ht * uy)
        q = (x + w * ux, y + w / 2 * uy)
        want = (K * (s * (q[0] - vb[0] - vb[2] / 2) + W / 2), K * (s * (q[1] - vb[1] - vb[3] / 2) + HH / 2))
        S.check(same(S, got, want), "corner of the image")


R = "red"
_SETS = [
    [("rect", dict(color=R, bg_color="blue", rotation="?", stroke_width="?", stroke_dasharray="4 2"))],
    [("rect", dict(color=R, rotation=None)), ("rect", dict(bg_color="#0f0", rotation=90)), ("ellipse", dict(color=R, stroke_width=None))],
    [("rect", dict(color="#ff8000", bg_color=R, rx="?", ry="?"))],
    [("rect", dict(bg_color=R, rx="?"))],
    [("rect", dict(color=R, ry=5, rotation=-45))],
    [("rect", dict(color=R, rx=0, ry=5))],
    [("ellipse", dict(color=R, bg_color="blue", rotation="?", stroke_width="?"))],
    [("ellipse", dict(color=R, stroke_dasharray="1 2")), ("rect", dict(color="blue")), ("ellipse", dict(color=R))],
    [("text", {}), ("ellipse", dict(color=R)), ("text", {}), ("ellipse", dict(bg_color=R)), ("line", dict(n=2))],
    [("polygon", dict(color=R, bg_color="blue", rotation="?", n=3, stroke_width=3))],
    [("polygon", dict(bg_color="blue", n=4)), ("rect", dict())],
    [("polygon", dict(bg_color="blue", rotation="?", n=6))],
    [("line", dict(color="blue", n=6))],
    [("polygon", dict(color="blue", n=3, rotation=0, stroke_dasharray="3, 1,2"))],
    [("line", dict(color="blue", n=3, stroke_width="?", stroke_dasharray="4")), ("line", dict(n=2)), ("line", dict(n=2, color=None))],
]
_MORE = [
    [("rect", dict(color=R, rx="?", ry="?", rotation="?"))],
    [("polygon", dict(color=R, rotation="?", n=4)), ("ellipse", dict(bg_color="blue", rotation=30))],
    [("rect", dict(color=R, stroke_dasharray="4 2")), ("polygon", dict(color=R, n=3)), ("line", dict(n=2, stroke_dasharray="1 1")), ("ellipse", dict(color=R, stroke_width=4)), ("rect", dict(color=R, rx=3))],
    [("ellipse", dict(color=R, bg_color=R, rotation=r)) for r in (0, 90, 180)],
]
_Q = product(kinds=_SETS, backend=["svg", "cairo"])
_T = product(kinds=_SETS + _MORE, backend=["svg", "cairo"])
_V = [[("rect", dict(color=R, bg_color="blue", stroke_width="?", stroke_dasharray="4"))], [("ellipse", dict(color=R))], [("line", dict(n=2)), ("polygon", dict(bg_color=R, n=3))]]
HARNESSES = [
    H("shapes", shapes, _Q, _T, "listed shapes with symbolic boxes, points, rotation angles (-360..360), stroke widths (>= 0 or unset) and corner radii (>= 0); positive sizes (ellipses: also zero)"),
    H("view", view, product(kinds=_V, backend=["svg", "cairo"]), bounds="symbolic view boxes"),
    H("view_image", view_image, [{}], bounds="symbolic view box and box of an embedded SVG image"),
]
