"""C21: arrow heads of lines and paths."""
from symx.session import H, product
from elsie import Arrow
from props.lib import make_deck, render_pages, points_of, parse_path, style_map
from props.cairolib import K, cairo_deck, cairo_ops


def near(S, p, q):
    return S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1]))


def point(S, n):
    return S.real("px%d" % n, -500, 500), S.real("py%d" % n, -500, 500)


class A:
    """Parameters of an arrow."""

    def __init__(self, S, n, opts, fixed):
        self.size = 12 if fixed else S.real("size%d" % n, 0.5, 100)
        self.angle = S.choice("angle%d" % n, fixed) if fixed else S.real("angle%d" % n, 1, 89)
        self.sw = S.real("sw%d" % n, 0.5, 30) if "s" in opts else None
        self.inner = S.real("inner%d" % n, 0.125, 3) if "i" in opts else None
        self.default = "d" in opts
        if self.default:
            self.size, self.angle = 10, 40
            self.arrow = Arrow()
        else:
            self.arrow = Arrow(size=self.size, angle=self.angle, stroke_width=self.sw, inner=self.inner)

    def sin_cos(self, S):
        return S.sin_cos_deg(self.angle)

    def shift(self, S):
        if self.sw is not None:
            return self.sw / 2
        return self.sin_cos(S)[1] * self.size / 2


def along(S, p1, p2, d):
    """Point d before p2 on the line from p1."""
    ux, uy = S.atan_unit(p2[0] - p1[0], p2[1] - p1[1])
    return p2[0] - ux * d, p2[1] - uy * d


def distinct(S, p, q):
    S.assume(S.Or(q[0] - p[0] >= 0.125, p[0] - q[0] >= 0.125, q[1] - p[1] >= 0.125, p[1] - q[1] >= 0.125))


def check_head(S, head, a, p1, p2, color):
    """head: (points, fill, stroke, stroke width, closed)."""
    pts, fill, stroke, width, closed = head
    s, c = a.sin_cos(S)
    ux, uy = S.atan_unit(p2[0] - p1[0], p2[1] - p1[1])
    k = a.size
    b1 = (p2[0] - k * (c * ux - s * uy), p2[1] - k * (s * ux + c * uy))
    b2 = (p2[0] - k * (c * ux + s * uy), p2[1] - k * (-s * ux + c * uy))
    want = 4 if a.inner is not None and a.sw is None else 3
    S.check(len(pts) == want, "points of the arrow head")
    S.check(near(S, pts[1], p2), "the tip is at the end of the line")
    S.check(S.Or(S.And(near(S, pts[0], b1), near(S, pts[2], b2)), S.And(near(S, pts[0], b2), near(S, pts[2], b1))), "barbs of the arrow head")
    if want == 4:
        S.check(near(S, pts[3], along(S, p1, p2, a.inner * a.size * c)), "inner point of the arrow head")
    if a.sw is None:
        S.check(fill == color and closed, "the head is filled with the colour of the line")
    else:
        S.check(fill is None and stroke == color and not closed, "the head is drawn with the colour of the line")
        S.check(S.eq(width, a.sw), "stroke width of the head")


def outline(S, n):
    st = style_map(n.attrs["style"])
    fill = None if st["fill"] == "none" else st["fill"]
    stroke = None if st["stroke"] == "none" else st["stroke"]
    return points_of(n.attrs["points"]), fill, stroke, float(st.get("stroke-width", "1")), n.tag == "polygon"


def shapes_of(S, deck, backend):
    """Drawn outlines in order."""
    if backend == "svg":
        out = []
        for n in render_pages(S, deck)[0].children:
            if n.tag in ("polygon", "polyline"):
                out.append(outline(S, n))
            elif n.tag == "path":
                out.append(n)
        return out
    out = []
    for o in cairo_ops(deck)[0]:
        if o.kind not in ("fill", "stroke"):
            continue
        pts, closed = [], o.kind == "fill"
        for sub in o.path:
            for seg in sub:
                if seg[0] != "Z":
                    pts.append((seg[1][0] / K, seg[1][1] / K))
        if closed and len(pts) > 3 and S.concrete(near(S, pts[0], pts[-1])):
            pts.pop()
        color = {(1, 0, 0): "red", (0, 0, 0): "black"}[tuple(o.src[1:4])]
        out.append((pts, color if o.kind == "fill" else None, color if o.kind == "stroke" else None, o.lw, closed))
    return out


def line(S, n, start, end, backend, color="red", fixed=None):
    deck = make_deck(S) if backend == "svg" else cairo_deck(S)
    slide = deck.new_slide()
    pts = [point(S, i) for i in range(n)]
    distinct(S, pts[0], pts[1])
    if n > 2:
        distinct(S, pts[-2], pts[-1])
    a = None if start is None else A(S, 0, start, fixed)
    b = None if end is None else A(S, 1, end, fixed)
    if end == "same":
        b = a
    kw = {"color": color} if color != "black" else {}
    slide.line(list(pts), start_arrow=a and a.arrow, end_arrow=b and b.arrow, **kw)
    out = shapes_of(S, deck, backend)
    S.check(len(out) == 1 + (a is not None) + (b is not None), "one line and its arrow heads")
    got = out[0][0]
    want = list(pts)
    if a is not None:
        want[0] = along(S, pts[1], pts[0], a.shift(S))
    if b is not None:
        want[-1] = along(S, pts[-2], pts[-1], b.shift(S))
    S.check(len(got) == n, "points of the line")
    for i, (g, w) in enumerate(zip(got, want)):
        S.check(near(S, g, w), "ends with arrows are shortened along the line" if i in (0, n - 1) else "inner points are unchanged")
    S.check(out[0][2] == color and out[0][1] is None, "colour of the line")
    k = 1
    if a is not None:
        check_head(S, out[k], a, pts[1], pts[0], color)
        k += 1
    if b is not None:
        check_head(S, out[k], b, pts[-2], pts[-1], color)


def tangent(S, cmds):
    """Point the curve arrives from at its end (SVG rules for control points)."""
    cur = ctl = None
    prev = None
    for name, pts in cmds:
        n = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[name]
        for i in range(0, len(pts), n):
            g = pts[i:i + n]
            if name == "T":
                ctl = (2 * cur[0] - ctl[0], 2 * cur[1] - ctl[1]) if prev in ("Q", "T") else cur
            elif name in "CSQ":
                ctl = g[-2]
            prev, before, cur = name, cur, g[-1]
    return ctl, cur


def path(S, shape, opts, fixed=None):
    deck = make_deck(S)
    slide = deck.new_slide()
    cmds, k = [], 0
    for part in shape.split():
        name, n = part[0], int(part[1:])
        cmds.append((name, [point(S, k + i) for i in range(n)]))
        k += n
    p1, p2 = tangent(S, cmds)
    distinct(S, p1, p2)
    a = A(S, 0, opts, fixed)
    slide.path([(c, *pts) for c, pts in cmds], color="red", end_arrow=a.arrow)
    out = shapes_of(S, deck, "svg")
    S.check(len(out) == 2, "one path and its arrow head")
    got = parse_path(out[0].attrs["d"])
    S.check([c for c, _ in got] == [c for c, _ in cmds], "commands of the path")
    want = [list(p) for _, p in cmds]
    want[-1][-1] = along(S, p1, p2, a.shift(S))
    for (c, g), w in zip(got, want):
        S.check(len(g) == len(w), "points of the path")
        for x, y in zip(g, w):
            S.check(near(S, x, y), "only the end of the path is shortened")
    check_head(S, out[1], a, p1, p2, "red")


def reused(S):
    """One arrow on several lines, drawn on several pages."""
    deck = make_deck(S)
    slide = deck.new_slide()
    a = A(S, 0, "", None)
    p = [point(S, i) for i in range(4)]
    distinct(S, p[0], p[1])
    distinct(S, p[2], p[3])
    slide.line(p[:2], color="red", end_arrow=a.arrow)
    slide.box(x=0, y=0, show="1-2").line(p[2:], color="red", end_arrow=a.arrow)
    for page in render_pages(S, deck):
        out = [outline(S, n) for n in page.children if n.tag in ("polygon", "polyline")]
        S.check(len(out) == 4, "lines and arrow heads")
        for k in (0, 1):
            q = p[2 * k:2 * k + 2]
            S.check(near(S, out[2 * k][0][0], q[0]), "the other end is unchanged")
            S.check(near(S, out[2 * k][0][1], along(S, q[0], q[1], a.shift(S))), "ends with arrows are shortened along the line")
            check_head(S, out[2 * k + 1], a, q[0], q[1], "red")


_X = ["M1 C6", "M1 C3 T1", "M1 C3 S4", "M1 Q2 L1 T1"]
_P = ["M1 C3", "M1 Q2", "M1 Q2 T1", "M1 C3 S2", "M1 T1", "M1 L1 T1", "M1 Q2 T2", "M1 Q4"]
HARNESSES = [
    H("line", line, [dict(n=2, start=None, end="", backend="svg"), dict(n=2, start="", end=None, backend="svg"), dict(n=2, start="i", end="s", backend="svg"), dict(n=3, start="s", end="i", backend="svg"),
                     dict(n=2, start=None, end="si", backend="svg"), dict(n=2, start="d", end="same", backend="svg", color="black"), dict(n=2, start="i", end="s", backend="cairo"), dict(n=3, start=None, end="", backend="cairo"),
                     dict(n=3, start="d", end=None, backend="svg"), dict(n=3, start=None, end=None, backend="svg")],
      product(n=[2, 3, 4], start=[None, "", "s", "i", "si", "d"], end=[None, "", "s", "i", "si", "d"], backend=["svg", "cairo"]),
      "lines of 2-4 points, sizes 0.5-100, angles 1-89 degrees, stroke widths 0.5-30, inner factors 1/8-3", "end segments of length zero excluded"),
    H("path", path, product(shape=_P, opts=["", "s"]) + product(shape=["M1 C3", "M1 Q2"], opts=["i"]) + product(shape=_X, opts=["s"]) + [dict(shape="M1 Q4 T1", opts="s", fixed=[30])], product(shape=_P + ["M1 C3 S4", "M1 Q2 T1 T1", "M1 C6", "M1 C3 T1", "M1 L2 S2", "M1 Q2 L1 T1"], opts=["", "s", "i", "si"]),
      "listed command sequences with symbolic points", "paths whose last control point is their end excluded"),
    H("reused", reused, [{}], bounds="one arrow on two lines"),
]
