"""C05: dynamic coordinates."""
from symx.session import H, product
from props.lib import render_pages, rects_by_fill, mark, points_of, parse_path
from props.c01 import Quant, parent_of
from props.c04 import position


def endpoints(page):
    """Points of all polylines (SVG order)."""
    return [points_of(n.attrs["points"]) for n in page.find_all("polyline")]


def target(S, horizontal):
    deck, parent = parent_of(S, horizontal, Quant(S, [0, 1]))
    return deck, parent


def expect(r, ex, ey):
    return ex(r.x, r.w, 0), ey(r.y, r.h, 0)


def coordinates(S, horizontal, kind, off, when):
    """Lines between points given in all ways; layout computed when=once/again (after more boxes were added)."""
    deck, parent = target(S, horizontal)
    box = parent.box(width=S.real("w", 0), height=S.real("h", 0))
    mark(box, "t")
    xa, ex = position(S, "px1", kind[0])
    ya, ey = position(S, "py1", kind[1])
    pt = box.p(xa, ya)
    mid = box.mid_point()
    lx, ly = box.x(xa), box.y(ya)
    dx, dy = (S.real("dx"), S.real("dy")) if off else (0, 0)
    first = pt
    if off:
        moved = pt.add(dx, dy)
        twice = moved.add(dy, dx)
        mx = lx.add(dx)
        my = ly.map(lambda v: v * 2 - dy)
    parent.line([pt, mid], color="black")
    parent.line([(lx, ly), (xa, ya)])
    if off:
        parent.line([moved, twice])
        parent.line([(mx, my), pt])
    for rnd in range(2 if when == "again" else 1):
        if rnd:
            # change the geometry and lay out again
            late = [box.p(xa, ya), box.mid_point(), (box.x(xa), box.y(ya)), parent.p(xa, ya)]
            parent.box(width=S.real("w2", 0), height=S.real("h2", 0), prepend=True)
            parent.line(late)
        page = render_pages(S, deck)[0]
        rs = rects_by_fill(page)
        t, area = rs["t"], rs["parent"]
        ls = endpoints(page)
        x, y = expect(t, ex, ey)
        S.check(S.eq(ls[0][0], (x, y)), "point of a box")
        S.check(S.eq(ls[0][1], (t.x + t.w / 2, t.y + t.h / 2)), "mid point")
        S.check(S.eq(ls[1][0], (x, y)), "pair of dynamic coordinates")
        S.check(S.eq(ls[1][1], expect(area, ex, ey)), "plain pair is relative to the drawing box")
        if off:
            S.check(S.eq(ls[2][0], (x + dx, y + dy)), "offset point")
            S.check(S.eq(ls[2][1], (x + dx + dy, y + dy + dx)), "offset of an offset")
            S.check(S.eq(ls[3][0], (x + dx, y * 2 - dy)), "mapped coordinates")
            S.check(S.eq(ls[3][1], (x, y)), "adding an offset leaves the original unchanged")
        if rnd:
            want = [(x, y), (t.x + t.w / 2, t.y + t.h / 2), (x, y), expect(area, ex, ey)]
            for g, w in zip(ls[-1], want):
                S.check(S.eq(g, w), "coordinates created after a rendering follow the final layout")


def placed(S, horizontal, kind, dims):
    """Boxes positioned and sized by dynamic coordinates of an earlier box."""
    deck, parent = target(S, horizontal)
    box = parent.box(width=S.real("w", 0), height=S.real("h", 0), x=S.real("tx"), y=S.real("ty"))
    mark(box, "t")
    xa, ex = position(S, "px1", kind[0])
    ya, ey = position(S, "py1", kind[1])
    args = {}
    if dims:
        args = dict(width=box.x(xa), height=box.y(ya).add(3))
    else:
        args = dict(width=S.real("cw", 0), height=S.real("ch", 0))
    dx = S.real("dx")
    c = parent.box(x=box.x(xa).add(dx), y=box.y(ya), **args)
    mark(c, "c")
    rs = rects_by_fill(render_pages(S, deck)[0])
    t, r = rs["t"], rs["c"]
    x, y = expect(t, ex, ey)
    S.check(S.eq(r.x, x + dx), "box at a dynamic x")
    S.check(S.eq(r.y, y), "box at a dynamic y")
    if dims:
        S.check(S.eq(r.w, x), "dynamic width")
        S.check(S.eq(r.h, y + 3), "dynamic height")


def shapes(S, kind):
    """Polygon and path coordinates; several boxes share code but not geometry."""
    deck, parent = target(S, False)
    a = parent.box(width=S.real("w", 0), height=S.real("h", 0))
    b = parent.box(width=S.real("w2", 0), height=S.real("h2", 0))
    mark(a, "a")
    mark(b, "b")
    xa, ex = position(S, "px1", kind[0])
    ya, ey = position(S, "py1", kind[1])
    parent.polygon([a.p(xa, ya), b.p(xa, ya), (xa, ya)], bg_color="red")
    b.path([("M", a.p(xa, ya)), ("L", (xa, ya)), ("Q", b.mid_point(), a.mid_point())])
    page = render_pages(S, deck)[0]
    rs = rects_by_fill(page)
    pts = points_of(page.find_all("polygon")[0].attrs["points"])
    pa, pb, pp = (expect(rs[n], ex, ey) for n in ("a", "b", "parent"))
    S.check(S.eq(pts[0], pa), "polygon point of a box")
    S.check(S.eq(pts[1], pb), "polygon point of another box")
    S.check(S.eq(pts[2], pp), "plain polygon point")
    path = parse_path(page.find_all("path")[0].attrs["d"])
    S.check([c for c, _ in path] == ["M", "L", "Q"], "path commands")
    got = [p for _, ps in path for p in ps]
    mid = lambda r: (r.x + r.w / 2, r.y + r.h / 2)
    S.check(S.eq(got, [pa, pb, mid(rs["b"]), mid(rs["a"])]), "path points")


KQ = ["nn", "pp", "aa", "ip", "sa"]
KT = [a + b for a in "nispaA" for b in "nispaA"]
HARNESSES = [
    H("coordinates", coordinates, product(horizontal=[False, True], kind=KQ, off=[True], when=["once"]) + product(horizontal=[False], kind=["np"], off=[True], when=["again"]),
      product(horizontal=[False, True], kind=KT, off=[False, True], when=["once", "again"]), "one box with symbolic geometry; all coordinate forms; layout computed once or again after adding a box"),
    H("placed", placed, product(horizontal=[False, True], kind=["np", "pa", "aa"], dims=[False, True]),
      product(horizontal=[False, True], kind=KT, dims=[False, True]), "one box placed/sized by dynamic coordinates of an earlier sibling"),
    H("shapes", shapes, product(kind=["np", "pa", "an"]), product(kind=KT), "polygon and path using points of two boxes"),
]
