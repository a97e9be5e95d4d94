"""C04: explicit positions."""
from symx.session import H, product
from props.lib import render_pages, rects_by_fill, mark
from props.c01 import Quant, parent_of, outer


def position(S, name, kind):
    """(argument, fn(origin, full, own) -> expected outer start)"""
    if kind == "n":
        v = S.real(name)
        return v, lambda o, f, w: o + v
    if kind == "i":
        v = S.int(name, -1000, 1000)
        return v, lambda o, f, w: o + v
    t = S.str(name, 2, "0123456789")
    v = int(t)
    if kind == "s":
        return t, lambda o, f, w: o + v
    if kind == "p":
        return t + "%", lambda o, f, w: o + f * v / 100
    if kind == "a":
        return "[" + t + "%]", lambda o, f, w: o + (f - w) * v / 100
    if kind == "A":
        return "[1" + t + "%]", lambda o, f, w: o + (f - w) * (100 + v) / 100
    raise ValueError(kind)


def place(S, horizontal, xk, yk, size, pads, siblings):
    q = Quant(S, [0, 1])
    deck, parent = parent_of(S, horizontal, q)
    if siblings:
        mark(parent.box(width=41, height=43), "s0")
    args = {}
    if xk != "d":
        args["x"], ex = position(S, "x", xk)
    if yk != "d":
        args["y"], ey = position(S, "y", yk)
    if size == "n":
        args["width"], args["height"] = S.real("w", 0), S.real("h", 0)
    elif size == "p":
        args["width"], args["height"] = S.str("w", 2, "0123456789") + "%", S.str("h", 2, "0123456789") + "%"
    elif size == "f":
        args["width" if not horizontal else "height"] = "fill"
    if pads:
        for p in ("p_left", "p_right", "p_top", "p_bottom"):
            args[p] = S.real(p + "c", 0)
    mark(parent.box(**args), "c")
    if siblings:
        mark(parent.box(width=29, height=31), "s1")
    rs = rects_by_fill(render_pages(S, deck)[0])
    area = rs["parent"]
    o = outer(rs["c"], args)
    if xk != "d":
        S.check(S.eq(o.x, ex(area.x, area.w, o.w)), "x position")
    if yk != "d":
        S.check(S.eq(o.y, ey(area.y, area.h, o.h)), "y position")
    if siblings and (xk != "d" if horizontal else yk != "d"):
        axis = 0 if horizontal else 1
        S.check(S.eq(rs["s0"].end(axis), rs["s1"].start(axis)), "positioned child takes no room in the stack")


def _cfgs(tier):
    out = []
    for h in (False, True):
        for k in ("n", "i", "s", "p", "a", "A"):
            out.append(dict(horizontal=h, xk=k, yk="d", size="n", pads=False, siblings=False))
            out.append(dict(horizontal=h, xk="d", yk=k, size="n", pads=False, siblings=False))
        for xk, yk, size in (("a", "a", "n"), ("p", "a", "p"), ("a", "p", "f"), ("n", "p", "n")):
            out.append(dict(horizontal=h, xk=xk, yk=yk, size=size, pads=False, siblings=True))
        out.append(dict(horizontal=h, xk="a", yk="a", size="n", pads=True, siblings=False))
        out.append(dict(horizontal=h, xk="a", yk="a", size="d", pads=True, siblings=False))
        if tier == "thorough":
            for xk in "nspa":
                for yk in "nspad":
                    for size in "npfd":
                        out.append(dict(horizontal=h, xk=xk, yk=yk, size=size, pads=size != "n", siblings=False))
    return out


HARNESSES = [
    H("place", place, _cfgs("quick"), _cfgs("thorough"),
      "one positioned child (both axes, all forms, two-digit numbers, [0%]..[199%]) in a parent with symbolic geometry, optional managed siblings"),
]
