"""C02: fill distribution."""
from symx.session import H
from props.lib import render_pages, rects_by_fill
from props.c01 import Quant, parent_of, child, outer


def fills(S, horizontal, kinds, pad, sym, digits):
    axis = 0 if horizontal else 1
    q = Quant(S, {"main": [axis], "cross": [1 - axis], "both": [0, 1]}[sym])
    q.digits = digits
    deck, parent = parent_of(S, horizontal, q)
    specs, weights = [], []
    for i, (main, cross) in enumerate(kinds):
        args = child(S, parent, i, main, cross, horizontal, pad and i == 0, q)
        specs.append(args)
        size = args.get("width" if horizontal else "height")
        if main == "f1":
            weights.append(1)
        elif main == "f":
            weights.append(int(size[5:-1]))
        else:
            weights.append(0)
        if main == "f":
            S.assume(weights[-1] >= 1)
        if cross == "f":
            S.assume(int(args["height" if horizontal else "width"][5:-1]) >= 1)
    rs = rects_by_fill(render_pages(S, deck)[0])
    area = rs["parent"]
    outers = [outer(rs["c%d" % i], specs[i]) for i in range(len(kinds))]
    used = 0
    total = 0
    managed = []
    for i, (main, cross) in enumerate(kinds):
        if "x" in main:
            continue
        managed.append(outers[i])
        if main[0] == "f":
            total = total + weights[i]
        else:
            used = used + outers[i].size(axis)
    left = area.size(axis) - used
    S.assume(left >= 0)
    for i, (main, cross) in enumerate(kinds):
        if main[0] == "f":
            S.check(S.eq(outers[i].size(axis) * total, left * weights[i]), "fill child gets its share")
        if cross[0] == "f":
            S.check(S.eq(outers[i].size(1 - axis), area.size(1 - axis)), "fill across the axis takes the whole content size")
            S.check(S.eq(outers[i].start(1 - axis), area.start(1 - axis)), "fill across the axis starts at the content edge")
    S.check(S.eq(managed[0].start(axis), area.start(axis)), "first managed child starts at the content edge")
    S.check(S.eq(managed[-1].end(axis), area.end(axis)), "last managed child ends at the content edge")
    for a, b in zip(managed, managed[1:]):
        S.check(S.eq(a.end(axis), b.start(axis)), "no gap between managed children")


def shortcuts(S, horizontal, kind):
    """fbox / sbox / overlay"""
    axis = 0 if horizontal else 1
    q = Quant(S, [0, 1])
    deck, parent = parent_of(S, horizontal, q)
    dim = "width" if horizontal else "height"
    other = parent.box(**{dim: S.real("o", 0)})
    other.rect(bg_color="other")
    new = getattr(parent, kind)()
    new.rect(bg_color="new")
    rs = rects_by_fill(render_pages(S, deck)[0])
    area, o, n = rs["parent"], rs["other"], rs["new"]
    S.assume(S.le(o.size(axis), area.size(axis)))
    S.assume(S.And(area.size(0) >= 0, area.size(1) >= 0))
    S.check(S.eq(n.start(1 - axis), area.start(1 - axis)), "%s covers the cross axis" % kind)
    S.check(S.eq(n.size(1 - axis), area.size(1 - axis)), "%s covers the cross axis" % kind)
    if kind == "fbox":
        S.check(S.eq(n.size(axis), area.size(axis) - o.size(axis)), "fbox takes the remaining space")
    elif kind == "overlay":
        S.check(S.eq(n.start(axis), area.start(axis)), "overlay covers the parent")
        S.check(S.eq(n.size(axis), area.size(axis)), "overlay covers the parent")
    else:
        S.check(S.eq(n.size(axis), 0), "sbox has its content size along the axis")


def _cfgs(tier):
    sets = [
        [("f1", "n")], [("f", "n")], [("f1", "d"), ("f", "n")], [("n", "f"), ("f", "d")], [("f", "n"), ("f", "d"), ("n", "n")],
        [("p", "n"), ("f", "d")], [("nx", "f"), ("f", "n"), ("d", "f1")], [("f1", "nx"), ("f1", "px")], [("p", "n"), ("n", "d"), ("f", "n")],
    ]
    if tier == "thorough":
        sets += [[("f", "n"), ("n", "n"), ("f", "d"), ("p", "n")], [("f", "n"), ("f", "n"), ("f", "n")], [("n", "n"), ("p", "d"), ("d", "d"), ("f1", "d")],
                 [("f", "d"), ("nx", "n"), ("f1", "d"), ("p", "f")], [("f1", "n"), ("f", "n"), ("n", "n"), ("f", "n")]]
    out = []
    for h in (False, True):
        for k in sets:
            out.append(dict(horizontal=h, kinds=k, pad=True, sym="main", digits=1))
            if tier == "thorough":
                out.append(dict(horizontal=h, kinds=k, pad=False, sym="main", digits=2))
                out.append(dict(horizontal=h, kinds=k, pad=True, sym="cross", digits=1))
        for k in [[("f1", "f"), ("n", "f1")], [("f", "f1"), ("f", "d")]]:
            out.append(dict(horizontal=h, kinds=k, pad=True, sym="cross", digits=1))
    return out


HARNESSES = [
    H("fills", fills, _cfgs("quick"), _cfgs("thorough"),
      "1-3 children (thorough: 4), all weights 1-9 (thorough: 1-99), real-valued sizes/paddings, NN% sizes", "content does not overflow the parent"),
    H("shortcuts", shortcuts, [dict(horizontal=h, kind=k) for h in (False, True) for k in ("fbox", "sbox", "overlay")],
      bounds="one parent with symbolic geometry, one fixed sibling"),
]
