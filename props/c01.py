"""C01/C02: stacking and fill distribution."""
from symx.session import H, product
from props.lib import make_deck, render_pages, rects_by_fill, mark


class Quant:
    """Quantities of one harness: symbolic on the axes listed in sym, fixed numbers elsewhere."""

    FIXED = {"px": 37, "py": 23, "pw": 611, "ph": 407, "pl": 5, "pr": 11, "pt": 7, "pb": 13}

    digits = 1

    def __init__(self, S, sym):
        self.S = S
        self.sym = sym
        self.n = 0

    def real(self, name, axis, lo=None):
        if axis in self.sym:
            return self.S.real(name, lo)
        self.n += 1
        return self.FIXED.get(name, 17 * self.n + 3)

    def percent(self, name, axis):
        if axis in self.sym:
            return self.S.str(name, 2, "0123456789") + "%"
        self.n += 1
        return "%d%%" % (7 * self.n + 4)


def parent_of(S, horizontal, q):
    deck = make_deck(S)
    slide = deck.new_slide()
    args = dict(x=q.real("px", 0), y=q.real("py", 1), width=q.real("pw", 0, 0), height=q.real("ph", 1, 0))
    parent = slide.box(horizontal=horizontal, p_left=q.real("pl", 0, 0), p_right=q.real("pr", 0, 0),
                       p_top=q.real("pt", 1, 0), p_bottom=q.real("pb", 1, 0), **args)
    mark(parent, "parent")
    return deck, parent


def child(S, parent, i, main, cross, horizontal, pad, q):
    """main/cross: n(umber) p(ercent) d(efault) f(ill) and 'x' = explicit position too."""
    args = {}
    axis = 0 if horizontal else 1
    dims = ("width", "height")
    pos = ("x", "y")
    for kind, ax in ((main, axis), (cross, 1 - axis)):
        dim, ps = dims[ax], pos[ax]
        k = kind[0]
        if k == "n":
            args[dim] = q.real("%s%d" % (dim, i), ax, 0)
        elif k == "p":
            args[dim] = q.percent("%s%d" % (dim, i), ax)
        elif k == "f":
            args[dim] = "fill" if kind.endswith("1") else "fill(" + S.str("%s%dfill" % (dim, i), q.digits, "0123456789") + ")"
        if "x" in kind:
            args[ps] = q.real("%s%d" % (ps, i), ax)
    if pad:
        for p, ax in (("p_left", 0), ("p_right", 0), ("p_top", 1), ("p_bottom", 1)):
            args[p] = q.real("%s%d" % (p, i), ax, 0)
        if k == "f" and not kind.endswith("1"):
            S.assume(int(args[dim][5:-1]) >= 1)
    b = parent.box(**args)
    mark(b, "c%d" % i)
    return args


def outer(r, args):
    from props.lib import R
    l, t = args.get("p_left", 0), args.get("p_top", 0)
    return R(r.x - l, r.y - t, r.w + l + args.get("p_right", 0), r.h + t + args.get("p_bottom", 0))


def stack(S, horizontal, kinds, pad, sym):
    axis = 0 if horizontal else 1
    q = Quant(S, {"main": [axis], "cross": [1 - axis], "both": [0, 1]}[sym])
    deck, parent = parent_of(S, horizontal, q)
    specs = []
    for i, (main, cross) in enumerate(kinds):
        specs.append(child(S, parent, i, main, cross, horizontal, pad and i == 0, q))
    page = render_pages(S, deck)[0]
    rs = rects_by_fill(page)
    area = rs["parent"]
    stackd = []
    for i, (main, cross) in enumerate(kinds):
        o = outer(rs["c%d" % i], specs[i])
        if "x" not in main:
            stackd.append(o)
        if "x" not in cross:
            before = o.start(1 - axis) - area.start(1 - axis)
            after = area.end(1 - axis) - o.end(1 - axis)
            S.check(S.eq(before, after), "centred across the axis")
    for a, b in zip(stackd, stackd[1:]):
        S.check(S.eq(a.end(axis), b.start(axis)), "next child starts where the previous ends")
    if stackd:
        S.check(S.eq(stackd[0].start(axis) - area.start(axis), area.end(axis) - stackd[-1].end(axis)), "leftover space equal before and after")


def prepended(S, horizontal):
    """The order of the stack is the order of the children, also with prepend."""
    axis = 0 if horizontal else 1
    deck, parent = parent_of(S, horizontal, Quant(S, [axis]))
    dim = "width" if horizontal else "height"
    mark(parent.box(**{dim: S.real("a", 0)}), "c0")
    mark(parent.box(prepend=True, **{dim: S.real("b", 0)}), "c1")
    mark(parent.box(**{dim: S.real("c", 0)}), "c2")
    rs = rects_by_fill(render_pages(S, deck)[0])
    order = [rs["c1"], rs["c0"], rs["c2"]]
    for a, b in zip(order, order[1:]):
        S.check(S.eq(a.end(axis), b.start(axis)), "next child starts where the previous ends")
    area = rs["parent"]
    S.check(S.eq(order[0].start(axis) - area.start(axis), area.end(axis) - order[-1].end(axis)), "leftover space equal before and after")


def _cfgs(tier):
    out = []
    mains = ["n", "p", "d", "nx"]
    combos = []
    for a in mains:
        for b in mains:
            combos.append([(a, "n"), (b, "p")])
    combos.append([("p", "n"), ("n", "f"), ("nx", "d")])
    if tier == "thorough":
        for a in mains:
            for b in mains:
                for c in mains:
                    combos.append([(a, "n"), (b, "p"), (c, "nx")])
        for a in ["n", "p", "nx"]:
            for b in ["n", "nx"]:
                combos.append([(a, "n"), (b, "d"), ("n", "d"), ("p", "d"), (a, "f")])
    cross = [[("n", c), ("p", d)] for c, d in (("n", "p"), ("d", "f"), ("nx", "n"), ("px", "d"))]
    cross.append([("f", "n"), ("nx", "p"), ("d", "d")])
    for h in (False, True):
        for k in combos:
            out.append(dict(horizontal=h, kinds=k, pad=True, sym="main"))
            if tier == "thorough":
                out.append(dict(horizontal=h, kinds=k, pad=False, sym="main"))
        for k in cross:
            out.append(dict(horizontal=h, kinds=k, pad=True, sym="cross"))
        for m in ("n", "p", "d"):
            for c in ("n", "p"):
                out.append(dict(horizontal=h, kinds=[(m, c)], pad=False, sym="both"))
        if tier == "thorough":
            for m in ("n", "p", "d"):
                for c in ("n", "p", "nx"):
                    out.append(dict(horizontal=h, kinds=[(m, c)], pad=True, sym="both"))
                    out.append(dict(horizontal=h, kinds=[(m, c), ("n", "n")], pad=False, sym="both"))
    return out


BOUNDS = ("parent with symbolic position, size and paddings (reals >= 0); %s children, each with symbolic size (number, NN%%, content) and "
          "optionally explicit position; both orientations; first child with symbolic paddings; sym=main/cross/both: which axis has symbolic quantities")
HARNESSES = [
    H("stack", stack, _cfgs("quick"), _cfgs("thorough"), BOUNDS % "1-3 (thorough: up to 5)"),
    H("prepended", prepended, product(horizontal=[False, True]), bounds="3 children, one prepended"),
]
