"""C39: debugging frames show the boxes and change nothing else."""
from symx.session import H, product
from props.lib import make_deck, render_pages, style_map, R
from props.cairolib import cairo_deck, cairo_ops, subpaths, K

FRAME = "#ff00ff"
COLORS = ["#0%x0000" % i for i in range(1, 10)]
SHOWS = ["1+", "1", "2", "2+", "1-2", "3"]


class Tree:
    """The same boxes on two slides, the second one with debugging frames."""

    def __init__(self, S, deck, parents, shows, zs, names, text, sizes="fixed"):
        self.n = len(parents)
        self.parents, self.shows, self.names = parents, shows, names
        geo = []
        fixed = [(30, 40.5), (12.25, 0), (0, 7.125), (100, 3)]

        def number(name, lo, hi):
            if sizes == "fixed":
                return fixed[int(name[1:])]["wh".index(name[0])]
            return S.real(name, lo, hi) if sizes == "real" else S.int(name, lo, hi)
        for i in range(self.n):
            if i % 2 == 0:
                geo.append(dict(x=S.real("x%d" % i, -50, 900), y=S.real("y%d" % i, -50, 600), width=number("w%d" % i, 0, 500), height=number("h%d" % i, 0, 500)))
            else:
                geo.append(dict(width=number("w%d" % i, 0, 500), height=number("h%d" % i, 0, 500), horizontal=True))
        for debug in (False, True):
            root = deck.new_slide("root", bg_color=None, debug_boxes=debug)
            root.rect(bg_color=COLORS[0])
            boxes = [root]
            for i, p in enumerate(parents):
                b = boxes[p].box(show=shows[i], z_level=zs[i], name=names[i], **geo[i])
                b.rect(bg_color=COLORS[i + 1])
                boxes.append(b)
            if text:
                boxes[-1].text("some text")
                boxes[1].line([(1, 2), (3, 4)], color="blue", stroke_width=3)

    def visible(self, i, step):
        """Whether box i (0 is the root) is shown in the fragment."""
        while i > 0:
            s = self.shows[i - 1]
            ok = {"1+": True, "1": step == 1, "2": step == 2, "2+": step >= 2, "1-2": step <= 2, "3": step == 3}[s]
            if not ok:
                return False
            i = self.parents[i - 1]
        return True


def flat(S, n):
    """Everything an element consists of."""
    return (n.tag, sorted(n.attrs.items()), [c if not hasattr(c, "tag") else flat(S, c) for c in n.items])


def same(S, a, b):
    if type(a) is tuple and type(b) is tuple or type(a) is list and type(b) is list:
        return len(a) == len(b) and all([same(S, x, y) for x, y in zip(a, b)])
    return a == b


def frames(S, parents, shows="sym", zs="0", names="none", text=False, sizes="fixed"):
    deck = make_deck(S)
    n = len(parents)
    sh = [S.choice("show%d" % i, SHOWS) if shows == "sym" else shows[i] for i in range(n)]
    if zs == "sym":
        z = [S.int("z%d" % i, -3, 3) for i in range(n)]
    else:
        z = [0] * n
    nm = [None] * n
    if names != "none":
        for i in range(n):
            nm[i] = S.str("name%d" % i, 2, None)
            for c in nm[i]:
                S.assume(S.And(c > " ", c < "\x7f", c != "["))
    t = Tree(S, deck, parents, sh, z, nm, text, sizes)
    out = render_pages(S, deck)
    S.check(len(out) % 2 == 0, "as many pages with frames as without")
    k = len(out) // 2
    for step in range(1, k + 1):
        plain, dbg = out[step - 1], out[k + step - 1]
        S.check(all([plain.attrs[a] == dbg.attrs[a] for a in ("width", "height")]), "same page")
        pitems, ditems = plain.children, list(dbg.children)
        fr, labels, rest = [], [], []
        for m in ditems:
            st = style_map(m.attrs.get("style", ""))
            if m.tag == "rect" and st.get("stroke") == FRAME:
                fr.append((m, len(rest)))
            elif m.tag == "text" and st.get("fill") == FRAME:
                labels.append(m)
            else:
                rest.append(m)
        S.check(len(rest) == len(pitems), "frames change nothing else")
        for a, b in zip(pitems, rest):
            S.check(same(S, flat(S, a), flat(S, b)), "frames change nothing else")
        # boxes of the page by the marker of each
        marks = {}
        for pos, m in enumerate(rest):
            f = style_map(m.attrs.get("style", "")).get("fill")
            if m.tag == "rect" and f in COLORS:
                marks[COLORS.index(f)] = (pos, R(*[float(m.attrs[a]) for a in ("x", "y", "width", "height")]))
        vis = [i for i in range(n + 1) if t.visible(i, step)]
        S.check(sorted(marks) == vis, "visible boxes")
        S.check(len(fr) == len(vis) and len(labels) == len(vis), "one frame and one label for each visible box")
        left = list(range(len(fr)))
        for i in vis:
            pos, r = marks[i]
            w, h = S.max(r.w, 0.1), S.max(r.h, 0.1)
            name = "root" if i == 0 else nm[i - 1]
            found = None
            for j in left:
                m, after = fr[j]
                g = [float(m.attrs[a]) for a in ("x", "y", "width", "height")]
                if after > pos and S.concrete(S.And(S.eq(g[0], r.x), S.eq(g[1], r.y), S.eq(g[2], w), S.eq(g[3], h))) and (name is None or S.concrete(name in labels[j].text().split("[")[0])):
                    found = j
                    break
            S.check(found is not None, "a frame shows the area of each box, above its content, and a label its name")
            left.remove(found)
            m = fr[found][0]
            S.check("fill" not in style_map(m.attrs["style"]) or style_map(m.attrs["style"])["fill"] == "none", "frames are not filled")
            # the labels come in the order of the frames
            tx = labels[found].text()
            S.check(tx.endswith("]"), "labels show the size")
            a, b = tx.split("[")[1][:-1].split(",")
            a, b = float(a), float(b)
            S.check(S.And(a - w <= 0.0051, w - a <= 0.0051, b - h <= 0.0051, h - b <= 0.0051), "a label shows the size of its box")


def cairo(S, parents):
    """Frames on the Cairo backend."""
    deck = cairo_deck(S)
    n = len(parents)
    sh = [S.choice("show%d" % i, SHOWS) for i in range(n)]
    t = Tree(S, deck, parents, sh, [0] * n, [None] * n, False)
    out = cairo_ops(deck)
    k = len(out) // 2
    for step in range(1, k + 1):
        plain, dbg = out[step - 1], out[k + step - 1]
        fr = [o for o in dbg if o.kind == "stroke" and o.src[1:4] == (1, 0, 1)]
        fills = [o for o in dbg if o.kind == "fill"]
        before = [o for o in plain if o.kind == "fill"]
        S.check(len(fills) == len(before), "frames change nothing else")
        vis = [i for i in range(n + 1) if t.visible(i, step)]
        S.check(len(fr) == len(vis) == len(fills), "one frame for each visible box")

        def corners(o):
            return [(s[1][0] / K, s[1][1] / K) for s in subpaths(o)[0] if s[0] in "ML"]
        for a, b in zip(fills, before):
            S.check(a.src == b.src and all([S.concrete(S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1]))) for p, q in zip(corners(a), corners(b))]), "frames change nothing else")
        left = list(fr)
        for a in fills:
            p = corners(a)
            found = None
            for o in left:
                q = corners(o)
                if S.concrete(S.And(S.eq(p[0][0], q[0][0]), S.eq(p[0][1], q[0][1]), S.eq(S.max(p[2][0], p[0][0] + 0.1), q[2][0]), S.eq(S.max(p[2][1], p[0][1] + 0.1), q[2][1]))):
                    found = o
                    break
            S.check(found is not None, "a frame shows the area of each box")
            left.remove(found)


HARNESSES = [
    H("frames", frames, [dict(parents=[0, 1]), dict(parents=[0], shows=["1+"], sizes="real"), dict(parents=[0], shows=["1"], sizes="int"), dict(parents=[0, 0], zs="sym", shows=["1+", "2+"]), dict(parents=[0, 1, 1], shows=["1-2", "2", "1"]),
                         dict(parents=[0, 1], shows=["1+", "1+"], names="sym"), dict(parents=[0, 1, 0], shows=["1+", "1", "2"], text=True)],
      [dict(parents=[0, 1, 2]), dict(parents=[0, 1], shows=["1+", "1-2"], sizes="real"), dict(parents=[0, 1, 0], zs="sym", shows=["1+", "2+", "1"]), dict(parents=[0, 0], names="sym", zs="sym"), dict(parents=[0, 1, 1, 2], shows=["1-2", "2", "1", "2"], text=True)],
      "trees of up to 4 boxes, sizes 0-500, fragments of a list, z-levels -3..3"),
    H("cairo", cairo, [dict(parents=[0, 1])], [dict(parents=[0, 1, 0])], "trees of 2-3 boxes"),
]
