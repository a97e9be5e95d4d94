"""C08: fragment counting over creation histories."""
import os
from symx.session import H, product
from props.lib import make_deck, render_units, render_pages, rects_by_fill, mark
from props.c07 import meaning, visible, highest


def svg_file(S, n, name):
    """An SVG file with n fragments (labels **1** .. **n**)."""
    p = os.path.join(S.tmp, name)
    with open(p, "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" width="20" height="10">')
        for i in range(1, n + 1):
            f.write('<g inkscape:label="x **%d**"><circle r="%d"/></g>' % (i, i))
        f.write("</svg>")
    return p


def selector(S, i, kind):
    """(argument, selector text or None)"""
    if kind == "-":
        return None, None
    if kind == "i":
        v = S.int("n%d" % i, 1, 4)
        return v, v
    if kind[0] == "d":
        # digits chosen symbolically
        t = kind[1:].replace("A", S.str("a%d" % i, 1, "1234")).replace("B", S.str("b%d" % i, 1, "1234"))
        return t, t
    return kind, kind


def history(S, ops, where):
    deck = make_deck(S)
    slide = deck.new_slide()
    boxes = []
    expected = []
    cur = 1
    S.check(S.eq(slide.current_fragment(), 1), "a new slide has one fragment")
    parents = [slide]
    for i, kind in enumerate(ops):
        parent = parents[where[i] if i < len(where) else 0]
        if kind[0] in "SC":
            # an image, C: in a box that is shown in one fragment only
            n = int(kind[1])
            begin = S.int("begin%d" % i, 1, 3)
            m = ([], 1)
            kw = {}
            if kind[0] == "C":
                v = kw["show"] = S.int("n%d" % i, 1, 4)
                m = ([(v, v)], None)
            b = parent.box(width=50, height=40, **kw)
            b.image(svg_file(S, n, "im%d.svg" % i), show_begin=begin)
            expected.append((b, m, parent))
            cur = S.max(cur, S.max(highest(S, m), begin - 1 + n))
        else:
            arg, text = selector(S, i, kind)
            if isinstance(text, int):
                m = ([(text, text)], None)
            elif text is None:
                m = ([], 1)
            else:
                m = meaning(text, cur)
                if m is None:
                    S.check(S.raised(lambda: parent.box(show=arg)) is not None, "malformed selector is rejected")
                    S.check(S.eq(slide.current_fragment(), cur), "a rejected box changes nothing")
                    expected.append(None)
                    parents.append(slide)
                    continue
            b = parent.box(show=arg, width=10, height=10)
            expected.append((b, m, parent))
            cur = S.max(cur, highest(S, m))
        mark(b, "c%d" % i)
        parents.append(b)
        S.check(S.eq(slide.current_fragment(), cur), "current fragment is the highest mentioned so far")
        S.check(S.eq(b.current_fragment(), cur), "every box reports the slide's current fragment")
    total = 1
    for i, e in enumerate(expected):
        if e is not None:
            total = S.max(total, highest(S, e[1]))
    pages = render_pages(S, deck)
    S.check(S.eq(len(pages), cur), "one page per fragment")
    for k, p in enumerate(pages):
        rs = rects_by_fill(p)
        vis = [True]
        for i, e in enumerate(expected):
            if e is None:
                vis.append(True)
                continue
            v = S.And(vis[where[i] if i < len(where) else 0], visible(S, e[1], k + 1))
            vis.append(v)
            S.check(S.concrete(v) == (("c%d" % i) in rs), "box painted exactly in its fragments")


def pages_of(deck, box):
    return len(render_units(deck, select_slides=[box.slide]))


def two_slides(S, a, b):
    """Fragments of one slide do not influence another."""
    deck = make_deck(S)
    s1 = deck.new_slide()
    n = S.int("n", 1, 4)
    s1.box(show=n)
    s2 = deck.new_slide()
    S.check(S.eq(s2.current_fragment(), 1), "a new slide has one fragment")
    x, t = selector(S, 1, a)
    m = meaning(t, 1)
    S.assume(m is not None)
    s2.box(show=x)
    y, u = selector(S, 2, b)
    s1.box(show=y)
    mu = meaning(u, n)
    S.check(S.eq(s2.current_fragment(), highest(S, m)), "slides count fragments separately")
    S.check(S.eq(s1.current_fragment(), S.max(n, highest(S, mu))), "slides count fragments separately")
    S.check(S.eq(pages_of(deck, s1), S.max(n, highest(S, mu))), "page count of the first slide")
    S.check(S.eq(pages_of(deck, s2), highest(S, m)), "page count of the second slide")


Q = [["next"], ["next", "last"], ["i", "next+"], ["dA-B", "next"], ["last+", "next", "next"], ["dA,B", "last-4"], ["next", "dA+", "last"],
     ["S2", "next"], ["i", "S3"], ["-", "next-3", "last+"], ["next", "S2", "last"],
     ["dA,B+", "next"], ["dA+,B", "last", "next"], ["C3", "next"], ["next", "C2", "last+"]]
T = [[a, b, c] for a in ("next", "i", "dA-B", "S2", "-") for b in ("last", "next+", "dA,B", "S3", "next-4") for c in ("next", "last", "dA+", "last+", "next,1")] + \
    [[a, b, "next", c] for a in ("next", "dA") for b in ("last+", "S2", "C3", "dA,B+") for c in ("last", "next-6", "S1")]
HARNESSES = [
    H("history", history, product(ops=Q, where=[[0, 0, 0]]) + [dict(ops=["next", "next", "last"], where=[0, 1, 2]), dict(ops=["dA-B", "next+", "last"], where=[0, 1, 0]), dict(ops=["dA", "S2", "next"], where=[0, 1, 2])],
      product(ops=T, where=[[0, 0, 0], [0, 1, 2]]), "histories of up to 3 (thorough 4) creations (boxes with all selector forms and symbolic numbers 1-4, images with 1-3 fragments from symbolic first fragment), flat and nested"),
    H("two_slides", two_slides, product(a=["next", "dA-B", "last+"], b=["next", "last", "next+", "dA"]), bounds="two slides, symbolic numbers 1-4"),
]
