"""C20: image fragments appear exactly in the slide fragments they select."""
from symx.session import H, product
from envs.etfake import E, C, LABEL, svg_file
from props.lib import make_deck, render_pages, mark
from props.c07 import meaning, visible, highest


def label(S, n, form):
    """(label, selector meaning or None); '?' is a digit."""
    if form is None:
        return None, None
    if "**" not in form:
        return form, None
    d = S.str("d%d" % n, form.count("?"), "1234")
    text, k = "", 0
    for c in form:
        if c == "?":
            text = text + d[k]
            k += 1
        else:
            text = text + c
    m = meaning(text.split("**")[1], None)
    if m is None:
        S.assume(False)  # reversed range
    return text, m


class T:
    """Element of an image: labels, tag and items."""

    def __init__(self, tag, form, *items):
        self.tag, self.form, self.items = tag, form, items


def build(S, t, count, sel):
    """Description with symbolic labels; sel: id -> meaning."""
    if isinstance(t, (str, C)):
        return t
    n = count[0]
    count[0] += 1
    a = {"id": "e%d" % n}
    lab, m = label(S, n, t.form)
    if lab is not None:
        a[LABEL] = lab
    sel[n] = m
    return E(t.tag, a, *[build(S, i, count, sel) for i in t.items])


def document(S, items):
    sel, count = {}, [0]
    its = [build(S, i, count, sel) for i in items]
    return E("svg", {"width": "40", "height": "20"}, *its), sel


def pruned(S, e, sel, step):
    """[tag, attributes, items] of what is visible in an image fragment (None step: everything)."""
    items = []
    for i in e.items:
        if isinstance(i, C):
            continue
        if isinstance(i, E):
            m = sel[int(i.attrs["id"][1:])]
            if step is not None and m is not None and not S.concrete(visible(S, m, step)):
                continue
            items.append(pruned(S, i, sel, step))
        elif items and not isinstance(items[-1], list):
            items[-1] = items[-1] + i
        else:
            items.append(i)
    return [e.tag, e.attrs, items]


def compare(S, node, want, root=True):
    S.check(node.tag == want[0], "the visible elements are drawn, and no others")
    if not root:
        S.check(node.attrs.get("id") == want[1]["id"], "the visible elements are drawn, and no others")
        S.check(node.attrs.get(LABEL) == want[1].get(LABEL), "attributes are kept")
    items = node.items
    S.check(len(items) == len(want[2]), "the visible content is drawn, and no other")
    for g, w in zip(items, want[2]):
        S.check(isinstance(w, list) == hasattr(g, "tag"), "the visible content is drawn, and no other")
        if isinstance(w, list):
            compare(S, g, w, False)
        else:
            S.check(g == w, "texts are kept")


def images(page):
    return [g.find_all("svg")[0] for g in page.children if g.tag == "g"]


def steps_of(S, sel):
    r = 1
    for m in sel.values():
        if m is not None:
            r = S.max(r, highest(S, m))
    return r


def check_page(S, node, doc, sel, step):
    compare(S, node, pruned(S, doc, sel, step))


def whole(S, tree, begin, extra):
    """An image with fragments; the slide may have further fragments."""
    deck = make_deck(S)
    doc, sel = document(S, TREES[tree])
    p = svg_file(S, doc)
    slide = deck.new_slide()
    first = S.int("begin", 1, 3) if begin else 1
    if begin:
        slide.box().image(p, show_begin=first)
    else:
        slide.box().image(p)
    total = first - 1 + steps_of(S, sel)
    if extra:
        slide.box(show="6")
        total = S.max(total, 6)
    pages = render_pages(S, deck)
    S.check(S.eq(len(pages), total), "page count")
    for i, page in enumerate(pages):
        step = i + 1 - first + 1
        ims = images(page)
        if S.concrete(step < 1):
            S.check(not ims, "nothing is drawn before the first fragment")
        else:
            S.check(len(ims) == 1, "the image is drawn")
            check_page(S, ims[0], doc, sel, S.concrete(step))


def selected(S, tree, n, begin):
    """Explicit selection of image fragments."""
    deck = make_deck(S)
    doc, sel = document(S, TREES[tree])
    p = svg_file(S, doc)
    slide = deck.new_slide()
    lst = [S.choice("f%d" % i, [None, 1, 2, 3, 5]) for i in range(n)]
    first = S.int("begin", 1, 3) if begin else 1
    if begin:
        slide.box().image(p, select_fragments=list(lst), show_begin=first)
    else:
        slide.box().image(p, select_fragments=list(lst))
    extra = S.choice("extra", [1, 6])
    slide.box(show=extra)
    pages = render_pages(S, deck)
    S.check(S.eq(len(pages), S.max(extra, first - 1 + n)), "page count")
    for i, page in enumerate(pages):
        k = S.concrete(i + 1 - first)
        ims = images(page)
        if 0 <= k < n and lst[k] is not None:
            S.check(len(ims) == 1, "the selected fragment is drawn")
            check_page(S, ims[0], doc, sel, lst[k])
        else:
            S.check(not ims, "nothing is drawn")


def plain(S, tree, begin):
    """Fragments are not loaded."""
    deck = make_deck(S)
    doc, sel = document(S, TREES[tree])
    p = svg_file(S, doc)
    slide = deck.new_slide()
    first = S.int("begin", 1, 3) if begin else 1
    if begin:
        slide.box().image(p, fragments=False, show_begin=first)
    else:
        slide.box().image(p, fragments=False)
    extra = S.choice("extra", [1, 4])
    slide.box(show=extra)
    pages = render_pages(S, deck)
    S.check(S.eq(len(pages), S.max(extra, first)), "page count")
    for i, page in enumerate(pages):
        ims = images(page)
        if S.concrete(i + 1 < first):
            S.check(not ims, "nothing is drawn before the first fragment")
        else:
            S.check(len(ims) == 1, "the image is drawn")
            check_page(S, ims[0], doc, sel, None)


def several(S, tree, mode):
    """The same file drawn several times: one drawing does not affect the others."""
    deck = make_deck(S)
    doc, sel = document(S, TREES[tree])
    p = svg_file(S, doc)
    slide = deck.new_slide()
    other = deck.new_slide()
    first = S.int("begin", 1, 2)
    slide.box().image(p, show_begin=first)
    if mode == "plain":
        slide.box().image(p, fragments=False)
        other.box().image(p, fragments=False)
    else:
        slide.box().image(p)
        other.box().image(p)
    n = S.concrete(steps_of(S, sel))
    pages = render_pages(S, deck)
    f = S.concrete(first)
    total = max(f - 1 + n, 1 if mode == "plain" else n)
    S.check(len(pages) == total + (1 if mode == "plain" else n), "page count")
    for i, page in enumerate(pages):
        ims = images(page)
        if i < total:
            k = i + 2 - f
            if k >= 1:
                S.check(len(ims) == 2, "both images are drawn")
                check_page(S, ims[0], doc, sel, k)
            else:
                S.check(len(ims) == 1, "one image is drawn")
            check_page(S, ims[-1], doc, sel, None if mode == "plain" else i + 1)
        else:
            S.check(len(ims) == 1, "the image is drawn")
            check_page(S, ims[0], doc, sel, None if mode == "plain" else i - total + 1)


def malformed(S, form):
    """Malformed labels are rejected."""
    deck = make_deck(S)
    lab = S.str("l", form.count("?"), "12,+-x ")
    m = meaning(lab, None)
    p = svg_file(S, E("svg", {"width": "40", "height": "20"}, E("g", {}, E("g", {"id": "e0", LABEL: "a**" + lab}))))
    slide = deck.new_slide()
    err = S.raised(lambda: slide.image(p))
    S.check((err is None) == (m is not None), "malformed selectors of labels are rejected")
    S.check(S.raised(lambda: slide.image(p, fragments=False)) is None, "labels are ignored without fragments")


TREES = {
    "nested": [T("g", "a**?+", T("circle", None), T("g", "**?", T("circle", None))), T("circle", None)],
    "siblings": [T("circle", "**?"), T("circle", "b **?+**c"), T("circle", "**?-?"), T("circle", "name")],
    "text": ["\n ", T("text", None, "one ", T("tspan", "**?", "two"), " three ", T("tspan", "**2+", "four"), " five"), "\n"],
    "first": [T("circle", "**1"), T("g", "**1,?", T("circle", None)), T("circle", "plain")],
    "ones": [T("circle", "**1"), T("g", None, T("circle", "**1"), T("circle", "**1+"))],
    "comment": [C(" c "), T("g", "x * y", C("d"), T("circle", "**?")), " ", C("e"), T("circle", "**?")],
    "deep": [T("g", None, T("g", "**?-?", T("g", "**?+", T("circle", "**?"), T("circle", None)), T("circle", None)))],
    "none": [T("g", "layer", T("circle", None))],
    "many": [T("circle", "**?"), T("circle", "**?,?+"), T("circle", "**?-?"), T("g", "**?+", T("circle", "**?"))],
}
HARNESSES = [
    H("whole", whole, product(tree=["nested", "siblings", "text", "first", "ones", "comment", "none"], begin=[False], extra=[False, True]) + product(tree=["siblings", "text"], begin=[True], extra=[False]),
      product(tree=list(TREES), begin=[False, True], extra=[False, True]), "listed trees of up to 6 elements whose labels have symbolic fragment numbers 1-4; first fragment 1-3"),
    H("selected", selected, product(tree=["nested", "text"], n=[2], begin=[False]) + product(tree=["ones"], n=[1, 2], begin=[True]),
      product(tree=["nested", "text", "ones", "siblings", "comment"], n=[0, 1, 2, 3], begin=[False, True]), "selection lists of up to 2 (thorough 3) entries"),
    H("plain", plain, product(tree=["nested", "text", "ones", "none"], begin=[False, True]), product(tree=list(TREES), begin=[False, True]), "images without fragments"),
    H("several", several, product(tree=["first", "text"], mode=["frag", "plain"]), product(tree=["first", "text", "nested", "comment", "ones", "none"], mode=["frag", "plain"]), "the same image three times on two slides"),
    H("malformed", malformed, product(form=["?", "??", "???"]), product(form=["?", "??", "???", "????"]), "labels of up to 3 (4) characters"),
]
