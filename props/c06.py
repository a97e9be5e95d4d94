"""C06: grammar and meaning of size and position strings."""
from symx.session import H, product
from props.lib import make_deck, render_pages, rects_by_fill, mark

W, HH = 640, 420


def digits(s):
    if len(s) == 0:
        return False
    for c in s:
        if not ("0" <= c <= "9"):
            return False
    return True


def size_meaning(s):
    """Reference reading of a size string: (kind, number) or None."""
    if digits(s):
        return "n", int(s)
    if s.endswith("%") and digits(s[:-1]):
        return "p", int(s[:-1])
    if s == "fill":
        return "f", 1
    if s.startswith("fill(") and s.endswith(")") and digits(s[5:-1]):
        return "f", int(s[5:-1])
    return None


def pos_meaning(s):
    if digits(s):
        return "n", int(s)
    if s.endswith("%") and digits(s[:-1]):
        return "p", int(s[:-1])
    if s.startswith("[") and s.endswith("%]") and digits(s[1:-2]):
        return "a", int(s[1:-2])
    return None


def ascii_digits_only(S, s):
    """Non-ASCII decimal digits are left unspecified."""
    for c in s:
        if c > "\x7f" and c.isdecimal():
            S.assume(False)


def text_input(S, n, alphabet, frame=("", "")):
    s = S.str("s", n, alphabet)
    if alphabet is None:
        ascii_digits_only(S, s)
    return frame[0] + s + frame[1]


def size_string(S, n, alphabet, horizontal, dim, frame=("", "")):
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=0, y=0, width=W, height=HH, horizontal=horizontal)
    mark(parent, "parent")
    s = text_input(S, n, alphabet, frame)
    other = {"height": 50} if dim == "height" else {"width": 50}
    holder = {}

    def create():
        holder["b"] = parent.box(**{dim: s})
    err = S.raised(create)
    m = size_meaning(s)
    if n == 0:
        return  # an empty size is the same as no size
    S.check((err is None) == (m is not None), "accepted exactly when it is a size string")
    if m is None:
        S.check(len(parent.children) == 1, "a rejected size creates nothing")
        return
    kind, v = m
    if kind == "f":
        S.assume(v >= 1)
    mark(holder["b"], "c")
    mark(parent.box(**dict(other, **({"width": 10} if dim == "height" else {"height": 10}))), "o")
    rs = rects_by_fill(render_pages(S, deck)[0])
    full = W if dim == "width" else HH
    got = rs["c"].w if dim == "width" else rs["c"].h
    main = (dim == "width") == horizontal
    if kind == "n":
        S.check(S.eq(got, v), "number of pixels")
    elif kind == "p":
        S.check(S.eq(got * 100, full * v), "percent of the parent")
    else:
        S.check(S.eq(got, full - 50 if main else full), "fill")


def pos_string(S, n, alphabet, horizontal, dim, frame=("", "")):
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=7, y=9, width=W, height=HH, horizontal=horizontal)
    mark(parent, "parent")
    s = text_input(S, n, alphabet, frame)
    holder = {}

    def create():
        holder["b"] = parent.box(width=40, height=30, **{dim: s})
    err = S.raised(create)
    m = pos_meaning(s)
    S.check((err is None) == (m is not None), "accepted exactly when it is a position string")
    if m is None:
        S.check(len(parent.children) == 1, "a rejected position creates nothing")
        return
    kind, v = m
    mark(holder["b"], "c")
    rs = rects_by_fill(render_pages(S, deck)[0])
    o, full, own = (7, W, 40) if dim == "x" else (9, HH, 30)
    got = rs["c"].x if dim == "x" else rs["c"].y
    want = {"n": v, "p": full * v / 100, "a": (full - own) * v / 100}[kind]
    S.check(S.eq(got, o + want), "position %s" % kind)


def coord_string(S, n, alphabet):
    """box.x / box.y / box.p take position strings too."""
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=7, y=9, width=W, height=HH)
    s = text_input(S, n, alphabet)
    m = pos_meaning(s)
    err = S.raised(lambda: parent.x(s))
    S.check((err is None) == (m is not None), "coordinate accepted exactly when it is a position string")
    err = S.raised(lambda: parent.p(0, s))
    S.check((err is None) == (m is not None), "point accepted exactly when made of position strings")


def numbers(S, what):
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=7, y=9, width=W, height=HH)
    v = S.int("v", 0, 5000) if what.startswith("i") else S.real("v", 0)
    kw = dict(width=v, height=v) if what.endswith("s") else dict(x=v, y=v, width=5, height=5)
    mark(parent.box(**kw), "c")
    r = rects_by_fill(render_pages(S, deck)[0])["c"]
    if what.endswith("s"):
        S.check(S.And(S.eq(r.w, v), S.eq(r.h, v)), "numeric size")
    else:
        S.check(S.And(S.eq(r.x, v + 7), S.eq(r.y, v + 9)), "numeric position")


def other_types(S, dim):
    deck = make_deck(S)
    slide = deck.new_slide()
    v = S.choice("v", [b"12", (1, 2), ["10%"], {"a": 1}, {1, 2}, 1j, object])
    S.check(S.raised(lambda: slide.box(**{dim: v})) is not None, "other types are rejected")


SIZE_ALPHA = "fil()%0123456789 \n["
POS_ALPHA = "[]%0123456789 \n+-."
HARNESSES = [
    H("size_string", size_string,
      product(n=[1, 2, 3], alphabet=[None], horizontal=[False], dim=["width", "height"]) + product(n=[4, 5, 6, 7, 8], alphabet=[SIZE_ALPHA], horizontal=[False], dim=["width"])
      + product(n=[7], alphabet=[SIZE_ALPHA], horizontal=[True], dim=["width", "height"])
      + product(n=[3, 4], alphabet=["019"], horizontal=[False], dim=["height"], frame=[("fill(", ")"), ("", "%"), ("", "")]),
      product(n=[1, 2, 3, 4, 5, 6], alphabet=[None], horizontal=[False, True], dim=["width", "height"]) + product(n=[7, 8, 9, 10], alphabet=[SIZE_ALPHA], horizontal=[False, True], dim=["width", "height"]),
      "all strings of 1-3 arbitrary Unicode characters (thorough 1-6), 4-8 characters over 'fil()%0-9 \\n[' (thorough 7-10), numbers of 3-4 digits in every form", "non-ASCII decimal digits excluded"),
    H("pos_string", pos_string,
      product(n=[0, 1, 2, 3], alphabet=[None], horizontal=[False, True], dim=["x", "y"]) + product(n=[4, 5, 6], alphabet=[POS_ALPHA], horizontal=[False], dim=["x", "y"])
      + product(n=[3, 4], alphabet=["019"], horizontal=[False], dim=["x", "y"], frame=[("[", "%]"), ("", "%"), ("", "")]),
      product(n=[0, 1, 2, 3, 4, 5], alphabet=[None], horizontal=[False, True], dim=["x", "y"]) + product(n=[6, 7, 8], alphabet=[POS_ALPHA], horizontal=[False, True], dim=["x", "y"]),
      "all strings of 0-3 arbitrary Unicode characters (thorough 5), up to 6 (8) over '[]%0-9 \\n+-.'", "non-ASCII decimal digits excluded"),
    H("coord_string", coord_string, product(n=[0, 1, 2, 3], alphabet=[None]) + product(n=[4, 5], alphabet=[POS_ALPHA]), product(n=[0, 1, 2, 3, 4, 5, 6], alphabet=[None]), "as pos_string"),
    H("numbers", numbers, product(what=["is", "rs", "ip", "rp"]), bounds="all non-negative numbers"),
    H("other_types", other_types, product(dim=["x", "y", "width", "height"]), bounds="seven values of other types"),
]
