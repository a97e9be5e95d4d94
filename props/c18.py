"""C18: scoping of style definitions over histories of boxes and style operations."""
from symx.session import H, product
from elsie import TextStyle
from props.lib import make_deck, render_pages, svg_text
from props.c17 import ATTRS, check_is, over, read


def attrs_for(S, i, flavour):
    """Attributes of the i-th operation's style."""
    if flavour == 0:
        return {"size": S.real("s%d" % i, 1, 100), "priority": 0}
    if flavour == 1:
        return {"color": S.str("c%d" % i, 1), "priority": 0}
    return {"size": S.real("s%d" % i, 1, 100), "bold": True, "priority": S.int("p%d" % i, -3, 3)}


def history(S, ops, names):
    """ops: list of operation kinds; the box every operation works on is symbolic.

    N new box (inside the chosen one), S new slide, s set_style, b set_style with a base, u update_style, x unknown names"""
    deck = make_deck(S)
    slide = deck.new_slide()
    boxes = [deck, slide]
    first = dict([(n, dict([(k, v) for k, v in read(deck.get_style(n)).items() if v is not None])) for n in ("default", "code")])
    env = [dict(first), dict(first)]
    passed = []

    def pick(i, lo=0):
        return S.choice("at%d" % i, range(lo, len(boxes)))

    for i, op in enumerate(ops):
        if op == "N":
            k = pick(i, 1)
            boxes.append(boxes[k].box())
            env.append(dict(env[k]))
            continue
        if op == "S":
            boxes.append(deck.new_slide())
            env.append(dict(env[0]))
            continue
        k = pick(i)
        b, e = boxes[k], env[k]
        name = S.choice("name%d" % i, names)
        d = attrs_for(S, i, i % 3)
        st = TextStyle(**d)
        if op == "s":
            b.set_style(name, st)
            e[name] = d
        elif op == "b":
            base = S.choice("base%d" % i, ["code"] + list(names))
            err = S.raised(lambda: b.set_style(name, st, base=base))
            S.check((err is None) == (base in e or base == "default"), "set_style with a base is accepted exactly when the base is visible")
            if err is None:
                e[name] = over(e[base], d) if base != "default" else d
        elif op == "u":
            err = S.raised(lambda: b.update_style(name, st))
            S.check((err is None) == (name in e), "update_style is accepted exactly when the style is visible")
            if err is None:
                e[name] = over(e[name], d)
        elif op == "x":
            S.check(S.raised(lambda: b.get_style("nowhere")) is not None, "unknown names are rejected")
            S.check(S.raised(lambda: b.update_style("nowhere", st)) is not None, "unknown names are rejected")
        passed.append((st, d))
    everything = ["default", "code"] + [n for n in names if n not in ("default", "code")]
    for b, e in zip(boxes, env):
        for n in everything:
            S.check(b.has_style(n) == (n in e), "a style is visible exactly in its scope")
            if n not in e:
                S.check(S.raised(lambda: b.get_style(n)) is not None, "invisible names are rejected")
                S.check(S.raised(lambda: b.get_style(n, full_style=True)) is not None, "invisible names are rejected")
                continue
            got = b.get_style(n)
            check_is(S, got, e[n], "definition seen by a box")
            full = b.get_style(n, full_style=True)
            check_is(S, full, e[n] if n == "default" else over(e["default"], e[n]), "full style seen by a box")
            # looking a style up gives no access to the stored one
            got.size = 7777
            got.color = "stolen"
            full.update(TextStyle(bold=True, size=8888, font="stolen"))
        own = TextStyle(italic=True, size=3)
        check_is(S, b.get_style(own, full_style=True), over(e["default"], {"italic": True, "size": 3, "priority": 0}), "a style object on top of the default style")
        S.check(b.get_style(own) is not own, "the passed style is copied")
        check_is(S, own, {"italic": True, "size": 3, "priority": 0}, "the passed style stays")
    for b, e in zip(boxes, env):
        for n in everything:
            if n in e:
                check_is(S, b.get_style(n), e[n], "definition after modifying looked up styles")
    for st, d in passed:
        check_is(S, st, d, "the style object of the caller stays")


def rendered(S, when, op):
    """A text keeps the styles visible when it was created; inline styles too."""
    deck = make_deck(S)
    slide = deck.new_slide()
    parent = slide.box(x=0, y=0, width=300, height=300)
    size0 = S.real("s0", 1, 100)
    parent.set_style("m", TextStyle(size=size0))
    child = parent.box(x=0, y=0, width=200, height=200)
    sib = parent.box(x=0, y=0, width=200, height=200)
    where = {"deck": deck, "slide": slide, "parent": parent, "child": child, "sib": sib}[when]
    new = TextStyle(size=S.real("s1", 1, 100), color="red")
    child.text("~m{a}")
    child.text("b", "m")
    if op == "set":
        where.set_style("m", new)
    else:
        S.assume(when not in ("deck", "slide"))
        where.update_style("m", new)
    child.text("~m{c}")
    child.text("d", "m")
    late = parent.box(x=0, y=0, width=100, height=100)
    late.text("~m{e}")
    page = render_pages(S, deck)[0]
    seen = {}
    for node in page.find_all("text"):
        for dy, chars in svg_text(S, node):
            for c, a in chars:
                seen[c] = a
    changed = set()
    if when == "child":
        changed = {"c", "d"}
    elif when == "parent":
        changed = {"e"}
    for c in "abcde":
        S.check(c in seen, "every text is drawn")
        S.check(S.eq(float(seen[c]["font-size"]), new.size if c in changed else size0), "size of the style visible when the text was created")


_OPS = ["Nss", "NNs", "sNu", "sNs", "NsN", "Nsb", "suN", "bNu", "NuN", "SsN", "sSs", "xsN", "Nub"]
_OPS4 = ["NsNu", "NNsu", "sNNu", "NssN", "sNuN", "NbNs", "sbNu", "sSuN", "NsSs"]
_NAMES = [("a", "default"), ("a", "code")]
HARNESSES = [
    H("history", history, product(ops=_OPS, names=_NAMES[:1]) + product(ops=_OPS[:4], names=_NAMES[1:]), product(ops=_OPS + _OPS4, names=_NAMES),
      "all targets and names over the listed operation sequences (3, thorough 4 operations) on a deck, slides and boxes, symbolic values"),
    H("rendered", rendered, product(when=["deck", "slide", "parent", "child", "sib"], op=["set"]) + product(when=["parent", "child", "sib"], op=["update"]), bounds="one style definition before and after the creation of texts"),
]
