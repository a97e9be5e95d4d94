"""C14: SVG text elements."""
from symx.session import H, product
from elsie import TextStyle
from props.lib import make_deck, render_pages, svg_text, css_of, check_css
from props.c10 import spec

NBSP = "\xa0"


def xml_char_ok(S, c):
    return S.Or(c >= " ", c == "\t")


def fill_in(S, skeleton, plain):
    """Replace every '?' by a letter or line break, every '!' by an arbitrary character."""
    q = S.str("q", skeleton.count("?"), "x\n")
    w = S.str("w", skeleton.count("!"), None, exclude="~{}\n\r")
    for c in w:
        S.assume(S.And(xml_char_ok(S, c), c != "\ufffe", c != "\uffff"))
    text, i, j = "", 0, 0
    for c in skeleton:
        if c == "?":
            text = text + q[i]
            i += 1
        elif c == "!":
            text = text + w[j]
            j += 1
        else:
            text = text + c
    return text


ATTRS = ("font", "size", "color", "bold", "italic", "opacity")


def effective(S, base, styles, names, chain):
    """Attributes of a character inside the spans of chain."""
    eff = dict(base)
    top = base["priority"]
    for j in chain:
        nm = names[j]
        if nm.startswith("#"):
            continue
        st = styles[nm]
        if S.concrete(st["priority"] < top):
            continue
        top = st["priority"]
        for k in ATTRS:
            if st.get(k) is not None:
                eff[k] = st[k]
    return eff


def text(S, skeleton, table, prio):
    deck = make_deck(S)
    box = deck.new_slide().box(x=0, y=0, width=100, height=100)
    styles = {}
    for nm, attrs in table.items():
        d = dict(attrs)
        d["priority"] = S.int("p_" + nm, -1, 2) if nm in prio else d.get("priority", 0)
        if d.get("size") == "?":
            d["size"] = S.real("size_" + nm, 1, 100)
        styles[nm] = d
        box.set_style(nm, TextStyle(**d))
    base = {"font": "serif", "size": S.real("size", 1, 100), "color": "black", "priority": S.int("p0", -1, 1) if "" in prio else 0}
    spacing = S.real("spacing", 1, 2)
    markup = fill_in(S, skeleton, False)
    out, names, starts = spec(S, list(markup), "~", "{", "}")
    unknown = [n for n in names if not n.startswith("#") and n not in styles]
    style = TextStyle(line_spacing=spacing, align="left", **base)
    try:
        box.text(markup, style)
        page = render_pages(S, deck)[0]
    except Exception:
        S.check(len(unknown) > 0, "only unknown style names are rejected")
        return
    S.check(not unknown, "unknown style names are rejected")
    nodes = page.find_all("text")
    S.check(len(nodes) == 1, "one text element")
    got = svg_text(S, nodes[0])
    want, count = [[]], 0
    for c, chain in out:
        if c == "\n":
            want.append([])
        else:
            want[-1].append((c, chain))
    # printed lines by number (empty lines may be missing)
    byno = {}
    for dy, chars in got:
        for k in range(len(want)):
            if S.concrete(S.eq(dy, k * base["size"] * spacing)):
                S.check(k not in byno, "line positions grow")
                byno[k] = chars
                break
        else:
            S.fail("lines are advanced by font size times line spacing")
    # (trailing line breaks may be dropped)
    for k, chars in enumerate(want):
        g = byno.get(k, [])
        S.check(len(g) == len(chars), "every line has exactly its characters")
        for (gc, ga), (c, chain) in zip(g, chars):
            S.check(S.Or(gc == c, S.And(c == " ", gc == NBSP)), "characters are kept")
            check_css(S, ga, css_of(effective(S, base, styles, names, chain)), "effective style of every character")


def variant(S, markup, cls):
    """Digit variants apply to all lines."""
    deck = make_deck(S)
    box = deck.new_slide().box(x=0, y=0, width=100, height=100)
    box.set_style("v", TextStyle(variant_numeric="tabular-nums"))
    box.text(markup, TextStyle(variant_numeric="ordinal", size=10, line_spacing=1, align="left"))
    got = svg_text(S, render_pages(S, deck)[0].find_all("text")[0])
    for dy, chars in got:
        for c, a in chars:
            S.check(a.get("font-variant-numeric") == ("tabular-nums" if c == "v" else "ordinal"), "variant of %s" % cls)


T1 = {"a": dict(color="red", bold=True), "b": dict(size="?", bold=False, opacity=0.5), "c": dict(color="blue", italic=True, font="mono")}
T2 = {"a": dict(italic=True, color="red"), "b": dict(color="green", italic=False)}
_Q = [
    dict(skeleton="?~a{?~b{?~#m{?}?}?}?!", table=T1, prio=[]),
    dict(skeleton="x~a{?~b{y?~c{?}?}z?}w", table=T1, prio=["a", "b", "c"]),
    dict(skeleton="?~#m{x?}~a{?y}?~#n{~b{?}}z", table=T2, prio=["a", "b", ""]),
    dict(skeleton="!~a{!}!", table=T1, prio=["a"]),
    dict(skeleton="x~a{y~q{?z}}", table=T1, prio=[]),
    dict(skeleton="x~{y}z", table=T1, prio=[]),
]
_T = _Q + [
    dict(skeleton="?~a{?~#m{?~b{?~c{?}?}?}?}?", table=T1, prio=["b"]),
    dict(skeleton="?~c{?~b{?~a{?~b{?}?}?}?}x", table=T1, prio=["a", "b", "c", ""]),
    dict(skeleton="~a{?}~b{?}~#m{?~a{?}?}?~#k{?}x", table=T2, prio=["a", "b", ""]),
    dict(skeleton="!!~a{!~b{!}}!", table=T1, prio=["a", "b"]),
]
HARNESSES = [
    H("text", text, _Q, _T, "the listed markups with every '?' a letter or line break and every '!' any XML character, symbolic priorities, font sizes and line spacing"),
    H("variant", variant, [dict(markup="oo", cls="one line"), dict(markup="o~v{v}o", cls="a span"), dict(markup="o~v{v\nv\n\nv}", cls="a span of several lines"), dict(markup="o\n\no", cls="several lines")], bounds="listed texts (concrete)"),
]
