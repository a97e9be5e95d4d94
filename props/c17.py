"""C17: composing and updating text styles; rejected attribute values."""
from symx.session import H, product
from elsie import TextStyle

ATTRS = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity")
ALIGN = ("left", "middle", "right")
VARIANTS = ("normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "proportinal-nums", "tabular-nums", "diagonal-fractions", "stacked-fractions")


def value(S, name, attr):
    if attr in ("font", "color"):
        return S.str(name, 1)
    if attr in ("size", "line_spacing", "opacity"):
        return S.real(name, -1000, 1000)
    if attr in ("bold", "italic"):
        return S.bool(name)
    return (ALIGN if attr == "align" else VARIANTS)[ord(name[0]) % 3]


def make(S, name, attrs, present):
    d = {}
    for a in attrs:
        if a in present or S.concrete(S.bool("%s_has_%s" % (name, a))):
            d[a] = value(S, "%s_%s" % (name, a), a)
    d["priority"] = S.int(name + "_priority", -5, 5)
    return d


def read(style):
    d = {a: getattr(style, a) for a in ATTRS}
    d["priority"] = style.priority
    return d


def check_is(S, style, want, what):
    got = read(style)
    for a in ATTRS + ("priority",):
        w = want.get(a)
        g = got[a]
        if w is None or g is None:
            S.check(w is None and g is None, "%s: %s is set exactly when expected" % (what, a))
        elif isinstance(w, bool):
            S.check(g is w, "%s: %s" % (what, a))
        elif a in ("size", "line_spacing", "opacity", "priority"):
            S.check(S.eq(g, w), "%s: %s" % (what, a))
        else:
            S.check(g == w, "%s: %s" % (what, a))


def over(a, b):
    d = dict(a)
    d.update(b)
    return d


def combine(S, attrs, always, op):
    """Attributes in attrs are set or not in each style, symbolically; those of always are set."""
    da = make(S, "a", attrs, always)
    db = make(S, "b", attrs, always)
    a, b = TextStyle(**da), TextStyle(**db)
    want = over(da, db)
    if op == "compose":
        c = a.compose(b)
        S.check(c is not a and c is not b, "a new style")
        check_is(S, c, want, "composition")
        check_is(S, a, da, "first style stays")
        check_is(S, b, db, "second style stays")
        c.color = "changed"
        c.size = 12345
        check_is(S, a, da, "changing the composition leaves the first style")
        check_is(S, b, db, "changing the composition leaves the second style")
        d3 = make(S, "c", attrs[:1], [])
        check_is(S, a.compose(b).compose(TextStyle(**d3)), over(want, d3), "repeated composition")
    elif op == "update":
        a.update(b)
        check_is(S, a, want, "update")
        check_is(S, b, db, "updating style stays")
    else:
        c = a.copy()
        S.check(c is not a, "a new style")
        check_is(S, c, da, "copy")
        c.update(b)
        check_is(S, a, da, "changing a copy leaves the original")
        check_is(S, c, want, "changed copy")


BAD = {
    "font": [1, 2.5, True, ["a"]], "color": [0, ("red",), b"red"], "size": ["10", [1], "x"], "line_spacing": ["1.5"], "opacity": ["0.5", (1,)],
    "bold": [1, 0, "yes", 1.0], "italic": ["", 1], "align": ["center", 1, "Left", "", True], "variant_numeric": ["", 0, "none", "tabular"],
    "priority": [None, "1", [1]],
}


def reject(S, attr, i):
    d = {"font": "f", "size": 5, "color": "red", "bold": True, "align": "left", "variant_numeric": "ordinal", "priority": S.int("p", -3, 3)}
    st = TextStyle(**d)
    bad = BAD[attr][i]
    S.check(S.raised(setattr, st, attr, bad) is not None, "wrong value of %s is rejected" % attr)
    check_is(S, st, d, "rejected assignment changes nothing")
    S.check(S.raised(lambda: TextStyle(**{attr: bad})) is not None, "wrong value of %s is rejected at creation" % attr)


def choices(S, attr, n):
    """Any string of length n as a choice."""
    d = {"align": "right", "variant_numeric": "ordinal", "priority": 0}
    st = TextStyle(**d)
    v = S.str("v", n)
    ok = S.Or(*[v == c for c in (ALIGN if attr == "align" else VARIANTS)])
    err = S.raised(setattr, st, attr, v)
    S.check(ok if err is None else S.Not(ok), "accepted exactly when it is one of the choices")
    if err is None:
        S.check(getattr(st, attr) == v, "accepted value is stored")
    else:
        check_is(S, st, d, "rejected assignment changes nothing")


def accept(S, attr):
    """Every attribute can be set and unset (but the priority)."""
    v = value(S, "v", attr) if attr != "priority" else S.int("v", -9, 9)
    st = TextStyle()
    check_is(S, st, {"priority": 0}, "new style")
    setattr(st, attr, v)
    check_is(S, st, over({"priority": 0}, {attr: v}), "assignment")
    if attr != "priority":
        setattr(st, attr, None)
        check_is(S, st, {"priority": 0}, "unset")


_GROUPS = [(["font", "size", "align"], []), (["line_spacing", "color", "bold"], []), (["italic", "variant_numeric", "opacity"], []),
           (list(ATTRS), [a for a in ATTRS if a not in ("size", "bold")])]
_MORE = _GROUPS + [(["bold", "italic", "opacity", "size"], ["bold"]), (list(ATTRS), [a for a in ATTRS if a not in ("color", "align", "italic")])]
_OPS = ["compose", "update", "copy"]
HARNESSES = [
    H("combine", combine, [dict(attrs=g[0], always=g[1], op=o) for g in _GROUPS for o in _OPS], [dict(attrs=g[0], always=g[1], op=o) for g in _MORE for o in _OPS],
      "two (three) styles, groups of three attributes each set or unset in every combination, symbolic values and priorities"),
    H("reject", reject, [dict(attr=a, i=i) for a in BAD for i in range(len(BAD[a]))], bounds="listed wrong values of every attribute"),
    H("choices", choices, [dict(attr="align", n=n) for n in (4, 5, 6)] + [dict(attr="variant_numeric", n=n) for n in (6, 7, 11)], [dict(attr="align", n=n) for n in range(8)] + [dict(attr="variant_numeric", n=n) for n in range(5, 20)], bounds="arbitrary strings of the listed lengths"),
    H("accept", accept, [dict(attr=a) for a in ATTRS + ("priority",)], bounds="symbolic values"),
]
