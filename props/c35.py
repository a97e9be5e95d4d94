"""C35: lengths of SVG images."""
from symx.session import H, product
from envs.etfake import E, svg_file
from elsie.render.backends.svg.utils import svg_size_to_pixels
from props.lib import make_deck, render_pages, rects_by_fill, mark

FACTOR = {"": 1, "px": 1, "mm": 96 / 25.4, "cm": 96 / 2.54, "in": 96, "pt": 96 / 72, "pc": 16}
DIG = "0123456789"


def is_digit(c):
    return "0" <= c <= "9"


def letter(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def space(c):
    return c.isspace()


def number(s):
    """Value of a decimal number with optional sign, fraction and exponent; None: no number, "free": unspecified form."""
    n, i = len(s), 0
    neg = False
    if i < n and (s[i] == "-" or s[i] == "+"):
        neg = s[i] == "-"
        i += 1
    val, scale, before, after, dot = 0, 1, 0, 0, False
    while i < n:
        if is_digit(s[i]):
            val = val * 10 + int(s[i])
            if dot:
                scale *= 10
                after += 1
            else:
                before += 1
        elif s[i] == "." and not dot:
            dot = True
        else:
            break
        i += 1
    if before + after == 0:
        return None
    exp = 0
    if i < n:
        if not (s[i] == "e" or s[i] == "E"):
            return None
        i += 1
        eneg = False
        if i < n and (s[i] == "-" or s[i] == "+"):
            eneg = s[i] == "-"
            i += 1
        if i == n:
            return None
        for c in s[i:]:
            if not is_digit(c):
                return None
            d = 0
            while not c == DIG[d]:
                d += 1
            exp = exp * 10 + d
        if eneg:
            exp = -exp
    if dot and after == 0:
        return "free"
    val = val / scale
    for _ in range(abs(exp)):
        val = val * 10 if exp > 0 else val / 10
    return -val if neg else val


def meaning(s):
    """(must be accepted, may be accepted, pixels)"""
    a, b = 0, len(s)
    while a < b and space(s[a]):
        a += 1
    while a < b and space(s[b - 1]):
        b -= 1
    t = s[a:b]
    k = len(t)
    while k > 0 and letter(t[k - 1]):
        k -= 1
    num, unit = t[:k], t[k:]
    factor, exact = None, False
    for u, f in FACTOR.items():
        if len(u) == len(unit):
            if unit == u:
                factor, exact = f, True
            elif unit.lower() == u:
                factor = f
    m = len(num)
    while m > 0 and space(num[m - 1]):
        m -= 1
    v = number(num[:m])
    if v is None or factor is None:
        return False, False, None
    if v == "free":
        return False, True, None
    return len(t) == len(s) and m == len(num) and exact, True, v * factor


def close(S, got, want):
    d = 1e-5
    return S.Or(S.And(got - want <= want * d, want - got <= want * d), S.And(got - want <= -want * d, want - got <= -want * d))




def judge(S, s, err, got):
    must, may, want = meaning(s)
    if must:
        S.check(err is None, "a length is accepted")
    if not may:
        S.check(err is not None, "a string that is no length is rejected")
    if err is None and want is not None:
        S.check(close(S, got(), want), "pixels of the length")


def direct(S, n, alphabet):
    s = S.str("s", n, alphabet)
    out = {}
    err = S.raised(lambda: out.update(v=svg_size_to_pixels(s)))
    judge(S, s, err, lambda: out["v"])


def form(S, sign, before, after, exp, unit):
    s = sign + S.str("a", before, DIG)
    if after is not None:
        s = s + "." + S.str("b", after, DIG)
    if exp is not None:
        s = s + S.choice("e", ["e", "E"]) + S.choice("es", ["", "-", "+"]) + S.str("x", exp, DIG[:4])
    s = s + unit
    out = {}
    err = S.raised(lambda: out.update(v=svg_size_to_pixels(s)))
    judge(S, s, err, lambda: out["v"])


def image(S, before, after, unit, dim):
    """The size of an image determines the size of its box."""
    deck = make_deck(S)
    slide = deck.new_slide()
    s = S.str("a", before, DIG)
    if after:
        s = s + "." + S.str("b", after, DIG)
    s = s + unit
    must, may, want = meaning(s)
    if may:
        S.assume(want >= 1)
    path = svg_file(S, E("svg", {"width": s if dim == "width" else "10", "height": s if dim == "height" else "10"}, E("circle", {})), "pic.svg")
    outer = slide.box(x=0, y=0, width=5000, height=5000)
    box = outer.box()
    err = S.raised(lambda: box.image(path, scale=2))
    if not may:
        S.check(err is not None, "a string that is no length is rejected")
        return
    S.check(err is None, "a length is accepted")
    mark(box, "b")
    r = rects_by_fill(render_pages(S, deck)[0])["b"]
    S.check(close(S, r.w if dim == "width" else r.h, 2 * want), "pixels of the length")
    S.check(S.eq(r.h if dim == "width" else r.w, 20), "pixels of the other dimension")


def missing(S, dim):
    """An image without a size is rejected."""
    deck = make_deck(S)
    slide = deck.new_slide()
    path = svg_file(S, E("svg", {"width": "10"} if dim == "height" else {"height": "10"}), "pic.svg")
    S.check(S.raised(lambda: slide.image(path)) is not None, "a missing length is rejected")


UNITS = ["", "px", "mm", "cm", "in", "pt", "pc"]
BAD = ["em", "ex", "%", "q", "m", "inch", "pxpx", " px"]
HARNESSES = [
    H("form", form, product(sign=[""], before=[2], after=[None, 2], exp=[None], unit=UNITS + BAD) + product(sign=["-", "+"], before=[1], after=[None, 1], exp=[None], unit=["", "mm"])
      + product(sign=[""], before=[1], after=[None, 1], exp=[1], unit=["", "cm", "pt"]) + product(sign=[""], before=[0], after=[0, 1, 2], exp=[None, 1], unit=["", "px"])
      + product(sign=["--", "+-", " "], before=[1], after=[None], exp=[None], unit=["", "mm"]),
      product(sign=["", "-", "+"], before=[0, 1, 3, 6], after=[None, 0, 1, 3, 6], exp=[None, 1], unit=UNITS + BAD),
      "up to 6 digits before and after the point, exponents of one digit 0-3"),
    H("direct", direct, [dict(n=0, alphabet=None), dict(n=1, alphabet=None), dict(n=2, alphabet=None), dict(n=3, alphabet="0.9e-pxnai_ "), dict(n=4, alphabet="1.e-xmcp_ ")],
      [dict(n=n, alphabet=None) for n in range(4)] + [dict(n=4, alphabet="07.eE+-pxmcitn_ "), dict(n=5, alphabet="1.e-xmcp_ "), dict(n=6, alphabet="1.e-m ")],
      "all strings of the stated lengths (Unicode up to 2, thorough 3; up to 4/6 over an alphabet of digits, signs, units and separators)"),
    H("image", image, product(before=[2], after=[0, 2], unit=["", "mm", "in", "pc"], dim=["width"]) + product(before=[3], after=[1], unit=["pt", "cm", "px", "em", "q"], dim=["height"]),
      product(before=[1, 4], after=[0, 3], unit=UNITS + BAD[:6], dim=["width", "height"]), "images in a box, scale 2"),
    H("missing", missing, product(dim=["width", "height"])),
]
