"""C07: fragment selectors."""
from symx.session import H, product
from elsie.slides.show import ShowInfo
from props.lib import make_deck, render_pages, rects_by_fill, mark
from props.c06 import digits, ascii_digits_only

SPACES = " \t\n\r\x0b\x0c"


def strip(s):
    while len(s) > 0 and (s[0] in SPACES or (s[0] > "\x7f" and s[0].isspace()) or "\x1c" <= s[0] <= "\x1f"):
        s = s[1:]
    while len(s) > 0 and (s[-1] in SPACES or (s[-1] > "\x7f" and s[-1].isspace()) or "\x1c" <= s[-1] <= "\x1f"):
        s = s[:-1]
    return s


def split(s):
    out = [""]
    for c in s:
        if c == ",":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


def start_of(s, cur):
    """Number an element starts with (None: malformed)."""
    if s == "next":
        return cur + 1
    if s == "last":
        return cur
    if digits(s):
        return int(s)
    return None


def meaning(s, cur):
    """Reference: (list of closed ranges, open start or None); None when malformed."""
    ranges, opened = [], None
    for e in split(s):
        e = strip(e)
        if e.endswith("+"):
            a = start_of(e[:-1], cur)
            if a is None or opened is not None:
                return None
            opened = a
            continue
        i = e.find("-")
        if i >= 0:
            a = start_of(e[:i], cur)
            b = e[i + 1:]
            if a is None or not digits(b):
                return None
            b = int(b)
            if a > b:
                return None
            ranges.append((a, b))
            continue
        a = start_of(e, cur)
        if a is None:
            return None
        ranges.append((a, a))
    return ranges, opened


def visible(S, m, step):
    ranges, opened = m
    cs = [S.And(a <= step, step <= b) for a, b in ranges]
    if opened is not None:
        cs.append(opened <= step)
    return S.Or(*cs) if cs else False


def highest(S, m):
    ranges, opened = m
    r = 1
    for a, b in ranges:
        r = S.max(r, b)
    if opened is not None:
        r = S.max(r, opened)
    return r


def verify(S, s, cur):
    m = meaning(s, cur)
    holder = {}

    def go():
        holder["i"] = ShowInfo.parse(s, cur)
    err = S.raised(go)
    S.check((err is None) == (m is not None), "accepted exactly when well-formed")
    if m is None:
        return
    info = holder["i"]
    step = S.int("step", 1, 200)
    if info.is_visible(step):
        S.check(visible(S, m, step), "visible only in listed fragments")
    else:
        S.check(S.Not(visible(S, m, step)), "visible in all listed fragments")
    S.check(S.eq(info.max_step(), highest(S, m)), "highest mentioned fragment")


def raw(S, n, alphabet):
    s = S.str("s", n, alphabet)
    if alphabet is None:
        ascii_digits_only(S, s)
    verify(S, s, S.int("cur", 1, 5))


def template(S, kinds, nd, digs):
    parts = []
    for i, k in enumerate(kinds):
        a = S.str("a%d" % i, nd, digs)
        b = S.str("b%d" % i, nd, digs)
        a = {"A": a, "N": "next", "L": "last"}[k[0]]
        e = a + {"": "", "+": "+", "-": "-" + b}[k[1:]]
        parts.append(S.choice("l%d" % i, ["", " "]) + e + S.choice("r%d" % i, ["", "  "]))
    verify(S, ",".join(parts), S.int("cur", 1, 5))


def no_current(S, kind):
    """Relative selectors need the current fragment (image labels have none)."""
    s = {"n": "next", "l": "last", "n+": "next+", "l-": "last-3", "mix": "1,next"}[kind]
    S.check(S.raised(lambda: ShowInfo.parse(s)) is not None, "relative selector without current fragment is rejected")
    S.check(S.raised(lambda: ShowInfo.from_label("**" + s + "**")) is not None, "relative selector in a label is rejected")


def number(S):
    n = S.int("n", 1, 50)
    step = S.int("step", 1, 100)
    i = ShowInfo.parse(n)
    S.check(S.eq(i.max_step(), n), "highest mentioned fragment")
    if i.is_visible(step):
        S.check(step == n, "a number selects exactly that fragment")
    else:
        S.check(S.Not(step == n), "a number selects that fragment")
    S.check(ShowInfo.parse(None).is_visible(step), "no selector: always visible")
    for bad in (1.5, [1], (2,), b"1", {"a": 1}):
        S.check(S.raised(lambda: ShowInfo.parse(bad)) is not None, "other types are rejected")


def label(S, n, digs):
    """Selectors inside image labels."""
    pre = S.str("pre", 1, "ab *1,")
    sel = S.str("sel", n, digs)
    S.assume(pre != "*")
    post = S.choice("post", ["", "**", "**x", "** **3**"])
    info_err = S.raised(lambda: ShowInfo.from_label(pre + "**" + sel + post))
    m = meaning(sel, None)
    S.check((info_err is None) == (m is not None), "label selector accepted exactly when well-formed")
    if m is None:
        return
    i = ShowInfo.from_label(pre + "**" + sel + post)
    step = S.int("step", 1, 100)
    if i.is_visible(step):
        S.check(visible(S, m, step), "label selects only listed fragments")
    else:
        S.check(S.Not(visible(S, m, step)), "label selects all listed fragments")
    S.check(ShowInfo.from_label(pre + "*" + "x") is None, "no selector in the label")


def pages(S, s):
    """The selector decides the pages of the box (and of nothing else)."""
    deck = make_deck(S)
    slide = deck.new_slide()
    a = S.str("a", 1, "1234")
    b = S.str("b", 1, "1234")
    sel = s.replace("A", a).replace("B", b)
    m = meaning(sel, 1)
    if m is None:
        S.check(S.raised(lambda: slide.box(show=sel)) is not None, "malformed selector is rejected")
        return
    mark(slide.box(show=sel), "c")
    mark(slide.box(), "d")
    ps = render_pages(S, deck)
    S.check(S.eq(len(ps), highest(S, m)), "page count")
    for i, p in enumerate(ps):
        rs = rects_by_fill(p)
        S.check(("c" in rs) == S.concrete(visible(S, m, i + 1)), "box painted in exactly the selected pages")
        S.check("d" in rs, "unselected boxes are painted everywhere")


A = "0123,+- "
B = "12,+-next "
HARNESSES = [
    H("raw", raw, product(n=[0, 1, 2, 3], alphabet=[None]) + product(n=[4], alphabet=[A]),
      product(n=[0, 1, 2, 3, 4], alphabet=[None]) + product(n=[5, 6], alphabet=[A]) + product(n=[4, 5, 6], alphabet=[B]),
      "all strings of up to 3 (thorough 4) Unicode characters, up to 4 (6) over '0123,+- ' / '12,+-next '; steps 1-200, current maximum 1-5", "non-ASCII decimal digits excluded"),
    H("template", template, [dict(kinds=[k], nd=1, digs="0123456789") for k in ("A", "A+", "A-", "N", "L", "N+", "L+", "N-", "L-")] +
      [dict(kinds=[a, b], nd=1, digs="123") for a, b in (("A", "A+"), ("A-", "A"), ("A+", "A+"), ("L", "N+"), ("N-", "A-"), ("A+", "L-"))] +
      [dict(kinds=[k], nd=3, digs="01") for k in ("A", "A+", "A-", "L-")],
      [dict(kinds=[k], nd=2, digs="0123456789") for k in ("A", "A+", "A-", "N", "L", "N+", "L+", "N-", "L-")] +
      [dict(kinds=[a, b], nd=1, digs="012345") for a in ("A", "A+", "A-", "N", "L+", "N-") for b in ("A", "A+", "A-", "L", "N+")] +
      [dict(kinds=[a, b, c], nd=1, digs="123") for a in ("A", "A+", "A-") for b in ("A", "A-", "N") for c in ("A+", "L", "A-")],
      "one to two (thorough three) comma separated elements of all forms with symbolic numbers and optional spaces"),
    H("no_current", no_current, product(kind=["n", "l", "n+", "l-", "mix"]), bounds="five relative selectors"),
    H("number", number, [{}], bounds="fragment numbers 1-50, steps 1-100"),
    H("label", label, product(n=[1, 2, 3], digs=["012+-, "]), product(n=[1, 2, 3, 4, 5], digs=["0123+-, "]), "labels with a selector of up to 3 (5) characters"),
    H("pages", pages, product(s=["A", "A-B", "A+", "A,B", "A+,B", "next", "last", "next-B", "A-B,B+"]), bounds="numbers 1-4, pages rendered"),
]
