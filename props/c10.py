"""C10: inline style markup."""
from symx.session import H, product
from elsie import TextStyle
from elsie.text.textparser import parse_text
from props.lib import make_deck, render_pages


def spec(S, cs, esc, begin, end):
    """Intended reading of the markup: ([(char, spans)], [span names], span start positions) or None when rejected.

    A character is ('\\n' or a text character) with the tuple of open span numbers.
    """
    out, names, starts, stack = [], [], [], []
    i, n = 0, len(cs)
    while i < n:
        c = cs[i]
        if esc is not None and c == esc:
            if i + 1 < n and cs[i + 1] == esc:
                out.append((c, tuple(stack)))
                i += 2
                continue
            i += 1
            name = ""
            while i < n and not (cs[i] == begin):
                name = name + cs[i]
                i += 1
            i += 1
            stack.append(len(names))
            starts.append(len([1 for x, _ in out if not (x == "\n")]))
            names.append(name)
        elif stack and c == end:
            stack.pop()
            i += 1
        else:
            out.append((c, tuple(stack)))
            i += 1
    if stack:
        return None
    return out, names, starts


def trimmed(out):
    out = list(out)
    while out and out[-1][0] == "\n":
        out.pop()
    return out


def reading(S, tokens):
    """The same information read from a token list; checks nesting."""
    out, names, starts, stack = [], [], [], []
    for kind, v in tokens:
        if kind == "text":
            for c in list(v):
                out.append((c, tuple(stack)))
        elif kind == "newline":
            S.check(v >= 1, "newline token counts at least one line")
            for _ in range(v):
                out.append(("\n", tuple(stack)))
        elif kind == "begin":
            stack.append(len(names))
            starts.append(len([1 for x, _ in out if not (x == "\n")]))
            names.append(v)
        elif kind == "end":
            S.check(len(stack) > 0, "well-nested spans")
            stack.pop()
        else:
            S.fail("unknown token")
    S.check(not stack, "every span is closed")
    return out, names, starts


def compare(S, got, want):
    g, gn, gs = got
    w, wn, ws = want
    g, w = trimmed(g), trimmed(w)
    S.check(len(g) == len(w), "text length")
    for (gc, gst), (wc, wst) in zip(g, w):
        S.check(gc == wc, "text without the commands is kept")
        if not (gc == "\n"):
            S.check(gst == wst, "each character is inside exactly its own spans")
    S.check(len(gn) == len(wn), "number of spans")
    for a, b in zip(gn, wn):
        S.check(a == b, "span names")
    S.check(gs == ws, "spans start where their command stood")
    if not [1 for i in ws if i == len([1 for c, _ in w if not (c == "\n")])]:
        S.check(len(got[0]) == len(g), "trailing newlines are dropped")


def markup(S, n, alphabet, delims):
    if delims == "any":
        d = S.str("d", 3, exclude="\n")
        esc, begin, end = list(d)
        S.assume(S.And(esc != begin, esc != end, begin != end))
    else:
        esc, begin, end = delims
    text = S.str("t", n, alphabet)
    want = spec(S, list(text), esc, begin, end)
    try:
        tokens = parse_text(text, escape_char=esc, begin_char=begin, end_char=end)
    except Exception:
        S.check(want is None, "only texts with an unclosed command are rejected")
        return
    S.check(want is not None, "unclosed commands are rejected")
    compare(S, reading(S, tokens), want)
    for (k, v), nxt in zip(tokens, tokens[1:] + [("", None)]):
        S.check(not (k == "newline" and nxt[0] == "newline"), "newlines are merged")


def disabled(S, n):
    """Without escape character the text is kept as it is."""
    text = S.str("t", n, "~{}\na")
    tokens = parse_text(text, escape_char=None)
    want = [(c, ()) for c in list(text)]
    got, names, _ = reading(S, tokens)
    S.check(len(got) == len(trimmed(got)), "trailing newlines are dropped")
    got, want = trimmed(got), trimmed(want)
    S.check(len(names) == 0, "no spans")
    S.check(len(got) == len(want), "text length")
    for (a, _), (b, _) in zip(got, want):
        S.check(a == b, "text kept")


def api(S, n, escape, kind):
    """The escape_char parameter of box.text and box.code."""
    deck = make_deck(S)
    box = deck.new_slide()
    box.set_style("a", TextStyle(color="red"))
    delims = escape if len(escape) == 3 else escape + "{}"
    text = S.str("t", n, delims + "a\n")
    want = spec(S, list(text), *delims)
    if want is not None and [1 for x in want[1] if not (x == "a")]:
        want = None
    try:
        if kind == "text":
            box.text(text, escape_char=escape)
        else:
            box.code("", text, use_styles=True, escape_char=escape)
        page = render_pages(S, deck)[0]
    except Exception:
        S.check(want is None, "only unclosed commands and unknown styles are rejected")
        return
    S.check(want is not None, "unclosed commands and unknown styles are rejected")
    got = page.find_all("text")[0].text()
    chars = [c for c, _ in want[0] if not (c == "\n")]
    S.check(len(got) == len(chars), "shown text length")
    for a, b in zip(got, chars):
        S.check(a == b, "shown text")
    spans = [t for t in page.find_all("tspan") if "fill:red" in t.attrs.get("style", "")]
    S.check(("red" in str([t.attrs.get("style") for t in spans])) == bool(want[1]), "styled spans are shown")


def api_lengths(S, escape):
    box = make_deck(S).new_slide()
    ok = len(escape) in (1, 3)
    for f in (lambda: box.text("abc", escape_char=escape), lambda: box.code("", "abc", escape_char=escape)):
        e = S.raised(f)
        S.check((e is None) == ok, "escape_char has one or three characters")


_Q = [dict(n=n, alphabet=None, delims="any") for n in range(0, 6)] + [dict(n=n, alphabet="~{}a\n", delims="~{}") for n in (6,)] + [dict(n=5, alphabet="!()~{}\n", delims="!()")]
_T = [dict(n=n, alphabet=None, delims="any") for n in range(0, 8)] + [dict(n=n, alphabet="~{}a\n", delims="~{}") for n in (6, 7, 8)] + [dict(n=6, alphabet="!()~{}\n", delims="!()")]

HARNESSES = [
    H("markup", markup, _Q, _T, "texts of at most 5 (thorough 7) arbitrary characters with any three distinct delimiter characters other than newline; texts of 6 (thorough 8) characters over ~ { } a newline"),
    H("disabled", disabled, product(n=[3, 5]), product(n=[3, 5, 6]), "texts of the given lengths over ~ { } newline a, no escape character"),
    H("api", api, product(n=[3], escape=["!", "<(>"], kind=["text", "code"]), product(n=[4, 5], escape=["!", "<(>"], kind=["text", "code"]), "texts of 3 (thorough 4-5) characters over the delimiters, a, newline"),
    H("api_lengths", api_lengths, product(escape=["", "~", "~{", "~()", "~{}x"]), bounds="listed values"),
]
