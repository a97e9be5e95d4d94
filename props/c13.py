"""C13: code snippets."""
from symx.session import H, product
from elsie import TextStyle
from elsie.text.textparser import trim_indent
from envs.pygstub import Cuts, STYLES, STYLE_OF
from props.lib import make_deck, render_pages, svg_text, css_of, check_css
from props.c10 import spec
from props.c14 import fill_in

CODE = dict(font="cf", color="#222", size=20)
TOK = {}
for _t, _s in STYLES:
    TOK[str(_t)] = dict(color="#" + _s["color"] if _s["color"] else None, bold=_s["bold"] or None, italic=_s["italic"] or None)


def styled(chain):
    """Code style with the given attribute dictionaries applied."""
    d = dict(CODE)
    for s in chain:
        for k, v in s.items():
            if v is not None:
                d[k] = v
    return d


def shown_lines(S, page, lh, want_lines):
    """Characters of every printed line by line number."""
    nodes = page.find_all("text")
    S.check(len(nodes) == 1, "one text element")
    byno = {}
    for dy, chars in svg_text(S, nodes[0]):
        k = 0
        while k * lh < dy - 0.01 and k < want_lines:
            k += 1
        S.check(k < want_lines and abs(k * lh - dy) < 0.01, "no more lines than the code has")
        S.check(k not in byno, "each line is printed once")
        byno[k] = chars
    return byno


def code(S, skeleton, language, numbers, styles, tabsize, tokens, odd=None):
    Cuts.max_tokens = tokens
    Cuts.odd = odd is not None
    deck = make_deck(S)
    box = deck.new_slide().box(x=0, y=0, width=100, height=100)
    box.set_style("code", TextStyle(align="left", line_spacing=1, **CODE))
    box.set_style("a", TextStyle(opacity=0.5))
    box.set_style("b", TextStyle(font="bf"))
    own = {}
    if odd == "own":
        box.set_style("pygments-Token.Other.Odd.Odder", TextStyle(color="#789"))
        own["Token.Other.Odd.Odder"] = dict(color="#789")
    inline = {"a": dict(opacity=0.5), "b": dict(font="bf")}
    q = S.str("q", skeleton.count("?"), "x\n\t")
    text, i = "", 0
    for c in skeleton:
        if c == "?":
            text = text + q[i]
            i += 1
        else:
            text = text + c
    # the intended characters
    expanded = []
    for c in text:
        if c == "\t":
            expanded += [" "] * tabsize
        else:
            expanded.append(c)
    if styles:
        out, names, _ = spec(S, expanded, "~", "{", "}")
    else:
        out, names = [(c, ()) for c in expanded], []
    while out and out[-1][0] == "\n":
        out.pop()
    lead = 0
    while lead < len(out) and out[lead][0] == "\n":
        lead += 1
    box.code(language, text, line_numbers=numbers, use_styles=styles, tabsize=tabsize)
    page = render_pages(S, deck)[0]
    # token class of every character
    cls = [None] * len(out)
    if language:
        flat = []
        for t, v in Cuts.last:
            flat += [(t, c) for c in v]
        off = 0
        while off < len(flat) and flat[off][1] == "\n":
            off += 1
        for k in range(lead, len(out)):
            cls[k] = flat[off + k - lead][0]
            S.check(flat[off + k - lead][1] == out[k][0], "the code is highlighted")
    nlines = 1 + len([1 for c, _ in out if c == "\n"])
    byno = shown_lines(S, page, 20, nlines)
    shift = 0
    if language and lead:
        # the highlighter may drop leading empty lines
        if len(byno) > 0 and len(byno.get(nlines - 1, ())) == 0:
            shift = lead
    lines = [[]]
    for (c, chain), t in zip(out, cls):
        if c == "\n":
            lines.append([])
        else:
            ds = [own[t] if t in own else TOK[STYLE_OF.get(t, t)]] if t is not None else []
            lines[-1].append((c, styled(ds + [inline[names[j]] for j in chain])))
    lines = lines[shift:]
    width = len(str(len(lines)))
    S.check(all(k < len(lines) for k in byno), "no additional lines")
    for k, line in enumerate(lines):
        got = byno.get(k, [])
        if numbers:
            no = str(k + 1)
            no = "0" * (width - len(no)) + no
            S.check(len(got) > width, "every line is numbered")
            for c, (g, a) in zip(no, got):
                S.check(g == c, "zero-padded line number")
                S.check(a["fill"] == "gray", "line numbers have their own style")
            S.check(got[width][0] in ("\xa0", " "), "a space follows the number")
            got = got[width + 1:]
        S.check(len(got) == len(line), "every line has exactly its characters")
        for (g, a), (c, d) in zip(got, line):
            S.check(g == c if c != " " else g in ("\xa0", " "), "code characters are kept")
            check_css(S, a, css_of(d), "style of the token class and inline styles")


def k(skeleton, language, numbers=False, styles=False, tabsize=2, tokens=3, odd=None):
    return dict(odd=odd, skeleton=skeleton, language=language, numbers=numbers, styles=styles, tabsize=tabsize, tokens=tokens)


def empty_tail(S, text):
    """An empty span after the last line break."""
    box = make_deck(S).new_slide()
    box.set_style("a", TextStyle(opacity=0.5))
    S.check(S.raised(box.code, "python", text, use_styles=True) is None, "an empty span after the final line break is accepted")


WS = " \t\x0b\x0c\x85\u2028"


def indent(S, n, alphabet):
    text = S.str("t", n, alphabet)
    got = trim_indent(text)

    def lines_of(s):
        out = [""]
        for c in s:
            if c == "\n":
                out.append("")
            else:
                out[-1] = out[-1] + c
        return out

    def blank(line):
        return all([c in WS for c in line])

    src, dst = lines_of(text), lines_of(got)
    if len(dst) < len(src):
        S.check(len(dst) == len(src) - 1 and len(src[-1]) == 0, "only a final line break may be dropped")
        src = src[:-1]
    S.check(len(src) == len(dst), "number of lines")
    full = [(a, b) for a, b in zip(src, dst) if not blank(a)]
    m = None
    for a, b in full:
        lead = 0
        while a[lead] in WS:
            lead += 1
        m = lead if m is None else min(m, lead)
    for a, b in zip(src, dst):
        if blank(a):
            S.check(blank(b) and len(b) <= len(a), "blank lines stay blank")
        else:
            S.check(b == a[m:], "all lines are shifted by the smallest indentation and nothing else")


_Q = [
    k("?x??", "python"), k("??x?", "python", numbers=True), k("?x???", "", numbers=True), k("?x??", ""), k("x?x", "python", odd="plain"), k("x~a{y?}x", "cpp", styles=True, numbers=True, odd="own"),
    k("?~a{x?}?y", "python", styles=True), k("?x~a{?~b{y}}z", "cpp", styles=True, numbers=True),
    k("~a{?x}?", "python", styles=True, tokens=2), k("?~a{?x}?~b{?}y", "", styles=True, numbers=True, tabsize=3),
    k("~a{x}?", "", styles=False), k("x\n" * 8 + "??y?z", "", numbers=True), k("x\n" * 98 + "?y?", "", numbers=True), k("\n?x\n\n\n\n\n\n\n?y", "python", numbers=True, tokens=2),
]
_T = _Q + [k("?x???", "python", tokens=4), k("??x??", "python", numbers=True, tokens=3), k("?x~a{??~b{y}?}z", "cpp", styles=True, tokens=4),
           k("?~a{?~b{x?}?}?y", "rust", styles=True, numbers=True, tokens=3), k("??~a{??x}?", "python", styles=True, tokens=3)]
HARNESSES = [
    H("code", code, _Q, _T, "the listed snippets with every '?' a letter, tab or line break, any partition into at most 2-4 tokens of alternating classes (pygments is replaced by its contract)"),
    H("empty_tail", empty_tail, [dict(text="x\n~a{}")], bounds="one text (concrete)"),
    H("indent", indent, product(n=[0, 1, 4, 5], alphabet=[" \tx\n"]) + product(n=[3], alphabet=[" x\n\x0b\x0c\x85\u2028"]), product(n=[0, 1, 4, 5, 6, 7], alphabet=[" \tx\n"]) + product(n=[3, 4, 5], alphabet=[" x\n\x0b\x0c\x85\u2028"]), "texts of at most 5 (thorough 7) characters over the given alphabets"),
]
