"""C31: markdown documents."""
from symx.session import H, product
from envs.pygstub import Cuts
from elsie import TextStyle
from elsie.ext import markdown
from props.lib import make_deck, FakeShell, render_pages, svg_text, css_of, check_css

DEFAULT = dict(font="f0", size=21, color="#010203")
BUILTIN = {"md-paragraph": {}, "md-bold": dict(bold=True), "md-italic": dict(italic=True), "md-link": dict(color="#0EBFE9"), "md-blockquote": dict(color="#A9A9A9")}
for _i in range(1, 7):
    BUILTIN["md-h%d" % _i] = dict(size=42 - 2 * _i)
CODE = dict(font="fc", size=11, color="#0c0c0c", bold=False, italic=False)
USER = {"a": dict(opacity=0.5), "b": dict(font="bf")}
# styles used instead of the built-in ones
OWN = {"md-paragraph": dict(opacity=0.25), "md-bold": dict(color="#b01d00"), "md-italic": dict(font="it"), "md-link": dict(bold=True), "md-blockquote": dict(italic=True, size=33)}


class Md:
    """One markdown document with what has to be printed."""

    def __init__(self, S, skeletons, own, esc, alphabet="ab~{}<&"):
        self.S, self.esc, self.own = S, esc, own
        n = skeletons.count("?")
        self.q = S.str("q", n, alphabet) if n else ""
        self.used = 0
        self.styles = {}
        for k, v in BUILTIN.items():
            self.styles[k] = v
        for k in own:
            self.styles[k] = OWN[k] if k in OWN else dict(size=S.real("size of " + k, 5, 90))
        self.styles.update(USER)
        self.rows = []       # (kind, what): printed texts in order

    def chars(self, text):
        out = []
        for c in text:
            if c == "?":
                c = self.q[self.used]
                self.used += 1
            out.append(c)
        return out

    # ---- inline texts -> (markdown, [character or ("open", style) or ("close",)])
    def inline(self, items):
        md, toks = "", []
        for it in items:
            if isinstance(it, str):
                for c in self.chars(it):
                    md = md + c
                    toks.append(("c", c))
            elif it[0] in ("md-bold", "md-italic", "md-link", "link0"):
                m, t = self.inline(it[1])
                md = md + {"md-bold": "**", "md-italic": "*", "md-link": "[", "link0": "["}[it[0]] + m + {"md-bold": "**", "md-italic": "*", "md-link": "](u?~{t)", "link0": "]()"}[it[0]]
                name = "md-link" if it[0] == "link0" else it[0]
                toks += [("open", name)] + t + [("close", name)]
            elif it[0] == "br":
                md = md + it[1] + "\n"
                toks.append(("c", "\n"))
            else:
                # a character escaped by a backslash
                md = md + "\\" + it[1]
                toks.append(("lit", it[1]))
        return md, toks

    def printed(self, toks):
        """Characters with the styles of the spans around them."""
        S, esc = self.S, self.esc
        out, stack = [], []
        i, n = 0, len(toks)
        while i < n:
            kind, c = toks[i]
            if kind == "open":
                stack.append(c)
            elif kind == "close":
                # a user's span reaching out of a formatted one is not specified
                S.assume(len(stack) > 0 and stack[-1] == c)
                stack.pop()
            elif kind == "lit":
                out.append((c, tuple(stack)))
            elif c == esc:
                if i + 1 < n and toks[i + 1][0] == "c" and toks[i + 1][1] == esc:
                    out.append((c, tuple(stack)))
                    i += 2
                    continue
                name, i = "", i + 1
                # spans or escaped characters in the name of a style are not specified
                while i < n and not (toks[i][1] == "{"):
                    S.assume(toks[i][0] == "c" and len(name) < 1)
                    name = name + toks[i][1]
                    i += 1
                S.assume(i < n)
                if name == "a":
                    stack.append("a")
                elif name == "b":
                    stack.append("b")
                else:
                    S.assume(False)
            elif c == "}" and len(stack) > 0:
                # in a formatted span: known finding, decided by the harness `bracket`
                S.assume(stack[-1] in USER)
                stack.pop()
            else:
                out.append((c, tuple(stack)))
            i += 1
        S.assume(len(stack) == 0)
        return out

    # ---- blocks
    def blocks(self, items, context=(), depth=0):
        """Lines of markdown of the blocks."""
        lines = []
        for k, b in enumerate(items):
            tight = b[0][0] == "="
            kind = b[0].lstrip("=")
            if k and not tight:
                lines.append("")
            if kind == "p":
                md, t = self.inline(b[1:])
                self.rows.append(("text", self.printed(t), context + ("md-paragraph",), depth))
                lines += lines_of(md)
            elif kind[0] in "hs":
                md, t = self.inline(b[1:])
                self.rows.append(("text", self.printed(t), context + ("md-h" + kind[1],), depth))
                if kind[0] == "h":
                    lines.append("#" * int(kind[1]) + " " + md)
                else:
                    lines += lines_of(md) + ["===" if kind[1] == "1" else "---"]
            elif kind == "q":
                lines += ["> " + l for l in self.blocks(b[1:], context + ("md-blockquote",), depth)]
            elif kind == "c":
                code = [self.text(x) for x in b[2:]]
                self.rows.append(("code", code, b[1], depth))
                lines += ["```" + b[1]] + code + ["```"]
            elif kind == "u" or kind == "o":
                number = b[1]
                for i, item in enumerate(b[2:]):
                    if i and not tight:
                        lines.append("")
                    if kind == "u":
                        label, marker = number, number + " "
                    else:
                        label = str(number + i) + "."
                        marker = (str(number + i) if i % 2 else str(number)) + ". " if i else str(number) + ". "
                    self.rows.append(("label", label, context, depth + 1))
                    inner = self.blocks(item, context, depth + 1)
                    if not inner:
                        inner = [""]
                    lines += [marker + inner[0]] + [" " * len(marker) + l if len(l) else l for l in inner[1:]]
        return lines

    def text(self, skeleton):
        r = ""
        for c in self.chars(skeleton):
            r = r + c
        return r


def lines_of(text):
    out = [""]
    for c in text:
        if c == "\n":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


def flat(items):
    r = ""
    for x in items:
        if isinstance(x, str):
            r += x
        elif isinstance(x, (list, tuple)):
            r += flat(x)
    return r


def document(S, blocks, own=(), esc="~", indent="", alphabet="ab~{}<&"):
    Cuts.choose = False
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    slide = deck.new_slide()
    box = slide.box(x=0, y=0, width=800, height=600)
    box.update_style("default", TextStyle(align="middle", **DEFAULT))
    box.set_style("code", TextStyle(align="left", line_spacing=1, **CODE))
    for k, v in USER.items():
        box.set_style(k, TextStyle(**v))
    d = Md(S, flat(blocks), own, esc, alphabet)
    lines = d.blocks(blocks)
    for k in own:
        box.set_style(k, TextStyle(**d.styles[k]))
    source = ""
    for l in lines:
        source = source + ("\n" if len(source) else "") + (indent + l if len(l) else l)
    if indent:
        source = "\n" + source + "\n" + indent
    if esc == "~":
        markdown(box, source)
    else:
        markdown(box, source, escape_char=esc)
    compare(S, render_pages(S, deck)[0], d)


def printed_lines(S, node):
    """Characters with their attributes of every printed line (empty lines of code included)."""
    out, lh = [], CODE["size"]
    for dy, chars in svg_text(S, node):
        if node.attrs.get("font-family") == CODE["font"]:
            while S.concrete(lh * (len(out) + 1) <= dy):
                out.append([])
        out.append(chars)
    return out


def compare(S, page, d):
    nodes = []
    for n in page.find_all("text"):
        lines = printed_lines(S, n)
        if not all([len(l) == 0 for l in lines]):
            nodes.append((n, lines))
    S.check(len(nodes) == len(d.rows), "every block is printed exactly once")
    highlighted = []
    last_y, last_label = None, {}
    for (n, lines), row in zip(nodes, d.rows):
        kind, what, arg, depth = row
        x, y = float(n.attrs["x"]), float(n.attrs["y"])
        if kind == "label":
            S.check(len(lines) == 1 and len(lines[0]) == len(what), "labels of lists")
            style = dict(DEFAULT)
            for name in arg:
                style.update(d.styles[name])
            for (g, a), c in zip(lines[0], what):
                S.check(g == c, "labels of lists")
                check_css(S, a, css_of(style), "style of labels")
            for k in list(last_label):
                if k > depth:
                    del last_label[k]
            if depth in last_label:
                S.check(S.eq(last_label[depth], x), "labels of a list are aligned")
            last_label[depth] = x
            if depth - 1 in last_label:
                S.check(last_label[depth - 1] < x, "sublists are indented")
            continue
        if last_y is not None:
            S.check(last_y < y, "blocks are below each other in order")
        last_y = y
        if depth in last_label:
            S.check(last_label[depth] < x, "contents are next to their labels")
        if "md-paragraph" not in d.own and not any([o.startswith("md-h") for o in d.own]):
            S.check(style_anchor(n) == "start", "markdown is aligned to the left")
        if kind == "code":
            if arg:
                highlighted.append(arg)
            S.check(len(lines) == len(what), "lines of code")
            for got, want in zip(lines, what):
                S.check(len(got) == len(want), "code is printed completely")
                for (g, a), c in zip(got, want):
                    S.check(g == c if c != " " else g in ("\xa0", " "), "code is printed completely")
                    S.check(a["font-family"] == CODE["font"] and S.eq(float(a["font-size"]), CODE["size"]), "code has its own style")
            continue
        want = [[]]
        for c, stack in what:
            if c == "\n":
                want.append([])
            else:
                want[-1].append((c, stack))
        S.check(len(lines) == len(want), "lines of a text are kept")
        base = dict(DEFAULT)
        for name in arg:
            base.update(d.styles[name])
        for got, line in zip(lines, want):
            S.check(len(got) == len(line), "texts are printed completely")
            for (g, a), (c, stack) in zip(got, line):
                S.check(g == c if c != " " else g in ("\xa0", " "), "texts are printed completely")
                style = dict(base)
                for name in stack:
                    style.update(d.styles[name])
                check_css(S, a, css_of(style), "style of the text")
    S.check(Cuts.lexers == highlighted, "code is highlighted for its language")


def style_anchor(n):
    for part in n.attrs.get("style", "").split(";"):
        if part.strip().startswith("text-anchor:"):
            return part.split(":", 1)[1].strip()
    return n.attrs.get("text-anchor", "start")


B, I, L, BR, ESC = "md-bold", "md-italic", "md-link", ("br", ""), lambda c: ("lit", c)
P = lambda *a: ("p",) + a


def dd(*blocks, **kw):
    return dict(blocks=list(blocks), **kw)


ITEMS = [P("i??j")], [P("k?l")]
INLINE = [
    dd(P("x????y")),
    dd(P("x??y", ("md-bold", ["m???n"]), " o??p")),
    dd(P("x ", ("md-bold", ["m ", ("md-italic", ["n?o"]), "?p"]), "q ", ("md-link", ["r?s"]), "?t")),
    dd(P("x?y", BR, ("md-italic", ["m?n", BR, "o?p"]), " q?")) if False else dd(P("x?y", BR, ("md-italic", ["m?n", BR, "o?p"]), " q?r")),
    dd(P("x", ("br", "  "), "y?z", ("br", "\\"), "w?v")),
    dd(P("x??", ESC("*"), "b?c", ESC("_"), "d")),
    dd(P("x", ESC("~"), "a{y?z}", ESC("~"), "w")),
    dd(P("~a{x?y ", ("md-bold", ["z"]), " w}?v")),
    dd(P(("md-bold", ["x~b{y?z}w"]), "?v")),
    dd(P("x????y"), esc="!"),
    dd(P("x!a{y??}z ", ("md-bold", ["m?n"]), ESC("!"), "?o"), esc="!"),
]
BLOCKS = [
    dd(*[("h%d" % (i + 1), "%s?y" % "abcdef"[i]) for i in range(6)]),
    dd(("s1", "x?y"), ("s2", "z ", ("md-bold", ["m"]), "?w"), ("=p", "k?l")),
    dd(P("x?y"), ("=h2", "k?l"), ("=p", "o?p"), P("q"), indent="    "),
    dd(("c", "python", "x = y?z", "  ~a{b?c}", "", "d"), P("o?p"), ("c", "", "~a{b?} *x* \\*", "y")),
    dd(P("x"), ("=c", "rust", "y"), ("=p", "z"), indent="  "),
    dd(("q", P("x?y ", ("md-bold", ["m"])), ("h1", "k?l"), ("c", "cpp", "z")), P("o?p")),
    dd(("q", P("x"), ("q", P("y?z"))), ("h3", "w")),
    dd(("q", ("o", 3, *ITEMS)), P("o?p")),
    dd(("u", "-", *ITEMS), P("o?p")), dd(("=u", "*", *ITEMS), ("o", 1, *ITEMS)),
    dd(("o", 0, [P("a")], [P("b")]), ("h2", "c"), ("o", 9, [P("d")], [P("e")], [P("f")])),
    dd(("u", "+", [P("x?y"), ("=o", 1, [P("k?l")], [P("m"), ("=u", "-", [P("n?o")])])], [P("p"), ("=u", "*", [P("r")], [P("s")])]), P("t")),
    dd(("o", 2, [P("x?y"), ("o", 5, [P("k?l")], [P("m"), ("o", 0, [P("n")])])], [P("p"), ("o", 7, [P("r")], [P("s")])], [P("t")])),
    dd(("u", "-", [P("x"), P("y?z"), ("q", P("a?b")), ("c", "python", "c?d")], [("h2", "e")], [("q", P("f"))])),
    dd(("u", "-", [("q", P("a"), ("o", 4, [P("b?c")], [P("d")])), ("q", P("x"))], [P("e")])),
    dd(("=u", "-", [P("a")], [], [P("b?c")]), P("d"), ("o", 3, [P("a")], [], [P("b")])),
    dd(("c", "python", "  x?y", "  z"), P("x"), ("c", "", "   a", " b"), ("u", "-", [("c", "rust", " fn", "x ")])),
    dd(P("a?", ("link0", ["b?c"]), " d")),
    dd(("u", "-", [P("x!a{?}"), ("=o", 1, [P("k!b{?}"), ("q", P("m!a{n}"))])]), ("q", P("x~?!b{l}")), esc="!"),
    dd(("o", 1, [("q", ("u", "*", [P("b?c")]), P("g"))], [P("e"), ("=o", 1, [P("h")])])),
]
OWNS = [["md-paragraph"], ["md-bold", "md-link"], ["md-italic"], ["md-blockquote"], ["md-h2"], ["md-h1", "md-h6", "md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote"]]
ALL = [("h1", "a", ("md-bold", ["b?c"])), ("h2", "d?e"), ("h6", "f"), P("x?y", ("md-bold", ["m?n ", ("md-italic", ["o"])]), ("md-link", ["l"]), ("md-italic", ["i", ("md-bold", ["j"])])),
       ("q", P("k?l", ("md-link", ["z"])), ("h1", "w")), ("u", "-", [P("u")])]


# ---------------------------------------------------------------- all documents
KINDS = ["p", "h", "q", "u", "o", "c", "end"]


def documents(S, steps, kinds):
    """Documents built by a sequence of choices."""
    def word(k):
        return "abcdefghijklmnop"[k % 16] * (1 + k // 16) + "x"
    root = []
    # stack of (kind of container, list of blocks)
    stack = [("root", root)]
    n = 0
    for i in range(steps):
        op = S.choice("op%d" % i, kinds)
        top, blocks = stack[-1]
        if op == "end":
            S.assume(len(stack) > 1 and len(blocks) > (0 if top in "q" else 2))
            stack.pop()
            continue
        if top in ("u", "o"):
            # blocks of an item; "li" starts the next item
            blocks = blocks[-1]
        if op == "li":
            S.assume(top in ("u", "o") and len(blocks) > 0)
            stack[-1][1].append([])
            blocks = stack[-1][1][-1]
            op = "p"
        # blocks after a sublist in an item: known finding
        S.assume(not (top in ("u", "o") and len(blocks) > 0 and blocks[-1][0] in ("u", "o")))
        # a list after a list and a quote after a quote would be the same list (quote)
        S.assume(not (len(blocks) > 0 and blocks[-1][0] == op and op in ("u", "o", "q")))
        if op == "p":
            blocks.append(("p", word(i), ("md-bold", ["b"]) if i % 2 else "s"))
        elif op == "h":
            blocks.append(("h" + "216354"[i % 6], word(i)))
        elif op == "c":
            blocks.append(("c", ["", "python", "cpp"][i % 3], word(i), " " + word(i)))
        elif op == "q":
            new = []
            blocks.append(("q", new))
            stack.append(("q", new))
        else:
            S.assume(not (top in ("u", "o") and len(blocks) == 0))
            new = [[]]
            blocks.append((op, ["-", "*", "+"][i % 3] if op == "u" else [1, 0, 7, 10][i % 4], new))
            stack.append((op, new))

    def final(blocks):
        S.assume(len(blocks) > 0)
        out = []
        for b in blocks:
            if b[0] == "q":
                out.append(("q",) + tuple(final(b[1])))
            elif b[0] in ("u", "o"):
                out.append((b[0], b[1]) + tuple([final(x) for x in b[2]]))
            else:
                out.append(b)
        return out
    document(S, final(root))


# ---------------------------------------------------------------- recorded defects
def bracket(S, text):
    """Brackets and escape characters next to formatted spans."""
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    box = deck.new_slide().box()
    err = S.raised(markdown, box, text[0])
    S.check(err is None, "brackets in formatted spans and escape characters before them are printed")
    shown = ""
    for n in render_pages(S, deck)[0].find_all("text"):
        shown = shown + n.text()
    S.check(shown.replace("\xa0", " ") == text[1], "brackets in formatted spans and escape characters before them are printed")


def after_sublist(S, text):
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    markdown(deck.new_slide().box(), text)
    shown = []
    for n in render_pages(S, deck)[0].find_all("text"):
        if n.text() in ("A", "B", "C"):
            shown.append((float(n.attrs["y"]), n.text()))
    S.check([t for _, t in shown] == ["A", "B", "C"] and shown[0][0] < shown[1][0] < shown[2][0], "a block after a sublist is printed below it")


TXT = "texts of symbolic characters (letters, ~ { } < &) at the places marked by '?'"
HARNESSES = [
    H("inline", document, INLINE, bounds="the listed paragraphs with bold, italic, linked and user-styled spans, line breaks and escaped characters; " + TXT),
    H("blocks", document, [dict(b, alphabet="a~{}") for b in BLOCKS], BLOCKS, bounds="the listed documents of headings, quotes, code and lists nested up to three levels; " + TXT),
    H("own", document, [dict(blocks=ALL, own=o, alphabet="a}") for o in OWNS], [dict(blocks=ALL, own=o) for o in OWNS], bounds="one document with every kind of text; subsets of the styles replaced by the user's, heading sizes symbolic"),
    H("documents", documents, [dict(steps=4, kinds=["p", "h", "q", "u", "o", "c", "li", "end"])],
      [dict(steps=6, kinds=["p", "h", "q", "u", "o", "c", "li", "end"]), dict(steps=9, kinds=["p", "u", "o", "li", "end"])],
      bounds="all documents of at most 4 (thorough 6; 9 for lists of paragraphs) nested blocks"),
    H("bracket", bracket, [dict(text=["**a}b**", "a}b"]), dict(text=["a~**b**", "a~b"])], bounds="two texts (concrete)"),
    H("after_sublist", after_sublist, [dict(text="- A\n    - B\n\n  C")], bounds="one document (concrete)"),
]
