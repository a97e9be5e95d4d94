"""C15: XML writer."""
from symx.session import H, product
from elsie.utils.sxml import Xml

NAMES = ["a", "g"]


def legal(S, s, attribute):
    """XML characters; line ends and, in attributes, all white space are subject to normalisation by every reader."""
    for c in s:
        S.assume(S.And(c != "\ufffe", c != "\uffff", c != "\r"))
        S.assume(S.Or(c >= " ", S.And(not attribute, S.Or(c == "\t", c == "\n"))))


class E:
    def __init__(self, tag):
        self.tag = tag
        self.attrs = []
        self.items = []

    def add(self, text):
        if self.items and not isinstance(self.items[-1], E):
            self.items[-1] = self.items[-1] + text
        else:
            self.items.append(text)


def nbsp(s):
    out = ""
    for c in s:
        out = out + ("\xa0" if c == " " else c)
    return out


def compare(S, node, e):
    S.check(node.tag == e.tag, "element names")
    S.check([k for k in node.attr_order] == [k for k, _ in e.attrs], "attributes")
    for k, v in e.attrs:
        S.check(node.attrs[k] == v, "attribute values are unchanged")
    items = [i for i in e.items if isinstance(i, E) or len(i) > 0]
    S.check(len(node.items) == len(items), "children")
    for a, b in zip(node.items, items):
        if isinstance(b, E):
            S.check(not isinstance(a, str) and hasattr(a, "tag"), "order of children")
            compare(S, a, b)
        else:
            S.check(not hasattr(a, "tag"), "order of children")
            S.check(a == nbsp(b), "texts are unchanged")


def writer(S, n, slen):
    """Any sequence of n writer calls after the root element was opened."""
    x = Xml()
    x.element("root")
    root = E("root")
    stack, is_open, done, nstr = [root], True, False, 0

    def string(attribute):
        s = S.str("s%d" % nstr, slen if nstr < 2 else 0)
        legal(S, s, attribute)
        return s
    for i in range(n):
        op = S.choice("op%d" % i, ["element", "set", "text", "close", "close_name"])
        if op == "element":
            if done:
                return
            name = NAMES[i % 2]
            x.element(name)
            e = E(name)
            stack[-1].items.append(e)
            stack.append(e)
            is_open = True
        elif op == "set":
            s = string(True)
            nstr += 1
            if not is_open:
                S.check(S.raised(x.set, "k", s) is not None, "attributes outside an opening tag are rejected")
                return
            x.set("k%d" % i, s)
            stack[-1].attrs.append(("k%d" % i, s))
        elif op == "text":
            if done:
                return
            s = string(False)
            nstr += 1
            x.text(s)
            stack[-1].add(s)
            is_open = False
        else:
            name = S.choice("name%d" % i, ["root"] + NAMES) if op == "close_name" else None
            err = S.raised(x.close, name) if name is not None else S.raised(x.close)
            if not stack:
                S.check(err is not None, "closing without an open element is rejected")
                return
            if name is not None and name != stack[-1].tag:
                S.check(err is not None, "misnamed closing is rejected")
                return
            S.check(err is None, "matching closing is accepted")
            stack.pop()
            is_open = False
            done = not stack
    if stack:
        S.check(S.raised(x.to_string) is not None, "unclosed elements are rejected")
        while stack:
            x.close()
            stack.pop()
    compare(S, S.xml(x.to_string()), root)


def values(S, kind, n, before=("",)):
    """One attribute or text of n arbitrary characters."""
    s = S.choice("before", before) + S.str("s", n)
    legal(S, s, kind != "text")
    x = Xml()
    x.element("root")
    if kind == "text":
        x.text(s)
    else:
        x.set("k", s)
    x.close("root")
    page = S.xml(x.to_string())
    if kind == "text":
        S.check(page.text() == nbsp(s), "text is unchanged")
    else:
        S.check(page.attrs["k"] == s, "attribute value is unchanged")


def shapes(S, n):
    """Strings given by the user arrive unchanged in the slide."""
    from props.lib import make_deck, render_pages
    from elsie import TextStyle
    deck = make_deck(S)
    s = S.str("font", n)
    legal(S, s, True)
    deck.new_slide().text("a", TextStyle(font=s))
    page = render_pages(S, deck)[0]
    S.check(page.find_all("text")[0].attrs["font-family"] == s, "font name is unchanged")


HARNESSES = [
    H("writer", writer, product(n=[0, 1, 2, 3, 4], slen=[1]), product(n=[3, 4, 5], slen=[1]) + product(n=[3], slen=[2]), "at most 4 (thorough 5) writer calls, at most two strings of 1 (thorough 2) arbitrary legal XML characters"),
    H("values", values, product(kind=["text", "attribute"], n=[0, 1, 2, 3]) + product(kind=["text", "attribute"], n=[1], before=[("&amp;", "&lt;", "&#160;", "]]>", "<!--", "<a>", "&#39;'\"", "%20", "\\n", "{0}")]), product(kind=["text", "attribute"], n=[0, 1, 2, 3, 4, 5]), "strings of at most 3 (thorough 5) arbitrary legal XML characters"),
    H("shapes", shapes, product(n=[2]), product(n=[3]), "a font name of 2 (thorough 3) arbitrary characters"),
]
