"""The real marko parser. In symbolic runs it parses a template in which every
symbolic character is a distinct private-use letter; the characters are put
back into the parsed texts (replays parse the text itself, without the detour)."""
import types
from . import pygstub

BASE = 0xE000


def _template(text):
    from symx.strings import SymStr
    from symx.core import Unsupported
    if type(text) is str:
        return text, []
    out, chars = [], []
    for c in text:
        if type(c) is str:
            out.append(c)
        else:
            out.append(chr(BASE + len(chars)))
            chars.append(c)
    if not isinstance(text, SymStr):
        raise Unsupported("markdown of %s" % type(text).__name__)
    return "".join(out), chars


def _put_back(text, chars):
    r = ""
    for c in text:
        k = ord(c) - BASE
        r = r + (chars[k] if 0 <= k < len(chars) else c)
    return r


def _walk(node, chars):
    for k, v in list(vars(node).items()):
        if isinstance(v, str):
            setattr(node, k, _put_back(v, chars))
        elif isinstance(v, list):
            for c in v:
                if hasattr(c, "__dict__"):
                    _walk(c, chars)


def parse(text):
    import marko
    t, chars = _template(text)
    doc = marko.parse(t)
    if chars:
        _walk(doc, chars)
    return doc


class Markdown:
    def __init__(self, *a, **kw):
        pass

    def parse(self, text):
        return parse(text)


def env():
    import marko
    import marko.block
    import marko.inline
    m = types.SimpleNamespace(**vars(marko))
    m.parse = parse
    m.Markdown = Markdown
    m.block = marko.block
    m.inline = marko.inline
    return {"marko": m, "marko.block": marko.block, "marko.inline": marko.inline}


def symbolic():
    e = dict(pygstub.env())
    e.update(env())
    return e, {}, ()


def concrete():
    return pygstub.concrete()


def begin(S):
    pygstub.begin(S)
