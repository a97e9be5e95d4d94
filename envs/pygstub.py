"""Pygments replaced by its contract: any partition of the code (surrounding
newlines stripped, one trailing newline added) into tokens of any class."""
import types

_S = [None]
# (the last ones have no style)
TYPES = ["Token.Keyword", "Token.Comment.Single", "Token.Text", "Token.Literal.String", "Token.Keyword.Odd", "Token.Other.Odd.Odder"]
STYLE_OF = {"Token.Keyword.Odd": "Token.Keyword", "Token.Other.Odd.Odder": "Token.Other"}


class _Type(tuple):
    """Like pygments' token types: a tuple of names with a parent."""
    def __new__(cls, name):
        t = tuple.__new__(cls, name.split(".")[1:])
        t.name = name
        t.parent = _Type(name.rsplit(".", 1)[0]) if "." in name else None
        return t

    def split(self):
        out = [self]
        while out[0].parent is not None:
            out.insert(0, out[0].parent)
        return out

    def __contains__(self, o):
        return o[:len(self)] == self[:]

    def __getattr__(self, n):
        if n[:1].isupper():
            return _Type(self.name + "." + n)
        raise AttributeError(n)

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name


_TYPES = [_Type(t) for t in TYPES]


class Cuts:
    """Where token boundaries are possible (None: everywhere)."""
    max_tokens = 4
    odd = False       # also token types without a style
    choose = True     # False: the whole code is one token
    last = None
    lexers = []


def strip_newlines(code):
    while len(code) > 0 and code[0] == "\n":
        code = code[1:]
    while len(code) > 0 and code[-1] == "\n":
        code = code[:-1]
    return code


class Lexer:
    def __init__(self, stripnl=True, ensurenl=True):
        self.stripnl = stripnl
        self.ensurenl = ensurenl


def tokens(code, lexer):
    S = _S[0]
    if lexer.stripnl:
        code = strip_newlines(code)
    if lexer.ensurenl and not (len(code) > 0 and code[-1] == "\n"):
        code = code + "\n"
    n = len(code)
    out, at = [], 0
    Cuts.last = []
    i = 0
    if not Cuts.choose:
        Cuts.last.append((TYPES[0], code))
        return [(_TYPES[0], code)]
    while at < n:
        left = n - at
        if i + 1 >= Cuts.max_tokens:
            size = left
        else:
            size = S.choice("tok%d.len" % i, range(1, left + 1))
        t = S.choice("tok%d.type" % i, [0, 1] if not Cuts.odd else [0, 1, 4, 5]) if i == 0 else 0
        t = t + 2 * (i % 2) if t < 4 else t
        out.append((_TYPES[t], code[at:at + size]))
        Cuts.last.append((TYPES[t], code[at:at + size]))
        at += size
        i += 1
    return out


def highlight(code, lexer, formatter, outfile=None):
    return formatter.format(tokens(code, lexer), outfile)


def get_lexer_by_name(name, **kw):
    if name not in ("python", "cpp", "rust", "text"):
        raise Exception("no lexer for alias %r found" % (name,))
    Cuts.lexers.append(name)
    return Lexer(**kw)


class Formatter:
    def __init__(self, **options):
        pass


STYLES = [
    (_Type("Token"), dict(color="", bold=False, italic=False)),
    (_Type("Token.Other"), dict(color="101112", bold=True, italic=True)),
    (_Type("Token.Literal"), dict(color="", bold=False, italic=False)),
    (_Type("Token.Comment"), dict(color="408080", bold=False, italic=True)),
    (_TYPES[0], dict(color="008000", bold=True, italic=False)),
    (_TYPES[1], dict(color="408080", bold=False, italic=True)),
    (_TYPES[2], dict(color="", bold=False, italic=False)),
    (_TYPES[3], dict(color="BA2121", bold=False, italic=False)),
]


def get_style_by_name(name):
    return _Themes()


class _Themes:
    def __iter__(self):
        return iter(STYLES)

    def style_for_token(self, t):
        return dict(STYLES)[t]

    def styles_token(self, t):
        return t in dict(STYLES)


pyg = types.SimpleNamespace(
    highlight=highlight,
    formatter=types.SimpleNamespace(Formatter=Formatter),
    lexers=types.SimpleNamespace(get_lexer_by_name=get_lexer_by_name),
    token=types.SimpleNamespace(Token=_Type("Token"), STANDARD_TYPES=dict((t, str(t)) for t, _ in STYLES), string_to_tokentype=lambda n: n if isinstance(n, _Type) else _Type("Token." + n)),
    styles=types.SimpleNamespace(get_style_by_name=get_style_by_name),
)


def env():
    return {"pygments": pyg}


def symbolic():
    return env(), {}, ()


def concrete():
    return env(), {}, {}


def begin(S):
    _S[0] = S
    Cuts.last = None
    Cuts.lexers = []
    Cuts.max_tokens = 4
    Cuts.choose = True
    Cuts.odd = False
