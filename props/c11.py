"""C11: merging of two stylings of the same text."""
from symx.session import H, product
from elsie.text.textparser import normalize_tokens, tokens_merge


def spans(S, name, k, n, flat):
    """k spans (start, end) in opening order, properly nested, over positions 0..n."""
    out = []
    for j in range(k):
        s = S.int("%s_s%d" % (name, j), 0, n)
        e = S.int("%s_e%d" % (name, j), 0, n)
        S.assume(s <= e)
        if out:
            S.assume(s >= out[-1][0])
        for a, b in out:
            S.assume(s >= b if flat else S.Or(s >= b, e <= b))
        out.append((s, e))
    return [(S.concrete(s), S.concrete(e)) for s, e in out]


def build(S, name, sp, chars):
    """Token list of the text with the given spans and the expected cover of every character."""
    tokens, cover, opened = [], [], []
    n = len(chars)

    def text(c):
        if tokens and tokens[-1][0] == "text":
            tokens[-1] = ("text", tokens[-1][1] + c)
        else:
            tokens.append(("text", c))
    todo = list(enumerate(sp))
    for p in range(n + 1):
        while opened and opened[-1][1] <= p and not (todo and todo[0][1][0] == p and opened[-1][1] > p):
            opened.pop()
            tokens.append(("end", None))
        while todo and todo[0][1][0] == p:
            j, (s, e) = todo.pop(0)
            while opened and opened[-1][1] <= s:
                opened.pop()
                tokens.append(("end", None))
            tokens.append(("begin", "%s%d" % (name, j)))
            opened.append((j, e))
        while opened and opened[-1][1] <= p:
            opened.pop()
            tokens.append(("end", None))
        if p < n:
            cover.append(["%s%d" % (name, j) for j, _ in opened])
            if chars[p] is None:
                tokens.append(("newline", 1))
            else:
                text(chars[p])
    return normalize_tokens(tokens), cover


def merge(S, n, k1, k2, flat=False, newlines=False):
    chars = []
    for i in range(n):
        nl = newlines and i < n - 1 and S.concrete(S.bool("nl%d" % i))
        chars.append(None if nl else S.str("c%d" % i, 1, exclude="\n"))
    t1, cover1 = build(S, "p", spans(S, "p", k1, n, flat), chars)
    t2, cover2 = build(S, "q", spans(S, "q", k2, n, False), chars)
    out = tokens_merge(t1, t2)
    pos, stack = 0, []
    for kind, v in out:
        if kind == "text":
            for c in v:
                S.check(pos < n and chars[pos] is not None, "text is not longer than the input")
                S.check(c == chars[pos], "text is kept")
                S.check([s for s in stack if s[0] == "p"] == cover1[pos], "styles of the first input")
                S.check([s for s in stack if s[0] == "q"] == cover2[pos], "styles of the second input")
                pos += 1
        elif kind == "newline":
            for _ in range(v):
                S.check(pos < n and chars[pos] is None, "line breaks are kept")
                pos += 1
        elif kind == "begin":
            stack.append(v)
        elif kind == "end":
            S.check(len(stack) > 0, "well nested")
            stack.pop()
        else:
            S.fail("unknown token")
    S.check(not stack, "all spans are closed")
    S.check(pos == n, "the whole text is kept")


def c(n, k1, k2, flat=False, newlines=False):
    return dict(n=n, k1=k1, k2=k2, flat=flat, newlines=newlines)


_Q = [c(3, 0, 2), c(5, 0, 1, newlines=True), c(4, 1, 1, newlines=True), c(3, 2, 1), c(3, 1, 2), c(5, 1, 1), c(4, 1, 2), c(4, 2, 1), c(3, 2, 2, flat=True)]
_T = _Q + [c(6, 0, 1, newlines=True), c(5, 1, 1, newlines=True), c(5, 2, 1), c(5, 1, 2), c(3, 2, 2), c(3, 3, 1, flat=True), c(3, 1, 3), c(3, 2, 2, flat=True, newlines=True), c(4, 2, 1, newlines=True), c(4, 1, 2, newlines=True), c(4, 2, 2, flat=True)]

HARNESSES = [
    H("merge", merge, _Q, _T, "texts of 3-5 arbitrary characters (newlines where listed) with up to 3 properly nested spans in each input (at most 4 together), any start and end positions; the last character is not a newline"),
]
