"""C30: counters, labels and indentation of lists."""
from symx.session import H, product
from elsie.ext import ordered_list, unordered_list
from props.lib import make_deck, FakeShell, mark, rects_by_fill, render_pages, style_map

BULLET = "•"


class Model:
    """What the statement says about one list."""

    def __init__(self, real, ordered, prefix, start, label, parent=None, indents=()):
        self.real, self.ordered = real, ordered
        self.prefix = list(prefix)
        self.next = start
        self.current = None          # the last number
        self.start = start
        self.label = label           # None: default
        self.parent = parent
        self.indents = list(indents)
        self.marks = []

    def counters(self):
        return self.prefix + [self.current if self.current is not None else self.start - 1]


class Labels:
    """Label functions that keep what they get."""

    def __init__(self, S):
        self.S = S
        self.kept = []

    def make(self, tag, spoil=False):
        def fn(box, level):
            self.kept.append((tag, level, list(level)))
            box.text(tag)
            if spoil:
                level.append(77)
                level[0] = 99
        return fn


def same_numbers(S, a, b):
    return len(a) == len(b) and S.And(*[S.eq(x, y) for x, y in zip(a, b)]) if len(a) else len(b) == 0


def items_of(page):
    """colour of the marker -> the text painted before it."""
    out, last = {}, None
    for n in page.iter():
        if n.tag == "text":
            last = n.text()
        elif n.tag == "rect":
            out[style_map(n.attrs["style"])["fill"]] = last
            last = None
    return out


def check_number(S, text, numbers, label):
    """Numbers joined by dots (a dot may follow)."""
    S.check(text is not None, label)
    parts = text.split(".")
    if parts[-1] == "":
        parts = parts[:-1]
    S.check(len(parts) == len(numbers), label)
    for p, v in zip(parts, numbers):
        S.check(S.eq(int(p), v), label)


OPS = ["item", "text", "fn", "ul", "ol", "start", "level", "top", "fnlist", "up"]


def history(S, first, steps, ops):
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    slide = deck.new_slide()
    L = Labels(S)
    S.split_numbers()
    s0 = S.int("start0", 0, 60)
    if first == "ol":
        cur = Model(ordered_list(slide.box(), start=s0), True, [], s0, None)
    elif first == "ol1":
        cur = Model(ordered_list(slide), True, [], 1, None)
    elif first == "ul":
        cur = Model(unordered_list(slide.box()), False, [], 1, None)
    elif first == "fn":
        f = L.make("F0", True)
        cur = Model(ordered_list(slide.box(), start=s0, label=f), True, [], s0, "F0")
    else:
        cur = Model(unordered_list(slide.box(), label="-"), False, [], 1, "-")
    want = []
    n = 0
    shared = [S.int("shared", 0, 60)] if "shared" in ops else []    # prefixes used for several lists
    base = shared[0] if shared else None
    empty = []

    def item(m, label):
        m.current = m.next
        m.next = m.next + 1
        args = {}
        shown = m.label
        if label == "text":
            args["label"] = shown = "own%d" % n
        elif label == "fn":
            shown = "G%d" % n
            args["label"] = L.make(shown)
        colour = "#%06x" % (len(want) + 1)
        mark(m.real.item(**args), colour)
        want.append((colour, shown, m.ordered, m.counters()))
    i = 0
    for i in range(steps):
        n = i
        op = S.choice("op%d" % i, ops)
        if op == "item":
            item(cur, None)
        elif op == "text" or op == "fn":
            item(cur, op)
        elif op == "ul":
            with cur.real.ul() as real:
                cur = Model(real, False, cur.counters(), 1, None, cur)
        elif op == "ol":
            cur = Model(cur.real.ol(), True, cur.counters(), 1, None, cur)
        elif op == "start":
            v = S.int("start%d" % (i + 1), 0, 60)
            cur = Model(cur.real.ol(start=v, label="s%d" % i if i == 1 else None), True, cur.counters(), v, "s%d" % i if i == 1 else None, cur)
        elif op == "level":
            a, b = S.int("la%d" % i, 0, 9), S.int("lb%d" % i, 0, 60)
            given = [a, b]
            if i == 2:
                cur = Model(cur.real.ol(level=given), True, [a, b], 1, None, cur)
            else:
                cur = Model(cur.real.ol(given, start=7), True, [a, b], 7, None, cur)
            given.append(5)
        elif op == "shared":
            cur = Model(cur.real.ol(level=shared), True, [base], 1, None, cur)
        elif op == "empty":
            cur = Model(cur.real.ol(level=empty), True, [], 1, None, cur)
        elif op == "top":
            cur = Model(cur.real.ol(level=()), True, [], 1, None, cur)
        elif op == "fnlist":
            cur = Model(cur.real.ul(label=L.make("F%d" % (i + 1))), False, cur.counters(), 1, "F%d" % (i + 1), cur)
        else:
            if cur.parent is None:
                S.assume(False)
            cur = cur.parent
    n = steps
    while cur is not None:
        item(cur, None)
        n += 1
        cur = cur.parent
    got = items_of(render_pages(S, deck)[-1])
    S.check(len(got) == len(want), "every item is drawn")
    for colour, shown, ordered, numbers in want:
        text = got.get(colour)
        if shown is None and ordered:
            check_number(S, text, numbers, "ordered items are numbered consecutively")
        else:
            S.check(text == (BULLET if shown is None else shown), "items carry the label of their list or their own")
        if shown is not None and (shown.startswith("F") or shown.startswith("G")):
            k = [x for x in L.kept if x[0] == shown]
            if shown.startswith("G"):
                S.check(len(k) == 1, "label functions are called for each label")
            S.check(S.Or(*[same_numbers(S, x[2], numbers) for x in k]), "label functions get the counters")
    for tag, level, was in L.kept:
        if tag == "F0":
            continue
        S.check(same_numbers(S, list(level), was), "counters given to a label function stay")
    for tag in sorted(set([k[0] for k in L.kept if k[0].startswith("F")])):
        S.check(len([k for k in L.kept if k[0] == tag]) == len([w for w in want if w[1] == tag]), "label functions are called for each label")


# ---------------------------------------------------------------- geometry
def geometry(S, path, again, kinds=("ul", "ol")):
    """Nested lists: path[k] tells whether the k-th sublist gets its own indent."""
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    slide = deck.new_slide()
    parent = slide.box(x=0, y=0, width=900, height=600)
    d0, p0 = S.real("indent", 0, 60), S.real("padding", 0, 60)
    w = [S.real("w%d" % i, 0, 80) for i in range(2 * len(path) + 4)]
    rows = []            # (depth, key of the nesting, marker of the label, marker of the content, label width, padding)

    def add(real, key, own=None):
        i = len(rows)

        def label(box, level):
            mark(box.box(width=w[i], height=3), "#aa%04x" % i)
        kw = {} if own is None else {"label_padding": own}
        mark(real.item(label=label, **kw).box(width=20, height=5, x=0), "#bb%04x" % i)
        rows.append((key, i, w[i], p0 if own is None else own))
    make = unordered_list if kinds[0] == "ul" else ordered_list
    real = make(parent, indent=d0, label_padding=p0)
    lists = [real]
    key, default = (), d0
    add(real, key)
    for k, own in enumerate(path):
        ind = S.real("indent%d" % k, 0, 60) if own else None
        real = getattr(real, kinds[1] if k % 2 else kinds[0])(**({} if ind is None else {"indent": ind}))
        default = default if ind is None else ind
        key = key + (default,)
        add(real, key)
        lists.append(real)
    add(real, key, S.real("own", 0, 60))
    if again:
        # a second sublist with the same nesting, after further items of the outer lists
        add(lists[0], ())
        kw = {"indent": key[0]} if path[0] else {}
        other = lists[0].ol(**kw)
        add(other, key[:1])
    else:
        add(lists[-2] if len(lists) > 1 else lists[-1], key[:-1])
    page = rects_by_fill(render_pages(S, deck)[0])
    pos = []
    for key, i, width, pad in rows:
        l, c = page["#aa%04x" % i], page["#bb%04x" % i]
        S.check(S.eq(l.w, width), "labels keep their size")
        S.check(S.eq(c.x, l.x + width + pad), "contents are placed after the label and its padding")
        pos.append(l.x)
    for a in range(len(rows)):
        k = rows[a][0]
        acc = [sum(k[:i + 1]) for i in range(len(k))]
        S.check(S.eq(pos[a], sum(acc) + (acc[-1] if acc else 0)), "lists and items are inset by the accumulated indent")
        for b in range(len(rows)):
            ka, kb = rows[a][0], rows[b][0]
            if a < b and len(ka) == len(kb):
                S.check(S.eq(pos[a], pos[b]), "items of lists nested in the same way are aligned")
            if len(kb) == len(ka) + 1:
                S.check(S.le(pos[a] + kb[-1], pos[b]), "sublists are indented at least by their indent")
    tops = [page["#bb%04x" % i] for _, i, _, _ in rows]
    for a, b in zip(range(len(rows)), range(1, len(rows))):
        S.check(S.le(tops[a].y + tops[a].h, tops[b].y), "items are below each other in order")


# ---------------------------------------------------------------- arguments
def arguments(S, case):
    """Box arguments given to a list apply to its items, those of an item to the item only."""
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    slide = deck.new_slide()
    parent = slide.box(x=0, y=0, width=900, height=660)
    h = S.real("h", 60, 90)
    g = S.real("g", 60, 90)
    a, b = S.choice("a", [1, 2, 3]), S.choice("b", [1, 2, 4])
    inner = S.choice("inner", [None, 1, 3])
    make = ordered_list if case % 2 else unordered_list
    lst = make(parent, height=h, show="%d+" % a, p_top=3)
    rows = []

    def add(real, h, first, **kw):
        i = len(rows)
        mark(real.item(**kw), "#cc%04x" % i)
        rows.append((h, first))
    add(lst, h, a)
    add(lst, h, b, show="%d+" % b)
    add(lst, g, a, height=g)
    add(lst, h, a)
    if case >= 2:
        kw = {} if inner is None else {"show": "%d+" % inner}
        sub = (lst.ul if case % 2 else lst.ol)(height=None, **kw)
        si = a if inner is None else inner
        add(sub, None, si)
        add(sub, g, si, height=g)
        add(sub, None, max(si, b), show="%d+" % b)
        add(sub, None, si)
        add(lst, h, a)
    slide.box(x=0, y=0, show="5").rect(bg_color="#dddddd")
    pages = [rects_by_fill(p) for p in render_pages(S, deck)]
    S.check(len(pages) == 5, "fragments are shown")
    for f, page in enumerate(pages):
        for i, (_, show) in enumerate(rows):
            S.check(("#cc%04x" % i in page) == (f + 1 >= show), "items are shown in the fragments of their list or their own")
    page = pages[-1]
    ys = [page["#cc%04x" % i] for i in range(len(rows))]
    for i in range(3):
        # heights of the items: centres are apart by a half of both heights
        S.check(S.eq(ys[i + 1].y + ys[i + 1].h / 2 - ys[i].y - ys[i].h / 2, (rows[i][0] + rows[i + 1][0]) / 2), "items have the height of their list or their own")


def revealing(S, ops):
    """Without a `show` argument items appear together with what was made before them."""
    deck = make_deck(S, shell=FakeShell(S, fixed=10))
    slide = deck.new_slide()
    args = S.choice("args", [{}, {"height": 20}])
    cur = S.choice("kind", [ordered_list, unordered_list])(slide.box(), **args)
    last, want = 1, []
    for i in range(ops):
        op = S.choice("op%d" % i, ["item", "next", "sub", "jump"])
        if op == "sub":
            cur = cur.ul() if i % 2 else cur.ol()
            continue
        kw = {}
        if op == "next":
            last += 1
            kw["show"] = "next+"
        elif op == "jump":
            n = S.choice("jump%d" % i, [2, 4])
            slide.box(show=n, width=1, height=1)
            last = max(last, n)
        mark(cur.item(**kw), "#dd%04x" % i)
        want.append((i, last))
    pages = [rects_by_fill(p) for p in render_pages(S, deck)]
    S.check(len(pages) == last, "fragments are shown")
    for f, page in enumerate(pages):
        for i, show in want:
            S.check(("#dd%04x" % i in page) == (f + 1 >= show), "items appear with the fragments made before them")


HARNESSES = [
    H("history", history, product(first=["ol", "ul", "ol1"], steps=[3], ops=[OPS]) + product(first=["fn", "text"], steps=[2], ops=[OPS]) + [dict(first="ol", steps=4, ops=["item", "ul", "start", "up"]), dict(first="ol1", steps=4, ops=["shared", "empty", "item", "up"])],
      product(first=["ol", "ul", "fn"], steps=[4], ops=[OPS]) + product(first=["ol", "ul"], steps=[6], ops=[["item", "ul", "start", "up"]]) + [dict(first="ol", steps=6, ops=["shared", "empty", "item", "up"])],
      "all histories of items and sublists up to 3 (thorough 4; 6 for a smaller choice) operations followed by an item in every open list; start values and prefixes 0..60"),
    H("geometry", geometry, [dict(path=[True, False], again=False), dict(path=[False, True], again=True, kinds=["ol", "ul"]), dict(path=[True], again=True), dict(path=[], again=False), dict(path=[True, True, True], again=False)],
      product(path=[[a, b, c] for a in (True, False) for b in (True, False) for c in (True, False)], again=[True, False]) + product(path=[[True] * 4], again=[True, False]), "nestings of up to 4 lists with symbolic indents, paddings and label widths"),
    H("arguments", arguments, product(case=[0, 1, 2, 3]), None, "default arguments of lists, overridden by sublists and items (symbolic heights, all combinations of three fragments)"),
    H("revealing", revealing, [dict(ops=4)], [dict(ops=6)], "histories of items and sublists without arguments, with `next+` and with boxes beside the list"),
]
