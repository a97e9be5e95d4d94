"""C22: paths in the Cairo and in the SVG backend."""
from symx.session import H, product
from props.lib import make_deck, render_pages, parse_path
from props.cairolib import cairo_deck, cairo_ops, subpaths, to_page

NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


def meaning(commands):
    """Curve of absolute path data by the SVG standard: [[start, segment, ...]], segment = ('L', p) or ('C', c1, c2, p)."""
    subs = []
    cur = None
    cubic = quad = None
    for name, pts in commands:
        n = NARGS[name]
        for k in range(0, len(pts), n):
            a = pts[k:k + n]
            cmd = "L" if name == "M" and k > 0 else name
            nc = nq = None
            if cmd == "M":
                subs.append([a[0]])
            elif cmd == "L":
                subs[-1].append(("L", a[0]))
            elif cmd == "C":
                subs[-1].append(("C", a[0], a[1], a[2]))
                nc = a[1]
            elif cmd == "S":
                c1 = cur if cubic is None else (2 * cur[0] - cubic[0], 2 * cur[1] - cubic[1])
                subs[-1].append(("C", c1, a[0], a[1]))
                nc = a[0]
            else:
                q = a[0] if cmd == "Q" else (cur if quad is None else (2 * cur[0] - quad[0], 2 * cur[1] - quad[1]))
                e = a[-1]
                subs[-1].append(("C", ((cur[0] + 2 * q[0]) / 3, (cur[1] + 2 * q[1]) / 3), ((e[0] + 2 * q[0]) / 3, (e[1] + 2 * q[1]) / 3), e))
                nq = q
            cur = a[-1]
            cubic, quad = nc, nq
    return subs


def build(S, shape):
    """'M1 C2' -> path commands with that many argument groups, symbolic coordinates."""
    cmds = []
    n = 0
    for t in shape.split():
        pts = []
        for _ in range(NARGS[t[0]] * int(t[1])):
            pts.append((S.real("x%d" % n, 0, 500), S.real("y%d" % n, 0, 500)))
            n += 1
        cmds.append((t[0], pts))
    return cmds


def same(S, p, q):
    return S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1]))


def check_curve(S, got, want):
    S.check(len(got) == len(want), "number of subpaths")
    for g, w in zip(got, want):
        S.check(len(g) == len(w), "number of segments")
        S.check(same(S, g[0], w[0]), "start of a subpath")
        for a, b in zip(g[1:], w[1:]):
            S.check(a[0] == b[0], "kind of segment")
            for p, q in zip(a[1:], b[1:]):
                S.check(same(S, p, q), "points of a segment")


def path(S, shape, backend, paint):
    cmds = build(S, shape)
    args = [(name,) + tuple(pts) for name, pts in cmds]
    want = [s for s in meaning(cmds) if len(s) > 1]
    deck = make_deck(S) if backend == "svg" else cairo_deck(S)
    slide = deck.new_slide()
    dx, dy = (0, 0) if paint == "both" else (S.real("dx", -100, 100), S.real("dy", -100, 100))
    box = slide.box(x=dx, y=dy, width=50, height=50)
    kw = dict(color="red", bg_color="blue") if paint == "both" else dict(color="red", stroke_width=3)
    box.path(args, **kw)
    want = [[(s[0][0] + dx, s[0][1] + dy)] + [(g[0],) + tuple([(p[0] + dx, p[1] + dy) for p in g[1:]]) for g in s[1:]] for s in want]
    if backend == "svg":
        nodes = render_pages(S, deck)[0].find_all("path")
        S.check(len(nodes) == 1, "one path")
        got = meaning(parse_path(nodes[0].attrs["d"]))
        check_curve(S, [s for s in got if len(s) > 1], want)
        return
    ops = cairo_ops(deck)[0]
    S.check([o.kind for o in ops] == (["fill", "stroke"] if paint == "both" else ["stroke"]), "painted as requested")
    for o in ops:
        got = []
        for sub in subpaths(o):
            S.check(sub[0][0] == "M", "subpaths start with a point")
            g = [to_page(sub[0][1])]
            for seg in sub[1:]:
                S.check(seg[0] in ("L", "C"), "open subpaths")
                g.append((seg[0],) + tuple([to_page(p) for p in seg[1:]]))
            got.append(g)
        check_curve(S, got, want)


def reject(S, first, mid):
    """Arbitrary command names and argument counts."""
    deck = make_deck(S)
    box = deck.new_slide().box(x=0, y=0, width=50, height=50)
    name = S.str("name", None if mid else 1, "MLCSQTZmlHVAcstqz 1") if not mid else S.str("name", 2, "MLCS")
    k = S.concrete(S.int("k", 0, 7))
    cmd = (name,) + tuple([(S.real("x%d" % i, 0, 9), 1) for i in range(k)])
    ok = False
    for n in NARGS:
        if S.concrete(name == n):
            ok = k > 0 and k % NARGS[n] == 0
    err = S.raised(lambda: box.path([("M", (0, 0)), cmd]))
    S.check((err is None) == ok, "accepted exactly when the command and its number of points are valid")
    n = len(render_pages(S, deck)[0].find_all("path"))
    S.check(n == (1 if ok else 0), "a rejected path draws nothing")


def shapes_upto():
    one = ["M1 %s%d" % (c, n) for c in "LCSQT" for n in (1, 2, 3)] + ["M3", "M2 L1"]
    two = ["M1 %s1 %s1" % (a, b) for a in "MLCSQT" for b in "MLCSQT"]
    return one + two


_THREE = ["M1 %s1 %s1 %s1" % (a, b, c) for a in "LCSQT" for b in "MLCSQT" for c in "CSQT"]
_MIX = ["M1 C2 S2", "M1 S2 S1", "M1 Q2 T3", "M1 T2 Q1 T1", "M1 C1 S2 Q1 S1", "M2 T1 M2 S1", "M1 Q1 M1 T1", "M1 C1 M1 S1"]
_ALL = shapes_upto() + _MIX
_Q = product(shape=_ALL + _THREE, backend=["cairo"], paint=["stroke"]) + product(shape=_MIX, backend=["svg", "cairo"], paint=["both"]) + product(shape=shapes_upto()[::5], backend=["svg"], paint=["stroke"])
_FOUR = ["M1 %s1 %s1 %s1 %s1" % (a, b, c, d) for a in "LCSQT" for b in "MLCSQT" for c in "LCSQT" for d in "SQT"]
_T = product(shape=_ALL + _THREE + _FOUR, backend=["svg", "cairo"], paint=["stroke"]) + product(shape=_MIX, backend=["svg", "cairo"], paint=["both"])
HARNESSES = [
    H("path", path, _Q, _T, "all sequences of up to three (thorough: four) commands after M, up to 3 argument groups per command, all coordinates symbolic; paths start with M"),
    H("reject", reject, product(first=[0], mid=[False, True]), bounds="one- and two-letter command names from a 20 letter alphabet, 0..7 points"),
]
