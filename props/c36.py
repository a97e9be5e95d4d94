"""C36: notebook representation of slides; the scripts are interpreted on a small document model."""
import base64
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf, minidom as dom
from props.lib import FakeShell, style_map
from elsie import SlideDeck
from elsie.render import jupyter
from elsie.render.backends.svg.backend import InkscapeBackend


class Shell(FakeShell):
    """Writes a file holding the document it was given."""

    def convert_to_pdf(self, source, target, type):
        self.exports.append((source, type))
        with fs.fake_open(target, "wb") as f:
            f.write(b"<" + type.encode() + b">" + source)


class Page:
    """Deck whose slides show one marker rectangle per fragment."""

    def __init__(self, S, counts):
        self.S = S
        fs.os.makedirs("/vfs/cache")
        self.shell = Shell(S)
        self.open()
        self.slides, self.colors = [], []
        for i, k in enumerate(counts):
            b = self.deck.new_slide("s%d" % i)
            cs = []
            for s in range(1, k + 1):
                c = "#%02x%02x00" % (i + 1, s * 5 % 17)
                b.box(x=0, y=0, width=1, height=1, show=str(s)).rect(bg_color=c)
                cs.append(c)
            self.slides.append(b.slide)
            self.colors.append(cs)

    def open(self):
        self.deck = SlideDeck(width=64, height=48, backend=InkscapeBackend(inkscape=self.shell, cache_dir="/vfs/cache"), cache_dir="/vfs/cache", name_policy="replace")


def outside(e):
    fs.outside(str(e))


def html_of(S, page, i, fmt):
    if fmt == "repr":
        return page.slides[i]._repr_html_()
    return jupyter.render_slide_html(page.slides[i], fmt)


def content(S, step, fmt):
    """Colours of the fragment shown by a numbered entry."""
    if fmt == "svg":
        svgs = [e for e in step.items if isinstance(e, dom.Elem) and e.tag == "svg"]
        S.check(len(svgs) == 1, "each entry shows one fragment")
        root = svgs[0]
        S.check(root.attrs["width"] == "64" and root.attrs["height"] == "48", "size of the fragment")
        return [style_map(e.attrs["style"])["fill"] for e in root.iter() if e.tag == "rect"]
    imgs = step.find("img")
    S.check(len(imgs) == 1, "each entry shows one fragment")
    head, data = imgs[0].attrs["src"].split(",", 1)
    S.check(head.replace(" ", "") == "data:image/png;base64", "each entry shows a PNG picture")
    data = base64.b64decode("".join(data.split()), validate=True)
    S.check(data.startswith(b"<png>"), "each entry shows a PNG picture")
    return [style_map(n.attrs["style"])["fill"] for n in S.xml(data[5:].decode()).find_all("rect")]


def check_cell(S, cell, colors, fmt):
    S.check(cell.well_formed, "well-formed HTML")
    if any(["display" in e.text() and "none" in e.text() for e in cell.find("style")]):
        fs.outside("visibility by style sheets")
    steps = cell.find(".elsie-step")
    S.check(len(steps) == len(colors), "one entry per fragment")
    for k, (e, c) in enumerate(zip(steps, colors)):
        S.check("step-%d" % (k + 1) in e.classes, "entries are numbered in order")
        S.check(content(S, e, fmt) == [c], "each entry shows its fragment")
    controls = cell.find("button")
    if len(colors) == 1:
        S.check(not controls and not cell.find(".elsie-next") and not cell.find("script"), "no navigation for a single fragment")
        S.check(steps[0].shown(), "a single fragment is visible")
    else:
        S.check(len(cell.find(".elsie-next")) == 1 and len(cell.find(".elsie-previous")) == 1 and len(cell.find(".elsie-current-step")) == 1, "navigation controls")


def check_state(S, cell, n, active):
    """What the reader sees when fragment `active` is selected."""
    for k, e in enumerate(cell.find(".elsie-step")):
        S.check(e.shown() == (k + 1 == active), "exactly the selected fragment is visible")
    if n > 1:
        S.check(cell.find(".elsie-next")[0].props["disabled"] == (active == n), "the next button works exactly before the last fragment")
        S.check(cell.find(".elsie-previous")[0].props["disabled"] == (active == 1), "the previous button works exactly after the first fragment")
        S.check(cell.find(".elsie-current-step")[0].text().split()[-1:] == [str(active)], "the number of the selected fragment is displayed")


def guarded(fn, *a):
    try:
        return fn(*a)
    except dom.NotSupported as e:
        outside(e)


def navigate(S, counts, fmt="svg", clicks=4, force=False, again=False):
    """Cells of all slides displayed in one notebook, then any clicks."""
    counts = [S.choice("k%d" % i, list(range(1, k + 1))) if isinstance(k, int) else k[0] for i, k in enumerate(counts)]
    page = Page(S, counts)
    doc = dom.Document()
    cells = []
    shown = list(range(len(counts)))
    if again:
        # a slide is displayed in two cells
        shown.append(0)
        counts.append(counts[0])
    for i in shown:
        cells.append(guarded(doc.insert, html_of(S, page, i, fmt)))
        guarded(check_cell, S, cells[-1], page.colors[i], "png" if fmt == "repr" else fmt)
    state = [1] * len(counts)
    for i, c in enumerate(cells):
        guarded(check_state, S, c, counts[i], 1)
    many = [i for i, k in enumerate(counts) if k > 1]
    for s in range(clicks if many else 0):
        i = many[0] if len(many) == 1 else S.choice("cell%d" % s, many)
        d = S.choice("click%d" % s, [1, -1])
        e = cells[i].find(".elsie-next" if d == 1 else ".elsie-previous")[0]
        guarded(doc.fire if force else doc.click, e)
        state[i] = min(max(state[i] + d, 1), counts[i])
        for j, c in enumerate(cells):
            guarded(check_state, S, c, counts[j], state[j])


def isolated(S, counts, show, fmt):
    """Displaying a slide renders only that slide and keeps the cache."""
    page = Page(S, counts)
    before = S.choice("before", [None, "pdf", "png", "old"])
    if before == "old":
        # entries of an earlier session that this one does not use
        page.deck.fs_cache.get("x", "txt", lambda d: "old")
        fs.fake_open("/vfs/cache/cache.other", "w").close()
        slides, colors = page.slides, page.colors
        page = Page.__new__(Page)
        page.S, page.shell = S, slides[0].slides.backend.inkscape
        page.open()
        page.slides, page.colors = [], colors
        for i, k in enumerate(counts):
            b = page.deck.new_slide("s%d" % i)
            for c, s in zip(colors[i], range(1, k + 1)):
                b.box(x=0, y=0, width=1, height=1, show=str(s)).rect(bg_color=c)
            page.slides.append(b.slide)
    elif before is not None:
        page.deck.render(output="/vfs/out.pdf", export_type=before, prune_cache=False)
    files = dict(fs.st.files)
    n = len(page.shell.exports)
    others = [s for i, s in enumerate(page.slides) if i != show]
    html = html_of(S, page, show, fmt)
    for f in files:
        S.check(f in fs.st.files, "displaying a slide removes no cached files")
        if f.startswith("/vfs/cache/cache."):
            S.check(fs.st.files[f] == files[f], "displaying a slide changes no cached pages")
    for src, t in page.shell.exports[n:]:
        cs = [style_map(x.attrs["style"])["fill"] for x in S.xml(src.decode()).find_all("rect")]
        S.check(t == "png" and len(cs) == 1 and cs[0] in page.colors[show], "only the displayed slide is rendered")
    S.check(len(page.shell.exports) - n == (0 if fmt == "svg" or before == "png" else counts[show]), "each fragment is rendered once")
    S.check(page.deck._slides == page.slides, "displaying a slide does not change the deck")
    cell = guarded(dom.Document().insert, html)
    guarded(check_cell, S, cell, page.colors[show], "png" if fmt == "repr" else fmt)
    # displaying again
    m = len(page.shell.exports)
    cell = guarded(dom.Document().insert, html_of(S, page, show, fmt))
    guarded(check_cell, S, cell, page.colors[show], "png" if fmt == "repr" else fmt)
    S.check(len(page.shell.exports) == m, "displaying again uses the cache")


def formats(S):
    """Only SVG and PNG."""
    page = Page(S, [2])
    f = S.choice("format", ["pdf", "", "SVG", None])
    S.check(S.raised(jupyter.render_slide_html, page.slides[0], f) is not None, "other formats are rejected")


HARNESSES = [
    H("navigate", navigate, [dict(counts=[4], clicks=6), dict(counts=[3, 3], clicks=4), dict(counts=[3], fmt="png", clicks=2), dict(counts=[3], fmt="repr", clicks=2), dict(counts=[3], clicks=5, force=True), dict(counts=[[12]], clicks=3), dict(counts=[3], clicks=3, again=True)],
      [dict(counts=[5], clicks=9), dict(counts=[3, 3], clicks=6), dict(counts=[2, 2, 2], clicks=5), dict(counts=[5], clicks=8, force=True), dict(counts=[6], fmt="png", clicks=3), dict(counts=[4, 2], fmt="repr", clicks=3), dict(counts=[[15]], clicks=8), dict(counts=[3, 2], clicks=5, again=True)],
      "up to 3 displayed slides with up to 15 fragments, all sequences of up to 9 clicks"),
    H("isolated", isolated, product(counts=[[2, 1, 3]], show=[0, 1, 2], fmt=["svg", "png", "repr"]), bounds="deck of three slides, four earlier states of the cache"),
    H("formats", formats, [{}], bounds="four other formats"),
]
