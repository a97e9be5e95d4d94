"""C39: debugging files of pages."""
from symx.session import H, product
from envs import fsfake as fs, renderfake as rf
from props.lib import FakeShell
from elsie import SlideDeck
from elsie.render.backends.svg.backend import InkscapeBackend


class Shell(FakeShell):
    def convert_to_pdf(self, source, target, type):
        with fs.fake_open(target, "wb") as f:
            f.write(source)


def files(S, n, policy, export, debug=True, pdf=False, small=False):
    """Every page of a deck in debugging mode is in a file of its own; the result stays the same."""
    fs.os.makedirs("/vfs/cache")
    deck = SlideDeck(width=64, height=48, backend=InkscapeBackend(inkscape=Shell(S), cache_dir="/vfs/cache"), cache_dir="/vfs/cache", name_policy=policy, debug=debug)
    for i in range(n):
        if pdf and S.choice("pdf%d" % i, [False, True]):
            fs.st.files["/vfs/in.pdf"] = b"in"
            deck.add_pdf("/vfs/in.pdf")
            continue
        name = S.str("name%d" % i, 1, "ab" if small else "ab\u010d")
        b = deck.new_slide(name)
        k = 1 if small else S.choice("k%d" % i, [1, 2])
        for s in range(1, k + 1):
            b.box(x=0, y=0, width=1, height=1, show=str(s)).rect(bg_color="#%02x%02x00" % (i + 1, s))
    sel = None
    if small:
        # one more page, to have at least one slide
        b = deck.new_slide("last")
        b.box(x=0, y=0, width=1, height=1).rect(bg_color="#ff0000")
    if not small and S.choice("select", [False, True]):
        sel = [deck._slides[S.choice("sel", range(len(deck._slides)))]]
    if export == "units":
        units = deck.render(output=None, return_units=True, select_slides=sel)
    else:
        units = deck.render(output=None, return_units=True, select_slides=sel, prune_cache=False, save_cache=False)
        before = set(fs.st.files)
        for f in list(fs.st.files):
            if f.endswith(".svg"):
                del fs.st.files[f]
        deck.render(output="/vfs/out.pdf", export_type=export, select_slides=sel)
    pages = [u.get_svg() for u in units if u.get_svg() is not None]
    got = [c for f, c in fs.st.files.items() if f.startswith("/vfs/cache/") and f.endswith(".svg") and not f.startswith("/vfs/cache/cache.")]
    if not debug:
        S.check(not got, "no files without debugging mode")
        return
    S.check(len(got) == len(pages), "one file for each page")
    for p in pages:
        S.check(any([c == p or c == p.encode() for c in got]), "every page is in a file")


HARNESSES = [
    H("files", files, [dict(n=3, policy="replace", export="units"), dict(n=2, policy="ignore", export="pdf"), dict(n=3, policy="ignore", export="units", pdf=True), dict(n=2, policy="ignore", export="png"), dict(n=2, policy="ignore", export="units", debug=False),
                       dict(n=5, policy="replace", export="units", pdf=True, small=True)],
      [dict(n=4, policy="replace", export="units"), dict(n=3, policy="replace", export="pdf"), dict(n=4, policy="ignore", export="png", pdf=False), dict(n=6, policy="replace", export="units", pdf=True, small=True)], "decks of up to 4 slides with any names, 1-2 fragments; decks made by up to 7 additions with inserted PDFs and replacements"),
]
