"""C27: slide name policies."""
from symx.session import H, product
from elsie import SlideDeck
from elsie.render.backends.svg.backend import InkscapeBackend
from props.lib import make_deck, render_units, FakeShell

BAD = [123, ("a",), b"a", 1.5, ["a"], True]


def pages(S, deck):
    """Tokens of the rendered slides: names of markers or of PDF files."""
    out = []
    for u in render_units(deck):
        svg = u.get_svg()
        if svg is None:
            out.append(("pdf", u.filename.split("/")[-1]))
        else:
            out.append(("slide", int(S.xml(svg).find_all("rect")[0].attrs["width"])))
    return out


class Entry:
    def __init__(self, kind, name, token, slide):
        self.kind, self.name, self.token, self.slide = kind, name, token, slide


def history(S, policy, n, ops, chars, initial=0):
    deck = make_deck(S, name_policy=policy)
    eff = "ignore" if policy == "auto" else policy
    entries = []
    token = 0
    for i in range(n):
        op = S.choice("op%d" % i, ops)
        if op == "pdf":
            deck.add_pdf("file%d.pdf" % i)
            entries.append(Entry("pdf", None, ("pdf", "file%d.pdf" % i), None))
            continue
        token += 1
        out = {}
        if op == "none":
            name = None
        elif op == "bad":
            name = S.choice("bad%d" % i, BAD)
        else:
            name = S.str("n%d" % i, chars, None)
            for c in name:
                # characters with a representation in XML
                S.assume(S.And(c >= " ", S.Or(c < "\ud800", S.And(c > "\udfff", c < "\ufffe"), c > "\uffff")))
        if op == "deco":
            def create(token=token, name=name):
                def fn(box):
                    box.rect(bg_color="red") if False else box.box(x=0, y=0, width=token, height=5).rect(bg_color="red")
                if name is not None:
                    out["s"] = deck.slide(name=name)(fn)
        elif op == "fn":
            name = "fn"

            def create(token=token):
                @deck.slide()
                def fn(box):
                    box.box(x=0, y=0, width=token, height=5).rect(bg_color="red")
                out["s"] = fn
        else:
            def create(token=token, name=name):
                b = deck.new_slide(name) if op != "kw" else deck.new_slide(name=name)
                b.box(x=0, y=0, width=token, height=5).rect(bg_color="red")
                out["s"] = b.slide
        err = S.raised(create)
        same = [e for e in entries if e.name is not None and name is not None and op != "bad" and S.concrete(e.name == name)]
        if eff == "unique":
            ok = name is None or (op != "bad" and not same)
        elif eff == "replace":
            ok = name is not None and op != "bad"
        else:
            ok = True
        if eff == "ignore" and op == "bad":
            if err is not None:
                continue
        S.check((err is None) == ok, "names are accepted exactly as the policy says")
        if not ok:
            continue
        if eff == "replace":
            for e in same:
                entries.remove(e)
        e = Entry("slide", name if op != "bad" else None, ("slide", token), out["s"])
        if op == "bad":
            e.name = None
        entries.append(e)
        # lookup of every name
        for e in entries:
            if e.name is not None:
                got = deck.get_slide_by_name(e.name)
                S.check(any([f.slide is got and S.concrete(f.name == e.name) for f in entries if f.name is not None]), "lookup returns a slide with the name")
    probe = S.str("probe", chars, None)
    got = deck.get_slide_by_name(probe)
    hit = [e for e in entries if e.name is not None and S.concrete(e.name == probe)]
    S.check(any([e.slide is got for e in hit]) if hit else got is None, "lookup of an unknown name returns nothing")
    if not entries:
        S.check(S.raised(lambda: pages(S, deck)) is not None, "an empty deck cannot be rendered")
        return
    S.check(pages(S, deck) == [e.token for e in entries], "slides of the deck in order")


def policies(S, n):
    """Only the documented policies are accepted."""
    p = S.str("p", n, None) if n else S.choice("p", ["unique", "replace", "ignore", "auto", "", "Unique", "none", "unique ", None])
    shell = FakeShell(S)
    d = S.scratch()
    backend = InkscapeBackend(inkscape=shell, cache_dir=d)
    err = S.raised(lambda: SlideDeck(backend=backend, cache_dir=d, name_policy=p))
    valid = p is not None and any([S.concrete(p == q) for q in ("unique", "replace", "ignore", "auto")])
    S.check((err is None) == valid, "policies")


def view_box(S, policy):
    """A rejected slide does not change the deck."""
    deck = make_deck(S, name_policy=policy)
    names = [S.str("n%d" % i, 1, None) for i in range(2)]
    a = deck.new_slide(names[0])
    a.box(x=0, y=0, width=1, height=5).rect(bg_color="red")
    vb = S.choice("vb", [(1, 2, 3), [0, 0, 10, 10], ("0", 0, 1, 1), 5])
    S.check(S.raised(lambda: deck.new_slide(names[1], view_box=vb)) is not None, "invalid view boxes are rejected")
    S.check(pages(S, deck) == [("slide", 1)], "a rejected slide does not change the deck")
    S.check(deck.get_slide_by_name(names[0]) is a.slide, "lookup returns a slide with the name")


HARNESSES = [
    H("history", history, [dict(policy=p, n=3, ops=["new", "pdf", "none"], chars=1) for p in ("unique", "replace", "ignore")]
      + [dict(policy=p, n=3, ops=["fn", "deco", "bad"], chars=2) for p in ("unique", "replace", "ignore")] + [dict(policy="auto", n=2, ops=["new", "kw", "none"], chars=1)]
      + [dict(policy="replace", n=5, ops=["new"], chars=1)],
      [dict(policy=p, n=4, ops=["new", "pdf", "none", "bad"], chars=1) for p in ("unique", "replace", "ignore")] + [dict(policy=p, n=4, ops=["fn", "deco", "kw", "pdf"], chars=2) for p in ("unique", "replace", "ignore", "auto")]
      + [dict(policy="replace", n=6, ops=["new"], chars=1), dict(policy="unique", n=6, ops=["new"], chars=1), dict(policy="replace", n=4, ops=["new", "pdf"], chars=3)],
      "histories of at most 5 (thorough 6) additions with arbitrary names of the stated length"),
    H("policies", policies, product(n=[0, 4]), product(n=[0, 1, 4, 6, 7]), "policy names of the stated lengths"),
    H("view_box", view_box, product(policy=["unique", "replace", "ignore"])),
]
