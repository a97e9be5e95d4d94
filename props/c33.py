"""C33: renaming the identifiers of an SVG tree."""
import lxml.etree as et
from symx.session import H, product
from elsie.render.backends.svg.utils import rename_ids
from envs.etfake import E, C, svg_file


def ident(S, name, n, alphabet="xy1-"):
    s = S.str(name, n, alphabet)
    S.assume(S.Or(s[0] == "x", s[0] == "y"))
    return s


def fill(S, template, refs, ids, suffix):
    """(attribute value, value after renaming); '#0', '#1', ... are references."""
    before, after, i = "", "", 0
    while i < len(template):
        c = template[i]
        if c == "#" and i + 1 < len(template) and template[i + 1].isdigit():
            r = refs[int(template[i + 1])]
            before = before + "#" + r
            after = after + "#" + r
            if any([r == x for x in ids]):
                after = after + suffix
            i += 2
            continue
        if c == "@":
            # a mention of an identifier that is no reference
            before, after = before + refs[0], after + refs[0]
        else:
            before, after = before + c, after + c
        i += 1
    return before, after


def run(S, lens, reflens, templates, sl, where, alphabet="xy1-"):
    ids = [ident(S, "id%d" % i, n, alphabet) for i, n in enumerate(lens)]
    for i in range(len(ids)):
        for j in range(i):
            S.assume(ids[i] != ids[j])
    refs = [ident(S, "ref%d" % i, n, alphabet) for i, n in enumerate(reflens)]
    suffix = S.str("suffix", sl, "xy-1")
    attrs, want = {}, {}
    names = ["style", "xlink:href", "fill", "title"]
    for k, t in enumerate(templates):
        attrs[names[k]], want[names[k]] = fill(S, t, refs, ids, suffix)
    use = E("use", attrs, "#" + ids[0] + " " + ids[0])
    if where == "before":
        items = [use] + [E("g", {"id": i}) for i in ids]
    elif where == "after":
        items = [C("c")] + [E("g", {"id": i}) for i in ids] + [use]
    else:
        use.attrs["id"] = ids[0]
        items = [E("g", {"id": i}) for i in ids[1:]]
        items = [E("g", {}, *(items + [use]))]
    p = svg_file(S, E("svg", {"width": "10", "height": "10"}, *items))
    root = et.parse(p).getroot()
    rename_ids(root, suffix)
    page = S.xml(et.tostring(root).decode())
    got = [n.attrs["id"] for n in page.iter() if "id" in n.attrs]
    expected = [i + suffix for i in (ids if where != "in" else ids[1:] + ids[:1])]
    S.check(len(got) == len(expected), "identifiers are kept")
    for g, e in zip(got, expected):
        S.check(g == e, "every identifier is renamed once")
    uses = page.find_all("use")
    S.check(len(uses) == 1 and len(uses[0].attrs) == len(use.attrs), "attributes are kept")
    for k, v in want.items():
        S.check(uses[0].attrs[k] == v, "references are renamed, and nothing else")
    S.check(uses[0].text() == "#" + ids[0] + " " + ids[0], "texts are left alone")


def root_id(S):
    """The root has an identifier, too; elements without identifiers stay without."""
    i, suffix = ident(S, "id", 2), S.str("suffix", 2, "xy-1")
    p = svg_file(S, E("svg", {"id": i, "width": "10", "height": "10", "style": "a:url(#" + i + ")"}, E("g", {})))
    root = et.parse(p).getroot()
    rename_ids(root, suffix)
    page = S.xml(et.tostring(root).decode())
    S.check(page.attrs["id"] == i + suffix, "every identifier is renamed once")
    S.check(page.attrs["style"] == "a:url(#" + i + suffix + ")", "references are renamed, and nothing else")
    S.check("id" not in page.children[0].attrs, "no identifier is added")


_T = [["url(#0)", "#1"], ["fill:url(#0);stroke:url(#1)"], ["#0", "@ url('#1')"], ["a:url(#0);b:url(#0)"], ['url("#0") none', "@", "#1"]]
HARNESSES = [
    H("rename", run, product(lens=[[1, 2], [2, 2]], reflens=[[1, 2], [2, 1]], templates=_T, sl=[1], where=["before"]) +
      product(lens=[[1, 2]], reflens=[[1, 2]], templates=_T[:2], sl=[2], where=["after", "in"]) +
      product(lens=[[1, 3]], reflens=[[3, 2]], templates=[["url(#0) #1", "#0"]], sl=[1], where=["before"], alphabet=["xy:._"]) +
      product(lens=[[1, 2]], reflens=[[1, 2]], templates=[["#0;#1;#0 url(#1),#0;u:#1"]], sl=[1], where=["after"]),
      product(lens=[[1, 2], [2, 2], [1, 1, 2], [1, 2, 3], [2, 3]], reflens=[[1, 2], [2, 3], [2, 2]], templates=_T, sl=[1, 2], where=["before", "after", "in"]),
      "two or three identifiers of 1-2 (thorough 3) characters over 'xy1-' (some over 'xy:._'), references of the same lengths, suffixes of 1-2 characters, listed attribute forms",
      "identifiers that look like colours and references into other documents excluded"),
    H("root_id", root_id, [{}], bounds="identifier of the root"),
]
