"""Stand-ins for lxml.etree, PIL.Image and zipfile over documents given as trees
whose texts, attribute values and sizes may be symbolic.

Only the symbolic run uses them; replays use the real libraries on real files
written into the scratch directory.  Harnesses describe documents with E(...)
and C(...) and create files with svg_file / bitmap_file / ora_file."""
import base64
import builtins
import io
import os
import types

_S = [None]
FILES = {}     # absolute path -> ("svg", E) | ("ora", spec)
IMAGES = {}    # token bytes -> Img
NS = {
    "inkscape": "http://www.inkscape.org/namespaces/inkscape",
    "xlink": "http://www.w3.org/1999/xlink",
    "sodipodi": "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd",
}
SVGNS = "http://www.w3.org/2000/svg"
LABEL = "inkscape:label"


class E:
    """Description of an element: tag, attributes (prefixed names), items (texts, E, C)."""

    def __init__(self, tag, attrs=None, *items):
        self.tag, self.attrs, self.items = tag, dict(attrs or {}), list(items)


class C:
    """Description of a comment."""

    def __init__(self, text):
        self.text = text


def is_text(x):
    return isinstance(x, str) or type(x).__name__ == "SymStr"


def esc(s, quote=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if quote:
        s = s.replace('"', "&quot;")
        for c in "\t\n\r":
            s = s.replace(c, "&#%d;" % ord(c))
    else:
        s = s.replace("\r", "&#13;")
    return s


def write(e, root=True, ns=True):
    """Serialised description."""
    if isinstance(e, C):
        return "<!--" + e.text + "-->"
    if is_text(e):
        return esc(e)
    r = "<" + e.tag
    if root and ns:
        r = r + ' xmlns="%s"' % SVGNS
        for k, v in NS.items():
            r = r + ' xmlns:%s="%s"' % (k, v)
    for k, v in e.attrs.items():
        r = r + " " + k + '="' + esc(v, True) + '"'
    r = r + ">"
    for i in e.items:
        r = r + write(i, False)
    return r + "</" + e.tag + ">"


# ------------------------------------------------------------------ lxml
def Comment(text=None):
    return Elem(Comment, text=text)


def ProcessingInstruction(*a):
    raise NotImplementedError


class Attrib(dict):
    """Attributes in document order (names are concrete)."""

    def items(self):
        return list(dict.items(self))

    def keys(self):
        return list(dict.keys(self))

    def values(self):
        return list(dict.values(self))

    def __iter__(self):
        return iter(list(dict.keys(self)))


class Elem:
    def __init__(self, tag, attrib=None, nsmap=None, text=None):
        self.tag = tag
        self.attrib = Attrib(attrib or {})
        self.text = text
        self.tail = None
        self._ch = []
        self._parent = None
        self.nsmap = nsmap or {}

    # attributes
    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, v):
        if self.tag is Comment:
            raise TypeError("comment")
        self.attrib[k] = v

    def items(self):
        return self.attrib.items()

    def keys(self):
        return self.attrib.keys()

    def values(self):
        return self.attrib.values()

    # tree
    def __len__(self):
        return len(self._ch)

    def __bool__(self):
        return bool(self._ch)

    def __iter__(self):
        # like lxml: follows the current sibling links while iterating
        i = 0
        while i < len(self._ch):
            c = self._ch[i]
            yield c
            # continue after c (which may have been moved or removed)
            k = [n for n, x in enumerate(self._ch) if x is c]
            if not k:
                return
            i = k[0] + 1

    def __reversed__(self):
        return iter(list(reversed(self._ch)))

    def __getitem__(self, i):
        return self._ch[i]

    def __contains__(self, x):
        return any(c is x for c in self._ch)

    def getchildren(self):
        return list(self._ch)

    def getparent(self):
        return self._parent

    def getroottree(self):
        e = self
        while e._parent is not None:
            e = e._parent
        return ElementTree(e)

    def index(self, x):
        for i, c in enumerate(self._ch):
            if c is x:
                return i
        raise ValueError("Element is not a child of this node.")

    def getprevious(self):
        if self._parent is None:
            return None
        i = self._parent.index(self)
        return self._parent._ch[i - 1] if i else None

    def getnext(self):
        if self._parent is None:
            return None
        i = self._parent.index(self)
        return self._parent._ch[i + 1] if i + 1 < len(self._parent._ch) else None

    def append(self, x):
        x._detach()
        self._ch.append(x)
        x._parent = self

    def insert(self, i, x):
        x._detach()
        self._ch.insert(i, x)
        x._parent = self

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def _detach(self):
        if self._parent is not None:
            del self._parent._ch[self._parent.index(self)]
            self._parent = None

    def remove(self, x):
        # the tail text goes with the element
        del self._ch[self.index(x)]
        x._parent = None

    def replace(self, x, y):
        y._detach()
        i = self.index(x)
        self._ch[i] = y
        y._parent = self
        x._parent = None

    def iter(self, *tags):
        if not tags or self.tag in tags or "*" in tags and self.tag is not Comment:
            yield self
        for c in list(self._ch):
            yield from c.iter(*tags)

    def getiterator(self, *tags):
        return self.iter(*tags)

    def iterdescendants(self, *tags):
        for c in list(self._ch):
            yield from c.iter(*tags)

    def iterchildren(self, *tags, reversed=False):
        cs = list(self._ch)
        if reversed:
            cs.reverse()
        return iter([c for c in cs if not tags or c.tag in tags or "*" in tags and c.tag is not Comment])

    def iterancestors(self):
        p = self._parent
        while p is not None:
            yield p
            p = p._parent

    def __copy__(self):
        return self.__deepcopy__(None)

    def __deepcopy__(self, memo):
        r = Elem(self.tag, self.attrib, self.nsmap, self.text)
        r.tail = self.tail
        for c in self._ch:
            d = c.__deepcopy__(memo)
            r._ch.append(d)
            d._parent = r
        return r


class ElementTree:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root

    def iter(self, *tags):
        return self.root.iter(*tags)


def clark(name, default):
    if name.startswith("{"):
        return name
    if ":" in name:
        p, n = name.split(":", 1)
        return "{%s}%s" % (NS[p], n) if p in NS else name
    return "{%s}%s" % (default, name) if default else name


def unclark(name):
    if not name.startswith("{"):
        return name
    ns, n = name[1:].split("}", 1)
    if ns == SVGNS:
        return n
    for p, v in NS.items():
        if v == ns:
            return p + ":" + n
    raise NotImplementedError(name)


def build(e, default=SVGNS):
    """Elem tree of a description."""
    if isinstance(e, C):
        return Elem(Comment, text=e.text)
    r = Elem(clark(e.tag, default))
    for k, v in e.attrs.items():
        r.attrib[clark(k, None)] = v
    last = None
    for i in e.items:
        if is_text(i):
            if last is None:
                r.text = i if r.text is None else r.text + i
            else:
                last.tail = i if last.tail is None else last.tail + i
        else:
            last = build(i, default)
            r._ch.append(last)
            last._parent = r
    return r


def node_to_e(n):
    a = {}
    for k, v in n.attrs.items():
        if k != "xmlns" and not k.startswith("xmlns:"):
            a[k] = v
    return E(n.tag, a, *[i if not hasattr(i, "tag") else node_to_e(i) for i in n.items])


def parse(path):
    if hasattr(path, "read"):
        return ElementTree(fromstring(path.read()))
    path = os.path.abspath(path)
    if path not in FILES:
        if not os.path.exists(path):
            raise OSError("Error reading file %r" % path)
        with fake_open(path) as f:
            return ElementTree(fromstring(f.read()))
    return ElementTree(build(FILES[path][1]))


class Writer:
    """File whose content may be symbolic (the real file holds a token then)."""

    def __init__(self, path, mode):
        self.binary = "b" in mode
        self.name, self.f, self.text = path, builtins.open(path, mode.replace("b", "")), None

    def write(self, s):
        if is_text(s) == self.binary:
            raise TypeError("a bytes-like object is required" if self.binary else "write() argument must be str")
        self.text = s if self.text is None else self.text + s
        return 0

    def flush(self):
        pass

    def fileno(self):
        return self.f.fileno()

    def close(self):
        if self.f is None:
            return
        t = self.text
        if isinstance(t, bytes):
            try:
                t = t.decode()
            except UnicodeDecodeError:
                t = None
                self.f.buffer.write(self.text)
        if isinstance(t, str):
            self.f.write(t)
        elif t is not None:
            self.f.write("symbolic text %d" % len(TEXTS))
            TEXTS.append(t if is_text(t) else t.decode())
        self.f.close()
        self.f = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


TEXTS = []


def stored(path):
    """Symbolic content of a file or None."""
    try:
        with builtins.open(path, "rb") as f:
            c = f.read(100)
    except OSError:
        return None
    if c.startswith(b"symbolic text "):
        return TEXTS[int(c[14:])]
    return None


class Reader:
    def __init__(self, name, text, binary):
        self.name, self.text = name, text.encode() if binary else text

    def read(self, *a):
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fake_open(path, mode="r", *a, **kw):
    if mode in ("w", "x", "wb", "xb", "bw", "wt"):
        return Writer(path, mode)
    if mode in ("r", "rb", "br", "rt"):
        t = stored(path)
        if t is not None:
            return Reader(path, t, "b" in mode)
    return builtins.open(path, mode, *a, **kw)


def fromstring(text):
    if isinstance(text, bytes) or not is_text(text):
        text = text.decode()
    n = _S[0].xml(text)
    return build(node_to_e(n), n.attrs.get("xmlns"))


def _ser(e, root):
    if e.tag is Comment:
        r = "<!--" + (e.text or "") + "-->"
    else:
        t = unclark(e.tag)
        r = "<" + t
        if root:
            r = r + ' xmlns="%s"' % SVGNS
            for k, v in NS.items():
                r = r + ' xmlns:%s="%s"' % (k, v)
        for k, v in e.attrib.items():
            r = r + " " + unclark(k) + '="' + esc(v, True) + '"'
        if e.text is None and not e._ch:
            r = r + "/>"
        else:
            r = r + ">"
            if e.text is not None:
                r = r + esc(e.text)
            for c in e._ch:
                r = r + _ser(c, False)
            r = r + "</" + t + ">"
    if e.tail is not None and not root:
        r = r + esc(e.tail)
    return r


def tostring(e, encoding=None, **kw):
    if isinstance(e, ElementTree):
        e = e.root
    r = _ser(e, True)
    if encoding == "unicode" or encoding is str:
        return r
    if isinstance(r, str):
        return r.encode("utf-8")
    from symx.strings import SymBytes
    return SymBytes.of_text(r)


class XPath:
    def __init__(self, q):
        if q != ".//*[starts-with(name(), 'flow')]":
            raise NotImplementedError(q)

    def __call__(self, root):
        return [e for e in root.iterdescendants() if e.tag is not Comment and unclark(e.tag).startswith("flow")]


etree = types.SimpleNamespace(
    parse=parse, fromstring=fromstring, XML=fromstring, tostring=tostring, XPath=XPath, Element=Elem,
    _Element=Elem, ElementTree=ElementTree, Comment=Comment, ProcessingInstruction=ProcessingInstruction)
lxml = types.SimpleNamespace(etree=etree)


# ------------------------------------------------------------------- PIL
class Img:
    """Picture known by its size and the bounding box of its visible part."""

    def __init__(self, name, size, bbox, fmt="PNG", mode="RGBA"):
        self.name, self.size, self.bbox, self.format, self.mode = name, size, bbox, fmt, mode
        self.width, self.height = size
        self.offset = (0, 0)

    def getbbox(self, **kw):
        return self.bbox

    def crop(self, box):
        r = Img(self.name, (box[2] - box[0], box[3] - box[1]), None, self.format, self.mode)
        r.offset = (self.offset[0] + box[0], self.offset[1] + box[1])
        return r

    def convert(self, mode):
        r = Img(self.name, self.size, self.bbox, self.format, mode)
        r.offset = self.offset
        return r

    def tobytes(self, *a):
        return b"PIXELS:" + self.name.encode()

    def save(self, f, format=None, **kw):
        f.write(token(self))

    def copy(self):
        return self.convert(self.mode)

    def load(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def token(img):
    t = b"IMG%d:" % len(IMAGES) + img.name.encode()
    IMAGES[t] = img
    return t


def image_open(f):
    data = f.read() if hasattr(f, "read") else open(f, "rb").read()
    if data not in IMAGES:
        raise OSError("cannot identify image file")
    return IMAGES[data]


Image = types.SimpleNamespace(
    open=image_open, Image=Img, MIME={"PNG": "image/png", "JPEG": "image/jpeg"})
PIL = types.SimpleNamespace(Image=Image)


# --------------------------------------------------------------- zipfile
class _Member:
    def __init__(self, data):
        self.data = data

    def read(self, *a):
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ZipFile:
    def __init__(self, path, mode="r"):
        path = os.path.abspath(path)
        if path not in FILES:
            raise OSError("no such archive")
        self.spec = FILES[path][1]

    def open(self, name, mode="r"):
        if name not in self.spec:
            raise KeyError(name)
        return _Member(self.spec[name])

    def read(self, name):
        return self.open(name).read()

    def namelist(self):
        return list(self.spec)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


zipfile = types.SimpleNamespace(ZipFile=ZipFile)


# -------------------------------------------------------- files of harnesses
def _path(S, name):
    if S.tmp is None:
        S.scratch()
    p = os.path.join(S.tmp, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def svg_file(S, tree, name="image.svg"):
    """File with the described SVG document (call after the deck was made)."""
    p = _path(S, name)
    if S.symbolic:
        FILES[os.path.abspath(p)] = ("svg", tree)
        with open(p, "w") as f:
            f.write("symbolic " + name)
    else:
        with open(p, "w", encoding="utf-8") as f:
            f.write(write(tree))
    return p


def real_png(w, h, bbox=None, color=(10, 20, 30, 255), fmt="PNG"):
    from PIL import Image as I
    if bbox is None and color is not None:
        img = I.new("RGBA", (w, h), color)
    else:
        img = I.new("RGBA", (w, h), (0, 0, 0, 0))
        if bbox is not None:
            img.paste(color, tuple(bbox))
    if fmt == "JPEG":
        img = img.convert("RGB")
    out = io.BytesIO()
    img.save(out, fmt)
    return out.getvalue()


def bitmap_data(S, w, h, fmt="PNG", name="bitmap", n=0):
    """Bytes of a picture of the given size; different n: different pixels."""
    if S.symbolic:
        return token(Img(name, (w, h), (0, 0, w, h), fmt))
    return real_png(w, h, fmt=fmt, color=(10 + n, 20, 30, 255))


def bitmap_file(S, w, h, name="image.png", fmt="PNG", n=0):
    p = _path(S, name)
    with open(p, "wb") as f:
        f.write(bitmap_data(S, w, h, fmt, name, n))
    return p


def ora_file(S, stack, layers, name="image.ora", mimetype=b"image/openraster"):
    """stack: description of the root element; layers: [(src, (w, h), bbox or None)]."""
    p = _path(S, name)
    if S.symbolic:
        spec = {"mimetype": mimetype, "stack.xml": _Text(write(stack, ns=False))}
        for src, size, bbox in layers:
            spec[src] = token(Img(src, size, bbox))
        FILES[os.path.abspath(p)] = ("ora", spec)
        with open(p, "w") as f:
            f.write("symbolic " + name)
    else:
        import zipfile as z
        with z.ZipFile(p, "w") as a:
            a.writestr("mimetype", mimetype)
            a.writestr("stack.xml", write(stack, ns=False))
            for i, (src, size, bbox) in enumerate(layers):
                a.writestr(src, real_png(size[0], size[1], bbox, None if bbox is None else (i + 1, 2, 3, 255)))
    return p


class _Text:
    """Bytes of a symbolic text."""

    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text


def picture(S, data, layers):
    """What a written picture shows: (index of the layer, width, height, offset or None)."""
    if S.symbolic:
        img = IMAGES[data]
        k = [i for i, l in enumerate(layers) if l[0] == img.name][0]
        return k, img.size[0], img.size[1], img.offset
    from PIL import Image as I
    img = I.open(io.BytesIO(data)).convert("RGBA")
    return img.getpixel((0, 0))[0] - 1, img.size[0], img.size[1], None


def data_of(href):
    """(mime, bytes) of a data URL."""
    head, data = href.split(",", 1)
    return head, base64.b64decode(data)


def env():
    return {"lxml": lxml, "lxml.etree": etree, "PIL": PIL, "PIL.Image": Image, "zipfile": zipfile}


def symbolic():
    return env(), {"open": fake_open}, ()


def concrete():
    return {}, {}, {}


def begin(S):
    _S[0] = S
    FILES.clear()
    TEXTS.clear()
    IMAGES.clear()
