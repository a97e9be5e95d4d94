"""Small HTML document with a JavaScript interpreter for the scripts inside it
(the part of the language needed for event handlers of simple pages).

Anything not understood raises NotSupported."""
import re
from html.parser import HTMLParser


class NotSupported(Exception):
    pass


class JSError(Exception):
    """Error a browser would report (the handler stops)."""


VOID = {"br", "img", "hr", "input", "meta", "link", "image", "use"}


class Elem:
    def __init__(self, tag, attrs=(), parent=None):
        self.tag, self.attrs, self.parent = tag, dict(attrs), parent
        self.items = []
        self.style = {}
        for part in (self.attrs.get("style") or "").split(";"):
            if ":" in part:
                k, v = part.split(":", 1)
                self.style[k.strip()] = v.strip()
        self.props = {"disabled": "disabled" in self.attrs}
        self.handlers = {}

    @property
    def classes(self):
        return (self.attrs.get("class") or "").split()

    def iter(self):
        yield self
        for c in self.items:
            if isinstance(c, Elem):
                yield from c.iter()

    def text(self):
        return "".join(c if isinstance(c, str) else c.text() for c in self.items)

    def find(self, sel):
        return [e for e in self.iter() if e is not self and matches(e, sel)]

    def shown(self):
        e = self
        while e is not None:
            if e.style.get("display") == "none" or "hidden" in e.attrs:
                return False
            e = e.parent
        return True


def simple(e, s):
    pos = 0
    for m in re.finditer(r"([.#]?)([A-Za-z_*][\w-]*)|\[([\w-]+)(?:([*^$~|]?)=['\"]?([^'\"\]]*)['\"]?)?\]", s):
        if m.start() != pos:
            raise NotSupported("selector " + s)
        pos = m.end()
        if m.group(3):
            if m.group(3) not in e.attrs:
                return False
            if m.group(5) is not None:
                a, w, o = e.attrs[m.group(3)] or "", m.group(5), m.group(4)
                if not {"": a == w, "*": w in a, "^": a.startswith(w), "$": a.endswith(w), "~": w in a.split(), "|": a == w or a.startswith(w + "-")}[o]:
                    return False
        elif m.group(1) == ".":
            if m.group(2) not in e.classes:
                return False
        elif m.group(1) == "#":
            if e.attrs.get("id") != m.group(2):
                return False
        elif m.group(2) != "*" and e.tag != m.group(2).lower():
            return False
    if pos != len(s):
        raise NotSupported("selector " + s)
    return True


def matches(e, sel):
    parts = sel.replace(">", " > ").split()
    if not simple(e, parts[-1]):
        return False
    rest = parts[:-1]
    cur = e.parent
    while rest:
        if rest[-1] == ">":
            rest = rest[:-1]
            if cur is None or not simple(cur, rest[-1]):
                return False
            rest, cur = rest[:-1], cur.parent
            continue
        while cur is not None and not simple(cur, rest[-1]):
            cur = cur.parent
        if cur is None:
            return False
        rest, cur = rest[:-1], cur.parent
    return True


class _Builder(HTMLParser):
    CDATA_CONTENT_ELEMENTS = ("script", "style")

    def __init__(self, root):
        super().__init__(convert_charrefs=True)
        self.cur = root
        self.root = root
        self.new = []
        self.bad = False

    def handle_starttag(self, tag, attrs):
        e = Elem(tag, attrs, self.cur)
        self.cur.items.append(e)
        self.new.append(e)
        if tag not in VOID:
            self.cur = e

    def handle_startendtag(self, tag, attrs):
        e = Elem(tag, attrs, self.cur)
        self.cur.items.append(e)
        self.new.append(e)

    def handle_endtag(self, tag):
        e = self.cur
        while e is not None and e.tag != tag:
            e = e.parent
        if e is None or e is self.root:
            self.bad = True
            return
        if e is not self.cur:
            self.bad = True
        self.cur = e.parent

    def handle_data(self, d):
        self.cur.items.append(d)


class Document:
    def __init__(self):
        self.root = Elem("html")
        self.body = Elem("body", parent=self.root)
        self.root.items.append(self.body)

    def insert(self, html):
        """Appends the output of a cell and runs its scripts; returns its top element."""
        cell = Elem("section", parent=self.body)
        self.body.items.append(cell)
        b = _Builder(cell)
        b.feed(html)
        b.close()
        cell.well_formed = not b.bad and b.cur is cell
        for e in b.new:
            if e.tag == "script":
                run(self, e.text())
        return cell

    def click(self, e):
        if e.props.get("disabled"):
            return
        for h in list(e.handlers.get("click", ())):
            h(Obj({"target": e, "preventDefault": lambda *a: None}))
        if callable(e.props.get("onclick")):
            e.props["onclick"](Obj({"target": e}))

    def fire(self, e):
        """The event arrives even at a disabled button (scripts may send it)."""
        for h in list(e.handlers.get("click", ())):
            h(Obj({"target": e, "preventDefault": lambda *a: None}))


# --------------------------------------------------------------- JavaScript
class Undef:
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


undefined = Undef()


class Obj(dict):
    pass


TOKEN = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_$][\w$]*)|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<tpl>`(?:\\.|[^`\\])*`)"""
                   r"""|(?P<op>=>|===|!==|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|[-+*/%<>=!?:;,.(){}\[\]])""", re.S)
KEYWORDS = {"var", "let", "const", "function", "if", "else", "for", "while", "return", "true", "false", "null", "of", "in", "new", "typeof", "break", "continue"}


def tokens(src):
    out, i, nl = [], 0, False
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise NotSupported("JavaScript at %r" % src[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k is None:
            nl = nl or "\n" in m.group(0)
            continue
        v = m.group(k)
        if k == "id" and v in KEYWORDS and v not in ("of",):
            k = "op"
        out.append((k, v, nl))
        nl = False
    out.append(("end", "", True))
    return out


def unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


class Parser:
    """Source -> tuples."""

    def __init__(self, src):
        self.t = tokens(src)
        self.i = 0

    def at(self, v):
        return self.t[self.i][0] == "op" and self.t[self.i][1] == v

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise NotSupported("JavaScript: expected %r, found %r" % (v, self.t[self.i][1]))

    def name(self):
        k, v, _ = self.t[self.i]
        if k != "id":
            raise NotSupported("JavaScript: name expected, found %r" % v)
        self.i += 1
        return v

    def program(self):
        out = []
        while self.t[self.i][0] != "end":
            out.append(self.statement())
        return out

    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.statement())
        return ("block", out)

    def semi(self):
        if self.eat(";") or self.at("}") or self.t[self.i][2]:
            return
        raise NotSupported("JavaScript: ';' expected, found %r" % self.t[self.i][1])

    def statement(self):
        if self.at("{"):
            return self.block()
        if self.eat(";"):
            return ("block", [])
        for kw in ("var", "let", "const"):
            if self.at(kw):
                s = self.var()
                self.semi()
                return s
        if self.at("function"):
            f = self.function()
            return ("def", f[1], f)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.statement()
            b = self.statement() if self.eat("else") else None
            return ("if", c, a, b)
        if self.eat("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", None, c, None, self.statement())
        if self.eat("for"):
            self.need("(")
            init = None
            if not self.at(";"):
                if self.at("var") or self.at("let") or self.at("const"):
                    k = self.i
                    self.i += 1
                    n = self.name()
                    if self.t[self.i][:2] == ("id", "of"):
                        self.i += 1
                        e = self.expr()
                        self.need(")")
                        return ("forof", n, e, self.statement())
                    self.i = k
                    init = self.var()
                else:
                    init = ("expr", self.expr())
            self.need(";")
            c = None if self.at(";") else self.expr()
            self.need(";")
            s = None if self.at(")") else self.expr()
            self.need(")")
            return ("for", init, c, s, self.statement())
        if self.eat("return"):
            e = None if self.at(";") or self.at("}") or self.t[self.i][2] else self.expr()
            self.semi()
            return ("return", e)
        if self.eat("break"):
            self.semi()
            return ("break",)
        if self.eat("continue"):
            self.semi()
            return ("continue",)
        e = self.expr()
        self.semi()
        return ("expr", e)

    def var(self):
        kind = self.t[self.i][1]
        self.i += 1
        out = []
        while True:
            n = self.name()
            out.append((n, self.assign() if self.eat("=") else None))
            if not self.eat(","):
                return ("var", kind, out)

    def params(self):
        self.need("(")
        out = []
        while not self.eat(")"):
            out.append(self.name())
            self.eat(",")
        return out

    def function(self):
        self.need("function")
        n = self.name() if self.t[self.i][0] == "id" else None
        return ("function", n, self.params(), self.block())

    def expr(self):
        e = self.assign()
        while self.eat(","):
            e = ("seq", e, self.assign())
        return e

    def arrow(self):
        """Arrow function at this position or None."""
        k = self.i
        try:
            ps = [self.name()] if self.t[self.i][0] == "id" else self.params() if self.at("(") else None
        except NotSupported:
            ps = None
        if ps is None or not self.eat("=>"):
            self.i = k
            return None
        body = self.block() if self.at("{") else ("block", [("return", self.assign())])
        return ("function", None, ps, body)

    def assign(self):
        a = self.arrow()
        if a is not None:
            return a
        e = self.cond()
        for op in ("=", "+=", "-=", "*="):
            if self.at(op):
                self.i += 1
                if e[0] not in ("id", "member", "index"):
                    raise NotSupported("JavaScript assignment")
                v = self.assign()
                return ("assign", e, v if op == "=" else ("bin", op[0], e, v))
        return e

    def cond(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.assign()
            self.need(":")
            return ("cond", c, a, self.assign())
        return c

    LEVELS = [["||"], ["&&"], ["==", "!=", "===", "!=="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]

    def binary(self, l):
        if l == len(self.LEVELS):
            return self.unary()
        e = self.binary(l + 1)
        while True:
            for op in self.LEVELS[l]:
                if self.at(op):
                    self.i += 1
                    e = ("bin", op, e, self.binary(l + 1))
                    break
            else:
                return e

    def unary(self):
        for op in ("!", "-", "+", "typeof"):
            if self.eat(op):
                return ("un", op, self.unary())
        for op in ("++", "--"):
            if self.eat(op):
                e = self.unary()
                return ("assign", e, ("bin", op[0], e, ("num", 1)))
        e = self.postfix()
        for op in ("++", "--"):
            if self.at(op) and not self.t[self.i][2]:
                self.i += 1
                return ("post", e, ("assign", e, ("bin", op[0], e, ("num", 1))))
        return e

    def postfix(self):
        e = self.primary()
        while True:
            if self.eat("."):
                k, v, _ = self.t[self.i]
                self.i += 1
                e = ("member", e, v)
            elif self.eat("["):
                e = ("index", e, self.expr())
                self.need("]")
            elif self.eat("("):
                a = []
                while not self.eat(")"):
                    a.append(self.assign())
                    self.eat(",")
                e = ("call", e, a)
            else:
                return e

    def primary(self):
        k, v, _ = self.t[self.i]
        if k == "num":
            self.i += 1
            return ("num", float(v) if "." in v else int(v))
        if k == "str":
            self.i += 1
            return ("str", unescape(v[1:-1]))
        if k == "tpl":
            self.i += 1
            e = ("str", "")
            pos = 1
            for m in re.finditer(r"\$\{([^}]*)\}", v):
                e = ("bin", "+", e, ("str", unescape(v[pos:m.start()])))
                p = Parser(m.group(1))
                e = ("bin", "+", e, p.expr())
                pos = m.end()
            return ("bin", "+", e, ("str", unescape(v[pos:-1])))
        if k == "id":
            self.i += 1
            return ("id", v)
        if self.eat("("):
            e = self.expr()
            self.need(")")
            return e
        if self.eat("true"):
            return ("const", True)
        if self.eat("false"):
            return ("const", False)
        if self.eat("null"):
            return ("const", None)
        if self.at("function"):
            return self.function()
        if self.eat("["):
            a = []
            while not self.eat("]"):
                a.append(self.assign())
                self.eat(",")
            return ("array", a)
        raise NotSupported("JavaScript: unexpected %r" % v)


class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Env:
    def __init__(self, up, fn=False):
        self.up, self.vars, self.fn = up, {}, fn

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.up
        return None


def js_str(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "null"
    if v is undefined:
        return "undefined"
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    if isinstance(v, (int, float, str)):
        return str(v)
    raise NotSupported("conversion to text")


def js_num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, str):
        try:
            return float(v) if "." in v else int(v or "0")
        except ValueError:
            return float("nan")
    if v is None:
        return 0
    return float("nan")


def truthy(v):
    return not (v is undefined or v is None or v is False or v == 0 and isinstance(v, (int, float)) or v == "" or v != v)


class Interp:
    LIMIT = 100000

    def __init__(self, doc):
        self.doc = doc
        self.n = 0
        self.globals = Env(None, True)

    def tick(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise JSError("script does not end")

    # statements
    def hoist(self, stmts, env):
        for s in stmts:
            if s[0] == "def":
                env.vars[s[1]] = self.closure(s[2], env)

    def block(self, stmts, env):
        self.hoist(stmts, env)
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.tick()
        k = s[0]
        if k == "expr":
            self.ev(s[1], env)
        elif k == "var":
            e = env
            if s[1] == "var":
                while not e.fn:
                    e = e.up
            for n, v in s[2]:
                e.vars[n] = undefined if v is None else self.ev(v, env)
        elif k == "def":
            pass
        elif k == "block":
            self.block(s[1], Env(env))
        elif k == "if":
            if truthy(self.ev(s[1], env)):
                self.stmt(s[2], env)
            elif s[3] is not None:
                self.stmt(s[3], env)
        elif k == "for":
            e = Env(env)
            if s[1] is not None:
                self.stmt(s[1], e)
            while s[2] is None or truthy(self.ev(s[2], e)):
                self.tick()
                try:
                    self.stmt(s[4], e)
                except Break:
                    break
                except Continue:
                    pass
                if s[3] is not None:
                    self.ev(s[3], e)
        elif k == "forof":
            for v in self.seq(self.ev(s[2], env)):
                e = Env(env)
                e.vars[s[1]] = v
                try:
                    self.stmt(s[3], e)
                except Break:
                    break
                except Continue:
                    pass
        elif k == "return":
            raise Return(undefined if s[1] is None else self.ev(s[1], env))
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        else:
            raise NotSupported(k)

    def seq(self, v):
        if not isinstance(v, list):
            raise NotSupported("iteration")
        return v

    def closure(self, f, env):
        def call(*a):
            self.tick()
            e = Env(env, True)
            for i, p in enumerate(f[2]):
                e.vars[p] = a[i] if i < len(a) else undefined
            try:
                self.block(f[3][1], e)
            except Return as r:
                return r.args[0]
            return undefined
        return call

    # expressions
    def ev(self, x, env):
        self.tick()
        k = x[0]
        if k in ("num", "str", "const"):
            return x[1]
        if k == "id":
            e = env.find(x[1])
            if e is not None:
                return e.vars[x[1]]
            if x[1] == "document":
                return self.doc
            if x[1] == "undefined":
                return undefined
            if x[1] in ("Math", "window", "console", "Array"):
                return ("host", x[1])
            if x[1] == "parseInt":
                return lambda v, *a: js_num(re.match(r"\s*[-+]?\d*", js_str(v)).group(0) or "nan")
            if x[1] == "Number":
                return js_num
            if x[1] == "String":
                return js_str
            raise JSError("%s is not defined" % x[1])
        if k == "function":
            return self.closure(x, env)
        if k == "array":
            return [self.ev(y, env) for y in x[1]]
        if k == "seq":
            self.ev(x[1], env)
            return self.ev(x[2], env)
        if k == "cond":
            return self.ev(x[2] if truthy(self.ev(x[1], env)) else x[3], env)
        if k == "un":
            if x[1] == "typeof":
                raise NotSupported("typeof")
            v = self.ev(x[2], env)
            return not truthy(v) if x[1] == "!" else -js_num(v) if x[1] == "-" else js_num(v)
        if k == "post":
            old = self.ev(x[1], env)
            self.ev(x[2], env)
            return old
        if k == "bin":
            return self.binary(x, env)
        if k == "assign":
            return self.assign(x[1], self.ev(x[2], env), env)
        if k == "member":
            return self.get(self.ev(x[1], env), x[2])
        if k == "index":
            o, i = self.ev(x[1], env), self.ev(x[2], env)
            if isinstance(o, list) and isinstance(i, (int, float)):
                return o[int(i)] if 0 <= i < len(o) else undefined
            return self.get(o, js_str(i))
        if k == "call":
            f = self.ev(x[1], env)
            if not callable(f):
                raise JSError("not a function")
            return f(*[self.ev(a, env) for a in x[2]])
        raise NotSupported(k)

    def binary(self, x, env):
        op = x[1]
        a = self.ev(x[2], env)
        if op == "&&":
            return self.ev(x[3], env) if truthy(a) else a
        if op == "||":
            return a if truthy(a) else self.ev(x[3], env)
        b = self.ev(x[3], env)
        if op == "+":
            if isinstance(a, str) or isinstance(b, str):
                return js_str(a) + js_str(b)
            return js_num(a) + js_num(b)
        if op in ("===", "!=="):
            r = type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b
            return r if op == "===" else not r
        if op in ("==", "!="):
            if type(a) is type(b) or a is None or b is None:
                r = a == b or (a in (None, undefined) and b in (None, undefined))
            else:
                r = js_num(a) == js_num(b)
            return r if op == "==" else not r
        if op in ("<", ">", "<=", ">="):
            if not (isinstance(a, str) and isinstance(b, str)):
                a, b = js_num(a), js_num(b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        a, b = js_num(a), js_num(b)
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if b == 0:
            return float("nan")
        if op == "%":
            return abs(a) % abs(b) * (1 if a >= 0 else -1)
        return a / b

    def assign(self, target, v, env):
        if target[0] == "id":
            e = env.find(target[1]) or self.globals
            e.vars[target[1]] = v
            return v
        o = self.ev(target[1], env)
        n = target[2] if target[0] == "member" else js_str(self.ev(target[2], env))
        if o is None or o is undefined:
            raise JSError("property %s of %s" % (n, js_str(o)))
        if isinstance(o, Elem):
            if n in ("innerText", "textContent", "innerHTML"):
                if n == "innerHTML" and "<" in js_str(v):
                    raise NotSupported("innerHTML")
                o.items = [js_str(v)]
            elif n == "className":
                o.attrs["class"] = js_str(v)
            elif n == "hidden":
                o.attrs.pop("hidden", None)
                if truthy(v):
                    o.attrs["hidden"] = ""
            elif n == "disabled":
                o.props[n] = truthy(v)
            elif n == "onclick":
                o.props[n] = v
            else:
                raise NotSupported("property " + n)
        elif isinstance(o, Style):
            o.e.style[n] = js_str(v)
        elif isinstance(o, dict):
            o[n] = v
        else:
            raise NotSupported("assignment to " + n)
        return v

    def get(self, o, n):
        if o is None or o is undefined:
            raise JSError("property %s of %s" % (n, js_str(o)))
        if isinstance(o, Document):
            o = o.root if n != "body" else o
            if n == "body":
                return o.body
            if n in ("getElementById",):
                return lambda i: ([e for e in o.iter() if e.attrs.get("id") == i] + [None])[0]
        if isinstance(o, Elem):
            if n == "querySelector":
                return lambda s: (o.find(s) + [None])[0]
            if n == "querySelectorAll":
                return lambda s: o.find(s)
            if n == "getElementsByClassName":
                return lambda s: o.find("." + s)
            if n == "style":
                return Style(o)
            if n == "classList":
                return ClassList(o)
            if n in ("innerText", "textContent"):
                return o.text()
            if n == "children":
                return [c for c in o.items if isinstance(c, Elem)]
            if n == "parentElement" or n == "parentNode":
                return o.parent
            if n == "addEventListener":
                return lambda ev, h, *a: o.handlers.setdefault(ev, []).append(h)
            if n == "className":
                return o.attrs.get("class", "")
            if n == "hidden":
                return "hidden" in o.attrs
            if n == "id":
                return o.attrs.get("id", "")
            if n == "matches":
                return lambda s: matches(o, s)
            if n == "closest":
                def closest(s):
                    e = o
                    while e is not None and not matches(e, s):
                        e = e.parent
                    return e
                return closest
            if n == "getAttribute":
                return lambda a: o.attrs.get(a)
            if n == "hasAttribute":
                return lambda a: a in o.attrs or a == "disabled" and o.props["disabled"]
            if n in ("setAttribute", "removeAttribute", "toggleAttribute"):
                def attribute(a, v=undefined):
                    on = n == "setAttribute" or n == "toggleAttribute" and (a not in o.attrs if v is undefined else truthy(v))
                    if a == "disabled":
                        o.props[a] = on
                    elif a in ("style", "onclick"):
                        raise NotSupported("attribute " + a)
                    elif on:
                        o.attrs[a] = js_str(v) if n == "setAttribute" else ""
                    else:
                        o.attrs.pop(a, None)
                    return undefined
                return attribute
            if n == "dataset":
                return Obj({re.sub("-(.)", lambda m: m.group(1).upper(), k[5:]): v for k, v in o.attrs.items() if k.startswith("data-")})
            if n in ("firstElementChild", "lastElementChild"):
                cs = [c for c in o.items if isinstance(c, Elem)]
                return cs[0 if n[0] == "f" else -1] if cs else None
            if n in ("nextElementSibling", "previousElementSibling"):
                cs = [c for c in o.parent.items if isinstance(c, Elem)]
                k = [c is o for c in cs].index(True) + (1 if n[0] == "n" else -1)
                return cs[k] if 0 <= k < len(cs) else None
            if n in o.props:
                return o.props[n]
            raise NotSupported("property " + n)
        if isinstance(o, Style):
            return o.e.style.get(n, "")
        if isinstance(o, ClassList):
            if n == "add":
                return lambda *c: o.set(o.e.classes + [x for x in c if x not in o.e.classes])
            if n == "remove":
                return lambda *c: o.set([x for x in o.e.classes if x not in c])
            if n == "contains":
                return lambda c: c in o.e.classes
            if n == "toggle":
                def toggle(c, on=undefined):
                    on = c not in o.e.classes if on is undefined else truthy(on)
                    o.set([x for x in o.e.classes if x != c] + ([c] if on else []))
                    return on
                return toggle
        if isinstance(o, list):
            if n == "length":
                return len(o)
            if n == "forEach":
                def each(f):
                    for i, v in enumerate(o):
                        f(v, i)
                    return undefined
                return each
            if n == "map":
                return lambda f: [f(v, i) for i, v in enumerate(o)]
            if n == "filter":
                return lambda f: [v for i, v in enumerate(o) if truthy(f(v, i))]
            if n == "find":
                return lambda f: ([v for i, v in enumerate(o) if truthy(f(v, i))] + [undefined])[0]
            if n in ("indexOf", "includes"):
                def index(v):
                    k = ([i for i, x in enumerate(o) if x is v or type(x) is type(v) and x == v] + [-1])[0]
                    return k if n == "indexOf" else k >= 0
                return index
            if n == "item":
                return lambda i: o[i] if 0 <= i < len(o) else None
            if n == "push":
                def push(*v):
                    o.extend(v)
                    return len(o)
                return push
            if n == "join":
                return lambda sep=",": sep.join(js_str(v) for v in o)
            if n == "some":
                return lambda f: any([truthy(f(v, i)) for i, v in enumerate(o)])
        if isinstance(o, str):
            if n == "length":
                return len(o)
            if n == "toString":
                return lambda: o
            if n == "indexOf":
                return lambda x: o.find(js_str(x))
            if n == "includes":
                return lambda x: js_str(x) in o
            if n == "startsWith":
                return lambda x: o.startswith(js_str(x))
            if n == "endsWith":
                return lambda x: o.endswith(js_str(x))
            if n == "trim":
                return lambda: o.strip()
            if n == "split":
                return lambda x: list(o) if x == "" else o.split(js_str(x))
            if n == "concat":
                return lambda *x: o + "".join(js_str(v) for v in x)
            if n in ("slice", "substring"):
                return lambda a, b=None: o[max(a, 0) if n == "substring" else a:b]
        if isinstance(o, (int, float)):
            if n == "toString":
                return lambda: js_str(o)
        if isinstance(o, tuple) and o[0] == "host":
            if o[1] == "Math" and n in ("min", "max"):
                f = min if n == "min" else max
                return lambda *a: f(js_num(v) for v in a)
            if o[1] == "Array" and n == "from":
                return lambda v: list(v)
            if o[1] == "console":
                return lambda *a: undefined
            if o[1] == "window" and n == "document":
                return self.doc
            if o[1] == "window" and n in self.globals.vars:
                return self.globals.vars[n]
        if isinstance(o, dict) and n in o:
            return o[n]
        raise NotSupported("property %s of %r" % (n, type(o).__name__))


class Style:
    def __init__(self, e):
        self.e = e


class ClassList:
    def __init__(self, e):
        self.e = e

    def set(self, cs):
        self.e.attrs["class"] = " ".join(cs)
        return undefined


def run(doc, src):
    i = Interp(doc)
    i.block(Parser(src).program(), i.globals)
