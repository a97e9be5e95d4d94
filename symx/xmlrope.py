"""Strict XML parser over symbolic ropes (forks on symbolic characters)."""
import z3

from . import core
from .core import Unsupported
from .strings import Ch, Num, Opq, mk, units_of
from .values import mkbool
from .session import Node, XmlError

NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:0123456789.-")
NAMESTART = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:")
WS = set(" \t\r\n")
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


def _b(e):
    r = mkbool(e)
    return bool(r)


def _is(u, c):
    if isinstance(u, str):
        return u == c
    if isinstance(u, Ch):
        return _b(u.e == ord(c))
    return False


def _legal(o):
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000


def _check_legal(u):
    if isinstance(u, str):
        if not _legal(ord(u)):
            raise XmlError("illegal character")
    elif isinstance(u, Ch):
        e = u.e
        if not _b(z3.Or(e == 9, e == 10, e == 13, z3.And(e >= 0x20, e <= 0xD7FF), z3.And(e >= 0xE000, e <= 0xFFFD), e >= 0x10000)):
            raise XmlError("illegal character")


class Parser:
    def __init__(self, text):
        self.u = units_of(text)
        self.i = 0
        self.n = len(self.u)

    def peek(self):
        return self.u[self.i] if self.i < self.n else None

    def native(self):
        if self.i >= self.n:
            raise XmlError("unexpected end")
        u = self.u[self.i]
        if isinstance(u, Ch):
            raise Unsupported("symbolic character in XML markup")
        if not isinstance(u, str):
            raise XmlError("unexpected text in markup")
        return u

    def ws(self):
        k = self.i
        while self.i < self.n and isinstance(self.u[self.i], str) and self.u[self.i] in WS:
            self.i += 1
        return self.i > k

    def name(self):
        k = self.i
        if self.native() not in NAMESTART:
            raise XmlError("bad name at %d" % self.i)
        while self.i < self.n and self.native() in NAME:
            self.i += 1
        return "".join(self.u[k:self.i])

    def expect(self, s):
        for c in s:
            if self.i >= self.n or not _is(self.u[self.i], c):
                raise XmlError("expected %r" % s)
            self.i += 1

    def entity(self):
        """Called after '&'."""
        if self.i < self.n and _is(self.u[self.i], "#"):
            self.i += 1
            base, digits = 10, "0123456789"
            if self.native() == "x":
                self.i += 1
                base, digits = 16, "0123456789abcdefABCDEF"
            s = ""
            while self.native() in digits:
                s += self.native()
                self.i += 1
            if not s or self.native() != ";":
                raise XmlError("bad character reference")
            self.i += 1
            o = int(s, base)
            if not _legal(o):
                raise XmlError("illegal character reference")
            return chr(o)
        for name, val in ENT.items():
            ok = True
            for k, c in enumerate(name + ";"):
                if self.i + k >= self.n or not _is(self.u[self.i + k], c):
                    ok = False
                    break
            if ok:
                self.i += len(name) + 1
                return val
        raise XmlError("bad entity")

    def attr_value(self):
        q = self.native()
        if q not in "'\"":
            raise XmlError("attribute value not quoted")
        self.i += 1
        out = []
        while True:
            if self.i >= self.n:
                raise XmlError("unterminated attribute")
            u = self.u[self.i]
            if isinstance(u, Ch):
                special = "<&\t\n\r" + q
                if not _b(z3.Or([u.e == ord(c) for c in special])):
                    _check_legal(u)
                    out.append(u)
                    self.i += 1
                    continue
                for c in special:
                    if _is(u, c):
                        u = c
                        break
            if isinstance(u, str):
                if u == q:
                    self.i += 1
                    return mk(out)
                if u == "<":
                    raise XmlError("< in attribute")
                self.i += 1
                if u == "&":
                    out.append(self.entity())
                    continue
                if u in "\t\n":
                    u = " "
                elif u == "\r":
                    if self.i < self.n and _is(self.u[self.i], "\n"):
                        self.i += 1
                    u = " "
                else:
                    _check_legal(u)
                out.append(u)
                continue
            out.append(u)
            self.i += 1

    def element(self):
        self.expect("<")
        node = Node(self.name())
        while True:
            had = self.ws()
            c = self.native()
            if c == "/":
                self.i += 1
                self.expect(">")
                return node
            if c == ">":
                self.i += 1
                break
            if not had:
                raise XmlError("expected whitespace in tag")
            n = self.name()
            self.ws()
            self.expect("=")
            self.ws()
            v = self.attr_value()
            if n in node.attrs:
                raise XmlError("duplicate attribute")
            node.attrs[n] = v
            node.attr_order.append(n)
        self.content(node)
        return node

    def content(self, node):
        buf = []

        def flush():
            if buf:
                node.items.append(mk(buf))
                del buf[:]
        while True:
            if self.i >= self.n:
                raise XmlError("unterminated element %s" % node.tag)
            u = self.u[self.i]
            if isinstance(u, Ch):
                if not _b(z3.Or([u.e == ord(c) for c in "<&>\r"])):
                    _check_legal(u)
                    buf.append(u)
                    self.i += 1
                    continue
                for c in "<&>\r":
                    if _is(u, c):
                        u = c
                        break
            if not isinstance(u, str):
                buf.append(u)
                self.i += 1
                continue
            if u == "<":
                nx = self.u[self.i + 1] if self.i + 1 < self.n else None
                if nx is not None and _is(nx, "/"):
                    flush()
                    self.i += 2
                    if self.name() != node.tag:
                        raise XmlError("mismatched closing tag")
                    self.ws()
                    self.expect(">")
                    return
                if nx == "!":
                    if "".join(x if isinstance(x, str) else "?" for x in self.u[self.i:self.i + 4]) == "<!--":
                        k = self.i + 4
                        while k + 2 < self.n and not (self.u[k] == "-" and self.u[k + 1] == "-"):
                            k += 1
                        if k + 2 >= self.n or self.u[k + 2] != ">":
                            raise XmlError("bad comment")
                        self.i = k + 3
                        continue
                    raise Unsupported("markup declaration")
                if isinstance(nx, Ch):
                    raise XmlError("markup from symbolic text")
                flush()
                node.items.append(self.element())
                continue
            self.i += 1
            if u == "&":
                buf.append(self.entity())
            elif u == "\r":
                if self.i < self.n and _is(self.u[self.i], "\n"):
                    self.i += 1
                buf.append("\n")
            elif u == ">":
                if len(buf) >= 2 and _is(buf[-1], "]") and _is(buf[-2], "]"):
                    raise XmlError("]]> in text")
                buf.append(u)
            else:
                _check_legal(u)
                buf.append(u)


def parse(text):
    p = Parser(text)
    p.ws()
    if p.i < p.n and p.u[p.i:p.i + 2] == ("<", "?"):
        while p.i < p.n and p.u[p.i] != ">":
            p.i += 1
        p.i += 1
        p.ws()
    if p.i >= p.n:
        raise XmlError("empty document")
    root = p.element()
    p.ws()
    if p.i < p.n:
        raise XmlError("trailing content")
    return root
