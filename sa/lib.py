"""Transfer functions for builtins, the standard library and the XML document model."""
import collections
import copy as _copy
import ast
import functools
import html
import importlib
import importlib.util
import itertools
import math
import operator
import re
import string
import textwrap
import unicodedata
import xml.dom
from xml.parsers.expat import ExpatError

from . import chars
from .terms import Term, Hole, Cat, Unsupported, Infeasible, BudgetExceeded, cat, parts, is_str, evaluate, show
from .interp import (Absorb, ASet, Bound, ClassV, Cls, Func, LazyIter, MemoV, MethodV, MISSING, ModuleV, Native, Obj,
                     PartialV, PropV, PyExc, StaticV, SuperV, Unmodelled)

# standard modules whose use makes a conversion depend on, or act on, its surroundings
AMBIENT = {"os", "sys", "io", "time", "datetime", "random", "secrets", "uuid", "locale", "socket", "subprocess", "urllib",
           "http", "ssl", "tempfile", "pathlib", "shutil", "glob", "logging", "warnings", "signal", "platform", "getpass",
           "multiprocessing", "asyncio", "select", "ctypes", "pickle", "shelve", "sqlite3", "gc", "inspect", "traceback",
           "resource", "atexit", "builtins", "importlib", "code", "codeop", "pdb", "webbrowser", "ftplib", "smtplib",
           "requests", "fcntl", "mmap", "pwd", "grp", "site", "sysconfig", "zipfile", "tarfile", "gzip", "bz2", "lzma",
           "readline", "cmd", "curses", "tracemalloc", "faulthandler", "linecache", "fileinput", "configparser", "csv"}
AMBIENT_BUILTINS = {"open", "print", "input", "exec", "eval", "compile", "__import__", "breakpoint", "globals", "exit", "quit",
                    "help"}


def effect(I, what, soft=False):
    I.effects.append({"effect": what, "where": I.where(), "soft": soft})


# ================================================================================ XML document model

class DNode:
    ELEMENT_NODE = 1
    ATTRIBUTE_NODE = 2
    TEXT_NODE = 3
    CDATA_SECTION_NODE = 4
    ENTITY_REFERENCE_NODE = 5
    ENTITY_NODE = 6
    PROCESSING_INSTRUCTION_NODE = 7
    COMMENT_NODE = 8
    DOCUMENT_NODE = 9
    DOCUMENT_TYPE_NODE = 10
    DOCUMENT_FRAGMENT_NODE = 11
    NOTATION_NODE = 12
    typename = "Node"

    def __init__(self, kind, name, value=None):
        self.nodeType = kind
        self.nodeName = name
        self.nodeValue = value
        self.childNodes = []
        self.parentNode = None
        self.attributes = None
        self.ownerDocument = None
        self.serial = 0

    def add(self, c):
        c.parentNode = self
        self.childNodes.append(c)
        return c

    PLAIN = {"nodeType", "nodeName", "nodeValue", "parentNode", "attributes", "ownerDocument"}
    METHODS = {"getElementsByTagName", "getElementsByTagNameNS", "getAttribute", "hasAttribute", "hasChildNodes", "hasAttributes",
               "getAttributeNode", "normalize", "unlink", "isSameNode", "getAttributeNS", "hasAttributeNS"}
    CONSTS = {"ELEMENT_NODE", "ATTRIBUTE_NODE", "TEXT_NODE", "CDATA_SECTION_NODE", "ENTITY_REFERENCE_NODE", "ENTITY_NODE",
              "PROCESSING_INSTRUCTION_NODE", "COMMENT_NODE", "DOCUMENT_NODE", "DOCUMENT_TYPE_NODE", "DOCUMENT_FRAGMENT_NODE",
              "NOTATION_NODE"}

    def sa_getattr(self, I, n):
        if n in self.PLAIN or n in self.CONSTS:
            return getattr(self, n)
        if n == "childNodes":
            return self.childNodes if self.nodeType in (1, 9) else ()
        if n in ("firstChild", "lastChild"):
            return self.childNodes[0 if n == "firstChild" else -1] if self.childNodes else None
        if n in ("nextSibling", "previousSibling"):
            if self.parentNode is None:
                return None
            s = self.parentNode.childNodes
            i = [k for k, x in enumerate(s) if x is self][0] + (1 if n == "nextSibling" else -1)
            return s[i] if 0 <= i < len(s) else None
        if self.nodeType == 1 and n == "tagName":
            return self.nodeName
        if n == "localName":
            return split_name(I, self.nodeName)[1] if self.nodeType in (1, 2) else None
        if n == "prefix" and self.nodeType in (1, 2):
            return split_name(I, self.nodeName)[0]
        if n == "namespaceURI":
            return self.namespace(I) if self.nodeType in (1, 2) else None
        if self.nodeType in (3, 4, 8, 7) and n == "data":
            return self.nodeValue
        if self.nodeType in (3, 4) and n == "length":
            return I.call(I.builtins_ns["len"], [self.nodeValue], {})
        if self.nodeType in (3, 4) and n == "wholeText":
            s = self.parentNode.childNodes
            i = j = [k for k, x in enumerate(s) if x is self][0]
            while i > 0 and s[i - 1].nodeType in (3, 4):
                i -= 1
            while j + 1 < len(s) and s[j + 1].nodeType in (3, 4):
                j += 1
            return cat(*[x.nodeValue for x in s[i:j + 1]])
        if self.nodeType == 3 and n == "isWhitespaceInElementContent":
            return False
        if self.nodeType == 7 and n == "target":
            return self.nodeName
        if self.nodeType == 9 and n == "documentElement":
            return next((c for c in self.childNodes if c.nodeType == 1), None)
        if n == "__class__":
            return self.sa_type()
        m = {1: self.METHODS, 9: self.METHODS - {"getAttribute", "hasAttribute", "hasAttributes", "getAttributeNode"}}.get(
            self.nodeType, {"hasChildNodes", "isSameNode", "normalize"})
        if n in m:
            return Native("Node." + n, lambda I2, a, k: self.method(I2, n, a, k))
        if n in ("toxml", "toprettyxml", "writexml", "cloneNode", "appendChild", "removeChild", "insertBefore", "replaceChild",
                 "setAttribute", "removeAttribute", "splitText", "createElement", "createTextNode", "importNode",
                 "getUserData", "setUserData"):
            if n == "removeChild":
                def rm(I2, a, k):
                    self.childNodes[:] = [c for c in self.childNodes if c is not a[0]]
                    a[0].parentNode = None
                    return a[0]
                return Native(n, rm)
            if n == "removeAttribute":
                def ra(I2, a, k):
                    self.attributes.attrs[:] = [x for x in self.attributes.attrs if x.nodeName != a[0]]
                return Native(n, ra)
            if n == "setAttribute":
                def sa(I2, a, k):
                    for x in self.attributes.attrs:
                        if x.nodeName == a[0]:
                            x.nodeValue = a[1]
                            return None
                    self.attributes.attrs.append(DAttr(a[0], a[1]))
                return Native(n, sa)
            if n == "toxml" and not any(is_sym_node(c) for c in [self]):
                raise Unsupported("toxml")
            raise Unsupported("DOM method %s" % n)
        raise PyExc(AttributeError("%r object has no attribute %r" % (self.typename, n)))

    def namespace(self, I):
        """The namespace declared for this name (None for an undeclared one)."""
        pre = split_name(I, self.nodeName)[0]
        if self.nodeType == 2:
            if self.nodeName == "xmlns" or pre == "xmlns":
                return "http://www.w3.org/2000/xmlns/"
            if pre is None:
                return None
        want = "xmlns" if pre is None else "xmlns:" + pre if isinstance(pre, str) else None
        n = self.parentNode if self.nodeType == 2 else self
        while n is not None and n.nodeType == 1:
            for a in n.attributes.attrs:
                if a.nodeName == want:
                    return None if pre is None and isinstance(a.nodeValue, str) and not a.nodeValue else a.nodeValue
            n = n.parentNode
        return None

    def descend(self):
        for c in self.childNodes:
            if c.nodeType == 1:
                yield c
                yield from c.descend()

    def method(self, I, n, a, k):
        if n in ("getElementsByTagName", "getElementsByTagNameNS"):
            name = a[-1]
            if n.endswith("NS"):
                return [c for c in self.descend() if (I.truth(I.eq(name, "*")) or I.truth(I.eq(split_name(I, c.nodeName)[1], name)))
                        and (a[0] == "*" or I.truth(I.eq(c.namespace(I), a[0])))]
            return [c for c in self.descend() if I.truth(I.eq(name, "*")) or I.truth(I.eq(c.nodeName, name))]
        if n == "hasChildNodes":
            return bool(self.childNodes)
        if n == "hasAttributes":
            return bool(self.attributes.attrs)
        if n == "hasAttribute":
            return self.attributes.find(I, a[0]) is not None
        if n == "getAttribute":
            x = self.attributes.find(I, a[0])
            return "" if x is None else x.nodeValue
        if n == "getAttributeNode":
            return self.attributes.find(I, a[0])
        if n in ("getAttributeNS", "hasAttributeNS"):
            for x in self.attributes.attrs:
                if I.truth(I.eq(split_name(I, x.nodeName)[1], a[1])) and I.truth(I.eq(x.namespace(I), a[0])):
                    return x.nodeValue if n == "getAttributeNS" else True
            return "" if n == "getAttributeNS" else False
        if n in ("normalize", "unlink"):
            return None
        if n == "isSameNode":
            return self is a[0]
        raise Unsupported("DOM method %s" % n)

    def sa_setattr(self, I, n, v):
        if n in ("nodeValue", "data") and self.nodeType in (3, 4, 8):
            self.nodeValue = v
            return
        if n in ("tagName", "nodeName"):
            self.nodeName = v
            return
        raise Unsupported("DOM attribute assignment")

    def sa_type(self):
        return DTYPES[self.nodeType]

    def sa_isinstance(self, I, t):
        if isinstance(t, DType):
            return t.match(self)
        return t is object

    def __repr__(self):
        return "<DOM %s %s>" % (self.nodeType, show(self.nodeName) if not isinstance(self.nodeName, str) else self.nodeName)


def split_name(I, name):
    """(prefix or None, local name)"""
    if isinstance(name, str):
        a, c, b = name.partition(":")
        return (a, b) if c else (None, name)
    if not I.truth(I.path.apply("has-prefix", lambda s: ":" in s, [name])):
        return None, name
    return (I.path.apply("prefix", lambda s: s.split(":", 1)[0], [name]), I.path.apply("localname", lambda s: s.split(":", 1)[-1], [name]))


def is_sym_node(n):
    return False


class DAttr(DNode):
    def __init__(self, name, value):
        DNode.__init__(self, 2, name, value)

    def sa_getattr(self, I, n):
        if n == "name":
            return self.nodeName
        if n == "value":
            return self.nodeValue
        if n == "ownerElement":
            return self.parentNode
        if n == "specified":
            return True
        return DNode.sa_getattr(self, I, n)

    def sa_setattr(self, I, n, v):
        if n in ("value", "nodeValue"):
            self.nodeValue = v
            return
        raise Unsupported("attr assignment")


class DMap:
    """NamedNodeMap"""

    def __init__(self):
        self.attrs = []

    def find(self, I, name):
        for a in self.attrs:
            if I.truth(I.eq(a.nodeName, name)):
                return a
        return None

    def sa_getattr(self, I, n):
        A = self.attrs
        if n == "length":
            return len(A)
        fs = {"values": lambda I, a, k: list(A), "keys": lambda I, a, k: [x.nodeName for x in A],
              "items": lambda I, a, k: [(x.nodeName, x.nodeValue) for x in A],
              "itemsNS": lambda I, a, k: [((x.namespace(I), split_name(I, x.nodeName)[1]), x.nodeValue) for x in A],
              "item": lambda I, a, k: A[a[0]] if 0 <= a[0] < len(A) else None,
              "get": lambda I, a, k: self.find(I, a[0]) or (a[1] if len(a) > 1 else None),
              "has_key": lambda I, a, k: self.find(I, a[0]) is not None,
              "getNamedItem": lambda I, a, k: self.find(I, a[0])}
        if n in fs:
            return Native("NamedNodeMap." + n, fs[n])
        if n in ("__class__",):
            return DType("NamedNodeMap", None)
        raise PyExc(AttributeError("'NamedNodeMap' object has no attribute %r" % n))

    def sa_getitem(self, I, k):
        a = self.find(I, k)
        if a is None:
            raise PyExc(KeyError(k))
        return a

    def sa_contains(self, I, k):
        return self.find(I, k) is not None if is_str(k) else any(x is k for x in self.attrs)

    def sa_len(self):
        return len(self.attrs)

    def sa_iter(self, I):
        # NamedNodeMap has no __iter__; the sequence protocol fails on integer keys
        raise PyExc(KeyError(0))


class DType:
    """xml.dom.minidom.Element etc. used with isinstance"""

    def __init__(self, name, kinds):
        self.name = name
        self.kinds = kinds

    def match(self, v):
        return isinstance(v, DNode) and (self.kinds is None or v.nodeType in self.kinds)

    def sa_typecheck(self, I, v):
        return self.match(v)

    def sa_getattr(self, I, n):
        if n in DNode.CONSTS:
            return getattr(DNode, n)
        if n == "__name__":
            return self.name
        raise PyExc(AttributeError(n))

    def __repr__(self):
        return "<DOM type %s>" % self.name


DTYPES = {1: DType("Element", (1,)), 2: DType("Attr", (2,)), 3: DType("Text", (3, 4)), 4: DType("CDATASection", (4,)),
          8: DType("Comment", (8,)), 7: DType("ProcessingInstruction", (7,)), 9: DType("Document", (9,))}
DNODE_TYPE = DType("Node", None)


class LexHandler:
    pass


# ================================================================================ builtins

def b_len(I, a, k):
    v = a[0]
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Term):
        if v.kind == "int" or v.kind == "bool":
            raise PyExc(TypeError("object of type 'int' has no len()"))
        if isinstance(v, Cat) and all(isinstance(p, str) or (isinstance(p, Hole) and p.char) for p in v.args):
            return sum(len(p) if isinstance(p, str) else 1 for p in v.args)
        if isinstance(v, Hole) and v.char:
            return 1
        return I.path.apply("len", len, [v])
    if isinstance(v, ASet):
        return len(v.items)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__len__")
        if isinstance(f, Func):
            return I.call(Bound(f, v), [], {})
        if v.data is not None and not v.cls.enum:
            return b_len(I, [v.data], {})
        raise PyExc(TypeError("object of type %r has no len()" % v.cls.name))
    if isinstance(v, Cls) and v.enum is not None:
        return len(v.enum)
    f = getattr(v, "sa_len", None)
    if f is not None:
        return f()
    if isinstance(v, LazyIter):
        raise PyExc(TypeError("object of type %r has no len()" % v.what))
    try:
        return len(v)
    except TypeError as e:
        raise PyExc(e)


def b_any(I, a, k):
    return any(I.truth(x) for x in I.iter(a[0]))


def b_all(I, a, k):
    return all(I.truth(x) for x in I.iter(a[0]))


def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return LazyIter(((i + start, x) for i, x in enumerate(I.iter(a[0]))), "enumerate")


def b_zip(I, a, k):
    its = [I.iter(x) for x in a]
    if k.get("strict"):
        def strict():
            n = 0
            lists = [list(i) for i in its]
            if len({len(x) for x in lists}) > 1:
                raise PyExc(ValueError("zip() argument lengths differ"))
            yield from zip(*lists)
        return LazyIter(strict(), "zip")
    return LazyIter(zip(*its), "zip")


def b_map(I, a, k):
    its = [I.iter(x) for x in a[1:]]
    return LazyIter((I.call(a[0], list(xs), {}) for xs in zip(*its)), "map")


def b_filter(I, a, k):
    def gen():
        for x in I.iter(a[1]):
            if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                yield x
    return LazyIter(gen(), "filter")


def b_isinstance(I, a, k):
    return I.isinstance(a[0], a[1])


def b_issubclass(I, a, k):
    c, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, Cls):
        return any(c.issub(x) for x in ts)
    return any(isinstance(x, type) and issubclass(c, x) for x in ts)


def b_getattr(I, a, k):
    n = I.path.pick(a[1]) if isinstance(a[1], Term) else a[1]
    return I.getattr(a[0], n, a[2] if len(a) > 2 else MISSING)


def b_hasattr(I, a, k):
    n = I.path.pick(a[1]) if isinstance(a[1], Term) else a[1]
    return I.getattr(a[0], n, None) is not None or _has(I, a[0], n)


def _has(I, o, n):
    try:
        I.getattr(o, n)
        return True
    except PyExc as e:
        if I.isinstance(e.value, AttributeError):
            return False
        raise


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_next(I, a, k):
    it = a[0]
    if isinstance(it, Obj):
        f, _ = it.cls.lookup("__next__")
        try:
            return I.call(Bound(f, it), [], {})
        except PyExc as e:
            if isinstance(e.value, StopIteration) and len(a) > 1:
                return a[1]
            raise
    if not isinstance(it, LazyIter):
        raise PyExc(TypeError("object is not an iterator"))
    for x in I.consume(it):
        return x
    if len(a) > 1:
        return a[1]
    raise PyExc(StopIteration())


def b_iter(I, a, k):
    if len(a) == 2:
        def gen():
            while True:
                x = I.call(a[0], [], {})
                if I.truth(I.eq(x, a[1])):
                    return
                yield x
        return LazyIter(gen())
    if isinstance(a[0], LazyIter):
        return a[0]
    return LazyIter(I.iter(a[0]))


def b_reversed(I, a, k):
    v = a[0]
    if isinstance(v, LazyIter) or isinstance(v, ASet):
        raise PyExc(TypeError("object is not reversible"))
    return LazyIter(reversed(I.iterate(v)), "reversed")


class _Key:
    __slots__ = ("I", "k")

    def __init__(self, I, k):
        self.I, self.k = I, k

    def __lt__(self, o):
        import ast
        return self.I.order(ast.Lt, self.k, o.k)


def sort_list(I, xs, k):
    key = k.get("key")
    keyed = [(x, _Key(I, I.call(key, [x], {}) if key is not None else x)) for x in xs]
    rev = bool(I.truth(k.get("reverse", False)))
    return [x for x, _ in sorted(keyed, key=lambda p: p[1], reverse=rev)]


def b_sorted(I, a, k):
    v = a[0]
    flip = I.path.flip_sets
    return sort_list(I, I.iterate(v), k)


def b_minmax(which):
    def f(I, a, k):
        import ast
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise PyExc(ValueError("%s() iterable argument is empty" % which))
        key = k.get("key")
        best = xs[0]
        bk = I.call(key, [best], {}) if key else best
        for x in xs[1:]:
            xk = I.call(key, [x], {}) if key else x
            if not key and (isinstance(xk, Term) or isinstance(bk, Term)) and all(
                    isinstance(z, int) or (isinstance(z, Term) and z.kind == "int") for z in (xk, bk)):
                best = bk = I.path.apply(which, max if which == "max" else min, [bk, xk])
                continue
            if I.order(ast.Gt if which == "max" else ast.Lt, xk, bk):
                best, bk = x, xk
        return best
    return f


def b_sum(I, a, k):
    import ast
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iter(a[0]):
        acc = I.binop(ast.Add(), acc, x)
    return acc


def b_id(I, a, k):
    if a[0] is None or isinstance(a[0], (bool,)):
        return id(a[0])
    I.id_used = True
    tab = I.path.__dict__.setdefault("ids", {})
    key = id(a[0])
    if key not in tab:
        tab[key] = (140000 + 16 * len(tab), a[0])
    I.effects.append({"effect": "id() of an object", "where": I.where(), "soft": True})
    return IdVal(tab[key][0])


class IdVal(int):
    """An object identity: comparable, but must not reach the output."""


def b_hash(I, a, k):
    I.effects.append({"effect": "hash() of a value", "where": I.where(), "soft": True})
    v = a[0]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return hash(v)
    if is_str(v):
        # depends on the process's hash seed
        return Hole("hashseed%d" % next(I.path.fresh), ["11", "27", "38", "40"], note="identity") and I.path.apply(
            "int", int, [Hole("hashseed", ["11", "27", "38", "40"], closed=True, note="identity")])
    return IdVal(id(v) % 1000003)


def b_repr(I, a, k):
    return I.repr(a[0])


def b_type(I, a, k):
    if len(a) == 1:
        return I.type_of(a[0])
    return Cls(a[0], list(a[1]), dict(a[2]), I)


def b_vars(I, a, k):
    return I.getattr(a[0], "__dict__")


def b_print(I, a, k):
    effect(I, "print()")
    return None


def b_super(I, a, k):
    return SuperV(a[0], a[1])


def b_property(I, a, k):
    return PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


def b_callable(I, a, k):
    return I.callable(a[0])


def b_ord(I, a, k):
    return I.native(ord, [a[0]], "ord")


def b_chr(I, a, k):
    return I.native(chr, [a[0]], "chr")


def b_abs(I, a, k):
    return I.native(abs, [a[0]], "abs")


def b_round(I, a, k):
    return I.native(round, list(a), "round")


def b_divmod(I, a, k):
    return divmod(*[I.path.pick(x) for x in a])


def b_dir(I, a, k):
    raise Unsupported("dir()")


def b_format(I, a, k):
    return I.format(a[0], a[1] if len(a) > 1 else "")


def ambient_builtin(name):
    def f(I, a, k):
        effect(I, "%s()" % name)
        raise Unsupported("call of %s()" % name)
    return f


def make_builtins():
    ns = {"len": b_len, "any": b_any, "all": b_all, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
          "isinstance": b_isinstance, "issubclass": b_issubclass, "getattr": b_getattr, "hasattr": b_hasattr,
          "setattr": b_setattr, "next": b_next, "iter": b_iter, "reversed": b_reversed, "sorted": b_sorted,
          "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum, "id": b_id, "hash": b_hash, "repr": b_repr,
          "vars": b_vars, "print": b_print, "super": b_super, "property": b_property, "callable": b_callable, "ord": b_ord,
          "chr": b_chr, "abs": b_abs, "round": b_round, "divmod": b_divmod, "format": b_format, "dir": b_dir,
          "ascii": lambda I, a, k: I.native(ascii, a, "ascii"), "bin": lambda I, a, k: I.native(bin, a, "bin"),
          "hex": lambda I, a, k: I.native(hex, a, "hex"), "oct": lambda I, a, k: I.native(oct, a, "oct"),
          "pow": lambda I, a, k: I.native(pow, a, "pow"),
          "staticmethod": lambda I, a, k: StaticV(a[0]), "classmethod": lambda I, a, k: ClassV(a[0]),
          "delattr": lambda I, a, k: I.getattr(a[0], "__dict__").pop(a[1])}
    out = {n: Native(n, f) for n, f in ns.items()}
    out["type"] = Native("type", b_type)
    for n in AMBIENT_BUILTINS - {"print"}:
        out[n] = Native(n, ambient_builtin(n))
    for t in (str, int, float, bool, list, dict, set, frozenset, tuple, range, slice, bytes, bytearray, object, complex):
        out[t.__name__] = t
    import builtins
    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            out[n] = v
    out["NotImplemented"] = NotImplemented
    out["Ellipsis"] = Ellipsis
    out["__name__"] = "builtins"
    out["__debug__"] = True
    return out


# ================================================================================ native modules and methods

def nat(name, fn):
    """A pure native function of str/int arguments."""
    return Native(name, lambda I, a, k: I.native(lambda *x: fn(*x, **k), a, name))


_BIN = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod, "or": ast.BitOr, "and": ast.BitAnd, "xor": ast.BitXor, "floordiv": ast.FloorDiv, "truediv": ast.Div}
_CMP = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}


def dunder(I, o, name, a):
    """A special method called by name on a builtin value; NotImplemented when it has no model here."""
    n = name.strip("_")
    if n == "getitem":
        return I.getitem(o, a[0])
    if n == "setitem":
        return I.setitem(o, a[0], a[1])
    if n == "delitem":
        return I.delitem(o, a[0])
    if n == "contains":
        return I.contains(o, a[0])
    if n == "len":
        return b_len(I, [o], {})
    if n == "iter":
        return b_iter(I, [o], {})
    if n == "reversed":
        return b_reversed(I, [o], {})
    if n == "str":
        return I.to_str(o)
    if n == "repr":
        return I.repr(o)
    if n == "format":
        return I.format(o, a[0])
    if n == "hash":
        return b_hash(I, [o], {})
    if n == "bool":
        return I.truth(o)
    if n == "eq" and I.type_of(o) is I.type_of(a[0]):
        return I.eq(o, a[0])
    if n == "ne" and I.type_of(o) is I.type_of(a[0]):
        return not I.truth(I.eq(o, a[0]))
    if n in _CMP and I.type_of(o) is I.type_of(a[0]):
        return I.compare(_CMP[n](), o, a[0])
    if n in _BIN:
        return I.binop(_BIN[n](), o, a[0])
    if n[:1] == "r" and n[1:] in _BIN:
        return I.binop(_BIN[n[1:]](), a[0], o)
    if n == "class":
        return I.type_of(o)
    return NotImplemented


def no_method(t, name):
    """A builtin's method the analysis has no model of, or that does not exist."""
    if hasattr(t, name):
        raise Unsupported("%s.%s" % (t.__name__, name))
    raise PyExc(AttributeError("%r object has no attribute %r" % (t.__name__, name)))


STR_LIST = {"split", "rsplit", "splitlines", "partition", "rpartition"}
STR_METHODS = {n for n in dir(str) if not n.startswith("_")}


def norm_term(I, s):
    """' '.join(s.split())"""
    return I.native(_norm, [s], "norm")


def _norm(x):
    return " ".join(x.split())


def str_join(I, sep, it):
    if isinstance(it, Term) and it.kind == "list" and it.op == "split" and len(it.args) == 1 and sep == " ":
        return norm_term(I, it.args[0])
    if isinstance(it, Term) and it.kind in ("list", "str") and not isinstance(it, Cat):
        if isinstance(sep, str):
            return I.native(lambda x, s: s.join(x), [it, sep], "join")
    xs = I.iterate(it)
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, Obj) and x.data is not None and is_str(x.data):
            x = x.data
        if not is_str(x):
            if isinstance(x, Term):
                raise Unsupported("join of terms")
            raise PyExc(TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__)))
        if i:
            out.append(sep)
        out.append(x)
    return cat(*out)


def str_format(I, fmt, a, k):
    if isinstance(fmt, Term):
        fmt = I.path.pick(fmt)
    out = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(fmt))
    except ValueError as e:
        raise PyExc(e)
    for lit, field, spec, conv in pieces:
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^([^.\[]*)(.*)$", field)
        head, rest = m.groups()
        if head == "":
            if auto >= len(a):
                raise PyExc(IndexError("Replacement index %d out of range for positional args tuple" % auto))
            v = a[auto]
            auto += 1
        elif head.isdigit():
            if int(head) >= len(a):
                raise PyExc(IndexError("Replacement index out of range"))
            v = a[int(head)]
        else:
            if head not in k:
                raise PyExc(KeyError(head))
            v = k[head]
        for kind, name in re.findall(r"(\.|\[)([^.\[\]]+)\]?", rest):
            v = I.getattr(v, name) if kind == "." else I.getitem(v, int(name) if name.isdigit() else name)
        if conv == "r":
            v = I.repr(v)
        elif conv == "s":
            v = I.to_str(v)
        if spec and "{" in spec:
            spec = str_format(I, spec, a, k)
        out.append(I.format(v, spec or ""))
    return cat(*out)


def str_method(I, s, name, a, k):
    if name not in STR_METHODS:
        no_method(str, name)
    if name == "join":
        return str_join(I, s, a[0])
    if name in ("format", "format_map"):
        return str_format(I, s, a, k if name == "format" else a[0])
    a = list(a)
    a = [x.data if isinstance(x, Obj) and x.data is not None else x for x in a]
    if name in ("startswith", "endswith"):
        if isinstance(a[0], tuple):
            return any(I.truth(str_method(I, s, name, [x] + a[1:], k)) for x in a[0])
        # decided on the literal ends of a template
        ps = parts(s)
        if isinstance(a[0], str) and ps and len(a) == 1:
            lit = ps[0] if name == "startswith" else ps[-1]
            if isinstance(lit, str) and len(lit) >= len(a[0]):
                return lit.startswith(a[0]) if name == "startswith" else lit.endswith(a[0])
    if name == "translate":
        table = a[0]
        if isinstance(table, dict) and any(isinstance(v, Term) for v in table.values()):
            raise Unsupported("translate")
        f = lambda x: x.translate(table)
        return I.native(f, [s], "translate%d" % id(table))
    if name == "replace" and isinstance(s, Term) and len(a) == 2 and all(isinstance(x, str) for x in a) and not k:
        return I.native(lambda x, o, n: x.replace(o, n), [s, a[0], a[1]], "replace")
    if name == "maketrans":
        return str.maketrans(*a)
    for x in a:
        if isinstance(x, (list, dict, Obj, ASet)) or (x is None and name in ("startswith", "endswith", "replace", "count", "find", "index")):
            raise PyExc(TypeError("%s: wrong argument type" % name))
    kk = tuple(sorted(k.items()))
    opname = name if not k else name + repr(kk)
    m = getattr(str, name)
    if k:
        return I.native(lambda x, *y: m(x, *y, **dict(kk)), [s] + a, opname)
    if name == "strip" and isinstance(s, Cat) and not a:
        # white space can only be at the ends
        first, last = s.args[0], s.args[-1]
        if isinstance(first, str) and isinstance(last, str) and not first[0].isspace() and not last[-1].isspace():
            return s
    if name in ("strip", "lstrip", "rstrip") and len(a) <= 1 and all(x is None or isinstance(x, str) for x in a):
        ps = chars.structured(s)
        if ps is not None:
            return chars.strip(I, ps, a[0] if a else None, name != "rstrip", name != "lstrip")
    if name == "split" and not a:
        ps = chars.structured(s)
        if ps is not None:
            return chars.split(I, ps)
    return I.native(m, [s] + a, opname)


def list_method(I, l, name, a, k, base=False):
    if isinstance(l, DequeL) and not base:
        return deque_method(I, l, name, a, k)
    if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
        I.touch(l, name)
    if name == "append":
        if id(l) in I.shared_ids:
            I._share(a[0], I.shared_ids[id(l)])
        l.append(a[0])
        return None
    if name == "extend":
        new = I.iterate(a[0])
        if id(l) in I.shared_ids:
            for x in new:
                I._share(x, I.shared_ids[id(l)])
        l.extend(new)
        return None
    if name == "insert":
        if id(l) in I.shared_ids:
            I._share(a[1], I.shared_ids[id(l)])
        l.insert(I.path.pick(a[0]), a[1])
        return None
    if name == "pop":
        try:
            return l.pop(*[I.path.pick(x) for x in a])
        except IndexError as e:
            raise PyExc(e)
    if name == "clear":
        l.clear()
        return None
    if name == "reverse":
        l.reverse()
        return None
    if name == "copy":
        return list(l)
    if name == "sort":
        l[:] = sort_list(I, list(l), k)
        return None
    if name in ("index", "remove", "count"):
        n = 0
        for i, x in enumerate(l):
            if i < (a[1] if len(a) > 1 else 0):
                continue
            if I.truth(I.eq(x, a[0])):
                if name == "index":
                    return i
                if name == "remove":
                    del l[i]
                    return None
                n += 1
        if name == "count":
            return n
        raise PyExc(ValueError("value is not in list"))
    no_method(list, name)


def dict_method(I, d, name, a, k):
    if name == "get":
        v = I.dict_find(d, a[0])
        if v is MISSING:
            return a[1] if len(a) > 1 else k.get("default")
        return v
    if name == "items":
        return [(x, y) for x, y in d.items()]
    if name == "keys":
        return KeysL(d.keys())
    if name == "values":
        return list(d.values())
    if name == "copy":
        return copy1(I, d)
    if isinstance(d, DDict) and d.counter:
        if name == "most_common":
            return sort_list(I, list(d.items()), {"key": Native("key", lambda I2, a2, k2: a2[0][1]), "reverse": True})[:(a[0] if a else None)]
        if name == "elements":
            return LazyIter([x for x, n in d.items() for _ in range(n)])
        if name == "total":
            return sum(d.values())
        if name in ("update", "subtract") and a and not isinstance(a[0], dict):
            return counter_add(I, d, a[0], 1 if name == "update" else -1)
        if name in ("update", "subtract", "fromkeys"):
            raise Unsupported("Counter.%s" % name)
    if name == "move_to_end":
        v = I.dict_find(d, a[0])
        if v is MISSING:
            raise PyExc(KeyError(a[0]))
        I.touch(d, name)
        last = a[1] if len(a) > 1 else k.get("last", True)
        rest = [(x, y) for x, y in d.items() if y is not v]
        if len(rest) != len(d) - 1:
            raise Unsupported("move_to_end")
        d.clear()
        d.update(rest + [(a[0], v)] if last else [(a[0], v)] + rest)
        return None
    if name == "popitem" and (a or k):
        last = a[0] if a else k["last"]
        if not d:
            raise PyExc(KeyError("dictionary is empty"))
        I.touch(d, name)
        x = list(d)[-1 if last else 0]
        return x, d.pop(x)
    if name in ("update", "pop", "setdefault", "clear", "popitem"):
        if name == "setdefault":
            v = I.dict_find(d, a[0])
            if v is not MISSING:
                return v
            x = a[1] if len(a) > 1 else None
            I.setitem(d, a[0], x)
            return x
        if name == "update":
            if a:
                src = I.dict_items(a[0]) if isinstance(a[0], (dict, Obj)) else [tuple(I.iterate(x)) for x in I.iterate(a[0])]
                for x, y in src:
                    I.setitem(d, x, y)
            for x, y in k.items():
                I.setitem(d, x, y)
            return None
        if name == "pop":
            v = I.dict_find(d, a[0])
            if v is MISSING:
                if len(a) > 1:
                    return a[1]
                raise PyExc(KeyError(a[0]))
            I.delitem(d, a[0])
            return v
        I.touch(d, name)
        if name == "clear":
            d.clear()
            return None
        try:
            return d.popitem()
        except KeyError as e:
            raise PyExc(e)
    if name == "fromkeys":
        return {x: (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])}
    no_method(dict, name)


def set_method(I, s, name, a, k):
    if name in ("add", "discard", "remove", "update", "clear", "pop", "difference_update", "intersection_update"):
        I.touch(s, name)
        s.__dict__.pop("native", None)
    if name == "add":
        I.set_add(s, a[0])
        return None
    if name in ("discard", "remove"):
        for i, x in enumerate(s.items):
            if I.truth(I.eq(x, a[0])):
                del s.items[i]
                return None
        if name == "remove":
            raise PyExc(KeyError(a[0]))
        return None
    if name == "update":
        for x in a:
            for y in I.iterate(x):
                I.set_add(s, y)
        return None
    if name == "clear":
        s.items.clear()
        return None
    if name == "copy":
        return ASet(s.items, s.frozen)
    if name == "pop":
        if not s.items:
            raise PyExc(KeyError("pop from an empty set"))
        I.set_iterated = True
        return s.items.pop(0 if not I.path.flip_sets else -1)
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference"):
        others = [I.make_set(I.iterate(x)) for x in a]
        if name == "union":
            return I.make_set(s.items + [y for o in others for y in o.items])
        if name == "intersection":
            return I.make_set([x for x in s.items if all(I.contains(o, x) for o in others)])
        if name == "difference":
            return I.make_set([x for x in s.items if not any(I.contains(o, x) for o in others)])
        if name == "issubset":
            return all(I.contains(others[0], x) for x in s.items)
        if name == "issuperset":
            return all(I.contains(s, x) for x in others[0].items)
        if name == "isdisjoint":
            return not any(I.contains(others[0], x) for x in s.items)
        return I.make_set([x for x in s.items if not I.contains(others[0], x)] + [x for x in others[0].items if not I.contains(s, x)])
    no_method(set, name)


PATTERN_METHODS = {"sub", "subn", "match", "search", "fullmatch", "findall", "finditer", "split"}


def re_chars(I, pat, name, a, k):
    """A pattern applied to a text of known and single unknown characters; MISSING when it is none."""
    sub = name in ("sub", "subn")
    s = a[1] if sub and len(a) > 1 else (a[0] if not sub and a else k.get("string"))
    ps = chars.structured(s)
    if ps is None or len(ps) == 1 and name in ("match", "search", "fullmatch"):
        return MISSING
    rest = a[2 if sub else 1:] if len(a) > (1 if sub else 0) else []
    if rest or set(k) - {"string", "repl"} or any(isinstance(x, Term) for x in rest):
        return MISSING
    text = chars.settle(I, ps, pat)
    if text is None:
        return MISSING
    if name in ("match", "search", "fullmatch"):
        m = getattr(pat, name)(text)
        return None if m is None else chars.CharMatch(m, ps)
    ms = list(pat.finditer(text))
    if name == "finditer":
        return LazyIter([chars.CharMatch(m, ps) for m in ms])
    if name == "findall":
        return [chars.findall(m, ps) for m in ms]
    out, pos = [], 0
    for m in ms:
        out.append(cat(*ps[pos:m.start()]))
        pos = m.end()
        if name == "split":
            out += list(chars.CharMatch(m, ps).groups())
            continue
        repl = a[0] if a else k["repl"]
        if isinstance(repl, Term):
            repl = I.path.pick(repl)
        if isinstance(repl, str):
            out.append(chars.expand(m, ps, repl))
        else:
            x = I.call(repl, [chars.CharMatch(m, ps)], {})
            if x is not None and not is_str(x):
                raise PyExc(TypeError("expected str instance"))
            out.append(x if x is not None else "")
    out.append(cat(*ps[pos:]))
    if name == "split":
        return out
    return cat(*out) if name == "sub" else (cat(*out), len(ms))


def re_call(I, pat, name, a, k):
    """pat: compiled pattern; a: the remaining arguments"""
    a = list(a)
    r = re_chars(I, pat, name, a, k)
    if r is not MISSING:
        return r
    if name in ("sub", "subn"):
        repl = a[0] if a else k.pop("repl")
        s = a[1] if len(a) > 1 else k.pop("string")
        count = I.path.pick(a[2]) if len(a) > 2 else k.pop("count", 0)
        if isinstance(repl, (Func, Bound, Native, PartialV, MethodV)) or isinstance(repl, Obj):
            s = I.path.pick(s) if isinstance(s, Term) else s
            if not isinstance(s, str):
                raise PyExc(TypeError("expected string or bytes-like object"))
            out = []
            pos = 0
            n = 0
            for m in pat.finditer(s):
                if count and n >= count:
                    break
                out.append(s[pos:m.start()])
                r = I.call(repl, [m], {})
                if r is not None:
                    if not is_str(r):
                        raise PyExc(TypeError("expected str instance"))
                    out.append(r)
                pos = m.end()
                n += 1
            out.append(s[pos:])
            r = cat(*out)
            return r if name == "sub" else (r, n)
        if isinstance(repl, Term):
            repl = I.path.pick(repl)
        if not is_str(s):
            raise PyExc(TypeError("expected string or bytes-like object, got %r" % type(s).__name__))
        if name == "subn":
            s = I.path.pick(s)
            try:
                return pat.subn(repl, s, count=count)
            except Exception as e:
                raise PyExc(e)
        if pat.pattern in (r"\s+",) and repl == " " and not count:
            return I.native(lambda x, p: p.sub(" ", x), [s, pat], "collapse")
        return I.native(lambda x, p, r, c: p.sub(r, x, count=c), [s, pat, repl, count], "sub")
    s = a[0] if a else k.pop("string")
    if not is_str(s):
        raise PyExc(TypeError("expected string or bytes-like object, got %r" % type(s).__name__))
    if name == "finditer":
        s = I.path.pick(s) if isinstance(s, Term) else s
        return LazyIter(pat.finditer(s))
    rest = a[1:]
    if name in ("match", "search", "fullmatch") and isinstance(s, Term):
        # a Match object is kept as a term; its truth is what is mostly asked
        return I.native(lambda x, p, *r: getattr(p, name)(x, *r), [s, pat] + rest, "re." + name)
    kk = dict(k)
    return I.native(lambda x, p, *r: getattr(p, name)(x, *r, **kk), [s, pat] + rest, "re." + name)


def compile_re(I, pattern, flags=0):
    if isinstance(pattern, Term):
        pattern = I.path.pick(pattern)
    if isinstance(pattern, re.Pattern):
        return pattern
    try:
        r = re.compile(pattern, flags)
        I.regexes.setdefault((r.pattern, r.flags), I.where())
        return r
    except Exception as e:
        raise PyExc(e)


def make_re():
    ns = {}

    def wrap(name, npos):
        def f(I, a, k):
            a = list(a)
            flags = k.pop("flags", 0)
            pattern = a.pop(0) if a else k.pop("pattern")
            lim = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
            if len(a) > lim:
                flags = a.pop()
            return re_call(I, compile_re(I, pattern, flags), name, a, k)
        return Native("re." + name, f)
    for n in PATTERN_METHODS:
        ns[n] = wrap(n, 1)
    ns["compile"] = Native("re.compile", lambda I, a, k: compile_re(I, *a, **k))
    ns["escape"] = Native("re.escape", lambda I, a, k: I.native(re.escape, a, "re.escape"))
    for n in dir(re):
        v = getattr(re, n)
        if isinstance(v, re.RegexFlag):
            ns[n] = v
    ns["Pattern"] = re.Pattern
    ns["Match"] = re.Match
    ns["RegexFlag"] = re.RegexFlag
    ns["error"] = re.error
    return ns


# -------------------------------------------------------------------------------- dataclasses, enum, functools ...

def as_method(name, fn):
    n = Native(name, fn)
    n.as_method = True
    return n


def dataclass_deco(I, a, k):
    def deco(I2, a2, k2):
        c = a2[0]
        fields = []
        for b in reversed(c.mro[1:]):
            if isinstance(b, Cls) and b.fields:
                for f in b.fields:
                    fields = [x for x in fields if x[0] != f[0]] + [f]
        for name, cv in getattr(c, "anno", []):
            if cv:
                continue
            d = c.ns.get(name, MISSING)
            fields = [x for x in fields if x[0] != name] + [(name, d)]
        c.fields = fields
        c.frozen = bool(k.get("frozen", False))

        def init(I3, a3, k3):
            o = a3[0]
            vals = list(a3[1:])
            ini = [f for f in fields if not (isinstance(f[1], FieldV) and f[1].init is False)]
            if len(vals) > len(ini):
                raise PyExc(TypeError("%s.__init__() takes %d positional arguments but %d were given" % (c.name, len(ini) + 1, len(vals) + 1)))
            k3 = dict(k3)
            for i, (nm, d) in enumerate(ini):
                if i < len(vals):
                    if nm in k3:
                        raise PyExc(TypeError("multiple values for argument %r" % nm))
                    v = vals[i]
                elif nm in k3:
                    v = k3.pop(nm)
                elif isinstance(d, FieldV):
                    if d.factory is not MISSING:
                        v = I3.call(d.factory, [], {})
                    elif d.default is not MISSING:
                        v = d.default
                    else:
                        raise PyExc(TypeError("missing argument %r" % nm))
                elif d is not MISSING:
                    v = d
                else:
                    raise PyExc(TypeError("%s.__init__() missing 1 required positional argument: %r" % (c.name, nm)))
                o.attrs[nm] = v
            if k3:
                raise PyExc(TypeError("unexpected keyword argument %r" % next(iter(k3))))
            for nm, d in fields:
                if isinstance(d, FieldV) and d.init is False:
                    o.attrs[nm] = I3.call(d.factory, [], {}) if d.factory is not MISSING else d.default
            pi, _ = c.lookup("__post_init__")
            if isinstance(pi, Func):
                I3.call(Bound(pi, o), [], {})

        def eq(I3, a3, k3):
            x, y = a3
            if not isinstance(y, Obj) or y.cls is not x.cls:
                return NotImplemented
            return all(I3.truth(I3.eq(x.attrs[n], y.attrs[n])) for n, _ in fields)
        if "__init__" not in c.ns and k.get("init", True):
            c.ns["__init__"] = as_method("__init__", init)
        if "__eq__" not in c.ns and k.get("eq", True):
            c.ns["__eq__"] = as_method("__eq__", eq)
            if c.frozen:
                c.ns["__hash__"] = Native("__hash__", lambda I3, a3, k3: 0)
        c.ns.setdefault("__match_args__", tuple(n for n, _ in fields))
        c.ns["__dataclass_fields__"] = {n: n for n, _ in fields}
        return c
    if a and isinstance(a[0], Cls):
        return deco(I, a, {})
    return Native("dataclass", deco)


class FieldV:
    def __init__(self, default=MISSING, factory=MISSING, init=True):
        self.default, self.factory, self.init = default, factory, init


def f_field(I, a, k):
    return FieldV(k.get("default", MISSING), k.get("default_factory", MISSING), k.get("init", True))


def f_replace(I, a, k):
    kw = {n: a[0].attrs[n] for n, d in a[0].cls.fields if not (isinstance(d, FieldV) and d.init is False)}
    kw.update(k)
    return I.instantiate(a[0].cls, [], kw)


def f_asdict(I, a, k):
    return {n: a[0].attrs[n] for n, _ in a[0].cls.fields}


def f_lru_cache(I, a, k):
    if a and isinstance(a[0], (Func, StaticV, ClassV, Bound, Native)):
        return MemoV(a[0])
    return Native("lru_cache", lambda I2, a2, k2: MemoV(a2[0]))


def f_cached_property(I, a, k):
    p = PropV(a[0], None, True)
    return p


def f_partial(I, a, k):
    return PartialV(a[0], a[1:], k)


def f_reduce(I, a, k):
    it = I.iter(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        acc = next(it, MISSING)
        if acc is MISSING:
            raise PyExc(TypeError("reduce() of empty iterable with no initial value"))
    for x in it:
        acc = I.call(a[0], [acc, x], {})
    return acc


def f_wraps(I, a, k):
    def deco(I2, a2, k2):
        if isinstance(a2[0], Func):
            a2[0].attrs.setdefault("__wrapped__", a[0])
        return a2[0]
    return Native("wraps", deco)


class DispatchV:
    """functools.singledispatch and singledispatchmethod: the most derived registered class decides."""

    def __init__(self, f, method):
        self.f, self.method = f, method
        self.table = []

    def sa_getattr(self, I, n):
        if n == "register":
            def reg(I2, a, k):
                def add(t, f):
                    ts = [type(None) if x is None else x for x in (t if isinstance(t, tuple) else (t,))]
                    self.table = [(x, g) for x, g in self.table if x not in ts] + [(x, f) for x in ts]
                    return f
                if len(a) == 2:
                    return add(a[0], a[1])
                if isinstance(a[0], (Cls, type, tuple)):
                    return Native("register", lambda I3, b, k3: add(a[0], b[0]))
                f = a[0]
                g = f.f if isinstance(f, (StaticV, ClassV)) else f
                if not isinstance(g, Func):
                    raise Unsupported("register of %r" % (f,))
                ar = g.node.args.posonlyargs + g.node.args.args
                i = 1 if self.method and not isinstance(f, StaticV) else 0
                an = ar[i].annotation if len(ar) > i else None
                if isinstance(an, ast.Constant) and isinstance(an.value, str):
                    an = ast.parse(an.value, mode="eval").body
                if an is None:
                    raise PyExc(TypeError("Invalid first argument to `register()`"))
                return add(I2.ev(an, g.scope), f)
            return Native("register", reg)
        if n == "dispatch" and not self.method:
            return Native("dispatch", lambda I2, a, k: self.pick(I2, a[0]))
        if n == "registry":
            return {**{object: self.f}, **dict(self.table)}
        if isinstance(self.f, Func):
            return I._getattr(self.f, n)
        raise Unsupported("singledispatch." + n)

    def pick(self, I, k):
        mro = k.mro + [object] if isinstance(k, Cls) else list(k.__mro__)
        flat = []
        for c in mro:
            flat += [c] if isinstance(c, Cls) else list(c.__mro__)
        for c in flat:
            for t, f in self.table:
                if t is c:
                    return f
        for t, f in self.table:         # abstract classes the type does not derive from
            if isinstance(t, (Cls, type)) and not isinstance(k, Cls) and not isinstance(t, Cls) and issubclass(k, t):
                return f
            if not isinstance(t, (Cls, type)):
                raise Unsupported("dispatch on %r" % (t,))
        return self.f

    def sa_call(self, I, a, k):
        if not a:
            raise PyExc(TypeError("requires at least 1 positional argument"))
        return I.call(self.pick(I, I.type_of(a[0])), a, k)

    def sa_bind(self, I, o):
        def call(I2, a, k):
            if not a:
                raise PyExc(TypeError("requires at least 1 positional argument"))
            f = self.pick(I2, I2.type_of(a[0]))
            return I2.call(I2.bind_attr(f, o, None), a, k)
        return Native("dispatch", call) if self.method else Bound(self, o)


class TemplateV:
    """string.Template over a known template."""

    def __init__(self, text):
        self.text = text

    def sa_getattr(self, I, n):
        if n == "template":
            return self.text
        if n not in ("substitute", "safe_substitute") or not isinstance(self.text, str):
            raise Unsupported("string.Template." + n)

        def sub(I2, a, k):
            out, at = [], 0
            for m in string.Template.pattern.finditer(self.text):
                out.append(self.text[at:m.start()])
                at = m.end()
                key = m.group("named") or m.group("braced")
                if key is None:
                    if m.group("escaped") is None and n == "substitute":
                        raise PyExc(ValueError("Invalid placeholder in string"))
                    out.append("$" if m.group("escaped") is not None else m.group())
                elif key in k:
                    out.append(I2.to_str(k[key]))
                else:
                    try:
                        v = I2.getitem(a[0], key) if a else MISSING
                    except PyExc as x:
                        if n == "substitute" or not isinstance(x.value, KeyError):
                            raise
                        v = MISSING
                    if v is MISSING and n == "substitute":
                        raise PyExc(KeyError(key))
                    out.append(m.group() if v is MISSING else I2.to_str(v))
            return cat(*(out + [self.text[at:]]))
        return Native(n, sub)


class PartialMethodV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def sa_bind(self, I, o):
        return PartialV(I.bind_attr(self.f, o, None), self.args, self.kw)


def f_singledispatch(I, a, k):
    return DispatchV(a[0], False)


def f_singledispatchmethod(I, a, k):
    return DispatchV(a[0], True)


def f_partialmethod(I, a, k):
    return PartialMethodV(a[0], list(a[1:]), k)


def f_total_ordering(I, a, k):
    return a[0]


def it_chain(I, a, k):
    def gen():
        for x in a:
            yield from I.iter(x)
    return LazyIter(gen())


def it_chain_from(I, a, k):
    def gen():
        for x in I.iter(a[0]):
            yield from I.iter(x)
    return LazyIter(gen())


def it_repeat(I, a, k):
    n = a[1] if len(a) > 1 else k.get("times")
    return LazyIter(itertools.repeat(a[0]) if n is None else itertools.repeat(a[0], I.path.pick(n)))


def it_groupby(I, a, k):
    key = a[1] if len(a) > 1 else k.get("key")

    def gen():
        cur = MISSING
        group = []
        for x in I.iter(a[0]):
            kx = I.call(key, [x], {}) if key is not None else x
            if cur is not MISSING and I.truth(I.eq(cur, kx)):
                group.append(x)
            else:
                if cur is not MISSING:
                    yield (cur, LazyIter(group))
                cur, group = kx, [x]
        if cur is not MISSING:
            yield (cur, LazyIter(group))
    return LazyIter(gen())


def it_islice(I, a, k):
    return LazyIter(itertools.islice(I.iter(a[0]), *[I.path.pick(x) for x in a[1:]]))


def it_accumulate(I, a, k):
    f = a[1] if len(a) > 1 else k.get("func")

    def gen():
        import ast
        acc = k.get("initial", MISSING)
        if acc is not MISSING:
            yield acc
        for x in I.iter(a[0]):
            acc = x if acc is MISSING else (I.call(f, [acc, x], {}) if f else I.binop(ast.Add(), acc, x))
            yield acc
    return LazyIter(gen())


def it_zip_longest(I, a, k):
    return LazyIter(itertools.zip_longest(*[I.iter(x) for x in a], fillvalue=k.get("fillvalue")))


def it_pred(which):
    def f(I, a, k):
        p = (lambda x: I.truth(I.call(a[0], [x], {}) if a[0] is not None else x))
        return LazyIter(getattr(itertools, which)(p, I.iter(a[1])))
    return f


def it_simple(name):
    def f(I, a, k):
        return LazyIter(getattr(itertools, name)(*[I.iter(x) if isinstance(x, (list, tuple, LazyIter, str, Term, ASet, dict)) else x for x in a], **k))
    return f


def it_tee(I, a, k):
    xs = I.iterate(a[0])
    return tuple(LazyIter(list(xs)) for _ in range(a[1] if len(a) > 1 else 2))


def it_starmap(I, a, k):
    return LazyIter(I.call(a[0], I.iterate(x), {}) for x in I.iter(a[1]))


def op_fn(name, node):
    import ast

    def f(I, a, k):
        return I.binop(node(), a[0], a[1])
    return Native(name, f)


def op_attrgetter(I, a, k):
    def get(I2, a2, k2):
        def one(path):
            v = a2[0]
            for p in path.split("."):
                v = I2.getattr(v, p)
            return v
        return one(a[0]) if len(a) == 1 else tuple(one(p) for p in a)
    return Native("attrgetter", get)


def op_itemgetter(I, a, k):
    return Native("itemgetter", lambda I2, a2, k2: I2.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I2.getitem(a2[0], x) for x in a))


def op_methodcaller(I, a, k):
    return Native("methodcaller", lambda I2, a2, k2: I2.call(I2.getattr(a2[0], a[0]), list(a[1:]), k))


def make_operator():
    import ast
    ns = {"add": op_fn("add", ast.Add), "concat": op_fn("concat", ast.Add), "sub": op_fn("sub", ast.Sub), "mul": op_fn("mul", ast.Mult),
          "mod": op_fn("mod", ast.Mod), "or_": op_fn("or_", ast.BitOr), "and_": op_fn("and_", ast.BitAnd),
          "attrgetter": Native("attrgetter", op_attrgetter), "itemgetter": Native("itemgetter", op_itemgetter),
          "methodcaller": Native("methodcaller", op_methodcaller)}
    for n, o in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE),
                 ("is_", ast.Is), ("is_not", ast.IsNot)):
        ns[n] = Native(n, lambda I, a, k, o=o: I.compare(o(), a[0], a[1]))
    ns["contains"] = Native("contains", lambda I, a, k: I.contains(a[0], a[1]))
    ns["not_"] = Native("not_", lambda I, a, k: not I.truth(a[0]))
    ns["truth"] = Native("truth", lambda I, a, k: I.truth(a[0]))
    ns["getitem"] = Native("getitem", lambda I, a, k: I.getitem(a[0], a[1]))
    return ns


class DDict(dict):
    """collections.defaultdict and Counter."""
    factory = None
    counter = False

    __hash__ = object.__hash__


def c_defaultdict(I, a, k):
    d = DDict()
    d.factory = a[0] if a else None
    if len(a) > 1:
        dict_method(I, d, "update", [a[1]], {})
    for x, y in k.items():
        d[x] = y
    return d


def c_counter(I, a, k):
    d = DDict()
    d.counter = True
    if a and isinstance(a[0], dict):
        d.update(a[0])
    elif a:
        counter_add(I, d, a[0], 1)
    return d


def counter_add(I, d, it, sign):
    for x in I.iterate(it):
        v = I.dict_find(d, x)
        I.setitem(d, x, I.binop(ast.Add() if sign > 0 else ast.Sub(), 0 if v is MISSING else v, 1))


def dict_missing(I, d, k):
    """What d[k] gives for an absent key of a subclass of dict."""
    if d.counter:
        return 0
    if d.factory is None:
        raise PyExc(KeyError(k))
    v = I.call(d.factory, [], {})
    I.setitem(d, k, v)
    return v


class KeysL(list):
    """The keys of a dict: a list with the operators of a set."""


class DequeL(list):
    """collections.deque"""
    maxlen = None

    __hash__ = object.__hash__


def c_deque(I, a, k):
    d = DequeL(I.iterate(a[0]) if a else ())
    d.maxlen = a[1] if len(a) > 1 else k.get("maxlen")
    deque_trim(d)
    return d


def deque_trim(d, left=True):
    if d.maxlen is not None and len(d) > d.maxlen:
        if left:
            del d[:len(d) - d.maxlen]
        else:
            del d[d.maxlen:]


def deque_method(I, l, name, a, k):
    if name == "maxlen":
        return l.maxlen
    if name in ("appendleft", "extendleft", "popleft", "rotate"):
        I.touch(l, name)
        if name == "popleft":
            if not l:
                raise PyExc(IndexError("pop from an empty deque"))
            return l.pop(0)
        if name == "rotate":
            n = a[0] if a else 1
            if l:
                n %= len(l)
                l[:] = l[-n:] + l[:-n] if n else l[:]
            return None
        for x in ([a[0]] if name == "appendleft" else I.iterate(a[0])):
            if id(l) in I.shared_ids:
                I._share(x, I.shared_ids[id(l)])
            l.insert(0, x)
            deque_trim(l, False)
        return None
    if name == "sort":
        raise PyExc(AttributeError("'deque' object has no attribute 'sort'"))
    if name == "copy":
        r = DequeL(l)
        r.maxlen = l.maxlen
        return r
    if name == "pop" and not l:
        raise PyExc(IndexError("pop from an empty deque"))
    r = list_method(I, l, name, a, k, True)
    deque_trim(l)
    return r


def c_namedtuple(I, a, k):
    names = a[1].replace(",", " ").split() if isinstance(a[1], str) else list(a[1])
    c = Cls(a[0], [], {}, I)
    c.namedtuple = True
    ds = list(k.get("defaults") or [])
    c.fields = [(n, ds[i - (len(names) - len(ds))] if i >= len(names) - len(ds) else MISSING) for i, n in enumerate(names)]
    return c


def u_normalize(I, a, k):
    return I.native(lambda s, f: unicodedata.normalize(f, s), [a[1], a[0]], "unicodedata.normalize:" + str(a[0]))


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        r = memo[id(v)] = type(v)()
        r.__dict__.update(v.__dict__) if isinstance(v, DequeL) else None
        r.extend(deepcopy(I, x, memo) for x in v)
        return r
    if isinstance(v, dict):
        r = memo[id(v)] = type(v)()
        r.__dict__.update(v.__dict__) if isinstance(v, DDict) else None
        r.update({k: deepcopy(I, x, memo) for k, x in v.items()})
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, ASet):
        return ASet([deepcopy(I, x, memo) for x in v.items], v.frozen)
    if isinstance(v, Obj):
        r = memo[id(v)] = Obj(v.cls, I)
        r.attrs = {k: deepcopy(I, x, memo) for k, x in v.attrs.items()}
        r.data = deepcopy(I, v.data, memo)
        return r
    if isinstance(v, (DNode, DMap, LazyIter)):
        raise Unsupported("deepcopy of %r" % (v,))
    return v


def copy1(I, v):
    if isinstance(v, DequeL):
        return deque_method(I, v, "copy", [], {})
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        r = type(v)(v)
        r.__dict__.update(v.__dict__) if isinstance(v, DDict) else None
        return r
    if isinstance(v, ASet):
        return ASet(v.items, v.frozen)
    if isinstance(v, Obj):
        r = Obj(v.cls, I)
        r.attrs = dict(v.attrs)
        r.data = copy1(I, v.data)
        return r
    return v


class NullCM:
    """Locks and the like."""

    def sa_getattr(self, I, n):
        if n in ("__enter__", "acquire", "__exit__", "release", "locked"):
            return Native(n, lambda I2, a, k: True if n == "acquire" else (self if n == "__enter__" else None))
        raise PyExc(AttributeError(n))


class LocalV:
    """threading.local: shared by all conversions of a thread."""
    gen = 0

    def __init__(self):
        self.ns = {}
        self.name = "threading.local"

    def sa_getattr(self, I, n):
        if n in self.ns:
            return self.ns[n]
        raise PyExc(AttributeError(n))

    def sa_setattr(self, I, n, v):
        if I.on_event is not None:
            I.on_event()
        old = self.ns.get(n, MISSING)
        I.journal.append((self.ns, n, old))
        I.events.append({"kind": "attr", "how": "assignment", "what": "threading.local.%s" % n, "where": I.where(), "detail": (n, v),
                         "loc": (id(self), n), "first": old is MISSING, "old": old, "thread_local": True})
        I._share(v, "threading.local." + n)
        self.ns[n] = v


class AmbientModule:
    def __init__(self, name):
        self.name = name

    def sa_getattr(self, I, n):
        full = "%s.%s" % (self.name, n)
        if full in ("sys.maxsize", "sys.version_info", "os.sep", "os.linesep", "os.path", "sys.version", "sys.platform", "os.name"):
            if full == "sys.version_info":
                return (3, 12, 3, "final", 0)
            if full == "sys.maxsize":
                return 2 ** 63 - 1
            if full == "os.path":
                return AmbientModule("os.path")
        if full in ("logging.getLogger",):
            return Native(full, lambda I2, a, k: LoggerV())
        if full in ("sys.setrecursionlimit", "sys.getrecursionlimit"):
            def rl(I2, a, k):
                if I2.gen > 0:
                    effect(I2, full)
                return 1000
            return Native(full, rl)
        if full == "os.environ":
            if I.gen > 0:
                effect(I, "os.environ")
            else:
                I.effects.append({"effect": "os.environ read at import", "where": I.where(), "soft": False})
            return EnvironV()
        if full in ("os.getenv",):
            def ge(I2, a, k):
                effect(I2, full)
                return a[1] if len(a) > 1 else k.get("default")
            return Native(full, ge)
        if n and n[0].isupper() and self.name in ("logging", "warnings", "os", "io", "inspect"):
            return Absorb(full)
        if self.name in ("logging", "warnings") and n in ("debug", "info", "warning", "error", "exception", "warn", "critical", "log"):
            def lg(I2, a, k):
                effect(I2, full, soft=n in ("debug", "info"))
            return Native(full, lg)

        def use(I2, a, k):
            effect(I2, full)
            if full in ("time.time", "time.monotonic", "time.perf_counter", "time.time_ns", "time.process_time"):
                return I2.path.apply("int", int, [Hole("clock%d" % next(I2.path.fresh), ["11", "27", "1700000003"], closed=True, note="identity")])
            if full in ("random.random", "random.randint", "random.randrange", "random.getrandbits"):
                return I2.path.apply("int", int, [Hole("random%d" % next(I2.path.fresh), ["0", "1", "2", "7"], closed=True, note="identity")])
            if full == "random.choice":
                xs = I2.iterate(a[0])
                return xs[I2.path.choose(len(xs))]
            if full in ("random.shuffle", "random.seed", "time.sleep", "gc.collect", "locale.setlocale", "sys.setswitchinterval",
                        "sys.stdout.write", "sys.stderr.write"):
                return None
            if full == "sys.intern":
                return a[0]
            raise Unsupported("call of %s" % full)
        if full == "sys.intern":
            return Native(full, lambda I2, a, k: a[0])
        return AmbientAttr(full, use)


class AmbientAttr:
    def __init__(self, name, use):
        self.name, self.use = name, use

    def sa_call(self, I, a, k):
        return self.use(I, a, k)

    def sa_getattr(self, I, n):
        if I.gen > 0:
            effect(I, self.name + "." + n)
        def use(I2, a, k):
            effect(I2, self.name + "." + n)
            if n in ("write", "flush", "writelines"):
                return None
            raise Unsupported("call of %s.%s" % (self.name, n))
        return AmbientAttr(self.name + "." + n, use)


class EnvironV:
    def sa_getattr(self, I, n):
        if n == "get":
            def get(I2, a, k):
                effect(I2, "os.environ.get")
                return a[1] if len(a) > 1 else k.get("default")
            return Native("os.environ.get", get)
        raise Unsupported("os.environ." + n)

    def sa_getitem(self, I, k):
        effect(I, "os.environ[...]")
        raise PyExc(KeyError(k))

    def sa_contains(self, I, k):
        effect(I, "in os.environ")
        return False


class LoggerV:
    def sa_getattr(self, I, n):
        if n in ("addHandler", "setLevel", "propagate", "isEnabledFor"):
            return Native(n, lambda I2, a, k: False)

        def log(I2, a, k):
            effect(I2, "logging." + n, soft=n in ("debug", "info"))
        return Native("logger." + n, log)


class NSModule:
    """A modelled standard module."""

    def __init__(self, name, ns):
        self.name = name
        self.ns = ns

    def sa_getattr(self, I, n):
        if n in self.ns:
            return self.ns[n]
        try:
            if not hasattr(importlib.import_module(self.name), n):
                raise PyExc(AttributeError("module %r has no attribute %r" % (self.name, n)))
        except ImportError:
            pass
        return Unmodelled("%s.%s" % (self.name, n))


class UnmodelledModule:
    def __init__(self, name):
        self.name = name

    def sa_getattr(self, I, n):
        return Unmodelled("%s.%s" % (self.name, n))


class AbsorbModule:
    def __init__(self, name):
        self.name = name

    def sa_getattr(self, I, n):
        if n == "TYPE_CHECKING":
            return False
        if n == "NamedTuple":
            return Absorb("NamedTuple")
        if n == "cast":
            return Absorb("cast")
        return Absorb(n)


def parse_string(I, a, k):
    I.parse_args.append(a[0] if a else k.get("string"))
    if len(a) > 1 and a[1] is not None or k.get("parser") is not None:
        effect(I, "an XML parser of its own")
    if I.parse_oracle is None:
        raise Unsupported("parseString")
    if len(I.parse_args) > 64:
        raise BudgetExceeded("%s: parsing again and again" % I.where())
    return I.parse_oracle(I, a[0] if a else k.get("string"))


class StringIOV:
    def __init__(self, init=""):
        self.buf = [init] if init else []

    def sa_getattr(self, I, n):
        fs = {"write": lambda I, a, k: self.buf.append(a[0]), "getvalue": lambda I, a, k: cat(*self.buf), "close": lambda I, a, k: None,
              "__enter__": lambda I, a, k: self, "__exit__": lambda I, a, k: None,
              "writelines": lambda I, a, k: self.buf.extend(I.iterate(a[0]))}
        if n in fs:
            return Native(n, fs[n])
        raise Unsupported("StringIO." + n)


class NativeModules:
    def __init__(self):
        self.cache = {}

    def get(self, I, name):
        if name in self.cache:
            return self.cache[name]
        m = self.make(I, name)
        self.cache[name] = m
        return m

    def make(self, I, name):
        if name in ("typing", "typing_extensions", "collections.abc", "types", "__future__"):
            if name == "types":
                return NSModule(name, {"MappingProxyType": Native("MappingProxyType", lambda I, a, k: a[0]),
                                       "SimpleNamespace": Native("SimpleNamespace", simple_namespace),
                                       "FunctionType": Absorb("FunctionType"), "MethodType": Absorb("MethodType")})
            return AbsorbModule(name)
        if name == "abc":
            abc = Cls("ABC", [], {}, I)
            def absm(I2, a, k):
                f = a[0]
                g = f.fget if isinstance(f, PropV) else (f.f if isinstance(f, (StaticV, ClassV)) else f)
                if isinstance(g, Func):
                    g.attrs["__isabstractmethod__"] = True
                return f
            return NSModule(name, {"ABC": abc, "abstractmethod": Native("abstractmethod", absm), "ABCMeta": Absorb("ABCMeta"),
                                   "abstractproperty": Native("abstractproperty", lambda I2, a, k: PropV(a[0]))})
        if name == "re":
            return NSModule(name, make_re())
        if name == "dataclasses":
            return NSModule(name, {"dataclass": Native("dataclass", dataclass_deco), "field": Native("field", f_field),
                                   "replace": Native("replace", f_replace), "asdict": Native("asdict", f_asdict),
                                   "astuple": Native("astuple", lambda I, a, k: tuple(a[0].attrs[n] for n, _ in a[0].cls.fields)),
                                   "fields": Native("fields", lambda I, a, k: tuple(simple_namespace(I, [], {"name": n}) for n, _ in a[0].fields)),
                                   "KW_ONLY": Absorb("KW_ONLY"), "InitVar": Absorb("InitVar")})
        if name == "enum":
            def mk(n, bases):
                c = Cls(n, bases, {}, I)
                c.enum = []
                return c
            return NSModule(name, {"Enum": mk("Enum", []), "IntEnum": mk("IntEnum", [int]), "StrEnum": mk("StrEnum", [str]),
                                   "Flag": mk("Flag", [int]), "auto": Absorb("auto"), "unique": Native("unique", lambda I, a, k: a[0])})
        if name == "functools":
            return NSModule(name, {"lru_cache": Native("lru_cache", f_lru_cache), "cache": Native("cache", f_lru_cache),
                                   "cached_property": Native("cached_property", f_cached_property),
                                   "partial": Native("partial", f_partial), "reduce": Native("reduce", f_reduce),
                                   "wraps": Native("wraps", f_wraps), "singledispatch": Native("singledispatch", f_singledispatch),
                                   "singledispatchmethod": Native("singledispatchmethod", f_singledispatchmethod),
                                   "partialmethod": Native("partialmethod", f_partialmethod),
                                   "total_ordering": Native("total_ordering", f_total_ordering)})
        if name == "itertools":
            chain = Native("chain", it_chain)
            chain.attrs = {"from_iterable": Native("from_iterable", it_chain_from)}
            ns = {"chain": chain, "repeat": Native("repeat", it_repeat), "groupby": Native("groupby", it_groupby),
                  "islice": Native("islice", it_islice), "accumulate": Native("accumulate", it_accumulate),
                  "zip_longest": Native("zip_longest", it_zip_longest), "tee": Native("tee", it_tee),
                  "starmap": Native("starmap", it_starmap)}
            for n in ("takewhile", "dropwhile", "filterfalse"):
                ns[n] = Native(n, it_pred(n))
            for n in ("count", "cycle", "product", "pairwise", "combinations", "permutations", "compress"):
                ns[n] = Native(n, it_simple(n))
            return NSModule(name, ns)
        if name == "operator":
            return NSModule(name, make_operator())
        if name == "collections":
            m = NSModule(name, {"defaultdict": Native("defaultdict", c_defaultdict),
                                "OrderedDict": dict, "Counter": Native("Counter", c_counter),
                                "deque": Native("deque", c_deque),
                                "namedtuple": Native("namedtuple", c_namedtuple), "abc": AbsorbModule("collections.abc"),
                                "ChainMap": Native("ChainMap", chain_map)})
            return m
        if name == "unicodedata":
            ns = {"normalize": Native("normalize", u_normalize)}
            for n in ("category", "name", "combining", "decomposition", "numeric", "digit", "decimal", "lookup", "bidirectional", "east_asian_width", "mirrored"):
                ns[n] = nat("unicodedata." + n, getattr(unicodedata, n))
            return NSModule(name, ns)
        if name == "string":
            ns = {n: getattr(string, n) for n in dir(string) if n.islower() and isinstance(getattr(string, n), str)}
            ns["Template"] = Native("Template", lambda I2, a, k: TemplateV((list(a) + [k.get("template")])[0]))
            ns["capwords"] = Native("capwords", lambda I2, a, k: I2.native(string.capwords, list(a), "capwords"))
            return NSModule(name, ns)
        if name == "html":
            return NSModule(name, {"escape": nat("html.escape", html.escape), "unescape": nat("html.unescape", html.unescape),
                                   "entities": NSModule("html.entities", {})})
        if name == "html.entities":
            import html.entities as he
            return NSModule(name, {n: getattr(he, n) for n in ("html5", "name2codepoint", "codepoint2name", "entitydefs")})
        if name == "textwrap":
            return NSModule(name, {"dedent": nat("dedent", textwrap.dedent)})
        if name == "math":
            return NSModule(name, {n: (nat("math." + n, getattr(math, n)) if callable(getattr(math, n)) else getattr(math, n))
                                   for n in dir(math) if not n.startswith("_")})
        if name == "copy":
            return NSModule(name, {"copy": Native("copy", lambda I, a, k: copy1(I, a[0])),
                                   "deepcopy": Native("deepcopy", lambda I, a, k: deepcopy(I, a[0]))})
        if name == "contextlib":
            return NSModule(name, {"suppress": Native("suppress", lambda I, a, k: SuppressV(a)),
                                   "contextmanager": Native("contextmanager", unsupported("contextmanager")),
                                   "nullcontext": Native("nullcontext", lambda I, a, k: NullCM())})
        if name == "threading":
            return NSModule(name, {"Lock": Native("Lock", lambda I, a, k: NullCM()), "RLock": Native("RLock", lambda I, a, k: NullCM()),
                                   "local": Native("local", lambda I, a, k: LocalV()),
                                   "Thread": Native("Thread", ambient_builtin("threading.Thread"))})
        if name == "weakref":
            return NSModule(name, {"WeakKeyDictionary": Native("WeakKeyDictionary", lambda I, a, k: {}),
                                   "WeakValueDictionary": Native("WeakValueDictionary", lambda I, a, k: {})})
        if name == "io":
            return IOModule()
        if name in ("xml", "xml.dom"):
            m = NSModule(name, {"Node": DNODE_TYPE})
            if name == "xml":
                m.ns["dom"] = self.get(I, "xml.dom")
                m.ns["parsers"] = self.get(I, "xml.parsers")
            else:
                m.ns["minidom"] = self.get(I, "xml.dom.minidom")
            return m
        if name == "xml.dom.minidom":
            return NSModule(name, {"parseString": Native("parseString", parse_string), "Element": DTYPES[1], "Node": DNODE_TYPE,
                                   "Text": DTYPES[3], "CDATASection": DTYPES[4], "Comment": DTYPES[8], "Document": DTYPES[9],
                                   "Attr": DTYPES[2], "NamedNodeMap": DType("NamedNodeMap", None),
                                   "parse": Native("parse", ambient_builtin("xml.dom.minidom.parse"))})
        if name == "xml.parsers":
            return NSModule(name, {"expat": self.get(I, "xml.parsers.expat")})
        if name == "xml.parsers.expat":
            import xml.parsers.expat as xe
            return NSModule(name, {"ExpatError": ExpatError, "error": ExpatError,
                                   "errors": NSModule("errors", {n: getattr(xe.errors, n) for n in dir(xe.errors) if not n.startswith("_")}),
                                   "ErrorString": nat("ErrorString", xe.ErrorString)})
        if name == "xml.parsers.expat.errors":
            import xml.parsers.expat as xe
            return NSModule(name, {n: getattr(xe.errors, n) for n in dir(xe.errors) if not n.startswith("_")})
        if name == "xml.sax.saxutils":
            import xml.sax.saxutils as xs
            return NSModule(name, {"escape": nat("saxutils.escape", xs.escape), "unescape": nat("saxutils.unescape", xs.unescape)})
        if name == "keyword":
            import keyword
            return NSModule(name, {"iskeyword": nat("iskeyword", keyword.iskeyword)})
        if name.split(".")[0] in AMBIENT:
            I.ambient_imports.append((name, I.where()))
            return AmbientModule(name)
        if importlib.util.find_spec(name.split(".")[0]) is None:
            raise PyExc(ModuleNotFoundError("No module named %r" % name))
        return UnmodelledModule(name)

    # ---------------------------------------------------------------------------- attributes of native values
    def get_attr(self, I, o, name):
        f = getattr(o, "sa_getattr", None)
        if f is not None:
            return f(I, name)
        if is_str(o):
            if name in STR_METHODS:
                return MethodV(o, name)
            if name == "__class__":
                return str
            if hasattr(str, name) and callable(getattr(str, name)):
                return MethodV(o, name)
            no_method(str, name)
        if isinstance(o, Term):
            if o.kind == "list":
                if name in ("index", "count"):
                    return MethodV(o, name)
                if name in ("append", "extend", "pop", "insert", "sort", "reverse", "copy", "remove"):
                    raise Unsupported("mutation of a list of unknown length")
            if o.kind == "int":
                no_method(int, name)
            if o.kind == "any":
                return self.any_attr(I, o, name)
            raise Unsupported("attribute %s of %s" % (name, show(o)))
        if isinstance(o, DequeL) and name == "maxlen":
            return o.maxlen
        if isinstance(o, (list, dict, ASet, tuple)):
            t = {list: list, dict: collections.OrderedDict, ASet: set, tuple: tuple, DequeL: collections.deque, KeysL: type({}.keys()),
                 DDict: collections.Counter if getattr(o, "counter", False) else collections.OrderedDict}.get(type(o), type(o))
            if name == "__class__":
                return I.type_of(o)
            if hasattr(t, name) and callable(getattr(t, name)):
                return MethodV(o, name)
            no_method(t, name)
        if isinstance(o, type):
            if name in ("__name__", "__qualname__"):
                return o.__name__
            if o is str:
                if name == "maketrans":
                    return Native("str.maketrans", lambda I2, a, k: str.maketrans(*a))
                if hasattr(str, name) and callable(getattr(str, name)) and name not in ("__new__", "__init__", "__class__"):
                    return Native("str." + name, lambda I2, a, k: self.call_method(I2, a[0], name, a[1:], k))
            if o is dict and name == "fromkeys":
                return Native("dict.fromkeys", lambda I2, a, k: dict_fromkeys(I2, a))
            if o in (list, dict, set, tuple, frozenset) and hasattr(o, name):
                return Native(o.__name__ + "." + name, lambda I2, a, k: self.call_method(I2, a[0], name, a[1:], k))
            if o is object and name in ("__new__", "__init__", "__setattr__", "__getattribute__"):
                def objf(I2, a, k):
                    if name == "__new__":
                        return I2.blank(a[0], a[1:])
                    if name == "__setattr__":
                        I2.touch_attr(a[0], a[1], a[2], a[0].attrs)
                        a[0].attrs[a[1]] = a[2]
                        return None
                    if name == "__getattribute__":
                        return I2.getattr(a[0], a[1])
                    return None
                return Native("object." + name, objf)
            if issubclass(o, BaseException) and name == "__init__":
                def exinit(I2, a, k):
                    if isinstance(a[0], Obj):
                        a[0].attrs["args"] = tuple(a[1:])
                return Native("__init__", exinit)
            if hasattr(o, name):
                raise Unsupported("%s.%s" % (o.__name__, name))
            raise PyExc(AttributeError("type object %r has no attribute %r" % (o.__name__, name)))
        if isinstance(o, BaseException):
            if name == "__class__":
                return type(o)
            if name == "with_traceback":
                return Native(name, lambda I2, a, k: o)
            if name == "add_note":
                return Native(name, lambda I2, a, k: None)
            if name in ("__traceback__", "__cause__", "__context__"):
                return None
            d = o.__dict__
            if name in d:
                return d[name]
            if hasattr(o, name) and not callable(getattr(o, name)):
                return getattr(o, name)
            if hasattr(o, name):
                raise Unsupported("%s of an exception" % name)
            raise PyExc(AttributeError("%r object has no attribute %r" % (type(o).__name__, name)))
        if isinstance(o, chars.CharMatch):
            if name == "string":
                return cat(*o.ps)
            if not hasattr(o.m, name):
                raise PyExc(AttributeError("'re.Match' object has no attribute %r" % name))
            return MethodV(o, name) if callable(getattr(o.m, name)) else getattr(o.m, name)
        if isinstance(o, (re.Pattern, re.Match)):
            if hasattr(o, name):
                v = getattr(o, name)
                if callable(v):
                    return MethodV(o, name)
                return v
            raise PyExc(AttributeError(name))
        if isinstance(o, (int, float)) or o is None:
            if o is None and hasattr(o, name):
                raise Unsupported("None.%s" % name)
            if o is not None and hasattr(o, name):
                v = getattr(o, name)
                if callable(v):
                    return Native(name, lambda I2, a, k: v(*a))
                return v
            raise PyExc(AttributeError("%r object has no attribute %r" % (type(o).__name__, name)))
        if isinstance(o, LazyIter):
            if name == "__next__":
                return Native("__next__", lambda I2, a, k: b_next(I2, [o], {}))
            if name in ("close",):
                return Native("close", lambda I2, a, k: None)
            raise Unsupported("%s of an iterator" % name)
        if isinstance(o, MethodV) and name == "__name__":
            return o.name
        if isinstance(o, range):
            return getattr(o, name)
        raise Unsupported("attribute %s of %r" % (name, type(o).__name__))

    def any_attr(self, I, o, name):
        """Attribute of a term whose values are objects (table entries, matches)."""
        objs = [v for _, v in I.path.evals(o.holes, o)]
        first = objs[0]
        if any(v is None for v in objs):
            isn = Term("is_none", lambda x: x is None, (o,), "bool")
            if I.path.truth(isn):
                raise PyExc(AttributeError("'NoneType' object has no attribute %r" % name))
            return self.any_attr(I, o, name)
        if all(isinstance(v, Obj) for v in objs):
            vals = objs
            if all(name in v.attrs and not isinstance(v.cls.lookup(name)[0], PropV) for v in vals):
                return I.path.apply("." + name, lambda x: x.attrs[name], [o], hint=False)
            return I.getattr(I.path.pick(o), name)
        if isinstance(first, re.Match):
            v = getattr(first, name)
            if callable(v):
                return MethodV(o, name)
            return I.path.apply("." + name, lambda x: getattr(x, name), [o], hint=False)
        v = I.path.pick(o)
        return I.getattr(v, name)

    def dict_missing(self, I, d, k):
        return dict_missing(I, d, k)

    def call_method(self, I, o, name, a, k):
        if name.startswith("__") and (is_str(o) or isinstance(o, (list, dict, ASet, tuple))):
            if isinstance(o, Obj) or not hasattr({ASet: set}.get(type(o), str if is_str(o) else type(o)), name):
                raise PyExc(AttributeError("%r object has no attribute %r" % (type(o).__name__, name)))
            try:
                r = dunder(I, o, name, a)
            except IndexError:
                raise PyExc(TypeError("%s expected an argument" % name))
            if r is not NotImplemented:
                return r
            raise Unsupported("%s of %s" % (name, type(o).__name__))
        if is_str(o):
            return str_method(I, o, name, a, k)
        if isinstance(o, list):
            return list_method(I, o, name, a, k)
        if isinstance(o, dict):
            return dict_method(I, o, name, a, k)
        if isinstance(o, ASet):
            return set_method(I, o, name, a, k)
        if isinstance(o, tuple):
            return list_method(I, list(o), name, a, k)
        if isinstance(o, re.Pattern):
            if name in PATTERN_METHODS:
                return re_call(I, o, name, a, k)
            raise Unsupported("Pattern." + name)
        if isinstance(o, chars.CharMatch):
            ks = dict(k)
            a = [I.path.pick(x) for x in a]
            try:
                if name == "group":
                    return o.group(*a)
                if name == "groups":
                    return o.groups(*a, **ks)
                if name == "groupdict":
                    return {n: o.group(n) for n in o.m.re.groupindex}
                if name in ("start", "end", "span"):
                    return getattr(o.m, name)(*a)
                if name == "expand":
                    return chars.expand(o.m, o.ps, a[0])
                if name == "__getitem__":
                    return o.group(*a)
            except (IndexError, TypeError, re.error) as e:
                raise PyExc(e)
        if isinstance(o, re.Match):
            return I.native(lambda *x: getattr(o, name)(*x), a, "Match." + name)
        if isinstance(o, Term) and o.kind == "any":
            return I.native(lambda m, *x: getattr(m, name)(*x), [o] + a, "Match." + name)
        if isinstance(o, Term) and o.kind == "list":
            return I.native(lambda m, *x: getattr(m, name)(*x), [o] + a, "list." + name)
        raise Unsupported("method %s of %r" % (name, type(o).__name__))

    def call_type(self, I, t, a, k):
        if t is str:
            if not a:
                return ""
            return I.to_str(a[0])
        if t in (list, tuple):
            xs = a[0] if a else []
            if isinstance(xs, Term) and xs.kind == "list" and t is list:
                return list(I.path.items(xs))
            r = I.iterate(xs)
            return r if t is list else tuple(r)
        if t is dict:
            d = {}
            if a:
                src = a[0]
                if isinstance(src, dict) or (isinstance(src, Obj) and src.data is not None):
                    d.update(src if isinstance(src, dict) else src.data)
                else:
                    for x in I.iter(src):
                        kv = I.iterate(x)
                        if len(kv) != 2:
                            raise PyExc(ValueError("dictionary update sequence element has wrong length"))
                        I.raw_setitem(d, kv[0], kv[1])
            d.update(k)
            return d
        if t in (set, frozenset):
            return I.make_set(I.iterate(a[0]) if a else [], t is frozenset)
        if t is bool:
            return I.truth(a[0]) if a else False
        if t is int:
            if not a:
                return 0
            if isinstance(a[0], bool):
                return int(a[0])
            if isinstance(a[0], Obj):
                raise PyExc(TypeError("int() argument"))
            return I.native(int, a, "int")
        if t is float:
            return I.native(float, a, "float")
        if t is range:
            try:
                return range(*[I.path.pick(x) for x in a])
            except TypeError as e:
                raise PyExc(e)
        if t is object:
            return Obj(Cls("object", [], {}, I), I)
        if t is slice:
            return slice(*[I.path.pick(x) for x in a])
        if t is type:
            return b_type(I, a, k)
        if t is ExpatError:
            return ExpatError(*a)
        if issubclass(t, BaseException):
            try:
                return t(*a)
            except TypeError:
                raise Unsupported("construction of %s" % t.__name__)
        raise Unsupported("construction of %s" % t.__name__)


class IOModule:
    name = "io"

    def sa_getattr(self, I, n):
        if n == "StringIO":
            return Native("StringIO", lambda I2, a, k: StringIOV(a[0] if a else ""))
        return AmbientModule("io").sa_getattr(I, n)


class SuppressV:
    def __init__(self, types):
        self.types = tuple(types)

    def sa_getattr(self, I, n):
        if n == "__enter__":
            return Native(n, lambda I2, a, k: self)
        if n == "__exit__":
            return Native(n, lambda I2, a, k: a[1] is not None and I2.isinstance(a[1], self.types))
        raise PyExc(AttributeError(n))


def dict_fromkeys(I, a):
    d = {}
    for x in I.iterate(a[0]):
        I.raw_setitem(d, x, a[1] if len(a) > 1 else None)
    return d


def simple_namespace(I, a, k):
    o = Obj(Cls("SimpleNamespace", [], {}, I), I)
    o.attrs.update(k)
    return o


def chain_map(I, a, k):
    d = {}
    for m in reversed(a):
        d.update(m)
    return d


def unsupported(name):
    def f(I, a, k):
        raise Unsupported(name)
    return f
