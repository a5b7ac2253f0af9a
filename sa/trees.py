"""Abstract documents: element trees whose names, texts and attribute values may be terms."""
from xml.parsers.expat import ExpatError

from .terms import Term, Hole, Cat, cat, show, is_str
from .interp import PyExc
from .lib import DNode, DAttr, DMap


class El:
    def __init__(self, tag, *kids, **attrs):
        self.tag = tag
        self.kids = list(kids)          # El, str/Term (text), or (kind, value) for cdata, comment, pi
        self.attrs = {k.rstrip("_"): v for k, v in attrs.items()}
        self.dom = None

    def with_attrs(self, d):
        self.attrs.update(d)
        return self

    @property
    def els(self):
        return [k for k in self.kids if isinstance(k, El)]

    @property
    def text(self):
        """The text of an element without child elements (before trimming)."""
        if self.els:
            return ""
        out = []
        for k in self.kids:
            if isinstance(k, tuple):
                if k[0] == "cdata":
                    out.append(k[1])
            else:
                out.append(k)
        return cat(*out)

    def walk(self):
        yield self
        for c in self.els:
            yield from c.walk()

    def xml(self):
        a = "".join(' %s="%s"' % (k, esc(show(v), True)) for k, v in self.attrs.items())
        inner = ""
        for k in self.kids:
            if isinstance(k, El):
                inner += k.xml()
            elif isinstance(k, tuple):
                inner += {"cdata": "<![CDATA[%s]]>", "comment": "<!--%s-->", "pi": "<?pi %s?>"}[k[0]] % show(k[1])
            else:
                inner += esc(show(k))
        t = self.tag if isinstance(self.tag, str) else show(self.tag)
        return "<%s%s>%s</%s>" % (t, a, inner, t) if inner else "<%s%s/>" % (t, a)

    def concrete(self, env):
        """The XML text of this tree under an assignment of representatives."""
        from .terms import evaluate
        a = "".join(' %s="%s"' % (k, esc(evaluate(v, env), True)) for k, v in self.attrs.items())
        inner = ""
        for k in self.kids:
            if isinstance(k, El):
                inner += k.concrete(env)
            elif isinstance(k, tuple):
                inner += {"cdata": "<![CDATA[%s]]>", "comment": "<!--%s-->", "pi": "<?pi %s?>"}[k[0]] % evaluate(k[1], env)
            else:
                inner += esc(evaluate(k, env))
        t = evaluate(self.tag, env)
        return "<%s%s>%s</%s>" % (t, a, inner, t) if inner else "<%s%s/>" % (t, a)


def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace('"', "&quot;") if attr else s


def E(tag, *kids, **attrs):
    return El(tag, *kids, **attrs)


class Doc:
    """A document: its root element (and what stands before it)."""

    def __init__(self, root, before=()):
        self.root = root
        self.before = before

    def formulas(self):
        """Outermost math elements in document order."""
        out = []

        def rec(e):
            if e.tag == "math":
                out.append(e)
                return
            for c in e.els:
                rec(c)
        rec(self.root)
        return out


def build_dom(doc):
    d = DNode(9, "#document")
    for kind, v in doc.before:
        d.add(DNode(8 if kind == "comment" else 7, "#comment" if kind == "comment" else "pi", v))

    def build(e, parent):
        n = DNode(1, e.tag)
        n.attributes = DMap()
        n.ownerDocument = d
        e.dom = n
        parent.add(n)
        for k, v in e.attrs.items():
            a = DAttr(k, v)
            a.parentNode = n
            a.ownerDocument = d
            n.attributes.attrs.append(a)
        for k in e.kids:
            if isinstance(k, El):
                build(k, n)
            elif isinstance(k, tuple):
                if k[0] == "cdata":
                    n.add(DNode(4, "#cdata-section", k[1]))
                elif k[0] == "comment":
                    n.add(DNode(8, "#comment", k[1]))
                else:
                    n.add(DNode(7, "pi", k[1]))
            elif k != "":
                # the parser never makes two adjacent text nodes
                if n.childNodes and n.childNodes[-1].nodeType == 3:
                    n.childNodes[-1].nodeValue = cat(n.childNodes[-1].nodeValue, k)
                else:
                    n.add(DNode(3, "#text", k))
    build(doc.root, d)
    return d


def expat_error(code=4, lineno=1, offset=6, msg=None):
    import xml.parsers.expat.errors as xe
    e = ExpatError("%s: line %d, column %d" % (msg or xe.messages.get(code, "error"), lineno, offset))
    e.code = code
    e.lineno = lineno
    e.offset = offset
    return e
