"""Documents that together use every element, attribute, kind of text, failure and repair."""
import itertools

from .core import *
from .spec import VARIANTS, TEXT_VARIANTS, NOTATIONS, DOCUMENTED, INTERPRETED, ARITY, TOKENS
from . import checks_struct as cs


def words(name="t"):
    allv = set().union(*[set(v) for v in vocab().values()])
    return Hole(name, ["q", "zw", "k v"], ok=lambda s: s == " ".join(s.split()) and len(s) > 0 and s not in allv and not s.startswith("&#")
                and not (len(s) == 1 and ord(s) > 126) and not any(0xd800 <= ord(c) <= 0xdfff for c in s))


def elements(T=None):
    """[(label, element)]: one or more for every feature, each usable anywhere in a formula."""
    T = T or (lambda n="t": words(n))
    n = lambda x: E("mn", x)
    out = []
    for t in ("mi", "mo", "mn"):
        out += [("<%s> with a text" % t, E(t, T())), ("<%s> with a symbol" % t, E(t, "α")), ("empty <%s>" % t, E(t)), ("<%s> with a long text" % t, E(t, "quite a long text of many words")),
                ("<%s> with an operator" % t, E(t, "→"))]
    for v in VARIANTS:
        out.append(("<mi mathvariant=%s>" % v, E("mi", T(), mathvariant=v)))
    out.append(("<mi mathvariant=other>", E("mi", T(), mathvariant="other")))
    for v in [None] + list(TEXT_VARIANTS):
        out.append(("<mtext mathvariant=%s>" % v, E("mtext", "a→b 1", **({"mathvariant": v} if v else {}))))
    for t in ("mrow", "math", "mstyle", "mpadded", "foo", "msqrt", "merror", "mphantom", "mtd", "mtr"):
        out.append(("<%s>" % t, E(t, E("mi", T()), n("2"))))
        out.append(("empty <%s>" % t, E(t)))
    for t, (c, k) in ARITY.items():
        out.append(("<%s>" % t, E(t, *[E("mi", T()) if i == 0 else n(str(i)) for i in range(k)])))
        out.append(("<%s> with a row first" % t, E(t, *[E("mrow", E("mi", T()), n("1")) if i == 0 else n("q%d" % i) for i in range(k)])))
        out.append(("<%s> with one operand less" % t, E(t, *[n("w") for i in range(k - 1)])))
    out.append(("<mfrac bevelled>", E("mfrac", E("mi", T()), E("mrow", n("1"), n("2")), bevelled="true")))
    out.append(("<mover> accent", E("mover", E("mi", T()), E("mo", "^"))))
    out.append(("<munder> accent", E("munder", E("mi", T()), E("mo", "⏟"))))
    out.append(("<mmultiscripts> with prescripts", E("mmultiscripts", E("mi", T()), E("mprescripts"), n("1"), n("2"))))
    out.append(("<mmultiscripts> with all scripts", E("mmultiscripts", E("mi", T()), n("3"), n("4"), E("mprescripts"), n("1"), n("2"))))
    for a in ({}, {"open": "["}, {"close": "]"}, {"separators": ";"}, {"open": "{", "close": "", "separators": ""}, {"separators": ";|"}):
        out.append(("<mfenced %s>" % a, E("mfenced", E("mi", T()), n("2"), n("3")).with_attrs(dict(a))))
    table = lambda: E("mtable", E("mtr", E("mtd", E("mi", T())), E("mtd", n("1"))), E("mtr", E("mtd", n("2")), E("mtd", n("3"))))
    out.append(("<mtable>", table()))
    out.append(("<mtable> in <mtable>", E("mtable", E("mtr", E("mtd", table()), E("mtd", n("9"))))))
    out.append(("<mtable> beside <mtable>", E("mrow", table(), table())))
    for o, c in (("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("[", ")"), ("<", "<")):
        out.append(("<mfenced %s%s> around a table" % (o, c), E("mfenced", table(), open=o, close=c)))
    for v in list(NOTATIONS) + ["longdiv", "other", None]:
        out.append(("<menclose notation=%s>" % v, E("menclose", E("mi", T()), n("2"), **({"notation": v} if v else {}))))
    for v in ("toggle", "tooltip", None):
        out.append(("<maction actiontype=%s>" % v, E("maction", E("mi", T()), n("2"), **({"actiontype": v} if v else {}))))
    accents = lambda *ms: E("mrow", *[E("mo", m) for m in ms])
    out.append(("<mover> with several accents", E("mover", E("mi", T()), accents("^", "¯", "⏟"))))
    out.append(("<munder> with several accents", E("munder", E("mi", T()), accents("⏟", "⏞", "^", "¯"))))
    out.append(("several symbols", E("mrow", accents("α", "→", "+"), E("mi", "sin"), E("mo", "⟹ ∑"), E("mtext", "α→β"))))
    out.append(("several values in one attribute", E("mrow", E("menclose", E("mi", T()), notation="box circle top"), E("mi", "x", mathvariant="bold italic script"),
                                                     E("maction", n("1"), n("2"), actiontype="toggle tooltip"), E("mfenced", n("1"), n("2"), n("3"), n("4"), open="[ (", close=") ]", separators=", ; |"))))
    out.append(("<maction> without children", E("maction", actiontype="tooltip")))
    dressed = lambda x, k=0: E("mtable", E("mtr", E("mtd", x, align="l"), align="l"), E("mtr", E("mtd", n(str(k)), align="l"), align="l"), align="l")
    out.append(("<mtable> with attributes in one with the same", dressed(dressed(E("mi", T())))))
    out.append(("<mtable> with attributes beside one with the same", E("mrow", dressed(E("mi", T())), dressed(n("2")), align="l")))
    for t, (c, k) in ARITY.items():
        out.append(("<%s> and its operands with the same attributes" % t, E(t, *[E("mrow", n(str(i)), align="l") if i else E("mi", T(), align="l") for i in range(k)], align="l")))
    out.append(("elements with the same attributes in each other", E("mrow", E("menclose", E("mfenced", E("mstyle", E("mi", T(), id="a"), id="a"), E("mtable", E("mtr", E("mtd", n("1"), id="a"), id="a"), id="a"), id="a"), id="a"), E("mtext", "u", id="a"), E("mo", "+", id="a"), id="a")))
    out.append(("deep", E("mrow", E("mfrac", E("msqrt", E("msup", E("mi", T()), n("2"))), E("mfenced", E("mrow", n("1"), E("mo", "+"), n("2")))))))
    return out


def documents(T=None):
    out = [(l, Doc(e if e.tag == "math" else E("math", e))) for l, e in elements(T)]
    T = T or (lambda n="t": words(n))
    out.append(("no formula", Doc(E("div", E("p", "x")))))
    out.append(("two formulas", Doc(E("div", E("math", E("mi", T())), E("math", E("mn", "2"))))))
    out.append(("nested formulas", Doc(E("math", E("math", E("mi", T()))))))
    out.append(("a table in the second formula", Doc(E("div", E("math", E("mn", "1")), E("math", E("mtable", E("mtr", E("mtd", E("mi", T())))))))))
    return out


TEXTS = [("good text", "<math><mi>x</mi></math>"), ("prefixes", "<mml:math><mml:mi>x</mml:mi></mml:math>"), ("line breaks", "<math>\n<mi\r\nid=\"a\">x</mi>\r</math>"),
         ("one repair", "<math><mi checked>x</mi></math>"), ("several repairs", "<math a><mi b=c>x</mi><mo d=e f>+</mo></math>"), ("beyond repair", "<math><mi>x</math>"),
         ("beyond repair with attributes", "<math a><mi b=c>x</math>"), ("empty text", ""), ("no markup", "x"), ("wrong arity", "<math><mfrac><mi>x</mi></mfrac></math>"),
         ("wrong arity after a repair", "<math><mfrac a><mi>x</mi></mfrac></math>"), ("good text with the same attributes", "<math a=\"1\"><mi b=\"2\">x</mi></math>"),
         ("a nul", "<math>\x00</math>"), ("two roots", "<math/><math/>"), ("entity", "<math>&nbsp;</math>"), ("formulas", "<div><math><mi>a</mi></math><math b><mi>c</mi></math></div>")]


class Collector(Check):
    """Runs another check's enumeration and keeps its documents instead of analysing them."""

    def __init__(self, ck):
        Check.__init__(self, ck.pid, ck.tier, ck.seed, engine=ck.e)
        self.docs = {}

    def take(self, doc, label):
        if isinstance(doc, El):
            doc = Doc(doc)
        k = (xml_of(doc), tuple(h.name + repr(h.pool[:3]) for h in doc_holes(doc)), len(doc.before))
        if k not in self.docs:
            self.docs[k] = (label, doc)

    def expect(self, doc, label, key=None, variants=({},), entry="static", compare=None, attributable=None, spec=None):
        self.take(doc, label)

    def each(self, doc, label, judge, entry="static", key=None):
        self.take(doc, label)

    def partitions_of(self, label, run, limit=None):
        return iter(())

    def floor(self, n):
        pass


SOURCES = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C19", "C22", "C23", "C25", "C26")


def symbol_documents(ck):
    """Every token element with every symbol of the vocabulary and of the tables, and every letter-like character."""
    import unicodedata
    from .checks_text import all_symbols
    letters = [chr(o) for o in itertools.chain(range(0xa1, 0x250), range(0x370, 0x400), range(0x1e00, 0x1f00), range(0x2100, 0x2150), range(0x1d400, 0x1d800))
               if unicodedata.category(chr(o))[0] in "LNS"]
    every = sorted(set(all_symbols(ck)) | set(letters))
    single = sorted(set(all_symbols(ck, True)) | set(letters))
    out = []
    for t in ("mi", "mo", "mn"):
        out.append(("<%s> with any symbol" % t, Doc(E("math", E(t, Hole("symbol", every, closed=True))))))
    out.append(("<mi mathvariant> with any symbol", Doc(E("math", E("mi", Hole("symbol", every, closed=True), mathvariant="bold")))))
    out.append(("<mtext> with any symbol", Doc(E("math", E("mtext", cat("a", Hole("symbol", single, closed=True, char=True), "b"))))))
    return out


def all_documents(ck, sources=SOURCES):
    """Every document the structural checks analyse: [(label, doc)]."""
    from .check import CHECKS
    c = Collector(ck)
    for s in sources:
        CHECKS[s](c)
    return list(c.docs.values())
