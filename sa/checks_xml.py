"""From the input string to the element tree: what reaches the parser, what is repaired, what fails, and how the
parsed tree is read."""
import itertools
import re
from xml.dom import minidom
from xml.parsers.expat import ExpatError

from .core import *
from .spec import VARIANTS, TEXT_VARIANTS, NOTATIONS, DOCUMENTED, INTERPRETED, ARITY, TOKENS
from .lib import _norm
from .interp import PyExc
from .terms import regex_samples
from .trees import build_dom
from . import checks_struct as cs

MEMO = {}


# ------------------------------------------------------------------------------- the parser's model
def parse_real(text):
    """Doc of a well-formed text, or the parser's error."""
    if text not in MEMO:
        if len(MEMO) > 60000:
            MEMO.clear()
        try:
            MEMO[text] = ("ok", to_doc(minidom.parseString(text)))
        except Exception as x:
            MEMO[text] = ("error", x)
    return MEMO[text]


def to_doc(dom):
    def conv(n):
        kids = []
        for c in n.childNodes:
            if c.nodeType == 1:
                kids.append(conv(c))
            elif c.nodeType == 3:
                kids.append(c.nodeValue)
            elif c.nodeType == 4:
                kids.append(("cdata", c.nodeValue))
            elif c.nodeType == 8:
                kids.append(("comment", c.nodeValue))
            elif c.nodeType == 7:
                kids.append(("pi", c.nodeValue))
        e = El(n.tagName, *kids)
        for i in range(n.attributes.length):
            a = n.attributes.item(i)
            e.attrs[a.name] = a.value
        return e
    before = []
    for c in dom.childNodes:
        if c is dom.documentElement:
            break
        if c.nodeType == 8:
            before.append(("comment", c.nodeValue))
        elif c.nodeType == 7:
            before.append(("pi", c.nodeValue))
    return Doc(conv(dom.documentElement), before)


def clone(x):
    return PyExc(type(x)(*x.args)) if not isinstance(x, ExpatError) else PyExc(copy_error(x))


def copy_error(x):
    e = ExpatError(*x.args)
    e.code, e.lineno, e.offset = x.code, x.lineno, x.offset
    return e


def oracle(docs=None):
    """The parser: deterministic in its text; texts with unknown parts are split by their representatives."""
    def parse(I, text):
        if isinstance(text, Term):
            text = I.path.pick(text)
        if isinstance(text, (bytes, bytearray)):
            text = bytes(text).decode("utf-8", "surrogateescape")
        if not isinstance(text, str):
            raise PyExc(TypeError("a bytes-like object is required, not %r" % type(text).__name__))
        k, v = parse_real(text)
        if docs is not None:
            docs.append((text, k, v))
        if k == "error":
            raise clone(v)
        return build_dom(v)
    return parse


def pre(x):
    """The two normalisations."""
    return re.sub("\r\n|\n|\r", " ", x).replace("mml:", "")


def infoset(text):
    """What the document says: names, attributes in order, text; None when it is malformed."""
    k, d = parse_real(text)
    if k == "error":
        return None

    def rec(e):
        kids, buf = [], ""
        for c in e.kids:
            if isinstance(c, El):
                if buf:
                    kids.append(buf)
                buf = ""
                kids.append(rec(c))
            elif isinstance(c, tuple):
                if c[0] == "cdata":
                    buf += c[1]
                else:
                    kids.append(c) if not buf else kids.extend([buf, c])
                    buf = ""
            else:
                buf += c
        if buf:
            kids.append(buf)
        return (e.tag, tuple(sorted(e.attrs.items())), tuple(kids))
    return (tuple(d.before), rec(d.root))


def texts(ck, xml, label, judge, key=None, limit=3000):
    """judge(path, outcome, attempts) on the analysis of one conversion of the text xml."""
    def run(p):
        docs = []
        o = ck.e.run(p, xml, oracle(docs))
        return o, judge(p, o, docs)
    for p, (o, r) in ck.partitions_of(label, run, limit=limit):
        ck.obligations += 1
        ck.note_called(o)
        ck.sample(xml if isinstance(xml, str) else show(xml), o, p)
        if r is None:
            ck.by_term += 1
            continue
        env = None
        w = xml
        if isinstance(xml, Term):
            try:
                w = evaluate(xml, p.envs(xml.holes)[0])
            except Exception:
                w = show(xml)
        ck.problem(key or label, "%s: %s" % (label, r), doc=show(xml) if isinstance(xml, Term) else xml, witness=w, actual=o.show()[:400],
                   facts=map(str, p.log), functions=ck.spots(o))


def pinned(p, xml, other=()):
    """The text this partition is about (the partition is split further when several are left)."""
    if isinstance(xml, str):
        return xml
    return p.pick(xml)


def parser_error(o):
    v = o.value
    return o.kind == "raise" and (isinstance(v, ExpatError) or o.exc_name() == "ExpatError")


# --------------------------------------------------------------------------------------------- C18
PIECES = ["\n", "\r\n", "\r", "\n\n", "\r\r", "\r\n\r\n", "\n\r", "mml:", "mml:mml:", "mmml:ml:", "MML:", "mml", "ml:", "m:mml:", " ", "  ", "\t",
          "\u00a0", "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\ufeff", "\u200b", "&nbsp;", "&#10;", "&#x0A;", "&amp;", "&lt;", "<br>", "<br/>", "<!-- c -->", "<!--\n-->",
          "<![CDATA[a\nb]]>", "<![CDATA[mml:]]>", "<?xml version=\"1.0\"?>", "<?pi\n?>", "<!DOCTYPE math>", "xmlns=\"x\"", "xmlns:mml=\"x\"", "xmlns:m='y'", "m:",
          "math:", "xlink:href", "w:", "mo:", "ml", "\\n", "\\r", "\\", "$", "%", "é", "é", "ﬁ", "𝔸", "−", "–", "’", "⁡", "⁢", "&InvisibleTimes;", "&alpha;",
          "<mml:", "</mml:", "x:", "office:", "svg:", "math", "<semantics>", "<annotation>", "</annotation>", "'", "\"", "=", ">", "<", "/", "[", "]", "{}", "#", "xmlns",
          " />", "/>", " >", "> <", ">  <", ">\n<", "> \r\n <", "style=\"\"", "class=\"\"", "0", "<none/>", "<mspace/>", "<mrow></mrow>", "A", "Z"]


def c18(ck):
    empty = Doc(E("div"))

    def first(xml, label):
        def run(p):
            o = ck.e.run(p, xml, lambda I, t: build_dom(empty))
            if not o.parses:
                return o, "nothing is parsed: %s" % o.show()[:200]
            a = o.parses[0]
            if isinstance(a, (bytes, bytearray)):
                a = bytes(a).decode("utf-8")
            if isinstance(a, Term) and a.kind != "str":
                return o, None          # an encoded text
            if not isinstance(a, (str, Term)):
                return o, "%r is parsed" % (a,)
            if isinstance(xml, str) and isinstance(a, str):
                return o, None if a == pre(xml) else "%r is parsed as %r instead of %r" % (xml[:200], a[:200], pre(xml)[:200])
            for env, x, y in p.evals(xml.holes, xml, a):
                if y != pre(x):
                    return o, "%r is parsed as %r instead of %r" % (x[:200], y[:200], pre(x)[:200])
            if o.kind != "value":
                return o, None
            return o, None
        for p, (o, r) in ck.partitions_of(label, run, limit=2000):
            ck.obligations += 1
            ck.note_called(o)
            ck.sample(show(xml) if isinstance(xml, Term) else xml, o, p)
            ck.rule("text handed to the parser")
            if r is None:
                ck.by_term += 1
            else:
                ck.problem(label, "%s: %s" % (label, r), doc=show(xml) if isinstance(xml, Term) else xml, functions=ck.spots(o))
    frames = [("as the document", "", ""), ("as text", "<math><mi>", "</mi></math>"), ("between words", "<math><mtext>a", "b</mtext></math>"),
              ("between blanks", "<math> ", " </math>"), ("between elements", "<math><mi>x</mi>", "<mi>y</mi></math>"),
              ("between attributes", "<math a=\"1\"", "b=\"2\"/>"), ("in a quoted attribute", "<math><mfenced open=\"x", "y\"/></math>"),
              ("in a tag name", "<ma", "th/>"), ("before the root", "", "<math/>"), ("after the root", "<math/>", ""), ("in a start tag", "<", "math></math>"),
              ("in an end tag", "<math></", "math>"), ("in a comment", "<math><!--a", "b--></math>"), ("in a section", "<math><![CDATA[a", "b]]></math>")]
    extra = []
    for s in ck.strs:
        if 0 < len(s) < 60:
            extra.append(s)
            try:
                extra += [x for x in regex_samples(s)[:12] if len(x) < 80]
            except Exception:
                pass
    pool = list(dict.fromkeys(PIECES + extra))
    # a symbol at most of every table
    for w, d in tables(ck.e):
        pool += [k for k in list(d)[:3] if isinstance(k, str)]
    pool = list(dict.fromkeys(pool))
    pair_pool = [a + b for a in PIECES[:24] for b in PIECES[:40]]
    ck.extra["n_pieces"] = len(pool)
    for l, a, b in frames:
        first(cat(a, Hole("text", pool, ok=lambda s: True), b), "a text %s" % l)
        first(cat(a, Hole("text", pair_pool, closed=True), b), "two pieces %s" % l)
        for x in PIECES:
            h = Hole("rest", ["", " ", "q", "q z", "\n", "mml:"], ok=lambda s: len(s) < 40)
            first(cat(a, x, h, x, b), "%r around an unknown text %s" % (x, l))
    for n in (1, 2, 3, 10, 100, 1000, 5000):
        for x in ("\n", "\r\n", "\r", " ", "mml:", "a", "<mi/>", "\t"):
            first("<math>" + x * n + "</math>", "%d times %r" % (n, x))
    h = Hole("lead", ["", " ", "\n", "\t ", "\ufeff", "q"], closed=True)
    g = Hole("trail", ["", " ", "\n", "\t ", "q", "\x00"], closed=True)
    first(cat(h, "<math><mn>1</mn></math>", g), "around the document")
    # prefixed and unprefixed documents, and line breaks between words or attributes, convert alike
    for a, b in (("<mml:math><mml:mi>x</mml:mi></mml:math>", "<math><mi>x</mi></math>"),
                 ("<mml:math xmlns:mml=\"u\"><mml:mfrac><mml:mi>x</mml:mi><mml:mi>y</mml:mi></mml:mfrac></mml:math>", "<math xmlns=\"u\"><mfrac><mi>x</mi><mi>y</mi></mfrac></math>"),
                 ("<math><mtext>a\nb</mtext></math>", "<math><mtext>a b</mtext></math>"), ("<math><mtext>a\r\nb</mtext></math>", "<math><mtext>a b</mtext></math>"),
                 ("<math><mi>a\rb</mi></math>", "<math><mi>a b</mi></math>"),
                 ("<math\nxmlns=\"u\"\r\nid=\"i\">\n<mi\nmathvariant=\"bold\"\n>x</mi>\n</math>\n", "<math xmlns=\"u\" id=\"i\"><mi mathvariant=\"bold\">x</mi></math>"),
                 ("<math>\n  <mfenced\n  open=\"[\"\n close=\"]\">\n<mi>x</mi>\n</mfenced></math>", "<math><mfenced open=\"[\" close=\"]\"><mi>x</mi></mfenced></math>")):
        def run(p):
            return ck.e.run(p, a, oracle()), ck.e.run(p, b, oracle())
        for p, (x, y) in ck.partitions_of("same document", run):
            ck.obligations += 1
            if x.kind == y.kind == "value" and x.value == y.value or y.kind != "value":
                ck.by_term += 1
            else:
                ck.problem("same document", "%r gives %s but %r gives %s" % (a, x.show(), b, y.show()), witness=a, functions=ck.spots(x))


# --------------------------------------------------------------------------------------------- C17
BAD = ["checked", "a", "display", "math", "mi", "x", "width=50%", "a=b", "a=b/c", "href=http://x.y/z?q=1", "a = b", "a =b", "a= b", "a=", "x:y", "x:y=z",
       "data-a", "a.b=1", "a=1 b=2", "a b c", "mathvariant=bold", "open=[", "style=color:red;", "id=i1 class=c1", "_a=1", "é=1", "close", "a=b=c", "a=-1", "a=#fff",
       "notation=box", "bevelled", "bevelled=true", "type=math/x", "separators", "A=B", "disabled checked=1 x"]


def c17(ck):
    texts_pool = ["a", "a=b", "display", "checked", "x y", "q\"z", "it's", "\"", "'", "width=50%", "1 > 0", "a > b = c", "a=b c=d", " math ", "mi", "=", " = ", "a =", "= b",
                  "x=\"y\"", "attr", "a=1 b=2", "href=http://x", "/>", "]", "--", "é=ü", "%", "\\", "$&", "\\1", "\\g<0>", "open=["]
    no_markup = lambda s: "<" not in s and "&" not in s and "]]>" not in s and "\n" not in s and "\r" not in s and all(ord(c) >= 32 for c in s)
    small = lambda x: x[::3] if not ck.thorough and few else x
    few = False
    T = lambda n: Hole(n, small(texts_pool), ok=no_markup)
    V = lambda n: Hole(n, small(["q", "a=b", "x y", "checked", " display ", "it's", "1 > 0", "a > b=c d", "'a=b'", "/>", "mi", "=", "", " ", "a b=c", ">", "http://x?y=z", "\\1"]),
                       ok=lambda s: no_markup(s) and "\"" not in s)
    W = lambda n: Hole(n, small(["q", "a=b", "say \"x\"", "checked", "1 > 0", " a=\"b\" ", "", "="]), ok=lambda s: no_markup(s) and "'" not in s)

    def repaired(bad, good, label):
        """The text bad must reach the parser, in the end, as the document good."""
        def judge(p, o, docs):
            x = pinned(p, bad)
            y = good
            if isinstance(good, Term):
                hs = list(dict.fromkeys(tuple(bad.holes) + tuple(good.holes)))
                y = evaluate(good, p.envs(hs)[0])
            want = infoset(pre(y))
            if want is None or infoset(pre(x)) is not None:
                return None
            if len(docs) > 5:
                return "the text is parsed %d times" % len(docs)
            if o.kind == "raise" and parser_error(o):
                return "the repair fails: %r is still malformed (%s)" % (docs[-1][0] if docs else x, o.show())
            if not docs or docs[-1][1] != "ok":
                return None
            got = infoset(docs[-1][0])
            if got != want:
                return "%r is repaired to %r instead of %r" % (x[:300], docs[-1][0][:300], pre(y)[:300])
            return None
        texts(ck, bad, label, judge)
        ck.rule("repair of attributes without a quoted value")
    for bi, b in enumerate(BAD):
        def mk(fmt):
            return lambda x: cat(*[q if not isinstance(q, str) else q.replace("@ ", "" if x is None else x + " ").replace(" @", "" if x is None else " " + x) for q in fmt])

        def one(fmt, label):
            f = fmt if callable(fmt) else mk(fmt)
            repaired(f(b), f(None), "%s with attribute %s" % (label, b))
        name = re.match(r"[^\s=]+", b).group()
        plain = name.replace(":", "")
        one(["<math @><mi>x</mi></math>"], "the root")
        one(["<math><mi @>x</mi></math>"], "an inner element")
        one(["<math><mi @/></math>"], "an empty element")
        one(["<math><mi @ /></math>"], "an empty element with a blank")
        one(["<math @><mrow @><mi @>x</mi></mrow></math>"], "every element")
        one(["<math><mi @>x</mi><mi @>y</mi><mi @>z</mi><mi @>u</mi><mi @>v</mi><mi @>w</mi><mi @>s</mi></math>"], "seven elements")
        one(["<math @ id=\"i\" @ class='c' @><mi>x</mi></math>"], "several in one tag")
        one(["<div><math><mi>x</mi></math><math @><mi>y</mi></math></div>"], "a second formula")
        one(["<math><!-- a=b <mi c> --><mi @>x</mi></math>"], "after a comment")
        one(["<math><mi><![CDATA[<a b=c d>]]></mi><mi @>x</mi></math>"], "after a section")
        one(["<?xml version=\"1.0\"?><math><?pi a=b c?><mi @>x</mi></math>"], "after an instruction")
        one(["<math\n @\n id=\"i\"\n><mi\t @>x</mi></math>"], "with line breaks")
        one(["<mml:math @><mml:mi @>x</mml:mi></mml:math>"], "with prefixes")
        one(["<math><mtext>%s</mtext><mi %s2=\"%s\" @>%s</mi></math>" % (b, plain, b, b)], "the same words elsewhere")
        one(["<math><mi p='%s' @ r=\"%s\">%s</mi></math>" % (b, b, b)], "the same words in quotes")
        one(["<math><mtext>a %s b</mtext><mtext>%s</mtext><mi @>x</mi></math>" % (name, name)], "its name as text")
        one(["<math><mtext %s2=\"1\" x%s=\"2\" %s-=\"3\" @>x</mtext></math>" % (plain, plain, plain)], "attributes of similar names")
        for ent in ("&quot;", "&amp;", "&lt;", "&gt;", "&apos;", "&#34;", "&#60;", "&#x3e;", "&amp;lt;", "&#38;quot;"):
            one(["<math><mi p=\"u%sv %s w\" @ r='%s'>%s a=b %s</mi></math>" % (ent, ent, ent, ent, ent)], "references %s" % ent)
        if ":" not in name and name not in ("math", "mi"):
            one(["<math><%s>x</%s><mi @>y</mi></math>" % (name, name)], "an element of the same name")
        one(["<math><mi @ mathvariant=\"", V("v"), "\">x</mi></math>"], "before a quoted attribute")
        one(["<math><mi @>", T("t"), "</mi></math>"], "an element with unknown text")
        if bi % 3 and not ck.thorough:
            continue
        one(["<math><mi mathvariant=\"", V("v"), "\" @>x</mi></math>"], "after a quoted attribute")
        one(["<math><mi p='", W("v"), "' @ r=\"1\">x</mi></math>"], "after an attribute in single quotes")
        one(["<math @><mtext>", T("t"), "</mtext><mi>x</mi></math>"], "the root with unknown text below")
        one(["<math><mtext>", T("t"), " %s q</mtext><mi k%s=\"%s\" @>x</mi></math>" % (b, plain, b)], "the same words amid unknown ones")
        if bi % 9 and not ck.thorough:
            continue
        few = True
        one(["<math><mi p='", W("v"), "' @ r=\"", V("w"), "\">x</mi></math>"], "between quoted attributes")
        one(["<math><mi p='", W("v"), "'>", T("t"), "</mi><mo @>+</mo><mn q=\"a=b\">1</mn></math>"], "next to other elements")
        few = False
        if ck.thorough:
            for c in BAD:
                if c.split("=")[0].split()[0] != b.split("=")[0].split()[0]:
                    one(lambda x, c=c: cat("<math><mi", "" if x is None else " " + x, " id=\"q=z\"", "" if x is None else " " + c, ">x</mi></math>"), "and %s" % c)
    # many of them
    for n in [6, 7, 12] + ck.wide:
        each = lambda b: "".join("<mi%s>x</mi>" % b for _ in range(n))
        repaired("<math>%s</math>" % each(" a=b"), "<math>%s</math>" % each(""), "%d elements" % n)
        repaired("<math>%s</math>" % each(" checked"), "<math>%s</math>" % each(""), "%d elements with a bare attribute" % n)
        repaired("<math><mi %s>x</mi></math>" % " ".join("a%d" % i for i in range(n)), "<math><mi>x</mi></math>", "%d attributes in one tag" % n)
        repaired("<math><mi %s>x</mi></math>" % " ".join("a%d=v b%d='v'" % (i, i) for i in range(n)),
                 "<math><mi %s>x</mi></math>" % " ".join("b%d='v'" % i for i in range(n)), "%d attributes of both kinds" % n)
        repaired("<div>%s</div>" % ("<math a><mi b=c>x</mi></math>" * n), "<div>%s</div>" % ("<math><mi>x</mi></math>" * n), "%d formulas" % n)
        repaired("<math %s=b>%s</math>" % ("a" * n, "q" * n), "<math>%s</math>" % ("q" * n), "long names")
        repaired("<math a=%s>%s</math>" % ("b" * n, "q" * n), "<math>%s</math>" % ("q" * n), "long values")
    # names of every element that is known, as attribute and as element
    for t in sorted(DOCUMENTED):
        repaired("<math><%s %s><mn>1</mn></%s></math>" % (t, t, t), "<math><%s><mn>1</mn></%s></math>" % (t, t), "<%s %s>" % (t, t))
        repaired("<math><%s a=b>x</%s></math>" % (t, t), "<math><%s>x</%s></math>" % (t, t), "<%s a=b>" % t)
    # malformed for another reason: reported, and nothing cut off
    for x in MALFORMED:
        for b in ("", " checked", " a=b"):
            y = x.replace("<math", "<math" + b, 1) if b else x
            if b and (y == x or re.match("<math *=", x)):
                continue

            def judge(p, o, docs, y=y):
                if infoset(pre(y)) is not None:
                    return None
                if o.kind == "value":
                    return "%r is converted to %s; the parser got %r" % (y, o.show(), docs[-1][0] if docs else None)
                return None
            texts(ck, y, "malformed for another reason %r" % y[:60], judge)
            ck.rule("other malformed documents are not altered")
    for x in MALFORMED:
        def judge2(p, o, docs, x=x):
            for t, k, v in docs[1:]:
                if "=" not in x and re.sub(r"\s", "", t) != re.sub(r"\s", "", pre(x)) and not re.search(r"<[^>\s]+\s+[^>\"']*[^\s>/]", x):
                    return "%r is altered to %r" % (x, t)
            return None
        texts(ck, x, "text of a malformed document %r" % x[:60], judge2)


MALFORMED = ["<math>", "</math>", "<math><mi>x</math>", "<math><mi>x</mi>", "<math><mi>x</mo></math>", "<math/><math/>", "<math></math>x", "x<math></math>", "x", "",
             " ", "<", ">", "<>", "<math", "<math ", "<math /", "math", "<math><", "<math>< mi>x</mi></math>", "<math>&</math>", "<math>&nbsp;</math>", "<math>a & b</math>",
             "<math>&#0;</math>", "<math>a < b</math>", "<math>1<2</math>", "<math><mi>a<b</mi></math>", "<math>]]></math>", "<math><!-- a -- b --></math>", "<math><!-- </math>",
             "<math><![CDATA[x</math>", "<math><?pi </math>", "<math a=\"1\" a=\"2\"/>", "<math a=\"1\"b=\"2\"/>", "<math a=\"1/>", "<math a=\"<\"/>", "<math a='1/>", "<m:math/>",
             "<math><m:mi>x</m:mi></math>", "<1math/>", "<math><-a/></math>", "<math><mi x=\"1\"y>x</mi></math>", "<math>\x01</math>", "<math>\x00</math>", "\ufeff<math", " <?xml version=\"1.0\"?><math/>",
             "<!DOCTYPE math><!DOCTYPE math><math/>", "<math><mi>x</mi></math></math>", "<MATH></math>", "<math><mi/></mi></math>", "<math><br></math>", "<math><mi>&lt</mi></math>",
             "<math><mi>&unknown;</mi></math>", "<a>" * 3, "<math><mi>x</mi><mi>y</math>", "<math>text &amp text</math>", "<math><mfrac><mi>a</mi><mi>b</mfrac></mi></math>", "null", "None", "{}", "[]",
             "<math display=\"block></math>", "<math display=block\"></math>", "<math \"block\"></math>", "<math ='x'></math>", "<math = ></math>", "<math a==\"b\"></math>", "<math><mi>x<mi></math>",
             "<math><mi>a</mi><!-- <mi>b</mi></math>", "<math <mi>x</mi></math>", "<math><mi\">x</mi></math>", "<math><mi>x</mi\"></math>", "<math><mi>x</mi a></math>", "<math><mi>x</mi a=b></math>",
             "<?xml version=1.0?><math/>", "<?xml version=\"1.0\" encoding=?><math/>", "<!DOCTYPE math [<!ENTITY a b>]><math/>", "<math><mo><</mo></math>", "<math><mo>&</mo></math>",
             "<math><mo>a&b</mo><mi>c</mi></math>", "<math><mtext>if a<b then</mtext></math>", "<math><mtext>x <y z> w</mtext></math>", "<math><mtext>a <b c=d> e</mtext></math>",
             "<math><mi>x</mi></math> where x is positive", "<math/>\n<p>x</p>", "<math><mi>x</mi></math>;", "let <math><mi>x</mi></math>", "<p/><math><mi>x</mi></math>", "<math><mi>x</mi></math></div>",
             "<math><mi>x</mi></math>" * 9, "<math><mi>x</math>" * 9, "<math>" * 9, "</math>" * 9, "<math>&nbsp;</math>" * 7, "<div>" + "<math><mi>x</math>" * 12 + "</div>", "<mi>x</mi>" * 12,
             "<math>" + "<mrow>" * 30 + "</math>", "<math>" + "&q;" * 12 + "</math>"]


# --------------------------------------------------------------------------------------------- C16
def c16(ck):
    def judge_for(x):
        def judge(p, o, docs):
            t = pinned(p, x)
            if len(docs) > 5:
                return "the text is parsed %d times" % len(docs)
            oks = [d for d in docs if d[1] == "ok"]
            if any(d[1] == "ok" for d in docs[:-1]):
                return "parsing goes on after an attempt that succeeded (%d attempts)" % len(docs)
            if infoset(pre(t)) is not None:
                if len(docs) != 1:
                    return "a well-formed document is parsed %d times" % len(docs)
                if infoset(docs[0][0]) != infoset(pre(t)):
                    return "a well-formed document reaches the parser changed: %r" % docs[0][0][:200]
            if not docs:
                return "nothing is parsed: %s" % o.show()[:200]
            if not oks:
                if parser_error(o):
                    return None
                if isinstance(docs[-1][2], ExpatError):
                    return "no attempt succeeds, but the conversion ends with %s instead of the parser's error" % o.show()[:200]
                return None
            d = oks[0][2]
            try:
                exp = Spec(p).doc(d)
            except SpecError:
                return None if o.kind == "raise" and not parser_error(o) else "ends with %s instead of InvalidNumberOfChildrenError" % o.show()[:200]
            if o.kind != "value":
                if o.kind == "raise" and parser_error(o):
                    return "an attempt succeeds, but the conversion ends with %s" % o.show()[:200]
                return None
            if o.value != exp and (isinstance(o.value, str) and isinstance(exp, str)):
                if not bracket_variants(p, d, o.value):
                    return "the result %s is not computed from the parse that succeeded (%r)" % (o.show()[:200], exp[:200])
            return None
        return judge

    def bracket_variants(p, d, v):
        return False
    good = ["<math/>", "<math></math>", "<math><mi>x</mi></math>", "<math><mfrac><mi>a</mi><mn>2</mn></mfrac></math>", "<div><math><mn>1</mn></math><math><mn>2</mn></math></div>",
            "<math><mtext>a b</mtext></math>", "<math display=\"block\"><mi mathvariant=\"bold\">x</mi></math>", "<div/>", "<math>\n<mi>x</mi>\n</math>", "<mml:math><mml:mi>x</mml:mi></mml:math>",
            "<math><!-- a=b --><mi>x</mi></math>", "<math><mi><![CDATA[<a b>]]></mi></math>", "<math a=\"x y=z\" b='c d'/>", "<math><mo>&lt;</mo></math>", "<math><mi>&amp;</mi></math>",
            "<math><mi>a=b c</mi></math>", "<?xml version=\"1.0\"?><math/>", "<!DOCTYPE math><math/>", "<!DOCTYPE math [<!ENTITY x \"y\">]><math><mi>&x;</mi></math>",
            "<math><mfrac><mi>a</mi></mfrac></math>", "<math><msup/></math>", "<math xmlns='a' xmlns:m='b'><m:mi>x</m:mi></math>"]
    for x in good:
        texts(ck, x, "well-formed %r" % x[:60], judge_for(x))
        ck.rule("well-formed documents are parsed once")
    for b in BAD:
        for f in ("<math @><mi>x</mi></math>", "<math><mi @>x</mi></math>", "<div><math><mn>1</mn></math><math><mn @>2</mn></math></div>", "<math><mfrac @><mi>x</mi></mfrac></math>",
                  "<math><mi @>x</mi><mi @>y</mi><mi @>z</mi><mi @>u</mi><mi @>v</mi><mi @>w</mi></math>", "<math><mtext>@</mtext><mi @>x</mi></math>"):
            x = f.replace("@", b)
            texts(ck, x, "to be repaired %r" % x[:60], judge_for(x))
            ck.rule("repaired documents are converted from the parse that succeeded")
        for f in ("<math @>", "<math @><mi>x</math>", "<math @>&nbsp;</math>", "<math><mi @>x</mi></math><math/>", "<math><mn>1</mn><mi @>x</mo></math>", "<math><mi @>x</mi>&</math>", "x<math @/>"):
            x = f.replace("@", b)
            texts(ck, x, "beyond repair %r" % x[:60], judge_for(x))
            ck.rule("documents beyond repair are reported")
    for x in MALFORMED:
        texts(ck, x, "malformed %r" % x[:60], judge_for(x))
        ck.rule("documents beyond repair are reported")
        for n in ("<div><math><mn>1</mn></math>%s</div>", "%s<math><mn>1</mn></math>"):
            texts(ck, n % x, "malformed after a formula %r" % (n % x)[:60], judge_for(n % x))
    for n in [6, 7, 12] + ck.wide:
        for x in ("<div>" + "<math a><mi b=c>x</mi></math>" * n + "</div>", "<div>" + "<math><mn>1</mn></math>" * n + "</div>", "<div>" + "<math><mi>x</math>" * n + "</div>",
                  "<math %s><mi>x</mi></math>" % " ".join("a%d" % i for i in range(n)), "<math>" + "<mi a>x" * n + "</math>", "<math a>" + "<mi>" * n + "</math>", "<math a>" + " " * n, "<math a=b>" + "&q;" * n + "</math>"):
            texts(ck, x, "%d times: %r" % (n, x[:40]), judge_for(x))
            ck.rule("many formulas, attributes or errors")
    noise = Hole("noise", ["", "q", "<mi>", "</mi>", "&q;", "&", "<", ">", "\"", "<mi a>", "<mi a/>", "<mi a=b/>", "<mi a='b'/>", "]]>", "<!--", "-->", "<![CDATA[", "<?q", "mml:", "\n", "<mo/>", "&amp;", "a=b",
                           "<a:b/>", "<mi a a/>", "<mi a=\"1\" a=\"2\"/>", "\x00", "\x01", "\ud800", "\uffff"], ok=lambda s: len(s) < 40)
    for a, b in (("<math><mi>x", "</mi></math>"), ("<math>", "<mi>x</mi></math>"), ("", "<math/>"), ("<math/>", ""), ("<math", "><mi>x</mi></math>"), ("<math ", "/>"), ("<math a=\"", "\"/>"), ("<math><mi a=", ">x</mi></math>")):
        x = cat(a, noise, b)
        texts(ck, x, "noise in %s@%s" % (a, b), judge_for(x))
        ck.rule("noise")
    # the parser also fails with other errors; they are not turned into results
    for exc in (ExpatError("x"), ValueError("x"), UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed"), TypeError("x")):
        for x in ("<math><mi>x</mi></math>", "<math a><mi>x</mi></math>", ""):
            def run(p, exc=exc, x=x):
                n = []

                def parse(I, t):
                    n.append(t)
                    e = exc if not isinstance(exc, ExpatError) else None
                    raise PyExc(e) if e is not None else PyExc(expat_err())
                return ck.e.run(p, x, parse), n
            for p, (o, n) in ck.partitions_of("parser always fails with %r" % exc, run):
                ck.obligations += 1
                ck.note_called(o)
                if o.kind == "raise" and len(n) <= 5 and (o.exc_name() == type(exc).__name__):
                    ck.by_term += 1
                else:
                    ck.problem("parser always fails with %s" % type(exc).__name__, "the parser always fails with %r; the conversion of %r ends with %s after %d attempts"
                               % (exc, x, o.show()[:200], len(n)), witness=x, functions=ck.spots(o))


def expat_err(code=4):
    from .trees import expat_error
    return expat_error(code)


# --------------------------------------------------------------------------------------------- C15
SETTINGS = {"mathvariant": ["bold", "normal"], "open": ["["], "close": ["]"], "separators": [";", ""], "bevelled": ["true"], "actiontype": ["toggle", "tooltip"],
            "notation": ["box", "phasorangle", "longdiv"]}


def c15(ck):
    def bad(o):
        if o.kind == "value":
            v = o.value
            if isinstance(v, str) or isinstance(v, Term) and v.kind in ("str", "any"):
                return None
            return "the result is %s" % o.show()[:200]
        if o.kind == "raise" and (o.exc_name() == "InvalidNumberOfChildrenError" or parser_error(o)):
            return None
        return o.show()[:300]

    def one(el, label, key=None):
        def judge(p, o):
            b = bad(o)
            return None if b is None else (b, None)
        ck.each(el if isinstance(el, Doc) else cs.in_math(el), label, judge, key=key)
        ck.rule("ways to fail")
    any_text = Hole("t", ["", " ", "q", "7", "-1", "0", "1.5", "²", "٣", "½", "q w", "\u00a0", "\\", "{", "}", "%", "&#x", "&#", "&#;", "&#xZZ;", "&", "\u0301", "𝔸", "﷽", "\ud800", "None", "True", "(", "[", "*", "\\1", "%s", "{0}", "{q}", "{}", "+", "a" * 300])
    ALLV = set().union(*[set(v) for v in vocab().values()])
    txt = lambda n: Hole(n, any_text.pool, closed=True)
    num = lambda n: Hole(n, ["q", "zw"], ok=lambda s: s != "" and s == " ".join(s.split()) and s not in ALLV and not s.startswith("&#") and s.isascii())
    open_text = Hole("t", any_text.pool)
    names = sorted(DOCUMENTED) + ["mtd", "mstyle", "none", "mprescripts", "semantics", "annotation", "mspace", "foo", "m:mi", "mglyph", "mlabeledtr", "maligngroup", "mscarries", "math2"]
    for s in ck.strs:
        if re.match(r"^[A-Za-z_][\w.-]*$", s) and len(s) < 30 and s not in names:
            names.append(s)
    kid_shapes = [("numbers", lambda n: [E("mn", num("k%d" % i)) for i in range(n)]), ("nothings", lambda n: [E("mphantom") for _ in range(n)]), ("empty", lambda n: [E("mi") for _ in range(n)]),
                  ("rows", lambda n: [E("mrow") for _ in range(n)]), ("mprescripts", lambda n: [E("mprescripts") for _ in range(n)]), ("texts", lambda n: [E("mtext", "→ a") for _ in range(n)]),
                  ("tables", lambda n: [E("mtable", E("mtr", E("mtd"))) for _ in range(n)]), ("bare rows", lambda n: [E("mtr", E("mtd", E("mn", "1"))) for _ in range(n)])]
    for t in names:
        for n in range(0, ck.K + 1):
            for l, mk in kid_shapes:
                one(E(t, *mk(n)), "<%s> with %d %s" % (t, n, l), key="<%s>" % t)
        one(E(t, txt("t")), "<%s> with text" % t)
        if t in TOKENS or t in ("mrow", "foo", "mfenced", "mtable"):
            one(E(t, open_text), "<%s> with any text" % t)
        one(E(t, ("comment", "c")), "<%s> with a comment" % t)
        one(E(t, ("cdata", txt("t"))), "<%s> with character data" % t)
        one(E(t, ("pi", "p")), "<%s> with an instruction" % t)
        one(E(t, txt("t"), E("mi", "x"), num("u"), ("comment", "c"), E("foo"), ("cdata", "x")), "<%s> with text and elements" % t)
        one(E(t, txt("t"), ("comment", "c"), num("u")), "<%s> with text around a comment" % t)
        one(Doc(E(t, E("mi", "x"))), "<%s> as the root" % t)
        one(Doc(E(t)), "<%s> as the empty root" % t)
        one(Doc(E("div", E("math", E(t)), "text", E("math", E("mi", "x")))), "<%s> in the first of two formulas" % t)
        one(Doc(E(t), before=(("comment", "c"), ("pi", "p"))), "<%s> after a comment" % t)
    anyv = Hole("value", ["", " ", "q", "0", "-1", "2", "true", "false", "q w", "(", ")", "||", "\\", "{", "[", "*", "%s", "{0}", "²", "é", ",;", "\u00a0", "\t", "a" * 200])
    attrs = sorted({a for v in INTERPRETED.values() for a in v} | {"id", "xmlns", "xmlns:m", "xlink:href", "class", "style", "rowspan", "stretchy", "innerTable", "foo", "value", "name", "children", "attributes"})
    for s in ck.strs:
        if re.match(r"^[A-Za-z_][\w.-]*$", s) and len(s) < 24 and s not in attrs:
            attrs.append(s)
    for t in sorted(DOCUMENTED) + ["foo", "mtd", "mstyle"]:
        for a in attrs:
            for n in ((ARITY[t][1],) if t in ARITY else (0, 2)):
                kids = [txt("t")] if t in TOKENS else [E("mn", "k%d" % i) for i in range(n)]
                one(E(t, *kids).with_attrs({a: anyv}), "<%s %s=any> with %d children" % (t, a, n), key="<%s %s>" % (t, a))
                one(E(t, *kids).with_attrs({a: ""}), "<%s %s=''> with %d children" % (t, a, n), key="<%s %s>" % (t, a))
                one(E(t, *kids).with_attrs({a: a}), "<%s %s=%s> with %d children" % (t, a, a, n), key="<%s %s>" % (t, a))
        # unknown attributes around operands of every kind
        for a in sorted(INTERPRETED.get(t, ())):
            for l, e in cs.kinds("x"):
                for n in (1, 2):
                    one(E(t, e, *[E("mn", "1")] * (n - 1)).with_attrs({a: anyv}), "<%s %s=any> around %s" % (t, a, l), key="<%s %s>" % (t, a))
            for b in sorted(INTERPRETED.get(t, ())):
                if a < b:
                    for l, e in cs.kinds("x"):
                        one(E(t, e, E("mn", "1")).with_attrs({a: Hole("v" + a, anyv.pool), b: Hole("v" + b, anyv.pool)}), "<%s %s=any %s=any> around %s" % (t, a, b, l), key="<%s %s>" % (t, a))
        # an attribute beside a setting that chooses another rendering
        for b, v in [(b, v) for b in sorted(INTERPRETED.get(t, ())) for v in SETTINGS[b]]:
            for a in attrs:
                if a != b:
                    for n in ((ARITY[t][1],) if t in ARITY else (1, 3)):
                        kids = [txt("t")] if t in TOKENS else [E("mn", "k%d" % i) for i in range(n)]
                        one(E(t, *kids).with_attrs({b: v, a: anyv}), "<%s %s=%s %s=any> with %d children" % (t, b, v, a, n), key="<%s %s>" % (t, a))
        for combo in itertools.combinations(sorted(INTERPRETED.get(t, ())), 2):
            one(E(t, E("mn", "1"), E("mn", "2")).with_attrs({c: Hole("v" + c, anyv.pool) for c in combo}), "<%s> with any %s" % (t, combo))
    for t in ("mi", "mtext", "menclose", "maction", "mfenced", "mfrac"):
        for a in INTERPRETED[t]:
            for v in list(VARIANTS) + list(TEXT_VARIANTS) + list(NOTATIONS) + ["longdiv", "toggle", "true"]:
                for kids in ([], [""], [" "], ["→"], ["a→b"], [E("mn", "1")], [E("mphantom"), E("mphantom")]):
                    one(E(t, *kids).with_attrs({a: v}), "<%s %s=%s>" % (t, a, v))
    for t in sorted(DOCUMENTED) + ["foo", "mtd"]:
        n = ARITY[t][1] if t in ARITY else 2
        for i in range(n):
            for u in TOKENS:
                one(E(t, *[E(u, txt("t")) if k == i else E("mn", "1") for k in range(n)]), "<%s> with any <%s> as operand %d" % (t, u, i + 1))
    tags = sorted(DOCUMENTED) + ["foo", "mtd", "mprescripts", "none"]
    for a, b in itertools.product(tags, repeat=2):
        for n in (0, 1, 2, 3):
            inner = E(b, *[E("mn", "i%d" % i) for i in range(ARITY.get(b, ("", 1))[1])])
            one(E(a, *([inner] + [E("mn", "o%d" % i) for i in range(n)])), "<%s> in <%s> with %d more" % (b, a, n), key="<%s> in <%s>" % (b, a))
            one(E(a, *([E(b)] * (n + 1))), "%d empty <%s> in <%s>" % (n + 1, b, a), key="<%s> in <%s>" % (b, a))
        if ck.thorough:
            for c in tags:
                one(E(a, E(b, E(c), E(c)), E(b, E(c, E("mn", "1"), E("mn", "2")), E(c)), E(c)), "<%s> in <%s> in <%s>" % (c, b, a))
    for t in tags:
        if t in ARITY or t in TOKENS:
            continue
        el = E("mi", "x")
        for _ in range(60 if ck.thorough else 30):
            el = E(t, el)
        one(el, "thirty nested <%s>" % t)
    # every symbol known to any table, in every token element
    for t in ("mi", "mo", "mn", "mtext"):
        from .checks_text import all_symbols, unknown_chars
        one(E(t, Hole("s", all_symbols(ck), closed=True)), "<%s> with a known symbol" % t)
        u = unknown_chars(ck)
        for k in range(0, len(u), 3000):
            one(E(t, Hole("s", u[k:k + 3000], closed=True)), "<%s> with a character without entry" % t)
        one(E(t, Hole("s", [chr(i) for i in range(33, 256)], closed=True)), "<%s> with a character of Latin-1" % t)

    # texts
    def tx(x, label):
        def judge(p, o, docs):
            if docs and docs[-1][1] == "error" and not isinstance(docs[-1][2], ExpatError):
                return None         # the parser's own error for texts that cannot be encoded
            return bad(o)
        texts(ck, x, label, judge)
        ck.rule("ways to fail on a text")
    for x in MALFORMED:
        tx(x, "malformed %r" % x[:60])
        tx("<math>" + x + "</math>", "malformed in a formula %r" % x[:60])
    for b in BAD:
        for f in ("<math @/>", "<math><mi @>x</mi></math>", "<math @>", "<math><mi @>x</mo></math>", "<math>@</math>", "<@>", "<math><mfrac @/></math>"):
            tx(f.replace("@", b), "text %r" % f.replace("@", b)[:60])
    tx(Hole("doc", MALFORMED + [" ", "q", "\x00", "\ud800", "<q>", "<q/>", "<math/>", "é", "\n"], ok=lambda s: len(s) < 200), "an unknown text")
    for a, b in (("<math><mi>", "</mi></math>"), ("<math ", "/>"), ("<math><mo ", ">+</mo></math>"), ("<", "/>"), ("<math a=\"", "\"/>"), ("<math>", "</math>")):
        tx(cat(a, Hole("t", ["", " ", "q", "<q>", "<q/>", "&q;", "&", "<", "\"", "a=b", "a", "a=\"b\"", "mi", "\n", "=", "==", "'", "a='b\"c'", "/", "q:r", ">", "\x00", "\u00e9", "a=b>c", "a=\"b", "a b=c d='e'"],
                       ok=lambda s: len(s) < 120), b), "unknown text in %s@%s" % (a, b))


# --------------------------------------------------------------------------------------------- C19
def c19(ck):
    H = lambda n: Hole(n, ["q", "z w", " k ", "7", "y x ", "  ", "j;8"], ok=lambda s: s not in ALLV and not s.startswith("&#") and not any(0xd800 <= ord(c) <= 0xdfff for c in s))
    ALLV = set()
    for v in vocab().values():
        ALLV |= set(v)
    H = lambda n: Hole(n, ["q", "zw", " k v", "j;8 ", "  y"], ok=lambda s: _norm(s) not in ALLV and s.strip() != "" and not s.strip().startswith("&#")
                       and not (len(s.strip()) == 1 and ord(s.strip()) > 126) and not any(0xd800 <= ord(c) <= 0xdfff for c in s))

    def one(el, label, key=None):
        ck.expect(el if isinstance(el, Doc) else cs.in_math(el), label, key=key)
        ck.rule("reading of the parsed tree")
    pieces = {"text": lambda n: H(n), "section": lambda n: ("cdata", H(n)), "comment": lambda n: ("comment", " c%s " % n), "instruction": lambda n: ("pi", "p"), "blank": lambda n: "  ", "known": lambda n: "α",
              "known section": lambda n: ("cdata", "α"), "empty section": lambda n: ("cdata", ""), "blank section": lambda n: ("cdata", " "), "letter": lambda n: "x"}
    depth = 4 if ck.thorough else 3
    for n in ck.wide:
        for t in ("mi", "mo", "mn", "mtext"):
            one(E(t, *["q7"] * n), "<%s> of %d pieces" % (t, n))
            one(E(t, *[x for i in range(n) for x in ("q", ("comment", "c"))]), "<%s> with %d comments" % (t, n))
            one(E(t, "q" * n, ("cdata", "7" * n)), "<%s> with long pieces" % t)
        one(E("mfenced", mn("x"), mn("y"), open="[" * n, close="]" * n), "long attributes")
        one(E("mfenced", mn("x"), mn("y"), separators=";").with_attrs({"data-a%d" % i: "v" for i in range(n)}), "%d attributes" % n)
    for t in ("mi", "mo", "mn"):
        for n in range(0, depth + 1):
            for combo in itertools.product(pieces, repeat=n):
                one(E(t, *[pieces[c]("t%d" % i) for i, c in enumerate(combo)]), "<%s> of %s" % (t, ", ".join(combo) or "nothing"))
    A = lambda n: Hole(n, ["a", "Z", "7", "b"], ok=lambda s: len(s) == 1 and s.isascii() and s.isalnum(), char=True)
    tp = {"text": lambda n: A(n), "words": lambda n: "one two", "section": lambda n: ("cdata", A(n)), "comment": lambda n: ("comment", "c"), "instruction": lambda n: ("pi", "p"), "blank": lambda n: " ",
          "arrow": lambda n: "→", "arrow section": lambda n: ("cdata", "→")}
    for n in range(0, depth + 1):
        for combo in itertools.product(tp, repeat=n):
            one(E("mtext", *[tp[c]("t%d" % i) for i, c in enumerate(combo)]), "<mtext> of %s" % (", ".join(combo) or "nothing"))
    # blanks around and inside
    ws = ["", " ", "   ", "\t", "\u00a0", "\u2003", "\u3000", "\n", "\u2028"]
    for t in ("mi", "mo", "mn"):
        for a, b in itertools.product(ws, repeat=2):
            one(E(t, cat(a, H("t"), b)), "<%s> between %r and %r" % (t, a, b))
            one(E(t, a, ("comment", "c"), H("t"), ("cdata", b)), "<%s> in pieces between %r and %r" % (t, a, b))
            one(E(t, a, "α", ("comment", "c"), b), "<%s> known between %r and %r" % (t, a, b))
    for a, b in itertools.product(ws, repeat=2):
        one(E("mtext", cat(a, "one two", b)), "<mtext> between %r and %r" % (a, b))
    # children are kept in order among text and comments; text beside child elements is no content
    between = ["", "  ", "text", ("comment", "c"), ("cdata", "d"), ("pi", "p"), "\u00a0", "α"]
    for t in ("mrow", "math", "mstyle", "foo", "msqrt", "mfenced", "mtable", "mtr", "mtd"):
        for a, b in itertools.product(between, repeat=2):
            one(E(t, a, mn("x"), b, mn("y"), a), "children of <%s> amid %r and %r" % (t, a, b))
        one(E(t, ("comment", "c"), mn("x")), "<%s> with a comment first" % t)
        one(E(t, mn("x"), ("comment", "c")), "<%s> with a comment last" % t)
    for t, (c, n) in ARITY.items():
        for a in between[1:]:
            kids = []
            for i in range(n):
                kids += [a, mn("v%d" % i)]
            one(E(t, *(kids + [a])), "operands of <%s> amid %r" % (t, a))
    for t in ("mrow", "msqrt", "foo", "mtd", "mfenced", "menclose", "mtable", "mtr", "maction", "mphantom", "merror", "mstyle", "mpadded"):
        one(E(t, H("t")), "text without element in <%s>" % t)
        one(E("mrow", mn("x"), E(t, H("t")), mn("y")), "text without element in <%s> between numbers" % t)
    for t in ("mi", "mo", "mn"):
        one(E("mrow", mn("a"), E(t, H("t"), E("mspace"), H("u")), mn("b")), "<%s> with text and an element" % t)
    # attributes: own name, own value, own element
    av = Hole("value", ["q", "z w", "bold", "true", "box"], ok=lambda s: s == s.strip() and s not in ("",))
    many = {"id": "i", "class": "c d", "style": "s:t", "xmlns": "u", "href": "h", "data-x": "1"}
    for t in ("mi", "mtext", "mfenced", "mfrac", "maction", "menclose"):
        n = ARITY.get(t, ("", 2))[1]
        kids = lambda p: ["x"] if t == "mi" else ["a b"] if t == "mtext" else [mn(p + str(i)) for i in range(n)]
        for a in sorted(INTERPRETED[t]):
            some = {"mathvariant": ["bold", "script", "mathvariant", "", "normal"], "open": ["[", "", "open", "("], "close": ["]", "", "close", ")"], "separators": [";", "", "separators", ",;"],
                    "bevelled": ["true", "false", "", "bevelled"], "actiontype": ["toggle", "", "actiontype", "tooltip"], "notation": ["box", "", "notation", "top", "longdiv"]}[a]
            for v in some[:1] + ["\u00e9"]:
                for w in (" " + v, v + " ", "\u00a0" + v, v.upper(), v + v, "x:" + v, v + "\u200b", "'" + v, "&" + v):
                    if w != v:
                        one(E(t, *kids("k")).with_attrs({a: w}), "<%s %s=%r>" % (t, a, w))
            for w in (" ", "  ", "\u00a0", " " + a, a + " ", a.upper()):
                one(E(t, *kids("k")).with_attrs({a: w}), "<%s %s=%r>" % (t, a, w))
            for v in some:
                base = lambda extra: E(t, *kids("k")).with_attrs(extra)
                one(base({a: v}), "<%s %s=%r>" % (t, a, v))
                one(base({**many, a: v}), "<%s %s=%r> after other attributes" % (t, a, v))
                one(base({a: v, **many}), "<%s %s=%r> before other attributes" % (t, a, v))
                one(E("mrow", base({a: v}), base({})), "<%s %s=%r> before one without" % (t, a, v))
                one(E("mrow", base({}), base({a: v})), "<%s %s=%r> after one without" % (t, a, v))
                one(E("mrow", base({}), mn("m"), base({})).with_attrs({a: v}), "<%s>: %s=%r of the parent" % (t, a, v))
                one(E("math", base({})).with_attrs({a: v}), "<%s>: %s=%r of the root" % (t, a, v))
                one(E("mrow", E("mn", "1").with_attrs({a: v}), base({}), E("mo", "+").with_attrs({a: v})), "<%s>: %s=%r of the neighbours" % (t, a, v))
                if t not in ("mi", "mtext"):
                    k = [E("mn", "1").with_attrs({a: v}) for _ in range(n)]
                    one(E(t, *k), "<%s>: %s=%r of the children" % (t, a, v))
                    one(E(t, *([base({a: v})] + kids("o")[1:])), "<%s>: %s=%r of a nested one" % (t, a, v))
                    one(E(t, *([base({})] + kids("o")[1:])).with_attrs({a: v}), "<%s>: %s=%r of the outer one" % (t, a, v))
                for w in some:
                    if w != v:
                        one(E("mrow", base({a: v}), base({a: w}), base({a: v})), "<%s> with %s=%r, %r" % (t, a, v, w))
                for o in attrs_like(a):
                    for w in some:
                        if w != v:
                            one(base({a: v, o: w}), "<%s %s=%r> before another attribute %s=%r" % (t, a, v, o, w))
                            one(base({o: w, a: v}), "<%s %s=%r> after another attribute %s=%r" % (t, a, v, o, w))
                    one(base({o: v}), "<%s %s=%r> is another attribute" % (t, o, v))
                    one(base({a: o}), "<%s %s=%r> is no value" % (t, a, o)) if a not in ("open", "close", "separators") else None
    for a, b in itertools.product(sorted(INTERPRETED["mfenced"]), repeat=2):
        one(E("mfenced", mn("x"), mn("y")).with_attrs({a: b}), "<mfenced %s=%s>" % (a, b))
    one(E("mfenced", mn("x"), mn("y"), mn("z"), open="[", close="]", separators=";|"), "all attributes of <mfenced>")
    one(E("mfenced", mn("x"), mn("y"), mn("z"), separators=";|", close="]", open="["), "all attributes of <mfenced> in another order")
    # nothing leaks between formulas
    one(Doc(E("div", E("math", E("mi", "x", mathvariant="bold")), H("t"), E("math", E("mi", "x")), ("comment", "c"), E("math", E("mfenced", mn("v"), open="["))))
        , "three formulas with text between them")


def attrs_like(a):
    return [a.upper(), a.capitalize(), "x:" + a, "xml:" + a, a + "s", a[:-1], "data-" + a]


# --------------------------------------------------------------------------------------------- C22
def c22(ck):
    def one(root, label, key=None):
        ck.expect(root if isinstance(root, Doc) else Doc(root), label, key=key)
        ck.rule("formulas in order")

    def f(n, *kids):
        return E("math", *(kids or (mn(n),)))
    for n in range(0, ck.K + 1):
        one(E("div", *[f("v%d" % i) for i in range(n)]), "%d formulas" % n)
        one(E("div", *[f("v") for i in range(n)]), "%d equal formulas" % n)
        one(E("div", *[E("p", "text", f("v%d" % i), "text") for i in range(n)]), "%d formulas in paragraphs" % n)
    for n in ck.wide:
        one(E("div", *[f("v", E("mn", str(i))) for i in range(n)]), "%d formulas" % n)
        one(E("div", *[f("v", E("mn", str(i))) if i % 3 else E("math") for i in range(n)]), "%d formulas, some empty" % n)
        if n <= 300:
            e = f("a")
            for i in range(n):
                e = E("div", e)
            one(E("div", e, f("b")), "a formula %d elements deep" % n)
    empties = [("no child", E("math")), ("a phantom", E("math", E("mphantom", mn("p")))), ("an empty row", E("math", E("mrow"))), ("blank text", E("math", "  ")), ("an empty token", E("math", E("mi"))),
               ("a blank token", E("math", E("mo", "  "))), ("two nothings", E("math", E("mphantom"), E("mphantom"))), ("a comment", E("math", ("comment", "c"))), ("an empty table", E("math", E("mtable")))]
    for l, e in empties:
        one(e, "formula with %s" % l)
        for pos in range(4):
            fs = [f("a"), f("b"), f("c")]
            fs.insert(pos, e)
            one(E("div", *fs), "formula with %s at position %d" % (l, pos))
        for l2, e2 in empties:
            one(E("div", e, f("a"), e2), "formulas with %s and %s" % (l, l2))
            one(E("div", f("a"), e, e2, f("b")), "formulas with %s and %s in the middle" % (l, l2))
            one(E("div", e, e2), "only formulas with %s and %s" % (l, l2))
    # where formulas stand
    for w in (lambda *k: E("div", *k), lambda *k: E("html", E("body", *k)), lambda *k: E("div", E("p", k[0]), *[E("span", E("b", x)) for x in k[1:]]), lambda *k: E("mrow", *k), lambda *k: E("foo", "t", *k),
              lambda *k: E("mfrac", *k), lambda *k: E("mi", *k), lambda *k: E("mtable", E("mtr", *k)), lambda *k: E("mphantom", *k), lambda *k: E("semantics", *k), lambda *k: E("maths", *k)):
        one(w(f("a"), f("b"), f("c")), "three formulas in <%s>" % w(f("a"), f("b")).tag)
        one(w(f("a"), mn("x"), f("c")), "elements beside formulas in <%s>" % w(f("a"), f("b")).tag)
        one(w(f("a"), E("div", f("b"), E("div", E("div", f("c")))), f("d")), "formulas at different depths in <%s>" % w(f("a"), f("b")).tag)
    for kids in ([], ["text"], [mn("x")], [E("mrow", mn("x"))], [E("Math", mn("x"))], [E("MATH", mn("x"))], [E("maths", mn("x"))], [E("m", mn("x"))], [E("mathml", mn("x"))], [("comment", "<math/>")], [("cdata", "<math/>")]):
        one(E("div", *kids), "document without a formula (%d)" % len(kids), key="document without a formula")
    for t in ("mi", "mo", "mn", "mtext", "mrow", "mfrac", "mtable", "maction", "mfenced"):
        one(E(t, "x"), "<%s> as the root" % t)
        one(E(t, mn("x"), mn("y")), "<%s> with children as the root" % t)
    # nested formulas
    for t in cs.containers() + ["mtr", "mtable", "math"]:
        one(E("math", mn("a"), E(t, E("math", mn("b")), mn("c"))), "formula in <%s> of another" % t)
        one(E("div", E("math", E(t, E("math", mn("b")))), E("math", mn("d"))), "formula in <%s> of another and one more" % t)
    one(E("math", E("math", E("math", mn("a"), mn("b")), mn("c")), mn("d")), "three nested formulas")
    one(E("div", E("math", E("math", mn("a"))), E("div", E("math", mn("b"), E("mrow", E("math", mn("c")))))), "nested formulas in two")
    one(E("math", E("mfrac", E("math", mn("a")), E("math", mn("b")))), "formulas as operands")
    one(E("math", E("msup", E("math", mn("a"), mn("b")), E("math"))), "formulas as base and script")
    one(Doc(f("a"), before=(("comment", "c"), ("pi", "p"))), "comment and instruction before the root")
    # blanks: every place where text or structure can bring white space into the line
    blanks = Hole("blank", [" ", "  ", "\t", "\u00a0", "\u2003", "\u3000", "\n", "\r", " \n\t ", "\u2028", "\x0b", "\x0c", "\x85"], closed=True)

    def clean(el, label):
        def judge(p, o):
            if o.kind != "value":
                return None
            v = o.value
            for env, s in p.evals(v.holes if isinstance(v, Term) else [], v):
                if s != s.strip():
                    return ("the result %r is not trimmed" % s[:200], env_for(p, el, env))
                if re.search(r"[\n\r\t\x0b\x0c\x85\u2028\u2029]", s):
                    return ("the result %r contains a line break or tab" % s[:200], env_for(p, el, env))
                if "  " in s:
                    return ("the result %r contains a run of spaces" % s[:200], env_for(p, el, env))
            return None
        ck.each(el if isinstance(el, Doc) else Doc(el), label, judge)
        ck.rule("one clean line")

    def env_for(p, el, env):
        hs = doc_holes(el if isinstance(el, Doc) else Doc(el))
        return env if all(h in env for h in hs) else (p.envs(hs)[0] if hs else {})
    T = lambda n: Hole(n, ["q", " ", "", "  q", "q  ", "q  z", "\n", "q\nz", "\t", "q\t", "\u00a0", "q\u00a0\u00a0z", "\u2003q", "q\r\nz", "q z", "→", "\\ "], ok=lambda s: len(s) < 60)
    for t in ("mi", "mo", "mn"):
        clean(E("math", E(t, T("t"))), "<%s>" % t)
        clean(E("math", E(t, T("t")), E(t, T("u"))), "two <%s>" % t)
        clean(E("div", E("math", E(t, T("t"))), E("math", E(t, T("u")))), "two formulas of <%s>" % t)
        for v in VARIANTS:
            clean(E("math", E(t, T("t"), mathvariant=v)), "<%s mathvariant=%s>" % (t, v))
    for n in range(1, 4):
        chars = [Hole("c%d" % i, ["q", " ", "\u00a0", "→", "\t", "\n", "7"], closed=True, char=True) for i in range(n)]
        for v in [None] + list(TEXT_VARIANTS):
            clean(E("math", E("mtext", cat(*chars), **({"mathvariant": v} if v else {}))), "<mtext mathvariant=%s> of %d characters" % (v, n))
        clean(E("math", E("mtext", cat("a", *(chars + ["b"])))), "<mtext> of %d characters between letters" % n)
        clean(E("div", E("math", E("mtext", cat(*chars))), E("math", E("mtext", cat(*chars)))), "two formulas of <mtext> of %d characters" % n)
    for a in ("open", "close", "separators"):
        for kids in ([mn("x"), mn("y")], [E("mtable", E("mtr", E("mtd", mn("x"))))], []):
            clean(E("math", E("mfenced", *kids).with_attrs({a: cat("q", blanks, blanks, "z")})), "blanks in %s" % a)
            clean(E("math", E("mfenced", *kids).with_attrs({a: blanks})), "a blank as %s" % a)
            clean(E("div", E("math", E("mfenced", *kids).with_attrs({a: cat(blanks, "q", blanks)})), E("math", E("mn", "1"))), "blanks around %s" % a)
    from .checks_text import all_symbols
    for t in ("mi", "mo", "mn", "mtext"):
        syms = sorted(vocab()[t if t != "mtext" else "char"])
        h = Hole("s", syms, closed=True, char=t == "mtext")
        clean(E("math", E(t, h)), "<%s> with a symbol" % t)
        clean(E("math", E(t, h), E(t, h)), "<%s> with a symbol twice" % t)
        clean(E("div", E("math", E(t, h)), E("math", E("mn", "1")), E("math", E(t, h))), "formulas of <%s> with a symbol" % t)
        if t == "mi":
            clean(E("math", E("mi", h, mathvariant="bold"), E("mi", "x")), "styled <mi> with a symbol")
    tags = [t for t in sorted(DOCUMENTED) if t not in TOKENS] + ["foo", "mtd"]
    nothing = [E("mphantom"), E("mrow"), E("mi"), E("mo", " "), E("mtext", " "), E("mtable"), E("mtr"), E("mrow", E("mphantom"), E("mphantom"))]
    for t in tags:
        n = ARITY.get(t, ("", 3))[1]
        for combo in itertools.product(range(3), repeat=n):
            for e in nothing:
                kids = [e if c == 0 else mn("v%d" % i) if c == 1 else E("mphantom") for i, c in enumerate(combo)]
                clean(E("math", E(t, *kids)), "<%s> with operands %s" % (t, combo))
        for b in tags:
            m = ARITY.get(b, ("", 2))[1]
            k = [E(b, *[E("mphantom") if i % 2 else mn("w%d" % i) for i in range(m)]) if i == 0 else E("mphantom") for i in range(n)]
            clean(E("math", E(t, *k)), "<%s> in <%s>" % (b, t))
