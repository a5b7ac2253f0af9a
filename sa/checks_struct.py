"""Structural properties: which operand goes where, and what is written around it."""
import itertools

from .core import *
from .terms import Term, parts, show
from .spec import NOTATIONS, VARIANTS, DOCUMENTED, INTERPRETED, ACCENTS, ARITY, TOKENS

ROWS = ["math", "mrow", "mstyle", "mpadded", "mtd", "foo"]
WRAPS = ["msqrt", "merror", "menclose"]
SEQ = ["mfenced", "mtr", "mtable", "maction"]


def in_math(el):
    return el if el.tag == "math" else E("math", el)


def nums(n, pre="v"):
    return [mn(pre + str(i)) for i in range(n)]


def containers():
    return ["mrow", "mstyle", "mtd", "foo", "msqrt", "merror", "mpadded", "mfenced", "maction", "menclose"]


def many(n):
    """n different small children (repeating after a while)."""
    return [E("mi", "abcdefghjkmpqrstuvwxyz"[i % 22]) if i % 3 else E("mn", str(i)) for i in range(n)]


# --------------------------------------------------------------------------------------------- C01
def c01(ck):
    full = lambda doc, label: ck.expect(doc, label)
    seq = lambda doc, label, gap: ck.expect(doc, label, compare=same_sequence(gap))

    def one(tag, kids, label):
        el = E(tag, *kids)
        if tag == "menclose":
            el.attrs["notation"] = "box"
        d = in_math(el)
        if tag in ROWS or tag in ("msqrt", "merror"):
            full(d, label)
        elif tag == "menclose":
            seq(d, label, True)
        else:
            seq(d, label, None)
        ck.rule("children once, in order: " + tag)
    for tag in ROWS + WRAPS + SEQ:
        for n in range(0, ck.K + 1):
            one(tag, nums(n), "<%s> with %d children" % (tag, n))
        for n in range(2, 6):
            one(tag, [mn("v") for _ in range(n)], "<%s> with %d identical children" % (tag, n))
        one(tag, [mn("v"), mn("w"), mn("v")], "<%s> with a repeated child" % tag)
        for n in ck.wide:
            one(tag, many(n), "<%s> with %d children" % (tag, n))
            if n <= 300:
                el = mn("x0")
                for i in range(n):
                    el = E(tag, el)
                one("math", [el], "%d nested <%s>" % (n, tag)) if tag in ROWS + ["msqrt", "merror"] else \
                    seq(in_math(el), "%d nested <%s>" % (n, tag), None)
        one(tag, [mn("v"), mn("v"), mn("w"), mn("w"), mn("v")], "<%s> with repeated runs" % tag)
        for l, e in kinds("x"):
            one(tag, [e], "<%s> with one child (%s)" % (tag, l))
            one(tag, [e, mn("w")], "<%s> with first child %s" % (tag, l))
            one(tag, [mn("w"), e], "<%s> with last child %s" % (tag, l))
            one(tag, [mn("u"), e, mn("w")], "<%s> with middle child %s" % (tag, l))
            one(tag, [e, mn("u"), kind("y", l)], "<%s> with two children of kind %s" % (tag, l))
            one(tag, [kind("x", l), mn("u"), kind("x", l)], "<%s> with identical children of kind %s" % (tag, l))
    # white space, comments and character data between child elements
    for tag in ROWS + WRAPS + SEQ:
        one(tag, ["  ", mn("v"), " text ", mn("w"), ("comment", " c "), mn("u"), ("cdata", "x"), ("pi", "p")],
            "<%s> with text and comments between its children" % tag)
    # nesting
    for a, b in itertools.product(ROWS[1:] + WRAPS + SEQ, repeat=2):
        inner = E(b, mn("x"), mn("y"))
        one(a, [mn("u"), inner, mn("w")], "<%s> in <%s>" % (b, a))
        if ck.thorough:
            for c in ROWS[1:] + WRAPS + SEQ:
                one(a, [mn("u"), E(b, mn("x"), E(c, mn("y"), mn("z"))), mn("w")], "<%s> in <%s> in <%s>" % (c, b, a))
    for tag in ROWS[1:] + WRAPS + SEQ:
        el = mn("x0")
        for i in range(1, 9):
            el = E(tag, mn("l%d" % i), el, mn("r%d" % i))
        one("math", [el], "eight nested <%s>" % tag) if tag in ROWS + ["msqrt", "merror"] else \
            seq(in_math(el), "eight nested <%s>" % tag, None)
    ck.expect(E("math", mn("u"), E("mphantom", mn("v"), E("mrow", mn("w"))), mn("w")), "<mphantom> between numbers")
    ck.expect(E("math", E("mphantom", E("mfrac", mn("v"), mn("w")))), "<mphantom> alone")


# --------------------------------------------------------------------------------------------- C02
def arity_message(ck, p, o, tag, cmp_, need, got):
    if o.kind == "value":
        return "%d operands are accepted: %s" % (got, o.show()[:200])
    if o.kind != "raise" or o.exc_name() != "InvalidNumberOfChildrenError":
        return "ends with %s instead of InvalidNumberOfChildrenError" % o.show()[:200]
    msg = o.exc_text(ck.I)
    if isinstance(msg, Term):
        return None if not holes_of(msg) else "the message %s depends on the operands" % show(msg)
    words = re.findall(r"\w+", msg)
    nums_ = [w for w in words if w.isdigit()]
    if tag not in words:
        return "the message %r does not name <%s>" % (msg, tag)
    if nums_ != [str(need), str(got)]:
        return "the message %r does not give the required number %d and the actual number %d" % (msg, need, got)
    if cmp_ not in msg or ("exactly" if cmp_ == "at least" else "at least") in msg:
        return "the message %r does not say %r" % (msg, cmp_)
    return None


def c02(ck):
    def check(root, tag, n, label):
        cmp_, need = ARITY[tag]
        bad = n != need if cmp_ == "exactly" else n < need

        def judge(p, o):
            if bad:
                t = arity_message(ck, p, o, tag, cmp_, need, n)
                return (t, None) if t else None
            if o.kind != "value":
                return ("%d operands are rejected: %s" % (n, o.show()[:200]), None)
            return None
        ck.each(root, label, judge)
        ck.rule("operand count of " + tag)
    ctx = [("", lambda x: E("math", x)), (" in an mrow", lambda x: E("math", mn("a"), E("mrow", mn("b"), x, mn("c")))),
           (" in a cell", lambda x: E("math", E("mtable", E("mtr", E("mtd", x))))),
           (" as a fraction operand", lambda x: E("math", E("mfrac", mn("a"), x))),
           (" as a base", lambda x: E("math", E("msup", x, mn("a")))),
           (" as a script", lambda x: E("math", E("msubsup", mn("a"), mn("b"), x))),
           (" in mfenced", lambda x: E("math", E("mfenced", x, E("mtable", E("mtr"))))),
           (" in an unknown element", lambda x: E("math", E("foo", x))),
           (" in a second formula", lambda x: E("div", E("math", mn("a")), E("math", x)))]
    for tag in ARITY:
        for n in range(0, ck.K + 1):
            for cl, c in ctx:
                check(c(E(tag, *nums(n))), tag, n, "<%s> with %d operands%s" % (tag, n, cl))
            check(E("math", E(tag, *[mn("v") for _ in range(n)])), tag, n, "<%s> with %d identical operands" % (tag, n))
            check(E("math", E(tag, *[E("mrow") for _ in range(n)])), tag, n, "<%s> with %d empty operands" % (tag, n))
            check(E("math", E(tag, *[E("mphantom", mn("v%d" % i)) for i in range(n)])), tag, n,
                  "<%s> with %d invisible operands" % (tag, n))
            mixed = ["  "]
            for i in range(n):
                mixed += [mn("v%d" % i), " text ", ("comment", " c ")]
            check(E("math", E(tag, *mixed)), tag, n, "<%s> with %d operands and text between them" % (tag, n))
            for l, e in kinds("x"):
                if n:
                    check(E("math", E(tag, *(nums(n - 1) + [e]))), tag, n, "<%s> with %d operands, the last %s" % (tag, n, l))
                    check(E("math", E(tag, *([e] + nums(n - 1)))), tag, n, "<%s> with %d operands, the first %s" % (tag, n, l))
        if tag == "mmultiscripts":
            for n in range(3, ck.K + 1):
                for i in range(0, n):
                    k = nums(n)
                    k[i] = E("mprescripts")
                    check(E("math", E(tag, *k)), tag, n, "<mmultiscripts> with %d children, marker at %d" % (n, i))
                check(E("math", E(tag, *([mn("a")] + [E("none")] * (n - 1)))), tag, n, "<mmultiscripts> with %d <none/>" % (n - 1))
        for v in ("true", "false", ""):
            for n in range(0, 4):
                if tag == "mfrac":
                    check(E("math", E("mfrac", *nums(n), bevelled=v)), tag, n, "<mfrac bevelled=%r> with %d operands" % (v, n))


# --------------------------------------------------------------------------------------------- C03
def c03(ck):
    two = ["mfrac", "mroot", "msub", "msup"]
    three = ["msubsup", "munderover"]
    variants = ({}, {"group": "never"}, {"group": "always"})

    def one(el, label):
        ck.expect(in_math(el), label, variants=variants)
        ck.rule("operand roles of " + el.tag)
    ks = [l for l, _ in kinds("x")]
    for tag in two:
        for a, b in itertools.product(ks, repeat=2):
            one(E(tag, kind("x", a), kind("y", b)), "<%s> of %s and %s" % (tag, a, b))
        for a in ks:
            one(E(tag, kind("x", a), kind("x", a)), "<%s> of two equal operands (%s)" % (tag, a))
    for tag in three:
        for a in ks:
            one(E(tag, kind("x", a), mn("y"), mn("z")), "<%s> with base %s" % (tag, a))
            one(E(tag, mn("x"), kind("y", a), mn("z")), "<%s> with second operand %s" % (tag, a))
            one(E(tag, mn("x"), mn("y"), kind("z", a)), "<%s> with third operand %s" % (tag, a))
            one(E(tag, kind("x", a), kind("x", a), kind("x", a)), "<%s> of equal operands (%s)" % (tag, a))
            one(E(tag, mn("x"), kind("y", a), kind("y", a)), "<%s> with equal scripts (%s)" % (tag, a))
            for b in ks:
                one(E(tag, mn("x"), kind("y", a), kind("z", b)), "<%s> with scripts %s and %s" % (tag, a, b))
                if ck.thorough:
                    one(E(tag, kind("x", a), kind("y", b), mn("z")), "<%s> of %s, %s" % (tag, a, b))
                    one(E(tag, kind("x", a), mn("y"), kind("z", b)), "<%s> of %s, -, %s" % (tag, a, b))
    # nested in each other and among siblings
    for a, b in itertools.product(two + three, repeat=2):
        na, nb = ARITY[a][1], ARITY[b][1]
        for i in range(na):
            k = [mn("o%d" % j) for j in range(na)]
            k[i] = E(b, *[mn("i%d" % j) for j in range(nb)])
            one(E(a, *k), "<%s> as operand %d of <%s>" % (b, i + 1, a))
            ck.expect(E("math", mn("u"), E(a, *k), mn("w")), "<%s> with <%s> inside, among siblings" % (a, b), variants=variants)
        if ck.thorough:
            for c in two + three:
                for i in range(na):
                    for m in range(nb):
                        kb = [mn("i%d" % j) for j in range(nb)]
                        kb[m] = E(c, *[mn("c%d" % j) for j in range(ARITY[c][1])])
                        k = [mn("o%d" % j) for j in range(na)]
                        k[i] = E(b, *kb)
                        one(E(a, *k), "<%s> in <%s> in <%s>" % (c, b, a))
    # white space between the operands, and operands that are large operators or relations
    for tag in two + three:
        n = ARITY[tag][1]
        k = [" "]
        for i in range(n):
            k += [mn("v%d" % i), " \t ", ("comment", "c")]
        one(E(tag, *k), "<%s> with white space between its operands" % tag)
        for sym in ("∑", "∫", "lim", "(", ")", "∏", "=", "-", "'", "′", "∞", "max"):
            for i in range(n):
                kk = [mn("v%d" % j) for j in range(n)]
                kk[i] = E("mo", sym)
                one(E(tag, *kk), "<%s> with operand %d the operator %s" % (tag, i + 1, sym))
    for c in containers():
        for tag in two + three:
            ck.expect(E("math", E(c, E(tag, *nums(ARITY[tag][1])))), "<%s> in <%s>" % (tag, c), variants=variants,
                      compare=None if c not in ("mfenced", "maction", "menclose") else None)


# --------------------------------------------------------------------------------------------- C04
def c04(ck):
    def order_kept(p, o, exps):
        # only a difference that keeps the operands' sequence is about grouping
        if o.kind != "value":
            return False
        a, b = occurrences(o.value), occurrences(exps[0])
        return a is None or b is None or [h.name for h, _ in a[0]] == [h.name for h, _ in b[0]]

    def one(el, label):
        ck.expect(in_math(el), label, attributable=order_kept)
        ck.rule("grouping in " + el.tag)
    bases = list(kinds("x"))
    for tag in containers() + ["mtr", "mtable"]:
        for n in range(0, 5):
            e = E(tag, *nums(n, "x"))
            bases.append(("<%s> of %d" % (tag, n), e))
        bases.append(("<%s> of 2 nothings" % tag, E(tag, E("mphantom"), E("mn"))))
        bases.append(("<%s> of 3 nothings" % tag, E(tag, E("mphantom"), E("mn"), E("mrow"))))
        bases.append(("<%s> of nothing and a number" % tag, E(tag, E("mphantom"), mn("x"))))
        bases.append(("<%s> of a row of 2" % tag, E(tag, E("mrow", mn("x"), mn("y")))))
        bases.append(("<%s> with text and one child" % tag, E(tag, "abc", mn("x"), " ")))
    for t in ("mphantom", "mn", "mi", "mo", "mtext"):
        bases.append(("<%s> with two children" % t, E(t, mn("x"), mn("y"))))
    for t in ARITY:
        bases.append(("<%s>" % t, E(t, *nums(ARITY[t][1], "x"))))
    for v in ("toggle", "statusline", "tooltip", ""):
        bases.append(("maction %s of 2" % v, E("maction", mn("x"), mn("y"), actiontype=v)))
    for s in ("x", "xy", "α", "∑", "sin", "12", "(", "-"):
        for t in ("mi", "mo", "mn"):
            bases.append(("<%s>%s" % (t, s), E(t, s)))
            bases.append(("mrow of <%s>%s and nothing" % (t, s), E("mrow", E(t, s), E("mphantom"))))
    for label, b in bases:
        for tag in ("msup", "msub"):
            one(E(tag, b, mn("s")), "<%s> with base %s" % (tag, label))
        one(E("msubsup", b, mn("s"), mn("t")), "<msubsup> with base %s" % label)
        # scripts are never grouped
        one(E("msup", mn("b"), b), "<msup> with script %s" % label)
        one(E("msub", mn("b"), b), "<msub> with script %s" % label)
        one(E("msubsup", mn("b"), b, mn("t")), "<msubsup> with subscript %s" % label)
        one(E("msubsup", mn("b"), mn("t"), b), "<msubsup> with superscript %s" % label)
        for v in ("true",):
            one(E("mfrac", b, mn("d"), bevelled=v), "bevelled fraction with numerator %s" % label)
            one(E("mfrac", mn("d"), b, bevelled=v), "bevelled fraction with denominator %s" % label)
            one(E("mfrac", b, b, bevelled=v), "bevelled fraction with equal operands %s" % label)
        one(E("mfrac", b, mn("d")), "fraction with numerator %s" % label)
        one(E("mfrac", b, mn("d"), bevelled="false"), "plain fraction with numerator %s" % label)
    beveled = Hole("bev", ["true", "false", "", "True", "TRUE", "1", "yes", "true ", " true", "bevelled", "t", "truetrue"])
    for a in ("number", "nothing", "mrow of 2", "empty mrow"):
        one(E("mfrac", kind("x", a), kind("y", a), bevelled=beveled), "fraction with any bevelled value, %s operands" % a)
    one(E("mfrac", mn("x"), mn("y")), "fraction without bevelled")
    for v in ck.strs:
        if len(v) < 30 and "\n" not in v and v != "true":
            one(E("mfrac", mn("x"), mn("y"), bevelled=v), "fraction with bevelled=%r" % v)
    for a in ("beveled", "linethickness", "BEVELLED", "bevelled2"):
        one(E("mfrac", mn("x"), mn("y")).with_attrs({a: "true"}) and E("math", E("mfrac", mn("x"), mn("y")).with_attrs({a: "true"})),
            "fraction with %s=true" % a)
    # nested scripts and a grouped base deep in the tree
    for t in ("msup", "msub"):
        el = E("mrow", mn("x0"), mn("y0"))
        for i in range(1, 6):
            el = E(t, el, mn("s%d" % i))
        one(el, "five nested <%s>" % t)
        for c in containers():
            one(E("math", E(c, E(t, E("mrow", mn("x"), mn("y")), mn("s")))), "<%s> with grouped base in <%s>" % (t, c))


# --------------------------------------------------------------------------------------------- C05
FENCES = ["(", ")", "[", "]", "{", "}", "|", "||", "‖", "⟨", "⟩", "<", ">", "/", "\\", "⌈", "⌋", ".", "∣", "\\{", "\\langle",
          "", " ", "open", "close", "separators", "(("]


def fence_hole(name):
    return Hole(name, FENCES + ["q", "qz"])


def c05(ck):
    def one(el, label):
        ck.expect(in_math(el), label)
        ck.rule("mfenced without table")
    for n in range(0, ck.K + 1):
        k = lambda: nums(n)
        one(E("mfenced", *k()), "mfenced of %d" % n)
        for s in ("", ",", ";", ",;", ";;,", ",,|", "|;,:", "abcdefghij", " ", ", ;", "separators", "s", ",;.:!?/&%$#", "&", "\\",
                  "∣⋅", "  ", ";\u00a0,"):
            one(E("mfenced", *k(), separators=s), "mfenced of %d with separators %r" % (n, s))
        for m in range(1, 6):
            s = cat(*[Hole("s%d" % i, [",", ";", "|", "q", "\\", " ", "→"], char=True) for i in range(m)])
            one(E("mfenced", *k(), separators=s), "mfenced of %d with %d unknown separators" % (n, m))
        one(E("mfenced", *k(), open=fence_hole("o")), "mfenced of %d with any open" % n)
        one(E("mfenced", *k(), close=fence_hole("c")), "mfenced of %d with any close" % n)
        one(E("mfenced", *k(), open=fence_hole("o"), close=fence_hole("c")), "mfenced of %d with any fences" % n)
        one(E("mfenced", *k(), open=fence_hole("o"), separators=";,"), "mfenced of %d with any open and separators" % n)
        one(E("mfenced", *k(), close=fence_hole("c"), separators=""), "mfenced of %d with any close, no separators" % n)
        one(E("mfenced", *[mn("v") for _ in range(n)], separators=";,"), "mfenced of %d equal children" % n)
    for n in ck.wide:
        for sp in (None, ";", ",;|", ";," * (n // 2 - 1), ";" * (n + 3), ",;" * n):
            one(E("mfenced", *many(n), **({} if sp is None else {"separators": sp})), "mfenced of %d with separators %r" % (n, sp and sp[:9]))
    for o, c in itertools.product(FENCES + [None], repeat=2):
        a = {}
        if o is not None:
            a["open"] = o
        if c is not None:
            a["close"] = c
        one(E("mfenced", mn("v"), mn("w"), **a), "mfenced open=%r close=%r" % (o, c))
        one(E("mfenced", **a), "empty mfenced open=%r close=%r" % (o, c))
        if ck.thorough:
            one(E("mfenced", mn("v"), mn("w"), mn("x"), separators=";|", **a), "mfenced of 3 open=%r close=%r" % (o, c))
    for l, e in kinds("x"):
        if l == "table":
            continue
        one(E("mfenced", e), "mfenced of %s" % l)
        one(E("mfenced", e, mn("v"), separators=";,"), "mfenced with first child %s" % l)
        one(E("mfenced", mn("v"), e, separators=";,"), "mfenced with last child %s" % l)
        one(E("mfenced", mn("v"), e, mn("w"), separators=";,"), "mfenced with middle child %s" % l)
        one(E("mfenced", e, kind("x", l), kind("x", l), open="[", close="["), "mfenced with three equal children %s" % l)
    # equal or similar renderings of different children, empty renderings at the ends
    for n in range(2, 6):
        for i in range(n):
            k = nums(n)
            k[i] = E("mphantom")
            one(E("mfenced", *k, separators=";,:"), "mfenced of %d with nothing at %d" % (n, i))
            k = nums(n)
            k[i] = mn("v%d" % ((i + 1) % n))
            one(E("mfenced", *k, separators=";,:"), "mfenced of %d with a repeated child at %d" % (n, i))
        one(E("mfenced", *[E("mphantom") for _ in range(n)], separators=";,:"), "mfenced of %d nothings" % n)
    for c in containers():
        one(E("math", E(c, E("mfenced", mn("x"), mn("y"), open="[", separators=";"), mn("w"))), "mfenced in <%s>" % c)
        one(E("mfenced", E(c, mn("x"), mn("y")), mn("w"), open="[", separators=";"), "<%s> in mfenced" % c)
    # a table beside or above is not a table inside
    one(E("math", E("mtable", E("mtr", E("mtd", E("mfenced", mn("x"), mn("y")))))), "mfenced inside a table cell")
    one(E("math", E("mtable", E("mtr", E("mtd", mn("z")))), E("mfenced", mn("x"), mn("y"))), "mfenced after a table")
    for t in ("mtr", "mtd", "mtables", "Mtable", "table", "mtabl", "mlabeledtr"):
        one(E("mfenced", E(t, mn("x"), mn("y")), mn("z")), "mfenced around <%s>" % t)
        one(E("mfenced", E("mrow", E(t, mn("x"), mn("y"))), mn("z")), "mfenced around a row with <%s>" % t)
    one(E("mfenced", E("mtext", "mtable"), mn("z")), "mfenced around the text mtable")
    el = mn("x0")
    for i in range(1, 7):
        el = E("mfenced", mn("l%d" % i), el, open="[", close=")", separators=";|")
    one(el, "six nested mfenced")


# --------------------------------------------------------------------------------------------- C06
def table(pre="t", rows=1, cols=1):
    return E("mtable", *[E("mtr", *[E("mtd", mn("%s%d%d" % (pre, r, c))) for c in range(cols)]) for r in range(rows)])


def c06(ck):
    def one(el, label):
        ck.expect(in_math(el), label)
        ck.rule("mfenced with a table inside")
    F = FENCES + [None]
    for o, c in itertools.product(F, repeat=2):
        a = {}
        if o is not None:
            a["open"] = o
        if c is not None:
            a["close"] = c
        one(E("mfenced", table("t", 2, 2), **a), "fenced table open=%r close=%r" % (o, c))
        one(E("mfenced", E("mrow", mn("v"), table()), mn("w"), separators=";", **a), "table in a row, open=%r close=%r" % (o, c))
    for v in ck.strs:
        if 0 < len(v) < 12 and "\n" not in v:
            one(E("mfenced", table(), open=v, close=v), "fenced table with equal fences %r" % v)
            one(E("mfenced", table(), open=v), "fenced table with open %r" % v)
            one(E("mfenced", table(), close=v), "fenced table with close %r" % v)
    one(E("mfenced", table(), open=fence_hole("o"), close=fence_hole("c")), "fenced table with any fences")
    one(E("mfenced", table(), open=fence_hole("o")), "fenced table with any open")
    one(E("mfenced", table(), close=fence_hole("c")), "fenced table with any close")
    oh = fence_hole("o")
    one(E("mfenced", table(), open=oh, close=oh), "fenced table with any equal pair")
    pairs = [("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("", ""), ("<", ">"), ("[", ")"), ("/", "/")]
    chains = [[c] for c in containers() + ["mtr", "mphantom", "semantics", "mpadded"]]
    chains += [list(x) for x in itertools.product(["mrow", "mstyle", "foo", "msqrt", "mtd"], repeat=2)]
    chains += [["mrow"] * n for n in (3, 4, 5, 6, 9)]
    for o, c in pairs:
        for ch in chains:
            el = table()
            for t in ch:
                el = E(t, el)
            one(E("mfenced", el, open=o, close=c), "table inside %s, fences %s%s" % (">".join(reversed(ch)), o, c))
            el2 = E("mrow", mn("a"), el, mn("b"))
            one(E("mfenced", mn("v"), el2, mn("w"), open=o, close=c, separators=";"),
                "table with siblings inside %s, fences %s%s" % (">".join(reversed(ch)), o, c))
        for tag in ("mfrac", "mroot", "msup", "msub", "mover", "munder"):
            one(E("mfenced", E(tag, mn("x"), table()), open=o, close=c), "table as second operand of <%s>" % tag)
            one(E("mfenced", E(tag, table(), mn("x")), open=o, close=c), "table as first operand of <%s>" % tag)
        for tag in ("msubsup", "munderover", "mmultiscripts"):
            one(E("mfenced", E(tag, mn("x"), mn("y"), table()), open=o, close=c), "table as third operand of <%s>" % tag)
        for n in range(1, 5):
            for i in range(n):
                k = nums(n)
                k[i] = table()
                one(E("mfenced", *k, open=o, close=c, separators=";,"), "table at %d of %d children, fences %s%s" % (i, n, o, c))
                k[i] = E("mrow", mn("x"), E("mstyle", table()))
                one(E("mfenced", *k, open=o, close=c), "row with a table at %d of %d children" % (i, n))
        one(E("mfenced", table("t"), table("u"), open=o, close=c), "two tables, fences %s%s" % (o, c))
        one(E("mfenced", E("mtable"), open=o, close=c), "an empty table, fences %s%s" % (o, c))
        one(E("mfenced", E("mtable", E("mtr", E("mtd", table("u", 2, 1)), E("mtd", mn("v")))), open=o, close=c), "a nested table")
        one(E("mfenced", E("mfenced", table(), open="["), open=o, close=c), "mfenced in mfenced around a table")
        one(E("mfenced", E("mfenced", table(), open="[", close="]"), mn("v"), open=o, close=c), "mfenced in mfenced")
        one(E("mtable", E("mtr", E("mtd", E("mfenced", table("u"), open=o, close=c)))), "fenced table in a table cell")
        one(E("math", E("mfenced", table("t"), open=o, close=c), E("mfenced", mn("x"), mn("y"), open=o, close=c)),
            "fenced table before a fenced list")
        one(E("math", E("mfenced", mn("x"), mn("y"), open=o, close=c), E("mfenced", table("t"), open=o, close=c)),
            "fenced table after a fenced list")
        one(E("math", E("mfenced", table("t"), open=o, close=c), E("mfenced", table("u"), open="(", close=")")),
            "two fenced tables")


# --------------------------------------------------------------------------------------------- C07
def c07(ck):
    def one(el, label, key=None):
        ck.expect(in_math(el), label, key=key)
        ck.rule("table layout")
    R = min(ck.K, 7) if not ck.thorough else ck.K
    for n in ck.wide:
        one(E("mtable", *[E("mtr", E("mtd", x)) for x in many(n)]), "table of %d rows" % n)
        one(E("mtable", E("mtr", *[E("mtd", x) for x in many(n)])), "table of %d columns" % n)
        one(E("mtable", *([E("mtr", E("mtd", x)) for x in many(n)] + [E("mtr", E("mtd", table("w")))])), "table of %d rows and one with a table" % n)
        one(E("mtable", E("mtr", *([E("mtd", x) for x in many(n)] + [E("mtd", table("w"))]))), "row of %d cells and one with a table" % n)
        one(E("mtable", E("mtr", E("mtd", *(list(many(n)) + [table("w")])))), "cell of %d elements and a table" % n)
        if n <= 300:
            t = mn("x")
            for i in range(n):
                t = E("mrow", t)
            one(E("mtable", E("mtr", E("mtd", E("mtable", E("mtr", E("mtd", t)))))), "table with a cell %d rows deep" % n)
            t = table("v")
            for i in range(n):
                t = E("mrow", t)
            one(E("mtable", E("mtr", E("mtd", t))), "table %d rows deep in a table" % n)
    for r in range(0, R + 1):
        for c in range(0, R + 1):
            one(table("v", r, c), "table of %d x %d" % (r, c))
            one(E("mtable", *[E("mtr", *[E("mtd", mn("v")) for _ in range(c)]) for _ in range(r)]),
                "table of %d x %d equal cells" % (r, c))
        one(E("mtable", *[E("mtr") for _ in range(r)]), "table of %d empty rows" % r)
        one(E("mtable", *[E("mtr", *[E("mtd") for _ in range(r)]) for _ in range(2)]), "table with %d empty cells per row" % r)
        one(E("mtable", *[E("mtr", *[E("mtd", mn("v%d%d" % (i, j))) for j in range(i)]) for i in range(r)]), "triangular table %d" % r)
        one(E("mtr", *[E("mtd", mn("v%d" % j)) for j in range(r)]), "row of %d outside of a table" % r)
        one(E("mtable", *nums(r)), "table with %d direct numbers" % r)
        for i in range(r):
            rows = [E("mtr", E("mtd", mn("a%d" % j)), E("mtd", mn("b%d" % j))) for j in range(r)]
            rows[i] = E("mtr")
            one(E("mtable", *rows), "table of %d rows, row %d empty" % (r, i))
            cells = [E("mtd", mn("a%d" % j)) for j in range(r)]
            cells[i] = E("mtd")
            one(E("mtable", E("mtr", *cells)), "row of %d cells, cell %d empty" % (r, i))
            cells = [E("mtd", mn("a%d" % j)) for j in range(r)]
            cells[i] = mn("x")
            one(E("mtable", E("mtr", *cells)), "row of %d cells, cell %d not in an mtd" % (r, i))
    for l, e in kinds("x"):
        one(E("mtable", E("mtr", E("mtd", e), E("mtd", mn("v"))), E("mtr", E("mtd", mn("w")), E("mtd", kind("x", l)))),
            "table with cells of kind %s" % l)
        one(E("mtable", E("mtr", E("mtd", mn("u"), e, mn("v")))), "cell with %s inside" % l)
        one(E("mtable", e, E("mtr", E("mtd", mn("v")))), "table with a first child %s" % l)
    one(E("mtable", " ", E("mtr", " ", E("mtd", " ", mn("v"), " "), ("comment", "c"), E("mtd", mn("w"))), " text ", E("mtr", "x")),
        "table with white space and comments")
    # nesting: an inner table at the end of every chain of intermediate elements
    inter = containers() + ["mphantom", "semantics"]

    def nest(chain, inner, outer_pos=0):
        el = inner
        for t in chain:
            el = E(t, el)
        return E("mtable", E("mtr", E("mtd", el), E("mtd", mn("w"))))
    one(nest([], table("u", 2, 2)), "table in a cell")
    for a in inter:
        one(nest([a], table("u", 2, 2)), "table inside <%s> in a cell" % a)
        for b in inter:
            one(nest([a, b], table("u", 1, 2)), "table inside <%s> inside <%s> in a cell" % (a, b))
    for n in (3, 4, 5, 6, 8):
        for a in ("mrow", "mstyle", "foo", "mtd"):
            one(nest([a] * n, table("u", 1, 2)), "table inside %d nested <%s> in a cell" % (n, a))
    for tag in ARITY:
        n = ARITY[tag][1]
        for i in range(n):
            k = [mn("o%d" % j) for j in range(n)]
            k[i] = table("u", 2, 1)
            one(E("mtable", E("mtr", E("mtd", E(tag, *k)))), "table as operand %d of <%s> in a cell" % (i + 1, tag))
            k = [mn("o%d" % j) for j in range(n)]
            k[i] = table("u", 2, 1)
            one(E(tag, *k), "table as operand %d of <%s>" % (i + 1, tag))
    for depth in range(2, 7):
        el = table("d", 1, 2)
        for i in range(1, depth):
            el = E("mtable", E("mtr", E("mtd", mn("l%d" % i)), E("mtd", el)), E("mtr", E("mtd", mn("r%d" % i))))
        one(el, "%d nested tables" % depth)
        el = table("d", 1, 2)
        for i in range(1, depth):
            el = E("mtable", el)
        one(el, "%d tables directly in each other" % depth)
        el = table("d", 1, 2)
        for i in range(1, depth):
            el = E("mtable", E("mtr", E("mtd", E("mrow", E("mstyle", el), mn("l%d" % i)))))
        one(el, "%d nested tables with intermediates" % depth)
    one(E("mtable", E("mtr", table("u", 1, 2))), "table directly in a row")
    one(E("mtable", table("u", 1, 2), table("x", 1, 2)), "two tables directly in a table")
    one(E("mtable", E("mtr", E("mtd", table("u")), E("mtd", table("x"))), E("mtr", E("mtd", table("y")))), "three tables in a table")
    one(E("mtable", E("mtr", E("mtd", table("u"))), E("mtr", E("mtd", mn("v")))), "nested table before a number")
    for c in ["mrow", "mstyle", "foo", "mfrac", "msup", "mover"]:
        k = [table("t", 1, 2), table("u", 1, 2)]
        one(E(c, *k), "two tables side by side in <%s>" % c)
    one(E("math", table("t", 1, 2), table("u", 1, 2)), "two tables side by side")
    one(E("math", nest([], table("u", 1, 2)), table("x", 1, 2)), "a table after a nested table")
    one(E("math", table("x", 1, 2), nest([], table("u", 1, 2))), "a table before a nested table")
    one(E("div", E("math", nest([], table("u", 1, 2))), E("math", table("x", 1, 2))), "a formula after one with a nested table")
    one(E("div", E("math", table("x", 1, 2)), E("math", nest(["mrow"], table("u", 1, 2)))), "a formula before one with a nested table")
    for c in inter:
        if c != "mfenced":
            one(E("math", E(c, table("u", 2, 1))), "outermost table in <%s>" % c)
            one(E("math", E(c, E(c, table("u", 2, 1)), mn("w"))), "outermost table in two <%s>" % c)
    for o, c in (("(", ")"), ("[", ")"), ("", "")):
        one(E("mfenced", table("u", 2, 2), open=o, close=c), "outermost table in mfenced %s%s" % (o, c))
        one(nest([], E("mfenced", table("u", 2, 2), open=o, close=c)), "fenced table in a cell")
    # attributes do not decide the nesting (a table that carries the converter's own mark is a known finding)
    for v in ("innerTable", "true", "", "false", "q"):
        one(E("mtable", E("mtr", E("mtd", mn("v")))).with_attrs({"innerTable": v}), "outermost table with innerTable=%r" % v,
            key="table-attribute-innerTable")
        one(E("mtable", E("mtr", E("mtd", table("u").with_attrs({"innerTable": v})))), "inner table with innerTable=%r" % v,
            key="inner-table-attribute-innerTable")


# --------------------------------------------------------------------------------------------- C08
def c08(ck):
    def one(el, label):
        ck.expect(in_math(el), label)
        ck.rule("notation")
    names = list(NOTATIONS) + ["longdiv", "", "notation", "foo", "LEFT", "left right", "left ", "Box", "boxed", "rounded", "top bottom",
                               "updiagonal", "strike", "arrow", "circ", "madruw", "none", "radicals"]
    for v in ck.strs:
        if 0 < len(v) < 24 and "\n" not in v and v not in names:
            names.append(v)
    for v in names:
        for n in range(0, 5):
            one(E("menclose", *nums(n), notation=v), "menclose %r of %d" % (v, n))
        if v in NOTATIONS or v in ("longdiv", "foo"):
            for l, e in kinds("x"):
                one(E("menclose", e, notation=v), "menclose %r of %s" % (v, l))
                one(E("menclose", mn("u"), e, mn("w"), notation=v), "menclose %r around %s" % (v, l))
            one(E("menclose", mn("v"), mn("v"), mn("v"), notation=v), "menclose %r of equal children" % v)
            for w in list(NOTATIONS) + ["longdiv"]:
                one(E("menclose", E("menclose", mn("x"), mn("y"), notation=w), mn("z"), notation=v), "menclose %r in %r" % (w, v))
                if v in NOTATIONS and w in NOTATIONS:
                    one(E("menclose", mn("z"), notation=v + " " + w), "menclose %r" % (v + " " + w))
            for c in containers():
                one(E("math", E(c, E("menclose", mn("x"), mn("y"), notation=v), mn("z"))), "menclose %r in <%s>" % (v, c))
    for n in range(0, 6):
        one(E("menclose", *nums(n)), "menclose without notation of %d" % n)
    any_ = Hole("notation", list(NOTATIONS) + ["longdiv", "", "notation", "q", "left right"])
    for n in (0, 1, 2):
        one(E("menclose", *nums(n), notation=any_), "menclose with any notation, %d children" % n)


# --------------------------------------------------------------------------------------------- C23
def c23(ck):
    def marks(n):
        return E("mprescripts")

    def expect(kids, label, key=None):
        """base, post pairs, pre pairs by the statement; pairs beyond the first are findings."""
        el = E("mmultiscripts", *kids)
        ck.expect(in_math(el), label, key=key)
        ck.rule("scripts of mmultiscripts")
    ks = kinds("x")
    S = lambda n: [mn("s%d" % i) for i in range(n)]
    for l, b in ks:
        expect([b] + S(2), "base %s, one pair" % l)
        expect([b, marks(0)] + S(2), "base %s, one prescript pair" % l)
        expect([b] + S(2) + [marks(0), mn("p"), mn("q")], "base %s, both pairs" % l)
        for i in range(2):
            s = S(2)
            s[i] = kind("y", l)
            expect([mn("b")] + s, "script %d %s" % (i, l))
            expect([mn("b"), marks(0)] + s, "prescript %d %s" % (i, l))
            expect([mn("b"), mn("p"), mn("q"), marks(0)] + s, "prescript %d %s after a pair" % (i, l))
            expect([mn("b")] + s + [marks(0), mn("p"), mn("q")], "postscript %d %s before prescripts" % (i, l))
        expect([kind("x", l), kind("x", l), kind("x", l)], "base and scripts all %s" % l)
        expect([kind("x", l)] + [kind("x", l), kind("x", l)] + [marks(0)] + [kind("x", l), kind("x", l)], "all operands %s" % l)
    none = lambda: E("none")
    for a, b in itertools.product(("none", "mn", "mrow"), repeat=2):
        mk = lambda t, n: E(t) if t != "mn" else mn(n)
        expect([mn("b"), mk(a, "s"), mk(b, "t")], "scripts <%s> <%s>" % (a, b))
        expect([mn("b"), marks(0), mk(a, "s"), mk(b, "t")], "prescripts <%s> <%s>" % (a, b))
        expect([mn("b"), mk(a, "s"), mk(b, "t"), marks(0), mk(b, "p"), mk(a, "q")], "both with <%s> <%s>" % (a, b))
    for s in ("x", "x y", " x ", "xy", "\u00a0", "a\u2003b", "α", "→", "∴"):
        for t in ("mi", "mn", "mo", "mtext"):
            expect([E(t, s)] + S(2), "base <%s>%r" % (t, s))
            expect([E(t, s), marks(0)] + S(2), "base <%s>%r with prescripts" % (t, s))
    for n in range(0, 5):
        expect([E("mrow", *nums(n))] + S(2), "base row of %d" % n)
        expect([E("msqrt", *nums(n)), marks(0)] + S(2), "base root of %d" % n)
    expect([mn("b"), mn("v"), mn("v")], "equal scripts")
    expect([mn("b"), mn("v"), mn("v"), marks(0), mn("v"), mn("v")], "equal scripts on both sides")
    expect([mn("v"), mn("v"), mn("v"), marks(0), mn("v"), mn("v")], "everything equal")
    expect([mn("b"), mn("s"), mn("t"), marks(0)], "marker without prescripts after a pair")
    for i in range(2):
        s = S(2)
        s[i] = E("mrow", E("mprescripts"))
        expect([mn("b")] + s, "marker inside script %d" % i)
        expect([mn("b")] + s + [marks(0), mn("p"), mn("q")], "marker inside script %d, real marker after it" % i)
    expect([E("mrow", E("mprescripts"), mn("b"))] + S(2), "marker inside the base")
    for t in ("mprescript", "prescripts", "Mprescripts", "mprescriptss", "none", "mprescripts2", "m:mprescripts", "x:mprescripts", "MPRESCRIPTS", "MPrescripts", "mPrescripts",
              "mprescripts-", "_mprescripts", "mprescripts.", "mml-mprescripts", "mprescripts_", "ns.mprescripts", "premprescripts"):
        expect([mn("b"), E(t), mn("s")], "script <%s/>" % t)
        expect([mn("b"), E(t), mn("s"), mn("t")], "two scripts after <%s/>" % t)
        expect([mn("b"), mn("s"), mn("t"), E(t), mn("p")], "pair, then <%s/> and a script" % t)
        expect([mn("b"), mn("s"), E(t), mn("t")], "<%s/> as the second script" % t)
        expect([mn("b"), E(t), mn("s"), marks(0), mn("p"), mn("q")], "<%s/> before the marker" % t)
        expect([mn("b"), marks(0), E(t), mn("q")], "<%s/> after the marker" % t)
        expect([mn("b"), mn("s"), mn("t"), marks(0), mn("p"), E(t)], "<%s/> among the prescripts" % t)
    unknown = Hole("tag", ["foo", "mprescriptsx", "m.mprescripts"], ok=lambda s: re.match(r"^[A-Za-z_][\w.-]*(:[A-Za-z_][\w.-]*)?$", s) is not None and s not in DOCUMENTED and s != "mprescripts")
    expect([mn("b"), E(unknown), mn("s"), mn("t")], "an element of any other name after the base")
    expect([mn("b"), mn("s"), mn("t"), E(unknown), mn("p")], "an element of any other name after a pair")
    for c in containers():
        ck.expect(E("math", E(c, E("mmultiscripts", mn("b"), mn("s"), mn("t"), marks(0), mn("p"), mn("q")), mn("w"))),
                  "mmultiscripts in <%s>" % c)
    expect([E("mmultiscripts", mn("b"), mn("s"), mn("t"))] + [mn("u"), mn("v")], "nested mmultiscripts")
    # pairs beyond the first on a side
    extra(ck)


def extra(ck):
    """Pairs beyond the first on a side are rendered too."""
    m = E("mprescripts")

    def demand(kids, hs, label, key):
        def judge(p, o):
            if o.kind != "value":
                return ("ends with %s" % o.show()[:120], None)
            missing = [h for h in hs if h not in [x.name for x in holes_of(o.value)]]
            if missing:
                return ("the scripts %s are not rendered" % ", ".join(missing), None)
        ck.each(in_math(E("mmultiscripts", *kids)), label, judge, key=key)

    def sides(kids, post, pre, label):
        """However many pairs there are, the first ones are rendered, and what is rendered stands on its side."""
        def judge(p, o):
            if o.kind != "value":
                return ("ends with %s" % o.show()[:120], None)
            seq = [h.name for x in parts(o.value) if isinstance(x, Term) for h in x.holes]
            for side, names in (("postscript", post), ("prescript", pre)):
                if names and not set(names[:2]) <= set(seq):
                    if side == "prescript" and len(post) > 2 and not set(names) & set(seq):
                        continue            # recorded above
                    return ("the first %s pair is not rendered: %s" % (side, show(o.value)), None)
                at = [seq.index(n) for n in names if n in seq]
                if any(seq.count(n) > 1 for n in names) or [seq[i] for i in sorted(at)] != [
                        n for n in names if n in seq] and len(at) <= 2:
                    return ("a %s is repeated or out of order: %s" % (side, show(o.value)), None)
                if "b" in seq and any((i < seq.index("b")) != (side == "prescript") for i in at):
                    return ("a %s stands on the wrong side of the base: %s" % (side, show(o.value)), None)
        ck.each(in_math(E("mmultiscripts", *kids)), label, judge)
    for n in (2, 3, 4):
        post = ["s%d" % i for i in range(2 * n)]
        pre = ["p%d" % i for i in range(2 * n)]
        for a, b in ((post, []), ([], pre), (post[:2], pre), (post, pre[:2]), (post, pre)):
            sides([mn("b")] + [mn(x) for x in a] + ([E("mprescripts")] if b else []) + [mn(x) for x in b], a, b,
                  "%d postscripts and %d prescripts" % (len(a), len(b)))
    for n in (2, 3):
        post = [mn("s%d" % i) for i in range(2 * n)]
        pre = [mn("p%d" % i) for i in range(2 * n)]
        demand([mn("b")] + post, ["s%d" % i for i in range(2 * n)], "%d postscript pairs" % n, "pairs-beyond-first-post")
        demand([mn("b"), E("mprescripts")] + pre, ["p%d" % i for i in range(2 * n)], "%d prescript pairs" % n, "pairs-beyond-first-pre")
        demand([mn("b")] + post + [E("mprescripts")] + pre[:2], ["p0", "p1"],
               "prescripts after %d postscript pairs" % n, "prescripts-after-two-pairs")


# --------------------------------------------------------------------------------------------- C25
def c25(ck):
    def one(el, label):
        ck.expect(in_math(el), label)
        ck.rule("maction")
    acts = ["toggle", "", "actiontype", "statusline", "tooltip", "input", "highlight", "toggle ", "Toggle", "toggles", "tog", "none", None]
    for v in ck.strs:
        if 0 < len(v) < 24 and "\n" not in v and v not in acts:
            acts.append(v)
    for v in acts:
        a = {} if v is None else {"actiontype": v}
        if v in ("toggle", None, "statusline"):
            for n in ck.wide:
                one(E("maction", *many(n), **a), "maction %r of %d" % (v, n))
        for n in range(0, ck.K + 1 if v in ("toggle", None, "", "statusline") else 4):
            one(E("maction", *nums(n), **a), "maction %r of %d" % (v, n))
            one(E("maction", *[mn("v") for _ in range(n)], **a), "maction %r of %d equal children" % (v, n))
        if v in ("toggle", "", None, "statusline", "tooltip"):
            for l, e in kinds("x"):
                one(E("maction", e, **a), "maction %r of %s" % (v, l))
                one(E("maction", e, mn("w"), **a), "maction %r of %s and a number" % (v, l))
                one(E("maction", mn("w"), e, **a), "maction %r of a number and %s" % (v, l))
                one(E("maction", mn("w"), e, mn("u"), **a), "maction %r around %s" % (v, l))
            for w in ("toggle", "statusline"):
                one(E("maction", E("maction", mn("x"), mn("y"), actiontype=w), mn("z"), **a), "maction %r in %r" % (w, v))
                one(E("maction", mn("z"), E("maction", mn("x"), mn("y"), actiontype=w), **a), "maction %r second in %r" % (w, v))
            for sel in ("1", "2", "3", "0", "x"):
                one(E("maction", mn("x"), mn("y"), mn("z"), selection=sel, **a), "maction %r selection=%s" % (v, sel))
            for c in containers():
                one(E("math", E(c, E("maction", mn("x"), mn("y"), **a), mn("z"))), "maction %r in <%s>" % (v, c))
    any_ = Hole("act", ["toggle", "", "actiontype", "q", "statusline", "tooltip"])
    for n in range(0, 4):
        one(E("maction", *nums(n), actiontype=any_), "maction with any actiontype, %d children" % n)
    # a childless maction of another type is rejected by name
    for v in ("statusline", "tooltip", "q"):
        def judge(p, o):
            if o.kind != "raise" or o.exc_name() != "InvalidNumberOfChildrenError":
                return ("ends with %s instead of InvalidNumberOfChildrenError" % o.show()[:120], None)
        ck.each(E("math", E("maction", actiontype=v)), "maction %r without children" % v, judge)
        ck.each(E("math", E("maction", "text", ("comment", "c"), actiontype=v)), "maction %r with text only" % v, judge)


# --------------------------------------------------------------------------------------------- C26
MARKS = [("mo", "^"), ("mo", "¯"), ("mo", "_"), ("mo", "⏞"), ("mo", "⏟"), ("mo", "→"), ("mo", "~"), ("mo", "˙"), ("mo", "."),
         ("mo", "ˇ"), ("mo", "`"), ("mo", "´"), ("mo", "⃗"), ("mo", "‾"), ("mo", "ˆ"), ("mo", "⏜"), ("mo", "¨"), ("mo", "⇀"),
         ("mo", "="), ("mi", "^"), ("mi", "¯"), ("mi", "ˆ"), ("mo", "\\hat"), ("mn", "\\hat"), ("mn", "\\bar"), ("mn", "\\underbrace"),
         ("mn", "\\overbrace"), ("mn", "\\vec"), ("mn", "\\tilde"), ("mn", "\\hats"), ("mn", "hat"), ("mn", "\\overline"),
         ("mn", "\\underline"), ("mn", "\\dot"), ("mn", "\\Hat"), ("mn", "\\hat{}"), ("mo", "\\bar"), ("mi", "\\overbrace"),
         ("mi", "def"), ("mn", "1"), ("mtext", "hat"), ("mo", "⏠"), ("mo", "⏡"), ("mo", "^^")]


def c26(ck):
    def one(el, label):
        ck.expect(in_math(el), label)
        ck.rule("over and under")
    ks = [l for l, _ in kinds("x")]
    for tag in ("mover", "munder"):
        for t, s in MARKS:
            for l in ks:
                one(E(tag, kind("x", l), E(t, s)), "<%s> of %s with mark <%s>%s" % (tag, l, t, s))
            for l in ("mrow of 1", "mstyle"):
                one(E(tag, mn("x"), E("mrow", E(t, s))), "<%s> with mark <%s>%s in a row" % (tag, t, s))
            one(E(tag, E(t, s), mn("x")), "<%s> with content <%s>%s" % (tag, t, s))
            one(E(tag, E(t, s), E(t, s)), "<%s> with content and mark <%s>%s" % (tag, t, s))
            one(E(tag, mn("x"), E("mrow", E(t, s), E("mphantom"))), "<%s> with mark <%s>%s and nothing" % (tag, t, s))
            one(E(tag, mn("x"), E("mrow", E(t, s), E(t, s))), "<%s> with mark <%s>%s twice" % (tag, t, s))
            for a in ("accent", "accentunder"):
                for v in ("true", "false", ""):
                    one(E(tag, mn("x"), E(t, s)).with_attrs({a: v}), "<%s %s=%s> with mark %s" % (tag, a, v, s))
        for a, b in itertools.product(ks, repeat=2):
            one(E(tag, kind("x", a), kind("y", b)), "<%s> of %s with mark %s" % (tag, a, b))
        for a in ks:
            one(E(tag, kind("x", a), kind("x", a)), "<%s> of equal operands %s" % (tag, a))
        for c in containers():
            one(E("math", E(c, E(tag, mn("x"), mn("y")), mn("z"))), "<%s> in <%s>" % (tag, c))
            one(E("math", E(c, E(tag, mn("x"), E("mo", "^")), mn("z"))), "accent <%s> in <%s>" % (tag, c))
        for other in ("mover", "munder"):
            for mk in (E("mo", "^"), mn("m")):
                one(E(tag, E(other, mn("x"), mk), mn("y")), "<%s> as content of <%s>" % (other, tag))
                one(E(tag, mn("y"), E(other, mn("x"), mk)), "<%s> as mark of <%s>" % (other, tag))
                one(E(tag, E(other, mn("x"), mk), E("mo", "¯")), "<%s> under an accent <%s>" % (other, tag))
                one(E(tag, E(other, mn("x"), mn("y")), E(other, mn("x"), mn("y"))), "<%s> twice in <%s>" % (other, tag))


# --------------------------------------------------------------------------------------------- C28
UNKNOWN = ["mstyle", "mpadded", "mtd", "semantics", "annotation", "annotation-xml", "mlabeledtr", "mspace", "ms", "none", "mprescripts",
           "maligngroup", "malignmark", "mglyph", "mlongdiv", "mscarries", "mstack", "mtablex", "m", "mathx", "MI", "Mrow", "foo",
           "x-y", "mi2", "void", "msubsupx", "maths", "mrows", "under", "over", "text", "apply", "ci", "cn", "div", "span"]


def c28(ck):
    def relation(build, label, key=None, attrs=False):
        """The rendering of build(True) equals that of build(False) on every partition."""
        d1, d2 = Doc(build(True)), Doc(build(False))

        def run(p):
            a = ck.e.convert_doc(p, d1)
            b = ck.e.convert_doc(p, d2)
            if ck.dev:
                ck.dev(ck, p, d1, a)
            return a, b
        for p, (a, b) in ck.partitions_of(label, run):
            ck.obligations += 1
            ck.note_called(a)
            ck.sample(d1, a, p)
            if a.kind != b.kind:
                bad = ({}, a.show(), b.show())
                try:
                    hs = doc_holes(d1)
                    bad = (p.envs(hs)[0] if hs else {}, a.show(), b.show())
                except Exception:
                    pass
            elif a.kind != "value":
                if a.kind == "raise" and a.exc_name() == b.exc_name():
                    ck.by_term += 1
                    continue
                bad = ({}, a.show(), b.show())
            elif same(a.value, b.value):
                ck.by_term += 1
                continue
            else:
                try:
                    bad = differs(p, a.value, [b.value], d1)
                except Unsupported as x:
                    ck.undecide(str(x), label)
                    continue
                if bad is None:
                    ck.by_reps += 1
                    continue
            env, x, y = bad
            ck.problem(key or label, "%s: renders %r, but %r without it" % (label, str(x)[:200], str(y)[:200]), doc=xml_of(d1),
                       witness=concrete(d1, env), facts=map(str, p.log), functions=ck.spots(a))
        ck.rule("transparent attribute" if attrs else "transparent element")
    # unknown elements render like mrow
    names = list(UNKNOWN)
    for t, where in ck.strs.items():
        if re.match(r"^[A-Za-z][\w.-]*$", t) and len(t) < 20 and t not in DOCUMENTED and t not in names:
            names.append(t)
    name = Hole("tag", ["foo", "mstyle", "mtd", "semantics", "m"], ok=lambda s: re.match(r"^[A-Za-z_][\w.:-]*$", s) is not None
                and s not in DOCUMENTED and s not in ("mprescripts",))
    for t in names + [name]:
        for n in range(0, 4):
            relation(lambda u, t=t, n=n: E("math", mn("a"), E(t if u else "mrow", *nums(n)), mn("b")), "<%s> with %d children" %
                     (t if isinstance(t, str) else "any unknown name", n))
        lab = t if isinstance(t, str) else "any unknown name"
        for l, e in kinds("x"):
            relation(lambda u, t=t, l=l: E("math", E(t if u else "mrow", mn("u"), kind("x", l))), "<%s> with child %s" % (lab, l))
        relation(lambda u, t=t: E("math", E(t if u else "mrow", "text")), "<%s> with text" % lab)
        for b in ("msup", "msub"):
            relation(lambda u, t=t, b=b: E("math", E(b, E(t if u else "mrow", mn("x"), mn("y")), mn("z"))), "<%s> as base of <%s>" % (lab, b))
        relation(lambda u, t=t: E("math", E("mfrac", E(t if u else "mrow", mn("x"), mn("y")), mn("z"))), "<%s> in a fraction" % lab)
        relation(lambda u, t=t: E("math", E("mtable", E("mtr", E(t if u else "mrow", mn("x"), mn("y")), mn("z")))), "<%s> in a row" % lab)
        if t not in ("mprescripts",):
            relation(lambda u, t=t: E("math", E("mmultiscripts", mn("x"), E(t if u else "mrow"), mn("z"))), "<%s> as a script" % lab)
        for a in ("mathvariant", "notation", "open", "actiontype", "bevelled", "innerTable"):
            relation(lambda u, t=t, a=a: E("math", E(t if u else "mrow", mn("x"), mn("y")).with_attrs({a: "bold"})), "<%s %s>" % (lab, a))
    # documented elements are exactly the ones with a rendering of their own: each differs from mrow somewhere
    for t in sorted(DOCUMENTED - {"mrow", "mpadded", "math"}):
        n = ARITY.get(t, ("", 2))[1]
        el = E(t, *nums(n)) if t not in TOKENS else E(t, "x")
        if t == "mtext":
            el = E(t, "a b")
        d1 = Doc(E("math", el))
        d2 = Doc(E("math", E("mrow", *el.kids)))

        def run(p):
            return ck.e.convert_doc(p, d1), ck.e.convert_doc(p, d2)
        for p, (a, b) in ck.partitions_of("<%s> has its own rendering" % t, run):
            ck.obligations += 1
            if a.kind == "value" and b.kind == "value" and same(a.value, b.value):
                ck.problem("own rendering of " + t, "<%s> renders like an unknown element: %s" % (t, a.show()[:200]), doc=xml_of(d1),
                           functions=ck.spots(a))
            else:
                ck.by_term += 1
        ck.rule("documented element has its own rendering")
    # attributes an element does not interpret
    attrs = ["id", "class", "style", "mathcolor", "mathsize", "displaystyle", "xmlns", "href", "form", "stretchy", "linethickness",
             "columnalign", "rowspan", "data-x", "name", "value", "children", "accent", "largeop", "dir", "width"]
    for t in ck.strs:
        if re.match(r"^[A-Za-z_][\w.-]*$", t) and len(t) < 24 and t not in attrs:
            attrs.append(t)
    for s in INTERPRETED.values():
        for a in sorted(s):
            if a not in attrs:
                attrs.append(a)
    values = ["true", "q", ""]
    hosts = {}
    for t in sorted(DOCUMENTED | {"foo", "mtd", "mstyle"}):
        n = ARITY.get(t, ("", 2))[1]
        hosts[t] = (lambda t=t, n=n: E(t, "x y") if t in TOKENS else E(t, *nums(n)))
    hosts["mtable"] = lambda: E("mtable", E("mtr", E("mtd", mn("x")), E("mtd", mn("y"))), E("mtr"))
    from .checks_xml import SETTINGS
    for t in ("mfenced", "mfrac", "maction", "menclose", "mi", "mtext"):
        for a in sorted(INTERPRETED[t]):
            for v in SETTINGS[a]:
                hosts["%s %s=%s" % (t, a, v)] = (lambda mk=hosts[t], a=a, v=v: mk().with_attrs({a: v}))
    any_value = lambda: Hole("val", ["true", "q", "", "bold", "left", "toggle", "("])
    for t, mk in hosts.items():
        el_name = t.split()[0]
        for a in attrs:
            if a in INTERPRETED.get(el_name, ()):
                continue
            key = "attribute %s of <%s>" % (a, t)

            def build(u, mk=mk, a=a, t=t, v=None):
                el = mk()
                if u:
                    el.attrs = {**el.attrs, a: v}
                return el if t == "math" else E("math", mn("a"), el, mn("b"))
            vals = [any_value()] + ([a] if ck.thorough else [])
            for v in vals:
                relation(lambda u, v=v, build=build: build(u, v=v), key, key=key, attrs=True)
        # an attribute name that appears nowhere in the source
        an = Hole("attr", ["zz", "q-attr", "data-x", "x:open", "xml:lang"], ok=lambda s, t=el_name: re.match(r"^[A-Za-z_][\w.-]*(:[A-Za-z_][\w.-]*)?$", s) is not None
                  and s.isascii() and s not in INTERPRETED.get(t, ()))

        def build2(u, mk=mk, t=t):
            el = mk()
            if u:
                el.attrs = dict(el.attrs)
                el.attrs[an] = any_value()
            return el if t == "math" else E("math", mn("a"), el, mn("b"))
        relation(build2, "an unknown attribute of <%s>" % t, attrs=True)

        def build2b(u, mk=mk, t=t):
            el = mk()
            if u:
                el.attrs = {an: any_value(), **el.attrs}
            return el if t == "math" else E("math", mn("a"), el, mn("b"))
        relation(build2b, "an unknown attribute before those of <%s>" % t, attrs=True)
    # the interpreted attributes of a container reach neither its children nor its neighbours
    for t in ("mrow", "mstyle", "mpadded", "foo", "msqrt", "mtd", "mtr", "math", "mphantom", "merror", "msup"):
        for a, v in (("mathvariant", "bold"), ("open", "["), ("close", "]"), ("separators", ";"), ("bevelled", "true"),
                     ("actiontype", "statusline"), ("notation", "box")):
            for ct, c in (("mi", lambda: E("mi", "x")), ("mtext", lambda: E("mtext", "ab")), ("mfenced", lambda: E("mfenced", mn("p"), mn("q"))),
                          ("mfrac", lambda: E("mfrac", mn("p"), mn("q"))), ("maction", lambda: E("maction", mn("p"), mn("q"))),
                          ("menclose", lambda: E("menclose", mn("p")))):
                def build3(u, t=t, a=a, v=v, c=c):
                    kids = [c(), mn("z")]
                    el = E(t, *kids)
                    if u:
                        el.attrs[a] = v
                    return el if t == "math" else E("math", c(), el, c())
                relation(build3, "%s=%s on <%s> around <%s>" % (a, v, t, ct), attrs=True)


def in_math_doc(el):
    return Doc(in_math(el))
