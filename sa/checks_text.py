"""Token text, symbols, accents, styles, text runs, and the balance of what is written."""
import itertools
import unicodedata

from .core import *
from .spec import VARIANTS, TEXT_VARIANTS, NOTATIONS, DOCUMENTED, INTERPRETED, ARITY, TOKENS
from .lib import _norm
from . import checks_struct as cs


def keys_now(ck):
    """Keys of the string tables of the current source that can be symbols."""
    out = {}
    for where, d in tables(ck.e):
        for k in d:
            out.setdefault(k, where)
    return out


def xml_char(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or 0x10000 <= o <= 0x10ffff


def unknown_chars(ck):
    known = set(keys_now(ck))
    for v in vocab().values():
        known |= set(v)
    out = []
    special = "\u212a\u017f\u0130\u0131\u00df\ufb01\u2167\uff11\u0663\u0301\u20dd\u00aa\u00ba\u00b5\u2126\u212b\u05d0\u4e2d\U0001f600\u1e9e\u01c5\u2460\ufeff\u200b\u00ad\u061c\ue000"
    for c in special:
        if c not in known and not c.isspace():
            out.append(c)
    step = 1 if ck.thorough else 11
    for o in list(range(0x80, 0x3000, 1 if ck.thorough else 3)) + list(range(0x3000, 0xfffe, step * 7)) + list(range(0x10000, 0x20000, step * 5)):
        c = chr(o)
        if xml_char(c) and c not in known and unicodedata.category(c) not in ("Cn", "Cs", "Zs", "Zl", "Zp") and not c.isspace():
            out.append(c)
    return list(dict.fromkeys(out))


# --------------------------------------------------------------------------------------------- C10
COMPOSITES = ["sin", "cos", "lim", "max", "lim sup", "dx", "ab", "xyz", "arg min", "ABC", "f'", "x'", "a1", "1a", "10", "3.14", "1,000",
              "0x1F", "1e-5", "-5", "+1", "1/2", "50%", "a_b", "a^b", "x^2", "{", "}", "{x}", "\\", "\\alpha", "\\frac", "$", "$x$", "#",
              "%", "&", "~", "_", "^", "a&b", "a%b", "αβ", "xα", "αx", "α+β", "α β", "∑x", "→→", "é", "née", "xé", "éx", "𝔸x", "x𝔸", "𝔸𝔹", "∞∞",
              "=>", "<=", ">=", "!=", ":=", "==", "->", "<-", "&&", "||", "...", "''", "++", "--", "**", "//", "<", ">", "\"", "'", "(x)",
              "[x]", "|x|", "d/dx", "H2O", "&#x3B1;x", "&alpha;", "&amp;", "&lt;", "&#945;", "αα", "½x", "1½", "x²", "²x", "x₁", "Å", "ﬁ",
              "mod", "span", "table", "None", "True", "nan", "inf", "0", "00", "𝟎", "𝟘1", "ℝn", "nℝ", "i", "j", "ı", "ȷ"]


def c10(ck):
    ws = ["", " ", "\t", "\n", "  \t ", "\u00a0", "\u2003"]

    def one(el, label, key=None):
        ck.expect(E("math", el), label, key=key)
        ck.rule("token text of " + el.tag)
    variants = [None, "bold", "double-struck", "normal", "italic", "q"]

    def toks(body, label, v=True):
        for t in ("mi", "mo", "mn"):
            one(E(t, *body), "<%s> %s" % (t, label))
        if v:
            for mv in variants[1:]:
                one(E("mi", *body, mathvariant=mv), "<mi mathvariant=%s> %s" % (mv, label))
    for t in ("mi", "mo", "mn"):
        h = hole("v", t)
        g = hole("w", t)
        one(E(t, h), "<%s> with unknown text" % t)
        for mv in variants[1:] if t == "mi" else ():
            one(E(t, h, mathvariant=mv), "<mi mathvariant=%s> with unknown text" % mv)
        for a, b in itertools.product(ws, repeat=2):
            one(E(t, cat(a, h, b)), "<%s> with text between %r and %r" % (t, a, b))
        for a in ws[1:]:
            one(E(t, cat("a", a, "b", a, "c")), "<%s> with words separated by %r" % (t, a))
            one(E(t, cat(" ", a, "α", a)), "<%s> with a symbol amid %r" % (t, a))
        for n in [200] + ck.wide:
            for x in ("q", "7", "中", "q ", "qz8.", "→"):
                one(E(t, (x * n)[:n]), "<%s> with %d characters (%s)" % (t, n, x))
                if t == "mi":
                    one(E(t, (x * n)[:n], mathvariant="bold"), "bold <mi> with %d characters (%s)" % (n, x))
            one(E(t, cat("a", a, a, h, " ", a, "c")), "<%s> with an unknown word amid %r" % (t, a))
            one(E(t, a), "blank <%s> %r" % (t, a))
        one(E(t), "empty <%s>" % t)
        one(E(t, ("comment", "c")), "<%s> with a comment only" % t)
        one(E(t, ("cdata", h)), "<%s> with unknown character data" % t)
        o = odd("o", t)
        toks_o = [o, cat(" ", o, " "), cat(o, " ", o)]
        for b in toks_o:
            one(E(t, b), "<%s> with a text of a peculiar form" % t)
            for mv in variants[1:] if t == "mi" else ():
                one(E(t, b, mathvariant=mv), "<mi mathvariant=%s> with a text of a peculiar form" % mv)
        # long texts
        for n in (2, 3, 7, 20, 100, 300):
            one(E(t, "x" * n), "<%s> with %d letters" % (t, n))
            one(E(t, "7" * n), "<%s> with %d digits" % (t, n))
            one(E(t, "a " * n + "b"), "<%s> with %d words" % (t, n))
            one(E(t, "→" * n), "<%s> with %d arrows" % (t, n))
        # every ASCII character, alone and next to others
        asc = [chr(i) for i in range(33, 127)]
        one(E(t, Hole("c", asc, closed=True)), "<%s> with an ASCII character" % t)
        for fmt in ("%sx", "x%s", "%s7", "7%s", "%s%s", "%s %s", "α%s", "%s→"):
            pool = [fmt.replace("%s", c) for c in asc]
            one(E(t, Hole("c", pool, closed=True)), "<%s> with text like %s" % (t, fmt % (("c",) * fmt.count("%s"))))
        unk = unknown_chars(ck)
        ck.extra.setdefault("unknown_characters", len(unk))
        for k in range(0, len(unk), 3000):
            one(E(t, Hole("u", unk[k:k + 3000], closed=True)), "<%s> with a character without entry" % t)
        few = unk[:60] + unk[60::41]
        for fmt in ("%sx", "x%s", "%s%s", "x %s", "%s→"):
            pool = [fmt.replace("%s", c) for c in few]
            pool = [x for x in pool if x == _norm(x)]
            one(E(t, Hole("u", pool, closed=True)), "<%s> with characters without entry" % t)
        # known symbols next to other text are not symbols
        syms = sorted(vocab()[t])
        step = 1 if ck.thorough else 7
        for fmt in ("%sx", "x%s", "%s%s", "%s x", "1%s", "%s,", "%s\u0301"):
            pool = [s for s in (fmt.replace("%s", c) for c in syms[::step]) if s == _norm(s) and s not in keys_now(ck)]
            if pool:
                one(E(t, Hole("s", pool, closed=True)), "<%s> with a symbol inside other text" % t)
    for s in COMPOSITES:
        toks([s], repr(s))
    # the parts of a token split by comments or character data sections are one text
    for t in ("mi", "mo", "mn"):
        one(E(t, "a", ("comment", "c"), "b"), "<%s> split by a comment" % t)
        one(E(t, "a ", ("cdata", "b"), " c"), "<%s> with a section" % t)
        for a, b in (("α", ""), ("", "→"), ("∑", "x")):
            one(E(t, a, ("comment", "c"), b), "<%s> symbol split by a comment" % t)
    # wherever the token stands
    for c in cs.containers() + ["mtr", "mtable", "msup", "msub", "mfrac", "mroot", "mover", "munder"]:
        for t in ("mi", "mo", "mn"):
            for s in ("sin", "x", "10", "∑x", ""):
                other = mn("o")
                el = E(c, other, E(t, s)) if c in ARITY else E(c, E(t, s))
                ck.expect(cs.in_math(el), "<%s>%s in <%s>" % (t, s, c), attributable=lambda p, o, e, s=s: True
                          if not s else o.kind != "value" or s not in show(o.value))


# --------------------------------------------------------------------------------------------- C11
def each_symbol(ck, which, tag, symbols, wrap, label, keyf):
    """Compare, for every symbol, the analysed rendering with the established one."""
    v = vocab()[which]
    h = Hole("symbol", symbols, closed=True)
    doc = Doc(E("math", *wrap(E(tag, h))))

    def run(p):
        o = ck.e.convert_doc(p, doc)
        return o, Spec(p).doc(doc)
    for p, (o, exp) in ck.partitions_of(label, run, limit=6000):
        ck.note_called(o)
        ck.sample(doc, o, p)
        envs = p.envs([h])
        ck.obligations += len(envs)
        if o.kind != "value":
            for env in envs[:20]:
                s = env[h]
                ck.problem(keyf(s), "%s %s: %s" % (label, s, o.show()[:200]), doc=xml_of(doc), witness=concrete(doc, env), functions=ck.spots(o))
            continue
        for env, a, b in p.evals([h], o.value, exp):
            if a == b:
                ck.by_term += 1
            else:
                s = env[h]
                ck.problem(keyf(s), "%s: %r (%s) renders %r instead of %r" % (label, s, names(s), a, b), witness=concrete(doc, env),
                           expected=b, actual=a, functions=ck.spots(o))


def names(s):
    return " ".join("U+%04X" % ord(c) for c in s)[:60]


def c11(ck):
    N1, N2 = E("mn", "1"), E("mn", "2")
    for which in ("mi", "mo", "mn"):
        syms = list(vocab()[which])
        key = lambda s, w=which: "%s %s" % (w, names(s))
        each_symbol(ck, which, which, syms, lambda e: [E("mrow", e)], "<%s>" % which, key)
        ck.rule("established rendering of a symbol in <%s>" % which, len(syms))
        ctx = [("between numbers", lambda e: [N1, e, N2]), ("twice", lambda e: [E("mrow", e, e)]),
               ("in a root", lambda e: [E("msqrt", e)]), ("in a cell", lambda e: [E("mtable", E("mtr", E("mtd", e), E("mtd", N1)))]),
               ("as exponent", lambda e: [E("msup", N1, e)]), ("as base", lambda e: [E("msub", e, N1)]),
               ("in a fraction", lambda e: [E("mfrac", N1, e)]), ("in mfenced", lambda e: [E("mfenced", e, N1)]),
               ("in an unknown element", lambda e: [E("foo", e)])]
        for l, w in ctx if ck.thorough else ctx[:7]:
            each_symbol(ck, which, which, syms, w, "<%s> %s" % (which, l), key)
        each_symbol(ck, which, which, syms, lambda e: [E(e.tag, " ", *e.kids, " \t")], "<%s> with blanks around" % which, key)
    chars = list(vocab()["char"])
    key = lambda s: "mtext %s" % names(s)
    each_symbol(ck, "char", "mtext", chars, lambda e: [e], "<mtext>", key)
    each_symbol(ck, "char", "mtext", chars, lambda e: [E("mtext", cat("a ", e.kids[0], " b"))], "<mtext> between letters", key)
    each_symbol(ck, "char", "mtext", chars, lambda e: [E("mtext", cat("a", e.kids[0], e.kids[0], "→"))], "<mtext> repeated", key)
    ck.rule("established rendering of a character of <mtext>", len(chars))
    # lookups are exact: a symbol inside a longer text, in another case or normalisation form, is not matched
    known = keys_now(ck)
    for which in ("mi", "mo", "mn"):
        v = vocab()[which]
        syms = sorted(v)
        cand = set()
        for s in syms[:: 1 if ck.thorough else 4]:
            for f in (s + s, s + "x", "x" + s, s + "\u0338", s + "\ufe00", s + "\ufe0e", s.upper(), s.lower(), unicodedata.normalize("NFKC", s),
                      unicodedata.normalize("NFD", s), s + "'", "(" + s + ")"):
                if f and f == _norm(f) and f not in v and f not in known and all(xml_char(c) for c in f):
                    cand.add(f)
        cand = sorted(cand)
        for k in range(0, len(cand), 3000):
            each_symbol(ck, which, which, cand[k:k + 3000], lambda e: [E("mrow", e)], "<%s> with a text near a symbol" % which,
                        lambda s, w=which: "%s near %s" % (w, names(s)))
        ck.rule("texts near a symbol are not the symbol (<%s>)" % which, len(cand))


# --------------------------------------------------------------------------------------------- C12
ACCENT_CMDS = {"acute", "grave", "hat", "tilde", "ddot", "dot", "bar", "breve", "check", "vec", "mathring", "H", "c", "k", "r", "u", "v",
               "widehat", "widetilde", "dddot", "overline", "underline", "d", "b", "t"}
FONT_CMDS = {"mathbb", "mathbf", "mathfrak", "mathcal", "mathscr", "mathsf", "mathtt", "mathit", "mathrm", "mathnormal", "boldsymbol", "bm",
             "mathbfit", "textbf", "textit", "textsf", "texttt", "Bbb", "pmb"}


def innermost(r):
    """(commands, argument) of \\a{\\b{x}}; None for any other shape"""
    cmds = []
    while True:
        m = re.match(r"^\\([A-Za-z]+)\s*\{(.*)\}$", r, re.S)
        if not m:
            break
        body = m.group(2)
        depth = 0
        for ch in body:
            depth += (ch == "{") - (ch == "}")
            if depth < 0:
                return None
        cmds.append(m.group(1))
        r = body
    return (cmds, r.strip()) if cmds else None


def base_of(c):
    """The base letter of a precomposed Latin letter, or None."""
    d = unicodedata.normalize("NFD", c)
    if len(d) > 1 and all(unicodedata.combining(x) for x in d[1:]) and unicodedata.name(c, "").startswith("LATIN"):
        return d[0]
    m = re.match(r"^LATIN (SMALL|CAPITAL) LETTER (DOTLESS )?([A-Z]) WITH ", unicodedata.name(c, ""))
    if m:
        return m.group(3).lower() if m.group(1) == "SMALL" else m.group(3)
    return None


def styled_of(c):
    d = unicodedata.normalize("NFKC", c)
    if d != c and len(d) == 1 and d.isascii() and d.isalnum() and ord(c) > 0x2000:
        return d
    m = re.match(r"^MATHEMATICAL .*", unicodedata.name(c, ""))
    if m and d != c and len(d) == 1:
        return d
    m = re.match(r"^(?:SCRIPT|BLACK-LETTER|DOUBLE-STRUCK(?: ITALIC)?) (SMALL|CAPITAL) ([A-Z])$", unicodedata.name(c, ""))
    if m:
        return m.group(2).lower() if m.group(1) == "SMALL" else m.group(2)
    return None


GREEK = {"\\alpha": "α", "\\beta": "β", "\\gamma": "γ", "\\delta": "δ", "\\epsilon": "ε", "\\varepsilon": "ε", "\\zeta": "ζ", "\\eta": "η",
         "\\theta": "θ", "\\iota": "ι", "\\kappa": "κ", "\\lambda": "λ", "\\mu": "μ", "\\nu": "ν", "\\xi": "ξ", "\\omicron": "ο", "o": "ο",
         "\\pi": "π", "\\rho": "ρ", "\\sigma": "σ", "\\varsigma": "ς", "\\tau": "τ", "\\upsilon": "υ", "\\phi": "φ", "\\varphi": "φ",
         "\\chi": "χ", "\\psi": "ψ", "\\omega": "ω", "\\Gamma": "Γ", "\\Delta": "Δ", "\\Theta": "Θ", "\\Lambda": "Λ", "\\Xi": "Ξ", "\\Pi": "Π",
         "\\Sigma": "Σ", "\\Upsilon": "Υ", "\\Phi": "Φ", "\\Psi": "Ψ", "\\Omega": "Ω", "\\nabla": "∇", "\\partial": "∂"}
LOOK = {"Α": "A", "Β": "B", "Ε": "E", "Ζ": "Z", "Η": "H", "Ι": "I", "Κ": "K", "Μ": "M", "Ν": "N", "Ο": "O", "Ρ": "P", "Τ": "T", "Υ": "Y",
        "Χ": "X", "ο": "o"}


def same_letter(arg, base):
    arg = {"\\imath": "i", "\\jmath": "j", "ı": "i", "ȷ": "j"}.get(arg, arg)
    base = {"ı": "i", "ȷ": "j"}.get(base, base)
    if arg == base:
        return True
    return GREEK.get(arg) == base or LOOK.get(base) == arg


def renderings(ck, which, tag, symbols, label):
    """{symbol: (rendering, outcome)} of the analysed source."""
    h = Hole("symbol", symbols, closed=True)
    body = cat("a", h, "b") if which == "char" else h
    doc = Doc(E("math", E("menclose", E(tag, body), notation="top")))
    pre, post = "\\overline{", "}"
    out = {}
    for p, o in ck.partitions_of(label, lambda p: ck.e.convert_doc(p, doc), limit=6000):
        ck.note_called(o)
        ck.sample(doc, o, p)
        if o.kind != "value" or not isinstance(o.value, (str, Term)):
            continue
        for env, r in p.evals([h], o.value):
            if not (r.startswith(pre) and r.endswith(post)):
                ck.undecide("the probe element renders differently", label)
                return out
            r = r[len(pre):-len(post)]
            s = env[h]
            if which == "char":
                a, b = "\\text{a}", "\\text{b}"
                if r == "\\text{a%sb}" % s:
                    r = s
                elif r.startswith(a) and r.endswith(b):
                    r = r[len(a):-len(b)]
                else:
                    continue
            out[s] = (r, o)
    return out


def all_symbols(ck, single=False):
    s = set(keys_now(ck))
    for v in vocab().values():
        s |= set(v)
    return sorted(k for k in s if k and k == _norm(k) and all(xml_char(c) for c in k) and (not single or len(k) == 1))


def c12(ck):
    # every Latin letter with a diacritic and every mathematical alphanumeric of Unicode, in the tables or not
    letters = set(all_symbols(ck, True))
    for o in list(range(0xc0, 0x250)) + list(range(0x1e00, 0x1f00)) + list(range(0x2100, 0x2150)) + list(range(0x1d400, 0x1d800)):
        c = chr(o)
        if unicodedata.category(c) in ("Ll", "Lu", "Nd", "So", "Lt", "Lo"):
            letters.add(c)
    letters = sorted(letters)
    n_acc = n_font = 0
    for which, tag in (("mi", "mi"), ("mo", "mo"), ("mn", "mn"), ("char", "mtext")):
        rs = renderings(ck, which, tag, letters, "<%s> with a letter" % tag)
        for s, (r, o) in rs.items():
            ck.obligations += 1
            got = innermost(r)
            bad = None
            if got:
                cmds, arg = got
                if any(c in ACCENT_CMDS for c in cmds):
                    b = base_of(s)
                    if b is not None:
                        n_acc += 1
                        if not same_letter(arg, b):
                            bad = "base letter %r" % b
                elif all(c in FONT_CMDS for c in cmds):
                    b = styled_of(s)
                    if b is not None:
                        n_font += 1
                        if not same_letter(arg, b):
                            bad = "letter %r" % b
            if bad:
                ck.problem("letter %s as %s" % (names(s), r), "<%s> %s (%s) renders %r, but its %s is different" % (tag, s, unicodedata.name(s, names(s)), r, bad),
                           witness="<math><%s>%s</%s></math>" % (tag, s, tag), actual=r, functions=ck.spots(o))
            else:
                ck.by_term += 1
        # two different letters under the same command and argument, when their bases differ
        seen = {}
        for s, (r, o) in rs.items():
            if innermost(r) and r != s:
                b = base_of(s) or styled_of(s)
                if b is None:
                    continue
                other = seen.setdefault(r, (s, b))
                if not (same_letter(other[1], b) or same_letter(b, other[1]) or LOOK.get(b) == other[1] or LOOK.get(other[1]) == b):
                    for x in (s, other[0]):
                        bx = base_of(x) or styled_of(x)
                        if not same_letter(innermost(r)[1], bx):
                            break
                    ck.problem("letter %s as %s" % (names(x), r), "<%s> %s and %s both render %r" % (tag, s, other[0], r),
                               witness="<math><%s>%s</%s></math>" % (tag, x, tag), functions=ck.spots(o))
    ck.extra["n_accent_letters"] = n_acc
    ck.extra["n_font_letters"] = n_font
    ck.rule("accented letters judged", n_acc)
    ck.rule("styled letters judged", n_font)
    if not ck.workers > 1:
        ck.floor(1)


# --------------------------------------------------------------------------------------------- C13
ALIASES = [{"\\iff", "\\Leftrightarrow", "\\Longleftrightarrow"}, {"\\bowtie", "\\Join"}, {"\\star", "*", "\\ast"}, {"\\bigodot", "\\odot"},
           {"\\leq", "\\le", "\\leqslant"}, {"\\geq", "\\ge"}, {"\\neq", "\\ne"}, {"\\to", "\\rightarrow"}, {"\\land", "\\wedge"},
           {"\\lor", "\\vee"}, {"\\neg", "\\lnot"}, {"\\mid", "|", "\\vert"}, {"\\parallel", "\\|", "\\Vert"}, {"\\ni", "\\owns"},
           {"\\emptyset", "\\varnothing"}, {"\\cdot", "\\centerdot"}, {"\\gets", "\\leftarrow"}, {"\\implies", "\\Rightarrow", "\\Longrightarrow"},
           {"\\bigoplus", "\\oplus"}, {"\\bigotimes", "\\otimes"}, {"\\prime", "'"}, {"\\colon", ":"}, {"\\dots", "\\ldots"},
           {"\\hbar", "\\hslash"}, {"\\ell", "l"}, {"\\square", "\\Box"}, {"\\bigtriangleup", "\\triangle"}, {"\\Diamond", "\\diamond"}]


def canon(r):
    return " ".join(r.split()).replace("{}", "")


def synonyms(a, b):
    a, b = canon(a), canon(b)
    if a == b:
        return True
    return any(a in g and b in g for g in ALIASES)


def c13(ck):
    syms = all_symbols(ck)
    rs = {w: renderings(ck, w, w, syms, "<%s> with a symbol" % w) for w in ("mi", "mo", "mn")}
    if ck.workers > 1 and not all(rs.values()):
        return                       # this relation needs the three analyses in one process
    n = 0
    for a, b in (("mi", "mo"), ("mi", "mn"), ("mo", "mn")):
        for s in syms:
            ra, rb = rs[a].get(s), rs[b].get(s)
            if not ra or not rb:
                continue
            if ra[0] == s or rb[0] == s:
                continue             # not known in one of them
            n += 1
            ck.obligations += 1
            if synonyms(ra[0], rb[0]):
                ck.by_term += 1
                continue
            ck.problem("%s: %s / %s" % (names(s), ra[0], rb[0]), "%r (%s) renders %r in <%s> but %r in <%s>"
                       % (s, names(s), ra[0], a, rb[0], b), witness="<math><%s>%s</%s><%s>%s</%s></math>" % (a, s, a, b, s, b),
                       functions=ck.spots(ra[1]) + ck.spots(rb[1]))
    # script digits keep their script wherever they stand
    for s in "⁰¹²³⁴⁵⁶⁷⁸⁹₀₁₂₃₄₅₆₇₈₉⁺⁻₊₋":
        want = "^" if unicodedata.decomposition(s).startswith("<super>") else "_"
        for w in ("mi", "mo", "mn"):
            r = rs[w].get(s)
            if not r or r[0] == s:
                continue
            ck.obligations += 1
            d = unicodedata.normalize("NFKC", s).replace("−", "-")
            if want in r[0] and d in r[0]:
                ck.by_term += 1
            else:
                ck.problem("script digit %s %s" % (w, names(s)), "%r renders %r in <%s> and loses its script" % (s, r[0], w),
                           witness="<math><%s>%s</%s></math>" % (w, s, w), functions=ck.spots(r[1]))
    ck.extra["symbol_pairs_compared"] = n
    ck.rule("symbols known in two token elements", n)


c13.single = True


# --------------------------------------------------------------------------------------------- C14
def unbalanced(s):
    """Why a LaTeX fragment is not closed in itself, or None.  Unknown parts are written as U+FFFC."""
    stack = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "\\":
            m = re.match(r"\\([A-Za-z]+)", s[i:])
            if not m:
                if i + 1 >= n:
                    return "ends in a lone backslash"
                if s[i + 1] in "[]()":
                    return "switches math mode with \\%s" % s[i + 1]
                i += 2
                continue
            w = m.group(1)
            i += len(m.group(0))
            if w in ("begin", "end"):
                m2 = re.match(r"\s*\{([A-Za-z*]+)\}", s[i:])
                if not m2:
                    return "\\%s without a name" % w
                i += len(m2.group(0))
                if w == "begin":
                    stack.append("\\begin{%s}" % m2.group(1))
                else:
                    if not stack or stack.pop() != "\\begin{%s}" % m2.group(1):
                        return "\\end{%s} closes nothing of that name" % m2.group(1)
            elif w in ("left", "right"):
                m2 = re.match(r"\s*(\\[A-Za-z]+|\\.|.)", s[i:], re.S)
                if not m2:
                    return "\\%s without a delimiter" % w
                d = m2.group(1)
                if d in "{}" or d in ("\\frac", "\\begin", "\\end", "\\left", "\\right"):
                    return "\\%s without a delimiter" % w
                i += len(m2.group(0))
                if w == "left":
                    stack.append("\\left")
                elif not stack or stack.pop() != "\\left":
                    return "\\right%s without its \\left" % d
            continue
        if c == "$":
            return "switches math mode with $"
        if c in "\n\r":
            return "contains a line break"
        if c == "{":
            stack.append("{")
        elif c == "}":
            if not stack or stack.pop() != "{":
                return "a brace is closed that is not open"
        i += 1
    if stack:
        return "%s is not closed" % stack[-1]
    return None


BLANK = "\ufffc"


def c14(ck):
    # symbols
    syms = all_symbols(ck)
    for which, tag in (("mi", "mi"), ("mo", "mo"), ("mn", "mn"), ("char", "mtext")):
        pool = [s for s in syms if which != "char" or len(s) == 1]
        rs = renderings(ck, which, tag, pool, "<%s> with a symbol" % tag)
        for s, (r, o) in rs.items():
            if r == s:
                continue
            ck.obligations += 1
            why = unbalanced(r)
            if why is None:
                ck.by_term += 1
            else:
                ck.problem("symbol %s: %s" % (names(s), why), "<%s> %r renders %r: %s" % (tag, s, r, why),
                           witness="<math><%s>%s</%s></math>" % (tag, s, tag), functions=ck.spots(o))
        ck.rule("symbols in <%s>" % tag, len(rs))
        # styled symbols
        if tag == "mi":
            few = [s for s in pool if s in vocab()["mi"]][::(1 if ck.thorough else 5)]
            for v in VARIANTS:
                h = Hole("symbol", few, closed=True)
                doc = Doc(E("math", E("mi", h, mathvariant=v)))
                for p, o in ck.partitions_of("<mi mathvariant=%s> with a symbol" % v, lambda p: ck.e.convert_doc(p, doc), limit=3000):
                    if o.kind != "value":
                        continue
                    for env, r in p.evals([h], o.value):
                        ck.obligations += 1
                        why = unbalanced(r)
                        if why is None or env[h] in rs and unbalanced(rs[env[h]][0]):
                            ck.by_term += 1
                        else:
                            ck.problem("styled symbol %s: %s" % (names(env[h]), why), "<mi mathvariant=%s> %r renders %r: %s" % (v, env[h], r, why),
                                       witness=concrete(doc, env), functions=ck.spots(o))
    # elements: unknown texts are blanks
    h = lambda n: E("mn", Hole(n, [BLANK], closed=True))

    def one(el, label, key=None):
        def judge(p, o):
            if o.kind != "value":
                return None
            hs = doc_holes(Doc(el))
            for env, r in p.evals(hs, o.value):
                why = unbalanced(r)
                if why:
                    return ("renders %r: %s" % (r[:200], why), env, ": " + why)
            return None
        ck.each(cs.in_math(el), label, judge, key=key)
        ck.rule("element fragments")
    shapes = lambda n: [[h("v%d" % i) for i in range(n)], [E("mphantom") for _ in range(n)],
                        [E("mrow", h("a%d" % i), h("b%d" % i)) for i in range(n)],
                        [E("mtable", E("mtr", E("mtd", h("c%d" % i)), E("mtd")), E("mtr")) for i in range(n)],
                        [E("mfrac", h("d%d" % i), E("msup", E("mrow", h("e%d" % i), h("f%d" % i)), h("g%d" % i))) for i in range(n)],
                        [E("mtext", "a → b") for i in range(n)], [E("mi", "é", mathvariant="bold") for i in range(n)]]
    values = ["", "true", "false", "bold", "q"] + [v for v in ck.strs if 0 < len(v) < 24 and re.match(r"^[\w -]+$", v)]
    for t in sorted(DOCUMENTED) + ["mtd", "mstyle", "foo", "none"]:
        ns = range(0, ck.K + 1) if t not in ARITY else range(ARITY[t][1], ARITY[t][1] + (5 if t == "mmultiscripts" else 1))
        for n in ns:
            for i, kids in enumerate(shapes(n)):
                one(E(t, *kids), "<%s> with %d children of shape %d" % (t, n, i), key="<%s>" % t)
        for a in sorted(INTERPRETED.get(t, ())):
            vs = set(values) | set(VARIANTS) | set(NOTATIONS) | {"longdiv", "toggle", "normal", a}
            if a in ("open", "close", "separators"):
                vs = {"(", ")", "[", "]", "|", "/", ".", "", ",", ";", a} if a != "separators" else {"", ",", ";,", "|", ":;,"}
            for v in sorted(vs):
                n = ARITY.get(t, ("", 2))[1]
                for m in (n, 1, 0) if t not in ARITY else (n,):
                    for i, kids in enumerate(shapes(m)[:5]):
                        if i == 3 and a in ("open", "close"):
                            continue            # around a table fences are copied verbatim, missing ones too
                        if t in TOKENS:
                            kids = ["x"] if t != "mtext" else ["a b→c"]
                        one(E(t, *kids).with_attrs({a: v}), "<%s %s=%r>" % (t, a, v), key="<%s %s=%s>" % (t, a, v))
    bare = [E("mtable"), E("mtable", E("mtr")), E("mtable", E("mtr"), E("mtr")), E("mtable", E("mtr", E("mtd"))), E("mtable", E("mtr", E("mtd"), E("mtd"))), E("mphantom", E("mtable")),
            E("mrow", E("mtable")), E("mtable", E("mphantom")), E("mtable", E("mtr", E("mtd", E("mtable"))))]
    for o, c in (("(", ")"), ("[", ")"), ("|", "|"), ("||", "||"), ("{", "}"), ("", ""), ("[", "]"), ("/", "/"), (".", "|")):
        for b in bare:
            one(E("mfenced", b, open=o, close=c), "mfenced %s%s around an empty table" % (o, c))
            one(E("mfenced", b, b, open=o, close=c), "mfenced %s%s around two empty tables" % (o, c))
        tb = E("mtable", E("mtr", E("mtd", h("v")), E("mtd", h("w"))), E("mtr"))
        one(E("mfenced", tb, open=o, close=c), "mfenced %s%s around a table" % (o, c))
        one(E("mfenced", E("mrow", tb, h("x")), h("y"), open=o, close=c), "mfenced %s%s around a row with a table" % (o, c))
        one(E("mtable", E("mtr", E("mtd", E("mfenced", tb, open=o, close=c)), E("mtd", tb))), "fenced table in a cell %s%s" % (o, c))
    tags = [t for t in sorted(DOCUMENTED) if t not in TOKENS and t != "math"] + ["foo"]
    for a, b in itertools.product(tags, repeat=2):
        kb = [h("v%d" % i) for i in range(ARITY.get(b, ("", 2))[1])]
        na = ARITY.get(a, ("", 2))[1]
        for i in range(na):
            ka = [h("w%d" % j) for j in range(na)]
            ka[i] = E(b, *kb)
            one(E(a, *ka), "<%s> in <%s>" % (b, a))
    for k in range(0, 6):
        marks = [h("b"), E("mprescripts")] + [h("p%d" % i) for i in range(k)]
        if k > 0:
            one(E("mmultiscripts", *marks), "prescripts only, %d" % k)
        one(E("mmultiscripts", h("b"), h("s"), h("t"), E("mprescripts"), *[h("p%d" % i) for i in range(k)]), "both sides, %d" % k)
    for m in ("^", "¯", "_", "⏞", "⏟", "→", "~", "˙", "{", "}", "(", "["):
        for t in ("mover", "munder"):
            one(E(t, h("v"), E("mo", m)), "<%s> with mark %s" % (t, m))
            one(E(t, E("mo", m), h("v")), "<%s> with content %s" % (t, m))
    # positive example: the scanner sees what it has to see
    for bad in ("{", "}", "\\left(", "\\right)", "\\begin{matrix}", "\\end{a}", "\\left( {\\right)}", "x\\", "\\[", "$x$", "a\nb", "{\\left(}\\right)"):
        if unbalanced(bad) is None:
            raise AnalysisBroken("the balance scanner accepts %r" % bad)


# --------------------------------------------------------------------------------------------- C09
def c09(ck):
    def styled(build, fmt, label, key=None):
        """build(True) renders as the style around the rendering of build(False)"""
        d1, d2 = Doc(build(True)), Doc(build(False))

        def run(p):
            return ck.e.convert_doc(p, d1), ck.e.convert_doc(p, d2)
        for p, (a, b) in ck.partitions_of(label, run, limit=4000):
            ck.obligations += 1
            ck.note_called(a)
            ck.sample(d1, a, p)
            if b.kind != "value":
                continue
            if a.kind != "value":
                ck.problem(key or label, "%s: %s" % (label, a.show()[:200]), doc=xml_of(d1), witness=ck.witness(p, d1), functions=ck.spots(a))
                continue
            x, y = fmt.split("%s")
            exp = cat(x, b.value, y)
            if same(a.value, exp):
                ck.by_term += 1
                continue
            r = differs(p, a.value, [exp], d1)
            if r is None:
                ck.by_reps += 1
            else:
                ck.problem(key or label, "%s: renders %r instead of %r" % (label, r[1][:200], r[2][:200]), doc=xml_of(d1),
                           witness=concrete(d1, r[0]), facts=map(str, p.log), functions=ck.spots(a))
        ck.rule("style of " + d1.root.els[0].tag)
    texts = [("unknown text", hole("v", "mi")), ("a letter", "x"), ("a word", "speed"), ("two words", "a b"), ("a digit", "7"), ("Greek", "α"),
             ("accented", "é"), ("an operator", "→"), ("double-struck", "𝔸"), ("unknown symbol", "☃"), ("command", "\\foo"), ("plus", "+"),
             ("capital", "X"), ("number", "12")]
    syms = [s for s in sorted(vocab()["mi"]) if not s.startswith("&")]
    others = ["normal", "", "mathvariant", "Bold", "BOLD", "bold ", "italics", "boldsymbol", "initial", "tailed", "stretched", "looped", "q",
              "bolditalic", "bold_italic", "italic-bold", "sans", "serif", "mono", "doublestruck", "frakturbold", "script-bold"]
    for v in ck.strs:
        if 0 < len(v) < 28 and "\n" not in v and v not in VARIANTS and v not in others:
            others.append(v)
    for v, fmt in VARIANTS.items():
        for l, t in texts:
            styled(lambda u, t=t, v=v: E("math", E("mi", t, **({"mathvariant": v} if u else {}))), fmt, "<mi mathvariant=%s> of %s" % (v, l))
            styled(lambda u, t=t, v=v: E("math", E("mi", " ", t, "  ", **({"mathvariant": v} if u else {}))), fmt,
                   "<mi mathvariant=%s> of %s amid blanks" % (v, l))
        # every known symbol: the style goes around its rendering
        h = Hole("symbol", syms, closed=True)
        each_styled(ck, h, v, fmt)
    anyv = Hole("variant", ["q", "normal", "", "bolder", "Italic"], ok=lambda s: s not in VARIANTS and s == s.strip())
    for l, t in texts:
        styled(lambda u, t=t: E("math", E("mi", t, **({"mathvariant": anyv} if u else {}))), "%s", "<mi> of %s with any other mathvariant" % l)
        for v in others if l in ("unknown text", "a letter", "Greek") else others[:6]:
            styled(lambda u, t=t, v=v: E("math", E("mi", t, **({"mathvariant": v} if u else {}))), "%s", "<mi mathvariant=%r> of %s" % (v, l))
        for a in ("fontstyle", "fontweight", "mathVariant", "variant", "style", "fontfamily", "mathsize"):
            for v in ("bold", "italic"):
                styled(lambda u, t=t, v=v, a=a: E("math", E("mi", t).with_attrs({a: v} if u else {})), "%s", "<mi %s=%s> of %s" % (a, v, l))
    # with other attributes, inside other elements, several in a row
    for v, fmt in VARIANTS.items():
        a, b = fmt.split("%s")
        both = lambda **k: E("math", E("mrow", E("mi", hole("v", "mi"), **k), E("mi", hole("w", "mi"))))
        ck.expect(both(mathvariant=v), "styled next to plain (%s)" % v)
        for w in VARIANTS:
            ck.expect(E("math", E("mi", "x", mathvariant=v), E("mi", "y", mathvariant=w), E("mi", "z")), "%s next to %s" % (v, w))
        ck.expect(E("math", E("mi", "x", mathvariant=v).with_attrs({"id": "a", "class": "b"})), "%s with other attributes" % v)
        for c in ("msup", "msub", "mfrac"):
            ck.expect(E("math", E(c, E("mi", "x", mathvariant=v), E("mi", "y"))), "%s in <%s>" % (v, c),
                      attributable=lambda p, o, e, a=a: o.kind != "value" or (a + "x") not in show(o.value))
    # text
    runs = [("unknown run", Hole("t", ["a", "Z9", "7"], ok=lambda s: s.isascii() and s.isalnum()), None), ("words", "one two", None), ("a letter", "x", None),
            ("digits", "42", None), ("capitals", "ABC d", None)]
    anyt = Hole("variant", ["q", "normal", "", "script", "sans-serif"], ok=lambda s: s not in TEXT_VARIANTS and s == s.strip())
    tother = ["normal", "", "mathvariant", "script", "bold-script", "sans-serif", "bold-sans-serif", "sans-serif-italic",
              "sans-serif-bold-italic", "Bold", "bold ", "q", "italics", "initial"] + [v for v in others if v not in TEXT_VARIANTS][16:]
    def text_doc(t, v):
        return E("math", E("mtext", t, **({"mathvariant": v} if v is not None else {})))
    for l, t, _ in runs:
        if isinstance(t, Hole):
            t = cat(Hole("t0", ["a", "Z", "7"], ok=lambda s: s.isascii() and s.isalnum(), char=True),
                    Hole("t1", ["b", "Y", "8", " "], ok=lambda s: s == " " or s.isascii() and s.isalnum(), char=True),
                    Hole("t2", ["b", "Y", "8"], ok=lambda s: s.isascii() and s.isalnum(), char=True))
        for v in list(TEXT_VARIANTS) + [None, anyt] + list(dict.fromkeys(tother)):
            ck.expect(text_doc(t, v), "<mtext mathvariant=%s> of %s" % (v if isinstance(v, (str, type(None))) else "any other", l))
            ck.rule("style of mtext")
    for v in list(TEXT_VARIANTS) + [None, "script"]:
        for t in ("a→b", "x = 5", "αβ", "a, b", "née", "∑", "one two → three ☃ four", "-", "a-b c"):
            ck.expect(text_doc(t, v), "<mtext mathvariant=%s> of %r" % (v, t))
        for w in list(TEXT_VARIANTS) + [None]:
            ck.expect(E("math", *(text_doc("ab", v).els + text_doc("cd", w).els)), "<mtext> %s next to %s" % (v, w))
    for t in ("mn", "mo"):
        for v in VARIANTS:
            ck.expect(E("math", E(t, hole("v", t), mathvariant=v)), "<%s mathvariant=%s> is not styled" % (t, v))


def each_styled(ck, h, v, fmt):
    d1 = Doc(E("math", E("mrow", E("mi", h, mathvariant=v))))
    d2 = Doc(E("math", E("mrow", E("mi", h))))
    x, y = fmt.split("%s")
    label = "<mi mathvariant=%s> of a symbol" % v
    for p, (a, b) in ck.partitions_of(label, lambda p: (ck.e.convert_doc(p, d1), ck.e.convert_doc(p, d2)), limit=6000):
        ck.note_called(a)
        if b.kind != "value":
            continue
        for env, ra, rb in p.evals([h], a.value if a.kind == "value" else a.show(), b.value):
            ck.obligations += 1
            exp = x + rb + y
            # white space at the ends of a symbol's rendering is trimmed when it stands alone
            if ra == exp or _norm(ra.replace(x + " ", x).replace(" " + y, y)) == exp:
                ck.by_term += 1
            else:
                ck.problem("style of symbol %s" % names(env[h]), "%s %r: renders %r instead of %r" % (label, env[h], ra, exp),
                           witness=concrete(d1, env), functions=ck.spots(a))


# --------------------------------------------------------------------------------------------- C24
def c24(ck):
    A = lambda n: Hole(n, ["a", "Z", "7", "0", "z", "A", "9"], ok=lambda s: s.isascii() and s.isalnum(), char=True)
    S = lambda n: Hole(n, [" "], closed=True, char=True)
    few = [c for c in "α→∑≤é𝔸∞½²" if c in vocab()["char"] or True]
    Kn = lambda n: Hole(n, few, closed=True, char=True)
    unk = [c for c in "☃中жא_-,.;:!?()[]{}+=/<>\\%&$#'\"~^|*@`" if c not in vocab()["char"]]
    U = lambda n: Hole(n, unk, closed=True, char=True)
    classes = {"letter": A, "space": S, "symbol": Kn, "other": U}

    def one(body, label, **attrs):
        ck.expect(E("math", E("menclose", E("mtext", body, **attrs), notation="top")), label,
                  attributable=lambda p, o, e: o.kind != "value" or show(o.value).startswith("\\overline{"))
        ck.rule("text segmentation")
    L = 5 if ck.thorough else 4
    for n in range(0, L + 1):
        for combo in itertools.product(classes, repeat=n):
            hs = [classes[c]("c%d" % i) for i, c in enumerate(combo)]
            one(cat(*hs), "<mtext> of " + (", ".join(combo) or "nothing"))
    for n in (1, 2, 3):
        for combo in itertools.product(classes, repeat=n):
            hs = [classes[c]("c%d" % i) for i, c in enumerate(combo)]
            one(cat("  ", *(hs + [" "])), "<mtext> of %s amid blanks" % ", ".join(combo))
            one(cat("x", *(hs + ["y"])), "<mtext> of %s between letters" % ", ".join(combo))
            for v in ("bold", "script"):
                one(cat(*hs), "<mtext mathvariant=%s> of %s" % (v, ", ".join(combo)), mathvariant=v)
    # repeated characters and repeated runs
    for c, mk in classes.items():
        h = mk("c")
        for k in (2, 3, 4):
            one(cat(*([h] * k)), "<mtext> of %d times the same %s" % (k, c))
        one(cat(h, "→", h, "→", h), "<mtext> of equal %s runs" % c)
        one(cat("ab ", h, " ab ", h, " ab"), "<mtext> of equal runs around %s" % c)
    ascii_ = Hole("c", [chr(i) for i in range(33, 127)], closed=True, char=True)
    for a, b in (("", ""), ("x", ""), ("", "x"), ("x", "y"), ("→", "→"), ("x ", " y")):
        one(cat(a, ascii_, b), "<mtext> with an ASCII character between %r and %r" % (a, b))
    unk2 = [c for c in unknown_chars(ck) if c not in vocab()["char"]]
    for k in range(0, len(unk2), 3000):
        one(cat("x", Hole("c", unk2[k:k + 3000], closed=True, char=True), "y"), "<mtext> with a character without entry")
    syms = Hole("c", sorted(vocab()["char"]), closed=True, char=True)
    one(cat("x", syms, "y"), "<mtext> with a known symbol")
    for t in ("one two three", "a  b", "x=1", "if x > 0 then", "naïve café", "½ of α", "f(x)", "a, b, c", "1,2", "αβγ", "→", "--", "a_b^c",
              "100%", "O'Neil", "Größe", "x₁", "e.g. this", "A1 B2", "  padded  ", "(a)", "日本", "a\tb", "a\u00a0b", "\u00a0", "x" * 200, "→" * 50,
              "a→" * 30):
        for v in (None, "bold", "monospace"):
            one(t, "<mtext mathvariant=%s> of %r" % (v, t[:30]), **({"mathvariant": v} if v else {}))
    for b in "\t\x1f\x85\u00a0\u1680\u2000\u2002\u2003\u2004\u2007\u2008\u2009\u200a\u200b\u200d\u2028\u2029\u202f\u205f\u2060\u2061\u3000\ufeff\u00ad":
        for t in ("a%sb", "%sb", "a%s", "→%s→", "a %s b", "%s%s", "a%s%sb", "1%s2"):
            one(t.replace("%s", b), "<mtext> of %s with %s" % (t, names(b)))
    for n in ck.wide:
        for t in ("x", "→", "a→", "a ", "a-b ", "中", "xy1"):
            one((t * n)[:n + 1], "<mtext> of %d characters of %r" % (n, t))
            one((t * n)[:2 * n], "<mtext> of %d characters of %r" % (2 * n, t))
    one("", "empty <mtext>")
    one("   ", "blank <mtext>")
    ck.expect(E("math", E("mtext", "a", ("comment", "c"), "b→", ("cdata", "c d"))), "<mtext> with a comment and a section")
    ck.expect(E("math", E("mtext", "a→"), E("mtext", "b")), "two <mtext>")
    # every known symbol stays visible
    rs = renderings(ck, "char", "mtext", sorted(vocab()["char"]), "<mtext> with a symbol")
    for s, (r, o) in rs.items():
        ck.obligations += 1
        if r.strip() or not s.strip():
            ck.by_term += 1
        else:
            ck.problem("vanishing symbol %s" % names(s), "<mtext> %r (%s) renders %r: the character is lost" % (s, names(s), r),
                       witness="<math><mtext>a%sb</mtext></math>" % s, functions=ck.spots(o))
