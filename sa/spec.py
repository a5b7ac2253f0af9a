"""The expected rendering of an abstract document, written from the property statements.

It is evaluated over the same trace partition as the analysed source, so that a condition on an
unknown string (length of a base, notation value, ...) splits the partition in the same way.
"""
import json
import os
import re

from .terms import Term, Hole, Cat, cat, is_str
from .lib import _norm
from .trees import El

HERE = os.path.dirname(os.path.abspath(__file__))

VARIANTS = {"bold": "\\mathbf{%s}", "italic": "\\mathit{%s}", "bold-italic": "\\mathbf{\\mathit{%s}}",
            "double-struck": "\\mathbb{%s}", "bold-fraktur": "\\mathbf{\\mathfrak{%s}}", "script": "\\mathcal{%s}",
            "bold-script": "\\mathbf{\\mathcal{%s}}", "fraktur": "\\mathfrak{%s}", "sans-serif": "\\mathsf{%s}",
            "bold-sans-serif": "\\mathbf{\\mathsf{%s}}", "sans-serif-italic": "\\mathsf{\\mathit{%s}}",
            "sans-serif-bold-italic": "\\mathbf{\\mathsf{\\mathit{%s}}}", "monospace": "\\mathtt{%s}"}
TEXT_VARIANTS = {"bold": "\\textbf{%s}", "italic": "\\textit{%s}", "bold-italic": "\\textbf{\\textit{%s}}",
                 "double-struck": "\\mathbb{%s}", "monospace": "\\mathtt{%s}", "fraktur": "\\mathfrak{%s}",
                 "bold-fraktur": "\\mathfrak{%s}"}
NOTATIONS = {"actuarial": ("\\overline{\\left.", "\\right|}"), "radical": ("\\sqrt{", "}"), "box": ("\\boxed{", "}"),
             "roundedbox": ("\\boxed{", "}"), "circle": ("\\boxed{", "}"), "left": ("\\left|", ""), "right": ("", "\\right|"),
             "top": ("\\overline{", "}"), "bottom": ("\\underline{", "}"), "updiagonalstrike": ("\\cancel{", "}"),
             "downdiagonalstrike": ("\\bcancel{", "}"), "updiagonalarrow": ("\\cancelto{}{", "}"),
             "verticalstrike": ("\\hcancel{", "}"), "horizontalstrike": ("\\hcancel{", "}"),
             "madruwb": ("\\underline{", "\\right|}"), "phasorangle": ("{\\angle \\underline{", "}}")}
LONGDIV = ("\\overline{\\left.\\right)", "}")
ACCENTS = ("\\hat", "\\bar", "\\underbrace", "\\overbrace")
ARITY = {"msup": ("exactly", 2), "msub": ("exactly", 2), "mfrac": ("exactly", 2), "mroot": ("exactly", 2),
         "mover": ("exactly", 2), "munder": ("exactly", 2), "msubsup": ("exactly", 3), "munderover": ("exactly", 3),
         "mmultiscripts": ("at least", 3)}
TOKENS = ("mi", "mo", "mn", "mtext")
DOCUMENTED = set(ARITY) | set(TOKENS) | {"math", "msqrt", "mfenced", "maction", "menclose", "merror", "mphantom",
                                         "mtable", "mtr", "mrow", "mpadded"}
# attributes each element interprets
INTERPRETED = {"mi": {"mathvariant"}, "mtext": {"mathvariant"}, "mfenced": {"open", "close", "separators"},
               "mfrac": {"bevelled"}, "maction": {"actiontype"}, "menclose": {"notation"}}

_vocab = None


def vocab():
    global _vocab
    if _vocab is None:
        p = os.path.join(HERE, "vocab.json")
        _vocab = json.load(open(p, encoding="utf-8")) if os.path.exists(p) else {"mi": {}, "mo": {}, "mn": {}, "char": {}}
    return _vocab


class SpecError(Exception):
    def __init__(self, tag, cmp_, need, got):
        super().__init__("%s: %s %d, got %d" % (tag, cmp_, need, got))
        self.tag, self.cmp, self.need, self.got = tag, cmp_, need, got


class Spec:
    def __init__(self, path, **opts):
        self.path = path
        self.group = opts.get("group", "right")      # 'right', 'never', 'always': grouping of script bases

    # conditions ----------------------------------------------------------------------------------
    def is_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Term) and a == b:
            return True
        return self.path.truth(self.path.apply("eq", lambda p, q: p == q, [a, b]))

    def longer_than_one(self, s):
        if isinstance(s, str):
            return len(s) > 1
        return self.path.truth(self.path.apply("spec:len>1", lambda x, n: len(x) > n, [s, 1]))

    def has_space(self, s):
        if isinstance(s, str):
            return any(c.isspace() for c in s)
        return self.path.truth(self.path.apply("spec:has-space", lambda x: any(c.isspace() for c in x), [s]))

    def norm(self, s):
        return self.path.apply("norm", _norm, [s])

    def attr(self, el, name):
        """None when absent; '' when equal to the attribute's name."""
        if name not in el.attrs:
            return None
        v = el.attrs[name]
        if self.is_eq(v, name):
            return ""
        return v

    # documents -----------------------------------------------------------------------------------
    def doc(self, doc):
        out = []
        for f in doc.formulas():
            r = self.norm(self.row(f))
            if not self.is_eq(r, ""):
                if out:
                    out.append(" ")
                out.append(r)
        return cat(*out)

    def join(self, xs, sep):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.append(x)
        return cat(*out)

    def row(self, el, sep=" ", in_table=False):
        return self.join([self.r(c, in_table) for c in el.els], sep)

    def r(self, el, in_table=False):
        t = el.tag
        if isinstance(t, Term):
            return self.row(el, " ", in_table)
        k = el.els
        if t in ARITY:
            cmp_, need = ARITY[t]
            if (len(k) != need) if cmp_ == "exactly" else (len(k) < need):
                raise SpecError(t, cmp_, need, len(k))
        if t in TOKENS:
            return getattr(self, "t_" + t)(el)
        f = getattr(self, "e_" + t, None)
        if f is None:
            return self.row(el, " ", in_table)
        return f(el, k, in_table)

    # tokens --------------------------------------------------------------------------------------
    def symbol(self, which, s):
        v = vocab()[which]
        if isinstance(s, str):
            return v.get(s, s)
        return self.path.apply("spec:symbol-" + which, lambda x: v.get(x, x), [s], hint=False)

    def t_mn(self, el):
        return self.symbol("mn", self.norm(el.text))

    def t_mo(self, el):
        return self.symbol("mo", self.norm(el.text))

    def t_mi(self, el):
        s = self.symbol("mi", self.norm(el.text))
        v = self.attr(el, "mathvariant")
        if v is None:
            return s
        for name, fmt in VARIANTS.items():
            if self.is_eq(v, name):
                a, b = fmt.split("%s")
                return cat(a, s, b)
        return s

    def strip(self, s):
        if isinstance(s, str):
            return s.strip()
        return self.path.apply("strip", lambda x: x.strip(), [s])

    def t_mtext(self, el):
        v = self.attr(el, "mathvariant")
        fmt = "\\text{%s}"
        if v is not None:
            for name, f in TEXT_VARIANTS.items():
                if self.is_eq(v, name):
                    fmt = f
                    break
        a, b = fmt.split("%s")
        text = self.strip(el.text)
        out, run = [], []

        def flush():
            if run:
                out.append(cat(a, cat(*run), b))
                run[:] = []
        for ch in (list(text) if isinstance(text, str) else self.path.items(text)):
            if self.in_run(ch):
                run.append(ch)
            else:
                flush()
                out.append(self.char(ch))
        flush()
        return cat(*out)

    def in_run(self, ch):
        f = lambda c: c == " " or (c.isascii() and c.isalnum())
        return f(ch) if isinstance(ch, str) else self.path.truth(self.path.apply("spec:in-run", f, [ch], hint=False))

    def char(self, ch):
        f = lambda c: "" if c.isspace() else vocab()["char"].get(c, c)
        return f(ch) if isinstance(ch, str) else self.path.apply("spec:symbol-char", f, [ch], hint=False)

    # elements ------------------------------------------------------------------------------------
    def e_math(self, el, k, tb):
        return self.norm(self.row(el, " ", tb))

    def e_mphantom(self, el, k, tb):
        return ""

    def e_msqrt(self, el, k, tb):
        return cat("\\sqrt{", self.row(el, " ", tb), "}")

    def e_merror(self, el, k, tb):
        return cat("\\color{red}{", self.row(el, " ", tb), "}")

    def paren(self, s):
        return cat("\\left(", s, "\\right)")

    def base(self, el, tb):
        s = self.r(el, tb)
        if self.group == "never" or len(el.els) < 2:
            return s
        if self.group == "always" or self.longer_than_one(s):
            return self.paren(s)
        return s

    def e_msup(self, el, k, tb):
        return cat(self.base(k[0], tb), "^{", self.r(k[1], tb), "}")

    def e_msub(self, el, k, tb):
        return cat(self.base(k[0], tb), "_{", self.r(k[1], tb), "}")

    def e_msubsup(self, el, k, tb):
        return cat(self.base(k[0], tb), "_{", self.r(k[1], tb), "}^{", self.r(k[2], tb), "}")

    def e_munderover(self, el, k, tb):
        return cat(self.r(k[0], tb), "_{", self.r(k[1], tb), "}^{", self.r(k[2], tb), "}")

    def e_mroot(self, el, k, tb):
        return cat("\\sqrt[", self.r(k[1], tb), "]{", self.r(k[0], tb), "}")

    def e_mfrac(self, el, k, tb):
        a, b = self.r(k[0], tb), self.r(k[1], tb)
        v = self.attr(el, "bevelled")
        if v is not None and self.is_eq(v, "true"):
            w = lambda s: self.paren(s) if self.longer_than_one(s) else s
            return cat(w(a), "/", w(b))
        return cat("\\frac{", a, "}{", b, "}")

    def under_over(self, el, k, tb, cmd):
        c, m = self.r(k[0], tb), self.r(k[1], tb)
        for a in ACCENTS:
            if self.is_eq(m, a):
                return cat(a, "{", c, "}")
        return cat(cmd, "{", m, "}{", c, "}")

    def e_mover(self, el, k, tb):
        return self.under_over(el, k, tb, "\\overset")

    def e_munder(self, el, k, tb):
        return self.under_over(el, k, tb, "\\underset")

    def e_mmultiscripts(self, el, k, tb):
        base = self.r(k[0], tb)
        if self.has_space(base):
            base = self.paren(base)
        pre = post = ""
        is_mark = lambda i: len(k) > i and k[i].tag == "mprescripts"
        pair = lambda i: cat("_{", self.r(k[i], tb), "}^{", self.r(k[i + 1], tb), "}")
        if is_mark(1):
            if len(k) >= 4:
                pre = cat("\\", pair(2))
        else:
            post = pair(1)
            if is_mark(3) and len(k) >= 6:
                pre = cat("\\", pair(4))
        return cat(pre, base, post)

    def e_maction(self, el, k, tb):
        v = self.attr(el, "actiontype")
        if v is None or self.is_eq(v, "") or self.is_eq(v, "toggle"):
            return self.row(el, " \\Longrightarrow ", tb)
        if not k:
            raise SpecError("maction", "at least", 1, 0)
        return self.r(k[0], tb)

    def e_menclose(self, el, k, tb):
        v = self.attr(el, "notation")
        a, b = LONGDIV
        if v is not None:
            for name, ab in NOTATIONS.items():
                if self.is_eq(v, name):
                    a, b = ab
                    break
        return cat(a, self.row(el, " ", tb), b)

    def e_mfenced(self, el, k, tb):
        o = self.attr(el, "open")
        c = self.attr(el, "close")
        o = "" if o is None else o
        c = "" if c is None else c
        kids = [self.r(x, tb) for x in k]
        if any(x.tag == "mtable" for y in k for x in y.walk()):
            env = None
            for a, b, e in (("(", ")", "pmatrix"), ("[", "]", "bmatrix"), ("{", "}", "Bmatrix"), ("|", "|", "vmatrix"),
                            ("||", "||", "Vmatrix")):
                if self.is_eq(o, a) and self.is_eq(c, b):
                    env = e
                    break
            if env is None and self.is_eq(o, c):
                env = "bmatrix"
            m = cat("\\begin{%s} " % (env or "matrix"), cat(*kids), " \\end{%s}" % (env or "matrix"))
            return m if env else cat("\\left", o, m, "\\right", c)
        if self.is_eq(o, ""):
            o = "("
        if self.is_eq(c, ""):
            c = ")"
        s = self.attr(el, "separators")
        seps = [] if s is None else (list(s) if isinstance(s, str) else self.path.items(s))
        out = []
        for i, x in enumerate(kids):
            out.append(x)
            if i < len(kids) - 1:
                out.append(seps[min(i, len(seps) - 1)] if seps else ",")
        return cat("\\left", o, cat(*out), "\\right", c)

    def e_mtable(self, el, k, tb):
        s = self.join([self.r(x, True) for x in k], " \\\\ ")
        return cat("\\begin{matrix}", s, "\\end{matrix}") if tb else s

    def e_mtr(self, el, k, tb):
        return self.join([self.r(x, tb) for x in k], " & ")
