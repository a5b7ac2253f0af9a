"""The obligation runner: analyses cells (abstract documents), compares each trace partition with what the
property demands, and collects violations, findings and what was covered."""
import json
import os
import re
import time

from .engine import Engine, AnalysisBroken, REPO
from .harvest import constants, tables, functions
from .spec import Spec, SpecError, vocab, DOCUMENTED
from .terms import Term, Hole, Cat, Path, Unsupported, Infeasible, BudgetExceeded, cat, evaluate, explore, show, holes_of
from .trees import E, El, Doc
from .interp import Obj

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Problem:
    """One obligation that is broken: what construct, where, and a witness."""

    def __init__(self, key, text, doc=None, witness=None, expected=None, actual=None, facts=(), functions=()):
        self.key = key
        self.text = text
        self.doc = doc
        self.witness = witness
        self.expected = expected
        self.actual = actual
        self.facts = list(facts)
        self.functions = list(functions)

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items() if k != "env" and v not in (None, [], ())}


class Check:
    def __init__(self, pid, tier="quick", seed=1, engine=None, max_s=780):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.e = engine or Engine()
        self.I = self.e.I
        self.problems = []
        self.cells = 0
        self.obligations = 0
        self.partitions = 0
        self.by_term = 0
        self.by_reps = 0
        self.undecided = {}
        self.n_undecided = 0
        self.capped = 0
        self.samples = []
        self.called = {}
        self.rules = {}
        self.extra = {}
        self.t0 = time.time()
        self.deadline = self.t0 + max_s
        self.limit = 1200 if self.thorough else 400
        self.cell_s = 400 if self.thorough else 80
        self.strs, self.ints = constants(self.e)
        small = [i for i in self.ints if 0 <= i <= 12]
        self.K = min(14, max(5, max(small, default=3) + 2))
        # sizes beyond K: a fixed one, and one past every larger bound the source names
        bounds = sorted({i for i in self.ints if 12 < i <= 2000}
                        | {int(x) for t in self.strs for x in re.findall(r"[{,](\d{2,4})\}", t) if 12 < int(x) <= 2000})[:6]
        self.wide = sorted({40} | {i + 1 for i in bounds})
        self.base_called = None
        self.worker, self.workers = 0, 1
        self.cell_index = 0
        self.dev = None         # development hook: called with (check, path, doc, outcome)

    # -- bookkeeping ----------------------------------------------------------------------------
    def rule(self, name, n=1):
        self.rules[name] = self.rules.get(name, 0) + n

    def undecide(self, why, label):
        self.n_undecided += 1
        self.undecided.setdefault(why, []).append(label)

    def problem(self, key, text, **kw):
        if not any(p.key == key and p.text == text for p in self.problems):
            self.problems.append(Problem(key, text, **kw))

    def base(self):
        if self.base_called is None:
            self.base_called = set()
            try:
                for p, o in explore(lambda p: self.e.convert_doc(p, Doc(E("math", E("mn", "1")))), limit=5):
                    if o not in (None, "capped"):
                        self.base_called |= set(o.called)
            except Exception:
                pass
        return self.base_called

    def spots(self, out):
        """Functions specific to a cell (not entered for a lone number)."""
        b = self.base()
        r = []
        for k in out.called:
            if k not in b:
                f, q, line = k
                r.append("%s:%s %s" % (os.path.relpath(f, REPO) if f and f.startswith("/") else f, line, q))
        return sorted(set(r))[:12]

    def left(self):
        return self.deadline - time.time()

    # -- exploring ------------------------------------------------------------------------------
    def partitions_of(self, label, run, limit=None):
        """Yields (path, result) for every trace partition of run(path)."""
        self.cell_index += 1
        if self.cell_index % self.workers != self.worker:
            return
        self.cells += 1
        if self.left() < 0:
            self.undecide("out of time", label)
            return
        if len(self.problems) > 200:
            self.undecide("not analysed, after 200 violations", label)
            return
        lim = limit or self.limit

        def safe(p):
            try:
                return ("ok", run(p))
            except Unsupported as x:
                return ("unsupported", str(x))
            except SpecUndecided as x:
                return ("unsupported", str(x))
        t0 = time.time()
        for p, r in explore(safe, limit=lim, seed=self.seed):
            if time.time() - t0 > self.cell_s or self.left() < 0:
                self.undecide("out of time", label)
                return
            if p is None:
                self.capped += 1
                self.undecide("more than %d partitions" % lim, label)
                return
            self.partitions += 1
            if r[0] == "unsupported":
                self.undecide(r[1][:160], label)
                continue
            yield p, r[1]

    def note_called(self, o):
        for k, n in o.called.items():
            self.called[k] = self.called.get(k, 0) + n

    def sample(self, doc, out, p):
        if len(self.samples) < 12 and (self.cells % 7 == 1 or len(self.samples) < 4):
            self.samples.append({"document": xml_of(doc), "facts": [str(x) for x in p.log][:4], "result": out.show()[:300]})

    # -- the main obligation ----------------------------------------------------------------------
    def expect(self, doc, label, key=None, variants=({},), entry="static", compare=None, attributable=None, spec=None):
        """The conversion of doc renders as the specification says (one of the variants)."""
        if isinstance(doc, El):
            doc = Doc(doc)
        key = key or label

        def run(p):
            o = self.e.convert_doc(p, doc, entry)
            if self.dev:
                self.dev(self, p, doc, o)
            exps = []
            for v in variants:
                try:
                    exps.append((spec or (lambda pp, d, vv: Spec(pp, **vv).doc(d)))(p, doc, v))
                except SpecError as x:
                    exps.append(x)
            return o, exps
        for p, (o, exps) in self.partitions_of(label, run):
            self.obligations += 1
            self.note_called(o)
            self.sample(doc, o, p)
            try:
                n = len(self.problems)
                self.judge(p, doc, o, exps, label, key, compare, attributable)
                if len(self.problems) > n and compare is None and o.kind != "budget" and n < 20 and not self.confirmed(p, doc, variants, entry, attributable, spec):
                    del self.problems[n:]
                    self.undecide("a difference between samples that no single document shows", label)
            except Infeasible:
                self.obligations -= 1       # no assignment takes this path
            except Unsupported as x:
                self.undecide(str(x)[:160], label)

    def judge(self, p, doc, o, exps, label, key, compare=None, attributable=None):
        if any(isinstance(x, SpecError) for x in exps):
            if o.kind == "raise":
                self.by_term += 1
                return True
            w = self.witness(p, doc)
            self.problem(key, "%s: %s; got %s" % (label, exps[0], o.show()[:300]), doc=xml_of(doc), witness=w,
                         facts=map(str, p.log), functions=self.spots(o))
            return False
        if o.kind != "value":
            if attributable and not attributable(p, o, exps):
                return True
            self.problem(key, "%s: %s" % (label, o.show()[:300]), doc=xml_of(doc), witness=self.witness(p, doc),
                         expected=show(exps[0]), actual=o.show()[:400], facts=map(str, p.log), functions=self.spots(o))
            return False
        v = o.value
        if not isinstance(v, (str, Term)) or (isinstance(v, Term) and v.kind != "str"):
            if isinstance(v, Term) and v.kind == "any":
                self.undecide("result of unknown type", label)
                return True
            if attributable and not attributable(p, o, exps):
                return True
            self.problem(key, "%s: the result is %s, not a string" % (label, o.show()[:200]), doc=xml_of(doc),
                         witness=self.witness(p, doc), functions=self.spots(o))
            return False
        if compare is None and any(same(v, x) for x in exps):
            self.by_term += 1
            return True
        if compare is not None:
            r = compare(p, v, exps)
        else:
            r = differs(p, v, exps, doc)
        if r is None:
            self.by_reps += 1
            return True
        if r == "term":
            self.by_term += 1
            return True
        env, actual, expected = r
        if attributable and not attributable(p, o, exps):
            return True
        self.problem(key, "%s: expected %r, got %r" % (label, expected[:300], actual[:300]), doc=xml_of(doc),
                     witness=concrete(doc, env), expected=show(exps[0])[:600], actual=o.show()[:600],
                     facts=map(str, p.log), functions=self.spots(o))
        if self.problems:
            self.problems[-1].env = env
        return False

    def confirmed(self, p, doc, variants, entry, attributable, spec):
        """Whether some document of the partition, analysed on its own, breaks the rule too: a partition is decided on
        sampled assignments of its unknown texts, and one that a decision never saw may not belong to it."""
        last = self.problems[-1]
        hs = doc_holes(doc)
        if not hs:
            return True
        envs = p.envs(hs)
        first = getattr(last, "env", None)
        for env in ([first] if first else []) + envs[:: max(1, len(envs) // 12)][:14]:
            if any(h not in env for h in hs):
                return True
            one = exact(doc, env)

            def run(q):
                o = self.e.convert_doc(q, one, entry)
                exps = []
                for v in variants:
                    try:
                        exps.append((spec or (lambda pp, d, vv: Spec(pp, **vv).doc(d)))(q, one, v))
                    except SpecError as x:
                        exps.append(x)
                return o, exps
            probe = Check.__new__(Check)
            probe.__dict__.update(self.__dict__)
            probe.problems = []
            try:
                for q, r in explore(run, limit=40, seed=self.seed):
                    if q is None:
                        return True
                    try:
                        probe.judge(q, one, r[0], r[1], "", "", None, attributable)
                    except Infeasible:
                        continue
                    if probe.problems:
                        if env is not first:
                            last.witness = concrete(doc, env)
                        return True
            except (Unsupported, SpecUndecided):
                return True
        return False

    def witness(self, p, doc):
        try:
            hs = doc_holes(doc)
            env = p.envs(hs)[0] if hs else {}
            return concrete(doc, env)
        except Exception:
            return None

    def each(self, doc, label, judge, entry="static", key=None):
        """judge(path, outcome) -> None or (text, env|None) on every partition."""
        if isinstance(doc, El):
            doc = Doc(doc)

        def run(p):
            o = self.e.convert_doc(p, doc, entry)
            if self.dev:
                self.dev(self, p, doc, o)
            return o, judge(p, o)
        for p, (o, r) in self.partitions_of(label, run):
            self.obligations += 1
            self.note_called(o)
            self.sample(doc, o, p)
            if r is None:
                self.by_term += 1
                continue
            text, env = r[:2]
            self.problem((key or label) + (r[2] if len(r) > 2 else ""), "%s: %s" % (label, text), doc=xml_of(doc),
                         witness=concrete(doc, env) if env is not None else self.witness(p, doc),
                         actual=o.show()[:600], facts=map(str, p.log), functions=self.spots(o))

    # -- sharding ---------------------------------------------------------------------------------
    def dump(self):
        return {"problems": [p.as_dict() for p in self.problems], "cells": self.cells, "obligations": self.obligations,
                "partitions": self.partitions, "by_term": self.by_term, "by_reps": self.by_reps, "undecided": self.undecided,
                "n_undecided": self.n_undecided, "capped": self.capped, "samples": self.samples, "called": list(self.called.items()),
                "rules": self.rules, "extra": self.extra, "min_obligations": getattr(self, "min_obligations", 1),
                "cell_index": self.cell_index, "broken": getattr(self, "broken", None)}

    def absorb(self, d):
        for p in d["problems"]:
            q = Problem(p.pop("key"), p.pop("text"), **p)
            if not any(r.key == q.key and r.text == q.text for r in self.problems):
                self.problems.append(q)
        for k in ("cells", "obligations", "partitions", "by_term", "by_reps", "n_undecided", "capped"):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d["undecided"].items():
            self.undecided.setdefault(k, []).extend(v)
        for k, n in d["called"]:
            k = tuple(k)
            self.called[k] = self.called.get(k, 0) + n
        for k, n in d["rules"].items():
            self.rules[k] = max(self.rules.get(k, 0), n)
        self.samples = (self.samples + d["samples"])[:12]
        for k, v in d["extra"].items():
            if isinstance(v, int) and k.startswith("n_"):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra.setdefault(k, v)
        self.min_obligations = d["min_obligations"]
        self.cell_index = d["cell_index"]
        if d["broken"]:
            self.broken = d["broken"]

    # -- result -----------------------------------------------------------------------------------
    def floor(self, n):
        """The hand-confirmed number of obligations this check decides at least."""
        self.min_obligations = n


class SpecUndecided(Exception):
    pass


def xml_of(doc):
    if doc is None:
        return None
    return doc.root.xml() if isinstance(doc, Doc) else doc.xml() if isinstance(doc, El) else str(doc)


def doc_holes(doc):
    out = []

    def add(x):
        for h in holes_of(x):
            if h not in out:
                out.append(h)
    for e in doc.root.walk():
        add(e.tag)
        for k, v in e.attrs.items():
            add(k)
            add(v)
        for k in e.kids:
            if isinstance(k, tuple):
                add(k[1])
            elif not isinstance(k, El):
                add(k)
    return out


def concrete(doc, env):
    if env is None or doc is None:
        return None
    try:
        return doc.root.concrete(env)[:3000]
    except KeyError:
        return None


def exact(doc, env):
    """The document with every unknown replaced by its value."""
    def el(e):
        kids = []
        for k in e.kids:
            if isinstance(k, El):
                kids.append(el(k))
            elif isinstance(k, tuple):
                kids.append((k[0], evaluate(k[1], env)))
            else:
                kids.append(evaluate(k, env))
        r = El(evaluate(e.tag, env), *kids)
        r.attrs = {evaluate(k, env): evaluate(v, env) for k, v in e.attrs.items()}
        return r
    return Doc(el(doc.root), [(k, evaluate(v, env)) for k, v in doc.before])


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


def norm_skeleton(t):
    """A template modulo whitespace normalisation of its literals (only used as a quick syntactic match)."""
    if isinstance(t, Term) and t.op == "norm" and len(t.args) == 1:
        t = t.args[0]
    return t


def differs(p, v, exps, doc=None):
    """None when the value equals an expectation on every representative; else (env, actual, expected)."""
    hs = list(doc_holes(doc)) if doc is not None else []
    for x in [v] + list(exps):
        for h in holes_of(x):
            if h not in hs:
                hs.append(h)
    if not hs:
        a = evaluate(v, {})
        ex = [evaluate(x, {}) for x in exps]
        return None if a in ex else ({}, a, ex[0])
    for env, a, *ex in p.evals(hs, v, *exps):
        if a not in ex:
            return env, str(a), str(ex[0])
    return None


# -- projections ------------------------------------------------------------------------------------
def occurrences(t):
    """[(hole, literal text before it)] of a template that is a concatenation; None otherwise."""
    t = norm_skeleton(t)
    out, lit = [], ""
    for q in (t.args if isinstance(t, Cat) else (t,)):
        if isinstance(q, str):
            lit += q
        elif isinstance(q, Hole):
            out.append((q, lit))
            lit = ""
        elif isinstance(q, Term) and q.op == "norm":
            sub = occurrences(q)
            if sub is None:
                return None
            inner, tail = sub
            for i, (h, l) in enumerate(inner):
                out.append((h, lit + l if i == 0 else l))
                lit = ""
            lit += tail
        else:
            return None
    return out, lit


def value_sequence(s, values):
    vals = sorted(set(values), key=len, reverse=True)
    if not vals or any(not v for v in vals):
        return None
    return re.findall("|".join(re.escape(v) for v in vals), s)


def same_sequence(gap=None):
    """Compare only which holes occur in which order (and, with gap, the literal between two consecutive ones)."""
    def compare(p, v, exps):
        a = occurrences(v)
        b = occurrences(exps[0])
        if a is not None and b is not None:
            if [h.name for h, _ in a[0]] == [h.name for h, _ in b[0]]:
                if gap is None:
                    return "term"
                if all(" ".join(x[1].split()) == " ".join(y[1].split()) and (x[1] == "") == (y[1] == "")
                       for x, y in list(zip(a[0], b[0]))[1:]):
                    return "term"
        hs = []
        for x in [v, exps[0]]:
            for h in holes_of(x):
                if h not in hs:
                    hs.append(h)
        for env, x, y in p.evals(hs, v, exps[0]):
            if x == y:
                continue
            vals = [env[h] for h in hs]
            if any(q != r and q in r for q in vals for r in vals):
                continue        # ambiguous to read off
            sx, sy = value_sequence(x, vals), value_sequence(y, vals)
            if sx is None or sy is None:
                continue
            if sx != sy or gap is not None:
                return env, x, y
        return None
    return compare


# -- standard operands --------------------------------------------------------------------------------
def plain_text(which):
    v = vocab()[which]

    def ok(s):
        return s != "" and s == " ".join(s.split()) and s not in v and not (len(s) == 1 and ord(s) > 126) \
            and not s.startswith("&#") and all(0xd7ff >= ord(c) or 0xe000 <= ord(c) for c in s)
    return ok


OK = {w: plain_text(w) for w in ("mi", "mo", "mn")}
POOL = ["q", "zw", "k v", "j;8", "y{x_2^3}\\p"]


def hole(name, which="mn"):
    return Hole(name, POOL, ok=OK[which])


def mn(name):
    return E("mn", hole(name))


CORPUS = ["e\u0301", "x\u0307", "\u0301", "\u1100\u1161", "\ufb03", "\u01c6", "\U0001f44d\U0001f3fd", "\u2764\ufe0f", "\u200bq", "q\u200d", "\uff11", "\u0663", "1\u0664", "0042", "007", "00", "0", "0.50", "-5", "+5", ".5",
          "5.", "1,000", "1.000,5", "1 000", "1e5", "1E-5", "0x1F", "1/2", "50%", "1_000", "1'000", "\u2160", "12:30", "2026-11-20", "IV", "NaN", "Inf", "-0", "9" * 20, "dx", "Re", "lim sup", "x'", "x''", "a_1", "a-b", "f(x)", "(q", "q)", "[q]",
          "q!", "q,", ",q", "#q", "$q$", "q&w", "q~w", "q^w", "\\alpha", "\\", "\"q\"", "'q'", "`q`", "<q>", "q|w", "None", "True", "null", "none", "Q", "QQ", "qQ", "stra\u00dfe", "\u0130x", "\u4e2d\u6587", "\u0447\u0442\u043e", "\u05d0\u05d1", "%s", "{}", "{0}", "q" * 70]


def corpus(which):
    return [x for x in CORPUS if OK[which](x)]


def odd(name, which="mn"):
    """A text of a peculiar form."""
    return Hole(name, corpus(which), closed=True)


NAMES = ["none", "mspace", "semantics", "foo", "mstyle", "ms"]
SPECIAL = set(DOCUMENTED) | {"mprescripts"}


def any_name(name):
    """The name of an element that has no rendering of its own."""
    return Hole(name, NAMES, ok=lambda s: re.match(r"^[A-Za-z_][\w.-]*$", s) is not None and s.isascii() and s not in SPECIAL)


def kinds(name):
    """Operands of every shape: (label, element); name makes the unknown texts of this operand distinct."""
    a, b, c = (lambda: mn(name + "1")), (lambda: mn(name + "2")), (lambda: mn(name + "3"))
    return [
        ("number", a()),
        ("nothing", E("mphantom", a())),
        ("empty mn", E("mn")),
        ("empty mrow", E("mrow")),
        ("mrow of 1", E("mrow", a())),
        ("mrow of 2", E("mrow", a(), b())),
        ("mrow of 3", E("mrow", a(), b(), c())),
        ("mrow of 2 nothings", E("mrow", E("mphantom"), E("mphantom"))),
        ("mrow of 1 and nothing", E("mrow", a(), E("mphantom"))),
        ("mrow in mrow", E("mrow", E("mrow", a(), b()))),
        ("msup", E("msup", a(), b())),
        ("msubsup", E("msubsup", a(), b(), c())),
        ("mfrac", E("mfrac", a(), b())),
        ("mroot", E("mroot", a(), b())),
        ("msqrt", E("msqrt", a(), b())),
        ("mfenced", E("mfenced", a(), b(), c())),
        ("mtext", E("mtext", "one two")),
        ("mstyle", E("mstyle", a(), b())),
        ("unknown", E("foo", a(), b())),
        ("table", E("mtable", E("mtr", E("mtd", a()), E("mtd", b())), E("mtr", E("mtd", c())))),
        ("mi", E("mi", hole(name + "1", "mi"))),
        ("mo", E("mo", hole(name + "1", "mo"))),
        ("symbol", E("mo", "→")),
        ("operator", E("mo", "+")),
        ("none", E("none")),
        ("any empty element", E(any_name(name + "t"))),
        ("any element of 1", E(any_name(name + "t"), a())),
        ("any element of 2", E(any_name(name + "t"), a(), b())),
        ("blank mi", E("mi", " ")),
        ("space element", E("mspace", width="1em")),
        ("odd mn", E("mn", odd(name + "1"))),
        ("odd mi", E("mi", odd(name + "1", "mi"))),
        ("action on an odd text", E("maction", E("mn", odd(name + "1")), b(), actiontype="tooltip")),
    ]


def kind(name, label):
    for l, e in kinds(name):
        if l == label:
            return e
    raise KeyError(label)
