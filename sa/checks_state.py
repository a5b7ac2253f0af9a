"""What a conversion keeps, reads, does and costs: memory between calls, ambient inputs and effects, amount of work."""
import ast
import itertools
import os

from .core import *
from .spec import VARIANTS, NOTATIONS, DOCUMENTED, INTERPRETED, ARITY, TOKENS
from .features import documents, elements, TEXTS, words, all_documents, symbol_documents
from .harvest import module_trees
from .interp import Cls, Func, Obj
from .lib import AMBIENT, AMBIENT_BUILTINS
from .engine import PKG
from . import checks_struct as cs
from .checks_xml import oracle, infoset, BAD, MALFORMED
from .redos import exponential


# --------------------------------------------------------------------------------------------- C20
def start(ck, p, item, entry="static", keep=False):
    if isinstance(item, Doc):
        return ck.e.convert_doc(p, item, entry, keep)
    return ck.e.run(p, item, oracle(), entry, keep)


def outcome_differs(ck, p, a, b):
    """None when the two outcomes agree on this partition; else a text."""
    if a.kind != b.kind:
        return "%s instead of %s" % (b.show()[:200], a.show()[:200])
    if a.kind == "budget":
        return None
    if a.kind == "raise":
        if a.exc_name() != b.exc_name():
            return "%s instead of %s" % (b.show()[:200], a.show()[:200])
        x, y = a.exc_text(ck.I), b.exc_text(ck.I)
        if isinstance(x, (str, Term)) and isinstance(y, (str, Term)) and value_differs(p, x, y):
            return "%s instead of %s" % (b.show()[:200], a.show()[:200])
        return None
    if value_differs(p, a.value, b.value):
        return "%s instead of %s" % (b.show()[:200], a.show()[:200])
    return None


def value_differs(p, x, y):
    if not isinstance(x, (str, Term)) or not isinstance(y, (str, Term)):
        return type(x) is not type(y) or (not isinstance(x, Obj) and x != y)
    if same(x, y):
        return False
    hs = []
    for v in (x, y):
        for h in holes_of(v):
            if h not in hs:
                hs.append(h)
    if not hs:
        return evaluate(x, {}) != evaluate(y, {})
    return any(a != b for _, a, b in p.evals(hs, x, y))


def fingerprint(v, env, depth=0):
    """A comparable picture of a value under an assignment; None when it cannot be told."""
    if isinstance(v, Term):
        try:
            return ("s", evaluate(v, env))
        except Exception:
            return None
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return ("s", v)
    if depth > 4:
        return ("deep",)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(fingerprint(x, env, depth + 1) for x in v[:50])
    if isinstance(v, dict):
        return ("dict",) + tuple((fingerprint(k, env, depth + 1), fingerprint(x, env, depth + 1)) for k, x in list(v.items())[:200])
    if isinstance(v, Obj):
        return ("obj", v.cls.name, tuple(sorted((k, str(fingerprint(x, env, depth + 1))) for k, x in v.attrs.items())))
    return (type(v).__name__, getattr(v, "name", getattr(v, "qual", "")))


class Writes:
    """Judges writes to places that outlive a conversion: only a memo whose value is a function of its key is harmless."""

    def __init__(self, ck):
        self.ck = ck
        self.seen = {}
        self.benign = {}

    def judge(self, p, o):
        """[(key, text)] for the writes of one conversion that a later or concurrent call can observe."""
        out = []
        for e in o.events:
            if e.get("thread_local"):
                self.benign["thread-local %s" % e["what"]] = e["where"]
                continue
            what = "%s: %s of %s" % (e["where"], e["how"], e["what"])
            key = "%s of %s" % (e["how"], e["what"])
            d = e["detail"]
            if e["kind"] == "memo":
                k, v = d
                bad = self.conflict(p, ("memo", e["what"]), k, v)
            elif e["kind"] == "dict" and e["how"] == "item assignment" and d:
                bad = self.conflict(p, ("dict", e["what"]), d[0], d[1])
            elif e["kind"] == "attr" and e.get("first"):
                bad = self.conflict(p, ("attr", e["what"]), e["loc"][1], d[1])
                if bad is None and self.unsafe(d[1]):
                    bad = "an object that changes while in use"
            elif e["kind"] == "attr" and e.get("loc") and self.unchanged(p, e):
                bad = None
            else:
                bad = "a change every other call can see"
            if bad:
                out.append((key, "%s (%s)" % (what, bad)))
            else:
                self.benign[key] = e["where"]
        return out

    def unsafe(self, v):
        return False

    def unchanged(self, p, e):
        hs = holes_of((e["detail"][1], e.get("old"))) if not isinstance(e["detail"][1], (Obj, dict, list)) else []
        try:
            envs = p.envs(hs) if hs else [{}]
        except Exception:
            return False
        for env in envs[:30]:
            a, b = fingerprint(e["detail"][1], env), fingerprint(e.get("old"), env)
            if a is None or a != b:
                return False
        return True

    def conflict(self, p, place, k, v):
        def holes_deep(x):
            try:
                return list(holes_of(x if isinstance(x, tuple) else (x,)))
            except Exception:
                return []
        hs = list(dict.fromkeys(holes_deep(k) + holes_deep(v)))
        try:
            envs = p.envs(hs)[:40] if hs else [{}]
        except Exception:
            envs = [{}]
        for env in envs:
            a, b = fingerprint(k, env), fingerprint(v, env)
            if a is None or b is None:
                continue
            t = self.seen.setdefault(place, {})
            if a in t and t[a] != b:
                return "the same place gets %s in one conversion and %s in another" % (str(b)[:80], str(t[a])[:80])
            t[a] = b
        return None


def twins(x):
    """Texts of the same length and markup in which one letter differs: in the text, in an attribute, in a name."""
    out = []
    for pat in (r">([^<>]*?)([a-z0-9])(?=[^<>]*<)", r"(<\w[^<>]*?\s[^<>]*?)([a-z0-9])(?=[^<>a-z0-9]*>)", r"(<\w+\s+)([a-z])(?=[^<>]*>)"):
        m = re.search(pat, x)
        if m:
            i = m.start(2)
            y = x[:i] + ("z" if x[i] != "z" else "k") + x[i + 1:]
            if y not in out and y != x:
                out.append(y)
    return out


def c20(ck):
    W = Writes(ck)
    docs = documents()
    items = docs + [(l, x) for l, x in TEXTS]
    small = [i for i in items if i[0] in ("<mi> with a text", "<mtable>", "<mfenced {}>", "<mfrac>", "one repair", "<mtext mathvariant=bold>")]

    # 1. what is written where it outlives the conversion
    def writes(item, label, entry):
        def run(p):
            o = start(ck, p, item, entry)
            return o, W.judge(p, o)
        for p, (o, bad) in ck.partitions_of("writes: " + label, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.sample(item if isinstance(item, Doc) else item, o, p)
            ck.rule("nothing is written that outlives the conversion")
            if not bad:
                ck.by_term += 1
            for key, text in bad:
                ck.problem(key, "%s: %s" % (label, text), doc=xml_of(item) if isinstance(item, Doc) else item,
                           witness=ck.witness(p, item) if isinstance(item, Doc) else item, functions=ck.spots(o))
    w, ws = ck.worker, ck.workers
    if w == 0:
        ck.worker, ck.workers = 0, 1        # one process sees all writes, so that it can compare them
        for l, it in items:
            for entry in ("static", "instance"):
                writes(it, l, entry)
        for l, it in documents(lambda n="t": words("other")):
            writes(it, l + ", other text", "static")
        for b in BAD:
            writes("<math><mi %s>x</mi></math>" % b, "repair of " + b, "static")
        for i in ck.ints:
            if 3 <= i <= 400:
                writes(Doc(E("math", *[E("mi", "x%d" % k) for k in range(i + 1)])), "%d children" % (i + 1), "static")
                writes("<math><mtext>" + "x" * (i + 1) + "</mtext></math>", "%d characters" % (i + 1), "static")
        ck.worker, ck.workers = w, ws
    ck.cell_index = 0

    # 2. self-composition: B after A as B alone
    def after(first, second, label, entries=("static", "static")):
        def run(p):
            fresh = start(ck, p, second, entries[1])
            ck.e.reset(p)
            for a, ent in first:
                start(ck, p, a, ent, keep=True)
            o = start(ck, p, second, entries[1], keep=True)
            return o, outcome_differs(ck, p, fresh, o)
        for p, (o, bad) in ck.partitions_of(label, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.rule("a conversion after others equals it alone")
            if bad is None:
                ck.by_term += 1
            else:
                wit = " ; then ".join([(ck.witness(p, a) if isinstance(a, Doc) else a) or "?" for a, _ in first] + [(ck.witness(p, second) if isinstance(second, Doc) else second) or "?"])
                ck.problem("history", "%s: %s" % (label, bad), witness=wit, functions=ck.spots(o))
    for (la, a), (lb, b) in itertools.product(items, repeat=2):
        after([(a, "static")], b, "%s, then %s" % (la, lb))
    # texts that are alike (same length, same place and kind of error) but differ in one letter
    bases = [x for _, x in TEXTS] + ["<math><mi %s>x</mi></math>" % b for b in BAD] + ["<math %s><mi>x</mi></math>" % b for b in BAD] + ["<math><mi %s>x</mo></math>" % b for b in BAD[::4]] + list(MALFORMED)
    for x in bases:
        for y in twins(x):
            after([(x, "static")], y, "%r, then %r" % (x[:60], y[:60]))
            after([(y, "static")], x, "%r, then %r" % (y[:60], x[:60]))
            after([(x, "instance")], y, "%r, then %r by the same object" % (x[:60], y[:60]), ("instance", "instance"))
    for (la, a), (lb, b) in itertools.product(items, small):
        after([(a, "instance")], b, "%s by the same object, then %s" % (la, lb), ("instance", "instance"))
        after([(b, "static"), (a, "static"), (b, "static")], a, "%s, %s, %s, then %s" % (lb, la, lb, la))
        after([(a, "static"), (a, "instance")], b, "%s twice, then %s by an object" % (la, lb), ("instance", "instance"))
    reps = sorted({i for i in ck.ints if 0 < i <= 40} | {2, 3, 10})
    for l, a in small:
        for n in reps:
            after([(a, "static")] * n, a, "%s %d times, then once more" % (l, n))
            for l2, b in small:
                after([(a, "static")] * n, b, "%s %d times, then %s" % (l, n, l2))
    after([(it, "static") for _, it in items], small[0][1], "all documents, then %s" % small[0][0])
    if ck.thorough:
        odocs = documents(lambda n="t": words("other")) + list(TEXTS)
        for (la, a), (lb, b) in itertools.product(odocs, items):
            after([(a, "static")], b, "%s (other text), then %s" % (la, lb))
            after([(a, "instance")], b, "%s (other text) by the same object, then %s" % (la, lb), ("instance", "instance"))

    # 3. interleaving: B runs in the middle of A, at every write A makes to something shared and at its parse
    def during(a, b, label, entry):
        def run(p):
            fa, fb = start(ck, p, a, entry), start(ck, p, b, entry)
            n = len(fa.events)
            if n == 0:
                return fa, None
            for j in range(min(n + 1, 8)):
                ck.e.reset(p)
                res = {}
                I = ck.I

                def hook():
                    if len(I.events) == j and "b" not in res:
                        res["b"] = None
                        saved = (I.events, I.effects, I.parse_args, I.called, I.steps, I.max_depth, I.stack, I.depth, I.parse_oracle, list(I.exc_stack))
                        I.on_event = None
                        I.depth = 0
                        res["b"] = start(ck, p, b, entry, keep=True)
                        I.events, I.effects, I.parse_args, I.called, I.steps, I.max_depth, I.stack, I.depth, I.parse_oracle = saved[:9]
                        I.exc_stack[:] = saved[9]
                I.on_event = hook
                o = start(ck, p, a, entry, keep=True)
                I.on_event = None
                if res.get("b") is not None:
                    bad = outcome_differs(ck, p, fb, res["b"])
                    if bad:
                        return o, "a concurrent %s gives %s" % (label[1], bad)
                bad = outcome_differs(ck, p, fa, o)
                if bad:
                    return o, "interrupted by %s it gives %s" % (label[1], bad)
            return fa, None
        for p, (o, bad) in ck.partitions_of("%s during %s" % (label[1], label[0]), run):
            ck.obligations += 1
            ck.rule("a conversion in the middle of another changes neither")
            if bad is None:
                ck.by_term += 1
            else:
                ck.problem("concurrency", "%s: %s" % (label[0], bad), functions=ck.spots(o))
    for (la, a), (lb, b) in itertools.product(items, small):
        during(a, b, (la, lb), "static")
        during(a, b, (la, lb), "instance")
    # 4. the documents of all the other checks: nothing is written that outlives a conversion
    for l, d in all_documents(ck) + symbol_documents(ck):
        writes(d, l, "static")
    for l, d in symbol_documents(ck):
        for l2, b in small:
            after([(d, "static")], b, "%s, then %s" % (l, l2))
            after([(b, "static")], d, "%s, then %s" % (l2, l))
    # 5. importing the package and making a converter object prepare nothing that depends on when it happens
    ck.extra["harmless_memos"] = dict(W.benign) or "none"
    ck.extra["shared_containers_watched"] = len(ck.I.shared_ids)


# --------------------------------------------------------------------------------------------- C21
DENIED_ATTRS = {"ExternalEntityRefHandler", "feature_external_ges", "feature_external_pes", "environ", "getenv"}
SAFE_MEMBERS = {("sys", "maxsize"), ("sys", "version_info"), ("sys", "intern"), ("sys", "maxunicode"), ("io", "StringIO"), ("os", "sep"), ("os", "linesep"),
                ("importlib", "import_module"), ("inspect", "isclass"), ("inspect", "isfunction"), ("inspect", "ismethod"), ("logging", "getLogger"),
                ("logging", "NullHandler"), ("sys", "platform"), ("sys", "version"), ("builtins", "str"), ("traceback", "format_exc")}


def ambient_uses(tree):
    """[(function qualified name, line, what)] for every use of an ambient module or builtin inside a function."""
    mods, froms = {}, {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] in AMBIENT:
                    mods[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] in AMBIENT:
            for a in n.names:
                froms[a.asname or a.name] = (n.module, a.name)
    out = []

    def bound(fn):
        names = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        for x in (fn.args.vararg, fn.args.kwarg):
            if x:
                names.add(x.arg)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        return names
    top = {t.id for n in ast.walk(tree) for t in ([n] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else [])} | \
          {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}

    def scan(body, qual, local):
        for s in body:
            for n in walk_here(s):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mods and n.value.id not in local:
                    m = mods[n.value.id]
                    if (m.split(".")[0], n.attr) not in SAFE_MEMBERS and not n.attr[:1].isupper():
                        out.append((qual, n.lineno, "%s.%s" % (m, n.attr)))
                elif isinstance(n, ast.Attribute) and n.attr in DENIED_ATTRS and not (isinstance(n.value, ast.Name) and n.value.id in mods):
                    out.append((qual, n.lineno, n.attr))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id in froms and n.id not in local:
                        m = froms[n.id]
                        if (m[0].split(".")[0], m[1]) not in SAFE_MEMBERS and not m[1][:1].isupper():
                            out.append((qual, n.lineno, "%s.%s" % m))
                    elif n.id in AMBIENT_BUILTINS - {"compile", "globals"} and n.id not in local and n.id not in top:
                        out.append((qual, n.lineno, n.id + "()"))

    def walk_here(s):
        """Nodes of a statement without nested functions and classes."""
        todo = [s]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield n
            todo.extend(ast.iter_child_nodes(n))

    def rec(node, pre, local):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                loc = local | bound(c)
                scan(c.body, pre + c.name, loc)
                for d in c.body:
                    rec_in(d, pre + c.name + ".", loc)
            elif isinstance(c, ast.ClassDef):
                rec(c, pre + c.name + ".", local)
            else:
                rec(c, pre, local)

    def rec_in(s, pre, local):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc = local | bound(s)
            scan(s.body, pre + s.name, loc)
            for d in s.body:
                rec_in(d, pre + s.name + ".", loc)
        elif isinstance(s, ast.ClassDef):
            rec(s, pre + s.name + ".", local)
        else:
            for c in ast.iter_child_nodes(s):
                rec_in(c, pre, local)
    rec(tree, "", set())
    return out


def reachable(engine):
    """Names-based over-approximation of the functions the public conversion can reach: {(module, qualified name)}."""
    funcs, calls = {}, {}
    for name, file, tree in module_trees(engine):
        def rec(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    k = (name, pre + c.name)
                    funcs.setdefault(c.name, set()).add(k)
                    used = {n.id for n in ast.walk(c) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(c) if isinstance(n, ast.Attribute)}
                    calls[k] = used
                    rec(c, pre + c.name + ".")
                elif isinstance(c, ast.ClassDef):
                    classes.setdefault(c.name, set()).add((name, pre + c.name))
                    rec(c, pre + c.name + ".")
                else:
                    rec(c, pre)
        classes = funcs.setdefault("\0classes", {})
        rec(tree, "")
    classes = funcs.pop("\0classes", {})
    seen = {(PKG + ".converter", "MathMLToLaTeX.convert")}
    todo = list(seen)
    while todo:
        k = todo.pop()
        for n in calls.get(k, ()):
            nxt = set(funcs.get(n, ()))
            for m, q in classes.get(n, ()):
                # making an object runs its special methods
                nxt |= {(mm, qq) for f in funcs.values() for mm, qq in f if mm == m and qq.startswith(q + ".__")}
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
    return seen


SELF_TEST = {"import os\ndef f():\n    return os.getcwd()": "os.getcwd", "from time import time as now\ndef f():\n    return now()": "time.time",
             "def f(p):\n    with open(p) as g:\n        return g.read()": "open()", "import random\nclass A:\n    def m(self):\n        return [random.random() for _ in 'a']": "random.random",
             "def f(x):\n    return eval(x)": "eval()", "def f(x):\n    import subprocess\n    subprocess.run(x)": "subprocess.run", "def f(x):\n    print(x)": "print()",
             "def f(p):\n    p.ExternalEntityRefHandler = 1": "ExternalEntityRefHandler", "import locale as l\ndef f():\n    def g():\n        return l.getlocale()\n    return g()": "locale.getlocale"}
SELF_QUIET = ["import os\nX = 1\ndef f(os):\n    return os.x", "def f(open):\n    return open(1)", "import re\ndef f(x):\n    return re.compile(x)", "import io\ndef f():\n    return io.StringIO()",
              "def print(x):\n    return x\ndef f():\n    return print(1)", "from os import path\nY = 2"]


def c21(ck):
    for src, want in SELF_TEST.items():
        got = [w for _, _, w in ambient_uses(ast.parse(src))]
        if want not in got:
            raise AnalysisBroken("the rule against ambient inputs does not match its own example %r" % src)
    for src in SELF_QUIET:
        if ambient_uses(ast.parse(src)):
            raise AnalysisBroken("the rule against ambient inputs matches %r" % src)
    docs = documents()
    items = docs + list(TEXTS)

    # 1. who may call: no function the conversion reaches uses an ambient module or builtin
    if ck.worker == 0:
        reach = reachable(ck.e)
        ck.extra["functions_reachable_by_name"] = len(reach)
        n = 0
        for name, file, tree in module_trees(ck.e):
            quals = {}
            for q, line, what in ambient_uses(tree):
                if (name, q) in reach:
                    quals.setdefault((q, what), line)
            n += 1
            for (q, what), line in quals.items():
                if what.startswith("logging.") and what.split(".")[-1] in ("debug", "info"):
                    continue
                ck.problem("%s in %s" % (what, q), "%s:%d %s uses %s" % (os.path.relpath(file, REPO_DIR), line, q, what), functions=["%s.%s" % (name, q)])
        ck.obligations += len(reach)
        ck.by_term += len(reach)
        ck.rule("no ambient module or builtin in a reachable function", len(reach))
        for e in ck.e.import_effects:
            if not e["soft"]:
                ck.problem("import: " + e["effect"], "%s: %s when the package is imported" % (e["where"], e["effect"]))

    # 2. effects met while analysing, whatever the way they are reached
    def effects(item, label, entry="static", xml=None):
        def run(p):
            o = start(ck, p, item, entry) if xml is None else ck.e.run(p, xml, lambda I, t: build(item), entry)
            ident = [h.name for h in holes_of(o.value) if getattr(h, "note", "") == "identity"] if isinstance(o.value, Term) else []
            return o, ident, [str(x) for x in p.log]
        results = {}
        for p, (o, ident, log) in ck.partitions_of("effects: " + label, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.sample(item, o, p)
            ck.rule("no effect on any path")
            bad = [e for e in o.effects if not e["soft"]]
            for e in bad:
                ck.problem(e["effect"], "%s: %s at %s" % (label, e["effect"], e["where"]), doc=xml_of(item) if isinstance(item, Doc) else item, functions=ck.spots(o))
            if ident:
                ck.problem("identity", "%s: the result depends on %s" % (label, ", ".join(ident)), functions=ck.spots(o))
            elif not bad:
                ck.by_term += 1
            results.setdefault(o.show(), []).append(p)
        return results
    from .trees import build_dom as build
    for l, it in items:
        for entry in ("static", "instance"):
            effects(it, l + " (%s)" % entry, entry)
    # 3. a document without unknown parts has one result, whatever the hash seed, the order of sets or the addresses of objects
    concrete_docs = documents(lambda n="t": "x") + list(TEXTS)
    for l, it in concrete_docs:
        if ck.cell_index % ck.workers == (ck.worker - 1) % ck.workers:
            r = effects(it, "one result: " + l)
            ck.obligations += 1
            ck.rule("one result per document")
            if len(r) > 1:
                ck.problem("more than one result", "%s: %s" % (l, " or ".join(list(r)[:3])), doc=xml_of(it) if isinstance(it, Doc) else it)
            else:
                ck.by_term += 1
        else:
            ck.cell_index += 1
    for l, it in items:
        def run(p):
            p.flip_sets = False
            a = start(ck, p, it)
            p.flip_sets = True
            b = start(ck, p, it)
            p.flip_sets = False
            return b, outcome_differs(ck, p, a, b)
        for p, (o, bad) in ck.partitions_of("set order: " + l, run):
            ck.obligations += 1
            ck.rule("sets in another order")
            if bad is None:
                ck.by_term += 1
            else:
                ck.problem("set order", "%s: with sets in another order %s" % (l, bad), doc=xml_of(it) if isinstance(it, Doc) else it, functions=ck.spots(o))
    # 4. the documents of all the other checks: no effect, and no use of the order of a set
    for l, d in all_documents(ck):
        def run(p, d=d):
            ck.I.set_iterated = False
            a = ck.e.convert_doc(p, d)
            ident = isinstance(a.value, Term) and any(getattr(h, "note", "") == "identity" for h in holes_of(a.value))
            if not ck.I.set_iterated:
                return a, None, ident
            p.flip_sets = True
            b = ck.e.convert_doc(p, d)
            p.flip_sets = False
            return a, outcome_differs(ck, p, a, b), ident
        for p, (o, bad, ident) in ck.partitions_of("all: " + l, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.rule("no effect on any path")
            ok = True
            for e in o.effects:
                if not e["soft"]:
                    ok = False
                    ck.problem(e["effect"], "%s: %s at %s" % (l, e["effect"], e["where"]), doc=xml_of(d), functions=ck.spots(o))
            if bad:
                ok = False
                ck.problem("set order", "%s: with sets in another order %s" % (l, bad), doc=xml_of(d), functions=ck.spots(o))
            if ident:
                ok = False
                ck.problem("identity", "%s: the result depends on the address or hash of an object" % l, doc=xml_of(d), functions=ck.spots(o))
            ck.by_term += ok
    # 5. the argument itself unknown: only its text may matter
    for l, it in docs[:: 1 if ck.thorough else 6]:
        effects(it, "any argument: " + l, xml=Hole("xml", ["", "<math/>", "q", "\n", "mml:", "q" * 300, "é"], ok=lambda s: len(s) < 2000))
    # 6. everything a failure does
    for x in MALFORMED:
        effects(x, "malformed %r" % x[:50])
    for b in BAD:
        effects("<math><mi %s>x</mi></math>" % b, "repair of %r" % b)
    # every element with every number of children, every attribute
    for t in sorted(DOCUMENTED) + ["foo", "mtd", "mstyle", "mprescripts"]:
        for n in range(ck.K + 1):
            effects(cs.in_math_doc(E(t, *[E("mn", "%d" % i) for i in range(n)])), "<%s> with %d children" % (t, n))
        for a in sorted({a for v in INTERPRETED.values() for a in v} | {"id", "style"}):
            effects(cs.in_math_doc(E(t, E("mn", "1"), E("mn", "2")).with_attrs({a: Hole("v", ["", "q", "true"], ok=lambda s: len(s) < 40)})), "<%s %s>" % (t, a))


# --------------------------------------------------------------------------------------------- C27
def variants_of(t):
    """Attribute settings of an element that choose among its renderings."""
    v = [{}]
    if t == "mfenced":
        v += [{"open": "["}, {"separators": ""}, {"separators": ";", "close": "]"}]
    elif t == "mfrac":
        v += [{"bevelled": "true"}]
    elif t == "maction":
        v += [{"actiontype": "toggle"}, {"actiontype": "tooltip"}]
    elif t == "menclose":
        v += [{"notation": x} for x in ("box", "left", "phasorangle", "longdiv")]
    elif t in ("mi", "mtext"):
        v += [{"mathvariant": "bold"}]
    return v


HOSTS = ["mrow", "mstyle", "mpadded", "mtd", "foo", "math", "msqrt", "merror", "mphantom", "mtr", "mtable", "maction", "mfenced", "menclose"]


def hosts():
    """(element name, number of children, position) of every place an element can stand."""
    out = []
    for t in HOSTS:
        for n in (1, 2, 3):
            for i in range(n):
                out.append((t, n, i))
    for t, (c, n) in ARITY.items():
        for i in range(n):
            out.append((t, n, i))
    for i in range(5):
        out.append(("mmultiscripts", 5, i))
    out.append(("mmultiscripts-pre", 3, 0))
    out.append(("mmultiscripts-pre", 3, 1))
    out.append(("mmultiscripts-pre", 3, 2))
    return out


SIBLINGS = {"number": lambda k: E("mn", str(k + 1)), "nothing": lambda k: E("mphantom"), "empty row": lambda k: E("mrow"), "equal texts": lambda k: E("mtext", "one"),
            "accent": lambda k: E("mo", "^"), "row": lambda k: E("mrow", E("mn", "1"), E("mn", "2")), "table": lambda k: E("mtable", E("mtr", E("mtd", E("mn", "1")))),
            "fence": lambda k: E("mo", "("), "long": lambda k: E("mn", "123456789012345678901234567890")}


def put(t, n, i, e, attrs=None, sib="number"):
    kids = [e if k == i else SIBLINGS[sib](k) for k in range(n)]
    if t == "mmultiscripts-pre":
        t = "mmultiscripts"
        kids = [kids[0], E("mprescripts"), kids[1], kids[2]]
    return E(t, *kids).with_attrs(dict(attrs or {}))


def c27(ck):
    base = lambda e: Doc(e if e.tag == "math" else E("math", e))
    # 1. an element is rendered at most once: the functions only it enters are entered no more often than when it stands alone
    probes = [("mtext", lambda: E("mtext", "one"), 1), ("mi", lambda: E("mi", "z", mathvariant="bold"), 1), ("mo", lambda: E("mo", "!"), 1), ("mn", lambda: E("mn", "9"), 1),
              ("mfrac", lambda: E("mfrac", E("mphantom"), E("mphantom")), 3), ("mfenced", lambda: E("mfenced", E("mphantom"), E("mphantom")), 3), ("menclose", lambda: E("menclose", E("mphantom"), notation="box"), 2),
              ("mtable", lambda: E("mtable", E("mtr", E("mtd", E("mphantom")))), 4), ("msup", lambda: E("msup", E("mphantom"), E("mphantom")), 3), ("mover", lambda: E("mover", E("mphantom"), E("mphantom")), 3),
              ("maction", lambda: E("maction", E("mphantom"), actiontype="toggle"), 2), ("mmultiscripts", lambda: E("mmultiscripts", *[E("mphantom")] * 3), 4), ("foo", lambda: E("foo", E("mphantom")), 2),
              ("msqrt", lambda: E("msqrt", E("mphantom")), 2), ("mroot", lambda: E("mroot", E("mphantom"), E("mphantom")), 3), ("msubsup", lambda: E("msubsup", *[E("mphantom")] * 3), 4),
              ("munderover", lambda: E("munderover", *[E("mphantom")] * 3), 4), ("merror", lambda: E("merror", E("mphantom")), 2)]

    def counts(p, doc):
        return ck.e.convert_doc(p, doc).called
    probes += [("empty mtext", lambda: E("mtext"), 1), ("blank mi", lambda: E("mi", " "), 1), ("mtext of symbols", lambda: E("mtext", "→"), 1)]
    cells = [(pl, mk, t, n, i, at, "number") for pl, mk, _ in probes for t, n, i in hosts() for at in variants_of(t)]
    cells += [(pl, mk, t, n, i, at, sib) for pl, mk, _ in probes if ck.thorough or pl in ("mtext", "mi", "empty mtext", "mfenced") for t, n, i in hosts() if n > 1
              for at in variants_of(t) for sib in SIBLINGS if sib != "number"]
    for pl, mk, t, n, i, at, sib in cells:
        if True:
            if True:
                def run(p):
                    alone = counts(p, base(mk()))
                    none = counts(p, base(E("mrow", *[SIBLINGS[sib](0)] * (n > 1 and sib not in ("number", "equal texts")))))
                    without = counts(p, base(put(t, n, i, E("mphantom"), at, sib if sib != "equal texts" else "number")))
                    o = ck.e.convert_doc(p, base(put(t, n, i, mk(), at, sib)))
                    own = [f for f in alone if f not in none and f not in without]
                    if not own:
                        return o, None, 0
                    times = min(o.called.get(f, 0) / alone[f] for f in own)
                    if sib == "equal texts" and pl.endswith("mtext"):
                        times /= n
                    return o, times, len(own)
                for p, (o, times, k) in ck.partitions_of("<%s> as operand %d of %d of <%s %s> beside %s" % (pl, i + 1, n, t, at, sib), run):
                    ck.obligations += 1
                    ck.note_called(o)
                    ck.rule("each element is rendered at most once")
                    if times is None or times < 2:
                        ck.by_term += 1
                    else:
                        ck.problem("<%s> renders an operand %d times" % (t, int(times)), "<%s> as operand %d of %d of <%s %s> is rendered %d times" % (pl, i + 1, n, t, at, int(times)),
                                   doc=xml_of(base(put(t, n, i, mk(), at, sib))), witness=xml_of(base(put(t, n, i, mk(), at, sib))), functions=ck.spots(o))

    # 2. growth along chains: work must stay polynomial of low degree when an element, or two in turn, nest in each other
    def growth(make, label, lo, hi, key, most=None):
        most = most or (hi / lo) ** 3

        def run(p):
            a = ck.e.run(p, make(lo), oracle()) if isinstance(make(lo), str) else ck.e.convert_doc(p, make(lo))
            if a.kind == "budget":
                return a, "no end in sight at size %d" % lo
            sa, da = a.steps, a.max_depth
            b = ck.e.run(p, make(hi), oracle()) if isinstance(make(hi), str) else ck.e.convert_doc(p, make(hi))
            if b.kind == "budget":
                return b, "no end in sight at size %d" % hi
            if b.steps > most * max(sa, 60):
                return b, "%d steps at size %d, %d at size %d" % (sa, lo, b.steps, hi)
            if b.max_depth > (hi / lo) * max(da, 12) + 8:
                return b, "%d calls deep at size %d, %d at size %d" % (da, lo, b.max_depth, hi)
            return b, None
        for p, (o, bad) in ck.partitions_of(label, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.rule("work grows with the document, not with its nesting")
            if bad is None:
                ck.by_term += 1
            else:
                d = make(lo)
                ck.problem(key, "%s: %s" % (label, bad), doc=xml_of(d) if isinstance(d, Doc) else d, functions=ck.spots(o))
    places = hosts()
    lo, hi = (5, 10) if not ck.thorough else (6, 12)
    lo2, hi2 = (8, 20)              # two elements in turn: each must come often enough for a doubling per turn to show

    def chain(links, leaf=None, sib="number"):
        def make(n):
            e = leaf() if leaf else E("mi", "x")
            for k in range(n):
                t, m, i, at = links[k % len(links)]
                e = put(t, m, i, e, at, sib)
            return base(e)
        return make
    for t, n, i in places:
        for at in variants_of(t):
            growth(chain([(t, n, i, at)]), "nested <%s %s>, operand %d of %d" % (t, at, i + 1, n), lo, hi, "nested <%s>" % t)
            growth(chain([(t, n, i, at)], lambda: E("mtable", E("mtr", E("mtd", E("mi", "x"))))), "nested <%s %s> around a table, operand %d of %d" % (t, at, i + 1, n), lo, hi, "nested <%s>" % t)
            for sib in SIBLINGS:
                if n > 1 and sib != "number":
                    growth(chain([(t, n, i, at)], None, sib), "nested <%s %s>, operand %d of %d, beside %s" % (t, at, i + 1, n, sib), lo, hi, "nested <%s>" % t)
    for leaf, ll in ((lambda: E("mrow"), "an empty row"), (lambda: E("mphantom"), "nothing"), (lambda: E("mtext"), "an empty text")):
        for t, n, i in places:
            growth(chain([(t, n, i, {})], leaf), "nested <%s>, operand %d of %d, around %s" % (t, i + 1, n, ll), lo, hi, "nested <%s>" % t)
    short = [(t, n, i) for t, n, i in places if n == (ARITY.get(t.split("-")[0], ("", 2))[1]) or t not in ARITY and n == 2]
    for (t, n, i), (u, m, j) in itertools.product(short, repeat=2):
        if (t, n, i) != (u, m, j) and (ck.thorough or i == 0 or j == 0 or i == n - 1 and j == m - 1):
            growth(chain([(t, n, i, {}), (u, m, j, {})]), "<%s> operand %d in <%s> operand %d in turn" % (t, i + 1, u, j + 1), lo2, hi2, "<%s> in <%s>" % (t, u))
    # settings that choose among renderings, in turn
    for t, n, i in places:
        for a, b in itertools.permutations(variants_of(t), 2):
            growth(chain([(t, n, i, a), (t, n, i, b)]), "<%s %s> and <%s %s> in turn, operand %d of %d" % (t, a, t, b, i + 1, n), lo2, hi2, "nested <%s>" % t)
            for j in {0, n - 1} - {i}:
                growth(chain([(t, n, i, a), (t, n, j, b)]), "<%s %s> operand %d and <%s %s> operand %d of %d in turn" % (t, a, i + 1, t, b, j + 1, n), lo2, hi2, "nested <%s>" % t)
    for (t, n, i), (u, m, j) in itertools.product(short, repeat=2):
        if t != u and (i in (0, n - 1) and j in (0, m - 1)) and (t in ARITY or u in ARITY or ck.thorough):
            for a in variants_of(t)[1:]:
                growth(chain([(t, n, i, a), (u, m, j, {})]), "<%s %s> operand %d in <%s> operand %d in turn" % (t, a, i + 1, u, j + 1), lo2, hi2, "<%s> in <%s>" % (t, u))
    # an element nested as first or last of a row that is the operand, and in each kind of host
    for t, n, i in places:
        for u, m, j in [("mrow", 2, 0), ("mrow", 2, 1), ("mrow", 3, 1), ("mrow", 1, 0), ("mstyle", 2, 1), ("mpadded", 1, 0), ("foo", 2, 1), ("mfenced", 1, 0), ("mtd", 2, 1), ("mover", 2, 0), ("menclose", 1, 0)]:
            if (t, n, i) != (u, m, j) and (ck.thorough or u == "mrow" or n == ARITY.get(t.split("-")[0], ("", n))[1]):
                growth(chain([(t, n, i, {}), (u, m, j, {})]), "nested <%s>, operand %d of %d through operand %d of %d of <%s>" % (t, i + 1, n, j + 1, m, u), lo2, hi2, "nested <%s>" % t)
                growth(chain([(t, n, i, {}), (u, m, j, {})], None, "row"), "nested <%s>, operand %d of %d through operand %d of %d of <%s>, beside a row" % (t, i + 1, n, j + 1, m, u), lo2, hi2, "nested <%s>" % t)
    # wide
    for t in HOSTS + ["mmultiscripts"]:
        for at in variants_of(t):
            growth(lambda n: base(E(t, *[E("mi", "x") for _ in range(n)]).with_attrs(dict(at))), "<%s %s> with many children" % (t, at), 12, 24, "wide <%s>" % t)
            growth(lambda n: base(E(t, *[E("mrow", E("mi", "x")) for _ in range(n)]).with_attrs(dict(at))), "<%s %s> with many rows" % (t, at), 12, 24, "wide <%s>" % t)
    for t in TOKENS:
        for at in variants_of(t):
            for w in ("x", "→", " ", "x ", "→x", "\\", "é", "1"):
                growth(lambda n: base(E(t, w * n).with_attrs(dict(at))), "<%s %s> of many %r" % (t, at, w), 24, 48, "long <%s>" % t)
    growth(lambda n: Doc(E("div", *[E("math", E("mi", "x")) for _ in range(n)])), "many formulas", 12, 24, "many formulas")
    growth(lambda n: Doc(_nest("div", n, E("math", E("mi", "x")))), "a deep formula", 12, 24, "a deep formula")
    growth(lambda n: Doc(_nest("math", n, E("mi", "x"))), "formulas in formulas", lo, hi, "formulas in formulas")
    growth(lambda n: base(E("mfenced", *[E("mi", "x") for _ in range(n)], separators=";" * n)), "many separators", 12, 24, "many separators")
    # 3. texts: at most five parses, every loop ends
    def bounded(x, label):
        def run(p):
            o = ck.e.run(p, x, oracle())
            if o.kind == "budget":
                return o, "does not end (%s)" % o.value
            if len(o.parses) > 5:
                return o, "the document is parsed %d times" % len(o.parses)
            failed = len([t for t in o.parses if not isinstance(t, str) or infoset(t) is None])
            fixes = sum(n for f, n in o.called.items() if f[1].endswith("ErrorHandler.fix_error"))
            if fixes > failed:
                return o, "%d failed attempts are repaired %d times" % (failed, fixes)
            return o, None
        for p, (o, bad) in ck.partitions_of(label, run):
            ck.obligations += 1
            ck.note_called(o)
            ck.sample(x, o, p)
            ck.rule("at most five parses")
            if bad is None:
                ck.by_term += 1
            else:
                ck.problem("parses", "%s: %s" % (label, bad), witness=x if isinstance(x, str) else None, functions=ck.spots(o))
    for x in MALFORMED:
        bounded(x, "malformed %r" % x[:60])
        bounded("<math>" + x * 3 + "</math>", "malformed three times %r" % x[:60])
    for b in BAD:
        for n in (1, 2, 5, 6, 7, 12):
            bounded("<math>" + "<mi %s>x</mi>" % b * n + "</math>", "%d repairs of %r" % (n, b))
            bounded("<math>" + "<mi %s>x</mi>" % b * n + "</mo></math>", "%d repairs of %r in vain" % (n, b))
            bounded("<math " + (b + " ") * n + "><mi>x</mi></math>", "%d times %r in a tag" % (n, b))
    for b in BAD[:12] + ["x=<", "\"", "x=\"", "a='1", "&", "<"]:
        growth(lambda n: "<math>" + "<mi %s>x</mi>" % b * n + "</mo>", "many repairs of %r in vain" % b, 6, 24, "repairs")
        growth(lambda n: "<math " + (b + " ") * n + ">", "many times %r in a tag" % b, 6, 24, "repairs")
    # 4. the regular expressions the conversion uses never backtrack exponentially
    for l, it in TEXTS:
        for p, r in explore(lambda p: start(ck, p, it), limit=20):
            pass
    if ck.worker == 0:
        for bad in (r"(a+)+b", r"(a|a)*b", r"(\w+\s?)*$", r"(?:[^<>\"]|\"[^\"]*\"|[\s\S])*>", r"(x*)*y", r"((a|b)+c?)+d", r"^(\s*\w+\s*)*=$"):
            if not exponential(bad, 0):
                raise AnalysisBroken("the backtracking analysis misses its own example %r" % bad)
        for good in (r"(ab)*c", r"a+b+c", r"<[^>]*>", r"(?:\"[^\"<]*\"|'[^'<]*'|[^<>\"'])*>", r"\s+", r"(a|b)*c", r"(\w+\s)*=", r"(a+)+", r"[a-z]*[a-z]*[a-z]*"):
            if exponential(good, 0):
                raise AnalysisBroken("the backtracking analysis reports %r" % good)
        for (pat, flags), where in sorted(ck.I.regexes.items(), key=str):
            if not isinstance(pat, str):
                continue
            ck.obligations += 1
            ck.rule("no regular expression backtracks exponentially")
            r = exponential(pat, flags)
            if r:
                ck.problem("regex " + pat[:80], "%s: the regular expression %r backtracks exponentially (%s)" % (where, pat[:200], r), functions=[where])
            else:
                ck.by_term += 1
        ck.extra["n_regular_expressions"] = len(ck.I.regexes)


def _nest(t, n, e):
    for _ in range(n):
        e = E(t, e)
    return e


from .engine import REPO as REPO_DIR  # noqa: E402
