"""Abstract values and trace partitions.

An abstract string is a template: literal parts and *terms*.  A term is either a Hole (an unknown
string of a described class) or an operation applied to other terms.  Every class of strings
carries representatives: the strings the analysed source can tell apart by the constants it
compares with (they are extended whenever the source mentions a new constant), so that a branch
on a term is feasible in the ways its representatives take, and nothing is decided by running
the program.

A Path is one trace partition: for each hole the representatives still possible and the facts
assumed so far.
"""
import itertools
import random
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


class Unsupported(Exception):
    """The analyser has no transfer function for a construct: the obligation stays undecided."""


class Infeasible(Exception):
    """The current trace partition has no representative left."""


class BudgetExceeded(Exception):
    def __init__(self, where):
        super().__init__(where)
        self.where = where


class Term:
    __slots__ = ("op", "fn", "args", "kind", "holes", "_key", "_hash")

    def __init__(self, op, fn, args, kind):
        self.op = op
        self.fn = fn
        self.args = args
        self.kind = kind
        hs = []
        for a in args:
            for h in holes_of(a):
                if h not in hs:
                    hs.append(h)
        self.holes = tuple(hs)
        self._key = (op,) + tuple(keyof(a) for a in args)
        self._hash = hash(self._key)

    def __eq__(self, other):
        return self is other or (isinstance(other, Term) and self._hash == other._hash and self._key == other._key)

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return show(self)


class Hole(Term):
    __slots__ = ("name", "pool", "ok", "closed", "char", "note")

    def __init__(self, name, pool, ok=None, closed=False, char=False, note=""):
        self.name = name
        self.pool = list(dict.fromkeys(pool))
        self.ok = ok
        self.closed = closed
        self.char = char
        self.note = note
        self.op = "hole"
        self.fn = None
        self.args = ()
        self.kind = "str"
        self.holes = (self,)
        self._key = ("hole", name)
        self._hash = hash(self._key)


class Cat(Term):
    """Concatenation; args are literal strings and str terms, never two literals in a row."""
    __slots__ = ()

    def __init__(self, parts):
        Term.__init__(self, "cat", None, tuple(parts), "str")


def keyof(a):
    if isinstance(a, Term):
        return a._key
    if isinstance(a, (str, int, float, bool, bytes, type(None))):
        return (type(a).__name__, a)
    if isinstance(a, re.Pattern):
        return ("re", a.pattern, a.flags)
    if isinstance(a, tuple):
        return ("tuple",) + tuple(keyof(x) for x in a)
    if isinstance(a, (frozenset, set, list)) and len(a) <= 64 and all(isinstance(x, (str, int)) for x in a):
        return (type(a).__name__,) + tuple(sorted(map(repr, a)) if not isinstance(a, list) else map(repr, a))
    return ("id", id(a))


def holes_of(a):
    if isinstance(a, Term):
        return a.holes
    if isinstance(a, (tuple, list)):
        out = []
        for x in a:
            if isinstance(x, (Term, tuple, list)):
                for h in holes_of(x):
                    if h not in out:
                        out.append(h)
        return tuple(out)
    return ()


def is_sym(a):
    return isinstance(a, Term)


def is_str(a):
    return isinstance(a, str) or (isinstance(a, Term) and a.kind == "str")


def cat(*parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            elif not (isinstance(q, Term) and q.kind == "str"):
                raise Unsupported("concatenation with a non-string term %r" % (q,))
            out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return Cat(out)


def parts(s):
    if isinstance(s, str):
        return (s,) if s else ()
    if isinstance(s, Cat):
        return s.args
    return (s,)


def evaluate(t, env):
    if not isinstance(t, Term):
        if isinstance(t, tuple) and any(isinstance(x, (Term, tuple)) for x in t):
            return tuple(evaluate(x, env) for x in t)
        if isinstance(t, list) and any(isinstance(x, Term) for x in t):
            return [evaluate(x, env) for x in t]
        return t
    if isinstance(t, Hole):
        return env[t]
    if isinstance(t, Cat):
        return "".join([p if isinstance(p, str) else evaluate(p, env) for p in t.args])
    return t.fn(*[evaluate(a, env) for a in t.args])


def show(t, top=True):
    if isinstance(t, Hole):
        return "‹%s›" % t.name
    if isinstance(t, Cat):
        return "".join(p if isinstance(p, str) else show(p, False) for p in t.args)
    if isinstance(t, Term):
        return "‹%s(%s)›" % (t.op, ", ".join(show(a, False) if isinstance(a, Term) else repr(a)[:40] for a in t.args))
    return t if isinstance(t, str) else repr(t)


# ---------------------------------------------------------------------------------------------
# representatives derived from the constants the source compares with

def regex_samples(pattern, flags=0):
    """A few strings that match the pattern (used as representatives only)."""
    try:
        tree = sre_parse.parse(pattern, flags)
    except Exception:
        return []

    def pick_in(items):
        neg = items and items[0][0] is sre_c.NEGATE
        if neg:
            for ch in "q7 <>/=\"'&;\\{}_~☺\n":
                if not any(_in_item(it, ch) for it in items[1:]):
                    return [ch]
            return ["q"]
        res = []
        for it in items[:6]:
            if it[0] is sre_c.LITERAL:
                res.append(chr(it[1]))
            elif it[0] is sre_c.RANGE:
                res += [chr(it[1][0]), chr(it[1][1])]
            elif it[0] is sre_c.CATEGORY:
                res.append({"CATEGORY_DIGIT": "7", "CATEGORY_SPACE": "\t", "CATEGORY_WORD": "w", "CATEGORY_NOT_DIGIT": "q",
                            "CATEGORY_NOT_SPACE": "q", "CATEGORY_NOT_WORD": "-"}.get(str(it[1]), "q"))
        return res or ["q"]

    def gen(seq, depth=0):
        outs = [""]
        for op, av in seq:
            name = str(op)
            if name == "LITERAL":
                alts = [chr(av)]
            elif name == "NOT_LITERAL":
                alts = ["q" if av != ord("q") else "z"]
            elif name == "ANY":
                alts = ["q"]
            elif name == "IN":
                alts = pick_in(av)
            elif name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, sub = av
                subs = gen(sub, depth + 1)[:3]
                alts = []
                for n in sorted({lo, min(lo + 1, int(hi)), min(lo + 2, int(hi))}):
                    alts += [s * n for s in subs]
            elif name == "SUBPATTERN":
                alts = gen(av[3], depth + 1)
            elif name == "BRANCH":
                alts = []
                for b in av[1]:
                    alts += gen(b, depth + 1)[:3]
            elif name == "ATOMIC_GROUP":
                alts = gen(av, depth + 1)
            else:
                alts = [""]
            alts = list(dict.fromkeys(alts))[:6] or [""]
            outs = list(dict.fromkeys(o + a for o in outs for a in alts))[:24]
        return outs
    try:
        return gen(tree)[:24]
    except Exception:
        return []


def _in_item(it, ch):
    if it[0] is sre_c.LITERAL:
        return chr(it[1]) == ch
    if it[0] is sre_c.RANGE:
        return it[1][0] <= ord(ch) <= it[1][1]
    if it[0] is sre_c.CATEGORY:
        c = str(it[1])
        return {"CATEGORY_DIGIT": ch.isdigit(), "CATEGORY_SPACE": ch.isspace(), "CATEGORY_WORD": ch.isalnum() or ch == "_",
                "CATEGORY_NOT_DIGIT": not ch.isdigit(), "CATEGORY_NOT_SPACE": not ch.isspace(),
                "CATEGORY_NOT_WORD": not (ch.isalnum() or ch == "_")}.get(c, False)
    return False


FILL = "qzwkvjxqpmgf"


def hint_strings(consts, opname):
    out = []
    for c in consts:
        if isinstance(c, str):
            if len(c) <= 80:
                out += [c]
                if "eq" not in opname:
                    out += [c + "q", "q" + c, "q" + c + "z", c + c, "q" + c + "z" + c + "w"]
        elif isinstance(c, bool):
            pass
        elif isinstance(c, int):
            n = abs(c)
            if n <= 5000:
                for m in (n - 1, n, n + 1, n + 2):
                    if m >= 0:
                        out.append((FILL * (m // len(FILL) + 1))[:m])
        elif isinstance(c, re.Pattern):
            if isinstance(c.pattern, str):
                for s in regex_samples(c.pattern, c.flags & ~re.UNICODE):
                    out += [s, "q" + s, s + "q", "q" + s + "z"]
        elif isinstance(c, (tuple, frozenset, set, list)):
            ks = [x for x in c if isinstance(x, str)]
            out += ks
        elif isinstance(c, dict):
            out += [x for x in c if isinstance(x, str)]
    return out


CASE_OPS = {".lower", ".upper", ".casefold", ".swapcase", ".capitalize", ".title", "lower", "upper", "casefold", "swapcase", "capitalize",
            "title", ".strip", ".lstrip", ".rstrip", ".split", "norm", "strip", "lstrip", "rstrip", "split"}


def case_variants(s):
    return [s.upper(), s.lower(), s.title(), s.swapcase(), " " + s, s + " ", " " + s + "\t"]


def _ingredients(t, out, depth=0):
    """The short literal strings an operation term is built with (delimiters, prefixes, sets of characters)."""
    for a in t.args:
        if isinstance(a, Term):
            if a.op not in ("hole", "cat") and depth < 4:
                _ingredients(a, out, depth + 1)
        elif isinstance(a, str) and 0 < len(a) <= 8:
            out.append(a)
        elif isinstance(a, re.Pattern) and isinstance(a.pattern, str):
            out += [s for s in regex_samples(a.pattern, a.flags & ~re.UNICODE) if len(s) <= 8][:3]
        elif isinstance(a, (tuple, list, frozenset, set)) and len(a) <= 12:
            out += [x for x in a if isinstance(x, str) and 0 < len(x) <= 8]
    return out


def derived_hints(args, consts, holes):
    """Strings the source tells apart after it has derived something from an unknown (a part, another case, a trimmed text):
    what it compares with, put back into the ways it was derived; and the constants it cuts with, put at the known strings."""
    texts, many = [], False
    for c in consts:
        if isinstance(c, str):
            if 0 < len(c) <= 40:
                texts.append(c)
        elif isinstance(c, (tuple, frozenset, set, list, dict)):
            ks = [x for x in c if isinstance(x, str) and 0 < len(x) <= 40]
            if len(ks) > 60:
                many = True
                ks = sorted(ks)[:: len(ks) // 12]
            texts += ks
    out = []
    derived = [a for a in args if isinstance(a, Term) and a.op not in ("hole", "cat")]
    if derived and texts:
        cut = []
        for d in derived:
            _ingredients(d, cut)
        cut = list(dict.fromkeys(cut))[:6]
        for c in texts[:60]:
            out += [c + "q", "q" + c, "qz" + c, c + "qz"]
            if not many:
                out += case_variants(c)
            for d in cut:
                out += [d + c, c + d, "q" + d + c, c + d + "q", d + c + d]
    short = [c for c in texts if len(c) <= 3 and not c.isalnum()][:4]
    if short and not many:
        for h in holes:
            if not h.closed and not h.char:
                for m in [x for x in h.pool if 0 < len(x) <= 24][:24]:
                    for c in short:
                        out += [m + c, m + c + "q", "q" + c + m, c + m]
    return out


def _ok_term(fn, args):
    def ok(*a):
        try:
            fn(*a)
            return True
        except Unsupported:
            raise
        except Exception:
            return False
    return ok


class Path:
    """One trace partition of the analysis of one cell."""

    def __init__(self, prefix=(), seed=1, flip_sets=False):
        self.prefix = list(prefix)
        self.trace = []          # (chosen, count)
        self.cands = {}          # hole -> representatives still possible
        self.hfacts = {}         # hole -> [(term, bool)]
        self.rel = []            # relational facts [(term, bool)]
        self.log = []            # human readable facts
        self.flip_sets = flip_sets
        self.seed = seed
        self.fresh = itertools.count()
        self._env_cache = {}
        self.forks_capped = 0

    # -- choices -----------------------------------------------------------------------------
    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Unsupported("non-deterministic replay")
        self.trace.append((c, n))
        return c

    # -- representatives ---------------------------------------------------------------------
    def candidates(self, h):
        c = self.cands.get(h)
        if c is None:
            c = [s for s in h.pool if h.ok is None or h.ok(s)]
            self.cands[h] = c
        return c

    def linked(self, holes):
        hs = list(holes)
        changed = bool(self.rel)
        while changed:
            changed = False
            for t, _ in self.rel:
                if any(h in hs for h in t.holes):
                    for h in t.holes:
                        if h not in hs:
                            hs.append(h)
                            changed = True
        return hs

    def extend(self, h, strings):
        """New representatives for a hole, and for those related to it: a relation could not hold with one end new."""
        for x in (self.linked([h]) if self.rel else [h]):
            self.extend_one(x, strings)

    def extend_one(self, h, strings):
        if h.closed:
            return
        c = self.candidates(h)
        new = []
        have = set(c)
        for s in strings:
            if s in have or not isinstance(s, str):
                continue
            have.add(s)
            if h.char and len(s) != 1:
                continue
            if h.ok is not None and not h.ok(s):
                continue
            good = True
            for t, v in self.hfacts.get(h, ()):
                try:
                    if bool(evaluate(t, {h: s})) != v:
                        good = False
                        break
                except Exception:
                    good = False
                    break
            if good:
                new.append(s)
        if new:
            if len(c) + len(new) > 4000:
                new = new[:max(0, 4000 - len(c))]
            self.cands[h] = c + new
            self._env_cache.clear()

    def envs(self, holes, limit=None):
        """Assignments of representatives to holes (consistent with the relational facts)."""
        hs = list(holes)
        rel = []
        changed = True
        while changed:
            changed = False
            for f in self.rel:
                if f not in rel and any(h in hs for h in f[0].holes):
                    rel.append(f)
                    for h in f[0].holes:
                        if h not in hs:
                            hs.append(h)
                    changed = True
        if limit is None:
            limit = 400
        key = (tuple(hs), len(self.rel), limit)
        hit = self._env_cache.get(key)
        if hit is not None:
            return hit
        cs = [self.candidates(h) for h in hs]
        if any(not c for c in cs):
            raise Infeasible()
        out = []
        if len(hs) == 1:
            out = [{hs[0]: s} for s in cs[0]]
        else:
            total = 1
            for c in cs:
                total *= len(c)
            if total <= (limit if not rel else 2 * limit):
                gen = itertools.product(*cs)
            else:
                gen = _covering(cs, limit if not rel else 8 * limit, self.seed, bool(rel))
            for combo in gen:
                env = dict(zip(hs, combo))
                good = True
                for t, v in rel:
                    try:
                        if bool(evaluate(t, env)) != v:
                            good = False
                            break
                    except Unsupported:
                        raise
                    except Exception:
                        good = False
                        break
                if good:
                    out.append(env)
                    if len(out) >= 2 * limit:
                        break
        if not out:
            raise Infeasible()
        self._env_cache[key] = out
        return out

    def others(self, holes):
        """Further assignments, which together with envs(holes) give every hole each of its candidates once."""
        if not holes:
            return ()
        envs = self.envs(holes)
        hs = list(envs[0])
        if len(hs) < 2:
            return ()
        key = ("others", tuple(hs), len(self.rel))
        hit = self._env_cache.get(key)
        if hit is not None:
            return hit
        out = []
        base = envs[0]
        rel = [f for f in self.rel if any(h in base for h in f[0].holes)]
        for h in hs:
            c = self.cands[h]
            have = {e[h] for e in envs}
            for s in c:
                if s in have:
                    continue
                env = dict(base)
                env[h] = s
                try:
                    if all(bool(evaluate(t, env)) == v for t, v in rel):
                        out.append(env)
                except Unsupported:
                    raise
                except Exception:
                    pass
        self._env_cache[key] = out
        return out

    def varied(self, holes):
        """False when relations between holes left a sample that keeps one of them at a single value by accident."""
        if not self.rel or not holes:
            return True
        envs = self.envs(holes)
        hs = list(envs[0])
        if len(hs) < 2:
            return True
        total = 1
        for h in hs:
            total *= len(self.candidates(h))
        if total <= 2 * 400:
            return True         # every assignment was tried
        for h in holes:
            if len(self.candidates(h)) > 1 and len({e[h] for e in itertools.chain(envs, self.others(holes))}) < 2:
                return False
        return True

    def evals(self, holes, *ts):
        """(assignment, value of each term); an assignment a term is undefined for would have left this path earlier."""
        got = False
        bad = None
        for e in (itertools.chain(self.envs(holes), self.others(holes)) if holes else [{}]):
            try:
                vs = [evaluate(t, e) for t in ts]
            except (KeyError, IndexError) as x:
                bad = x
                continue
            got = True
            yield (e, *vs)
        if not got:
            raise Unsupported("value outside its domain: %r" % bad)

    # -- decisions ---------------------------------------------------------------------------
    def truth(self, t, note=None):
        """Decide a term used as a condition; forks the partition when both outcomes are feasible."""
        if not isinstance(t, Term):
            return bool(t)
        envs = self.envs(t.holes)
        yes = no = False
        vals = []
        bad = None
        for e in envs:
            try:
                v = bool(evaluate(t, e))
            except (KeyError, IndexError) as x:
                bad = x         # this assignment would have left this path earlier
                vals.append(None)
                continue
            vals.append(v)
            if v:
                yes = True
            else:
                no = True
        if not yes and not no:
            raise Unsupported("condition outside its domain: %r" % bad)
        if not (yes and no):
            for e in self.others(t.holes):
                try:
                    v = bool(evaluate(t, e))
                except (KeyError, IndexError):
                    continue
                if v != yes:
                    yes = no = True
                    break
        if yes and not no:
            return True
        if no and not yes:
            return False
        c = self.choose(2)
        want = c == 0
        if len(t.holes) == 1:
            h = t.holes[0]
            keep = []
            seen = set()
            for e, v in zip(envs, vals):
                if v == want and e[h] not in seen:
                    seen.add(e[h])
                    keep.append(e[h])
            self.cands[h] = keep
            self.hfacts.setdefault(h, []).append((t, want))
            self._env_cache.clear()
        else:
            self.rel.append((t, want))
            self._env_cache.clear()
        self.log.append(("" if want else "not ") + (note or show(t)))
        return want

    def apply(self, op, fn, args, hint=True):
        """Abstract application of a native operation to arguments containing terms."""
        holes = holes_of(tuple(args))
        if not holes:
            return fn(*args)
        if hint:
            consts = [a for a in args if not isinstance(a, Term)]
            if not consts and op in CASE_OPS:
                for h in holes:
                    if not h.closed:
                        self.extend(h, [v for s in h.pool[:24] for v in case_variants(s)])
            if consts:
                hs = hint_strings(consts, op)
                if "eq" not in op or any(isinstance(a, Term) and a.op != "hole" for a in args):
                    hs = hs + derived_hints(args, consts, holes)
                if hs:
                    for h in holes:
                        if not h.closed:
                            self.extend(h, hs)
        envs = self.envs(holes)
        vals = []
        bad = False
        kept = []
        for e in envs:
            try:
                av = [evaluate(a, e) for a in args]
            except (KeyError, IndexError) as x:
                lost = x        # this assignment would have left this path earlier
                continue
            kept.append(e)
            try:
                vals.append(fn(*av))
            except (Unsupported, Infeasible):
                raise
            except Exception as x:
                vals.append(x)
                bad = True
        envs = kept
        if not vals:
            raise Unsupported("operation outside its domain: %r" % lost)
        if bad:
            okt = Term("defined:" + op, _ok_term(fn, args), tuple(args), "bool")
            if not self.truth(okt, "%s is defined" % op):
                for e in self.envs(holes):
                    try:
                        av = [evaluate(a, e) for a in args]
                    except (KeyError, IndexError):
                        continue
                    fn(*av)
                raise Infeasible()
            return self.apply(op, fn, args, hint=False)
        kinds = {type(v) for v in vals}
        first = vals[0]
        if len(kinds) == 1 and isinstance(first, (str, int, bool, type(None))) and all(v == first for v in vals) \
                and self.always(fn, args, holes, lambda v, e: v == first):
            return first
        if kinds == {str}:
            kind = "str"
            # an operation that changes no representative is the identity on the class
            for a in args:
                if isinstance(a, Term) and a.kind == "str":
                    if all(v == evaluate(a, e) for v, e in zip(vals, envs)) and self.always(fn, args, holes, lambda v, e: v == evaluate(a, e)):
                        return a
        elif kinds == {bool}:
            kind = "bool"
        elif kinds == {int}:
            kind = "int"
        elif kinds == {list} or kinds == {tuple}:
            kind = "list"
        else:
            if all(v is first for v in vals):
                return first
            kind = "any"
        return Term(op, fn, tuple(args), kind)

    def always(self, fn, args, holes, cond):
        """Whether what every sampled assignment shows may be taken for all of them."""
        if not self.varied(holes):
            return False
        for e in self.others(holes):
            try:
                av = [evaluate(a, e) for a in args]
            except (KeyError, IndexError):
                continue
            try:
                if not cond(fn(*av), e):
                    return False
            except (Unsupported, Infeasible):
                raise
            except Exception:
                return False
        return True

    def pick(self, t):
        """Split the partition by the concrete values of a term; returns the value."""
        if not isinstance(t, Term):
            return t
        groups = []
        index = {}
        for e, v in self.evals(t.holes, t):
            k = (type(v).__name__, v) if isinstance(v, (str, int, bool, type(None), tuple)) else id(v)
            if k not in index:
                index[k] = len(groups)
                groups.append((v, []))
            groups[index[k]][1].append(e)
        if len(groups) > 600:
            raise Unsupported("too many values to split on: %s" % show(t))
        c = self.choose(len(groups)) if len(groups) > 1 else 0
        v, es = groups[c]
        if len(groups) > 1:
            def same(x, _v=v):
                return x is _v or (type(x) is type(_v) and isinstance(_v, (str, int, bool, type(None), tuple)) and x == _v)
            f = Term("is", same, (t,), "bool")
            f._key = ("is", t._key, repr(v)[:200], id(v) if not isinstance(v, (str, int)) else 0)
            f._hash = hash(f._key)
            if len(t.holes) == 1:
                h = t.holes[0]
                self.cands[h] = list(dict.fromkeys(e[h] for e in es))
                self.hfacts.setdefault(h, []).append((f, True))
            else:
                self.rel.append((f, True))
            self._env_cache.clear()
            self.log.append("%s = %s" % (show(t), show(v) if not isinstance(v, str) else repr(v)))
        return v

    def items(self, t):
        """The elements of an iterable term (a string or list term)."""
        if isinstance(t, Cat):
            out = []
            for p in t.args:
                if isinstance(p, str):
                    out += list(p)
                elif isinstance(p, Hole) and p.char:
                    out.append(p)
                else:
                    out += self.items(p)
            return out
        if isinstance(t, Hole) and t.char:
            return [t]
        n = self.pick(Term("len", len, (t,), "int"))
        return [self.apply("item", _item, (t, i), hint=False) for i in range(n)]


def _item(x, i):
    return x[i]


def _covering(cs, limit, seed, full=False):
    """Few assignments that still vary every hole: all-equal index, one at a time, random."""
    m = max(len(c) for c in cs)
    seen = set()

    def emit(t):
        if t not in seen:
            seen.add(t)
            return True
        return False
    # every hole its own value
    for shift in range(min(m, 60)):
        t = tuple(c[(shift + k) % len(c)] for k, c in enumerate(cs))
        if emit(t):
            yield t
    for j in range(min(m, 60)):
        t = tuple(c[j % len(c)] for c in cs)
        if emit(t):
            yield t
    if full:        # related holes: the relation may well be equality
        sets = [set(c) for c in cs]
        for group in [range(len(cs))] + list(itertools.combinations(range(len(cs)), 2))[:15]:
            group = list(group)
            for j, s in enumerate([s for s in cs[group[0]] if all(s in sets[i] for i in group)][:2 * limit]):
                t = tuple(s if i in group else c[(j + i) % len(c)] for i, c in enumerate(cs))
                if emit(t):
                    yield t
    base = tuple(c[k % len(c)] for k, c in enumerate(cs))
    per = max(4, limit // (2 * len(cs))) if not full else None
    for i, c in enumerate(cs):
        for s in c[:per]:
            t = base[:i] + (s,) + base[i + 1:]
            if emit(t):
                yield t
    rng = random.Random(seed)
    for _ in range(limit):
        t = tuple(rng.choice(c) for c in cs)
        if emit(t):
            yield t


def explore(run, limit=300, seed=1, flip_sets=False):
    """Analyse every trace partition of `run(path)`; yields (path, result)."""
    stack = [[]]
    n = 0
    capped = False
    while stack:
        if n >= limit:
            capped = True
            break
        prefix = stack.pop()
        p = Path(prefix, seed, flip_sets)
        n += 1
        try:
            r = run(p)
        except Infeasible:
            r = None
            p.infeasible = True
        else:
            p.infeasible = False
        chosen = [c for c, _ in p.trace]
        for i in range(len(p.trace) - 1, len(prefix) - 1, -1):
            for alt in range(p.trace[i][1] - 1, p.trace[i][0], -1):
                stack.append(chosen[:i] + [alt])
        if not p.infeasible:
            yield p, r
    if capped:
        yield None, "capped"
