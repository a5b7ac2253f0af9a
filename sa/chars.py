"""Strings made of known characters and single unknown characters: a pattern is applied to the classes the pattern
itself can tell apart, so the matches are the same for every assignment of a partition and stay symbolic."""
import re
from re import _parser, _constants as C, _compiler

from .terms import Term, Hole, Cat, cat

_cache = {}
SPACE = re.compile(r"\s")
LIMIT = 12


def pieces(s):
    """The characters of the string; None when a part has an unknown length."""
    if isinstance(s, str):
        return list(s)
    if isinstance(s, Hole):
        return [s] if s.char else None
    if isinstance(s, Cat):
        out = []
        for p in s.args:
            if isinstance(p, str):
                out += p
            elif isinstance(p, Hole) and p.char:
                out.append(p)
            else:
                return None
        return out
    return None


def structured(s):
    """Pieces of a string with a few unknown characters; None otherwise."""
    if not isinstance(s, (Cat, Hole)):
        return None
    ps = pieces(s)
    if ps is None or sum(isinstance(p, Hole) for p in ps) > LIMIT:
        return None
    return ps


def atoms(pat):
    """Predicates on one character by which the pattern can tell texts apart; None when it compares parts of the text."""
    key = (pat.pattern, pat.flags)
    if key in _cache:
        return _cache[key]
    found = {}
    ok = True

    def add(item, state, flags):
        k = repr(item) + str(flags)
        if k not in found:
            sub = _parser.SubPattern(state, [item])
            found[k] = _compiler.compile(sub, flags & ~re.DEBUG)

    def walk(p, flags):
        nonlocal ok
        for op, av in p:
            if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.RANGE, C.ANY):
                add((op, av), p.state, flags)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                walk(av[2], flags)
            elif op is C.SUBPATTERN:
                walk(av[3], (flags | av[1]) & ~av[2])
            elif op is C.ATOMIC_GROUP:
                walk(av, flags)
            elif op is C.BRANCH:
                for q in av[1]:
                    walk(q, flags)
            elif op in (C.ASSERT, C.ASSERT_NOT):
                walk(av[1], flags)
            elif op is C.AT:
                if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                    found.setdefault("\\w%d" % (flags & re.ASCII), re.compile(r"\w", flags & re.ASCII))
                else:
                    found.setdefault("\\n", re.compile("\n"))
            elif op is C.GROUPREF_EXISTS:
                walk(av[1], flags)
                if av[2]:
                    walk(av[2], flags)
            elif op is C.FAILURE:
                pass
            else:
                ok = False
    try:
        walk(_parser.parse(pat.pattern, pat.flags & ~re.DEBUG & (~re.UNICODE if isinstance(pat.pattern, bytes) else -1)), pat.flags)
    except Exception:
        ok = False
    r = _cache[key] = list(found.values()) if ok else None
    return r


def settle(I, ps, pat):
    """Split the partition by the classes of every unknown character; the representative text, or None."""
    at = atoms(pat)
    if at is None:
        return None
    out = []
    done = {}
    for p in ps:
        if isinstance(p, Hole):
            if p not in done:
                memo = {}

                def cls(c):
                    if c not in memo:
                        memo[c] = tuple(a.match(c) is not None for a in at)
                    return memo[c]
                I.path.pick(Term("class in /%s/%x" % (pat.pattern, pat.flags), cls, (p,), "any"))
                done[p] = I.path.candidates(p)[0]
            out.append(done[p])
        else:
            out.append(p)
    return "".join(out)


class CharMatch:
    """A match in a text with unknown characters."""

    def __init__(self, m, ps):
        self.m = m
        self.ps = ps

    def piece(self, span):
        return None if span == (-1, -1) else cat(*self.ps[span[0]:span[1]])

    def group(self, *gs):
        gs = gs or (0,)
        r = tuple(self.piece(self.m.span(g)) for g in gs)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        r = tuple(self.piece(self.m.span(g)) for g in range(1, self.m.re.groups + 1))
        return tuple(default if x is None else x for x in r)

    def sa_isinstance(self, I, t):
        return t in (re.Match, object)

    def sa_getitem(self, I, g):
        return self.group(g)


def findall(m, ps):
    cm = CharMatch(m, ps)
    n = m.re.groups
    if n == 0:
        return cm.group()
    if n == 1:
        return cm.group(1) or ""
    return tuple(x or "" for x in cm.groups())


def expand(m, ps, template):
    """The replacement text of a match."""
    out = []
    cm = CharMatch(m, ps)
    for x in _parser.parse_template(template, m.re):
        if isinstance(x, int):
            v = cm.group(x)
            if v is not None:
                out.append(v)
        elif x:
            out.append(x)
    return cat(*out)


def strip(I, ps, chars, left, right):
    """str.strip of a text with unknown characters."""
    def goes(p):
        if isinstance(p, str):
            return p.isspace() if chars is None else p in chars
        return I.path.truth(I.path.apply("isspace", str.isspace, [p]) if chars is None
                            else I.path.apply("in_str", lambda a, b: a in b, [p, chars]))
    ps = list(ps)
    while left and ps and goes(ps[0]):
        ps.pop(0)
    while right and ps and goes(ps[-1]):
        ps.pop()
    return cat(*ps)


def split(I, ps):
    """str.split() of a text with unknown characters."""
    out, word = [], []
    for p in ps:
        space = p.isspace() if isinstance(p, str) else I.path.truth(I.path.apply("isspace", str.isspace, [p]))
        if space:
            if word:
                out.append(cat(*word))
            word = []
        else:
            word.append(p)
    if word:
        out.append(cat(*word))
    return out
