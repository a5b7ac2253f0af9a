"""Exponential backtracking of a regular expression, decided on its automaton.

An expression backtracks exponentially when one state can loop to itself on one word along two different paths and
something that can still fail comes after the loop."""
try:
    from re import _parser as sp, _constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc
import re

NAMED = {"digit": lambda c: c.isdigit(), "space": lambda c: c.isspace(), "word": lambda c: c.isalnum() or c == "_"}


class NFA:
    def __init__(self):
        self.eps = []        # state -> [state]
        self.sym = []        # state -> (predicate, state) or None
        self.check = set()   # states that can fail without reading (assertions)
        self.points = set()

    def new(self):
        self.eps.append([])
        self.sym.append(None)
        return len(self.eps) - 1


def exponential(pattern, flags):
    try:
        tree = sp.parse(pattern, flags & (re.I | re.M | re.S | re.X))
    except Exception:
        return None
    n = NFA()
    ic = bool((flags | tree.state.flags) & re.I)
    dotall = bool((flags | tree.state.flags) & re.S)

    def pred(op, av):
        if op is sc.LITERAL:
            n.points.add(av)
            return lambda c: ord(c) == av or ic and (c.lower() == chr(av).lower())
        if op is sc.NOT_LITERAL:
            n.points.add(av)
            return lambda c: ord(c) != av
        if op is sc.ANY:
            n.points.add(10)
            return (lambda c: True) if dotall else (lambda c: c != "\n")
        if op is sc.IN:
            neg = False
            ps = []
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    ps.append(pred(o, a))
                elif o is sc.RANGE:
                    n.points.update((a[0], a[1], a[0] - 1, a[1] + 1))
                    ps.append(lambda c, a=a: a[0] <= ord(c) <= a[1] or ic and (a[0] <= ord(c.lower()) <= a[1] or a[0] <= ord(c.upper()) <= a[1]))
                elif o is sc.CATEGORY:
                    name = str(a).lower().replace("category_", "")
                    not_ = name.startswith("not_")
                    f = NAMED.get(name.replace("not_", ""), lambda c: True)
                    n.points.update(map(ord, "0a _\u00e9-"))
                    ps.append((lambda c, f=f: not f(c)) if not_ else f)
            return (lambda c: not any(p(c) for p in ps)) if neg else (lambda c: any(p(c) for p in ps))
        return None

    class Skip(Exception):
        pass

    def build(items, s):
        for op, av in items:
            s = one(op, av, s)
        return s

    def one(op, av, s):
        p = pred(op, av)
        if p is not None:
            t = n.new()
            n.sym[s] = (p, t)
            u = n.new()
            n.eps[t].append(u)
            return u
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(min(lo, 3)):
                s = build(sub, s)
            if hi is sc.MAXREPEAT or hi > 100:
                a, again, out = n.new(), n.new(), n.new()
                n.eps[s] += [a, out]
                b = build(sub, a)
                n.eps[b].append(again)
                n.eps[again] += [a, out]
                return out
            out = n.new()
            n.eps[s].append(out)
            for _ in range(min(hi, 6) - min(lo, 3)):
                a = n.new()
                n.eps[s].append(a)
                s = build(sub, a)
                n.eps[s].append(out)
            return out
        if hasattr(sc, "POSSESSIVE_REPEAT") and op in (sc.POSSESSIVE_REPEAT, sc.ATOMIC_GROUP):
            raise Skip()
        if op is sc.SUBPATTERN:
            return build(av[3], s)
        if op is sc.BRANCH:
            out = n.new()
            for alt in av[1]:
                a = n.new()
                n.eps[s].append(a)
                b = build(alt, a)
                n.eps[b].append(out)
            return out
        if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            t = n.new()
            n.eps[s].append(t)
            n.check.add(s)
            return t
        raise Skip()
    start = n.new()
    try:
        end = build(tree, start)
    except Skip:
        return None
    if len(n.eps) > 400:
        return None
    alphabet = [chr(c) for c in sorted(n.points) if 0 <= c < 0x110000 and not 0xd800 <= c <= 0xdfff] + ["q", "\u4e2d", "\u00a7", " ", "7", "\t"]
    # reading states reachable from a state without reading, with the number of different ways (capped at 2)
    readers = [i for i in range(len(n.eps)) if n.sym[i] is not None]

    def closure(s):
        ways = {}

        def go(x, seen):
            if n.sym[x] is not None:
                ways[x] = min(2, ways.get(x, 0) + 1)
            for y in n.eps[x]:
                if y not in seen:
                    go(y, seen | {y})
        go(s, frozenset([s]))
        return ways
    cl = {}
    for r in readers:
        t = n.sym[r][1]
        cl[r] = closure(t)
    step = {r: [c for c in alphabet if n.sym[r][0](c)] for r in readers}
    # strongly connected components of the readers
    succ = {r: set(cl[r]) for r in readers}

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in succ[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    R = {r: reach(r) for r in readers}

    # can the rest fail after the loop?  Not when the end is reached from it without reading or checking.
    def free_end(r):
        seen, todo = set(), [n.sym[r][1]]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == end:
                return True
            if x in n.check:
                continue
            todo.extend(n.eps[x])
        return False
    for q in readers:
        if q not in R[q] or free_end(q):
            continue
        scc = {x for x in R[q] if q in R[x]}
        # two ways from one state to another inside the component without reading
        for x in scc:
            for y, w in cl[x].items():
                if w >= 2 and y in scc and y in R[q]:
                    return "a repetition can be entered in two ways"
        # two different paths from q back to q on one word
        seen = set()
        todo = [(q, q, False)]
        while todo:
            a, b, split = todo.pop()
            if (a, b, split) in seen:
                continue
            seen.add((a, b, split))
            common = [c for c in step[a] if c in step[b]]
            if not common:
                continue
            for x in cl[a]:
                if x not in scc:
                    continue
                for y in cl[b]:
                    if y not in scc:
                        continue
                    sp_ = split or x != y
                    if x == q and y == q and sp_:
                        return "one text can be split in two ways inside a repetition"
                    todo.append((x, y, sp_))
    return None
