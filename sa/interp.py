"""Abstract evaluator for the Python syntax tree of the analysed package.

Every construct is evaluated over the abstract values of terms.py; branches on terms split the
trace partition (Path).  Nothing of the package is imported or executed.
"""
import ast
import itertools
import builtins as _bi
import os
import threading

from .terms import (Term, Hole, Cat, Path, Unsupported, Infeasible, BudgetExceeded, cat, parts, is_sym, is_str,
                    evaluate, show)


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, value):
        super().__init__(value)
        self.value = value


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class ModuleV:
    def __init__(self, name, file=None):
        self.name = name
        self.file = file
        self.ns = {}
        self.loading = True

    def __repr__(self):
        return "<module %s>" % self.name


class Cls:
    def __init__(self, name, bases, ns, interp, module=None, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.gen = interp.gen
        self.module = module
        self.node = node
        self.enum = None
        self.fields = None
        self.frozen = False
        self.namedtuple = False
        self.subs = []
        self.mro = self._mro()
        for b in bases:
            if isinstance(b, Cls):
                b.subs.append(self)

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, Cls) else [b] for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            for s in seqs:
                if c in s:
                    s.remove(c)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name], c
            elif name in getattr(c, "__dict__", {}) and c is not object:
                return NativeAttr(c, name), c
        return None, None

    def issub(self, other):
        if other is object:
            return True
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, type) and isinstance(other, type) and issubclass(c, other):
                return True
        return False

    def native_base(self):
        for c in self.mro:
            if isinstance(c, type) and c is not object:
                return c
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class NativeAttr:
    def __init__(self, typ, name):
        self.typ = typ
        self.name = name


class Obj:
    def __init__(self, cls, interp):
        self.cls = cls
        self.attrs = {}
        self.gen = interp.gen
        self.data = None     # payload of a subclass of a native container / enum value

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Func:
    def __init__(self, node, scope, module, name, qual, interp):
        self.node = node
        self.scope = scope
        self.module = module
        self.name = name
        self.qual = qual
        self.cls = None
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.gen = interp.gen
        self.locals = None
        self.is_gen = False

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Native:
    """A builtin with a transfer function: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class PropV:
    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached
        self.name = None


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassV:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Absorb:
    """typing constructs and similar: accepts everything, means nothing."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<typing %s>" % self.name


class Unmodelled:
    """A library value without a transfer function: naming it is fine, using it leaves the obligation undecided."""

    def __init__(self, name):
        self.name = name

    def sa_call(self, I, a, k):
        raise Unsupported("use of %s" % self.name)

    def sa_getattr(self, I, n):
        raise Unsupported("use of %s" % self.name)

    sa_getitem = sa_contains = sa_getattr

    def sa_len(self):
        raise Unsupported("use of %s" % self.name)

    def __repr__(self):
        return "<unmodelled %s>" % self.name


class PartialV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class MemoV:
    """functools.lru_cache / cache."""

    def __init__(self, f):
        self.f = f
        self.table = []
        self.gen = 0


class ASet:
    """A set: iteration order is unknown, so it is walked in both directions in separate analyses."""

    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.items))


class LazyIter:
    """An iterator value (generator, map, zip...)."""

    def __init__(self, it, what="iterator"):
        self.it = iter(it)
        self.what = what

    def __iter__(self):
        return self.it


class MethodV:
    """Method of a native (or model) value."""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Scope:
    __slots__ = ("vars", "parent", "globals_", "kind", "globs", "nonlocs", "func", "self_", "localnames", "gen")

    def __init__(self, parent, globals_, kind, func=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = globals_
        self.kind = kind       # 'module' 'function' 'class' 'comp'
        self.globs = ()
        self.nonlocs = ()
        self.func = func
        self.self_ = None
        self.localnames = ()
        self.gen = 1


MISSING = object()

_assigned_cache = {}


def scan_function(node):
    """(local names, is generator, global names, nonlocal names) of a function node."""
    hit = _assigned_cache.get(node)
    if hit:
        return hit
    names, globs, nonlocs = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            walk(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonlocs.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                target(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                target(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    res = (frozenset(names - globs - nonlocs), gen[0], frozenset(globs), frozenset(nonlocs))
    _assigned_cache[node] = res
    return res


def has_term(v):
    return isinstance(v, Term) or isinstance(v, (tuple, frozenset)) and any(has_term(x) for x in v)


class Interp:
    def __init__(self, root, package, native_modules, builtins_ns, budget=3_000_000):
        self.root = root
        self.package = package
        self.native_modules = native_modules
        self.builtins_ns = builtins_ns
        self.modules = {}
        self.gen = 0
        self.path = Path()
        self.events = []
        self.effects = []
        self.journal = []
        self.shared_ids = {}
        self.keep = []
        self.steps = 0
        self.budget = budget
        self.on_event = None        # called before every write to something shared
        self.max_depth = 0
        self.regexes = {}           # every pattern compiled so far: (pattern, flags) -> where
        self.depth = 0
        self.stack = []
        self.called = {}
        self.on_call = None
        self.parse_oracle = None
        self.memo_disabled = False
        self.files = {}

    # ======================================================================= modules
    def find_module(self, name):
        rel = name.split(".")
        base = os.path.join(self.root, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isdir(base):
            return None, True
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] == self.package:
            if "." in name:
                parent = self.import_module(name.rsplit(".", 1)[0])
            else:
                parent = None
            if name in self.modules:
                return self.modules[name]
            f, ispkg = self.find_module(name)
            if f is None and not ispkg:
                raise PyExc(ModuleNotFoundError("No module named %r" % name))
            m = ModuleV(name, f)
            self.modules[name] = m
            m.ns["__name__"] = name
            m.ns["__package__"] = name if ispkg else name.rpartition(".")[0]
            m.ns["__file__"] = f
            m.ns["__doc__"] = None
            if f is not None:
                src = open(f, encoding="utf-8").read()
                tree = ast.parse(src, f)
                self.files[f] = tree
                sc = Scope(None, m, "module")
                sc.vars = m.ns
                self.stack.append((f, "<module>", 1))
                g, self.gen = self.gen, 0
                try:
                    self.exec_block(tree.body, sc)
                except BaseException:
                    self.modules.pop(name, None)
                    raise
                finally:
                    self.stack.pop()
                    self.gen = g
            m.loading = False
            if parent is not None:
                parent.ns.setdefault(name.rsplit(".", 1)[1], m)
            return m
        return self.native_modules.get(self, name)

    def import_from(self, mod, name):
        if isinstance(mod, ModuleV):
            if name in mod.ns:
                return mod.ns[name]
            if mod.name.split(".")[0] == self.package:
                f, ispkg = self.find_module(mod.name + "." + name)
                if f or ispkg:
                    return self.import_module(mod.name + "." + name)
            raise PyExc(ImportError("cannot import name %r from %r" % (name, mod.name)))
        return self.getattr(mod, name)

    # ======================================================================= sharing
    def mark_shared(self, extra=()):
        """Everything reachable from the modules after import is shared between conversions."""
        self.shared_ids = {}
        self.keep = []
        visit = self.sharer(set())
        for m in self.modules.values():
            visit(m, m.name)
        for x in extra:
            visit(x, "converter object")

    def sharer(self, seen, deep=True):
        def visit(v, where):
            if v is None or isinstance(v, (str, int, float, bool, bytes, Term)):
                return
            if id(v) in seen:
                return
            seen.add(id(v))
            if not deep and (id(v) in self.shared_ids or isinstance(v, (ModuleV, Cls)) or getattr(v, "gen", 1) == 0):
                return
            if isinstance(v, (list, dict, LazyIter)) or isinstance(v, ASet):
                self.shared_ids[id(v)] = where
                self.keep.append(v)
            if isinstance(v, dict):
                for k, x in v.items():
                    visit(k, where)
                    visit(x, "%s[...]" % where)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    visit(x, "%s[...]" % where)
            elif isinstance(v, ASet):
                for x in v.items:
                    visit(x, where)
            elif isinstance(v, ModuleV):
                for k, x in list(v.ns.items()):
                    visit(x, "%s.%s" % (v.name, k))
            elif isinstance(v, Cls):
                for k, x in v.ns.items():
                    visit(x, "%s.%s" % (v.name, k))
                for b in v.bases:
                    visit(b, where)
            elif isinstance(v, Obj):
                v.gen = 0
                for k, x in v.attrs.items():
                    visit(x, "%s.%s" % (where, k))
                visit(v.data, where)
            elif isinstance(v, Func):
                for x in v.defaults:
                    visit(x, "default of %s" % v.qual)
                for x in v.kwdefaults.values():
                    visit(x, "default of %s" % v.qual)
                for k, x in v.attrs.items():
                    visit(x, "%s.%s" % (v.qual, k))
                s = v.scope
                while s is not None and s.kind != "module":
                    for k, x in s.vars.items():
                        visit(x, "closure %s of %s" % (k, v.qual))
                    s = s.parent
            elif isinstance(v, Bound):
                visit(v.func, where)
                visit(v.self_, where)
            elif isinstance(v, PropV):
                visit(v.fget, where)
                visit(v.fset, where)
            elif isinstance(v, (StaticV, ClassV)):
                visit(v.f, where)
            elif isinstance(v, MemoV):
                visit(v.f, where)
            elif isinstance(v, PartialV):
                visit(v.f, where)
                for x in v.args:
                    visit(x, where)
        return visit

    def where(self):
        if not self.stack:
            return "?"
        f, q, l = self.stack[-1]
        return "%s:%s (%s)" % (os.path.relpath(f, os.path.dirname(self.root)) if f else "?", l, q)

    def touch(self, container, how, detail=None):
        """Called before a list, dict or set is changed in place."""
        w = self.shared_ids.get(id(container))
        if w is not None and self.gen > 0:
            if self.on_event is not None:
                self.on_event()
            if isinstance(container, list):
                self.journal.append((container, list(container)))
            elif isinstance(container, dict):
                self.journal.append((container, dict(container)))
            else:
                self.journal.append((container, list(container.items)))
            self.events.append({"kind": "dict" if isinstance(container, dict) else type(container).__name__, "how": how, "what": w, "where": self.where(), "detail": detail})

    def touch_attr(self, o, name, value, ns):
        if self.gen > 0 and getattr(o, "gen", 1) == 0:
            if self.on_event is not None:
                self.on_event()
            old = ns.get(name, MISSING)
            self.journal.append((ns, name, old))
            owner = o.name if isinstance(o, (Cls, Func, ModuleV)) else (o.cls.name + " object")
            self.events.append({"kind": "attr", "how": "assignment", "what": "%s.%s" % (owner, name), "where": self.where(),
                                "detail": (name, value), "loc": (id(o), name), "first": old is MISSING or old is None, "old": old})
            self._share(value, "%s.%s" % (owner, name))

    def _share(self, v, where):
        # a value stored in a shared place becomes shared itself
        if v is None or isinstance(v, (str, int, float, bool, bytes, Term)):
            return
        self.keep.append(v)
        self.sharer(set(), False)(v, where)

    def rollback(self):
        for j in reversed(self.journal):
            if len(j) == 2:
                c, old = j
                if isinstance(c, list):
                    c[:] = old
                elif isinstance(c, dict):
                    c.clear()
                    c.update(old)
                elif isinstance(c, MemoV):
                    c.table = old
                elif isinstance(c, LazyIter):
                    c.it = itertools.chain([old], c.it)
                else:
                    c.items[:] = old
            else:
                ns, name, old = j
                if old is MISSING:
                    ns.pop(name, None)
                else:
                    ns[name] = old
        self.journal = []

    # ======================================================================= statements
    def exec_block(self, body, sc):
        for s in body:
            self.exec(s, sc)

    def exec(self, n, sc):
        self.steps += 1
        if self.steps > self.budget:
            raise BudgetExceeded(self.where())
        if self.stack:
            f, q, _ = self.stack[-1]
            self.stack[-1] = (f, q, n.lineno)
        if sc.kind == "function":
            return getattr(self, "s_" + type(n).__name__, self.s_unknown)(n, sc)
        try:
            getattr(self, "s_" + type(n).__name__, self.s_unknown)(n, sc)
        except Unsupported as x:        # at the top of a module or a class: only what uses the name is undecided
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.store(n.name, Unmodelled(str(x)), sc)
            elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets):
                for t in n.targets:
                    self.store(t.id, Unmodelled(str(x)), sc)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.store(n.target.id, Unmodelled(str(x)), sc)
            else:
                raise

    def s_unknown(self, n, sc):
        raise Unsupported("statement %s at %s" % (type(n).__name__, self.where()))

    def s_Expr(self, n, sc):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, sc)

    def s_Pass(self, n, sc):
        pass

    def s_Break(self, n, sc):
        raise Brk()

    def s_Continue(self, n, sc):
        raise Cnt()

    def s_Return(self, n, sc):
        raise Ret(self.ev(n.value, sc) if n.value is not None else None)

    def s_Global(self, n, sc):
        pass

    def s_Nonlocal(self, n, sc):
        pass

    def s_Assign(self, n, sc):
        v = self.ev(n.value, sc)
        for t in n.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, n, sc):
        if sc.kind == "class" and isinstance(n.target, ast.Name):
            sc.vars.setdefault("__annotations_order__", []).append(
                (n.target.id, "ClassVar" in ast.dump(n.annotation)))
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, sc), sc)

    def s_AugAssign(self, n, sc):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, sc)
            new = self.augop(n.op, old, self.ev(n.value, sc))
            self.assign(t, new, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(n.op, old, self.ev(n.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev_index(t.slice, sc)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(n.op, old, self.ev(n.value, sc)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list):
            self.native_modules.call_method(self, a, "extend", [b], {})
            return a
        if isinstance(a, ASet) and not a.frozen and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            self.touch(a, "set operator")
            a.items[:] = self.binop(op, a, b).items
            return a
        if isinstance(a, dict) and isinstance(op, ast.BitOr):
            self.touch(a, "|=")
            for k, v in self.dict_items(b):
                self.setitem(a, k, v)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, n, sc):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.vars:
                    del sc.vars[t.id]
                else:
                    raise PyExc(NameError("name %r is not defined" % t.id))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, sc), self.ev_index(t.slice, sc))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, sc)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.touch_attr(o, t.attr, None, o.attrs)
                    del o.attrs[t.attr]
                else:
                    raise PyExc(AttributeError(t.attr))
            else:
                raise Unsupported("del")

    def s_If(self, n, sc):
        if self.truth(self.ev(n.test, sc)):
            self.exec_block(n.body, sc)
        else:
            self.exec_block(n.orelse, sc)

    def s_While(self, n, sc):
        while self.truth(self.ev(n.test, sc)):
            self.steps += 1
            if self.steps > self.budget:
                raise BudgetExceeded(self.where())
            try:
                self.exec_block(n.body, sc)
            except Brk:
                return
            except Cnt:
                continue
        self.exec_block(n.orelse, sc)

    def s_For(self, n, sc):
        it = self.iter(self.ev(n.iter, sc))
        for v in it:
            self.steps += 1
            if self.steps > self.budget:
                raise BudgetExceeded(self.where())
            self.assign(n.target, v, sc)
            try:
                self.exec_block(n.body, sc)
            except Brk:
                return
            except Cnt:
                continue
        self.exec_block(n.orelse, sc)

    def s_FunctionDef(self, n, sc):
        f = self.make_func(n, sc, n.name)
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, sc), [v], {})
        self.store(n.name, v, sc)

    def s_ClassDef(self, n, sc):
        bases = []
        for b in n.bases:
            v = self.ev(b, sc)
            if isinstance(v, Absorb):
                if v.name == "NamedTuple":
                    bases.append("NamedTuple")
                continue
            bases.append(v)
        nt = "NamedTuple" in bases
        bases = [b for b in bases if b != "NamedTuple"]
        for b in bases:
            if not isinstance(b, (Cls, type)):
                raise Unsupported("base class %r" % (b,))
        csc = Scope(sc, sc.globals_, "class")
        csc.func = sc.func
        csc.vars["__module__"] = sc.globals_.name
        csc.vars["__qualname__"] = n.name
        self.exec_block(n.body, csc)
        order = csc.vars.pop("__annotations_order__", [])
        cls = Cls(n.name, bases, csc.vars, self, sc.globals_, n)
        cls.anno = order
        for k, v in csc.vars.items():
            fs = [v]
            if isinstance(v, (StaticV, ClassV)):
                fs = [v.f]
            elif isinstance(v, PropV):
                fs = [v.fget, v.fset]
                v.name = v.name or k
            elif isinstance(v, MemoV):
                fs = [v.f]
            for f in fs:
                if isinstance(f, Func) and f.cls is None:
                    f.cls = cls
        if nt:
            cls.namedtuple = True
            cls.fields = [(k, csc.vars.get(k, MISSING)) for k, cv in order if not cv]
        if any(isinstance(b, Cls) and b.enum is not None for b in cls.mro[1:]):
            self.make_enum(cls)
        for b in cls.mro[1:]:
            if isinstance(b, Cls) and b.namedtuple and not cls.namedtuple:
                cls.namedtuple, cls.fields = True, b.fields
        for k, x in list(cls.ns.items()):
            if isinstance(x, Obj):
                m, _ = x.cls.lookup("__set_name__")
                if isinstance(m, Func):
                    self.call(Bound(m, x), [cls, k], {})
        for b in cls.mro[1:]:
            if isinstance(b, Cls) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.f if isinstance(f, ClassV) else f
                self.call(Bound(f, cls), [], {k.arg: self.ev(k.value, sc) for k in n.keywords if k.arg != "metaclass"})
                break
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, sc), [v], {})
        self.store(n.name, v, sc)

    def make_enum(self, cls):
        cls.enum = []
        last = 0
        mixin_str = any(c is str for c in cls.mro)
        for k, v in list(cls.ns.items()):
            if k.startswith("_") or isinstance(v, (Func, PropV, StaticV, ClassV, MemoV)):
                continue
            if isinstance(v, Absorb) and v.name == "auto()":
                v = k.lower() if cls.native_base() is str else last + 1
            if isinstance(v, int) and not isinstance(v, bool):
                last = v
            dup = next((m for m in cls.enum if m.data == v), None)
            if dup is not None:
                cls.ns[k] = dup
                continue
            o = Obj(cls, self)
            o.data = v
            o.attrs["name"] = o.attrs["_name_"] = k
            o.attrs["value"] = o.attrs["_value_"] = v
            init, c = cls.lookup("__init__")
            if isinstance(init, Func):
                self.call(Bound(init, o), list(v) if isinstance(v, tuple) else [v], {})
            cls.ns[k] = o
            cls.enum.append(o)

    def s_Import(self, n, sc):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                top = self.import_module(a.name.split(".")[0])
                self.store(a.name.split(".")[0], top, sc)

    def s_ImportFrom(self, n, sc):
        if n.module == "__future__":
            return
        name = n.module or ""
        if n.level:
            pk = sc.globals_.ns["__package__"].split(".")
            pk = pk[:len(pk) - (n.level - 1)]
            name = ".".join(pk + ([n.module] if n.module else []))
        m = self.import_module(name)
        for a in n.names:
            if a.name == "*":
                if not isinstance(m, ModuleV):
                    raise Unsupported("import * from a native module")
                names = m.ns.get("__all__") or [k for k in m.ns if not k.startswith("_")]
                for k in names:
                    self.store(k, m.ns[k], sc)
            else:
                self.store(a.asname or a.name, self.import_from(m, a.name), sc)

    def s_Raise(self, n, sc):
        if n.exc is None:
            cur = getattr(sc, "func", None)
            if not self.exc_stack:
                raise PyExc(RuntimeError("No active exception to reraise"))
            raise self.exc_stack[-1]
        v = self.ev(n.exc, sc)
        if isinstance(v, Cls) or (isinstance(v, type) and issubclass(v, BaseException)):
            v = self.call(v, [], {})
        if n.cause is not None:
            self.ev(n.cause, sc)
        if not (isinstance(v, BaseException) or (isinstance(v, Obj) and v.cls.issub(BaseException))):
            if isinstance(v, Term):
                raise Unsupported("raise of a term")
            raise PyExc(TypeError("exceptions must derive from BaseException"))
        raise PyExc(v)

    exc_stack = []

    def s_Try(self, n, sc):
        try:
            try:
                self.exec_block(n.body, sc)
            except PyExc as e:
                for h in n.handlers:
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, sc)):
                        if h.name:
                            self.store(h.name, e.value, sc)
                        self.exc_stack.append(e)
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, sc)
        except (Infeasible, Unsupported, BudgetExceeded):
            raise
        except BaseException:
            if n.finalbody:
                self.exec_block(n.finalbody, sc)
            raise
        else:
            self.exec_block(n.finalbody, sc)

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        return self.isinstance(v, t)

    def s_With(self, n, sc):
        def run(items):
            if not items:
                self.exec_block(n.body, sc)
                return
            it = items[0]
            cm = self.ev(it.context_expr, sc)
            v = self.call(self.getattr(cm, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
            ex = self.getattr(cm, "__exit__")
            try:
                run(items[1:])
            except PyExc as e:
                if self.truth(self.call(ex, [self.type_of(e.value), e.value, None], {})):
                    return
                raise
            except (Ret, Brk, Cnt):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
        run(n.items)

    def s_Assert(self, n, sc):
        if not self.truth(self.ev(n.test, sc)):
            raise PyExc(AssertionError(*([self.ev(n.msg, sc)] if n.msg else [])))

    def s_Match(self, n, sc):
        v = self.ev(n.subject, sc)
        for c in n.cases:
            if self.match(c.pattern, v, sc) and (c.guard is None or self.truth(self.ev(c.guard, sc))):
                self.exec_block(c.body, sc)
                return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, sc)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, Term) and v.kind == "list":
                    v = self.path.items(v)
                else:
                    return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, sc) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < i + after:
                return False
            if not all(self.match(q, x, sc) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i:len(v) - after]), sc)
            return all(self.match(q, x, sc) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, sc)
            if not self.truth(self.isinstance(v, c)):
                return False
            if p.patterns:
                if isinstance(c, type) and len(p.patterns) == 1:
                    if not self.match(p.patterns[0], v, sc):
                        return False
                else:
                    names = self.getattr(c, "__match_args__")
                    for nm, q in zip(names, p.patterns):
                        if not self.match(q, self.getattr(v, nm), sc):
                            return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, nm)
                except PyExc:
                    return False
                if not self.match(q, x, sc):
                    return False
            return True
        raise Unsupported("match pattern %s" % type(p).__name__)

    # ======================================================================= names
    def name(self, id_, sc):
        s = sc
        first = True
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if id_ in s.globs:
                break
            v = s.vars.get(id_, MISSING)
            if v is not MISSING:
                return v
            if id_ in s.localnames:
                raise PyExc(UnboundLocalError("cannot access local variable %r where it is not associated with a value" % id_))
            first = False if s.kind != "comp" else first
            s = s.parent
        v = sc.globals_.ns.get(id_, MISSING)
        if v is not MISSING:
            return v
        if id_ == "__class__":
            f = sc.func
            if f is not None and f.cls is not None:
                return f.cls
        v = self.builtins_ns.get(id_, MISSING)
        if v is not MISSING:
            return v
        if hasattr(_bi, id_):
            raise Unsupported("builtin %s" % id_)
        raise PyExc(NameError("name %r is not defined" % id_))

    def store(self, id_, v, sc):
        if id_ in sc.globs or sc.kind == "module":
            m = sc.globals_
            if sc.kind != "module" or self.gen > 0:
                self.touch_global(m, id_, v)
            m.ns[id_] = v
            return
        if id_ in sc.nonlocs:
            s = sc.parent
            while s is not None:
                if s.kind == "function" and id_ in s.localnames:
                    if s.gen == 0 and self.gen > 0:
                        if self.on_event is not None:
                            self.on_event()
                        old = s.vars.get(id_, MISSING)
                        self.journal.append((s.vars, id_, old))
                        what = "%s of %s" % (id_, s.func.qual if s.func is not None else "?")
                        self.events.append({"kind": "attr", "how": "assignment", "what": what, "where": self.where(), "detail": (id_, v),
                                            "loc": (id(s), id_), "first": old is MISSING or old is None, "old": old})
                        self._share(v, what)
                    s.vars[id_] = v
                    return
                s = s.parent
            raise Unsupported("nonlocal %s" % id_)
        sc.vars[id_] = v

    def touch_global(self, m, name, v):
        if self.gen > 0:
            if self.on_event is not None:
                self.on_event()
            old = m.ns.get(name, MISSING)
            self.journal.append((m.ns, name, old))
            self.events.append({"kind": "attr", "how": "assignment", "what": "%s.%s" % (m.name, name), "where": self.where(),
                                "detail": (name, v), "loc": (id(m), name), "first": old is MISSING or old is None, "old": old})
            self._share(v, "%s.%s" % (m.name, name))

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            # a walrus or loop variable inside a comprehension binds in the comprehension scope
            self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < i + after:
                    raise PyExc(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, sc)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], sc)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, sc)
            else:
                if len(vals) != len(t.elts):
                    raise PyExc(ValueError("%s values to unpack (expected %d, got %d)" % (
                        "too many" if len(vals) > len(t.elts) else "not enough", len(t.elts), len(vals))))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, sc), self.ev_index(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    # ======================================================================= expressions
    def ev(self, n, sc):
        self.steps += 1
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n, sc)

    def e_unknown(self, n, sc):
        raise Unsupported("expression %s at %s" % (type(n).__name__, self.where()))

    def e_Constant(self, n, sc):
        return n.value

    def e_Name(self, n, sc):
        return self.name(n.id, sc)

    def e_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        self.assign(n.target, v, s)
        return v

    def e_Attribute(self, n, sc):
        return self.getattr(self.ev(n.value, sc), n.attr)

    def ev_index(self, n, sc):
        if isinstance(n, ast.Slice):
            return slice(*[self.path.pick(self.ev(x, sc)) if x is not None else None for x in (n.lower, n.upper, n.step)])
        return self.ev(n, sc)

    def e_Slice(self, n, sc):
        return self.ev_index(n, sc)

    def e_Subscript(self, n, sc):
        return self.getitem(self.ev(n.value, sc), self.ev_index(n.slice, sc))

    def e_Tuple(self, n, sc):
        return tuple(self.elts(n.elts, sc))

    def e_List(self, n, sc):
        return self.elts(n.elts, sc)

    def elts(self, es, sc):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, sc)))
            else:
                out.append(self.ev(e, sc))
        return out

    def e_Set(self, n, sc):
        return self.make_set(self.elts(n.elts, sc))

    def make_set(self, items, frozen=False):
        s = ASet((), frozen)
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        if isinstance(x, (list, dict)) or (isinstance(x, ASet) and not x.frozen):
            raise PyExc(TypeError("unhashable type: %r" % type(x).__name__))
        if not self.contains(s, x):
            s.items.append(x)
            s.__dict__.pop("native", None)

    def e_Dict(self, n, sc):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in self.dict_items(self.ev(v, sc)):
                    self.raw_setitem(d, a, b)
            elif isinstance(k, ast.Constant):
                self.steps += 1
                d[k.value] = self.ev(v, sc)
            else:
                kk = self.ev(k, sc)
                self.raw_setitem(d, kk, self.ev(v, sc))
        return d

    def e_BoolOp(self, n, sc):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, sc)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.falsy(v)
            if not isand and t:
                return v
        return v

    def falsy(self, v):
        if isinstance(v, Term) and v.kind == "str":
            return ""
        return v

    def e_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Term):
            if isinstance(n.op, ast.USub):
                return self.path.apply("neg", lambda x: -x, [v])
            if isinstance(n.op, ast.UAdd):
                return v
            return self.path.apply("inv", lambda x: ~x, [v])
        try:
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        except TypeError as e:
            raise PyExc(e)

    def e_IfExp(self, n, sc):
        return self.ev(n.body if self.truth(self.ev(n.test, sc)) else n.orelse, sc)

    def e_Lambda(self, n, sc):
        return self.make_func(n, sc, "<lambda>")

    def e_JoinedStr(self, n, sc):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, sc)
                if v.conversion == 114:
                    x = self.repr(x)
                elif v.conversion == 97:
                    x = self.native(ascii, [x], "ascii")
                elif v.conversion == 115:
                    x = self.to_str(x)
                spec = self.ev(v.format_spec, sc) if v.format_spec is not None else ""
                out.append(self.format(x, spec))
        return cat(*out)

    def e_FormattedValue(self, n, sc):
        return self.format(self.ev(n.value, sc), "")

    def format(self, x, spec):
        if spec == "":
            return self.to_str(x)
        if isinstance(spec, str) and spec[-1:] == "n" and not isinstance(x, Obj):
            self.effects.append({"effect": "formatting by the locale (%r)" % spec, "where": self.where(), "soft": False})
        if isinstance(x, Term) or isinstance(spec, Term):
            return self.path.apply("format", lambda a, b: format(a, b), [x, spec])
        if isinstance(x, (str, int, float, bool)):
            try:
                return format(x, spec)
            except Exception as e:
                raise PyExc(e)
        raise Unsupported("format of %r" % (x,))

    def e_Starred(self, n, sc):
        raise Unsupported("starred expression")

    def e_Compare(self, n, sc):
        a = self.ev(n.left, sc)
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, sc)
            r = self.compare(op, a, b)
            if not r:
                return False
            a = b
        return True

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.truth(self.eq(a, b))
        if t is ast.NotEq:
            return not self.truth(self.eq(a, b))
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        return self.order(t, a, b)

    def order(self, t, a, b):
        name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t]
        fns = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}
        if isinstance(a, Term) or isinstance(b, Term):
            return self.truth(self.path.apply(name, fns[name], [a, b]))
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(self.contains(b, x) for x in a.items)
            sup = all(self.contains(a, x) for x in b.items)
            return {"<=": sub, "<": sub and not sup, ">=": sup, ">": sup and not sub}[name]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.order(t, x, y)
            return fns[name](len(a), len(b))
        if isinstance(a, Obj):
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[name]
            f, _ = a.cls.lookup(m)
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, a), [b], {}))
            raise PyExc(TypeError("'%s' not supported" % name))
        try:
            return fns[name](a, b)
        except TypeError as e:
            raise PyExc(e)

    def is_(self, a, b):
        if isinstance(a, Term) or isinstance(b, Term):
            if a is b:
                return True
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                t, o = (a, b) if isinstance(a, Term) else (b, a)
                if isinstance(t, Term) and t.kind in ("str", "int", "list"):
                    return False
                return self.truth(self.path.apply("is", lambda x, y: x is y, [t, o]))
            return self.truth(self.eq(a, b))
        if isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) is type(b):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return a is b

    def eq(self, a, b):
        """bool or bool term"""
        if a is b:
            return True
        sa, sb = isinstance(a, Term), isinstance(b, Term)
        if sa or sb:
            if sa and sb and a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and not isinstance(y, Term):
                    if x.kind == "str" and not isinstance(y, (str, Obj)):
                        return False
                    if x.kind == "int" and not isinstance(y, (int, float)):
                        return False
                    if x.kind == "list" and isinstance(y, (list, tuple)) and not any(isinstance(z, Term) for z in y):
                        return self.path.apply("eq", lambda p, q: p == q, [x, tuple(y)]) if isinstance(y, tuple) \
                            else self.path.apply("eq", lambda p, q: list(p) == list(q), [x, tuple(y)])
                    if isinstance(y, Obj):
                        if y.cls.enum is not None and y.cls.native_base() in (str, int):
                            return self.eq(x, y.data)
                        return False
            return self.path.apply("eq", lambda p, q: p == q, [a, b])
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    f, _ = x.cls.lookup("__eq__")
                    if isinstance(f, Func):
                        r = self.call(Bound(f, x), [y], {})
                        if r is not NotImplemented:
                            return r
                    elif isinstance(f, Native):
                        r = f.fn(self, [x, y], {})
                        if r is not NotImplemented:
                            return r
                    if x.cls.enum is not None and x.cls.native_base() in (str, int):
                        return self.eq(x.data, y.data if isinstance(y, Obj) else y)
                    if x.cls.namedtuple and (isinstance(y, tuple) or (isinstance(y, Obj) and y.cls.namedtuple)):
                        return self.eq(tuple(x.data), tuple(y.data) if isinstance(y, Obj) else y)
                    if x.cls.native_base() in (list, dict, str) and x.data is not None:
                        return self.eq(x.data, y.data if isinstance(y, Obj) and y.data is not None else y)
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b) or (type(a).__name__ == "DequeL") != (type(b).__name__ == "DequeL"):
                return False
            return all(self.truth(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k, v in a.items():
                if not self.contains(b, k) or not self.truth(self.eq(v, self.getitem(b, k))):
                    return False
            return True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.items) == len(b.items) and all(self.contains(b, x) for x in a.items)
        if isinstance(a, (ASet, list, dict, tuple, Func, Cls, ModuleV)) or isinstance(b, (ASet, list, dict, tuple, Func, Cls, ModuleV)):
            return a is b
        try:
            return bool(a == b)
        except Exception as e:
            raise PyExc(e)

    def truth(self, v):
        if v is True or v is False or v is None:
            return bool(v)
        if isinstance(v, Term):
            if v.kind == "str":
                for p in parts(v):
                    if isinstance(p, str):
                        return True
                return self.path.truth(Term("nonempty", bool, (v,), "bool"), "%s is not empty" % show(v))
            return self.path.truth(v if v.kind == "bool" else Term("bool", bool, (v,), "bool"))
        if isinstance(v, ASet):
            return bool(v.items)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, v), [], {}))
            if v.data is not None and v.cls.native_base() in (list, dict, str, int, tuple):
                return self.truth(v.data)
            if v.cls.namedtuple:
                return bool(v.data)
            return True
        if isinstance(v, (Cls, Func, Bound, Native, ModuleV, Absorb, LazyIter, MethodV, PartialV, MemoV, SuperV)):
            return True
        f = getattr(v, "sa_len", None)
        if f is not None:
            return bool(f())
        try:
            return bool(v)
        except Exception as e:
            raise PyExc(e)

    # ---------------------------------------------------------------- containers
    def contains(self, c, x):
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if isinstance(f, Func):
                return self.truth(self.call(Bound(f, c), [x], {}))
            if c.data is not None:
                return self.contains(c.data, x)
            return any(self.truth(self.eq(x, y)) for y in self.iterate(c))
        if isinstance(c, Cls) and c.enum is not None:
            return any(m is x for m in c.enum)
        if isinstance(c, (str,)) or (isinstance(c, Term) and c.kind == "str"):
            if not is_str(x):
                if isinstance(x, Term):
                    raise Unsupported("in str")
                raise PyExc(TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__))
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return self.truth(self.path.apply("in_str", lambda a, b: a in b, [x, c]))
        if isinstance(c, dict):
            return self.dict_find(c, x) is not MISSING
        if isinstance(c, ASet):
            nat = c.__dict__.get("native")
            if nat is None:
                nat = frozenset(c.items) if all(isinstance(i, (str, int, type(None))) for i in c.items) else False
                c.native = nat
            if nat is not False and len(nat) == len(c.items):
                if isinstance(x, Term):
                    if x.kind in ("str", "int"):
                        return self.truth(self.path.apply("in", lambda a, b: a in b, [x, nat])) if nat else False
                elif isinstance(x, (str, int, type(None))):
                    return x in nat
            return any(self.truth(self.eq(x, y)) for y in c.items)
        if isinstance(c, (list, tuple)):
            if isinstance(x, Term) and x.kind == "str" and c and all(isinstance(i, (str, int, type(None))) for i in c):
                return self.truth(self.path.apply("in", lambda a, b: a in b, [x, tuple(c)]))
            return any(self.truth(self.eq(x, y)) for y in c)
        if isinstance(c, Term):
            return self.truth(self.path.apply("in", lambda a, b: a in b, [x, c]))
        if isinstance(c, LazyIter):
            return any(self.truth(self.eq(x, y)) for y in self.consume(c))
        if isinstance(c, range):
            return self.truth(self.path.apply("in", lambda a, b: a in b, [x, c])) if isinstance(x, Term) else x in c
        f = getattr(c, "sa_contains", None)
        if f is not None:
            return f(self, x)
        if type(c).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return any(self.truth(self.eq(x, y)) for y in c)
        if isinstance(c, (int, float, type(None), bool)):
            raise PyExc(TypeError("argument of type %r is not iterable" % type(c).__name__))
        if isinstance(c, (frozenset, set)):
            return x in c if not isinstance(x, Term) else self.truth(self.path.apply("in", lambda a, b: a in b, [x, frozenset(c)]))
        raise Unsupported("in %r" % type(c).__name__)

    def hashable(self, k):
        if isinstance(k, (list, dict)) or (isinstance(k, ASet) and not k.frozen):
            raise PyExc(TypeError("unhashable type: %r" % type(k).__name__))
        if isinstance(k, Obj):
            if k.cls.enum is not None and k.cls.native_base() in (str, int):
                return k.data
            f, _ = k.cls.lookup("__eq__")
            h, _ = k.cls.lookup("__hash__")
            if isinstance(f, (Func, Native)) and not isinstance(h, (Func, Native)):
                raise PyExc(TypeError("unhashable type: %r" % k.cls.name))
            if isinstance(f, (Func, Native)):
                if isinstance(f, Native) and k.cls.fields is not None:
                    return ("dc", k.cls, tuple(self.hashable(k.attrs[n]) for n, _ in k.cls.fields))
                raise Unsupported("hash of %s" % k.cls.name)
            if k.cls.namedtuple:
                return tuple(k.data)
        return k

    def dict_find(self, d, k):
        """value or MISSING; may fork"""
        if isinstance(k, str):
            v = d.get(k, MISSING)
            if v is not MISSING:
                return v
        k = self.hashable(k)
        if isinstance(k, Term):
            if k in d:
                return d[k]
            nat = {x: y for x, y in d.items() if not isinstance(x, Term)} if any(isinstance(x, Term) for x in d) else d
            for x in [x for x in d if isinstance(x, Term)]:
                if self.truth(self.eq(x, k)):
                    return d[x]
            strs = nat
            if not strs:
                return MISSING
            if id(strs) in self.shared_ids or strs is d and len(strs) > 40:
                keys = strs
            else:
                keys = dict(strs)
            if not self.truth(self.path.apply("in", lambda a, b: a in b, [k, keys])):
                return MISSING
            return self.lookup_term(k, keys)
        if isinstance(k, (tuple, frozenset)) and (has_term(k) or any(isinstance(x, tuple) and has_term(x) for x in d)):
            for x in list(d):
                if type(x) is type(k) and len(x) == len(k) and self.truth(self.eq(x, k)):
                    return d[x]
            return MISSING
        try:
            v = d.get(k, MISSING)
        except TypeError as e:
            raise PyExc(e)
        if v is MISSING and isinstance(k, (str, int)) and len(d) < 3000:
            for x in d:
                if isinstance(x, Term) and self.truth(self.eq(x, k)):
                    return d[x]
        return v

    def lookup_term(self, k, d):
        vals = {}
        for _, x in self.path.evals(k.holes, k):
            if x in d:          # another value would have left this path earlier
                vals[id(d[x])] = d[x]
        if not vals:
            raise Unsupported("look-up outside the table")
        vs = list(vals.values())
        if len(vs) == 1:
            return vs[0]
        if all(isinstance(v, str) for v in vs):
            return self.path.apply("lookup", lambda x, y: y[x], [k, d], hint=False)
        if all(isinstance(v, Obj) for v in vs) and len(vs) > 4:
            return Term("lookup", lambda x, y: y[x], (k, d), "any")
        # few distinct values: one partition each
        kk = self.path.pick(Term("which", lambda x, y: list(vals).index(id(y[x])), (k, d), "int"))
        return vs[kk]

    def dict_items(self, d):
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, Obj) and isinstance(d.data, dict):
            return list(d.data.items())
        keys = self.call(self.getattr(d, "keys"), [], {})
        return [(k, self.getitem(d, k)) for k in self.iterate(keys)]

    def raw_setitem(self, d, k, v):
        k = self.hashable(k)
        if isinstance(k, tuple) and (has_term(k) or any(isinstance(x, tuple) and has_term(x) for x in d)):
            for x in list(d):
                if isinstance(x, tuple) and len(x) == len(k) and self.truth(self.eq(x, k)):
                    d[x] = v
                    return
        elif isinstance(k, Term) and k not in d:
            for x in list(d):
                if (isinstance(x, (str, Term))) and self.truth(self.eq(x, k)):
                    d[x] = v
                    return
        elif not isinstance(k, Term) and k not in d:
            for x in d:
                if isinstance(x, Term) and self.truth(self.eq(x, k)):
                    d[x] = v
                    return
        d[k] = v

    def norm_index(self, i):
        if isinstance(i, Term):
            return self.path.pick(i)
        if isinstance(i, Obj) and isinstance(i.data, int):
            return i.data
        return i

    def getitem(self, o, k):
        if isinstance(o, dict):
            v = self.dict_find(o, k)
            if v is MISSING:
                if type(o) is not dict:
                    return self.native_modules.dict_missing(self, o, k)
                raise PyExc(KeyError(k))
            return v
        if isinstance(o, (list, tuple)):
            k = self.norm_index(k)
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise PyExc(e)
        if isinstance(o, str) and not isinstance(k, Term):
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise PyExc(e)
        if isinstance(o, str) or (isinstance(o, Term) and o.kind in ("str", "list")):
            if isinstance(k, slice):
                a = (k.start, k.stop, k.step)
                return self.native(lambda s, x, y, z: s[x:y:z], [o, *a], "slice")
            if isinstance(k, str) or k is None:
                raise PyExc(TypeError("indices must be integers"))
            return self.native(lambda s, i: s[i], [o, k], "index")
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if isinstance(f, Func):
                return self.call(Bound(f, o), [k], {})
            if o.cls.namedtuple:
                return self.getitem(tuple(o.data), k)
            if o.data is not None:
                if isinstance(o.data, dict):
                    v = self.dict_find(o.data, k)
                    if v is not MISSING:
                        return v
                    m, _ = o.cls.lookup("__missing__")
                    if isinstance(m, Func):
                        return self.call(Bound(m, o), [k], {})
                    raise PyExc(KeyError(k))
                return self.getitem(o.data, k)
            raise PyExc(TypeError("%r object is not subscriptable" % o.cls.name))
        if isinstance(o, Cls):
            if o.enum is not None:
                for m in o.enum:
                    if self.truth(self.eq(m.attrs["name"], k)):
                        return m
                raise PyExc(KeyError(k))
            return o
        if isinstance(o, (type, Absorb)):
            return o
        f = getattr(o, "sa_getitem", None)
        if f is not None:
            return f(self, k)
        if isinstance(o, Term):
            return self.native(lambda s, i: s[i], [o, k], "getitem")
        if isinstance(o, (range, bytes)) or type(o).__name__ in ("Match", "mappingproxy"):
            try:
                return o[self.norm_index(k)]
            except Exception as e:
                raise PyExc(e)
        if o is None or isinstance(o, (int, float, LazyIter, Func, Bound)):
            raise PyExc(TypeError("%r object is not subscriptable" % type(o).__name__))
        raise Unsupported("subscript of %r" % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, Term) and o.kind == "any":
            o = self.path.pick(o)
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__setitem__")
            if isinstance(f, Func):
                self.call(Bound(f, o), [k, v], {})
                return
            if o.data is not None:
                o = o.data
        if isinstance(o, dict):
            if id(o) in self.shared_ids:
                self.touch(o, "item assignment", (k, v))
                self._share(v, self.shared_ids[id(o)] + "[...]")
            self.raw_setitem(o, k, v)
            return
        if isinstance(o, list):
            self.touch(o, "item assignment", (k, v))
            try:
                if isinstance(k, slice):
                    o[k] = list(self.iterate(v))
                else:
                    o[self.norm_index(k)] = v
            except (IndexError, TypeError, ValueError) as e:
                raise PyExc(e)
            return
        if isinstance(o, (str, tuple, int, type(None))) or (isinstance(o, Term) and o.kind == "str"):
            raise PyExc(TypeError("object does not support item assignment"))
        f = getattr(o, "sa_setitem", None)
        if f is not None:
            f(self, k, v)
            return
        raise Unsupported("item assignment on %r" % (o,))

    def delitem(self, o, k):
        if isinstance(o, Term) and o.kind == "any":
            o = self.path.pick(o)
        if isinstance(o, Obj) and o.data is not None:
            o = o.data
        if isinstance(o, dict):
            self.touch(o, "item deletion", (k, None))
            if self.dict_find(o, k) is MISSING:
                raise PyExc(KeyError(k))
            for x in list(o):
                if x is k or self.truth(self.eq(x, k)):
                    del o[x]
                    return
        if isinstance(o, list):
            self.touch(o, "item deletion", (k, None))
            try:
                del o[k if isinstance(k, slice) else self.norm_index(k)]
            except IndexError as e:
                raise PyExc(e)
            return
        raise Unsupported("del item of %r" % (o,))

    def consume(self, v):
        """The iterator of an iterator value; using one that outlives the conversion is a write."""
        return self._shared_iter(v) if self.gen > 0 and id(v) in self.shared_ids else v.it

    def _shared_iter(self, v):
        for x in v.it:
            if self.on_event is not None:
                self.on_event()
            self.journal.append((v, x))
            self.events.append({"kind": "iterator", "how": "use", "what": self.shared_ids[id(v)], "where": self.where(), "detail": None})
            yield x

    def iter(self, v):
        """A Python iterator over an abstract iterable."""
        if isinstance(v, LazyIter):
            return self.consume(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, list):
            return self._live_list(v)
        if isinstance(v, (tuple, range, bytes)):
            return iter(v)
        if isinstance(v, dict):
            return iter(list(v))
        if isinstance(v, ASet):
            items = list(v.items)
            if len(items) > 1:
                self.set_iterated = True
                if self.path.flip_sets:
                    items.reverse()
            return iter(items)
        if isinstance(v, (set, frozenset)):
            if len(v) > 1:
                self.set_iterated = True
            return iter(sorted(v, key=repr, reverse=self.path.flip_sets))
        if isinstance(v, Term):
            if v.kind in ("str", "list"):
                return iter(self.path.items(v))
            if v.kind in ("int", "bool"):
                raise PyExc(TypeError("'int' object is not iterable"))
            return iter(self.path.items(v))
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if isinstance(f, Func):
                return self.iter(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__next__")
            if isinstance(f, Func):
                return self._next_iter(v)
            if v.cls.namedtuple:
                return iter(v.data)
            if v.data is not None:
                return self.iter(v.data)
            f, _ = v.cls.lookup("__getitem__")
            if isinstance(f, Func):
                return self._getitem_iter(v)
            raise PyExc(TypeError("%r object is not iterable" % v.cls.name))
        if isinstance(v, Cls) and v.enum is not None:
            return iter(v.enum)
        if type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "deque", "callable_iterator", "list_iterator"):
            return iter(list(v))
        f = getattr(v, "sa_iter", None)
        if f is not None:
            return iter(f(self))
        if v is None or isinstance(v, (int, float, Func, Bound, Cls, ModuleV)):
            raise PyExc(TypeError("%r object is not iterable" % type(v).__name__))
        raise Unsupported("iteration over %r" % (v,))

    def _live_list(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1

    def _next_iter(self, v):
        f, _ = v.cls.lookup("__next__")
        while True:
            try:
                x = self.call(Bound(f, v), [], {})
            except PyExc as e:
                if isinstance(e.value, StopIteration):
                    return
                raise
            yield x

    def _getitem_iter(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if isinstance(e.value, IndexError):
                    return
                raise
            yield x
            i += 1

    def iterate(self, v):
        out = []
        for x in self.iter(v):
            out.append(x)
            if len(out) > 200000:
                raise BudgetExceeded(self.where())
        return out

    # ---------------------------------------------------------------- comprehensions
    def comp(self, n, sc, emit):
        inner = Scope(sc, sc.globals_, "comp", sc.func)
        inner.self_ = sc.self_
        inner.globs = ()

        def rec(i, s):
            if i == len(n.generators):
                yield emit(s)
                return
            g = n.generators[i]
            src = self.iter(self.ev(g.iter, sc if i == 0 else s))
            for v in src:
                self.steps += 1
                if self.steps > self.budget:
                    raise BudgetExceeded(self.where())
                self.assign(g.target, v, s)
                if all(self.truth(self.ev(c, s)) for c in g.ifs):
                    yield from rec(i + 1, s)
        return rec(0, inner)

    def e_ListComp(self, n, sc):
        return list(self.comp(n, sc, lambda s: self.ev(n.elt, s)))

    def e_SetComp(self, n, sc):
        return self.make_set(self.comp(n, sc, lambda s: self.ev(n.elt, s)))

    def e_DictComp(self, n, sc):
        d = {}
        for k, v in self.comp(n, sc, lambda s: (self.ev(n.key, s), self.ev(n.value, s))):
            self.raw_setitem(d, k, v)
        return d

    def e_GeneratorExp(self, n, sc):
        # the first iterable is evaluated at once, the rest lazily
        inner = Scope(sc, sc.globals_, "comp", sc.func)
        inner.self_ = sc.self_
        first = self.iter(self.ev(n.generators[0].iter, sc))

        def rec(i, s):
            if i == len(n.generators):
                yield self.ev(n.elt, s)
                return
            g = n.generators[i]
            src = first if i == 0 else self.iter(self.ev(g.iter, s))
            for v in src:
                self.steps += 1
                if self.steps > self.budget:
                    raise BudgetExceeded(self.where())
                self.assign(g.target, v, s)
                if all(self.truth(self.ev(c, s)) for c in g.ifs):
                    yield from rec(i + 1, s)
        return LazyIter(rec(0, inner), "generator")

    # ---------------------------------------------------------------- generators (functions)
    def e_Yield(self, n, sc):
        v = self.ev(n.value, sc) if n.value is not None else None
        return self.do_yield(sc, v)

    def e_YieldFrom(self, n, sc):
        for v in self.iter(self.ev(n.value, sc)):
            self.do_yield(sc, v)
        return None

    def do_yield(self, sc, v):
        s = sc
        while s is not None and s.kind != "function":
            s = s.parent
        s.self_.put(v)
        return None

    # ---------------------------------------------------------------- operators
    def e_BinOp(self, n, sc):
        a = self.ev(n.left, sc)
        return self.binop(n.op, a, self.ev(n.right, sc))

    OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
           ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
           ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
           ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}

    def binop(self, op, a, b):
        t = type(op)
        if t is ast.Add:
            if is_str(a) and is_str(b):
                return cat(a, b)
            if isinstance(a, list) and isinstance(b, list):
                if type(a) is not type(b):
                    raise PyExc(TypeError("can only concatenate list to list"))
                r = a + b
                return r if type(a) is list else type(a)(r)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, list) and isinstance(b, Term) and b.kind == "list":
                return a + self.path.items(b)
            if isinstance(a, Term) and a.kind == "list" and isinstance(b, list):
                return self.path.items(a) + b
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if is_str(x) and (isinstance(y, int) or (isinstance(y, Term) and y.kind == "int")):
                    y = self.path.pick(y)
                    if y > 100000:
                        raise BudgetExceeded(self.where())
                    return cat(*([x] * y))
                if isinstance(x, (list, tuple)) and isinstance(y, Term):
                    return x * self.path.pick(y)
        if t is ast.Mod and is_str(a):
            return self.percent(a, b)
        if type(a).__name__ == "KeysL" or type(b).__name__ == "KeysL":
            return self.binop(op, *[x if isinstance(x, ASet) else self.make_set(self.iterate(x)) for x in (a, b)])
        if isinstance(a, ASet) and isinstance(b, ASet):
            if t is ast.BitOr:
                return self.make_set(a.items + b.items)
            if t is ast.BitAnd:
                return self.make_set([x for x in a.items if self.contains(b, x)])
            if t is ast.Sub:
                return self.make_set([x for x in a.items if not self.contains(b, x)])
            if t is ast.BitXor:
                return self.make_set([x for x in a.items if not self.contains(b, x)] + [x for x in b.items if not self.contains(a, x)])
        if t is ast.BitOr and isinstance(a, dict) and isinstance(b, dict):
            d = dict(a)
            for k, v in b.items():
                self.raw_setitem(d, k, v)
            return d
        if t is ast.BitOr and (isinstance(a, (type, Absorb, Cls)) or isinstance(b, (type, Absorb, Cls))):
            return (a, b) if not isinstance(a, tuple) else a + (b,)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Mod: "mod", ast.BitOr: "or", ast.BitAnd: "and",
                  ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.RShift: "rshift", ast.LShift: "lshift", ast.BitXor: "xor"}.get(t)
            for x, y, pre in ((a, b, "__"), (b, a, "__r")):
                if isinstance(x, Obj) and nm:
                    f, _ = x.cls.lookup(pre + nm + "__")
                    if isinstance(f, Func):
                        return self.call(Bound(f, x), [y], {})
            if isinstance(a, Obj) and a.data is not None and not a.cls.enum:
                return self.binop(op, a.data, b)
            if isinstance(b, Obj) and b.data is not None and (not b.cls.enum or b.cls.native_base() in (str, int)):
                return self.binop(op, a, b.data)
            if isinstance(a, Obj) and a.cls.enum and a.cls.native_base() in (str, int):
                return self.binop(op, a.data, b)
            raise PyExc(TypeError("unsupported operand"))
        if isinstance(a, Term) or isinstance(b, Term):
            ka = a.kind if isinstance(a, Term) else None
            kb = b.kind if isinstance(b, Term) else None
            if t is ast.Add and ("str" in (ka, kb)) and not (is_str(a) and is_str(b)) and "any" not in (ka, kb):
                raise PyExc(TypeError("can only concatenate str to str"))
            return self.native(self.OPS[t], [a, b], t.__name__)
        if isinstance(a, (int, float, str, bytes, tuple, list)) and isinstance(b, (int, float, str, bytes, tuple, list, type(None))):
            if t is ast.Pow and isinstance(b, int) and b > 1000:
                raise Unsupported("large power")
            if t is ast.LShift and b > 1000:
                raise Unsupported("large shift")
            try:
                return self.OPS[t](a, b)
            except Exception as e:
                raise PyExc(e)
        if a is None or b is None or isinstance(a, (int, float, str)) or isinstance(b, (int, float, str)):
            raise PyExc(TypeError("unsupported operand type(s) for %s: %r and %r" % (t.__name__, type(a).__name__, type(b).__name__)))
        try:
            import re as _re
            if isinstance(a, _re.RegexFlag) or isinstance(b, _re.RegexFlag):
                return self.OPS[t](a, b)
        except Exception:
            pass
        raise Unsupported("operator %s on %r and %r" % (t.__name__, type(a).__name__, type(b).__name__))

    def percent(self, a, b):
        if isinstance(a, Term):
            a = self.path.pick(a)
        args = b if isinstance(b, tuple) else (b,)
        import re as _re
        out = []
        pos = 0
        i = 0
        for m in _re.finditer(r"%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([sdrixfc%a])", a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(3) == "%":
                out.append("%")
                continue
            if m.group(1):
                v = self.getitem(b, m.group(1))
            else:
                if i >= len(args):
                    raise PyExc(TypeError("not enough arguments for format string"))
                v = args[i]
                i += 1
            if m.group(3) == "s" and not m.group(2):
                out.append(self.to_str(v))
            elif m.group(3) == "r" and not m.group(2):
                out.append(self.repr(v))
            else:
                spec = "%" + m.group(2) + m.group(3)
                out.append(self.native(lambda x, sp: sp % x, [v, spec], "%"))
        out.append(a[pos:])
        if not isinstance(b, dict) and i < len(args):
            raise PyExc(TypeError("not all arguments converted during string formatting"))
        return cat(*out)

    def native(self, fn, args, name):
        """Application of a native operation; abstract when an argument contains terms."""
        if any(isinstance(a, Term) for a in args):
            try:
                return self.path.apply(name, fn, args)
            except (Unsupported, Infeasible, PyExc, BudgetExceeded):
                raise
            except Exception as e:
                raise PyExc(e)
        try:
            return fn(*args)
        except (Unsupported, Infeasible, PyExc, BudgetExceeded):
            raise
        except Exception as e:
            raise PyExc(e)

    def to_str(self, v):
        if is_str(v):
            return v
        if isinstance(v, Term):
            if v.kind == "int":
                return self.path.apply("str", str, [v])
            return self.path.apply("str", str, [v])
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__str__")
            if isinstance(f, Func):
                return self.call(Bound(f, v), [], {})
            if v.cls.enum is not None:
                if v.cls.native_base() is str and any(isinstance(c, Cls) and c.name == "StrEnum" for c in v.cls.mro):
                    return v.data
                return "%s.%s" % (v.cls.name, v.attrs["name"])
            if v.cls.issub(BaseException):
                a = v.attrs.get("args", ())
                return self.to_str(a[0]) if len(a) == 1 else ("" if not a else self.repr(a))
            if v.cls.native_base() is str and v.data is not None:
                return v.data
            f, _ = v.cls.lookup("__repr__")
            if isinstance(f, Func):
                return self.call(Bound(f, v), [], {})
            return self.repr(v)
        if isinstance(v, BaseException):
            if len(v.args) == 1:
                return self.to_str(v.args[0])
            return str(v)
        if isinstance(v, (list, tuple, dict, ASet)):
            return self.repr(v)
        if v is None or isinstance(v, (int, float, bool, range)):
            return str(v)
        return self.repr(v)

    def repr(self, v):
        if isinstance(v, Term):
            return self.path.apply("repr", repr, [v])
        if isinstance(v, (str, int, float, bool, type(None), bytes, range)):
            return repr(v)
        if isinstance(v, list):
            return cat("[", *self._seprepr(v), "]")
        if isinstance(v, tuple):
            return cat("(", *self._seprepr(v), ",)" if len(v) == 1 else ")")
        if isinstance(v, dict):
            out = []
            for i, (k, x) in enumerate(v.items()):
                out += [", " if i else "", self.repr(k), ": ", self.repr(x)]
            return cat("{", *out, "}")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__repr__")
            if isinstance(f, Func):
                return self.call(Bound(f, v), [], {})
            if v.cls.fields is not None and not v.cls.namedtuple:
                out = []
                for i, (k, _d) in enumerate(v.cls.fields):
                    out += [", " if i else "", k, "=", self.repr(v.attrs[k])]
                return cat(v.cls.name, "(", *out, ")")
            if v.cls.enum is not None:
                return cat("<", v.cls.name, ".", v.attrs["name"], ": ", self.repr(v.data), ">")
            if v.cls.issub(BaseException):
                a = v.attrs.get("args", ())
                return cat(v.cls.name, "(", *self._seprepr(a), ")")
        if isinstance(v, BaseException):
            return repr(v)
        # the default representation contains the object's address
        return cat("<", getattr(getattr(v, "cls", None), "name", type(v).__name__), " object at ", self.identity("address"), ">")

    def _seprepr(self, v):
        out = []
        for i, x in enumerate(v):
            out += [", " if i else "", self.repr(x)]
        return out

    def identity(self, what):
        self.effects.append({"effect": "%s of an object" % what, "where": self.where(), "soft": True})
        return Hole("ident%d" % next(self.path.fresh), ["0x7f01", "0x7f02"], note="identity")

    # ======================================================================= functions
    def make_func(self, n, sc, name):
        cls_prefix = ""
        s = sc
        if s.kind == "class":
            cls_prefix = s.vars.get("__qualname__", "") + "."
        f = Func(n, sc, sc.globals_, name, cls_prefix + name, self)
        a = n.args
        f.defaults = [self.ev(d, sc) for d in a.defaults]
        f.kwdefaults = {x.arg: self.ev(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.locals, f.is_gen, f.globs, f.nonlocs = scan_function(n)
        if sc.kind == "function" or sc.kind == "comp":
            f.cls = sc.func.cls if sc.func is not None and name == "<lambda>" else (sc.func.cls if sc.func else None)
        elif isinstance(n, ast.AsyncFunctionDef):
            raise Unsupported("async function")
        return f

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars_ = {}
        nm = f.name
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyExc(TypeError("%s() takes %d positional arguments but %d were given" % (nm, len(pos), len(args))))
            vars_[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for p, v in zip(pos, args):
            vars_[p.arg] = v
        kw = dict(kwargs)
        for p in a.args[max(0, len(args) - len(a.posonlyargs)):] if len(args) >= len(a.posonlyargs) else a.args:
            if p.arg in kw and p.arg not in vars_:
                vars_[p.arg] = kw.pop(p.arg)
        for p in a.kwonlyargs:
            if p.arg in kw:
                vars_[p.arg] = kw.pop(p.arg)
        d0 = len(pos) - len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars_:
                if i >= d0:
                    vars_[p.arg] = f.defaults[i - d0]
                else:
                    raise PyExc(TypeError("%s() missing 1 required positional argument: %r" % (nm, p.arg)))
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg in f.kwdefaults:
                    vars_[p.arg] = f.kwdefaults[p.arg]
                else:
                    raise PyExc(TypeError("%s() missing 1 required keyword-only argument: %r" % (nm, p.arg)))
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = kw
        elif kw:
            k = next(iter(kw))
            raise PyExc(TypeError("%s() got %s %r" % (nm, "multiple values for argument" if k in vars_ else "an unexpected keyword argument", k)))
        return vars_

    def call_func(self, f, args, kwargs):
        vars_ = self.bind(f, args, kwargs)
        sc = Scope(f.scope, f.module, "function", f)
        sc.vars = vars_
        sc.localnames = f.locals
        sc.gen = self.gen
        sc.globs = f.globs
        sc.nonlocs = f.nonlocs
        key = (f.module.file, f.qual, getattr(f.node, "lineno", 0))
        self.called[key] = self.called.get(key, 0) + 1
        if self.on_call is not None:
            self.on_call(f, args, kwargs)
        if isinstance(f.node, ast.Lambda):
            return self.guarded(f, lambda: self.ev(f.node.body, sc))
        if f.is_gen:
            return self.make_generator(f, sc)

        def run():
            try:
                self.exec_block(f.node.body, sc)
            except Ret as r:
                return r.value
            return None
        return self.guarded(f, run)

    def guarded(self, f, run):
        self.depth += 1
        if self.depth > self.max_depth:
            self.max_depth = self.depth
        if self.depth > 900:
            self.depth -= 1
            raise PyExc(RecursionError("maximum recursion depth exceeded"))
        self.stack.append((f.module.file, f.qual, f.node.lineno))
        try:
            return run()
        finally:
            self.depth -= 1
            self.stack.pop()

    def make_generator(self, f, sc):
        """A generator function runs in its own thread, strictly alternating with its consumer."""
        interp = self

        class State:
            """What the generator's thread needs; it must not keep the consumer's handle alive."""

            def __init__(self):
                self.started = False
                self.done = False
                self.go = threading.Semaphore(0)
                self.ready = threading.Semaphore(0)
                self.item = None
                self.error = None
                self.dead = False

            def put(self, v):
                self.item = (v,)
                self.ready.release()
                self.go.acquire()
                if self.dead:
                    raise SystemExit

            def run(self):
                self.go.acquire()
                if self.dead:
                    return
                try:
                    interp.exec_block(f.node.body, sc)
                except Ret:
                    pass
                except SystemExit:
                    return
                except BaseException as e:
                    self.error = e
                self.done = True
                self.ready.release()

        class Gen:
            def __init__(self, st):
                self.st = st

            def __iter__(self):
                return self

            def __next__(self):
                st = self.st
                if st.done:
                    raise StopIteration
                if not st.started:
                    st.started = True
                    old = threading.stack_size(64 << 20)
                    threading.Thread(target=st.run, daemon=True).start()
                    threading.stack_size(old)
                interp.stack.append((f.module.file, f.qual, f.node.lineno))
                try:
                    st.item = None
                    st.go.release()
                    st.ready.acquire()
                finally:
                    interp.stack.pop()
                if st.error is not None:
                    e, st.error = st.error, None
                    raise e
                if st.done:
                    raise StopIteration
                return st.item[0]

            def __del__(self):
                if self.st.started and not self.st.done:
                    self.st.dead = True
                    self.st.go.release()
        st = State()
        sc.self_ = st
        g = Gen(st)
        return LazyIter(g, "generator")

    def e_Call(self, n, sc):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            s = sc
            while s is not None and not (s.kind == "function" and s.func is not None and not isinstance(s.func.node, ast.Lambda)):
                s = s.parent
            if s is None or s.func.cls is None:
                raise Unsupported("super()")
            first = (s.func.node.args.posonlyargs + s.func.node.args.args)[0].arg
            return SuperV(s.func.cls, s.vars[first])
        f = self.ev(n.func, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for a, b in self.dict_items(self.ev(k.value, sc)):
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, sc)
        if self.stack:
            ff, q, _ = self.stack[-1]
            self.stack[-1] = (ff, q, n.lineno)
        if isinstance(f, Native) and f.name in ("locals", "vars") and not args:
            return dict(sc.vars)
        return self.call(f, args, kw)

    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, MethodV):
            return self.native_modules.call_method(self, f.recv, f.name, list(args), kwargs)
        if isinstance(f, type):
            return self.native_modules.call_type(self, f, list(args), kwargs)
        if isinstance(f, PartialV):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kwargs})
        if isinstance(f, MemoV):
            return self.call_memo(f, args, kwargs)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if isinstance(m, Func):
                return self.call(Bound(m, f), args, kwargs)
            raise PyExc(TypeError("%r object is not callable" % f.cls.name))
        if isinstance(f, Absorb):
            if f.name == "auto":
                return Absorb("auto()")
            if f.name == "cast":
                return args[1]
            if args and isinstance(args[0], (Func, Cls)):
                return args[0]
            return Absorb(f.name + "()")
        if isinstance(f, (StaticV, ClassV)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, PropV):
            raise PyExc(TypeError("'property' object is not callable"))
        if isinstance(f, Term):
            raise Unsupported("call of a term")
        c = getattr(f, "sa_call", None)
        if c is not None:
            return c(self, list(args), kwargs)
        if f is None or isinstance(f, (str, int, float, list, tuple, dict, ASet)):
            raise PyExc(TypeError("%r object is not callable" % type(f).__name__))
        raise Unsupported("call of %r" % (f,))

    def call_memo(self, f, args, kwargs):
        key = (tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])))
        for a in args:
            self.hashable(a)
        for k, v in f.table:
            if len(k[0]) == len(args) and [x for x, _ in k[1]] == [x for x, _ in key[1]]:
                same = True
                for x, y in list(zip(k[0], key[0])) + [(p[1], q[1]) for p, q in zip(k[1], key[1])]:
                    if not self.truth(self.eq(x, y)):
                        same = False
                        break
                if same:
                    return v
        v = self.call(f.f, args, kwargs)
        if self.gen > 0:
            if self.on_event is not None:
                self.on_event()
            self.journal.append((f, list(f.table)))
            self.events.append({"kind": "memo", "how": "memoised result", "what": "cache of %r" % f.f, "where": self.where(),
                                "detail": (key, v)})
            self._share(v, "cache of %r" % f.f)
        f.table = f.table + [(key, v)]
        return v

    def instantiate(self, c, args, kwargs):
        if c.enum is not None:
            for m in c.enum:
                if self.truth(self.eq(m.data, args[0])):
                    return m
            raise PyExc(ValueError("%r is not a valid %s" % (args[0], c.name)))
        new, owner = c.lookup("__new__")
        for name in self.abstract_names(c):
            raise PyExc(TypeError("Can't instantiate abstract class %s without an implementation for abstract method %r" % (c.name, name)))
        if isinstance(new, (Func, StaticV)):
            o = self.call(new.f if isinstance(new, StaticV) else new, [c] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls.issub(c)):
                return o
        else:
            o = self.blank(c, args)
        init, owner = c.lookup("__init__")
        if isinstance(init, Func):
            r = self.call(Bound(init, o), args, kwargs)
        elif isinstance(init, Native):
            init.fn(self, [o] + list(args), kwargs)
        elif c.namedtuple:
            names = [k for k, _ in c.fields]
            vals = list(args)
            for k, d in c.fields[len(args):]:
                if k in kwargs:
                    vals.append(kwargs[k])
                elif d is not MISSING:
                    vals.append(d)
                else:
                    raise PyExc(TypeError("missing argument %r" % k))
            if len(vals) > len(names) or any(k not in names or names.index(k) < len(args) for k in kwargs):
                raise PyExc(TypeError("%s() got an unexpected argument" % c.name))
            o.data = vals
            o.attrs.update(zip(names, vals))
        else:
            nb = c.native_base()
            if nb is not None and nb in (list, tuple):
                o.data = self.iterate(args[0]) if args else []
            elif nb is dict:
                o.data = self.native_modules.call_type(self, dict, list(args), kwargs)
            elif nb in (str, int):
                o.data = self.native_modules.call_type(self, nb, list(args), kwargs)
            elif (args or kwargs) and not (nb is not None and issubclass(nb, BaseException)) and not isinstance(new, (Func, StaticV)):
                raise PyExc(TypeError("%s() takes no arguments" % c.name))
        return o

    def blank(self, c, args=()):
        o = Obj(c, self)
        nb = c.native_base()
        if nb is not None and issubclass(nb, BaseException):
            o.attrs["args"] = tuple(args)
        elif nb is list:
            o.data = []
        elif nb is dict:
            o.data = {}
        return o

    def abstract_names(self, c):
        hit = c.__dict__.get("_abstract")
        if hit is not None:
            return hit
        out = []
        if any(isinstance(b, Cls) and b.name == "ABC" and b.module is None for b in c.mro):
            seen = set()
            for k in c.mro:
                if not isinstance(k, Cls):
                    continue
                for n, v in k.ns.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    f = v.fget if isinstance(v, PropV) else (v.f if isinstance(v, (StaticV, ClassV)) else v)
                    if isinstance(f, Func) and f.attrs.get("__isabstractmethod__"):
                        out.append(n)
        c._abstract = out
        return out

    # ======================================================================= attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not MISSING and self.isinstance(e.value, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            v, owner = o.cls.lookup(name)
            if isinstance(v, PropV):
                if v.cached:
                    if name in o.attrs:
                        return o.attrs[name]
                    r = self.call(v.fget, [o], {})
                    self.touch_attr(o, name, r, o.attrs)
                    o.attrs[name] = r
                    return r
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if v is not None:
                return self.bind_attr(v, o, owner)
            if o.cls.enum is not None and name in ("name", "value"):
                return o.attrs[name]
            nb = o.cls.native_base()
            if nb is not None and o.data is not None and not o.cls.enum and hasattr(nb, name):
                return MethodV(o.data, name)
            if o.cls.enum and nb is str:
                return MethodV(o.data, name)
            f, _ = o.cls.lookup("__getattr__")
            if isinstance(f, Func):
                return self.call(Bound(f, o), [name], {})
            if o.cls.namedtuple:
                names = [k for k, _ in o.cls.fields]
                if name == "_replace":
                    return Native(name, lambda I, a, k: I.instantiate(o.cls, [], {**{x: o.attrs[x] for x in names}, **k}))
                if name == "_asdict":
                    return Native(name, lambda I, a, k: {x: o.attrs[x] for x in names})
                if name in ("_fields", "_field_defaults", "_make"):
                    return self._getattr(o.cls, name)
                if name in ("index", "count"):
                    return MethodV(tuple(o.data), name)
            if hasattr(object, name):
                raise Unsupported("%s of an object" % name)
            raise PyExc(AttributeError("%r object has no attribute %r" % (o.cls.name, name)))
        if isinstance(o, Cls):
            v, owner = o.lookup(name)
            if v is not None:
                if isinstance(v, ClassV):
                    return Bound(v.f, o)
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, MemoV):
                    return v
                if isinstance(v, Obj):
                    g, _ = v.cls.lookup("__get__")
                    if isinstance(g, Func):
                        return self.call(Bound(g, v), [None, o], {})
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return None
            if name == "__dict__":
                return o.ns
            if name == "__members__" and o.enum is not None:
                return {m.attrs["name"]: m for m in o.enum}
            if o.namedtuple:
                if name == "_fields":
                    return tuple(k for k, _ in o.fields)
                if name == "_field_defaults":
                    return {k: d for k, d in o.fields if d is not MISSING}
                if name == "_make":
                    return Native(name, lambda I, a, k: I.instantiate(o, I.iterate(a[0]), {}))
            if name == "__subclasses__":
                return Native(name, lambda I, a, k: list(o.subs))
            if hasattr(type, name):
                raise Unsupported("attribute %s of a class" % name)
            raise PyExc(AttributeError("type object %r has no attribute %r" % (o.name, name)))
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            if o.name.split(".")[0] == self.package and o.name + "." + name in self.modules:
                return self.modules[o.name + "." + name]
            if name == "__dict__":
                return o.ns
            if hasattr(ast, name) and name.startswith("__"):
                raise Unsupported("%s of a module" % name)
            raise PyExc(AttributeError("module %r has no attribute %r" % (o.name, name)))
        if isinstance(o, SuperV):
            start = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            mro = start.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls):
                    if name in c.ns:
                        v = c.ns[name]
                        if isinstance(v, PropV):
                            return self.call(v.fget, [o.obj], {})
                        return self.bind_attr(v, o.obj, c) if isinstance(o.obj, Obj) else (
                            Bound(v.f, o.obj) if isinstance(v, ClassV) else (v.f if isinstance(v, StaticV) else v))
                elif c is not object and hasattr(c, name):
                    return self.native_super(c, o.obj, name)
            return self.native_super(object, o.obj, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return None
            if name == "__dict__":
                return o.attrs
            if name == "__module__":
                return o.module.name
            if name == "__get__":
                return Native("__get__", lambda I, a, k: Bound(o, a[0]) if a[0] is not None else o)
            if hasattr(lambda: 0, name):
                raise Unsupported("%s of a function" % name)
            raise PyExc(AttributeError("'function' object has no attribute %r" % name))
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, MemoV):
            if name == "__wrapped__":
                return o.f
            if name == "cache_clear":
                def clear(I, a, k):
                    I.journal.append((o, list(o.table)))
                    o.table = []
                return Native("cache_clear", clear)
            return self._getattr(o.f, name)
        if isinstance(o, PropV):
            if name == "setter":
                return Native("setter", lambda I, a, k: PropV(o.fget, a[0], o.cached))
            if name in ("getter", "deleter"):
                return Native(name, lambda I, a, k: o if name == "deleter" else PropV(a[0], o.fset))
            if name == "fget":
                return o.fget
        if isinstance(o, PartialV):
            return {"func": o.f, "args": tuple(o.args), "keywords": o.kw}[name]
        if isinstance(o, Absorb):
            return Absorb(o.name + "." + name)
        if isinstance(o, Native):
            if name in o.__dict__.get("attrs", {}):
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            raise Unsupported("attribute %s of %r" % (name, o))
        return self.native_modules.get_attr(self, o, name)

    def native_super(self, c, obj, name):
        if name == "__init__":
            def init(I, a, k):
                if isinstance(obj, Obj) and issubclass(c, BaseException):
                    obj.attrs["args"] = tuple(a)
                elif isinstance(obj, Obj) and c in (list, dict) and (a or k):
                    obj.data = I.native_modules.call_type(I, c, a, k)
                return None
            return Native("super.__init__", init)
        if name == "__new__":
            def new(I, a, k):
                o = I.blank(a[0], a[1:])
                nb = a[0].native_base()
                if nb in (str, int) and len(a) > 1:
                    o.data = I.native_modules.call_type(I, nb, a[1:], k)
                return o
            return Native("super.__new__", new)
        if name in ("__init_subclass__", "__set_name__"):
            return Native(name, lambda I, a, k: None)
        if name == "__setattr__":
            def seta(I, a, k):
                I.touch_attr(obj, a[0], a[1], obj.attrs)
                obj.attrs[a[0]] = a[1]
            return Native(name, seta)
        if name == "__str__" and isinstance(obj, Obj):
            a = obj.attrs.get("args", ())
            return Native(name, lambda I, x, k: I.to_str(a[0]) if len(a) == 1 else ("" if not a else I.repr(a)))
        if isinstance(obj, Obj) and obj.data is not None and hasattr(obj.cls.native_base() or object, name):
            return MethodV(obj.data, name)
        if name in ("__eq__",):
            return Native(name, lambda I, a, k: obj is a[0])
        if name == "__hash__":
            return Native(name, lambda I, a, k: 1)
        raise PyExc(AttributeError("'super' object has no attribute %r" % name))

    def bind_attr(self, v, o, owner):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, MemoV):
            return Bound(v, o)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassV):
            return Bound(v.f, o.cls)
        if getattr(v, "sa_bind", None) is not None:
            return v.sa_bind(self, o)
        if isinstance(v, NativeAttr):
            if issubclass(v.typ, BaseException):
                if v.name == "with_traceback":
                    return Native("with_traceback", lambda I, a, k: o)
                if v.name == "add_note":
                    return Native("add_note", lambda I, a, k: None)
                if v.name in ("__traceback__", "__cause__", "__context__"):
                    return None
                if v.name == "args":
                    return o.attrs.get("args", ())
                if v.name in ("__str__", "__repr__"):
                    return Native(v.name, lambda I, a, k: I.to_str(o) if v.name == "__str__" else I.repr(o))
                if v.name == "__init__":
                    return self.native_super(v.typ, o, "__init__")
            if o.data is not None:
                return MethodV(o.data, v.name)
            raise Unsupported("native attribute %s.%s" % (v.typ.__name__, v.name))
        if isinstance(v, Native):
            if v.__dict__.get("as_method"):
                return Native(v.name, lambda I, a, k: v.fn(I, [o] + a, k))
            return v
        if isinstance(v, Obj):
            g, _ = v.cls.lookup("__get__")
            if isinstance(g, Func):
                return self.call(Bound(g, v), [o, o.cls], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, owner = o.cls.lookup(name)
            if isinstance(p, PropV) and not p.cached:
                if p.fset is None:
                    raise PyExc(AttributeError("property %r of %r object has no setter" % (name, o.cls.name)))
                self.call(p.fset, [o, v], {})
                return
            f, _ = o.cls.lookup("__setattr__")
            if isinstance(f, Func):
                self.call(Bound(f, o), [name, v], {})
                return
            if o.cls.frozen:
                raise PyExc(AttributeError("cannot assign to field %r" % name))
            if isinstance(p, Obj):
                g, _ = p.cls.lookup("__set__")
                if isinstance(g, Func):
                    self.call(Bound(g, p), [o, v], {})
                    return
            self.touch_attr(o, name, v, o.attrs)
            o.attrs[name] = v
            return
        if isinstance(o, Cls):
            self.touch_attr(o, name, v, o.ns)
            o.ns[name] = v
            return
        if isinstance(o, Func):
            self.touch_attr(o, name, v, o.attrs)
            o.attrs[name] = v
            return
        if isinstance(o, ModuleV):
            self.touch_global(o, name, v)
            o.ns[name] = v
            return
        if isinstance(o, Bound):
            raise PyExc(AttributeError(name))
        f = getattr(o, "sa_setattr", None)
        if f is not None:
            f(self, name, v)
            return
        if isinstance(o, BaseException):
            return
        if isinstance(o, Term) and o.kind == "any":
            return self.setattr(self.path.pick(o), name, v)
        if o is None or isinstance(o, (str, int, float, list, dict, tuple, Term)):
            raise PyExc(AttributeError("%r object has no attribute %r" % (type(o).__name__, name)))
        raise Unsupported("attribute assignment on %r" % (o,))

    # ---------------------------------------------------------------- types
    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Term):
            t = {"str": str, "int": int, "bool": bool, "list": list}.get(v.kind)
            if t is None:
                raise Unsupported("type of a term")
            return t
        if isinstance(v, Cls):
            return type
        if isinstance(v, ASet):
            return frozenset if v.frozen else set
        if isinstance(v, (Func, Bound, MethodV, Native)):
            return type(len)
        return type(v)

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(t, Absorb):
            n = t.name.rsplit(".", 1)[-1]
            tab = {"List": list, "Dict": dict, "Tuple": tuple, "Set": set, "Iterable": None, "Sequence": None, "Callable": None,
                   "Mapping": dict, "Hashable": None}
            if n in tab and tab[n]:
                return self.isinstance(v, tab[n])
            if n in ("Iterable", "Sequence", "Collection"):
                if n == "Sequence":
                    return isinstance(v, (list, tuple, str)) or (isinstance(v, Term) and v.kind in ("str", "list"))
                return isinstance(v, (list, tuple, str, dict, ASet)) or (isinstance(v, Term) and v.kind in ("str", "list"))
            if n == "Callable":
                return self.callable(v)
            raise Unsupported("isinstance with %r" % t)
        if isinstance(v, Term) and v.kind == "any":
            return self.truth(self.path.apply("isinstance", lambda a, b: self.isinstance(a, b), [v, t]))
        k = self.type_of(v)
        if type(v).__name__ in ("DequeL", "KeysL"):
            return t is object or isinstance(t, Native) and t.name == "deque" and type(v).__name__ == "DequeL"
        if isinstance(t, Native) and t.name in ("defaultdict", "Counter"):
            return type(v).__name__ == "DDict" and v.counter == (t.name == "Counter")
        if isinstance(k, Cls):
            if isinstance(t, Cls) or isinstance(t, type):
                return k.issub(t)
            raise PyExc(TypeError("isinstance() arg 2 must be a type"))
        if isinstance(t, Cls):
            r = getattr(v, "sa_isinstance", None)
            return bool(r and r(self, t))
        r = getattr(v, "sa_isinstance", None)
        if r is not None:
            x = r(self, t)
            if x is not None:
                return x
        if getattr(t, "sa_typecheck", None) is not None:
            return t.sa_typecheck(self, v)
        if not isinstance(t, type):
            raise PyExc(TypeError("isinstance() arg 2 must be a type, a tuple of types, or a union"))
        if isinstance(v, (Func, Bound, Native, MethodV)):
            return t is object
        return issubclass(k, t)

    def callable(self, v):
        if isinstance(v, Obj):
            return v.cls.lookup("__call__")[0] is not None
        return isinstance(v, (Func, Bound, Native, Cls, type, MethodV, PartialV, MemoV)) or hasattr(v, "sa_call")
