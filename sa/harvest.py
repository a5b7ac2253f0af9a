"""Facts read off the current source before any document is analysed: string-keyed tables, string and
integer constants, functions.  They only widen the cells (new cases, new representatives)."""
import ast

from .interp import Cls, ModuleV


def tables(engine):
    """Every string-keyed dict reachable from the package's module and class namespaces: [(where, dict)]."""
    I = engine.I
    out, seen = [], set()

    def look(v, where, depth):
        if isinstance(v, dict):
            if id(v) in seen:
                return
            seen.add(id(v))
            if v and all(isinstance(k, str) for k in v):
                out.append((where, v))
            if depth < 3:
                for k, x in v.items():
                    if isinstance(x, (dict, Cls)):
                        look(x, "%s[%r]" % (where, k), depth + 1)
        elif isinstance(v, Cls):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k, x in list(v.ns.items()):
                if isinstance(x, (dict, Cls)):
                    look(x, "%s.%s" % (where, k), depth + 1)
    for name in sorted(I.modules):
        m = I.modules[name]
        if isinstance(m, ModuleV) and m.file:
            for k, v in list(m.ns.items()):
                if isinstance(v, (dict, Cls)):
                    look(v, "%s.%s" % (name, k), 0)
    return out


def module_trees(engine):
    out = []
    for name in sorted(engine.I.modules):
        m = engine.I.modules[name]
        if isinstance(m, ModuleV) and m.file:
            with open(m.file, encoding="utf-8") as f:
                out.append((name, m.file, ast.parse(f.read(), m.file)))
    return out


def functions(engine):
    """(module, qualified name, line) of every function of the package."""
    out = []

    def rec(n, mod, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((mod, pre + c.name, c.lineno))
                rec(c, mod, pre + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                rec(c, mod, pre + c.name + ".")
            else:
                rec(c, mod, pre)
    for name, _, t in module_trees(engine):
        rec(t, name, "")
    return out


def constants(engine, big_tables=False):
    """String and integer constants in the code (tables with more than 40 entries left out)."""
    strs, ints = {}, {}
    for name, file, t in module_trees(engine):
        skip = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Dict) and len(n.keys) > 40 and not big_tables:
                for c in ast.walk(n):
                    skip.add(id(c))
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                    and isinstance(n.body[0].value, ast.Constant):
                skip.add(id(n.body[0].value))
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in skip:
                if isinstance(n.value, str) and "mml:" not in n.value:
                    strs.setdefault(n.value, (name, n.lineno))
                elif isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.setdefault(n.value, (name, n.lineno))
    return strs, ints
