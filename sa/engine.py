"""Loads the package abstractly and analyses the public conversion over abstract documents."""
import os
import sys
import threading
import time

from .terms import (Term, Hole, Cat, Path, Unsupported, Infeasible, BudgetExceeded, cat, evaluate, explore, is_str, show)
from .interp import Interp, PyExc, Obj, Cls, Bound, Func, StaticV, ClassV
from . import lib
from .trees import Doc, El, build_dom, expat_error

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "mathml_to_latex"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone."""


class Outcome:
    """Result of the analysed conversion on one trace partition."""

    def __init__(self, kind, value, interp):
        self.kind = kind            # 'value' 'raise' 'budget'
        self.value = value
        self.parses = list(interp.parse_args)
        self.events = list(interp.events)
        self.effects = list(interp.effects)
        self.called = dict(interp.called)
        self.steps = interp.steps
        self.max_depth = interp.max_depth
        self.where = None

    def exc_name(self):
        v = self.value
        return v.cls.name if isinstance(v, Obj) else type(v).__name__

    def exc_text(self, I):
        return I.to_str(self.value)

    def show(self):
        if self.kind == "value":
            return repr(show(self.value)) if isinstance(self.value, (str, Term)) else repr(self.value)
        if self.kind == "raise":
            a = self.value.attrs.get("args") if isinstance(self.value, Obj) else getattr(self.value, "args", ())
            return "raises %s(%s)" % (self.exc_name(), ", ".join(show(x) if isinstance(x, Term) else str(x) for x in a or ()))
        return "does not end (budget exceeded in %s)" % self.value


class Engine:
    def __init__(self, budget=3_000_000, repo=None):
        self.native = lib.NativeModules()
        I = Interp(os.path.join(repo or REPO, "src"), PKG, self.native, lib.make_builtins(), budget)
        I.parse_args = []
        I.ambient_imports = []
        I.set_iterated = False
        self.I = I
        try:
            m = I.import_module(PKG + ".converter")
        except PyExc as e:
            raise AnalysisBroken("the package cannot be imported: %s" % I.to_str(e.value))
        self.entry_cls = m.ns.get("MathMLToLaTeX")
        if not isinstance(self.entry_cls, Cls):
            raise AnalysisBroken("the public class mathml_to_latex.converter.MathMLToLaTeX is gone")
        self.import_effects = list(I.effects)
        I.gen = 0
        I.path = Path()
        try:
            self.instance = I.call(self.entry_cls, [], {})
        except PyExc as e:
            raise AnalysisBroken("MathMLToLaTeX() fails: %s" % I.to_str(e.value))
        I.mark_shared([self.instance])
        self.import_events = list(I.events)
        self.import_called = dict(I.called)

    # -----------------------------------------------------------------------------------------
    def reset(self, path):
        I = self.I
        I.rollback()
        I.path = path
        I.events = []
        I.effects = []
        I.parse_args = []
        I.called = {}
        I.steps = 0
        I.depth = 0
        I.max_depth = 0
        I.stack = []
        I.on_event = None
        I.gen = 1
        I.exc_stack[:] = []

    def run(self, path, xml, oracle, entry="static", keep=False):
        """One conversion; oracle(I, text) -> DOM or raises PyExc."""
        I = self.I
        if not keep:
            self.reset(path)
        else:
            I.events = []
            I.effects = []
            I.parse_args = []
            I.called = {}
            I.steps = 0
            I.max_depth = 0
            I.stack = []
        I.parse_oracle = oracle
        try:
            f = I.getattr(self.entry_cls if entry == "static" else self.instance, "convert")
            v = I.call(f, [xml], {})
            out = Outcome("value", v, I)
        except PyExc as e:
            out = Outcome("raise", e.value, I)
        except BudgetExceeded as e:
            out = Outcome("budget", e.where, I)
        except RecursionError:
            raise Unsupported("analysis recursion")
        return out

    def convert_doc(self, path, doc, entry="static", keep=False):
        dom = build_dom(doc)
        xml = Hole("xml", ["<math/>"], closed=True)
        return self.run(path, "<document/>", lambda I, t: dom, entry, keep)


def in_big_stack(f):
    """Run f in a thread with a large stack; returns its result or raises."""
    res = {}

    def go():
        try:
            res["v"] = f()
        except BaseException as e:
            res["e"] = e
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    threading.stack_size(0)
    if "e" in res:
        raise res["e"]
    return res["v"]
