"""Development aid, not a check: compares the analyser with the real package on the documents of the checks.

For some representatives of every trace partition the concrete document is converted by the real code
and the result compared with the analysed one.  Differences are errors of the analyser's models."""
import json, os, sys, multiprocessing
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("SA_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
from sa import check
from sa.core import *
from sa.engine import in_big_stack
from mathml_to_latex.converter import MathMLToLaTeX

N = {"n": 0, "bad": 0}


def dev(ck, p, doc, o):
    if ck.cell_index % STEP:
        return
    hs = doc_holes(doc)
    for h in (holes_of(o.value) if isinstance(o.value, Term) else ()):
        if h not in hs:
            hs.append(h)
    envs = p.envs(hs) if hs else [{}]
    for env in envs[:3] + envs[-1:]:
        try:
            x = doc.root.concrete(env)
        except Exception:
            continue
        if any(ord(c) < 32 or 0xd800 <= ord(c) <= 0xdfff or c in "\ufffe\uffff" for c in x):
            continue
        N["n"] += 1
        try:
            r = ("value", MathMLToLaTeX.convert(x))
        except Exception as e:
            r = ("raise", type(e).__name__)
        a = ("value", evaluate(o.value, env)) if o.kind == "value" else (o.kind, o.exc_name())
        if a != r and N["bad"] < 8:
            N["bad"] += 1
            print("DIFF", ck.pid, x[:300], "\n   real", r, "\n   ana ", a)


def one(pid):
    def go():
        ck = Check(pid, "quick", 1)
        ck.dev = dev
        check.CHECKS[pid](ck)
    in_big_stack(go)
    print(pid, "compared", N["n"], "differences", N["bad"], flush=True)


STEP = int(os.environ.get("STEP", "3"))
pids = sys.argv[1:] or sorted(check.CHECKS)
with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
    pool.map(one, pids, 1)
