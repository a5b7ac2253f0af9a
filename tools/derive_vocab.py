"""Derives the reference vocabulary (symbol -> LaTeX per token) from the current tree, by analysis.

Run once when the reference is (re)confirmed; the checks only read the committed sa/vocab.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.engine import Engine, in_big_stack
from sa.trees import E, Doc
from sa.terms import Hole, Path, Term, evaluate, explore, cat
from sa import harvest
from sa.lib import _norm


def main():
    e = Engine()
    keys = set()
    for w, d in harvest.tables(e):
        if "__dataclass_fields__" in w or "accent_to_ltx" in w:
            continue
        keys |= set(d)
    keys = sorted(k for k in keys if k and k == _norm(k))
    out = {}
    for which, tag in (("mi", "mi"), ("mo", "mo"), ("mn", "mn"), ("char", "mtext")):
        ks = [k for k in keys if which != "char" or len(k) == 1]
        h = Hole("s", ks, closed=True)
        v = {}
        # letters on both sides keep the blanks some symbols stand for
        body = cat("a", h, "b") if which == "char" else h
        for p, o in explore(lambda p: e.convert_doc(p, Doc(E("math", E("menclose", E(tag, body), notation="top")))), limit=4000):
            assert p and o.kind == "value", (o and o.show())
            for env in p.envs([h]):
                r = evaluate(o.value, env)
                s = env[h]
                if which == "char":
                    if r == "\\overline{\\text{a%sb}}" % s:
                        continue
                    assert r.startswith("\\overline{\\text{a}") and r.endswith("\\text{b}}"), (s, r)
                    r = r[len("\\overline{\\text{a}"):-len("\\text{b}}")]
                else:
                    r = r[len("\\overline{"):-1]
                if r != s:
                    v[s] = r
        out[which] = dict(sorted(v.items()))
        print(which, len(ks), "keys,", len(v), "with a rendering of their own")
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "vocab.json")
    json.dump(out, open(p, "w", encoding="utf-8"), ensure_ascii=True, indent=0, sort_keys=True)


in_big_stack(main)
