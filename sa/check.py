"""Runs one check: python3 -B -m sa.check C03"""
import argparse
import json
import multiprocessing
import os
import pickle
import sys
import threading
import time

from . import checks_struct
from .core import Check, VERIF, FINDINGS, AnalysisBroken
from .engine import Engine, in_big_stack, REPO
from .harvest import functions

CHECKS = {n.upper(): f for m in (checks_struct,) for n, f in vars(m).items() if n.startswith("c") and n[1:].isdigit()}
for _m in ("checks_text", "checks_xml", "checks_state"):
    try:
        _mod = __import__("sa." + _m, fromlist=["x"])
    except ModuleNotFoundError:
        continue
    for _n, _f in vars(_mod).items():
        if _n.startswith("c") and _n[1:].isdigit():
            CHECKS[_n.upper()] = _f


def findings(pid):
    if not os.path.exists(FINDINGS):
        return []
    return [f for f in json.load(open(FINDINGS, encoding="utf-8"))["findings"] if f["property"] == pid]


def worker(conn, pid, tier, seed, i, n):
    def watch():
        while True:         # a runaway analysis ends by itself
            if int(open("/proc/self/statm").read().split()[1]) * 4096 > 3400 << 20:
                os._exit(3)
            time.sleep(1)
    threading.Thread(target=watch, daemon=True).start()

    def go():
        ck = Check(pid, tier, seed)
        ck.worker, ck.workers = i, n
        try:
            CHECKS[pid](ck)
        except AnalysisBroken as x:
            ck.broken = str(x)
        return ck.dump()
    try:
        r = in_big_stack(go)
    except AnalysisBroken as x:
        r = {"fatal": str(x)}
    except BaseException as x:
        import traceback
        r = {"fatal": "internal error: %r" % x, "trace": traceback.format_exc()}
    conn.send_bytes(pickle.dumps(r))
    conn.close()


def run(pid, tier, seed, jobs=None):
    """The cells are analysed by several processes; each takes every n-th cell."""
    n = jobs or (1 if getattr(CHECKS[pid], "single", False) else min(8, os.cpu_count() or 1))
    ctx = multiprocessing.get_context("fork")
    procs = []
    for i in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(b, pid, tier, seed, i, n))
        p.start()
        b.close()
        procs.append((p, a))
    ck = Check(pid, tier, seed)
    for p, a in procs:
        try:
            d = pickle.loads(a.recv_bytes())
        except EOFError:
            d = {"fatal": "a worker ended early"}
        p.join()
        if "fatal" in d:
            if d.get("trace"):
                print(d["trace"][-1500:], file=sys.stderr)
            for q, _ in procs:
                if q.is_alive():
                    q.terminate()
            raise AnalysisBroken(d["fatal"])
        ck.absorb(d)
    if getattr(ck, "broken", None):
        raise AnalysisBroken(ck.broken)
    return ck


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--show", type=int, default=10)
    a = ap.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.stderr.reconfigure(errors="backslashreplace")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        ck = run(a.pid, a.tier, seed, a.jobs)
    except AnalysisBroken as x:
        print("ANALYSIS-BROKEN property=%s %s" % (a.pid, x))
        return 2
    known = findings(a.pid)
    hit = {}
    new = []
    for p in ck.problems:
        f = next((f for f in known if f["key"] == p.key), None)
        if f:
            hit.setdefault(f["key"], []).append(p)
        else:
            new.append(p)
    for f in known:
        if f["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, f["what"]))
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join("evidence", "%s.violations.json" % a.pid)
    decided = ck.by_term + ck.by_reps
    cov = {
        "explanation": ("Abstract interpretation of the syntax tree of the package in /repo/src (no code of the package is run): the public "
                        "conversion is analysed from its entry point over abstract documents whose texts, attribute values and names are "
                        "unknown strings; every branch on an unknown splits the trace partition; each partition's abstract result is "
                        "compared with the rendering the property demands."),
        "abstract_documents": ck.cells, "trace_partitions": ck.partitions, "obligations_judged": ck.obligations,
        "agreed_as_templates": ck.by_term, "agreed_on_representatives": ck.by_reps,
        "undecided": ck.n_undecided, "undecided_reasons": {k: len(v) for k, v in sorted(ck.undecided.items())[:12]},
        "rules": dict(sorted(ck.rules.items())),
        "functions_analysed": len(ck.called), "functions_in_package": len(functions(ck.e)),
        "call_edges_entered": sum(ck.called.values()),
        "samples": ck.samples,
        "known_findings_seen": sorted(hit),
    }
    cov.update(ck.extra)
    ev = {"property": a.pid, "tier": a.tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["the analyser's models of Python, re, minidom and the other library functions the package calls",
                          "unknown strings are represented by the strings the source's own constants can tell apart"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(ev_dir, a.pid + ".json"), "w"), indent=1, ensure_ascii=True)
    print("%s: %d documents, %d partitions, %d obligations (%d as templates, %d on representatives), %d undecided, %d functions, %.1f s"
          % (a.pid, ck.cells, ck.partitions, ck.obligations, ck.by_term, ck.by_reps, ck.n_undecided, len(ck.called), time.time() - t0))
    for why, labels in sorted(ck.undecided.items(), key=lambda x: -len(x[1]))[:5]:
        print("  undecided (%d): %s; e.g. %s" % (len(labels), why, labels[0]))
    if new:
        json.dump([p.as_dict() for p in new], open(os.path.join(VERIF, replay), "w"), indent=1, ensure_ascii=True, default=str)
        for p in new[:a.show]:
            print("  - [%s] %s" % (p.key, p.text))
            if p.witness:
                print("      input: %s" % p.witness[:400])
            if p.functions:
                print("      in: %s" % "; ".join(p.functions[:6])[:300])
        if len(new) > a.show:
            print("  ... and %d more" % (len(new) - a.show))
        print("VIOLATION property=%s replay=%s" % (a.pid, replay))
        return 1
    total = decided + ck.n_undecided
    if total == 0 or decided < 0.5 * total or ck.obligations < getattr(ck, "min_obligations", 1):
        print("ANALYSIS-BROKEN property=%s decides %d of %d obligations" % (a.pid, decided, total))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
