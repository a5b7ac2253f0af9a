"""Development aid: rewrites the generated parts of DESIGN.md (sizes per property, planted changes)."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p, encoding="utf-8").read()
for f in glob.glob(os.path.join(ROOT, "evidence", "C??.json")):
    e = json.load(open(f))
    if e["tier"] != "quick":
        continue
    n = e["coverage"]["obligations_judged"]
    s = re.sub(r"^(\| %s \|.*\| )[^|]*\|$" % e["property"], lambda m: "%s%d, %.0f s |" % (m.group(1), n, max(1, e["wall_s"])), s, flags=re.M)
rows = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
table = "\n".join("* %s catches: %s" % (k, ", ".join(v)) for k, v in sorted(rows.items()))
a, b = "<!-- planted -->\n", "\n<!-- end planted -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + table + s[j:]
open(p, "w", encoding="utf-8").write(s)
