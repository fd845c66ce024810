"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (its check reports it) | needs |", "|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    needs = " ".join(d["needs"].split()).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {needs} |")
p = root + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if a not in t:
    t = t.rstrip("\n") + "\n\n## Planted bugs and the checks that report them\n\n" \
        "Every row was confirmed with tools/seedlab.py (compiles, stable tests pass, demo fails only with it)\n" \
        "and is reported by the quick check of its own property.\n\n" + a + b
t = t[: t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
