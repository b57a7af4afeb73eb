"""seedtable.py: the table of planted bugs for DESIGN.md (every one is caught by the quick check of its property)."""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
rows = []
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append((m["property"], i, m["needs"].strip().rstrip("."), m["what_it_breaks"].strip().rstrip(".")))
print("| caught by | planted bug | needs | what it breaks |\n|---|---|---|---|")
for p, i, n, w in sorted(rows):
    print("| %s | `%s` | %s | %s |" % (p, i, n.replace("|", "/").replace("\n", " "), w.replace("|", "/").replace("\n", " ")))
