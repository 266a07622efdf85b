"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(?:^\| c\d\d-.*\n)+", lambda _: "\n".join(rows) + "\n", s, count=1, flags=re.M)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows))
