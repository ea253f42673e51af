"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, re, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(f)); rows.append("| %s | %s | check %s: %s |" % (f.split("/")[-2], d["property"], d["property"], d["what_it_breaks"].strip().rstrip(".")))
p = H + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(\| seed \| property \| caught by \|\n\|---\|---\|---\|\n)(?:\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
