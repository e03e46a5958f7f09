"""DESIGN.md from tools/DESIGN.tmpl: fills in the table of seeded changes"""
import json, glob, os
V = "/verif"; s = open(V + "/tools/DESIGN.tmpl").read()
rows = []
for f in sorted(glob.glob(V + "/seeded/B*/meta.json")): d = json.load(open(f)); rows.append("| %s: %s | %s |" % (os.path.basename(os.path.dirname(f)), d["what_it_breaks"], d["property"]))
s = s.replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
