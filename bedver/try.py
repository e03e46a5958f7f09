"""developer driver: python3-vt bedver/try.py module PROP [label substring]"""
import sys, time, importlib
sys.path.insert(0, "/verif")
from bedver.front import *
from bedver.spec import *
mod = importlib.import_module("bedver.specs." + sys.argv[1]); P = getattr(mod, sys.argv[2])
t = time.time(); prog = Program(P["tus"]); print("load", round(time.time() - t, 1))
items = [i for i in P["items"](prog) if len(sys.argv) < 4 or sys.argv[3] in i.label]
for r in run_items(prog, items, P["common"], "quick"):
    print("%-10s %5.1fs obls=%d covers=%d %s %s" % (r.status, r.secs, len(r.obls), r.covers, r.label, r.note))
    for o in r.obls:
        if o["status"] != "proved": print("     ", o["status"], o["name"], o["backend"], o["detail"][:(3000 if len(items) == 1 else 0)])
