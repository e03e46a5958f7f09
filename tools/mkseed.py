#!/usr/bin/env python3
"""mkseed.py ID PROPERTY spec.py : spec.py defines EDITS=[(file, old, new)], DEMO (C++ text), NEEDS, BREAKS, optional WRAP"""
import sys, os, subprocess, json, shutil
ID, PROP, SPEC = sys.argv[1:4]; g = {}; exec(open(SPEC).read(), g)
V = "/verif"; D = os.path.join(V, "seeded", ID)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
os.makedirs(D, exist_ok=True)
try:
    for f, o, n in g["EDITS"]:
        p = "/repo/" + f; s = open(p).read(); assert s.count(o) == 1, (f, s.count(o), o); open(p, "w").write(s.replace(o, n))
    diff = sh("git -C /repo diff").stdout; open(D + "/patch.diff", "w").write(diff)
    open(D + "/demo.cpp", "w").write(g["DEMO"])
    for x in ("shim.cpp", "shim.h", "util.h"): shutil.copy(V + "/harness/" + x, D)
    open(D + "/demo.sh", "w").write(open(V + "/tools/demo.sh").read().replace("@WRAP@", " ".join("-Wl,--wrap=" + w for w in g.get("WRAP", []))))
    json.dump(dict(property=PROP, needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stderr[-2000:]
    t = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); r = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("tests") or base.get("stable") or next(v for v in base.values() if isinstance(v, list) and len(v) > 50)
    miss = set(map(str, names)) - set(map(str, r["passed"])); print("tests broken:", sorted(miss)[:5])
    d = sh("bash %s/demo.sh" % D, cwd="/repo"); print("patched demo rc", d.returncode, (d.stdout + d.stderr)[-600:])
    c = sh("python3-vt bedver/check.py %s quick" % PROP, cwd=V, env=dict(os.environ, VERIF_SEED="1")); print("check rc", c.returncode); print("\n".join(l for l in c.stdout.splitlines() if not l.startswith("proved"))[-1500:])
finally:
    sh("git -C /repo checkout -q -- .")
b = sh("bash /opt/vp/build.sh"); d2 = sh("bash %s/demo.sh" % D, cwd="/repo"); print("clean demo rc", d2.returncode, (d2.stdout + d2.stderr)[-600:])
ok = not miss and d.returncode != 0 and d.returncode != 4 and d2.returncode == 0
print("SEED", ID, "VALID" if ok else "INVALID", "CAUGHT" if c.returncode == 1 else "MISSED")
