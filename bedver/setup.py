"""setup_cmd: builds the AST exporter and the replay programs' shared objects (checks rebuild what is missing or stale)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bedver import front, harness
from bedver.registry import PROPS
import importlib
front.build_exporter()
names = set()
for m, a in PROPS.values():
    P = getattr(importlib.import_module("bedver.specs." + m), a)
    for h in P.get("harness", []): names.add((h["name"], tuple(h.get("extra", ())), tuple(h.get("wrap", ()))))
for n, e, w in sorted(names):
    try: print("built", harness.build(n, e, w))
    except Exception as ex: print("warning:", n, str(ex)[-500:])
