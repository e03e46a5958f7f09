"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bedver.registry import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note))
exec(open(os.path.join(V, "bedver", "props.txt")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], observe_at=list(p["observe"]), hook_needed=None))) + "\n")
TECH = "contract-based deductive verification: weakest-precondition style symbolic execution of the clang AST of the current source, obligations discharged by z3/cvc5"
checks = [dict(property=p["id"], quick_cmd="python3-vt bedver/check.py %s quick" % p["id"], thorough_cmd="python3-vt bedver/check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="proof",
    level_note=p["note"] or "Every obligation generated from the current source of the functions under contract is discharged for all inputs and states the contracts admit; trusted: the VC generator, clang, z3/cvc5, the contracts on SQLite and the standard library, and the assumptions listed in the evidence file.") for p in P if p["id"] in PROPS]
na = [dict(property=p["id"], reason=p["na"] or "no check yet") for p in P if p["id"] not in PROPS]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3-vt bedver/setup.py", checks=checks, not_applicable=na, notes="bedver is a deductive verifier for this C++ code base; see DESIGN.md. Replay programs in harness/ run the real code."), f, indent=1); f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
