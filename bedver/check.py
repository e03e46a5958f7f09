"""bedver check <ID> [quick|thorough]: discharge every obligation of one property against /repo's current source."""
import sys, os, time, json, importlib, traceback, re
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv) # the same obligations, in the same order, on every run
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bedver.front import *
from bedver import spec, frames, harness as H
from bedver.registry import PROPS
EV = os.path.join(VERIF, "evidence"); REPLAY = os.path.join(EV, "replay")

def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f: return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "open"]
    except FileNotFoundError: return []

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); os.makedirs(REPLAY, exist_ok=True)
    mod = importlib.import_module("bedver.specs." + PROPS[pid][0]); P = getattr(mod, PROPS[pid][1])
    parts = P.get("parts") or [P]; results = []; frame_rep = {}; notes = []
    for pi, part in enumerate(parts):
        part_results = []
        try:
            prog = Program(part["tus"]); items = part["items"](prog)
            for it in items:
                if not getattr(it, "deadline", None): it.deadline = 240
            part_results = spec.run_items(prog, items, part["common"], tier)
        except Exception as e:
            r = spec.Result("part %d" % pi, "?"); r.status = "undecided"; r.note = "%s: %s" % (type(e).__name__, str(e)[:400]); part_results = [r]
            if os.environ.get("BEDVER_DEBUG"): traceback.print_exc()
        results += part_results
        if part.get("frame"):
            r = spec.Result("whole-program frame of the protected state", "all functions"); r.t = time.time(); ts = time.time()
            allowed = set(part.get("ok", {}))
            for x in part_results: 
                allowed.add(x.fn); allowed |= set(x.inlined)
            try:
                bad, rep = frames.check(part["frame"], allowed)
                for f in part["frame"]:
                    nm = "only verified functions write %s::%s" % tuple(f); offenders = [b for b in bad if b[0] == tuple(f)]
                    r.obls.append(dict(name=nm, loc="", fn="all functions", status="unknown" if offenders else "proved", backend="frame scan", detail="; ".join("%s at %s" % (w, l) for _, w, l in offenders), secs=0.0))
                if bad: r.status = "undecided"; r.note = "unverified writers: " + "; ".join("%s::%s in %s" % (f[0], f[1], w) for f, w, l in bad)[:400]
                frame_rep.update(rep); r.covers = 1
            except Exception as e: r.status = "undecided"; r.note = "frame scan: %r" % e
            r.secs = time.time() - ts; results.append(r)
    refuted = [r for r in results if r.status == "refuted"]; undec = [r for r in results if r.status in ("undecided", "vacuous")]
    for r in results: print("%-10s %5.1fs obligations=%d %s %s" % (r.status, r.secs, len(r.obls), r.label, r.note))
    # ---- replay search / bounded stand-ins on the real code
    runs = []; hv = None
    need = bool(refuted or undec)
    for h in P.get("harness", []):
        hs = dict(h)
        if not (need or hs.get("always", True) or tier == "thorough"): continue
        args = [a if a != "TIER" else tier for a in hs.get("args", [pid, "TIER"])] + ([str(seed)] if hs.get("seed", True) else [])
        try: rc, out = H.run(hs["name"], args, timeout=hs.get("timeout", 300), extra=hs.get("extra", ()), wrap=hs.get("wrap", ()))
        except Exception as e: rc, out = 99, "%s: %s" % (type(e).__name__, str(e)[-1500:])
        why = "bounded stand-in" if hs.get("standin") else ("failing-input search / bounded stand-in for the obligations not discharged" if need else "bounded cross-check")
        runs.append(dict(program="harness/%s.cpp" % hs["name"], args=args, rc=rc, role=why, bound=hs.get("bound", ""), tail=out[-800:]))
        print("harness %s rc=%d (%s)" % (hs["name"], rc, why))
        if rc == 1 and "VIOLATED:" in out: hv = hv or (hs, args, out)
        elif rc not in (0, 1): notes.append("harness %s ended with %d" % (hs["name"], rc)); print(out[-1500:])
        for l in out.splitlines():
            if l.startswith("FINDING: "):
                k = next((k for k in known(pid) if k.get("finding") and k["finding"] == l[9:].strip()), None)
                if k: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                elif not hv: hv = (hs, args, "VIOLATED: " + l[9:] + "\n" + out)
            if l.startswith("COUNT "): runs[-1].setdefault("counts", []).append(l[6:])
    status = 0; violations = 0
    if hv or refuted:
        desc = (re.search(r"VIOLATED:.*", hv[2]).group(0) if hv else "")
        unl = []
        ks = known(pid); listed = []
        for r in refuted:
            for o in r.obls:
                if o["status"] != "refuted": continue
                k = next((k for k in ks if k.get("obligation") and k["obligation"] in o["name"] and k.get("item", "") in r.label), None)
                (listed if k else unl).append((k, r, o))
        for k in {x[0]["id"]: x[0] for x in listed}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        hk = next((k for k in ks if hv and k.get("harness") and k["harness"] in desc), None)
        if hk: print("KNOWN-FINDING: property=%s %s" % (pid, hk["what"])); hv = None
        if unl or hv:
            path = os.path.join(REPLAY, "%s.txt" % pid)
            with open(path, "w") as f:
                f.write("property %s\n" % pid)
                if hv: f.write("\nfailing input reproduced on the real code (program built from %s):\n  %s/harness/%s.cpp %s\n%s\n" % (REPO, VERIF, hv[0]["name"], " ".join(hv[1]), hv[2]))
                for _, r, o in unl: f.write("\nfailed obligation: %s\n  item: %s (function %s)\n  at: %s\n  back end: %s\n%s\n" % (o["name"], r.label, r.fn, o["loc"], o["backend"], o["detail"]))
                for r in undec: f.write("\nnot decided: %s: %s\n" % (r.label, r.note))
            for _, r, o in unl: print("failed obligation: %s [%s]" % (o["name"], r.label))
            print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if hv else " no-failing-input-found"))
            status = 1; violations = len(unl) or 1
    ob = sum(len(r.obls) for r in results); ds = sum(1 for r in results for o in r.obls if o["status"] == "proved")
    be = {}
    for r in results:
        for o in r.obls:
            if o["status"] == "proved": be[o["backend"]] = be.get(o["backend"], 0) + 1
    trusted = sorted({c for r in results for c in r.contracts if "[trusted" in c}); assumed = sorted({a for r in results for a in r.assumed})
    base = ["bedver VC generator (bedver/engine.py, bedver/lib.py: C++ semantics and standard-library contracts)", "clang 18 front end (AST exported from the current source on every run)", "z3 %s, cvc5 as second back end" % spec.z3.get_version_string(),
            "dropped by extraction: logging macros (SINFO/SWARN/... incl. their arguments), SASSERT-style fatal exits end the path", "signed integer overflow, out-of-range indexing and memory errors assumed absent; floating point as reals; strings as abstract values with concatenation/length/equality facts"] + trusted
    cov = dict(obligations=max(ob, 1), discharged=ds, checker_cmd="python3-vt bedver/check.py %s %s" % (pid, tier), trusted_base=base, undecided=sum(1 for r in undec), refuted=len(refuted),
               functions_under_contract=[dict(item=r.label, function=r.fn, loc=r.loc, status=r.status, obligations=len(r.obls), feasible_outcomes=r.covers, secs=round(r.secs, 2), note=r.note) for r in results],
               inlined=sorted({i for r in results for i in r.inlined}), backends=be, solver_queries=sum(r.nsolver for r in results) + ob, solver_s=round(sum(r.solver for r in results) + sum(o["secs"] for r in results for o in r.obls), 2),
               loop_invariants=[dict(where=a, line=b, conjuncts=c) for r in results for a, b, c in r.loops][:200], frame_writers=frame_rep, frame_exceptions={k: v for part in parts for k, v in part.get("ok", {}).items()}, bounded=runs)
    asm = ["functions treated as arbitrary (any result, no effect on modelled state): " + ", ".join(assumed)] if assumed else []
    asm += P.get("assumptions", []) + notes
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof", coverage=cov, assumptions=asm, wall_s=round(time.time() - t0, 2), violations=violations), f, indent=1)
    print("%s: %d/%d obligations discharged, %d items, %.1fs" % (pid, ds, ob, len(results), time.time() - t0))
    sys.stdout.flush(); os._exit(status)
if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.stdout.flush(); os._exit(2)
