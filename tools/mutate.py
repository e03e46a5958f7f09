#!/usr/bin/env python3
"""Mutation campaign (developer tool): mutate.py WORKER COUNT SEED FILE... -- random small mutants of the functions under contract, run against the checks that cover them.
Works on a private copy of /repo under /tmp; prints one line per mutant."""
import sys, os, re, json, random, subprocess, glob, shutil
W, N, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]); FILES = sys.argv[4:]; V = "/verif"
D = "/tmp/mutw%d" % W; R = D + "/repo"; os.makedirs(D, exist_ok=True)
if not os.path.isdir(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD; cp -a /repo/mbedtls %s/ 2>/dev/null" % (R, R, R), shell=True)
VV = D + "/verif"; shutil.rmtree(VV, ignore_errors=True); os.makedirs(VV)
subprocess.run("cp -a %s/bedver %s/harness %s/known_findings.json %s/" % (V, V, V, VV), shell=True, check=True)
env = dict(os.environ, BEDVER_REPO=R, BEDVER_BUILD=D + "/build", PYTHONHASHSEED="0", VERIF_SEED="1")
PROPS = {}; RANGES = {}
for f in glob.glob(V + "/evidence/P*.json"):
    e = json.load(open(f)); pid = e["property"]
    for x in e["coverage"]["functions_under_contract"]:
        m = re.match(r"(.+?):(\d+)", x["loc"] or "")
        if m: RANGES.setdefault((m.group(1), int(m.group(2))), set()).add(pid)
rnd = random.Random(SEED)
def fend(lines, start):
    d = 0; seen = False
    for i in range(start - 1, len(lines)):
        for c in re.sub(r'"(\\.|[^"\\])*"', '""', lines[i].split("//")[0]):
            if c == "{": d += 1; seen = True
            if c == "}": d -= 1
        if seen and d == 0: return i + 1
    return len(lines)
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" + 1", ""), (" - 1", ""), (" + ", " - "), ("true", "false"), ("false", "true"), ("++", "--")]
def mutants(path, lines, a, b):
    out = []
    for i in range(a, b):
        l = lines[i]; s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "SINFO", "SWARN", "SDEBUG", "SHMMM", "SALERT", "<<", "#", "PINFO", "PWARN", "PHMMM", "PDEBUG", "STHROW")) or "SINFO" in s or "SWARN" in s or "SALERT" in s: continue
        if re.match(r"[\w\->.:\[\]()&*, <>\"!+]+;$", s) and not re.match(r"(return|break|continue|auto|const|int|bool|string|uint64_t|size_t|int64_t|list|map|lock_guard|unique_lock|SQResult|case|static|char)\b", s) and s.count("(") == s.count(")"):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";", "delete"))
        m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$", l)
        if m: out.append((i, l, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate"))
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x00" * len(m.group(0)), l.split("//")[0])
        for x, y in REL:
            for m in re.finditer(re.escape(x), code):
                k = m.start()
                if x in ("==",) and code[k-1:k] in "<>!": continue
                if x in ("true", "false") and (code[k-1:k].isalnum() or code[k+len(x):k+len(x)+1].isalnum()): continue
                if x == "++" : pass
                out.append((i, l, l[:k] + y + l[k + len(x):], x + "->" + y))
        if s == "break;" or s == "continue;": pass
        m = re.match(r"(\s*)return ([^;]+);$", l)
    return out
cand = []
for (f, ln), pids in RANGES.items():
    if FILES and f not in FILES: continue
    L = open(R + "/" + f).read().split("\n"); e = fend(L, ln)
    for m in mutants(f, L, ln, e): cand.append((f, m, sorted(pids)))
rnd.shuffle(cand); seen = set(); done = 0
print(len(cand), "candidates", flush=True)
for f, (i, old, new, kind), pids in cand:
    if (f, i, new) in seen: continue
    seen.add((f, i, new))
    if done >= N: break
    done += 1
    # all properties whose ranges contain that line
    L = open(R + "/" + f).read().split("\n"); ps = set()
    for (g, ln), p in RANGES.items():
        if g == f and ln - 1 <= i < fend(L, ln): ps |= p
    L2 = list(L); L2[i] = new; open(R + "/" + f, "w").write("\n".join(L2))
    c = subprocess.run(["clang++-18", "-fsyntax-only", "-w", "-std=c++20", "-I" + R, "-DSQLITE_ENABLE_NORMALIZE", "-I" + R + "/libstuff", "-I" + R + "/mbedtls/include", "-include", "/opt/vp/missing/mbedtls3.h", R + "/" + f], capture_output=True, text=True)
    if c.returncode: print("NOCOMPILE", f, i + 1, kind, flush=True); open(R + "/" + f, "w").write("\n".join(L)); continue
    res = []; caught = False
    for p in sorted(ps):
        try: r = subprocess.run(["python3-vt", "bedver/check.py", p, "quick"], cwd=VV, env=env, capture_output=True, text=True, timeout=850)
        except subprocess.TimeoutExpired: res.append(p + ":timeout"); continue
        und = [x for x in r.stdout.split("\n") if x.startswith(("undecided", "refuted", "vacuous"))]
        res.append("%s:%d%s" % (p, r.returncode, "u" if und else ""))
        if r.returncode == 1: caught = True; nfi = "no-failing-input" in r.stdout; res[-1] += "n" if nfi else ""; break
    print("CAUGHT" if caught else "SURVIVED", "%s:%d" % (f, i + 1), kind, "|", old.strip()[:110], "=>", new.strip()[:110], "|", " ".join(res), flush=True)
    open(R + "/" + f, "w").write("\n".join(L))
