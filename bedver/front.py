"""Front end: builds the exporter, exports the clang AST of /repo's translation units, and indexes it."""
import json, os, subprocess, hashlib, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BEDVER_REPO", "/repo")
BUILD = os.environ.get("BEDVER_BUILD", os.path.join(VERIF, ".build"))
LLVM = "/usr/lib/llvm-18"

class FrontError(Exception): pass

def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def build_exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "bedver/exporter/exporter.cpp")
    key = _sha([src])[:16]
    out = os.path.join(BUILD, "exporter-" + key)
    if os.path.exists(out): return out
    llvm = (glob.glob(LLVM + "/lib/libLLVM-18*.so*") + glob.glob(LLVM + "/lib/libLLVM.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*.so*"))
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", llvm[0], "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontError("exporter build failed: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out

def repo_sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".": ds[:] = [x for x in ds if x in ("libstuff", "sqlitecluster", "plugins", "mbedtls")]
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".hpp", ".c")): out.append(os.path.join(d, f))
    return out

def cxxflags():
    fl = ["-std=c++20", "-DSQLITE_ENABLE_NORMALIZE", "-I" + REPO, "-I" + REPO + "/mbedtls/include", "-w"]
    if os.path.exists("/opt/vp/missing/mbedtls3.h"): fl += ["-include", "/opt/vp/missing/mbedtls3.h"]
    return fl

_headers_key = None
def export(tus):
    """tus: list of paths relative to REPO. returns list of parsed JSON dumps."""
    global _headers_key
    exe = build_exporter()
    hdrs = [p for p in repo_sources() if not p.endswith(".cpp")]
    _headers_key = _sha(hdrs) + os.path.basename(exe)
    res = subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    def one(tu):
        path = os.path.join(REPO, tu)
        if not os.path.exists(path): raise FrontError("missing source " + tu)
        key = hashlib.sha256((_headers_key + _sha([path]) + REPO).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "ast-" + key + ".json")
        if not os.path.exists(out):
            tmp = out + ".tmp%d-%d" % (os.getpid(), abs(hash(tu)) % 100000)
            r = subprocess.run([exe, REPO, path, tmp, "--"] + cxxflags() + ["-resource-dir", res], capture_output=True, text=True, cwd=REPO)
            if not os.path.exists(tmp): raise FrontError("cannot export %s: %s" % (tu, r.stderr[-1500:]))
            os.rename(tmp, out)
        with open(out) as f: return json.load(f)
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, tus))

class Ty:
    __slots__ = ("k", "n", "a", "to", "w", "s", "c", "rv", "key", "ch", "alen")
    def __init__(self, k, **kw):
        self.k = k; self.n = None; self.a = (); self.to = None; self.w = 0; self.s = 0; self.c = 0; self.rv = 0; self.key = None; self.ch = 0; self.alen = 0
        for x, y in kw.items(): setattr(self, x, y)
    def __repr__(self):
        if self.k == "int": return ("i" if self.s else "u") + str(self.w)
        if self.k in ("ptr", "ref"): return repr(self.to) + ("*" if self.k == "ptr" else "&")
        if self.k == "rec": return self.key or self.n
        if self.k == "enum": return self.n
        return self.k

class Fn:
    __slots__ = ("n", "mg", "loc", "el", "ps", "rt", "this", "b", "j", "tu", "virt")
    def __repr__(self): return "<fn %s %s>" % (self.n, self.loc)

CONTAINERS = {"std::map", "std::set", "std::vector", "std::list", "std::deque"}   # bases of repo classes kept as a field
class Program:
    def __init__(self, tus):
        self.tus = tus
        dumps = export(tus)
        self.fns = {}       # mangled -> Fn
        self.byname = {}    # qualified name -> [Fn]
        self.records = {}   # type key -> record json with Ty-resolved fields
        self.enums = {}
        self.globals = {}
        self.sysbases = {}
        for ti, d in enumerate(dumps):
            tu = TU(self, ti, d)
            for n, e in d["enums"].items(): self.enums.setdefault(n, e)
            for key, r in d["records"].items():
                if r.get("sys"):
                    self.sysbases.setdefault(key, r["bases"]); continue
                if key not in self.records:
                    self.records[key] = dict(qn=r["qn"], fields=[(f["n"], tu.ty(f["t"]), f.get("init"), tu) for f in r["fields"]], bases=[tu.ty(b) for b in r["bases"]], union=r.get("union"), line=r.get("line"))
            for g in d["globals"]:
                old = self.globals.get(g["n"])
                if old is None or (old["init"] is None and g.get("init")):
                    self.globals[g["n"]] = dict(n=g["n"], t=tu.ty(g["t"]), init=g.get("init"), tu=tu)
            for f in d["funcs"]:
                if f["mg"] in self.fns: continue
                fn = Fn(); fn.n = f["n"]; fn.mg = f["mg"]; fn.loc = f["loc"]; fn.el = f["el"]; fn.j = f; fn.tu = tu
                fn.ps = [(p["id"], p["n"], tu.ty(p["t"])) for p in f["ps"]]; fn.rt = tu.ty(f["rt"]); fn.this = tu.ty(f["this"]) if "this" in f else None; fn.b = f["b"]; fn.virt = f.get("virt", 0)
                self.fns[fn.mg] = fn; self.byname.setdefault(fn.n, []).append(fn)
    def fn(self, name, nparams=None):
        c = self.byname.get(name, [])
        if nparams is not None: c = [f for f in c if len(f.ps) == nparams]
        if len(c) != 1: raise FrontError("function %s: %d candidates" % (name, len(c)))
        return c[0]
    def all_fields(self, key):
        """all fields incl. bases: list of (name, Ty, declaring class qn, init, tu)"""
        r = self.records.get(key)
        if r is None: return None
        out = []
        for b in r["bases"]:
            sub = self.all_fields(b.key)
            if sub: out += sub
            elif sub is None and b.n in CONTAINERS and b.a: out.append(("<" + b.n + ">", b, r["qn"], None, None))
        for (n, t, init, tu) in r["fields"]: out.append((n, t, r["qn"], init, tu))
        return out
    def bases_of(self, qn):
        """transitive base class qualified names including itself"""
        seen, todo = [], [qn]
        while todo:
            q = todo.pop()
            if q in seen: continue
            seen.append(q)
            for key, r in self.records.items():
                if r["qn"] == q: todo += [b.n for b in r["bases"]]
            todo += self.sysbases.get(q, [])
        return seen

class TU:
    def __init__(self, prog, idx, d):
        self.prog = prog; self.idx = idx; self.types = d["types"]; self.cache = {}; self.name = prog.tus[idx]
    def ty(self, i):
        if i is None or i < 0: return Ty("void")
        t = self.cache.get(i)
        if t is not None: return t
        j = self.types[i]
        t = Ty(j["k"]); self.cache[i] = t
        t.c = j.get("c", 0); t.w = j.get("w", 0); t.s = j.get("s", 0); t.n = j.get("n"); t.rv = j.get("rv", 0); t.ch = j.get("ch", 0)
        if t.k in ("ptr", "ref"): t.to = self.ty(j["to"])
        if t.k == "arr": t.to = self.ty(j["of"]); t.alen = j["n"]
        if t.k == "rec":
            key = j.get("s", "")
            if key.startswith("const "): key = key[6:]
            t.key = key
            t.a = tuple((self.ty(x) if isinstance(x, int) else (int(x["v"]) if x else None)) for x in j.get("a", []))
        return t

def strip(t):
    while t is not None and t.k == "ref": t = t.to
    return t
