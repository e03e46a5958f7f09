"""Frame obligations over the whole program: every function that can write a protected field must be one that was verified
(or inlined into a verified one), a constructor of the class, or listed with a reason.  Syntactic and conservative for
direct writes, non-const method calls, non-const reference bindings and address-of; iterators, references and pointers
obtained from a container in an unverified function are not followed (stated in the evidence)."""
import os, re, glob
from .front import *
from .engine import norm
READONLY = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "size", "empty", "front", "back", "load", "c_str", "data", "count", "lower_bound", "upper_bound", "get", "length", "contains", "operator*", "operator->", "operator bool", "has_value", "value", "str", "key_comp", "native_handle", "capacity"}
READONLY_OPS = {"[]", "*", "->", "==", "!=", "<", ">", "<=", ">=", "+", "()", "-", "<<" }

def sources():
    out = []
    for d in ("libstuff", "sqlitecluster", "plugins", "."):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))): out.append(os.path.relpath(os.path.normpath(f), REPO))
    return out
def mentioning(fields):
    rx = re.compile(r"\b(" + "|".join(sorted({re.escape(f) for _, f in fields})) + r")\b"); out = []
    for s in sources():
        with open(os.path.join(REPO, s), errors="replace") as f:
            if rx.search(f.read()): out.append(s)
    return out

def chain(n, out):
    """member accesses on the path of an lvalue expression"""
    while isinstance(n, dict):
        k = n["k"]
        if k == "Mem": out.append(n); n = n["b"]
        elif k == "Sub": n = n["a"]
        elif k in ("Cast", "Mat"): n = n["e"]
        elif k == "OpCall" and n.get("op") in ("[]", "*", "->", "=") and n.get("a"): n = n["a"][0]
        elif k == "MCall" and n.get("fn", "").split("::")[-1] in ("at", "front", "back", "operator[]", "value", "get"): n = n.get("o") or n.get("b")
        elif k == "Un" and n["op"] in ("*", "++", "--"): n = n["a"]
        elif k == "Cond": chain(n["a"], out); n = n["b"]
        else: return out
    return out

class Scan:
    def __init__(self, prog, fields): self.prog = prog; self.want = {}; self.hits = {f: {} for f in fields}; self.fields = set(fields)
    def mark(self, n, fn, tu):
        for m in chain(n, []):
            f = (m["cls"], m["n"])
            if f in self.fields: self.hits[f].setdefault(fn.n, "%s:%s" % (fn.loc.rsplit(":", 1)[0] if ":" in fn.loc else fn.loc, m.get("l", "?")))
    def nonconst_ref(self, tu, ti):
        t = tu.ty(ti); return t.k == "ref" and not t.to.c
    def walk(self, n, fn, tu):
        if isinstance(n, list):
            for x in n: self.walk(x, fn, tu)
            return
        if not isinstance(n, dict): return
        k = n.get("k")
        if k in ("Log", "Fatal"): return
        if k == "Bin" and n["op"] == "=": self.mark(n["a"], fn, tu)
        elif k == "CAssign": self.mark(n["a"], fn, tu)
        elif k == "Un" and n["op"] in ("++", "--", "&"): 
            self.mark(n["a"], fn, tu)
        elif k == "MCall":
            nm = n.get("fn", "").split("::")[-1]
            o = n.get("o") or n.get("b")
            if not n.get("cst") and nm not in READONLY and o is not None:
                self.mark(o, fn, tu)
        elif k == "OpCall" and n.get("a"):
            if not n.get("cst") and n.get("op") not in READONLY_OPS: self.mark(n["a"][0], fn, tu)
        if k in ("Call", "MCall", "OpCall", "Ctor") and n.get("pt"):
            off = 1 if k == "OpCall" and n.get("meth") else 0
            for t, a in zip(n["pt"], (n.get("a") or [])[off:]):
                ty = tu.ty(t)
                if ty.k == "ref" and not ty.to.c and not ty.rv and isinstance(a, dict): self.mark(a, fn, tu)
                if ty.k == "ref" and ty.rv and isinstance(a, dict) and a.get("k") == "Call" and norm(a.get("fn", "")) in ("std::move", "std::forward"): self.mark(a["a"][0], fn, tu)
        if k == "Var" and "t" in n and n.get("init") is not None:
            ty = tu.ty(n["t"])
            if ty.k == "ref" and not ty.to.c and not ty.rv: self.mark(n["init"], fn, tu)
        if k == "RangeFor":
            v = n.get("v") or {}
            ty = tu.ty(v.get("t", -1))
            if ty.k == "ref" and not ty.to.c: self.mark(n["r"], fn, tu)
        for x in n.values():
            if isinstance(x, (dict, list)): self.walk(x, fn, tu)
def writers(prog, fields):
    s = Scan(prog, fields)
    for fn in prog.fns.values():
        s.walk(fn.b, fn, fn.tu)
    return s.hits
def is_ctor_of(name, cls):
    p = name.split("::"); return len(p) >= 2 and p[-1] == p[-2] and "::".join(p[:-1]) == cls
def check(fields, allowed, ok=None, prog=None):
    """-> (list of offending (field, function, where), report)"""
    fields = [tuple(f) for f in fields]
    if not fields: return [], {}
    prog = prog or Program(mentioning(fields))
    hits = writers(prog, fields); bad = []; rep = {}
    for f, ws in hits.items():
        rep["%s::%s" % f] = sorted(ws)
        for w, where in ws.items():
            if w in allowed or is_ctor_of(w, f[0]) or (ok and w in ok): continue
            bad.append((f, w, where))
    return bad, rep
