"""bedver engine: forward symbolic execution of the exported clang AST with path merging, contracts at calls,
Houdini loop invariants over a spec vocabulary, and SMT obligations.  All loops are cut by invariants (no bound)."""
import z3, re, time, itertools
from .front import Ty, strip, FrontError, CONTAINERS

DEBUG = __import__("os").environ.get("BEDVER_DEBUG")

class Unsupported(Exception): pass
class PathDead(Exception): pass
class CantMerge(Exception): pass

I, B = z3.IntSort(), z3.BoolSort()
Str = z3.DeclareSort("Str")
R = z3.RealSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)

_ctr = itertools.count()
def fresh_name(p): return "%s!%d" % (p, next(_ctr))

# ------------------------------------------------------------------ values
class SV:
    """struct / container value: named components (z3 terms, SVs or python-level values)"""
    __slots__ = ("ty", "f")
    def __init__(self, ty, f): self.ty = ty; self.f = f
    def set(self, n, v):
        if self.f.get(n) is v: return self
        d = dict(self.f); d[n] = v; return SV(self.ty, d)
    def __repr__(self): return "SV(%r,%s)" % (self.ty, list(self.f))
class LV:
    __slots__ = ("kind", "root", "cls", "path", "ty")
    def __init__(self, kind, root, ty, path=(), cls=None): self.kind = kind; self.root = root; self.ty = strip(ty); self.path = path; self.cls = cls
    def ext(self, elem, ty): return LV(self.kind, self.root, ty, self.path + (elem,), self.cls)
    def __repr__(self): return "LV(%s,%s,%s)" % (self.kind, self.root, self.path)
class RefTo:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
class PtrTo:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
class Lam:
    __slots__ = ("node", "tu", "frame", "this", "caps", "env")
    def __init__(self, node, tu, frame, this, caps): self.node = node; self.tu = tu; self.frame = frame; self.this = this; self.caps = caps
class FnPtr:
    def __init__(self, node, tu): self.node = node; self.tu = tu
class It:
    """iterator: seq -> pos Int; map/set -> key term + end Bool"""
    __slots__ = ("kind", "c", "pos", "end", "rev")
    def __init__(self, kind, c, pos, end=None, rev=False): self.kind = kind; self.c = c; self.pos = pos; self.end = end; self.rev = rev
class Guard:
    """lock_guard / unique_lock / shared_lock"""
    __slots__ = ("m", "owned")
    def __init__(self, m, owned): self.m = m; self.owned = owned
class Opaque:
    def __init__(self, why): self.why = why
class Exc:
    def __init__(self, ty, val=None): self.ty = ty; self.val = val
    def __repr__(self): return "Exc(%s)" % self.ty

def lv_eq(a, b):
    if a is b: return True
    if a.kind != b.kind or a.cls != b.cls or len(a.path) != len(b.path): return False
    if a.kind == "sel":
        if not (a.root[0].eq(b.root[0]) and lv_eq(a.root[1], b.root[1]) and lv_eq(a.root[2], b.root[2])): return False
    elif a.kind == "obj":
        if not a.root.eq(b.root): return False
    elif a.root != b.root: return False
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]: return False
        if x[0] == "f":
            if x[1] != y[1]: return False
        elif len(x) > 1 and not x[1].eq(y[1]): return False
    return True

def is_z3(v): return isinstance(v, z3.ExprRef)

def merge_val(c, a, b):
    if a is b: return a
    if is_z3(a) and is_z3(b):
        if a.eq(b): return a
        if a.sort() != b.sort(): raise CantMerge("sorts %s %s" % (a.sort(), b.sort()))
        return z3.If(c, a, b)
    if isinstance(a, SV) and isinstance(b, SV):
        if set(a.f) != set(b.f): raise CantMerge("struct")
        return SV(a.ty, {n: merge_val(c, a.f[n], b.f[n]) for n in a.f})
    if isinstance(a, It) and isinstance(b, It):
        if a.kind == b.kind and lv_eq(a.c, b.c) and a.rev == b.rev: return It(a.kind, a.c, merge_val(c, a.pos, b.pos), merge_val(c, a.end, b.end) if a.end is not None else None, a.rev)
        raise CantMerge("iterators")
    if isinstance(a, Guard) and isinstance(b, Guard):
        if (a.m is None) == (b.m is None) and (a.m is None or lv_eq(a.m, b.m)): return Guard(a.m, merge_val(c, a.owned, b.owned))
        raise CantMerge("guards")
    if isinstance(a, (RefTo, PtrTo)) and type(a) == type(b):
        if lv_eq(a.lv, b.lv): return a
        x, y = a.lv, b.lv
        if x.kind == y.kind == "obj" and x.cls == y.cls and len(x.path) == len(y.path):
            if lv_eq(LV("obj", x.root, x.ty, x.path, x.cls), LV("obj", x.root, x.ty, y.path, x.cls)):
                return type(a)(LV("obj", z3.If(c, x.root, y.root), x.ty, x.path, x.cls))
        return type(a)(LV("sel", (c, x, y), x.ty))
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if isinstance(a, Lam) and isinstance(b, Lam) and a.node is b.node and a.frame == b.frame: return a
    raise CantMerge("%s/%s" % (type(a).__name__, type(b).__name__))

class State:
    __slots__ = ("locals", "heap", "ghost", "pc", "rec")
    def __init__(self): self.locals = {}; self.heap = {}; self.ghost = {}; self.pc = (); self.rec = None
    def copy(self):
        s = State(); s.locals = dict(self.locals); s.heap = dict(self.heap); s.ghost = dict(self.ghost); s.pc = self.pc; s.rec = None if self.rec is None else set(self.rec); return s
    def become(self, o): self.locals = o.locals; self.heap = o.heap; self.ghost = o.ghost; self.pc = o.pc; self.rec = o.rec
    def assume(self, f):
        if z3.is_true(f): return self
        self.pc = self.pc + (f,); return self
    def g(self, n): return self.ghost[n]
    def setg(self, n, v):
        if self.rec is not None: self.rec.add(("ghost", n))
        self.ghost[n] = v

def And_(l):
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l): return F
    return T if not l else (l[0] if len(l) == 1 else z3.And(l))
def Or_(l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l): return T
    return F if not l else (l[0] if len(l) == 1 else z3.Or(l))
def Not_(x):
    if z3.is_true(x): return F
    if z3.is_false(x): return T
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def If_(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if is_z3(a) and is_z3(b) and a.eq(b): return a
    return z3.If(c, a, b)

class Obligation:
    __slots__ = ("name", "loc", "pc", "goal", "axn", "status", "backend", "secs", "model", "fn")
    def __init__(self, name, loc, pc, goal, axn, fn): self.name = name; self.loc = loc; self.pc = pc; self.goal = goal; self.axn = axn; self.status = None; self.backend = None; self.secs = 0; self.model = None; self.fn = fn

NORM_CACHE = {}
def budget(s, ms):
    """solver budget of about ms milliseconds on an idle machine, counted in solver steps so that a loaded machine decides the same"""
    s.set("rlimit", int(ms * 2200)); s.set("timeout", int(ms * 6))
def norm(qn):
    """strip template arguments from a qualified name"""
    r = NORM_CACHE.get(qn)
    if r is not None: return r
    m = re.search(r"(?:^|::)operator(.*)$", qn)
    tail = ""
    s = qn
    # find the last '::operator' at depth 0
    if m:
        idx = None; depth = 0
        for i in range(len(qn)):
            if qn[i] == "<": depth += 1
            elif qn[i] == ">": depth -= 1
            if depth == 0 and qn.startswith("operator", i) and (i == 0 or qn[i - 1] == ":"):
                idx = i; break
        if idx is not None: s = qn[:idx]; tail = qn[idx:]
    out = []; depth = 0
    for ch in s:
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif depth == 0: out.append(ch)
    if tail.startswith("operator") and "<" in tail and not re.match(r"operator\s*(<|<<|<=|<=>|<<=|->|>|>>|>=|>>=)$", tail): tail = re.sub(r"<.*>$", "", tail)
    r = "".join(out) + tail
    r = r.replace("std::__cxx11::", "std::")
    NORM_CACHE[qn] = r
    return r

SEQ = {"std::vector", "std::list", "std::deque", "std::initializer_list", "std::array", "std::queue", "std::multimap", "std::stack"}
MAPS = {"std::map", "std::unordered_map"}
SETS = {"std::set", "std::unordered_set", "std::multiset"}
MUTEX = {"std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::recursive_timed_mutex", "std::shared_mutex", "std::shared_timed_mutex"}
SMART = {"std::unique_ptr", "std::shared_ptr", "std::weak_ptr"}
STRS = {"std::basic_string", "std::string", "SString", "std::basic_string_view"}
ITS = {"__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator", "std::_Deque_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator"}
GUARDS = {"std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"}
ATOMIC = {"std::atomic", "std::__atomic_base", "std::atomic_bool", "std::atomic_flag"}

def base_term(t):
    """an unknown, or an element of an unknown container: not computed by the program"""
    while z3.is_app(t) and (z3.is_select(t) or z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED)):
        if not z3.is_select(t): return True
        t = t.arg(0)
    return False
class Engine:
    def __init__(self, prog, spec=None, lib=None):
        from . import lib as L
        self.prog = prog; self.lib = L
        self.axioms = []; self.ax_seen = set()
        self.obls = []; self.dry = 0
        self.heap0 = {}; self.heap_ty = {}
        self.lits = {}
        self.iter_fields = {}     # "Class.field" holding a list iterator -> the list it points into
        self.mm_track = set()     # leaf names of multimap values whose (key, leaf) multiset is tracked as a ghost count
        self.contracts = {}       # qn -> callable(eng, st, this, args, call)
        self.pure_unknown = True
        self.assumed = set()      # unmodelled functions etc.
        self.inlined = set()
        self.frame_ctr = itertools.count(1)
        self.exits = []
        self.fstack = []
        self.local_ty = {}
        self.vocab = []           # loop vocabulary
        self.on_lock = {}         # heap key of mutex -> fn(eng, st, lv)
        self.field_bool_hooks = {}
        self.cnt_funcs = {}
        self.max_inline = 30
        self.cur_fn = None
        self.solver_timeout = 4000; self.prune_ms = 800
        self.prune = True
        self.guarded = {"_crashCommands": "_crashCommandMutex", "_commandPortBlockReasons": "_portMutex", "_replicateQueue": "_replicateMutex"}  # shared data -> the lock every use of it needs
        self.overrides = {}       # method name -> dispatch for virtual calls
        self.loop_log = []; self.on_drop = None
        self.noinline = set()
        self.global_vals = {}
        self.nullcheck = False
        self.deadline = None
        self.side_obls = False    # generate index-in-range side obligations
        self.nsolver = 0; self.tsolver = 0.0
        self.at_terms = {}
        self.lits_done = 0; self.wrapped = {}; self.psolver = None; self.psolver_n = 0
    # ---------------------------------------------------------------- axioms
    def axiom(self, f):
        if z3.is_true(f): return
        k = f.get_id()
        if k in self.ax_seen: return
        self.ax_seen.add(k); self.axioms.append(f)
    def lit(self, s):
        if isinstance(s, bytes): s = s.decode("latin-1")
        if s not in self.lits: self.lits[s] = z3.Const("lit%d_%s" % (len(self.lits), re.sub(r"[^A-Za-z0-9_]", "_", s)[:24]), Str)
        return self.lits[s]
    def lit_of(self, t):
        for s, c in self.lits.items():
            if c.eq(t): return s
        return None
    def range_axiom(self, t, ty):
        if not is_z3(t) or z3.is_int_value(t): return t
        if ty.k == "int" and t.sort() == I:
            lo, hi = self.range(ty); self.fact(t, z3.And(t >= lo, t <= hi))
        elif ty.k == "enum" and t.sort() == I:
            vals = self.prog.enums.get(ty.n)
            if vals:
                vs = sorted(set(vals.values()))
                if vs == list(range(vs[0], vs[-1] + 1)): self.fact(t, z3.And(t >= vs[0], t <= vs[-1]))
        elif ty.k == "ptr" or (ty.k == "rec" and ty.n in SMART):
            if t.sort() == I: self.fact(t, t >= 0)
        return t
    def range(self, ty):
        w = ty.w or 32
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty.s else (0, (1 << w) - 1)
    def wrap(self, t, ty):
        """value of mathematical term t converted to integer type ty (modular)"""
        if ty.k == "bool": return t if z3.is_bool(t) else t != 0
        if ty.k not in ("int", "enum"): return t
        if ty.k == "enum" and not ty.w: return t
        lo, hi = self.range(ty)
        t = z3.simplify(t) if z3.is_int_value(t) or t.num_args() and all(z3.is_int_value(c) for c in t.children()) else t
        if z3.is_int_value(t):
            v = t.as_long(); m = 1 << ty.w; v %= m
            if ty.s and v >= m // 2: v -= m
            return z3.IntVal(v)
        m = 1 << ty.w
        r = z3.If(z3.And(t >= lo, t <= hi), t, (t + m // 2) % m - m // 2) if ty.s else z3.If(z3.And(t >= 0, t <= hi), t, t % m)
        if ty.w == 64: self.wrapped[r.get_id()] = r
        return r
    # ---------------------------------------------------------------- shapes
    def leaf_sort(self, ty):
        """z3 sort of a scalar-shaped type or None"""
        k = ty.k
        if k == "bool": return B
        if k in ("int", "enum", "ptr", "nullptr"): return I
        if k == "float": return R
        if k == "rec":
            n = ty.n
            if n in STRS: return Str
            if n == "std::reference_wrapper": return self.leaf_sort(strip(ty.a[0]))
            if n in SMART or n == "std::function" or n == "std::thread" or n.startswith("std::chrono::duration") or n.startswith("std::chrono::time_point") or n in ("std::exception_ptr",): return I
        if k == "other": return I
        return None
    def shape(self, ty, depth=0):
        """('leaf', sort, ty) or ('sv', ty, {name: shape})"""
        ty = strip(ty) if ty.k == "ref" else ty
        s = self.leaf_sort(ty)
        if s is not None: return ("leaf", s, ty)
        if depth > 6: return ("leaf", I, ty)
        if ty.k == "arr": return ("sv", ty, {"el": self.lift_shape(self.shape(ty.to, depth + 1), I)})
        if ty.k == "rec":
            n = ty.n
            if n == "std::reference_wrapper": return self.shape(strip(ty.a[0]), depth + 1)
            if n == "std::multimap":
                pair = ("sv", ty, {"first": self.shape(ty.a[0], depth + 1), "second": self.shape(ty.a[1], depth + 1)})
                d = {"len": ("leaf", I, None), "el": self.lift_shape(pair, I)}
                if self.mm_track and self.lib.mm_leaf(self, pair) is not None: d["cnt"] = ("leaf", z3.ArraySort(I, z3.ArraySort(I, I)), None)
                return ("sv", ty, d)
            if n in SEQ: 
                if n == "std::array": return ("sv", ty, {"el": self.lift_shape(self.shape(ty.a[0], depth + 1), I), "len": ("leaf", I, None)})
                return ("sv", ty, {"len": ("leaf", I, None), "el": self.lift_shape(self.shape(ty.a[0], depth + 1), I)})
            if n in MAPS:
                ks = self.leaf_sort(ty.a[0])
                if ks is None: return ("leaf", I, ty)
                return ("sv", ty, {"has": ("leaf", z3.ArraySort(ks, B), None), "val": self.lift_shape(self.shape(ty.a[1], depth + 1), ks), "n": ("leaf", I, None)})
            if n in SETS:
                ks = self.leaf_sort(ty.a[0])
                if ks is None: return ("sv", ty, {"len": ("leaf", I, None), "el": self.lift_shape(self.shape(ty.a[0], depth + 1), I)}) if n == "std::set" else ("leaf", I, ty)
                d = {"has": ("leaf", z3.ArraySort(ks, B), None), "n": ("leaf", I, None)}
                if n == "std::multiset": d["cnt"] = ("leaf", z3.ArraySort(ks, I), None)
                return ("sv", ty, d)
            if n == "std::pair": return ("sv", ty, {"first": self.shape(ty.a[0], depth + 1), "second": self.shape(ty.a[1], depth + 1)})
            if n == "std::tuple": return ("sv", ty, {"_%d" % i: self.shape(a, depth + 1) for i, a in enumerate(ty.a)})
            if n == "std::optional": return ("sv", ty, {"has": ("leaf", B, None), "v": self.shape(ty.a[0], depth + 1)})
            if n in ATOMIC: return ("sv", ty, {"v": self.shape(ty.a[0], depth + 1) if ty.a else ("leaf", B, Ty("bool"))})
            if n in MUTEX: return ("sv", ty, {"h": ("leaf", I, None)})
            if n in ("std::basic_ostringstream", "std::basic_stringstream"): return ("sv", ty, {"s": ("leaf", Str, None)})
            fs = self.prog.all_fields(ty.key)
            if fs is not None and not (self.prog.records[ty.key].get("union")):
                return ("sv", ty, {f[0]: (self.shape(f[1], depth + 1) if f[1].k != "ref" else ("leaf", I, f[1])) for f in fs})
            return ("leaf", I, ty)
        return ("leaf", I, ty)
    def lift_shape(self, sh, ks):
        if sh[0] == "leaf": return ("leaf", z3.ArraySort(ks, sh[1]), None)
        return ("sv", sh[1], {n: self.lift_shape(s, ks) for n, s in sh[2].items()})
    def mk(self, sh, name):
        if sh[0] == "leaf":
            c = z3.Const(name, sh[1])
            if sh[2] is not None: self.range_axiom(c, sh[2])
            return c
        v = SV(sh[1], {n: self.mk(s, name + "." + n) for n, s in sh[2].items()})
        self.sv_axioms(v); return v
    def fresh(self, ty, name="v"): return self.mk(self.shape(ty), fresh_name(name))
    def sv_axioms(self, v):
        if isinstance(v, SV):
            for n in ("len", "n"):
                t = v.f.get(n)
                if t is not None and is_z3(t) and t.sort() == I and not z3.is_int_value(t) and v.ty is not None and v.ty.k == "rec" and (v.ty.n in SEQ or v.ty.n in MAPS or v.ty.n in SETS):
                    self.fact(t, z3.And(t >= 0, t < (1 << 62)))
                    if v.ty.n == "std::array": self.fact(t, t == v.ty.a[1])
    def map_leaves(self, v, fn, path=()):
        if is_z3(v): return fn(v, path)
        if isinstance(v, SV): return SV(v.ty, {n: self.map_leaves(x, fn, path + (n,)) for n, x in v.f.items()})
        return v
    def select(self, tree, idx): return self.map_leaves(tree, lambda t, p: z3.simplify(z3.Select(t, idx)) if z3.is_store(t) or z3.is_K(t) else z3.Select(t, idx))
    def store(self, tree, idx, val):
        if is_z3(tree):
            if not is_z3(val): 
                return z3.Store(tree, idx, self.opaque_leaf(tree.sort().range(), val))
            if val.sort() != tree.sort().range():
                raise Unsupported("store sort %s into %s" % (val.sort(), tree.sort()))
            return z3.Store(tree, idx, val)
        if isinstance(tree, SV):
            if not isinstance(val, SV): raise Unsupported("store of %s" % type(val).__name__)
            return SV(tree.ty, {n: self.store(x, idx, val.f[n]) for n, x in tree.f.items()})
        return tree
    def opaque_leaf(self, sort, val):
        if isinstance(val, PtrTo) and sort == I:
            lv = val.lv
            if lv.kind == "obj" and self.whole(lv): return lv.root
            c = z3.Const(fresh_name("addr"), I); self.axiom(c > 0); return c
        return z3.Const(fresh_name("opq"), sort)
    def default(self, ty, depth=0):
        """value-initialised object"""
        ty = strip(ty)
        s = self.leaf_sort(ty)
        if s is not None:
            if s == B: return F
            if s == I: return z3.IntVal(0)
            if s == Str: return self.lit("")
            return z3.RealVal(0)
        if ty.k == "rec":
            n = ty.n
            if n in GUARDS: return Guard(None, F)
            if n in SEQ:
                v = self.fresh(ty, "empty")
                if "cnt" in v.f: v = v.set("cnt", z3.K(I, z3.K(I, z3.IntVal(0))))
                return v.set("len", z3.IntVal(ty.a[1] if n == "std::array" else 0))
            if n in MAPS or n in SETS:
                sh = self.shape(ty)
                if sh[0] == "leaf": return z3.IntVal(0)
                v = self.fresh(ty, "emptymap")
                if "len" in sh[2]: return v.set("len", z3.IntVal(0))
                ks = sh[2]["has"][1].domain()
                if "cnt" in sh[2]: v = v.set("cnt", z3.K(ks, z3.IntVal(0)))
                return v.set("has", z3.K(ks, F)).set("n", z3.IntVal(0))
            if n == "std::pair": return SV(ty, {"first": self.default(ty.a[0]), "second": self.default(ty.a[1])})
            if n == "std::tuple": return SV(ty, {"_%d" % i: self.default(a) for i, a in enumerate(ty.a)})
            if n == "std::optional": return SV(ty, {"has": F, "v": self.fresh(ty.a[0], "none")})
            if n in ATOMIC: return SV(ty, {"v": self.default(ty.a[0]) if ty.a else F})
            if n in MUTEX: return SV(ty, {"h": z3.IntVal(0)})
            if n in ("std::basic_ostringstream", "std::basic_stringstream"): return SV(ty, {"s": self.lit("")})
            fs = self.prog.all_fields(ty.key)
            if fs is not None:
                d = {}
                for f in fs:
                    if f[1].k == "ref": d[f[0]] = z3.IntVal(0)
                    elif f[3] is not None and f[3].get("k") in ("Int", "Bool", "Cast", "Un"): d[f[0]] = self.const_init(f[3], f[1], f[4])
                    else: d[f[0]] = self.default(f[1], depth + 1)
                return SV(ty, d)
        return self.fresh(ty, "dflt")
    def const_init(self, node, ty, tu):
        st = State(); self.exits.append([]); self.fstack.append((0, tu, None, None))
        try: v = self.rv(self.ev(node, st), st)
        finally: self.exits.pop(); self.fstack.pop()
        return v
    # ---------------------------------------------------------------- memory
    def whole(self, lv): return not lv.path or (len(lv.path) == 1 and lv.path[0][0] == "f" and lv.path[0][1] == "*")
    def hkey(self, cls, name): return cls + "." + name
    def heap_get(self, st, key, sh):
        """heap key -> tree of arrays indexed by object address"""
        t = st.heap.get(key)
        if t is None:
            t = self.heap0.get(key)
            if t is None:
                t = self.mk(self.lift_shape(sh, I), "H0_" + key); self.heap0[key] = t; self.heap_ty[key] = sh
            st.heap[key] = t
        return t
    def heap_set(self, st, key, tree, at=None):
        if st.rec is not None:
            if at is None: st.rec.add(("heap", key))
            else: self.at_terms[at.get_id()] = at; st.rec.add(("heapat", key, at.get_id()))
        st.heap[key] = tree
    def preexisting(self, t, n0):
        """the term mentions no symbol created after counter value n0 (so it is loop-invariant)"""
        todo = [t]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if any(int(g) >= n0 for g in re.findall(r"!(\d+)", x.decl().name())): return False
            todo += x.children()
        return True
    def field_shape(self, fty): return self.shape(fty) if fty.k != "ref" else ("leaf", I, fty)
    def obj_fields(self, ty):
        fs = self.prog.all_fields(ty.key)
        return fs
    def read(self, st, lv):
        v = self.read_raw(st, lv)
        # a fact about a base term holds everywhere; one about a computed term (a size after an erase) only on this path
        self.fact_st = st
        try:
            if is_z3(v): self.range_axiom(v, lv.ty)
            elif isinstance(v, SV): self.sv_axioms(v)
        finally: self.fact_st = None
        return v
    fact_st = None
    def fact(self, t, f):
        if self.fact_st is None or base_term(t): self.axiom(f); return
        if t.get_id() in self.wrapped: return
        f = z3.simplify(f)
        if not z3.is_true(f) and not any(f.eq(x) for x in self.fact_st.pc[-12:]): self.fact_st.assume(f)
    def getloc(self, st, k):
        v = st.locals.get(k)
        if v is None:
            if k[0] == "g" and k[1] in self.global_vals: v = st.locals[k] = self.global_vals[k[1]]
            else: raise Unsupported("unknown local %r" % (k,))
        return v
    def read_raw(self, st, lv):
        if lv.kind == "loc":
            v = self.getloc(st, lv.root)
            if isinstance(v, RefTo): return self.read_raw(st, LV(v.lv.kind, v.lv.root, lv.ty, v.lv.path + lv.path, v.lv.cls))
            path = lv.path
        elif lv.kind == "tmp": v = lv.root; path = lv.path
        elif lv.kind == "sel":
            c, x, y = lv.root
            return merge_val(c, self.read_raw(st, LV(x.kind, x.root, lv.ty, x.path + lv.path, x.cls)), self.read_raw(st, LV(y.kind, y.root, lv.ty, y.path + lv.path, y.cls)))
        elif lv.kind == "obj":
            if not lv.path:
                fs = self.obj_fields(lv.ty) if lv.ty.k == "rec" else None
                if fs is None:
                    sh = self.shape(lv.ty); key = "*" + repr(lv.ty).replace("const ", "")
                    return self.select(self.heap_get(st, key, sh), lv.root)
                return SV(lv.ty, {f[0]: self.read(st, LV("obj", lv.root, f[1], (("f", f[0], f[2], f[1]),), lv.cls)) if f[1].k != "ref" else self.select(self.heap_get(st, self.hkey(f[2], f[0]), ("leaf", I, f[1])), lv.root) for f in fs})
            p = lv.path[0]
            if p[0] != "f":
                sh = self.shape(Ty_container(lv)); raise Unsupported("container object by pointer")
            key = self.hkey(p[2], p[1])
            v = self.select(self.heap_get(st, key, self.field_shape(p[3])), lv.root)
            path = lv.path[1:]
            if key in self.iter_fields and not path:   # a stored list iterator: its position, -1 for end()
                c = self.iter_fields[key](self, st, lv); n = self.lib.seq_len(self, self.read(st, c), strip(c.ty)); return It("seq", c, z3.If(v < 0, n, v))
        else: raise Unsupported("read " + lv.kind)
        for p in path:
            if isinstance(v, RefTo): v = self.read_raw(st, v.lv)
            v = self.proj(v, p)
        return v
    def proj(self, v, p):
        if p[0] == "f":
            if not isinstance(v, SV) or p[1] not in v.f: 
                if is_z3(v): # opaque struct: uninterpreted projection
                    fty = p[3]; s = self.leaf_sort(fty) if fty is not None else I
                    if s is None: return self.fresh(fty, "proj")
                    return z3.Function("proj_" + p[1] + "_" + str(s), v.sort(), s)(v)
                raise Unsupported("project %s from %s" % (p[1], type(v).__name__ + (str(list(v.f)) if isinstance(v, SV) else "")))
            r = v.f[p[1]]
            return r
        if not isinstance(v, SV): raise Unsupported("index into %s" % type(v).__name__)
        if p[0] == "i": return self.select(v.f["el"], p[1])
        if p[0] == "k": return self.select(v.f["val"], p[1])
        raise Unsupported("proj")
    def upd(self, v, path, new):
        if not path: return new
        p = path[0]
        if not isinstance(v, SV): raise Unsupported("update in %s" % type(v).__name__)
        if p[0] == "f": 
            if p[1] not in v.f: raise Unsupported("update field " + p[1])
            return v.set(p[1], self.upd(v.f[p[1]], path[1:], new))
        if p[0] == "i":
            nv = v.set("el", self.store(v.f["el"], p[1], self.upd(self.select(v.f["el"], p[1]), path[1:], new)))
            if "cnt" in v.f and not (len(path) >= 3 and path[1][1] == "second" and path[2][1] not in self.mm_track): nv = nv.set("cnt", z3.Const(fresh_name("mmcnt"), v.f["cnt"].sort()))
            return nv
        if p[0] == "k": return v.set("val", self.store(v.f["val"], p[1], self.upd(self.select(v.f["val"], p[1]), path[1:], new)))
        raise Unsupported("upd")
    def coerce(self, sh_or_val, val):
        return val
    def write(self, st, lv, val):
        if isinstance(val, LV): val = self.read(st, val)
        if lv.kind == "loc":
            cur = self.getloc(st, lv.root) if lv.path else st.locals.get(lv.root)
            if isinstance(cur, RefTo): return self.write(st, LV(cur.lv.kind, cur.lv.root, lv.ty, cur.lv.path + lv.path, cur.lv.cls), val)
            if st.rec is not None: st.rec.add(("loc", lv.root))
            st.locals[lv.root] = val if not lv.path else self.upd(cur, lv.path, val)
        elif lv.kind == "tmp": pass
        elif lv.kind == "sel":
            c, x, y = lv.root
            for cc, z in ((c, x), (Not_(c), y)):
                z = LV(z.kind, z.root, lv.ty, z.path + lv.path, z.cls); self.write(st, z, merge_val(cc, val, self.read_raw(st, z)))
        elif lv.kind == "obj":
            if not lv.path:
                fs = self.obj_fields(lv.ty) if lv.ty.k == "rec" else None
                if fs is None:
                    sh = self.shape(lv.ty); key = "*" + repr(lv.ty).replace("const ", "")
                    return self.heap_set(st, key, self.store(self.heap_get(st, key, sh), lv.root, val), lv.root)
                if not isinstance(val, SV): raise Unsupported("whole-object write")
                for f in fs: self.write(st, LV("obj", lv.root, f[1], (("f", f[0], f[2], f[1]),), lv.cls), val.f[f[0]])
                return
            p = lv.path[0]
            if p[0] != "f": raise Unsupported("container object by pointer")
            key = self.hkey(p[2], p[1]); tree = self.heap_get(st, key, self.field_shape(p[3]))
            if len(lv.path) == 1 and isinstance(val, It) and key in self.iter_fields: nv = z3.If(val.pos == self.lib.seq_len(self, self.read(st, val.c), strip(val.c.ty)), z3.IntVal(-1), val.pos)
            elif len(lv.path) == 1: nv = val
            else: nv = self.upd(self.select(tree, lv.root), lv.path[1:], val)
            self.heap_set(st, key, self.store(tree, lv.root, nv), lv.root)
        else: raise Unsupported("write " + lv.kind)
    def new_tmp(self, st, val, ty):
        """materialise a temporary"""
        k = ("tmp", next(_ctr)); st.locals[k] = val; self.local_ty[k] = strip(ty)
        return LV("loc", k, strip(ty))
    def obj(self, addr, ty): return LV("obj", addr, ty, (), ty.n)
    def fld(self, objlv, name):
        """lvalue of a named field of the object lvalue"""
        ty = objlv.ty
        fs = self.obj_fields(ty)
        if fs is None: raise FrontError("no record " + repr(ty))
        for f in fs:
            if f[0] == name:
                lv = objlv.ext(("f", f[0], f[2], f[1]), f[1])
                return lv
        raise FrontError("no field %s in %r" % (name, ty))
    def deref_field_ref(self, st, lv, fty):
        """field of reference type: follow it"""
        v = self.read_raw(st, lv)
        if isinstance(v, RefTo): return v.lv
        if is_z3(v): return self.objlv(v, fty.to)
        raise Unsupported("reference field")
    def objlv(self, addr, ty):
        """lvalue of the object of type ty at an address; containers live in a pseudo field"""
        ty = strip(ty)
        if ty.k == "rec" and self.leaf_sort(ty) is None and self.obj_fields(ty) is None: return LV("obj", addr, ty, (("f", "*", "*" + repr(ty).replace("const ", ""), ty),), ty.n)
        return LV("obj", addr, ty, (), ty.n)
    # ---------------------------------------------------------------- merge
    def merge_states(self, items):
        """items: list of (State, payload) -> smaller list"""
        items = list(items)
        if len(items) <= 1: return items
        out = [items[0]]
        for s, p in items[1:]:
            done = False
            for i, (s0, p0) in enumerate(out):
                try: out[i] = self.merge2(s0, p0, s, p); done = True; break
                except CantMerge as e: self.last_cantmerge = str(e)
            if not done: out.append((s, p))
        return out
    def merge2(self, a, pa, b, pb):
        n = 0
        la, lb = a.pc, b.pc
        while n < len(la) and n < len(lb) and (la[n] is lb[n] or la[n].eq(lb[n])): n += 1
        ra, rb = list(la[n:]), list(lb[n:])
        c = None
        negs = {Not_(y).get_id(): y for y in rb}
        for x in ra:
            y = negs.get(x.get_id())
            if y is not None: c = x; break
        if c is not None: ra = [z for z in ra if z is not x]; rb = [z for z in rb if z is not y]
        elif len(ra) == 1 and len(rb) == 0: c = ra[0]; ra = []; 
        elif len(rb) == 1 and len(ra) == 0: c = Not_(rb[0]); rb = []
        else: c = z3.Const(fresh_name("path"), B)
        ca, cb = And_(ra), And_(rb)
        st = State(); st.rec = None if a.rec is None and b.rec is None else (a.rec or set()) | (b.rec or set())
        keys = [k for k in a.locals if k in b.locals]
        for x, y in ((a, b), (b, a)):
            for k in x.locals:
                if k not in y.locals and isinstance(k, tuple) and k[0] == "g" and k[1] in self.global_vals: y.locals[k] = self.global_vals[k[1]]; keys.append(k)
        for k in keys:
            va, vb = a.locals[k], b.locals[k]
            if va is vb: st.locals[k] = va
            else:
                try: st.locals[k] = merge_val(c, va, vb)
                except CantMerge:
                    if isinstance(k, tuple) and k[0] == "tmp": continue
                    raise
        for k in set(a.heap) | set(b.heap):
            va = a.heap.get(k); vb = b.heap.get(k)
            if va is None: va = self.heap0[k]
            if vb is None: vb = self.heap0[k]
            st.heap[k] = merge_val(c, va, vb)
        for k in set(a.ghost) | set(b.ghost): st.ghost[k] = merge_val(c, a.ghost[k], b.ghost[k])
        if pa is None and pb is None: p = None
        elif pa is pb: p = pa
        elif isinstance(pa, Exc):
            if not isinstance(pb, Exc) or pa.ty != pb.ty: raise CantMerge("exc")
            p = pa if pa.val is pb.val else (Exc(pa.ty, None) if pa.val is None and pb.val is None else Exc(pa.ty, merge_val(c, pa.val if pa.val is not None else self.fresh(pb.val.ty, 'exc'), pb.val if pb.val is not None else self.fresh(pa.val.ty, 'exc'))) if pa.val is None or pb.val is None else Exc(pa.ty, merge_val(c, pa.val, pb.val)))
        else: 
            if pa is None or pb is None: raise CantMerge("payload")
            if isinstance(pa, LV) and isinstance(pb, LV):
                r = merge_val(c, RefTo(pa), RefTo(pb)); p = r.lv
            else: p = merge_val(c, pa, pb)
        st.pc = la[:n] + (() if z3.is_true(ca) else (z3.Implies(c, ca),)) + (() if z3.is_true(cb) else (z3.Implies(Not_(c), cb),))
        return st, p
    # ---------------------------------------------------------------- solving
    def solver(self, timeout=None):
        s = z3.Solver(); budget(s, timeout or self.solver_timeout); s.set("smt.mbqi", False); return s
    def base_facts(self, axn=None):
        self.lit_axioms()
        return list(self.axioms) if axn is None else self.axioms[:axn]
    def lit_axioms(self):
        """literal strings are pairwise different and have known length / numeric value"""
        done = self.lits_done
        items = list(self.lits.items())
        num = z3.Function("lit_number", Str, I)
        for k in range(done, len(items)):
            s, c = items[k]
            self.axiom(num(c) == k)
            for a in self.lib.lit_facts(self, s, c): self.axiom(a)
        self.lits_done = len(items)
    def check(self, fs, timeout=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported("deadline")
        t0 = time.time(); self.lit_axioms()
        if self.psolver is None: self.psolver = z3.Solver(); self.psolver.set("smt.mbqi", False); self.psolver_n = 0
        s = self.psolver; budget(s, timeout or self.solver_timeout)
        if self.psolver_n < len(self.axioms): s.add(*self.axioms[self.psolver_n:]); self.psolver_n = len(self.axioms)
        s.push(); s.add(*fs)
        r = s.check(); s.pop(); self.nsolver += 1; self.tsolver += time.time() - t0
        return r
    def valid(self, st, goal, timeout=None):
        return self.check(list(st.pc) + [z3.Not(goal)], timeout) == z3.unsat
    def infeasible(self, st, timeout=None):
        if any(z3.is_false(f) for f in st.pc): return True
        return self.check(list(st.pc), timeout or self.prune_ms) == z3.unsat
    def is_a(self, addr, cls): return z3.Function("is_a!" + cls.split("::")[-1], I, B)(addr)
    def prove(self, st, goal, name, loc=None):
        if self.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obls.append(Obligation(name, loc or self.where(), tuple(st.pc), goal, len(self.axioms), self.cur_fn))
    def where(self):
        for fr in reversed(self.fstack):
            if fr[3] is not None: return "%s (%s)" % (fr[3].n, fr[3].loc)
        return "?"
    # ---------------------------------------------------------------- exceptions
    def raise_(self, st, cond, exc):
        """fork an exceptional exit under cond"""
        if z3.is_false(cond): return
        s2 = st.copy(); s2.assume(cond)
        self.exits[-1].append(("throw", s2, exc))
        if z3.is_true(cond): raise PathDead()
        st.assume(Not_(cond))
    # ---------------------------------------------------------------- expressions
    @property
    def tu(self): return self.fstack[-1][1]
    @property
    def frame(self): return self.fstack[-1][0]
    def lid(self, did): return (self.frame, did)
    def ty(self, node): return self.tu.ty(node.get("t", -1))
    def rv(self, v, st):
        if isinstance(v, LV): v = self.read(st, v)
        return self.read(st, v.lv) if isinstance(v, RefTo) else v
    def evr(self, node, st): return self.rv(self.ev(node, st), st)
    def tobool(self, v):
        if isinstance(v, PtrTo): return T
        if isinstance(v, (Lam, FnPtr)): return T
        if not is_z3(v): raise Unsupported("bool of %s" % type(v).__name__)
        if v.sort() == B: return v
        if v.sort() == I: return z3.simplify(v != 0) if z3.is_int_value(v) else v != 0
        if v.sort() == R: return v != 0
        if v.sort() == Str: return T   # char* literal
        raise Unsupported("bool of " + str(v.sort()))
    def toint(self, v):
        if is_z3(v) and v.sort() == B: return If_(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def evb(self, node, st): return self.tobool(self.evr(node, st))
    def ev(self, node, st):
        k = node["k"]
        m = getattr(self, "ev_" + k, None)
        if m is None: raise Unsupported("expr %s %s line %s" % (k, node.get("n"), node.get("l")))
        return m(node, st)
    def ev_Unsupported(self, n, st): raise Unsupported("expr " + str(n.get("n")) + " line " + str(n.get("l")))
    def ev_Int(self, n, st):
        v = int(n["v"]); ty = self.ty(n)
        if ty.k == "bool": return z3.BoolVal(v != 0)
        return z3.IntVal(v)
    def ev_Bool(self, n, st): return z3.BoolVal(bool(n["v"]))
    def ev_Float(self, n, st): return z3.RealVal(repr(n["v"]))
    def ev_Str(self, n, st): return self.lit(bytes.fromhex(n["v"]))
    def ev_Null(self, n, st): return z3.IntVal(0)
    def ev_Zero(self, n, st): return self.default(self.ty(n))
    def ev_UDL(self, n, st):
        fn = norm(n.get("fn", ""))
        if "raw" in n:
            try: return z3.IntVal(int(n["raw"].replace("'", ""), 0))
            except ValueError: return self.fresh(self.ty(n), "udl")
        if n["a"]: return self.evr(n["a"][0], st)
        raise Unsupported("UDL " + fn)
    def ev_This(self, n, st):
        this = self.fstack[-1][2]
        if this is None: raise Unsupported("this")
        return PtrTo(this)
    def ev_Mat(self, n, st):
        v = self.ev(n["e"], st)
        if isinstance(v, LV): return v
        return self.new_tmp(st, v, self.ty(n))
    def ev_FnRef(self, n, st): return FnPtr(n, self.tu)
    def ev_MemFn(self, n, st): return FnPtr(n, self.tu)
    def ev_Typeid(self, n, st): return z3.IntVal(0)
    def ev_Ref(self, n, st):
        ty = self.ty(n)
        if "g" in n or n.get("static"):
            return self.global_lv(n, st, ty)
        fr = self.fstack[-1]
        k = (fr[0], n["id"])
        if k not in st.locals:
            # captured variable of an enclosing frame
            caps = fr[4] if len(fr) > 4 else None
            if caps is not None and n["id"] in caps: k = caps[n["id"]]
            if isinstance(k, LV): return k
            if k not in st.locals: raise Unsupported("unbound local " + n["n"])
        v = st.locals[k]
        if isinstance(v, RefTo): return LV(v.lv.kind, v.lv.root, v.lv.ty, v.lv.path, v.lv.cls)
        return LV("loc", k, ty)
    def global_lv(self, n, st, ty):
        name = n.get("g") or ("static:" + n["n"] + ":%d" % n["id"])
        k = ("g", name)
        if k not in st.locals:
            v = self.global_vals.get(name)
            if v is None:
                g = self.prog.globals.get(name); v = None
                if g is not None and g["init"] is not None and (g["t"].c or g["t"].k == "rec" and g["t"].c):
                    self.exits.append([])
                    self.fstack.append((0, g["tu"], None, None))
                    try: v = self.rv(self.ev(g["init"], st), st); v = self.conv(v, g["t"])
                    except (Unsupported, PathDead): v = None
                    finally: self.exits.pop(); self.fstack.pop()
                if v is None: v = self.mk(self.shape(ty), "G_" + name)
                self.global_vals[name] = v
            st.locals[k] = v
        self.local_ty[k] = strip(ty)
        v = st.locals[k]
        if isinstance(v, RefTo): return v.lv
        return LV("loc", k, ty)
    def conv(self, v, ty):
        """array/brace values into containers"""
        return v
    def deref(self, v, st, ty):
        """pointer value -> lvalue"""
        if isinstance(v, PtrTo): return v.lv
        if isinstance(v, It): return self.lib.it_deref(self, st, v)
        if is_z3(v) and v.sort() == I: return self.objlv(v, ty)
        if is_z3(v) and v.sort() == Str: return LV("tmp", z3.Function("str_first", Str, I)(v), ty)
        raise Unsupported("deref %s" % type(v).__name__)
    def ev_Mem(self, n, st):
        b = n["b"]
        m = self.guarded.get(n["n"])
        if m is not None and "held:" + m in st.ghost and not self.dry:
            h = z3.simplify(st.g("held:" + m) > 0)
            if not z3.is_true(h): self.prove(st, h, "%s is used only under its lock" % n["n"].lstrip("_"))
        if n.get("arrow"):
            p = self.evr(b, st); pty = self.ty(b); base = self.deref(p, st, strip(pty).to if strip(pty).k == "ptr" else pty)
        else:
            base = self.ev(b, st)
        if not isinstance(base, LV): base = LV("tmp", base, self.ty(b))
        if base.kind == "tmp" and base.path == () and isinstance(base.root, SV) and n["n"] in base.root.f and isinstance(base.root.f[n["n"]], RefTo): return base.root.f[n["n"]].lv
        # declared type of the field
        fty = None; cls = n["cls"]
        bt = strip(base.ty)
        fs = self.prog.all_fields(bt.key) if bt.k == "rec" and bt.key else None
        if fs:
            for f in fs:
                if f[0] == n["n"] and (f[2] == cls): fty = f[1]; break
            else:
                for f in fs:
                    if f[0] == n["n"]: fty = f[1]; cls = f[2]; break
        if fty is None:
            # derived object seen through a base or system struct: look the class up by name
            for key, r in self.prog.records.items():
                if r["qn"] == cls:
                    for f in r["fields"]:
                        if f[0] == n["n"]: fty = f[1]; break
                if fty is not None: break
        if fty is None: fty = self.ty(n)
        lv = base.ext(("f", n["n"], cls, fty), strip(fty))
        if fty.k == "ref": return self.deref_field_ref(st, lv, fty)
        return lv
    def ev_Cast(self, n, st):
        ck = n["ck"]; ty = self.ty(n)
        if ck == "LValueToRValue":
            v = self.ev(n["e"], st); return self.rv(v, st)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            v = self.toint(self.evr(n["e"], st))
            if not is_z3(v): raise Unsupported("int cast")
            src = self.ty(n["e"])
            if src.k in ("int", "enum") and ty.k in ("int",) and src.w and ty.w and (src.w < ty.w and (not src.s or ty.s) or (src.w == ty.w and src.s == ty.s)): return v
            if src.k == "bool": return v
            if src.k == "int" and src.s and not ty.s and ty.w >= src.w:
                if z3.is_int_value(v): return self.wrap(v, ty)
                return z3.If(v >= 0, v, v + (1 << ty.w))
            return self.wrap(v, ty) if ty.k != "enum" else v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"): return self.tobool(self.evr(n["e"], st))
        if ck in ("NullToPointer", "NullToMemberPointer"): 
            return z3.IntVal(0)
        if ck in ("ArrayToPointerDecay",):
            v = self.ev(n["e"], st)
            if isinstance(v, LV): 
                x = self.read(st, v) if v.kind in ("loc", "tmp") else None
                if is_z3(x) and x.sort() == Str: return x
                return It("seq", v, z3.IntVal(0))
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "Dynamic"):
            v = self.ev(n["e"], st)
            if isinstance(v, LV) and not n.get("lv"): v = self.rv(v, st)
            if isinstance(v, LV) and v.kind == "obj" and not v.path: return LV("obj", v.root, v.ty, (), v.cls)
            if ck == "Dynamic" and is_z3(v):
                return z3.If(self.is_a(v, (ty.to or ty).n or "?"), v, 0) # the dynamic type of an object does not change
            return v
        if ck in ("IntegralToFloating",): return z3.ToReal(self.toint(self.evr(n["e"], st)))
        if ck == "FloatingToIntegral":
            v = self.evr(n["e"], st); t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)); return t
        if ck == "FloatingCast": return self.evr(n["e"], st)
        if ck == "ToVoid":
            self.ev(n["e"], st); return None
        if ck in ("IntegralToPointer", "PointerToIntegral"):
            v = self.evr(n["e"], st)
            return v if is_z3(v) else self.fresh(ty, "ptrint")
        if ck in ("LValueBitCast", "AtomicToNonAtomic", "NonAtomicToAtomic"): return self.ev(n["e"], st)
        raise Unsupported("cast " + ck)
    def ev_Cond(self, n, st):
        c = z3.simplify(self.evb(n["c"], st))
        if z3.is_true(c): return self.ev(n["a"], st)
        if z3.is_false(c): return self.ev(n["b"], st)
        lvw = n.get("lv")
        res = []
        for cond, e in ((c, n["a"]), (Not_(c), n["b"])):
            s = st.copy().assume(cond)
            try: v = self.ev(e, s); v = v if lvw else self.rv(v, s); res.append((s, v))
            except PathDead: pass
        return self.join(st, res)
    def join(self, st, res):
        if not res: raise PathDead()
        m = self.merge_states([(s, ("v", v)) if False else (s, v if v is not None else T) for s, v in res])
        if len(m) != 1:
            # try to merge as rvalues
            m = self.merge_states([(s, self.rv(v, s)) for s, v in res])
        if len(m) != 1: raise Unsupported("cannot merge conditional value")
        st.become(m[0][0]); return m[0][1]
    def ev_BCond(self, n, st): raise Unsupported("gnu ?:")
    def ev_Bin(self, n, st):
        op = n["op"]
        if op == "&&" or op == "||":
            a = z3.simplify(self.evb(n["a"], st)) 
            if op == "&&":
                if z3.is_false(a): return F
                if z3.is_true(a): return self.evb(n["b"], st)
            else:
                if z3.is_true(a): return T
                if z3.is_false(a): return self.evb(n["b"], st)
            go, stop = (a, Not_(a)) if op == "&&" else (Not_(a), a)
            s2 = st.copy().assume(go); s1 = st.copy().assume(stop)
            n0 = len(s2.pc)
            try: v = self.evb(n["b"], s2)
            except PathDead:
                st.become(s1); return F if op == "&&" else T
            if s2.pc[:n0] == s2.pc and len(s2.pc) == n0 and self.same_store(s2, s1):
                # no side effects
                keep = dict(s2.locals); st.locals = keep; st.heap = s2.heap
                return And_([a, v]) if op == "&&" else Or_([a, v])
            return self.join(st, [(s1, F if op == "&&" else T), (s2, v)])
        if op == ",":
            self.ev(n["a"], st); return self.ev(n["b"], st)
        if op == "=":
            b = self.ev(n["b"], st); b = self.rv(b, st)
            a = self.ev(n["a"], st)
            if not isinstance(a, LV): raise Unsupported("assign to rvalue")
            self.write(st, a, self.cvt_assign(b, a, st)); return a
        a = self.evr(n["a"], st); b = self.evr(n["b"], st)
        ta, tb = self.ty(n["a"]), self.ty(n["b"])
        return self.binop(op, a, b, ta, tb, self.ty(n))
    def same_store(self, a, b):
        for k, v in a.locals.items():
            if k in b.locals and b.locals[k] is not v: return False
        for k, v in a.heap.items():
            if k in b.heap:
                if b.heap[k] is not v: return False
            elif self.heap0.get(k) is not v: return False
        for k, v in a.ghost.items():
            if b.ghost.get(k) is not v: return False
        return True
    def cvt_assign(self, v, lv, st):
        return v
    def binop(self, op, a, b, ta, tb, tr):
        if op in ("==", "!="):
            e = self.equal(a, b)
            return e if op == "==" else Not_(e)
        if isinstance(a, It) and op in ("+", "-") and is_z3(b): return It(a.kind, a.c, a.pos + b if op == "+" else a.pos - b, a.end, a.rev)
        if isinstance(a, It) and isinstance(b, It):
            if op == "-": return a.pos - b.pos
            return {"<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
        if not is_z3(a) or not is_z3(b): raise Unsupported("binop %s on %s,%s" % (op, type(a).__name__, type(b).__name__))
        if op in ("<", ">", "<=", ">="):
            a, b = self.toint(a), self.toint(b)
            if a.sort() == Str: raise Unsupported("ptr compare")
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        a, b = self.toint(a), self.toint(b)
        if a.sort() == Str and b.sort() == I and op in ("+", "-"): return z3.Function("str_ptr_add", Str, I, Str)(a, b if op == "+" else -b)
        if a.sort() == Str and b.sort() == Str and op == "-": return z3.Function("str_ptr_diff", Str, Str, I)(a, b)
        if a.sort() == Str: raise Unsupported("string ptr arithmetic")
        if a.sort() == R or b.sort() == R:
            if a.sort() == I: a = z3.ToReal(a)
            if b.sort() == I: b = z3.ToReal(b)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
        if op == "+": return self.wrapop(a + b, tr)
        if op == "-": return self.wrapop(a - b, tr)
        if op == "*": return self.wrapop(a * b, tr)
        if op == "/": return z3.If(z3.And(a >= 0, b > 0), a / b, self.tdiv(a, b)) if tr.s else a / b
        if op == "%": 
            if not tr.s: return a % b
            return z3.If(z3.And(a >= 0, b > 0), a % b, a - b * self.tdiv(a, b))
        bv = self.bitop(op, a, b, ta, tb, tr)
        return bv
    def tdiv(self, a, b):
        q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
        return q
    def wrapop(self, t, ty):
        if ty.k != "int": return t
        if ty.s: return z3.simplify(t) if all(z3.is_int_value(c) for c in t.children()) else t    # signed overflow: assumed absent (UB)
        return self.wrap(t, ty)
    def bitop(self, op, a, b, ta, tb, tr):
        def cv(x):
            x = z3.simplify(x); return x.as_long() if z3.is_int_value(x) else None
        ca, cb = cv(a), cv(b)
        if ca is not None and cb is not None:
            r = {"&": ca & cb, "|": ca | cb, "^": ca ^ cb, "<<": ca << (cb & 63), ">>": ca >> (cb & 63)}[op]
            return self.wrap(z3.IntVal(r), tr)
        if op == "<<" and cb is not None: return self.wrap(a * (1 << cb), tr)
        if op == ">>" and cb is not None: return a / (1 << cb)
        if op == "&":
            for c, x in ((ca, b), (cb, a)):
                if c is not None and c >= 0 and (c & (c + 1)) == 0: return x % (c + 1)
                if c is not None and c > 0 and (c & (c - 1)) == 0: return ((x / c) % 2) * c
            for c, x in ((ca, b), (cb, a)):
                if c is not None and c > 0:
                    lo = (c & -c).bit_length() - 1; m = c >> lo
                    if (m & (m + 1)) == 0: return ((x / (1 << lo)) % (m + 1)) * (1 << lo)
        w = tr.w or 32
        if tr.k == "bool": w = 1
        f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y, "<<": lambda x, y: x << y, ">>": (lambda x, y: x >> y) if tr.s else (lambda x, y: z3.LShR(x, y))}[op]
        r = z3.BV2Int(f(z3.Int2BV(a, w), z3.Int2BV(b, w)), bool(tr.s))
        return r
    def equal(self, a, b):
        if isinstance(a, LV) or isinstance(b, LV): raise Unsupported("eq of lvalues")
        if isinstance(a, It) and isinstance(b, It): return self.lib.it_eq(self, a, b)
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            if isinstance(a, PtrTo) and isinstance(b, PtrTo):
                if lv_eq(a.lv, b.lv): return T
                if a.lv.kind == b.lv.kind == "obj" and not a.lv.path and not b.lv.path: return a.lv.root == b.lv.root
                return F
            p, q = (a, b) if isinstance(a, PtrTo) else (b, a)
            if is_z3(q):
                if p.lv.kind == "obj" and not p.lv.path: return p.lv.root == q
                if z3.is_int_value(z3.simplify(q)): return F
            raise Unsupported("pointer comparison")
        if isinstance(a, SV) and isinstance(b, SV): 
            if a.ty is not None and a.ty.k == "rec" and (a.ty.n in SEQ): return self.lib.seq_eq(self, a, b)
            return And_([self.equal(a.f[n], b.f[n]) for n in a.f])
        if isinstance(a, (Lam, FnPtr)) or isinstance(b, (Lam, FnPtr)): return F
        if not is_z3(a) or not is_z3(b): raise Unsupported("eq %s %s" % (type(a).__name__, type(b).__name__))
        a, b = (self.toint(a), self.toint(b)) if a.sort() != b.sort() else (a, b)
        if a.sort() != b.sort():
            if R in (a.sort(), b.sort()): return z3.ToReal(a) == b if a.sort() == I else a == z3.ToReal(b)
            if Str in (a.sort(), b.sort()): # const char* compared with null
                return F
            raise Unsupported("eq sorts")
        if a.eq(b): return T
        if a.sort() == Str and self.lit_of(a) is not None and self.lit_of(b) is not None: return F
        r = a == b
        return z3.simplify(r) if z3.is_int_value(a) and z3.is_int_value(b) or z3.is_true(a) or z3.is_false(a) or z3.is_true(b) or z3.is_false(b) else r
    def ev_Un(self, n, st):
        op = n["op"]
        if op == "!": return z3.simplify(Not_(self.evb(n["a"], st)))
        if op == "-":
            v = self.toint(self.evr(n["a"], st)); return self.wrapop(z3.simplify(-v) if z3.is_int_value(v) else -v, self.ty(n)) if v.sort() == I else -v
        if op == "+": return self.toint(self.evr(n["a"], st))
        if op == "~": 
            v = self.toint(self.evr(n["a"], st)); ty = self.ty(n); return -v - 1 if ty.s else self.range(ty)[1] - v
        if op == "*":
            v = self.evr(n["a"], st); return self.deref(v, st, self.ty(n))
        if op == "&":
            v = self.ev(n["a"], st)
            if isinstance(v, FnPtr): return v
            if not isinstance(v, LV): raise Unsupported("address of rvalue")
            if v.kind == "obj" and self.whole(v): return v.root
            return PtrTo(v)
        if op in ("++", "--"):
            lv = self.ev(n["a"], st); v = self.rv(lv, st); ty = self.ty(n)
            d = 1 if op == "++" else -1
            if isinstance(v, It): nv = It(v.kind, v.c, v.pos + d, v.end, v.rev)
            elif is_z3(v) and v.sort() == I: nv = self.wrapop(v + d, ty) if ty.k == "int" else v + d
            elif is_z3(v) and v.sort() == R: nv = v + d
            else: raise Unsupported("++ on %s" % type(v).__name__)
            self.write(st, lv, nv)
            return v if n.get("post") else lv
        raise Unsupported("unary " + op)
    def ev_CAssign(self, n, st):
        b = self.evr(n["b"], st); lv = self.ev(n["a"], st); a = self.rv(lv, st); op = n["op"][:-1]
        ct = self.tu.ty(n["ct"]); ty = self.ty(n["a"])
        r = self.binop(op, self.toint(a) if is_z3(a) else a, b, ct, self.ty(n["b"]), ct)
        if ty.k == "bool" and is_z3(r) and r.sort() == I: r = r != 0
        if ty.k == "int" and is_z3(r) and r.sort() == R: r = z3.ToInt(r)
        if ty.k == "int" and is_z3(r) and (ct.w, ct.s) != (ty.w, ty.s): r = self.wrap(r, ty)
        self.write(st, lv, r); return lv
    def ev_Sub(self, n, st):
        a = self.ev(n["a"], st); i = self.evr(n["i"], st)
        if isinstance(a, LV): a = self.rv(a, st)
        if isinstance(a, It): return self.lib.it_deref(self, st, It(a.kind, a.c, a.pos + i if not z3.is_int_value(a.pos) or a.pos.as_long() else i))
        if is_z3(a) and a.sort() == Str: return LV("tmp", self.lib.str_at(self, a, i), self.ty(n))
        if isinstance(a, PtrTo) and z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0: return a.lv
        if is_z3(a) and a.sort() == I:
            c = LV("obj", a, self.ty(n), (), None)
            raise Unsupported("raw pointer indexing")
        raise Unsupported("subscript")
    def ev_IList(self, n, st):
        ty = self.ty(n); vals = n["a"]
        if ty.k == "arr" or ty.k == "rec" and ty.n in ("std::array", "std::initializer_list"):
            if ty.k == "rec" and ty.n == "std::array" and len(vals) == 1 and self.ty(vals[0]).k == "arr":
                v = self.evr(vals[0], st); 
                return SV(ty, {"el": v.f["el"], "len": z3.IntVal(ty.a[1])})
            et = ty.to if ty.k == "arr" else ty.a[0]
            tree = self.mk(self.lift_shape(self.shape(et), I), fresh_name("arr"))
            for i, x in enumerate(vals): 
                tree = self.store(tree, z3.IntVal(i), self.evr(x, st))
            # zero fill handled by unconstrained elements beyond the initialisers
            return SV(ty, {"el": tree, "len": z3.IntVal(len(vals))})
        if ty.k == "rec":
            fs = self.prog.all_fields(ty.key)
            if fs is None: raise Unsupported("init list of " + repr(ty))
            d = {}
            fl = [f for f in fs]
            for i, f in enumerate(fl):
                if i < len(vals): 
                    x = self.ev(vals[i], st)
                    d[f[0]] = RefTo(x) if f[1].k == "ref" and isinstance(x, LV) else self.rv(x, st)
                else: d[f[0]] = self.default(f[1])
            return SV(ty, d)
        if len(vals) == 1: return self.ev(vals[0], st)
        if not vals: return self.default(ty)
        raise Unsupported("init list")
    def ev_Throw(self, n, st):
        if "e" not in n:
            exc = st.locals.get(("curexc",))
            self.raise_(st, T, exc if exc is not None else Exc("?"))
        ty = self.tu.ty(n["of"]); v = None
        try: v = self.evr(n["e"], st)
        except Unsupported: v = None
        self.raise_(st, T, Exc(ty.n if ty.k == "rec" else repr(ty), v if isinstance(v, SV) else None))
    def ev_New(self, n, st):
        ty = self.tu.ty(n["of"])
        addr = z3.Const(fresh_name("new"), I); self.axiom(addr > 0)
        self.lib.fresh_addr(self, st, addr)
        if n.get("n"): return addr
        if n.get("i"):
            i = n["i"]
            h = self.contracts.get("new:" + (ty.n or "")) if ty.k == "rec" and i["k"] == "Ctor" else None
            if h: h(self, st, LV("obj", addr, ty, (), ty.n), [self.ev(a, st) for a in i["a"]], i)
            elif i["k"] == "Ctor": self.construct_into(i, st, LV("obj", addr, ty, (), ty.n))
            else: self.write(st, LV("obj", addr, ty, (), ty.n), self.evr(i, st))
        return addr
    def ev_Delete(self, n, st):
        t = strip(self.ty(n["e"])); h = self.contracts.get("delete:" + (t.to.n or "")) if t.k == "ptr" and strip(t.to).k == "rec" else None; v = self.evr(n["e"], st) if h else self.ev(n["e"], st)
        if h: h(self, st, v, n)
        return None
    def ev_Lambda(self, n, st):
        fr = self.fstack[-1]; caps = {}
        for c in n["cs"]:
            if c.get("this"): continue
            if "id" not in c: continue
            k = (fr[0], c["id"])
            outer = fr[4] if len(fr) > 4 else None
            src = k
            if k not in st.locals and outer is not None and c["id"] in outer: src = outer[c["id"]]
            if c.get("init") is not None:
                v = self.evr(c["init"], st); t = ("cap", next(_ctr)); st.locals[t] = v; caps[c["id"]] = t
            elif c.get("ref"):
                caps[c["id"]] = src
            else:
                v = self.read(st, src) if isinstance(src, LV) else st.locals[src]
                if isinstance(v, RefTo): v = self.read(st, v.lv)
                t = ("cap", next(_ctr)); st.locals[t] = v; caps[c["id"]] = t
        return Lam(n, self.tu, fr[0], fr[2], caps)
    # ---------------------------------------------------------------- calls
    def arg(self, node, st, pty):
        """evaluate an argument for a parameter type"""
        v = self.ev(node, st)
        if pty is not None and pty.k == "ref":
            if isinstance(v, LV): return v
            return self.new_tmp(st, v, pty.to)
        return self.rv(v, st)
    def args_of(self, n, st):
        pts = [self.tu.ty(p) for p in n.get("pt", [])]
        out = []
        for i, a in enumerate(n["a"]):
            out.append(self.arg(a, st, pts[i] if i < len(pts) else (Ty("ref", to=self.ty(a)) if a.get("lv") else None)))
        return out
    def ev_Call(self, n, st):
        if "fn" not in n:
            f = self.evr(n["f"], st); args = [self.ev(a, st) for a in n["a"]]
            return self.call_value(f, args, st, n)
        nm = norm(n["fn"])
        sp = self.lib.SPECIAL.get(nm)
        if sp is not None: return sp(self, st, n)
        args = self.args_of(n, st)
        return self.dispatch(nm, n, st, None, args)
    def call_value(self, f, args, st, n):
        if isinstance(f, Lam): return self.call_lambda(f, args, st)
        if isinstance(f, FnPtr): return self.dispatch(norm(f.node["fn"]), dict(f.node, a=[], t=n.get("t")), st, None, args)
        if isinstance(f, PtrTo): return self.call_value(self.read(st, f.lv), args, st, n)
        c = self.contracts.get("<fnptr>")
        if c: return c(self, st, f, args, n)
        return self.unknown("<function value>", n, st, args)
    def call_lambda(self, lam, args, st):
        n = lam.node
        if n.get("dep"): raise Unsupported("generic lambda")
        fr = next(self.frame_ctr); tu = lam.tu
        ps = [(p["id"], p["n"], tu.ty(p["t"])) for p in n["ps"]]
        self.bind_params(st, fr, ps, args)
        self.fstack.append((fr, tu, lam.this, None, lam.caps))
        try: outs = self.exec(n["b"], st)
        finally: self.fstack.pop()
        return self.finish_call(st, outs, tu.ty(n["rt"]), fr)
    def bind_params(self, st, fr, ps, args):
        for (pid, pn, pty), a in itertools.zip_longest(ps, args[:len(ps)]):
            k = (fr, pid); self.local_ty[k] = strip(pty)
            if a is None: st.locals[k] = self.fresh(pty, pn); continue
            if pty.k == "ref":
                st.locals[k] = RefTo(a) if isinstance(a, LV) else a
            else: st.locals[k] = self.rv(a, st)
    def ev_MCall(self, n, st):
        if "b" not in n: raise Unsupported("member pointer call")
        b = n["b"]; base = self.ev(b, st); bt = self.ty(b)
        if n.get("arrow"):
            p = self.rv(base, st); base = self.deref(p, st, strip(bt).to if strip(bt).k == "ptr" else bt)
        elif not isinstance(base, LV):
            base = self.new_tmp(st, base, bt)
        args = self.args_of(n, st)
        return self.dispatch(norm(n["fn"]), n, st, base, args)
    def ev_OpCall(self, n, st):
        nm = norm(n.get("fn", "")); sp = self.lib.SPECIAL.get(nm)
        if sp is not None: return sp(self, st, n)
        pts = [self.tu.ty(p) for p in n.get("pt", [])]
        # evaluation order: right to left for assignments is irrelevant here except moves; evaluate left first
        if n.get("meth"):
            if n["op"] in ("=", "+=", "-=") : 
                rest = [self.arg(a, st, pts[i] if i < len(pts) else None) for i, a in enumerate(n["a"][1:])]
                base = self.ev(n["a"][0], st)
            else:
                base = self.ev(n["a"][0], st)
                if not isinstance(base, LV): base = self.new_tmp(st, base, self.ty(n["a"][0]))
                rest = [self.arg(a, st, pts[i] if i < len(pts) else (Ty("ref", to=self.ty(a)) if a.get("lv") else None)) for i, a in enumerate(n["a"][1:])]
            if not isinstance(base, LV): base = self.new_tmp(st, base, self.ty(n["a"][0]))
            if n["op"] == "()":
                v = self.read(st, base) if base.kind in ("loc", "tmp") else None
                if isinstance(v, (Lam, FnPtr)): return self.call_value(v, rest, st, n)
                if norm(n["fn"]).startswith("std::function"): return self.call_value(v if v is not None else self.read(st, base), rest, st, n)
            return self.dispatch(nm, n, st, base, rest)
        args = [self.arg(a, st, pts[i] if i < len(pts) else None) for i, a in enumerate(n["a"])]
        return self.dispatch(nm, n, st, None, args)
    def ev_Ctor(self, n, st):
        ty = self.ty(n)
        return self.construct(n, st, ty)
    def construct(self, n, st, ty):
        cls = norm(n["fn"].rsplit("::", 1)[0]); nm = norm(n["fn"])
        if n.get("copy") or n.get("move"):
            a = self.ev(n["a"][0], st)
            if isinstance(a, LV):
                v = self.read(st, a)
                if n.get("move"): self.lib.moved_from(self, st, a, v)
                return v
            return a
        sp = self.lib.CTORS.get(ty.n)
        if sp is not None:
            return sp(self, st, n, ty)
        c = self.contracts.get(nm)
        fs = self.prog.all_fields(ty.key) if ty.key else None
        if fs is None:
            if n.get("dflt") and not n["a"]: return self.default(ty)
            for a in n["a"]: self.ev(a, st)
            self.assumed.add("constructor " + nm); return self.fresh(ty, "obj")
        tmp = self.new_tmp(st, self.default(ty), ty)
        self.construct_into(n, st, tmp)
        return self.read_raw(st, tmp)
    def construct_into(self, n, st, lv):
        """run constructor call n on the object lv"""
        nm = norm(n["fn"])
        if n.get("copy") or n.get("move"):
            a = self.ev(n["a"][0], st); v = self.rv(a, st)
            if n.get("move") and isinstance(a, LV): self.lib.moved_from(self, st, a, v)
            self.write(st, lv, v); return
        if strip(lv.ty).n in self.lib.CTORS:
            self.write(st, lv, self.lib.CTORS[strip(lv.ty).n](self, st, n, strip(lv.ty))); return
        c = self.contracts.get(nm)
        if c is not None:
            c(self, st, lv, self.args_of(n, st), n); return
        fn = self.prog.fns.get(n.get("mg"))
        if fn is None or n.get("impl"):
            if n.get("impl") or n.get("dflt") or n.get("inh"): 
                self.write(st, lv, self.default(strip(lv.ty))); return
            for a in n["a"]: self.ev(a, st)
            self.assumed.add("constructor " + nm); self.write(st, lv, self.fresh(strip(lv.ty), "obj")); return
        args = self.args_of(n, st)
        self.inline(fn, st, lv, args)
    def dispatch(self, nm, n, st, this, args):
        c = self.contracts.get(nm)
        if c is not None:
            return c(self, st, this, args, n)
        f = self.lib.FUNCS.get(nm)
        if f is not None: return f(self, st, this, args, n)
        cls, _, meth = nm.rpartition("::")
        if "::operator " in nm: cls, _, meth = nm.partition("::operator "); meth = "operator " + meth
        if this is not None:
            if isinstance(this, LV) and this.kind == "loc" and this.path and cls in ("std::map", "std::set", "std::list", "std::vector", "std::multimap", "std::multiset", "std::deque"):
                v = self.read_raw(st, this)
                if isinstance(v, RefTo): this = v.lv
            if cls in CONTAINERS: this = self.container_base(this)
            f = self.lib.method(cls, meth)
            if f is not None: return f(self, st, this, args, n)
            # implicit assignment of repo structs
            if meth == "operator=" and n.get("mg") and n["mg"] not in self.prog.fns:
                v = self.rv(args[0], st); self.write(st, this, v); return this
            # C structures are copied as a whole
            if meth == "operator=" and "::" not in cls and isinstance(this, LV) and isinstance(args[0], LV) and strip(this.ty).k == "rec" and strip(this.ty).key == strip(args[0].ty).key and cls not in self.prog.records:
                v = self.rv(args[0], st); self.write(st, this, v); return this
        fn = self.prog.fns.get(n.get("mg")) if n.get("mg") else None
        if fn is not None and nm not in self.noinline:
            if n.get("virt") and not n.get("nonvirt"): self.assumed.add("virtual call %s resolved to the static type" % nm)
            return self.inline(fn, st, this, args)
        return self.unknown(nm, n, st, args, this)
    def container_base(self, lv):
        """the std container a repo class derives from, as a field of its object"""
        t = strip(lv.ty)
        if t.k == "rec" and t.key in self.prog.records:
            for f in self.prog.all_fields(t.key):
                if f[0].startswith("<std::"): return lv.ext(("f", f[0], f[2], f[1]), f[1])
        return lv
    def unknown(self, nm, n, st, args, this=None):
        """unmodelled external function: arbitrary result; non-const reference arguments become arbitrary"""
        self.assumed.add("unmodelled: " + nm)
        if n.get("nr"): raise PathDead()
        pts = [self.tu.ty(p) for p in n.get("pt", [])]
        for i, a in enumerate(args):
            p = pts[i] if i < len(pts) else None
            if isinstance(a, LV) and p is not None and p.k == "ref" and not p.to.c and not p.rv:
                self.write(st, a, self.fresh(a.ty, "out"))
            elif isinstance(a, PtrTo) and (p is None or p.k != "ptr" or not p.to.c):
                if a.lv.kind == "loc" : self.write(st, a.lv, self.fresh(a.lv.ty, "out"))
        if this is not None and not n.get("cst") and this.kind == "loc" and strip(this.ty).k == "rec":
            self.write(st, this, self.fresh(this.ty, "mut"))
        ty = self.ty(n)
        if ty.k == "void": return None
        if n.get("lv"): return self.new_tmp(st, self.fresh(ty, norm(nm).split("::")[-1]), ty)
        return self.fresh(ty, re.sub(r"[^A-Za-z0-9_]", "_", nm.split("::")[-1]))
    def inline(self, fn, st, this, args):
        if len(self.fstack) > self.max_inline or sum(1 for g in self.fstack if g[3] is fn) > 1: raise Unsupported("recursion " + fn.n)
        self.inlined.add(fn.n)
        fr = next(self.frame_ctr)
        self.bind_params(st, fr, fn.ps, args)
        self.fstack.append((fr, fn.tu, this, fn))
        try: outs = self.exec_fn(fn, st)
        finally: self.fstack.pop()
        return self.finish_call(st, outs, fn.rt, fr)
    def exec_fn(self, fn, st):
        if fn.j.get("ctor"):
            outs = []; self.exits.append(outs)
            try:
                for i in fn.j.get("inits", []):
                    this = self.fstack[-1][2]
                    if "m" in i:
                        fs = self.prog.all_fields(this.ty.key) or []
                        f = next((f for f in fs if f[0] == i["m"]), None)
                        if f is None: continue
                        if f[1].k == "ref":
                            v = self.ev(i["e"], st); lv = this.ext(("f", f[0], f[2], f[1]), f[1])
                            if isinstance(v, LV):
                                if lv.kind == "loc": self.write(st, lv, RefTo(v))
                                elif v.kind == "obj" and self.whole(v): self.write(st, lv, v.root)
                                else: raise Unsupported("reference field bound to embedded object")
                            continue
                        self.init_into(i["e"], st, this.ext(("f", f[0], f[2], f[1]), f[1]))
                    elif "base" in i:
                        bty = fn.tu.ty(i["base"])
                        if i["e"]["k"] == "Ctor" and i["e"].get("mg"): 
                            f2 = self.prog.fns.get(i["e"]["mg"])
                            if self.contracts.get(norm(i["e"]["fn"])): self.contracts[norm(i["e"]["fn"])](self, st, this, self.args_of(i["e"], st), i["e"])
                            elif f2 is not None: self.inline(f2, st, this, self.args_of(i["e"], st))
                    elif "deleg" in i:
                        f2 = self.prog.fns.get(i["e"].get("mg"))
                        if f2 is not None: self.inline(f2, st, this, self.args_of(i["e"], st))
            except PathDead: return outs
            finally: self.exits.pop()
            return outs + self.exec(fn.b, st)
        return self.exec(fn.b, st)
    def init_into(self, e, st, lv):
        x = e
        if x["k"] == "Ctor" and strip(lv.ty).n not in self.lib.CTORS and self.prog.all_fields(strip(lv.ty).key or "") is not None:
            if not (x.get("impl") and not x["a"] ): self.construct_into(x, st, lv); return
        try: v = self.rv(self.ev(e, st), st)
        except Unsupported as ex: 
            self.assumed.add("initialiser of %s not modelled (%s): arbitrary value" % (lv.path[-1][1] if lv.path else "?", ex)); v = self.fresh(strip(lv.ty), "ini")
        if not is_z3(v) and not isinstance(v, SV) and lv.kind != "loc": v = self.fresh(strip(lv.ty), "ini")
        self.write(st, lv, v)
    def finish_call(self, st, outs, rt, fr):
        rets = []
        for k, s, p in outs:
            if k == "throw": self.exits[-1].append((k, s, p))
            elif k == "return": rets.append((s, p))
            elif k == "normal": rets.append((s, None))
            else: raise Unsupported("outcome " + k)
        if not rets: raise PathDead()
        if rt.k == "void": rets = [(s, None) for s, p in rets]
        for s, p in rets:
            for k in [k for k in s.locals if isinstance(k, tuple) and k[0] == fr]: 
                if isinstance(p, LV) and p.kind == "loc" and p.root == k: continue
                del s.locals[k]
        if len(rets) > 1 and self.prune: 
            rr = [x for x in rets if not self.infeasible(x[0])]
            if not rr: raise PathDead()
            rets = rr
        m = self.merge_states(rets)
        if len(m) > 1 and rt.k != "ref":
            m = self.merge_states([(s, self.rv(p, s) if p is not None else None) for s, p in rets])
        if len(m) > 1: raise Unsupported("cannot merge return states: %s" % getattr(self, "last_cantmerge", ""))
        st.become(m[0][0]); return m[0][1]
    # ---------------------------------------------------------------- statements
    def exec(self, s, st):
        """-> list of (kind, state, payload)"""
        if s is None: return [("normal", st, None)]
        k = s["k"]
        return getattr(self, "ex_" + k, self.ex_unsupported)(s, st)
    def ex_unsupported(self, s, st): raise Unsupported("stmt %s line %s" % (s["k"] + ":" + str(s.get("n", "")), s.get("l")))
    def simple(self, st, f):
        ex = []; self.exits.append(ex)
        try:
            f(); out = [("normal", st, None)]
        except PathDead: out = []
        except Unsupported as u:
            if self.infeasible(st, 3000): out = []
            else: raise
        finally: self.exits.pop()
        return ex + out
    def ex_Expr(self, s, st):
        return self.simple(st, lambda: self.ev(s["e"], st))
    def ex_Null(self, s, st): return [("normal", st, None)]
    def ex_Log(self, s, st): return [("normal", st, None)]
    def ex_Fatal(self, s, st): 
        h = getattr(self, "on_fatal", None)
        if h: h(self, st)
        return []
    def ex_Label(self, s, st): return self.exec(s["s"], st)
    def ex_Break(self, s, st): return [("break", st, None)]
    def ex_Continue(self, s, st): return [("continue", st, None)]
    def ex_Return(self, s, st):
        if "e" not in s: return [("return", st, None)]
        box = []
        def f():
            v = self.ev(s["e"], st)
            rt = self.fstack[-1][3].rt if self.fstack[-1][3] is not None else None
            if isinstance(v, LV) and (rt is None or rt.k != "ref"): 
                if rt is not None or not s["e"].get("lv"): v = self.read(st, v)
            box.append(v)
        outs = self.simple(st, f)
        return [(("return", x, box[0] if box else None) if kk == "normal" else (kk, x, p)) for kk, x, p in outs]
    def ex_Decl(self, s, st):
        def f():
            for d in s["d"]: self.declare(d, st)
        return self.simple(st, f)
    def declare(self, d, st):
        ty = self.tu.ty(d["t"]); k = self.lid(d["id"]); self.local_ty[k] = strip(ty)
        if d["k"] == "Decomp":
            v = self.ev(d["init"], st)
            base = v if isinstance(v, LV) and ty.k == "ref" else None
            if base is None:
                t = ("tmp", next(_ctr)); st.locals[t] = self.rv(v, st); base = LV("loc", t, ty)
            self.bind_decomp(d, base, st)
            return
        if d.get("static"):
            return
        if ty.k == "ref":
            v = self.ev(d["init"], st)
            if not isinstance(v, LV): v = self.new_tmp(st, v, ty.to)
            if v.kind == "tmp": v = self.new_tmp(st, self.read(st, v), ty.to)
            st.locals[k] = RefTo(v); return
        if st.rec is not None: st.rec.add(("loc", k))
        if "init" in d:
            init = d["init"]
            v = self.ev(init, st)
            if isinstance(v, LV): v = self.read(st, v)
            st.locals[k] = v
        else: st.locals[k] = self.fresh(ty, d["n"])
    def bind_decomp(self, d, base, st):
        bt = strip(base.ty)
        for i, b in enumerate(d["bs"]):
            if bt.k == "rec" and bt.n == "std::pair": lv = base.ext(("f", "first" if i == 0 else "second", "std::pair", bt.a[i]), bt.a[i])
            elif bt.k == "rec" and bt.n == "std::tuple": lv = base.ext(("f", "_%d" % i, "std::tuple", bt.a[i]), bt.a[i])
            elif "f" in b: lv = self.fld(base, b["f"])
            else: raise Unsupported("structured binding")
            st.locals[self.lid(b["id"])] = RefTo(lv)
    def needs_dtor(self, ty):
        if ty.k != "rec": return None
        if ty.n in GUARDS: return "guard"
        fns = self.prog.byname.get(ty.n + "::~" + ty.n.split("::")[-1])
        if fns and (ty.n in getattr(self, "run_dtors", set()) or ty.n + "::~" + ty.n.split("::")[-1] in self.contracts): return fns[0]
        if fns and ty.n not in getattr(self, "skip_dtors", {"SException", "SData"}): return fns[0]
        return None
    def run_dtor(self, k, ty, st):
        what = self.needs_dtor(ty); v = st.locals.get(k)
        if what == "guard":
            if isinstance(v, Guard) and v.m is not None: self.lib.guard_release(self, st, v)
            return
        nm = ty.n + "::~" + ty.n.split("::")[-1]
        c = self.contracts.get(nm)
        if c: c(self, st, LV("loc", k, ty), [], {"a": [], "fn": nm, "pt": []}); return
        self.inline(what, st, LV("loc", k, ty), [])
    def ex_Block(self, s, st, stmts=None):
        declared = []
        cur = [st]; outs = []
        for x in (s["b"] if stmts is None else stmts):
            nxt = []
            for c in cur:
                for o in self.exec(x, c):
                    if o[0] == "normal": nxt.append((o[1], None))
                    else: outs.append(o)
            if x is not None and x["k"] == "Decl":
                for d in x["d"]:
                    ty = self.tu.ty(d["t"])
                    if not d.get("static") and ty.k != "ref" and self.needs_dtor(ty) is not None: declared.append((self.lid(d["id"]), ty))
            if len(nxt) > 1: nxt = self.merge_states(nxt)
            cur = [c for c, _ in nxt]
            if not cur: break
        outs += [("normal", c, None) for c in cur]
        for k, ty in reversed(declared):
            new = []
            for kind, c, p in outs:
                if k not in c.locals: new.append((kind, c, p)); continue
                ex = []; self.exits.append(ex)
                try:
                    self.run_dtor(k, ty, c); c.locals.pop(k, None); new.append((kind, c, p))
                except PathDead: pass
                finally: self.exits.pop()
                new += ex
            outs = new
        return self.compact(outs)
    def compact(self, outs):
        """merge outcomes of equal kind (throws by type)"""
        if len(outs) < 3: return outs
        groups = {}
        for k, s, p in outs: groups.setdefault((k, p.ty if isinstance(p, Exc) else None), []).append((s, p))
        res = []
        for (k, t), items in groups.items():
            for s, p in (self.merge_states(items) if len(items) > 1 else items): res.append((k, s, p))
        return res
    def ex_If(self, s, st):
        pre = []
        if s.get("init"): 
            o = self.exec(s["init"], st)
            pre = [x for x in o if x[0] != "normal"]
            ns = [x for x in o if x[0] == "normal"]
            if not ns: return pre
        box = []
        def f():
            if s.get("cv"): self.declare(s["cv"], st)
            box.append(z3.simplify(self.evb(s["c"], st)))
        o = self.simple(st, f)
        outs = pre + [x for x in o if x[0] != "normal"]
        if not box: return outs
        c = box[0]
        for cond, br in ((c, s["t"]), (Not_(c), s.get("e"))):
            if z3.is_false(cond): continue
            s2 = st.copy().assume(cond)
            if self.prune and not z3.is_true(cond) and self.infeasible(s2): continue
            outs += self.exec(br, s2)
        return self.compact(outs) if len(outs) > 1 else outs
    def ex_Try(self, s, st):
        outs = self.exec(s["b"], st)
        res = []
        for k, c, p in outs:
            if k != "throw": res.append((k, c, p)); continue
            pend = [(c, p)]
            for h in s["h"]:
                nxt = []
                for c2, p2 in pend:
                    hty = self.tu.ty(h["t"]) if "t" in h else None
                    ht = strip(hty) if hty is not None else None
                    if ht is None: m = True
                    elif p2.ty == "?": m = None
                    else: m = ht.n in self.prog.bases_of(p2.ty) if ht.k == "rec" else p2.ty == repr(ht)
                    if m is False: nxt.append((c2, p2)); continue
                    if m is None:
                        b = z3.Const(fresh_name("catches_" + (ht.n or "x")), B)
                        c3 = c2.copy().assume(Not_(b)); nxt.append((c3, p2)); c2 = c2.copy().assume(b)
                    else: c2 = c2.copy()
                    saved = c2.locals.get(("curexc",)); c2.locals[("curexc",)] = p2
                    if "v" in h and h["v"].get("n") is not None:
                        kk = self.lid(h["v"]["id"]); v = p2.val if p2.val is not None else (self.fresh(ht, "exc") if ht is not None else None)
                        self.local_ty[kk] = ht
                        if hty.k == "ref":
                            t = ("tmp", next(_ctr)); c2.locals[t] = v; self.local_ty[t] = ht; c2.locals[kk] = RefTo(LV("loc", t, ht))
                        else: c2.locals[kk] = v
                    for o in self.exec(h["b"], c2):
                        if saved is None: o[1].locals.pop(("curexc",), None)
                        else: o[1].locals[("curexc",)] = saved
                        res.append(o)
                pend = nxt
            for c2, p2 in pend: res.append(("throw", c2, p2))
        return self.compact(res)
    def ex_Switch(self, s, st):
        box = []; outs = []
        if s.get("init"): 
            o = self.exec(s["init"], st); outs += [x for x in o if x[0] != "normal"]
        o = self.simple(st, lambda: box.append(self.toint(self.evr(s["c"], st))))
        outs += [x for x in o if x[0] != "normal"]
        if not box: return outs
        v = box[0]
        # flatten the body: list of (labels, stmt)
        items = []
        def add(x):
            labels = []
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append(x); x = x["s"]
            items.append((labels, x))
        for x in (s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]): add(x)
        conds = []; allc = []
        for i, (labels, x) in enumerate(items):
            for l in labels:
                if l["k"] == "Case":
                    cv = self.evr(l["v"], st); c = z3.simplify(v == cv); conds.append((i, c)); allc.append(c)
        dflt = [i for i, (labels, x) in enumerate(items) if any(l["k"] == "Default" for l in labels)]
        entries = list(conds)
        rest = And_([Not_(c) for c in allc])
        entries.append((dflt[0] if dflt else len(items), rest))
        live = []   # states entering at index
        by = {}
        for i, c in entries:
            if z3.is_false(c): continue
            s2 = st.copy().assume(c)
            if self.prune and not z3.is_true(c) and self.infeasible(s2): continue
            by.setdefault(i, []).append((s2, None))
        cur = []; 
        for i in range(len(items) + 1):
            cur = cur + by.get(i, [])
            if i == len(items): break
            if not cur: continue
            if len(cur) > 1: cur = self.merge_states(cur)
            nxt = []
            for c, _ in cur:
                for o in self.exec(items[i][1], c):
                    if o[0] == "normal": nxt.append((o[1], None))
                    else: outs.append(o)
            cur = nxt
        outs += [("normal", c, None) for c, _ in cur]
        outs = [("normal", c, p) if k == "break" else (k, c, p) for k, c, p in outs]
        return self.compact(outs)
    # ---------------------------------------------------------------- loops
    def ex_While(self, s, st):
        return self.loop(st, lambda c: self.cond(s, c), lambda c: self.exec(s["b"], c), None, dict(kind="while", node=s))
    def cond(self, s, c):
        if s.get("cv"): self.declare(s["cv"], c)
        return self.evb(s["c"], c) if s.get("c") is not None else T
    def ex_For(self, s, st):
        outs = []
        if s.get("init"):
            o = self.exec(s["init"], st); outs = [x for x in o if x[0] != "normal"]; o = [x for x in o if x[0] == "normal"]
            if not o: return outs
            st = o[0][1]
        inc = (lambda c: self.simple(c, lambda: self.ev(s["inc"], c))) if s.get("inc") else None
        return outs + self.loop(st, lambda c: self.cond(s, c), lambda c: self.exec(s["b"], c), inc, dict(kind="for", node=s))
    def ex_Do(self, s, st):
        # SWARN-like do{}while(0)
        c0 = s["c"]
        x = c0
        while x["k"] == "Cast": x = x["e"]
        if x["k"] in ("Int", "Bool") and str(x["v"]) in ("0", "False"):
            outs = self.exec(s["b"], st)
            return [("normal", c, p) if k in ("break", "continue") else (k, c, p) for k, c, p in outs]
        # first iteration, then a while loop
        outs = self.exec(s["b"], st); res = []; go = []
        for k, c, p in outs:
            if k in ("normal", "continue"): go.append((c, None))
            elif k == "break": res.append(("normal", c, None))
            else: res.append((k, c, p))
        for c, _ in self.merge_states(go):
            res += self.loop(c, lambda q: self.cond(s, q), lambda q: self.exec(s["b"], q), None, dict(kind="do", node=s))
        return self.compact(res)
    def ex_RangeFor(self, s, st):
        outs = []
        if s.get("init"):
            o = self.exec(s["init"], st); outs = [x for x in o if x[0] != "normal"]
        box = []
        def f():
            v = self.ev(s["r"], st)
            if not isinstance(v, LV): v = self.new_tmp(st, v, self.ty(s["r"]))
            box.append(v)
        outs += [x for x in self.simple(st, f) if x[0] != "normal"]
        if not box: return outs
        lv = box[0]
        if isinstance(self.read(st, lv), RefTo): lv = self.read(st, lv).lv
        lv = self.container_base(lv); cty = strip(lv.ty)
        if cty.k == "rec" and cty.key in self.prog.records:
            # class with begin()/end(): iterate over the container begin() points into
            def g():
                f = [x for x in self.prog.byname.get(cty.n + "::begin", [])]
                if not f: raise Unsupported("range-for over %r" % cty)
                it = self.inline(f[0], st, lv, []); it = self.rv(it, st)
                if not isinstance(it, It) or it.kind != "seq": raise Unsupported("range-for begin()")
                box[0] = it.c
            outs += [x for x in self.simple(st, g) if x[0] != "normal"]
            lv = box[0]; cty = strip(lv.ty)
        kd = self.lib.range_kind(self, cty, self.read(st, lv))
        ik = ("it", next(_ctr)); d = s["v"]
        if kd == "seq":
            st.locals[ik] = z3.IntVal(0); self.local_ty[ik] = Ty("int", w=64, s=0)
            et = self.lib.elem_ty(cty)
            def cond(c): return c.locals[ik] < self.lib.seq_len(self, self.read(c, lv), cty)
            def body(c):
                self.bind_loopvar(d, lv.ext(("i", c.locals[ik]), et), c); return self.exec(s["b"], c)
            def inc(c):
                if c.rec is not None: c.rec.add(("loc", ik))
                c.locals[ik] = c.locals[ik] + 1; return [("normal", c, None)]
            res = self.loop(st, cond, body, inc, dict(kind="range", node=s, cont=lv, ix=ik))
        elif kd == "map":
            ks = self.read(st, lv).f["has"].sort().domain()
            st.locals[ik] = z3.K(ks, F)
            vt = cty
            def cond(c):
                m = self.read(c, lv); return z3.Const(fresh_name("more"), B)
            def body(c):
                m = self.read(c, lv); key = z3.Const(fresh_name("key"), ks)
                if len(cty.a) and isinstance(cty.a[0], Ty): self.range_axiom(key, cty.a[0])
                c.assume(z3.Select(m.f["has"], key)); c.assume(Not_(z3.Select(c.locals[ik], key)))
                if ks == I: 
                    q = z3.Int("q"); c.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Select(m.f["has"], q), Not_(z3.Select(c.locals[ik], q))), key <= q)))
                if c.rec is not None: c.rec.add(("loc", ik))
                c.locals[ik] = z3.Store(c.locals[ik], key, T)
                if cty.n in SETS: e = LV("tmp", key, cty.a[0])
                else:
                    kt = ("tmp", next(_ctr)); c.locals[kt] = key
                    e = LV("tmp", SV(Ty("rec", n="std::pair", a=(cty.a[0], cty.a[1]), key="pair"), {"first": key, "second": RefTo(lv.ext(("k", key), cty.a[1]))}), Ty("rec", n="std::pair", a=(cty.a[0], cty.a[1]), key="pair"))
                self.bind_loopvar(d, e, c); return self.exec(s["b"], c)
            def exitc(c):
                m = self.read(c, lv); q = z3.Const("qk", ks)
                c.assume(z3.ForAll([q], z3.Implies(z3.Select(m.f["has"], q), z3.Select(c.locals[ik], q))))
            res = self.loop(st, cond, body, None, dict(kind="rangemap", node=s, cont=lv, ix=ik, onexit=exitc))
        else: raise Unsupported("range-for over %r" % cty)
        for o in res: o[1].locals.pop(ik, None)
        return outs + res
    def bind_loopvar(self, d, elv, st):
        ty = self.tu.ty(d["t"])
        if d["k"] == "Decomp":
            if elv.kind == "tmp" and isinstance(elv.root, SV):
                for i, b in enumerate(d["bs"]):
                    x = elv.root.f["first" if i == 0 else "second"]
                    if isinstance(x, RefTo): st.locals[self.lid(b["id"])] = x
                    else: 
                        t = ("tmp", next(_ctr)); st.locals[t] = x; st.locals[self.lid(b["id"])] = RefTo(LV("loc", t, elv.ty.a[i]))
                return
            if ty.k != "ref":
                t = ("tmp", next(_ctr)); st.locals[t] = self.read(st, elv); elv = LV("loc", t, elv.ty)
            return self.bind_decomp(d, elv, st)
        k = self.lid(d["id"]); self.local_ty[k] = strip(ty)
        if ty.k == "ref":
            if elv.kind == "tmp":
                t = ("tmp", next(_ctr)); st.locals[t] = elv.root; elv = LV("loc", t, elv.ty)
            st.locals[k] = RefTo(elv)
        else: 
            v = self.read(st, elv)
            if isinstance(v, SV) and isinstance(v.f.get("second"), RefTo): v = v.set("second", self.read(st, v.f["second"].lv))
            st.locals[k] = v
    def iterate(self, c, condf, bodyf, incf):
        """one iteration from state c: (exit states, end-of-body states, others)"""
        box = []; others = []
        o = self.simple(c, lambda: box.append(z3.simplify(condf(c))))
        others += [x for x in o if x[0] != "normal"]
        if not box: return [], [], others
        cc = box[0]; exits_ = []; ends = []
        if not z3.is_true(cc): exits_.append(c.copy().assume(Not_(cc)))
        if not z3.is_false(cc):
            c2 = c.copy().assume(cc)
            for k, s, p in bodyf(c2):
                if k in ("normal", "continue"):
                    if incf is not None:
                        for k2, s2, p2 in incf(s):
                            (ends if k2 == "normal" else others).append(s2 if k2 == "normal" else (k2, s2, p2))
                    else: ends.append(s)
                else: others.append((k, s, p))
        return exits_, ends, others
    def havoc(self, st, mods):
        for m in mods:
            if m[0] == "loc":
                if m[1] in st.locals: st.locals[m[1]] = self.fresh_like(st.locals[m[1]], self.local_ty.get(m[1]))
            elif m[0] == "heap":
                t = st.heap.get(m[1]); t = t if t is not None else self.heap0[m[1]]
                st.heap[m[1]] = self.map_leaves(t, lambda x, p: z3.Const(fresh_name("Hv_" + m[1]), x.sort()))
            elif m[0] == "heapat":
                t = st.heap.get(m[1]); t = t if t is not None else self.heap0[m[1]]
                a = self.at_terms[m[2]]
                st.heap[m[1]] = self.map_leaves(t, lambda x, p: z3.Store(x, a, z3.Const(fresh_name("Ha_" + m[1]), x.sort().range())))
            else: st.ghost[m[1]] = self.fresh_like(st.ghost[m[1]], None)
            if st.rec is not None: st.rec.add(m)
    def fresh_like(self, v, ty):
        if is_z3(v):
            c = z3.Const(fresh_name("hv"), v.sort())
            if ty is not None: self.range_axiom(c, ty)
            return c
        if isinstance(v, SV):
            r = SV(v.ty, {n: self.fresh_like(x, None) for n, x in v.f.items()}); self.sv_axioms(r)
            if v.ty is not None and v.ty.k == "rec" and v.ty.key and self.prog.records.get(v.ty.key):
                for f in self.prog.all_fields(v.ty.key):
                    if f[0] in r.f and is_z3(r.f[f[0]]): self.range_axiom(r.f[f[0]], f[1])
            return r
        if isinstance(v, It): return It(v.kind, v.c, self.fresh_like(v.pos, None), self.fresh_like(v.end, None) if v.end is not None else None, v.rev)
        if isinstance(v, Guard): return Guard(v.m, self.fresh_like(v.owned, None))
        if isinstance(v, Opaque): return v
        if isinstance(v, Exc): return v
        raise Unsupported("loop modifies %s" % type(v).__name__)
    def loop(self, st, condf, bodyf, incf, info):
        # constant-trip loops are unrolled completely (exact)
        cn = info["node"].get("c") if isinstance(info["node"], dict) else None
        while isinstance(cn, dict) and cn.get("k") in ("Cast", "Paren"): cn = cn["e"]
        endless = info["kind"] in ("while", "for") and (cn is None or cn.get("k") in ("Int", "Bool"))
        res = None if endless else self.try_unroll(st, condf, bodyf, incf)
        if res is not None: return res
        info = dict(info); info["fn"] = self.where()
        # 1. what the loop modifies
        mods = set(); n0 = next(_ctr); nlog = len(self.loop_log)
        self.dry += 1
        outer = st.rec
        try:
            for _ in range(8):
                c = st.copy(); c.rec = set(); self.havoc(c, [m for m in mods]); c.rec = set()
                self.exits.append([])
                try: _, ends_, _ = self.iterate(c, condf, bodyf, incf)
                finally: self.exits.pop()
                rec = set()  # what paths that come back to the loop head write (a path that leaves the loop keeps its exact state)
                for e in ends_: rec |= e.rec
                rec = {("heap", m[1]) if m[0] == "heapat" and not self.preexisting(self.at_terms[m[2]], n0) else m for m in rec}
                new = {m for m in rec if m[0] != "loc" or m[1] in st.locals} - mods
                new = {m for m in new if m[0] != "heapat" or ("heap", m[1]) not in mods | new}
                if not new: break
                mods |= new
            else: raise Unsupported("loop modification set does not stabilise")
            mods = {m for m in mods if m[0] != "heapat" or ("heap", m[1]) not in mods}
            mods = sorted(mods, key=repr)
            # 2. candidates
            entry = st.copy()
            cands = self.candidates(entry, mods, info) + self.guard_bounds(entry, mods, condf)
            keep = []
            if cands:
                s = self.solver(); s.add(*self.base_facts())
                for nm, fn in cands:
                    try: f = fn(entry)
                    except Unsupported as u:
                        if DEBUG: print("no candidate", nm, u)
                        continue
                    s2 = list(entry.pc) + [z3.Not(f)]
                    if z3.is_true(z3.simplify(f)) or self.check(s2, min(2500, 2 * self.solver_timeout)) == z3.unsat: keep.append((nm, fn))
            # 3. Houdini
            nested = len(self.loop_log) > nlog  # a loop inside needs the candidates as facts, not behind guards
            while keep:
                c = entry.copy(); c.rec = None; self.havoc(c, mods)
                guards = []
                for nm, fn in keep:
                    if nested: guards.append(z3.BoolVal(True)); c.assume(fn(c)); continue
                    g = z3.Const(fresh_name("g"), B); guards.append(g); c.assume(z3.Implies(g, fn(c)))
                self.exits.append([])
                try: _, ends, _ = self.iterate(c, condf, bodyf, incf)
                finally: self.exits.pop()
                alive = list(range(len(keep)))
                goals = [[fn(e) for nm, fn in keep] for e in ends]
                changed = True
                while changed and alive:
                    changed = False
                    for ei, e in enumerate(ends):
                        s = self.solver(self.solver_timeout); s.add(*self.base_facts()); s.add(*e.pc); s.add(*[guards[i] for i in alive]); 
                        drop = []
                        for i in alive:
                            g = goals[ei][i]
                            if z3.is_true(g): continue
                            s.push(); s.add(z3.Not(g)); t0 = time.time()
                            r = s.check(); self.nsolver += 1; self.tsolver += time.time() - t0
                            s.pop()
                            if r != z3.unsat:
                                drop.append(i)
                                if DEBUG: print("drop", info["node"].get("l"), keep[i][0], r, round(time.time() - t0, 1), flush=True); self.on_drop and self.on_drop(info, keep[i][0], g, e)
                        if drop: alive = [i for i in alive if i not in drop]; changed = not nested
                again = nested and len(alive) < len(keep)
                keep = [keep[i] for i in alive]
                if not again: break
        finally: self.dry -= 1
        self.loop_log.append((info["fn"], info["node"].get("l"), [k for k, _ in keep], len(mods)))
        # 4. the real run
        c = st.copy(); self.havoc(c, mods)
        for nm, fn in keep: c.assume(fn(c))
        info["head"] = c
        exits_, ends, others = self.iterate(c, condf, bodyf, incf)
        res = []
        lk = set(st.locals)
        for e in exits_:
            if info.get("onexit"): info["onexit"](e)
            res.append(("normal", e, None))
        for k, s, p in others: res.append(("normal", s, None) if k == "break" else (k, s, p))
        for k, s, p in res:
            for x in [x for x in s.locals if x not in lk and not (isinstance(x, tuple) and x[0] in ("g", "tmp", "cap"))]: del s.locals[x]
        return self.compact(res)
    def try_unroll(self, st, condf, bodyf, incf, limit=40):
        self.dry += 1; self.exits.append([])
        try:
            c = st.copy(); c.rec = None
            cc = z3.simplify(condf(c))
            if not (z3.is_true(cc) or z3.is_false(cc)): return None
            if z3.is_true(cc):
                # must become constant-false soon: dry run
                cur = [c]
                for _ in range(limit):
                    nxt = []
                    for x in cur:
                        y = x.copy(); cc = z3.simplify(condf(y))
                        if z3.is_false(cc): continue
                        if not z3.is_true(cc): return None
                        for k, s, p in bodyf(y):
                            if k in ("normal", "continue"):
                                if incf is not None: nxt += [s2 for k2, s2, p2 in incf(s) if k2 == "normal"]
                                else: nxt.append(s)
                    nxt = [a for a, _ in self.merge_states([(a, None) for a in nxt])]
                    if not nxt: break
                    cur = nxt
                else: return None
        except (Unsupported, PathDead): return None
        finally: self.dry -= 1; self.exits.pop()
        res = []; cur = [st]
        for _ in range(limit + 1):
            nxt = []
            for x in cur:
                ex, ends, oth = self.iterate(x, condf, bodyf, incf)
                res += [("normal", e, None) for e in ex]; nxt += ends
                res += [("normal", s, None) if k == "break" else (k, s, p) for k, s, p in oth]
            if not nxt: break
            cur = [a for a, _ in self.merge_states([(a, None) for a in nxt])]
        return self.compact(res)
    def guard_bounds(self, entry, mods, condf):
        """v <= t for a loop guard v < t whose t the loop does not change"""
        c = entry.copy(); c.rec = None
        n0 = next(_ctr); self.havoc(c, mods); vs = {}
        for m in mods:
            if m[0] == "loc" and is_z3(c.locals.get(m[1])) and c.locals[m[1]].sort() == I: vs[c.locals[m[1]].get_id()] = m[1]
        if not vs: return []
        self.exits.append([])
        try: g = condf(c)
        except (Unsupported, PathDead): return []
        finally: self.exits.pop()
        if not is_z3(g): return []
        out = []; todo = [z3.simplify(g)]; seen = set()
        def closed(t):
            st_ = [t]; sn = set()
            while st_:
                x = st_.pop()
                if x.get_id() in sn: continue
                sn.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name().rsplit("!", 1)
                    if len(nm) == 2 and nm[1].isdigit() and int(nm[1]) > n0: return False
                st_ += x.children()
            return True
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_eq(x):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if a.get_id() in vs and b.sort() == I and closed(b):
                        k = vs[a.get_id()]
                        out.append(("v<=bound", lambda s, k=k, b=b: s.locals[k] <= b)); out.append(("v>=bound", lambda s, k=k, b=b: s.locals[k] >= b))
            elif z3.is_bool(x): todo += x.children()
        return out
    def candidates(self, entry, mods, info):
        cands = []
        ints, its, ptrs, bools = [], [], [], []
        ix = []
        for m in mods:
            if m[0] != "loc": continue
            k = m[1]; v = entry.locals[k]
            if isinstance(v, It) and v.kind == "seq":
                its.append(k); ix.append((v.c, lambda s, k=k: s.locals[k].pos))
            elif is_z3(v) and v.sort() == I:
                t = self.local_ty.get(k)
                if info.get("ix") == k: ix.append((info["cont"], lambda s, k=k: s.locals[k])); continue
                if t is not None and t.k == "ptr": ptrs.append(k)
                else: ints.append(k)
            elif is_z3(v) and v.sort() == B: bools.append(k)
        def addc(nm, fn): cands.append((nm, fn))
        for c, f in ix:
            addc("0<=ix", lambda s, f=f: f(s) >= 0)
            if c is not None:
                def lenb(s, f=f, c=c):
                    return f(s) <= self.lib.seq_len(self, self.read(s, c), strip(c.ty))
                addc("ix<=len", lenb)
        for k in ints:
            v0 = entry.locals[k]
            addc("v>=v0", lambda s, k=k, v0=v0: s.locals[k] >= v0)
            addc("v<=v0", lambda s, k=k, v0=v0: s.locals[k] <= v0)
            # index variables of counting loops: relate to the containers the spec cares about
            for cl in getattr(self, "index_containers", []):
                c = cl(self, entry)
                if c is None: continue
                addc("v<=len", lambda s, k=k, c=c: s.locals[k] <= self.read(s, c).f["len"])
                ix.append((c, lambda s, k=k: s.locals[k]))
        for k in bools:
            addc("b", lambda s, k=k: s.locals[k]); addc("!b", lambda s, k=k: z3.Not(s.locals[k]))
        for m in mods:
            if m[0] == "heapat": self.heap_cands(m, entry, addc)
        for i, k in enumerate(ints):
            for k2 in ints[i + 1:]:
                addc("v<=w", lambda s, k=k, k2=k2: s.locals[k] <= s.locals[k2])
                addc("w<=v", lambda s, k=k, k2=k2: s.locals[k2] <= s.locals[k])
        info2 = dict(info); info2["ixk"] = info.get("ix"); info2.update(entry=entry, mods=mods, ints=ints, ptrs=ptrs, bools=bools, its=its, ix=ix)
        for v in self.vocab: 
            for nm, fn in v(self, info2): addc(nm, fn)
        return cands
    def heap_cands(self, m, entry, addc):
        a = self.at_terms[m[2]]; key = m[1]; t0 = entry.heap.get(key, self.heap0.get(key))
        def walk(x, path):
            if isinstance(x, SV):
                for q in x.f: walk(x.f[q], path + (q,))
                return
            if not is_z3(x) or not z3.is_array(x): return
            v0 = z3.Select(x, a)
            def cur(s):
                t = s.heap.get(key, self.heap0.get(key))
                for q in path: t = t.f[q]
                return z3.Select(t, a)
            addc("heap ==", lambda s: cur(s) == v0)
            if x.sort().range() not in (I, B): return
            if x.sort().range() == B: addc("heap b", cur); addc("heap !b", lambda s: z3.Not(cur(s))); return
            addc("heap >=", lambda s: cur(s) >= v0); addc("heap <=", lambda s: cur(s) <= v0)
            if path and path[-1] == "h":
                addc("h+1", lambda s: cur(s) == v0 + 1)
                for k, v in entry.locals.items():
                    if is_z3(v) and v.sort() == B:
                        addc("h+b", lambda s, k=k: cur(s) == v0 + z3.If(s.locals[k], 1, 0)); addc("h+!b", lambda s, k=k: cur(s) == v0 + z3.If(s.locals[k], 0, 1))
                        addc("h+b-b0", lambda s, k=k, b0=v: cur(s) == v0 + z3.If(s.locals[k], 1, 0) - z3.If(b0, 1, 0))
        walk(t0, ())
    # ---------------------------------------------------------------- ghost counting
    def count(self, st, cont_lv, tag, pred):
        """uninterpreted prefix-count of pred over a sequence in state st: returns fn(i) plus unfolding axioms.
        pred(elem_value, st) -> Bool.  Symbols are shared between equal (sequence, predicate-in-state) pairs."""
        seq = self.read(st, cont_lv); et = self.lib.elem_ty(strip(cont_lv.ty))
        j = z3.Int("j!cnt")
        body = pred(self.select(seq.f["el"], j), st)
        body = z3.simplify(body)
        key = (tag, body.sexpr())
        f = self.cnt_funcs.get(key)
        if f is None:
            f = z3.Function("cnt_%s_%d" % (tag, len(self.cnt_funcs)), I, I); self.cnt_funcs[key] = f
            self.axiom(f(z3.IntVal(0)) == 0)
            # f is a prefix count: bounds are consequences of the definition (induction), stated as a quantified fact
            k = z3.Int("k!cnt")
            self.axiom(z3.ForAll([k], z3.Implies(k >= 0, z3.And(f(k) >= 0, f(k) <= k)), patterns=[f(k)]))
        def at(i): 
            self.axiom(z3.Implies(i >= 0, f(i + 1) == f(i) + z3.If(z3.substitute(body, (j, i)), 1, 0)))
            return f(i)
        return at, key
    # ---------------------------------------------------------------- driver
    def start(self, fn, requires=None):
        """fresh state with symbolic this and params; returns (st, this, args)"""
        st = State(); self.cur_fn = fn.n
        this = None
        if fn.this is not None:
            a = z3.Int("this_" + fn.this.n.split("::")[-1]); self.axiom(a > 0)
            this = LV("obj", a, fn.this, (), fn.this.n)
        args = []
        for pid, pn, pty in fn.ps:
            if pty.k == "ref":
                t = pty.to
                if t.k == "rec" and self.prog.records.get(t.key) and not (t.n in getattr(self, "value_classes", {"SData"})):
                    a = z3.Int("arg_" + pn); self.axiom(a > 0); args.append(LV("obj", a, t, (), t.n))
                else:
                    k = ("arg", pn); st.locals[k] = self.mk(self.shape(t), "arg_" + pn); self.local_ty[k] = t; args.append(LV("loc", k, t))
            else: args.append(self.mk(self.shape(pty), "arg_" + pn))
        return st, this, args
    def run(self, fn, st, this, args):
        """execute fn's body: returns outcomes [(kind, state, value)]"""
        self.cur_fn = fn.n; self.exits = [[]]
        fr = next(self.frame_ctr); self.bind_params(st, fr, fn.ps, args)
        self.fstack = [(fr, fn.tu, this, fn)]
        outs = self.exec_fn(fn, st)
        self.fstack = []
        outs = [("return", s, None) if k == "normal" else (k, s, p) for k, s, p in outs]
        return outs + self.exits.pop()
def Ty_container(lv): return lv.ty
