"""Specification layer: contracts, verification items, obligation discharge, verdicts, evidence."""
import z3, os, sys, time, json, subprocess, traceback, multiprocessing, tempfile, re
from . import engine as E
from .engine import *
from .front import *
from . import lib as L

CVC5 = "cvc5"
class Result:
    """picklable outcome of one verification item"""
    def __init__(self, label, fn): self.label = label; self.fn = fn; self.status = "proved"; self.obls = []; self.note = ""; self.assumed = []; self.inlined = []; self.covers = 0; self.secs = 0.0; self.solver = 0.0; self.nsolver = 0; self.loops = []; self.contracts = []; self.loc = ""

class Contract:
    """requires / modifies / ensures on a function; applied at call sites, verified against the body by Item(kind='contract')"""
    def __init__(self, fn, nparams=None, requires=None, modifies=(), ensures=None, throws=(), throw_ensures=None, pick=None, ghost=(), trusted=None, noreturn=False, result=None):
        self.fn = fn; self.nparams = nparams; self.requires = requires; self.modifies = modifies; self.ensures = ensures; self.throws = throws; self.throw_ensures = throw_ensures; self.pick = pick; self.ghost = ghost; self.trusted = trusted; self.noreturn = noreturn; self.result = result
    def apply(self, eng, st, this, args, call):
        eng.used_contracts.add(self.fn + (" [trusted: %s]" % self.trusted if self.trusted else ""))
        if self.requires:
            for nm, f in self.requires(eng, st, this, args): eng.prove(st, f, "call of %s requires %s" % (self.fn, nm))
        old = st.copy()
        self.havoc(eng, st, this, args)
        for t in self.throws:
            s2 = st.copy(); b = z3.Const(fresh_name("throws_" + t.split("::")[-1]), B); s2.assume(b)
            if self.throw_ensures:
                for nm, f in self.throw_ensures(eng, old, s2, this, args, t): s2.assume(f)
            eng.exits[-1].append(("throw", s2, Exc(t))); st.assume(Not_(b))
        if self.noreturn: raise PathDead()
        rt = eng.ty(call) if call.get("t", -1) >= 0 else Ty("void")
        res = None
        if self.result is not None: res = self.result(eng, old, st, this, args)
        elif rt.k != "void":
            res = eng.fresh(rt, "ret_" + self.fn.split("::")[-1])
            if call.get("lv"): res = eng.new_tmp(st, res, rt)
        if self.ensures:
            for nm, f in self.ensures(eng, old, st, this, args, eng.rv(res, st) if res is not None else None): st.assume(f)
        return res
    def havoc(self, eng, st, this, args):
        mods = self.modifies(eng, st, this, args) if callable(self.modifies) else self.modifies
        for m in mods:
            if isinstance(m, str):
                if m.startswith("ghost:"): st.setg(m[6:], eng.fresh_like(st.g(m[6:]), None)); continue
                t = eng.heap_tree(st, m)
                eng.heap_set(st, m, eng.map_leaves(t, lambda x, p: z3.Const(fresh_name("Hm_" + m), x.sort())))
            elif isinstance(m, LV): eng.write(st, m, eng.fresh(m.ty, "hm"))
            else: # (key, address): only this object
                key, addr = m; t = eng.heap_tree(st, key)
                eng.heap_set(st, key, eng.map_leaves(t, lambda x, p: z3.Store(x, addr, z3.Const(fresh_name("hm"), x.sort().range()))))

def heap_tree(self, st, key):
    t = st.heap.get(key)
    if t is None:
        t = self.heap0.get(key)
        if t is None:
            cls, fld = key.rsplit(".", 1)
            for k, r in self.prog.records.items():
                if r["qn"] == cls:
                    for f in r["fields"]:
                        if f[0] == fld: return self.heap_get(st, key, self.field_shape(f[1]))
            raise FrontError("no field " + key)
        st.heap[key] = t
    return t
Engine.heap_tree = heap_tree

def field(eng, st, obj, name):
    """value of a (possibly nested, dotted; references followed) field of the object lvalue"""
    lv = flv(eng, st, obj, name); return eng.read(st, lv)
def flv(eng, st, obj, name):
    lv = obj
    for part in name.split("."):
        fs = eng.prog.all_fields(strip(lv.ty).key) if strip(lv.ty).key else None
        f = next((f for f in fs or [] if f[0] == part), None)
        if f is None: raise FrontError("no field %s in %r" % (part, lv.ty))
        lv = lv.ext(("f", f[0], f[2], f[1]), strip(f[1]))
        if f[1].k == "ref": lv = eng.deref_field_ref(st, lv, f[1])
    return lv
def aval(v):
    """value of an atomic"""
    return v.f["v"] if isinstance(v, SV) and "v" in v.f else v
def atom(eng, st, obj, name): return aval(field(eng, st, obj, name))

class Item:
    """verify one function of the real code"""
    def __init__(self, label, fn, nparams=None, setup=None, pre=None, post=None, contracts=(), pick=None, contract=None, tus=None, min_obls=1, frame=None, deadline=240, ob_timeout=20000, want=("return",)):
        self.label = label; self.fn = fn; self.nparams = nparams; self.setup = setup; self.pre = pre; self.post = post; self.contracts = contracts; self.pick = pick; self.contract = contract; self.tus = tus; self.min_obls = min_obls; self.frame = frame; self.deadline = deadline; self.ob_timeout = ob_timeout; self.want = want
    def find(self, prog):
        c = prog.byname.get(self.fn, [])
        if self.nparams is not None: c = [f for f in c if len(f.ps) == self.nparams]
        if self.pick: c = [f for f in c if self.pick(f)]
        if len(c) != 1: raise FrontError("function %s: %d candidates in the current tree" % (self.fn, len(c)))
        return c[0]

def make_engine(prog, item, common):
    eng = Engine(prog); eng.used_contracts = set()
    for c in list(common.get("contracts", [])) + list(item.contracts): 
        if not (item.contract is not None and c is item.contract): eng.contracts[c.fn] = c.apply
    if item.contract is not None: eng.contracts.pop(item.contract.fn, None)
    if common.get("setup"): common["setup"](eng)
    if item.setup: item.setup(eng)
    return eng

def run_item(prog, item, common, tier):
    r = Result(item.label, item.fn); t0 = time.time()
    try:
        fn = item.find(prog); r.loc = fn.loc
        eng = make_engine(prog, item, common); eng.deadline = time.time() + item.deadline
        st, this, args = eng.start(fn)
        if common.get("pre"): common["pre"](eng, st, this, args)
        if item.pre: item.pre(eng, st, this, args)
        for m in set(eng.guarded.values()): st.setg("held:" + m, z3.IntVal(0))
        if eng.guarded: eng.vocab.append(lambda eng, info: [("locks as before " + m, lambda s, m=m, e=info["entry"]: s.g("held:" + m) == e.g("held:" + m)) for m in sorted(set(eng.guarded.values())) if ("ghost", "held:" + m) in info["mods"]])
        ct = item.contract
        if ct is not None and ct.requires:
            for nm, f in ct.requires(eng, st, this, args): st.assume(f)
        old = st.copy()
        outs = eng.run(fn, st, this, args)
        feasible = {k: 0 for k in ("return", "throw")}
        for kind, s, p in outs:
            eng.cur_fn = fn.n
            if kind == "throw" and eng.infeasible(s, 2500): continue
            if kind in feasible: 
                if kind == "throw" or not eng.infeasible(s, 2500): feasible[kind] += 1
            if item.post: item.post(eng, old, s, this, args, kind, p)
            if ct is not None: check_contract(eng, ct, old, s, this, args, kind, p)
            if item.frame is not None: check_frame(eng, old, s, item.frame)
        r.assumed = sorted(eng.assumed); r.inlined = sorted(eng.inlined); r.contracts = sorted(eng.used_contracts); r.loops = [(a, b, len(c)) for a, b, c, d in eng.loop_log]; r.nsolver = eng.nsolver; r.solver = eng.tsolver
        r.covers = sum(feasible.values())
        for w in item.want:
            if not feasible.get(w): r.status = "vacuous"; r.note = "no feasible %s outcome: the proof would be vacuous" % w
        if r.status != "vacuous" and len(eng.obls) < item.min_obls: r.status = "vacuous"; r.note = "only %d obligations generated" % len(eng.obls)
        discharge(eng, r, item.ob_timeout * (3 if tier == "thorough" else 1))
        if r.status != "vacuous":
            sts = {o["status"] for o in r.obls}
            if "refuted" in sts: r.status = "refuted"
            elif "unknown" in sts: r.status = "undecided"; r.note = "solver could not decide: " + ", ".join(o["name"] for o in r.obls if o["status"] == "unknown")[:300]
    except (Unsupported, FrontError, CantMerge) as e:
        r.status = "undecided"; r.note = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        r.status = "undecided"; r.note = "engine: %s: %s at %s" % (type(e).__name__, e, traceback.format_exc(limit=-2).replace("\n", " | ")[-300:])
    r.secs = time.time() - t0
    return r

def check_contract(eng, ct, old, s, this, args, kind, p):
    if kind == "return":
        if ct.noreturn: eng.prove(s, F, "does not return")
        if ct.ensures:
            for nm, f in ct.ensures(eng, old, s, this, args, eng.rv(p, s) if p is not None else None): eng.prove(s, f, "ensures " + nm)
    else:
        match = next((t for t in ct.throws if t in eng.prog.bases_of(p.ty) or t == "*"), None)
        if match is None: eng.prove(s, F, "does not throw %s" % p.ty)
        elif ct.throw_ensures:
            for nm, f in ct.throw_ensures(eng, old, s, this, args, match): eng.prove(s, f, "on exception ensures " + nm)
    mods = ct.modifies(eng, old, this, args) if callable(ct.modifies) else ct.modifies
    check_frame(eng, old, s, mods)
def check_frame(eng, old, s, mods):
    """every heap location outside the modifies clause keeps its value (objects allocated by the call excepted)"""
    whole = {m for m in mods if isinstance(m, str)}
    whole |= {m.cls + "." + m.path[0][1] if False else "%s.%s" % (m.path[0][2], m.path[0][1]) for m in mods if isinstance(m, LV) and m.path}
    part = {}
    for m in mods:
        if isinstance(m, tuple): part.setdefault(m[0], []).append(m[1])
    for key, t in s.heap.items():
        t0 = old.heap.get(key)
        if t0 is None: t0 = eng.heap0.get(key)
        if t0 is t or key in whole: continue
        o = z3.Const(fresh_name("any_object"), I)
        excl = [o != a for a in getattr(eng, "allocs", [])] + [o != a for a in part.get(key, [])]
        eqs = []
        def cmp(x, y):
            if is_z3(x): eqs.append(z3.Select(x, o) == z3.Select(y, o))
            elif isinstance(x, SV):
                for n in x.f: cmp(x.f[n], y.f[n])
        cmp(t0, t)
        eng.prove(s, z3.Implies(And_(excl), And_(eqs)), "frame: %s is not modified" % key)

# ------------------------------------------------------------------ discharge
def relevant(fs, goal_syms_seed):
    return fs
def discharge(eng, r, timeout, budget=150):
    eng.lit_axioms(); ax = eng.axioms
    cache = {}; start = time.time()
    for o in eng.obls:
        t0 = time.time(); rec = {"name": o.name, "loc": o.loc, "fn": o.fn}
        key = (tuple(x.get_id() for x in o.pc), o.goal.get_id())
        if key in cache: st = cache[key]
        else:
            st = prove_one(ax, o.pc, o.goal, timeout, quick=time.time() - start > budget); cache[key] = st
            if st[0] == "unknown" and z3.is_false(o.goal) and o.name.endswith("is used only under its lock"): st = cache[key] = ("refuted", st[1], "no lock is taken on this path, which no solver could show to be impossible")
        rec["status"], rec["backend"], rec["detail"] = st
        rec["secs"] = round(time.time() - t0, 4); r.obls.append(rec)
def z3try(ax, pc, goal, ms, **kw):
    s = z3.Solver(); budget(s, ms)
    for k, v in kw.items(): s.set(k, v)
    s.add(*ax); s.add(*pc); s.add(z3.Not(goal)); return s, s.check()
def closed(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if z3.is_var(y) or z3.is_quantifier(y): return False
        todo += y.children()
    return True
def by_cases(ax, pc, goal, most=3):
    """split on the branch a merged path came from"""
    seen, todo, bs = set(), [goal], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and z3.is_bool(x) and x.decl().name().startswith("path!"): bs.append(x)
        elif z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_const(x.arg(0)) and closed(x.arg(0)): bs.append(x.arg(0))
        todo += x.children()
    if not bs: return False
    bs = sorted({b.get_id(): b for b in bs}.values(), key=lambda b: not z3.is_const(b))[:most]
    for k in range(1 << len(bs)):
        sub = [(b, z3.BoolVal(bool(k >> j & 1))) for j, b in enumerate(bs)]
        p2 = [z3.simplify(z3.substitute(f, *sub)) for f in pc] + [b if z3.is_true(v) else z3.Not(b) for b, v in sub]; g2 = z3.simplify(z3.substitute(goal, *sub))
        if any(z3.is_false(f) for f in p2) or z3.is_true(g2): continue
        for seed, ms in ((0, 1500), (2, 800), (3, 800)):
            s, c = z3try(ax, p2, g2, ms, **{"smt.mbqi": False, "random_seed": seed})
            if c == z3.unsat: break
        else: return False
    return True
def prove_one(ax, pc, goal, timeout, quick=False):
    """z3 by triggers only, then with model-based instantiation, then cvc5, then other seeds; a candidate model counts as a refutation"""
    g = z3.simplify(goal)
    if z3.is_true(g): return ("proved", "simplify", "")
    for seed, ms in ((0, 1500), (2, 800), (3, 800)) + (() if quick else ((5, 2000),)):
        s, c = z3try(ax, pc, goal, ms, **{"smt.mbqi": False, "random_seed": seed})
        if c == z3.unsat: return ("proved", "z3", "")
        if c == z3.sat: break
    if c != z3.sat and not quick and by_cases(ax, pc, goal): return ("proved", "z3 by cases", "")
    s, c = z3try(ax, pc, goal, 1000 if quick else 4000)
    if c == z3.unsat: return ("proved", "z3", "")
    if c == z3.sat: return ("refuted", "z3", model_text(s, pc, goal))
    reason = s.reason_unknown()
    if not quick:
        try:
            smt = s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + smt); nm = f.name
            try: out = subprocess.run([CVC5, "--tlimit=%d" % min(timeout, 10000), nm], capture_output=True, text=True, timeout=60).stdout.strip()
            finally: os.unlink(nm)
            if out.startswith("unsat"): return ("proved", "cvc5", "")
        except Exception: pass
        for kw in ({"smt.mbqi": False, "random_seed": 3}, {"random_seed": 7}):
            s2, c = z3try(ax, pc, goal, min(timeout, 10000) if timeout <= 20000 else timeout, **kw)
            if c == z3.unsat: return ("proved", "z3 " + str(kw), "")
            if c == z3.sat: return ("refuted", "z3", model_text(s2, pc, goal))
    # no proof: drop the quantified facts and look for a candidate model
    def quant(f):
        todo = [f]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return True
            todo += x.children()
        return False
    s3 = z3.Solver(); budget(s3, 5000); s3.add(*[f for f in ax if not quant(f)]); s3.add(*[f for f in pc if not quant(f)]); s3.add(z3.Not(goal))
    if "incomplete" in reason and s3.check() == z3.sat: return ("refuted", "z3 (candidate model, quantified facts not refuting)", model_text(s3, pc, goal))
    # a model of everything in which containers are empty or hold one element
    lens = []; seen = set(); todo = list(pc) + [goal]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.sort() == I and x.decl().name().split("!")[0].endswith(".len"): lens.append(x)
        elif z3.is_select(x) and x.sort() == I and z3.is_const(x.arg(0)) and x.arg(0).decl().name().split("!")[0].endswith(".len") and closed(x): lens.append(x)
        todo += x.children()
    for k in (0, 1) if lens else ():
        s4, c = z3try(ax, list(pc) + [l <= k for l in lens], goal, 2000)
        if c == z3.sat: return ("refuted", "z3 (small containers)", model_text(s4, pc, goal))
    if not quick:
        m = small_arrays(ax, pc, goal)
        if m is not None: return ("refuted", "z3 (containers over few keys)", m)
    return ("unknown", "z3/cvc5", reason)
def small_arrays(ax, pc, goal):
    """a model in which every unknown container maps all but a few keys to one value; found only if it satisfies every fact, quantified ones included. Not
    tried when a loop's unknown state takes part: there the model may be one that no run reaches."""
    consts = {}; seen = set(); todo = list(pc) + [goal]; used_ax = list(ax)
    def walk(todo):
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.decl().name().startswith("hv!"): return False
                consts[x.get_id()] = x
            todo += x.children()
        return True
    if not walk(todo): return None
    for f in ax: walk([f])
    def small(srt, nm):
        if not isinstance(srt, z3.ArraySortRef): return z3.Const(fresh_name("sm"), srt)
        d = z3.K(srt.domain(), small(srt.range(), nm))
        if srt.domain() == I:
            for i in range(3): d = z3.Store(d, z3.IntVal(i), small(srt.range(), nm))
        return d
    sub = [(c, small(c.sort(), c.decl().name())) for c in consts.values() if isinstance(c.sort(), z3.ArraySortRef)]
    if not sub: return None
    try:
        z = lambda f: z3.simplify(z3.substitute(f, *sub))
        s, c = z3try([z(f) for f in ax], [z(f) for f in pc], z(goal), 5000)
        if c != z3.sat: return None
        m = s.model(); return model_text(s, pc, goal) + "\n" + "\n".join("%s = %s" % (a, str(m.eval(b)).replace("\n", " ")[:300]) for a, b in sub)
    except z3.Z3Exception: return None
def model_text(s, pc, goal):
    try:
        m = s.model(); lines = []
        for d in m.decls():
            n = d.name()
            if d.arity() == 0 and not n.startswith(("lit", "k!", "elem!")): lines.append("%s = %s" % (n, str(m[d]).replace("\n", " ")[:160]))
        return "goal: %s\nmodel:\n%s" % (str(z3.simplify(goal))[:1500], "\n".join(sorted(lines)[:120]))
    except Exception as e: return "goal: %s\n(model unavailable: %s)" % (str(goal)[:800], e)

_G = {}
def _worker(i):
    prog, items, common, tier = _G["w"]
    return run_item(prog, items[i], common, tier)
def run_items(prog, items, common, tier, procs=8):
    _G["w"] = (prog, items, common, tier)
    if procs == 1 or len(items) == 1: return [_worker(i) for i in range(len(items))]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(items))) as pool:
        hs = [pool.apply_async(_worker, (i,)) for i in range(len(items))]
        out = []
        for i, h in enumerate(hs):
            try: out.append(h.get(timeout=700))
            except Exception as e:
                r = Result(items[i].label, items[i].fn); r.status = "undecided"; r.note = "worker: %r" % e; out.append(r)
        pool.terminate()
    return out
