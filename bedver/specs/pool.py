"""P20: a database handle is lent to one user at a time; a page lock is held by one user at a time."""
import z3
from ..spec import *
from ..lib import forall, m_h, method, ok_pattern
from .server import used, anyv, fresh_b
TUS = ["sqlitecluster/SQLitePool.cpp", "ConflictLockGuard.cpp"]
AB = z3.ArraySort(I, B); AI = z3.ArraySort(I, I); k_, j_ = z3.Ints("k!p j!p")
# ---------------------------------------------------------------- the pool of handles
def A(eng, st): return field(eng, st, eng.pthis, "_availableHandles")
def U(eng, st): return field(eng, st, eng.pthis, "_inUseHandles")
def ob(eng, st): return field(eng, st, eng.pthis, "_objects")
def lim(eng, st): return field(eng, st, eng.pthis, "_maxDBs") - 1
def ha(v, k): return z3.Select(v.f["has"], k)
def pinv(eng, st):
    a, u, o = A(eng, st), U(eng, st), ob(eng, st); m = a.f["n"] + u.f["n"]
    return [("no handle is both lent and available", forall([k_], Not_(And_([ha(a, k_), ha(u, k_)])), ha(a, k_))),
            ("the handles given a number are exactly those lent or available", two(z3.Or(ha(a, k_), ha(u, k_)) == z3.And(k_ >= 0, k_ < m), ha(a, k_), ha(u, k_))),
            ("there are never more handles than the limit", And_([m <= lim(eng, st), m >= 0])), ("there is room for every handle", o.f["len"] == lim(eng, st) + 1)]
def two(body, p1, p2): return z3.ForAll([k_], body, patterns=[p1, p2]) if ok_pattern(p1) and ok_pattern(p2) else z3.ForAll([k_], body)
def oinv(eng, st):
    o = ob(eng, st); e = o.f["el"]; n = o.f["len"]; s = lambda x: z3.Select(e, x)
    return [("no two numbers stand for the same handle", z3.ForAll([k_, j_], z3.Implies(And_([k_ >= 0, k_ < n, j_ >= 0, j_ < n, k_ != j_, s(k_) != 0]), s(k_) != s(j_))))]
def held(eng, st): return eng.read_raw(st, m_h(flv(eng, st, eng.pthis, "_sync")))
def lock_pool(eng, st, lv, ev):
    if ev == "lock":
        for f in ("_availableHandles", "_inUseHandles"): l = flv(eng, st, eng.pthis, f); eng.write(st, l, eng.fresh(l.ty, f))
        for nm, f in pinv(eng, st): st.assume(f)
        own = st.g("own"); st.assume(z3.Implies(own >= 0, ha(U(eng, st), own))); keep(eng, st, "e")
    elif ev == "pre_unlock":
        for nm, f in pinv(eng, st): eng.prove(st, f, nm + " (when the lock is released)")
        keep(eng, st, "r"); st.setg("rel", st.g("rel") + 1)
def keep(eng, st, p):
    for nm, v in (("A", A(eng, st)), ("U", U(eng, st))): st.setg(p + nm, v.f["has"]); st.setg(p + nm + "n", v.f["n"])
def c_wait(eng, st, this, args, n):
    used(eng, "std::condition_variable::wait", "trusted: releases the lock while waiting and holds it again afterwards; may wake at any time"); P = lambda f, nm: eng.prove(st, f, nm)
    P(held(eng, st) == 1, "the wait releases a lock that is held"); P(And_([A(eng, st).f["n"] == 0, U(eng, st).f["n"] >= lim(eng, st)]), "nobody waits while a handle can be lent")
    P(And_([A(eng, st).f["has"] == st.g("eA"), U(eng, st).f["has"] == st.g("eU")]), "waiting changes nothing")
    lock_pool(eng, st, None, "lock"); return z3.Const(fresh_name("cv"), I) if eng.ty(n).k != "void" else None
def c_init(eng, st, this, args, n):
    used(eng, "SQLitePool::initializeIndex", "verified below"); i = eng.rv(args[0], st); eng.prove(st, And_([i >= 0, i < ob(eng, st).f["len"]]), "a handle is made only for a number in range"); eng.prove(st, held(eng, st) == 0, "making a handle does not keep others waiting")
    eng.prove(st, i == st.g("mine"), "a handle is made only for the number that was lent"); st.setg("made", st.g("made") + 1); a = z3.Const(fresh_name("db"), I); st.assume(a > 0); return eng.objlv(a, Ty("rec", n="SQLite", key=sqkey(eng)))
def sqkey(eng): return next(k for k, r in eng.prog.records.items() if r["qn"] == "SQLite")
def su_pool(eng):
    eng.on_lock["_sync"] = lock_pool; c = eng.contracts; c["std::condition_variable::wait"] = c_wait; c["SQLitePool::initializeIndex"] = c_init
    def notify(e, st, this, args, n): st.setg("notified", T)
    for f in ("notify_one", "notify_all"): c["std::condition_variable::" + f] = notify
    eng.vocab.append(lambda e, info: [("no number has been lent yet", lambda s: s.g("mine") == -1), ("no handle has been made", lambda s: s.g("made") == 0), ("the lock is free", lambda s: held(e, s) == 0)])
    # which number is being taken: remembered when it goes into the set of lent handles
    ins = method("std::set", "insert"); era = method("std::set", "erase")
    def insert(e, st, this, args, n):
        if this.path and this.path[-1][1] == "_inUseHandles":
            i = e.rv(args[0], st); e.prove(st, Not_(ha(U(e, st), i)), "a handle that is lent is not lent again"); st.setg("mine", i)
        if this.path and this.path[-1][1] == "_availableHandles":
            i = e.rv(args[0], st); e.prove(st, Not_(ha(A(e, st), i)), "a handle is returned once"); e.prove(st, i == st.g("own"), "only the handle that was lent to the caller is returned")
        return ins(e, st, this, args, n)
    c["std::set::insert"] = insert
def pre_pool(eng, st, this, args):
    eng.pthis = this
    for g, v in (("own", -1), ("mine", -1), ("made", 0), ("rel", 0)): st.setg(g, z3.IntVal(v))
    st.setg("notified", F); st.assume(held(eng, st) == 0)
    for p in ("e", "r"):
        for x in "AU": st.setg(p + x, z3.Const(p + x + "0", AB)); st.setg(p + x + "n", z3.Const(p + x + "n0", I))
    st.assume(field(eng, st, this, "_maxDBs") >= 1); st.assume(ob(eng, st).f["len"] == field(eng, st, this, "_maxDBs"))
    for nm, f in oinv(eng, st): st.assume(f)
def post_get(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); create = eng.rv(args[0], old); eA, eU, rA, rU = (s.g(x) for x in ("eA", "eU", "rA", "rU"))
    P(held(eng, s) == 0, "the lock is released"); P(z3.Not(z3.Select(eU, r)), "the handle was not lent to anyone else"); P(z3.Select(rU, r), "the handle is marked as lent")
    P(z3.ForAll([k_], And_([z3.Implies(k_ != r, z3.Select(rU, k_) == z3.Select(eU, k_)), z3.Implies(k_ != r, z3.Select(rA, k_) == z3.Select(eA, k_))])), "every other handle stays as it was")
    P(And_([r >= 0, r < lim(eng, s)]), "the number is within the limit"); P(z3.Implies(s.g("eAn") > 0, And_([z3.Select(eA, r), s.g("made") == 0])), "a handle that exists and is free is lent before another is made")
    P(z3.Implies(s.g("eAn") == 0, (s.g("made") == 1) == create), "a new handle is made at once only when asked for"); P(s.g("made") <= 1, "at most one handle is made")
def pre_return(eng, st, this, args): i = eng.rv(args[0], st); st.setg("own", i); st.assume(And_([i >= 0]))
def post_return(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(args[0], old); eA, eU, rA, rU = (s.g(x) for x in ("eA", "eU", "rA", "rU"))
    P(s.g("rel") == 1, "the lock is taken once"); P(held(eng, s) == 0, "the lock is released"); P(And_([z3.Select(rA, r), z3.Not(z3.Select(rU, r))]), "the handle is available again, and no longer lent")
    P(z3.ForAll([k_], And_([z3.Implies(k_ != r, z3.Select(rU, k_) == z3.Select(eU, k_)), z3.Implies(k_ != r, z3.Select(rA, k_) == z3.Select(eA, k_))])), "every other handle stays as it was"); P(s.g("notified"), "a waiting user is told")
# ---- making a handle
def su_init(eng):
    def new(e, st, this, args, n):
        used(e, "SQLite::SQLite(const SQLite&)", "trusted: a handle of its own on the same database (verified under P01)"); a = this.root if isinstance(this, LV) else this; st.setg("news", st.g("news") + 1); o = ob(e, e.old_); st.assume(z3.ForAll([k_], z3.Implies(And_([k_ >= 0, k_ < o.f["len"]]), z3.Select(o.f["el"], k_) != a)))
        src = args[0]; e.prove(st, same_place(e, src, flv(e, st, e.pthis, "_baseDB")), "every handle is made from the base handle")
    eng.contracts["new:SQLite"] = new
def same_place(eng, a, b):
    a = a.lv if isinstance(a, RefTo) else a
    return (a.root == b.root if is_z3(a.root) and is_z3(b.root) else z3.BoolVal(a.root == b.root)) if isinstance(a, LV) and a.kind == b.kind and a.path == b.path else F
def pre_init(eng, st, this, args): st.setg("news", z3.IntVal(0)); i = eng.rv(args[0], st); st.assume(And_([i >= 0, i < ob(eng, st).f["len"]])); eng.old_ = st.copy()
def post_init(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    i = eng.rv(args[0], old); o, o2 = ob(eng, old), ob(eng, s); e, e2 = o.f["el"], o2.f["el"]; r = p.lv if isinstance(p, RefTo) else p
    P(And_([o2.f["len"] == o.f["len"], z3.ForAll([k_], z3.Implies(And_([k_ >= 0, k_ < o.f["len"], k_ != i]), z3.Select(e2, k_) == z3.Select(e, k_)))]), "no other handle is touched")
    P(z3.Implies(z3.Select(e, i) != 0, And_([z3.Select(e2, i) == z3.Select(e, i), s.g("news") == 0])), "a handle that exists is used again"); P(z3.Implies(z3.Select(e, i) == 0, s.g("news") == 1), "a handle is made once")
    P(z3.Select(e2, i) != 0, "there is a handle"); P(r.root == z3.Select(e2, i) if isinstance(r, LV) and r.kind == "obj" and not r.path else F, "the handle of that number is returned")
    for nm, f in oinv(eng, s): P(f, nm)
# ---- making and ending the pool
def pre_new(eng, st, this, args): eng.pthis = this
def post_pctor(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    n = eng.rv(args[0], old); P(field(eng, s, this, "_maxDBs") == z3.If(n >= 1, n, 1), "the limit is the one asked for, and at least one")
    o = ob(eng, s); P(And_([A(eng, s).f["n"] == 0, U(eng, s).f["n"] == 0, o.f["len"] == field(eng, s, this, "_maxDBs")]), "a new pool has lent nothing"); P(z3.ForAll([k_], z3.Implies(And_([k_ >= 0, k_ < o.f["len"]]), z3.Select(o.f["el"], k_) == 0)), "a new pool has no handle")
def su_pctor(eng):
    def c_sq(e, st, this, args, n): used(e, "SQLite::SQLite", "verified under P01/P02; does not touch the pool")
    eng.contracts["SQLite::SQLite"] = c_sq
def dead(s, x): return z3.Select(s.g("dead"), x)
def su_end(eng):
    def dele(e, st, v, n): v = e.rv(v, st); e.prove(st, z3.Implies(v != 0, Not_(dead(st, v))), "a handle is destroyed once"); st.setg("dead", z3.If(v != 0, z3.Store(st.g("dead"), v, T), st.g("dead")))
    eng.contracts["delete:SQLite"] = dele; eng.vocab.append(end_vocab); pass
    def lock(e, st, lv, ev): pass
    eng.on_lock["_sync"] = lock
def end_vocab(eng, info):
    o0 = ob(eng, eng.old_); e0, n0 = o0.f["el"], o0.f["len"]; el = lambda s: ob(eng, s).f["el"]; inr = And_([k_ >= 0, k_ < n0]); ik = info.get("ixk"); a0 = A(eng, eng.old_)
    out = [("room", lambda s: ob(eng, s).f["len"] == n0), ("a handle still named is alive", lambda s: z3.ForAll([k_], z3.Implies(And_([inr, z3.Select(el(s), k_) != 0]), And_([z3.Select(el(s), k_) == z3.Select(e0, k_), Not_(dead(s, z3.Select(e0, k_)))])))),
           ("a handle no longer named is destroyed", lambda s: z3.ForAll([k_], z3.Implies(And_([inr, z3.Select(el(s), k_) == 0, z3.Select(e0, k_) != 0]), dead(s, z3.Select(e0, k_))))), ("the available handles are gone", lambda s: z3.ForAll([k_], z3.Implies(ha(a0, k_), z3.Select(el(s), k_) == 0)))]
    if info["kind"] == "rangemap": out.append(("those seen are gone", lambda s: z3.ForAll([k_], z3.Implies(z3.Select(s.locals[ik], k_), z3.Select(el(s), k_) == 0))))
    return out
def pre_end(eng, st, this, args):
    for nm, f in pinv(eng, st): st.assume(f)
    o = ob(eng, st); m = A(eng, st).f["n"] + U(eng, st).f["n"]; st.assume(z3.ForAll([k_], z3.Implies(And_([k_ >= m, k_ < o.f["len"]]), z3.Select(o.f["el"], k_) == 0))); st.setg("dead", z3.K(I, F)); eng.old_ = st.copy()
def post_end(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); o = ob(eng, old)
    if kind == "throw": P(F, "no exception escapes"); return
    P(z3.ForAll([k_], z3.Implies(And_([k_ >= 0, k_ < o.f["len"], z3.Select(o.f["el"], k_) != 0]), dead(s, z3.Select(o.f["el"], k_)))), "every handle is destroyed")
# ---- scoped handles
def su_scope(eng):
    def ret(e, st, this, args, n): used(e, "SQLitePool::returnToPool", "verified above"); e.prove(st, And_([st.g("rets") == 0, Not_(st.g("was"))]), "a handle is returned once"); e.prove(st, e.rv(args[0], st) == st.g("idx"), "the handle that was lent is returned"); e.prove(st, z3.BoolVal(True) if poolof(e, st, this) is None else poolof(e, st, this), "it is returned to its own pool"); st.setg("rets", st.g("rets") + 1)
    def init(e, st, this, args, n): used(e, "SQLitePool::initializeIndex", "verified above"); e.prove(st, e.rv(args[0], st) == st.g("idx"), "the handle that was lent is used"); a = z3.Const("db_of", I); st.assume(a > 0); st.setg("inits", st.g("inits") + 1); return e.objlv(a, Ty("rec", n="SQLite", key=sqkey(e)))
    eng.contracts["SQLitePool::returnToPool"] = ret; eng.contracts["SQLitePool::initializeIndex"] = init
def poolof(e, st, this):
    v = e.read_raw(st, flv(e, st, e.scthis, "_pool"));
    return this.root == v if is_z3(v) and isinstance(this, LV) and this.kind == "obj" else None
def pre_scope(eng, st, this, args):
    eng.scthis = this; st.setg("rets", z3.IntVal(0)); st.setg("inits", z3.IntVal(0)); st.setg("idx", atom(eng, st, this, "_index")); st.setg("was", atom(eng, st, this, "_released"))
def post_release(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(s.g("rets") == z3.If(s.g("was"), 0, 1), "a handle that is still lent is returned"); P(atom(eng, s, this, "_released"), "the handle counts as returned")
    P(atom(eng, s, this, "_index") == s.g("idx"), "the number stays")
def post_dtor(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(s.g("rets") == z3.If(s.g("was"), 0, 1), "a handle that is still lent is returned")
def post_sctor(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(atom(eng, s, this, "_index") == eng.rv(args[1], old), "the number is remembered"); P(Not_(atom(eng, s, this, "_released")), "the handle is lent")
def post_db(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); r = p.lv if isinstance(p, RefTo) else p
    if kind == "throw": P(F, "no exception escapes"); return
    P(And_([s.g("inits") == 1, s.g("rets") == 0]), "the handle is asked for, and stays lent"); P(r.root == z3.Const("db_of", I) if isinstance(r, LV) and r.kind == "obj" else F, "the handle of that number is used")
P20P = dict(common=dict(), tus=TUS, items=lambda prog: [
    Item("getIndex", "SQLitePool::getIndex", setup=su_pool, pre=pre_pool, post=post_get), Item("returnToPool", "SQLitePool::returnToPool", setup=su_pool, pre=lambda *a: (pre_pool(*a), pre_return(*a)), post=post_return),
    Item("initializeIndex", "SQLitePool::initializeIndex", setup=su_init, pre=lambda *a: (pre_pool(*a), pre_init(*a)), post=post_init),
    Item("SQLitePool", "SQLitePool::SQLitePool", setup=su_pctor, pre=pre_new, post=post_pctor), Item("~SQLitePool", "SQLitePool::~SQLitePool", setup=su_end, pre=lambda *a: (pre_pool(*a), pre_end(*a)), post=post_end),
    Item("scoped handle", "SQLiteScopedHandle::SQLiteScopedHandle", setup=su_scope, pre=lambda e, st, this, a: (pre_scope(e, st, this, a)), post=post_sctor), Item("scoped handle release", "SQLiteScopedHandle::release", setup=su_scope, pre=pre_scope, post=post_release),
    Item("scoped handle end", "SQLiteScopedHandle::~SQLiteScopedHandle", setup=su_scope, pre=pre_scope, post=post_dtor), Item("scoped handle use", "SQLiteScopedHandle::db", setup=su_scope, pre=pre_scope, post=post_db)])
# ---------------------------------------------------------------- page locks
# std::list is known by what its users rely on: elements stay where they are, an iterator is good until its element is erased, walking back
# from the end passes each of the size() elements once. el: which elements are there; lv: their values; front: the first one; size.
def page_havoc(eng, st):
    for nm in ("mutexes", "mutexCounts", "mutexOrderFastLookup"): l = gl(eng, st, nm); eng.write(st, l, eng.fresh(l.ty, nm))
    for g, so in (("el", AB), ("lv", AI), ("front", I), ("size", I), ("holders", AI)): st.setg(g, z3.Const(fresh_name(g), so))
    for nm, f in page_inv(eng, st): st.assume(f)
def gl(eng, st, name):
    g = "ConflictLockGuard::" + name
    if g not in eng.prog.globals: raise Unsupported("no global " + g)
    return eng.global_lv({"g": g}, st, eng.prog.globals[g]["t"])
def M(eng, st, name): return eng.read(st, gl(eng, st, name))
def H(st, k): return z3.Select(st.g("holders"), k)
def page_inv(eng, st):
    m, c, l = (M(eng, st, x) for x in ("mutexes", "mutexCounts", "mutexOrderFastLookup")); el, lv, size = st.g("el"), st.g("lv"), st.g("size"); k, e = z3.Ints("k!pg e!pg"); cv = lambda k: z3.Select(c.f["val"], k); lo = lambda k: z3.Select(l.f["val"], k)
    return [("every page lock has a count of users", forall([k], ha(m, k) == ha(c, k), ha(m, k))), ("and a place in the order", forall([k], ha(m, k) == ha(l, k), ha(m, k))), ("and back (count)", forall([k], ha(m, k) == ha(c, k), ha(c, k))), ("and back (order)", forall([k], ha(m, k) == ha(l, k), ha(l, k))),
            ("the count of users is right", forall([k], z3.Implies(ha(m, k), cv(k) == H(st, k)), cv(k))), ("only a page lock that exists has users", forall([k], And_([H(st, k) >= 0, z3.Implies(H(st, k) > 0, ha(m, k))]), H(st, k))),
            ("the place in the order is the lock's own", forall([k], z3.Implies(ha(l, k), And_([z3.Select(el, lo(k)), z3.Select(lv, lo(k)) == k])), lo(k))), ("every place in the order belongs to a lock", forall([e], z3.Implies(z3.Select(el, e), And_([ha(l, z3.Select(lv, e)), lo(z3.Select(lv, e)) == e])), z3.Select(el, e))),
            ("the order has one place for each lock", And_([size == m.f["n"], size == l.f["n"], size == c.f["n"], size >= 0])), ("no place is nothing", Not_(z3.Select(el, 0))), ("the first place is there", z3.Implies(size > 0, z3.Select(el, st.g("front"))))]
def lock_pages(eng, st, lv, ev):
    if ev == "lock":
        eng.prove(st, Not_(st.g("ctl")), "the control lock is not taken twice"); st.setg("ctl", T); page_havoc(eng, st); st.assume(z3.Implies(st.g("mine"), And_([H(st, st.g("id")) >= 1]))); st.assume(And_([z3.Implies(H(st, st.g("id")) > 0, H(st, st.g("id")) < 2 ** 62)])); st.setg("h0", st.g("holders")); eng.atlock = st.copy()
    elif ev == "pre_unlock":
        inc = st.g("way"); i = st.g("id"); h0 = st.g("h0"); st.setg("holders", z3.Store(h0, i, z3.Select(h0, i) + inc))
        for nm, f in page_inv(eng, st): eng.prove(st, f, nm + " (when the control lock is released)")
        st.setg("mine", inc > 0); st.setg("ctl", F); st.setg("rounds", st.g("rounds") + 1)
def su_page(eng):
    c = eng.contracts; eng.pg = {}; eng.on_lock["controlMutex"] = lock_pages; P = eng.prove
    def listname(this): return this.path[-1][1] if this.path else (this.root[1] if isinstance(this.root, tuple) else "")
    def node(e, st, nm="node"): return z3.Const(fresh_name(nm), I)
    def gone(e, st, it): P(st, And_([it != 0, z3.Select(st.g("el"), it)]), "the order is used only at places that are there")
    def push(e, st, this, args, n):
        v = e.rv(args[0], st); x = node(e, st); el = st.g("el"); st.assume(And_([x > 0, Not_(z3.Select(el, x))])); st.setg("el", z3.Store(el, x, T)); st.setg("lv", z3.Store(st.g("lv"), x, v)); st.setg("front", x); st.setg("size", st.g("size") + 1); st.setg("nb", node(e, st, "nb"))
    def begin(e, st, this, args, n): r = node(e, st); st.assume(z3.If(st.g("size") > 0, r == st.g("front"), r == 0)); st.setg("walk", r); st.setg("nb", z3.IntVal(0)); return r
    def end(e, st, this, args, n): st.setg("walk", z3.IntVal(0)); st.setg("nb", st.g("size")); return z3.IntVal(0)
    def front(e, st, this, args, n): P(st, st.g("size") > 0, "the order has a first place"); return LV("tmp", z3.Select(st.g("lv"), st.g("front")), Ty("int", w=64, s=0))
    def back(e, st, this, args, n): P(st, st.g("size") > 0, "the order has a last place"); x = node(e, st); st.assume(z3.Select(st.g("el"), x)); return LV("tmp", z3.Select(st.g("lv"), x), Ty("int", w=64, s=0))
    def erase(e, st, this, args, n):
        it = e.rv(args[0], st); gone(e, st, it); el = z3.Store(st.g("el"), it, F); size = st.g("size") - 1; nx, fr, nb = node(e, st, "next"), node(e, st, "front"), node(e, st, "nb"); same = it == st.g("walk"); st.setg("el", el); st.setg("size", size)
        st.assume(Or_([nx == 0, z3.Select(el, nx)])); st.assume(z3.If(it == st.g("front"), z3.Implies(size > 0, z3.Select(el, fr)), fr == st.g("front"))); st.assume(z3.Implies(same, nb == st.g("nb"))); st.assume(And_([nb >= 0, nb <= size])); st.setg("front", fr); st.setg("nb", nb); st.setg("walk", nx); return nx
    def popback(e, st, this, args, n): P(st, st.g("size") > 0, "the order has a last place"); x = node(e, st); st.assume(z3.Select(st.g("el"), x)); st.assume(z3.Implies(x == st.g("front"), st.g("size") == 1)); st.setg("el", z3.Store(st.g("el"), x, F)); st.setg("size", st.g("size") - 1); st.setg("walk", node(e, st)); st.setg("nb", node(e, st, "nb"))
    def U(f): 
        def g(e, st, this, args, n): used(e, "std::list<uint64_t>", "trusted: elements stay in place; an iterator is good until its element is erased"); return f(e, st, this, args, n)
        return g
    for k, f in (("push_front", push), ("push_back", push), ("begin", begin), ("end", end), ("front", front), ("back", back), ("erase", erase), ("pop_back", popback), ("size", lambda e, st, this, a, n: st.g("size")), ("empty", lambda e, st, this, a, n: st.g("size") == 0)): c["std::list::" + k] = U(f)
    def dec(e, st, this, args, n):
        it = e.rv(e.read_raw(st, this), st); P(st, it == st.g("walk"), "the walk through the order is not lost") if False else None
        P(st, z3.Implies(it == st.g("walk"), st.g("nb") > 0), "the walk does not leave the order"); P(st, it == st.g("walk"), "the walk goes on from where it was"); x = node(e, st, "prev"); st.assume(z3.Select(st.g("el"), x)); nb = st.g("nb") - 1; st.assume((nb == 0) == (x == st.g("front"))); st.setg("walk", x); st.setg("nb", nb); e.write(st, this, x); return x if len(n.get("pt", [])) == 1 else this
    def inc(e, st, this, args, n):
        it = e.rv(e.read_raw(st, this), st); gone(e, st, it); x = node(e, st, "next"); nb = st.g("nb") + 1; st.assume(z3.If(nb < st.g("size"), z3.Select(st.g("el"), x), x == 0)); st.setg("walk", x); st.setg("nb", nb); e.write(st, this, x); return x if len(n.get("pt", [])) == 1 else this
    def star(e, st, this, args, n): it = e.rv(e.read_raw(st, this), st); gone(e, st, it); return LV("tmp", z3.Select(st.g("lv"), it), Ty("int", w=64, s=0))
    def assign(e, st, this, args, n): e.write(st, this, e.rv(args[0], st)); return this
    for k, f in (("operator--", dec), ("operator++", inc), ("operator*", star), ("operator=", assign)): c["std::_List_iterator::" + k] = U(f)
    # the page lock itself
    def keyof(e, st, this):
        p = [x for x in this.path if x[0] == "k"]; return p[-1][1] if p else None
    def lock(e, st, this, args, n):
        k = keyof(e, st, this)
        if k is None: from ..lib import m_lock; m_lock(e, st, this); return
        P(st, Not_(st.g("ctl")), "nobody waits for a page with the control lock held"); P(st, k == st.g("id"), "the lock of the page asked for is taken"); P(st, st.g("mine"), "a lock is waited for only by those counted as its users"); P(st, st.g("locked") == 0, "a page is locked once"); st.setg("locked", st.g("locked") + 1)
    def unlock(e, st, this, args, n):
        k = keyof(e, st, this)
        if k is None: from ..lib import m_unlock; m_unlock(e, st, this); return
        P(st, k == st.g("id"), "the lock of the page held is released"); P(st, st.g("locked") == 1, "a page lock is released once, by its holder"); P(st, ha(M(e, st, "mutexes"), k), "a lock is released only while it exists") ; st.setg("locked", st.g("locked") - 1)
    c["std::mutex::lock"] = lock; c["std::mutex::unlock"] = unlock
    def try_(e, st, this, args, n): raise Unsupported("try_lock of a page lock")
    c["std::mutex::try_lock"] = try_
    er = method("std::map", "erase"); em = method("std::map", "emplace")
    def erasemap(e, st, this, args, n):
        if isinstance(this, LV) and nameof(this) == "mutexes":
            v = e.rv(args[0], st); k = v.pos if isinstance(v, It) else v; P(st, H(st, k) + z3.If(And_([k == st.g("id")]), st.g("way"), 0) <= 0, "a page lock is destroyed only when nobody holds it or waits for it")
        return er(e, st, this, args, n)
    c["std::map::erase"] = erasemap
    def fwd(e, st, this, args, n): return SV(Ty("rec", n="std::tuple", a=(), key="fwd"), {"_%d" % i: e.rv(a, st) for i, a in enumerate(args)})
    c["std::forward_as_tuple"] = fwd
    def emplace(e, st, this, args, n):
        if nameof(this) != "mutexes": return em(e, st, this, args, n)
        v = e.rv(args[1], st) if len(args) == 3 else None
        if not isinstance(v, SV) or "_0" not in v.f: raise Unsupported("page lock made otherwise")
        k = v.f["_0"]; m = e.read(st, this); e.write(st, this, SV(m.ty, {"has": z3.Store(m.f["has"], k, T), "n": z3.If(ha(m, k), m.f["n"], m.f["n"] + 1), "val": m.f["val"]})); return SV(e.ty(n), {"first": It("map", this, k, F), "second": Not_(ha(m, k))})
    c["std::map::emplace"] = emplace
    eng.vocab.append(page_vocab)
def nameof(lv): return lv.path[-1][1] if lv.path and lv.path[-1][0] == "f" else (str(lv.root[1]).split("::")[-1] if isinstance(lv.root, tuple) and len(lv.root) > 1 else "")

def page_vocab(eng, info):
    e = info["entry"]; out = [(nm, lambda s, j=j: page_inv(eng, s2_(eng, s))[j][1]) for j, (nm, f) in enumerate(page_inv(eng, s2_(eng, e)))]
    out += [("users do not change", lambda s: s.g("holders") == e.g("holders")), ("the control lock is held", lambda s: s.g("ctl")), ("the page is there", lambda s: ha(M(eng, s, "mutexes"), s.g("id"))), ("no page is locked yet", lambda s: s.g("locked") == e.g("locked"))]
    for k, v in e.locals.items():
        if is_z3(v) and v.sort() == I and not (isinstance(k, tuple) and k[0] == "g"):
            for m in info["mods"]:
                if m[0] == "loc" and m[1] == k: out += [("the walk", lambda s, k=k: s.locals[k] == s.g("walk")), ("steps back", lambda s, k=k: s.g("nb") + s.locals[k] == e.g("size")), ("counted up", lambda s, k=k: s.locals[k] >= 0)]
    return out
def s2_(eng, s):
    """the state with the users as they will be counted when the control lock is released"""
    t = s.copy(); i = s.g("id"); t.setg("holders", z3.Store(s.g("holders"), i, z3.Select(s.g("holders"), i) + s.g("way"))); return t
def pre_page(way):
    def pre(eng, st, this, args):
        i = atom(eng, st, this, "_identifier") if way < 0 else eng.rv(args[0], st); st.setg("id", i); st.setg("way", z3.IntVal(way)); st.setg("ctl", F); st.setg("mine", z3.BoolVal(way < 0)); st.setg("locked", z3.If(i == 0, 0, 1) if way < 0 else z3.IntVal(0)); st.setg("rounds", z3.IntVal(0)); st.setg("h0", z3.Const("h00", AI)); st.setg("walk", z3.IntVal(-1)); st.setg("nb", z3.IntVal(0))
        for nm in ("mutexes", "mutexCounts", "mutexOrderFastLookup"): gl(eng, st, nm)
        for g, so in (("el", AB), ("lv", AI), ("front", I), ("size", I), ("holders", AI)): st.setg(g, z3.Const("pg_" + g, so))
    return pre
def post_page(way):
    def post(eng, old, s, this, args, kind, p):
        P = lambda f, nm: eng.prove(s, f, nm)
        if kind == "throw": P(F, "no exception escapes"); return
        i = s.g("id"); none = i == 0; want = 1 if way > 0 else 0
        P(s.g("rounds") == z3.If(none, 0, 1), "a user is counted once, and only for a page"); P(Not_(s.g("ctl")), "the control lock is released"); P(s.g("locked") == z3.If(none, 0, want), "the page is locked from the start to the end of its guard" if way > 0 else "the page is unlocked when its guard ends"); P(atom(eng, s, this, "_identifier") == i if way > 0 else T, "the guard knows its page")
    return post
P20L = dict(common=dict(), tus=TUS, items=lambda prog: [Item("ConflictLockGuard", "ConflictLockGuard::ConflictLockGuard", setup=su_page, pre=pre_page(1), post=post_page(1)), Item("~ConflictLockGuard", "ConflictLockGuard::~ConflictLockGuard", setup=su_page, pre=pre_page(-1), post=post_page(-1))])
FR = [("SQLitePool", "_availableHandles"), ("SQLitePool", "_inUseHandles"), ("SQLitePool", "_objects"), ("SQLitePool", "_maxDBs"), ("SQLiteScopedHandle", "_released"), ("SQLiteScopedHandle", "_index"), ("ConflictLockGuard", "_identifier")]
P20 = dict(parts=[dict(P20P, frame=FR), P20L],
    assumptions=["std::mutex, std::condition_variable, std::list: their standard contracts", "a user returns a handle only through what lent it, and does not use it afterwards", "a guard is destroyed by the thread that made it"],
    harness=[dict(name="pool", bound="25 (thorough 150) random sequences of 40 operations on a pool against a model, with a waiting user; 25 (thorough 200) sequences of 900 page locks; 8 threads competing for handles and for pages")])
