"""P15: blocking-queue rate limits. A key is refused exactly while a block runs; a block starts exactly when the key's time in the window passes its threshold."""
import z3
from ..spec import *
from ..lib import forall, m_h
from .queue import TUS, cmdfield
CLS = "BedrockBlockingCommandQueue::"
KEYS = ("_identifierStates", "_commandStates")
def now_c(eng, st, this, args, n):
    t = z3.Const(fresh_name("now"), I); st.assume(And_([t >= st.g("now"), t < 1 << 62])); st.setg("now", t); st.setg("nnow", st.g("nnow") + 1); return t
def setup(eng):
    eng.solver_timeout = 1500
    eng.contracts[CLS + "_now"] = now_c; eng.contracts["STimeNow"] = now_c
def pre(eng, st, this, args):
    eng.bthis = this; t = z3.Const("now0", I); st.assume(And_([t >= 0, t < 1 << 62])); st.setg("now", t); st.setg("nnow", z3.IntVal(0))
# ---- one state
def sf(eng, st, p, f):
    cls = eng.prog.byname[CLS + "_isBlocked"]; return field(eng, st, stlv(eng, p), f)
def stlv(eng, p):
    k = next(k for k, r in eng.prog.records.items() if r["qn"] == CLS + "IdentifierState"); return eng.objlv(p, k) if False else LV("obj", p, Ty("rec", n=CLS + "IdentifierState", key=k), (), CLS + "IdentifierState")
def cm(eng, st, p):
    v = sf(eng, st, p, "commands"); return v.f["len"], v.f["el"].f["finishTime"], v.f["el"].f["elapsedTime"]
def mx(eng, st, p): return eng.read_raw(st, m_h(flv(eng, st, stlv(eng, p), "m")))
# contracts of the two lookups, verified below
def c_state(create):
    def c(eng, st, this, args, n):
        eng.used_contracts.add(CLS + ("_getOrCreateState" if create else "_getState") + " (verified by its own item)")
        st.setg("looked", eng.rv(args[1], st)); st.setg("nlook", st.g("nlook") + 1)
        p = st.g("state"); st.assume(p > 0) if create else None
        st.setg("made", T if create else st.g("made")); return p
    return c
def on_m(eng, st, lv, ev):
    if ev == "lock":
        p = st.g("state")
        for f in ("commands", "blockedUntil"):
            l = flv(eng, st, stlv(eng, p), f); eng.write(st, l, eng.fresh(l.ty, "rely"))
        n, ft, el = cm(eng, st, p); i = z3.Int("i!c"); st.assume(n >= 0)
        st.setg("n0", n); st.setg("ft0", ft); st.setg("el0", el); st.setg("bu0", sf(eng, st, p, "blockedUntil")); st.setg("nlock", st.g("nlock") + 1)
    elif ev == "pre_unlock":
        p = st.g("state"); n, ft, el = cm(eng, st, p); st.setg("n1", n); st.setg("ft1", ft); st.setg("el1", el); st.setg("bu1", sf(eng, st, p, "blockedUntil"))
AI = z3.ArraySort(I, I)
def pre_one(eng, st, this, args):
    for nm, so in (("n0", I), ("ft0", AI), ("el0", AI), ("bu0", I), ("n1", I), ("ft1", AI), ("el1", AI), ("bu1", I), ("state", I), ("looked", Str)): st.setg(nm, z3.Const(nm + "!", so))
    st.setg("nlook", z3.IntVal(0)); st.setg("made", F); st.setg("nlock", z3.IntVal(0)); st.assume(st.g("state") >= 0)
    st.assume(z3.Implies(st.g("state") > 0, mx(eng, st, st.g("state")) == 0))
def su_one(eng):
    eng.on_lock["m"] = on_m
    eng.contracts[CLS + "_getOrCreateState"] = c_state(True); eng.contracts[CLS + "_getState"] = c_state(False)
# ---- the window: definitions over the samples (old ones plus the new one), by index
KEPT = z3.Function("kept_before", I, I); SUM = z3.Function("time_before", I, I)
def sample(s, now, elapsed, i):
    n = s.g("n0"); return z3.If(i == n, now, z3.Select(s.g("ft0"), i)), z3.If(i == n, elapsed, z3.Select(s.g("el0"), i))
def inwin(s, now, elapsed, w, i):
    f, e = sample(s, now, elapsed, i); age = z3.If(now > f, now - f, 0); c = z3.If(e < w - age, e, w - age)
    return age < w, c
def define(eng, s, now, elapsed, w):
    """kept_before and time_before are defined by recursion over the samples"""
    i = z3.Int("i!d"); v, c = inwin(s, now, elapsed, w, i)
    s.assume(And_([KEPT(0) == 0, SUM(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, And_([KEPT(i + 1) == KEPT(i) + z3.If(v, 1, 0), SUM(i + 1) == SUM(i) + z3.If(v, c, 0), KEPT(i) >= 0, SUM(i) >= 0, SUM(i) < 1 << 63])), patterns=[KEPT(i), SUM(i)])]))
def rec_vocab(eng, info):
    out = []; e = info["entry"]; i = z3.Int("i!h"); p = e.g("state")
    nows, els, w = eng.rec_now, eng.rec_el, eng.rec_w
    its = [m[1] for m in info["mods"] if m[0] == "loc" and isinstance(e.locals.get(m[1]), It)]
    for k in its:
        q = lambda s, k=k: s.locals[k].pos
        er = lambda s: e.g("n0") + 1 - cm(eng, s, p)[0]
        out.append(("the position is in the list", lambda s, q=q: And_([q(s) >= 0, q(s) <= cm(eng, s, p)[0], er(s) >= 0])))
        out.append(("what was passed is counted", lambda s, q=q: q(s) == KEPT(q(s) + er(s))))
        out.append(("what was passed and is in the window is kept", lambda s, q=q: z3.ForAll([i], z3.Implies(And_([i >= 0, i < q(s) + er(s), inwin(e, nows, els, w, i)[0]]), And_([KEPT(i) < q(s), z3.Select(cm(eng, s, p)[1], KEPT(i)) == sample(e, nows, els, i)[0], z3.Select(cm(eng, s, p)[2], KEPT(i)) == sample(e, nows, els, i)[1]])), patterns=[KEPT(i)])))
        out.append(("what was not passed is unchanged", lambda s, q=q: z3.ForAll([i], z3.Implies(And_([i >= q(s), i < cm(eng, s, p)[0]]), And_([z3.Select(cm(eng, s, p)[1], i) == sample(e, nows, els, i + er(s))[0], z3.Select(cm(eng, s, p)[2], i) == sample(e, nows, els, i + er(s))[1]])))))
        for k2 in [m[1] for m in info["mods"] if m[0] == "loc" and is_z3(e.locals.get(m[1])) and e.locals[m[1]].sort() == I]:
            out.append(("the time passed is summed", lambda s, q=q, k2=k2: s.locals[k2] == SUM(q(s) + er(s))))
    out.append(("the block is untouched", lambda s: sf(eng, s, p, "blockedUntil") == e.g("bu0")))
    return out
def pre_rec(eng, st, this, args):
    pre_one(eng, st, this, args); eng.rec_now, eng.rec_el = args[3], args[4]; eng.rec_w = atom(eng, st, this, "_windowUS")
    st.assume(And_([args[3] >= 0, args[3] < 1 << 62, args[4] >= 0, args[4] < 1 << 62, eng.rec_w >= 0, eng.rec_w < 1 << 62, atom(eng, st, this, "_blockDurationUS") < 1 << 62, args[2] >= 0]))
    st.assume(And_([st.g("n0") >= 0])) ; define(eng, st, args[3], args[4], eng.rec_w)
def su_rec(eng):
    su_one(eng); eng.vocab.append(rec_vocab)
    # the state named by the ghosts is the one the lock shows
    def lk(e, st, lv, ev):
        if ev == "lock":
            p = st.g("state")
            for f in ("commands", "blockedUntil"):
                l = flv(e, st, stlv(e, p), f); e.write(st, l, e.fresh(l.ty, "rely"))
            n, ft, el = cm(e, st, p); st.assume(And_([n == st.g("n0"), ft == st.g("ft0"), el == st.g("el0"), sf(e, st, p, "blockedUntil") == st.g("bu0"), n >= 0])); st.setg("nlock", st.g("nlock") + 1)
        else: on_m(e, st, lv, ev)
    eng.on_lock["m"] = lk
def post_rec(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); A = [eng.rv(a, old) for a in args]; key, thr, now, el = A[1], A[2], A[3], A[4]; w = eng.rec_w; i = z3.Int("i!p")
    if kind == "throw": P(F, "no exception escapes"); return
    off = z3.Or(key == eng.lit(""), thr == 0); ran = s.g("nlook") == 1; q = s.g("state")
    P(z3.Implies(off, And_([s.g("nlook") == 0, s.g("nlock") == 0])), "a switched off limit or an empty key records nothing")
    P(z3.Implies(Not_(off), And_([ran, s.g("nlock") == 1, s.g("looked") == key, s.g("made")])), "otherwise the key's own entry is used")
    if eng.infeasible(s, 2000, [Not_(off)]) if False else False: return
    blk = s.g("bu0") > now; N = s.g("n0") + 1
    ch = And_([Not_(off), Not_(blk)])
    same = And_([s.g("n1") == s.g("n0"), s.g("ft1") == s.g("ft0"), s.g("el1") == s.g("el0"), s.g("bu1") == s.g("bu0")])
    P(z3.Implies(And_([Not_(off), blk]), same), "a running block is neither extended nor shortened, and nothing is recorded")
    P(z3.Implies(ch, z3.Implies(SUM(N) > thr, s.g("bu1") == now + atom(eng, old, this, "_blockDurationUS"))), "more time than the threshold in the window starts a block of the set length")
    P(z3.Implies(ch, z3.Implies(Not_(SUM(N) > thr), s.g("bu1") == s.g("bu0"))), "time up to the threshold starts no block")
    P(z3.Implies(ch, s.g("n1") == KEPT(N)), "exactly the samples in the window are kept")
    P(z3.Implies(ch, z3.ForAll([i], z3.Implies(And_([i >= 0, i < N, inwin(s, now, el, w, i)[0]]), And_([KEPT(i) < s.g("n1"), z3.Select(s.g("ft1"), KEPT(i)) == sample(s, now, el, i)[0], z3.Select(s.g("el1"), KEPT(i)) == sample(s, now, el, i)[1]])), patterns=[KEPT(i)])), "the samples kept are unchanged, in order")
    P(z3.Implies(s.g("state") > 0, mx(eng, s, q) == 0), "the entry's lock is released")
def post_is1(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); A = [eng.rv(a, old) for a in args]
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); has = And_([Not_(A[1] == eng.lit("")), s.g("state") > 0])
    P(z3.Implies(s.g("nlook") > 0, s.g("looked") == A[1]), "the key's own entry is used"); P(Not_(s.g("made")), "asking creates no entry")
    P(z3.Implies(has, And_([s.g("nlock") == 1, r == (s.g("bu0") > A[2])])), "a key is refused exactly while its block runs"); P(z3.Implies(Not_(has), Not_(r)), "a key without entry, or an empty key, is not refused")
    P(z3.Implies(s.g("nlock") == 1, And_([s.g("n1") == s.g("n0"), s.g("ft1") == s.g("ft0"), s.g("el1") == s.g("el0"), s.g("bu1") == s.g("bu0")])), "asking changes nothing")
# ---- both dimensions
def same_lv(a, b): return isinstance(a, LV) and isinstance(b, LV) and a.root is b.root and [x[1] for x in a.path] == [x[1] for x in b.path]
def dim(eng, st, lv):
    for j, k in enumerate(KEYS):
        if isinstance(lv, LV) and lv.path and lv.path[-1][1] == k: return j
    return None
def c_is1(eng, st, this, args, n):
    eng.used_contracts.add(CLS + "_isBlocked (verified by its own item)"); j = dim(eng, st, args[0])
    if j is None: raise Unsupported("which map is asked is not known")
    key, t = eng.rv(args[1], st), eng.rv(args[2], st); st.setg("t%d" % j, t); st.setg("k%d" % j, key); st.setg("a%d" % j, T); return z3.And(st.g("b%d" % j))
def pre_both(eng, st, this, args):
    for j in (0, 1):
        st.setg("t%d" % j, z3.IntVal(-1)); st.setg("k%d" % j, z3.Const("k%d!" % j, Str)); st.setg("a%d" % j, F); st.setg("b%d" % j, z3.Const("blocked%d" % j, B)); st.setg("th%d" % j, z3.IntVal(-1)); st.setg("e%d" % j, z3.IntVal(-1)); st.setg("c%d" % j, z3.IntVal(0))
def post_isb(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); A = [eng.rv(a, old) for a in args]
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); P(r == z3.Or(s.g("b0"), s.g("b1")), "a command is refused exactly when its identifier or its name is")
    for j in (0, 1): P(z3.Implies(s.g("a%d" % j), And_([s.g("t%d" % j) == s.g("now"), s.g("k%d" % j) == A[j]])), "the %s is looked up under its own limit, now" % ("identifier", "name")[j])
def c_rec(eng, st, this, args, n):
    eng.used_contracts.add(CLS + "_recordAndCheck (verified by its own item)"); j = dim(eng, st, args[0])
    if j is None: raise Unsupported("which map is recorded in is not known")
    A = [eng.rv(a, st) for a in args]
    st.setg("k%d" % j, A[1]); st.setg("th%d" % j, A[2]); st.setg("t%d" % j, A[3]); st.setg("e%d" % j, A[4]); st.setg("c%d" % j, st.g("c%d" % j) + 1)
def post_record(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); A = [eng.rv(a, old) for a in args]
    if kind == "throw": P(F, "no exception escapes"); return
    for j, (d, f) in enumerate((("identifier", "_identifierThresholdUS"), ("name", "_commandThresholdUS"))):
        P(And_([s.g("c%d" % j) == 1, s.g("k%d" % j) == A[j], s.g("e%d" % j) == A[2]]), "the time is recorded once against the " + d); P(And_([s.g("th%d" % j) == atom(eng, old, this, f), s.g("t%d" % j) == s.g("now")]), "the %s has its own threshold" % d)
def su_isb(eng): eng.contracts[CLS + "_isBlocked"] = c_is1
def su_record(eng): eng.contracts[CLS + "_recordAndCheck"] = c_rec
# ---- the maps
def states(eng, st, lv): return field(eng, st, lv, "states")
def post_look(create):
    def post(eng, old, s, this, args, kind, p):
        P = lambda f, nm: eng.prove(s, f, nm); m, k = args[0], eng.rv(args[1], old)
        if kind == "throw": P(F, "no exception escapes"); return
        a, b = states(eng, old, m), states(eng, s, m); r = eng.rv(p, s); j = z3.Const("k!l", Str); had = z3.Select(a.f["has"], k)
        P(eng.read_raw(s, m_h(flv(eng, s, m, "mapMutex"))) == 0, "the map's lock is released")
        P(z3.Implies(had, r == z3.Select(a.f["val"], k)), "an existing entry is returned")
        P(z3.ForAll([j], z3.Implies(j != k, And_([z3.Select(a.f["has"], j) == z3.Select(b.f["has"], j), z3.Select(a.f["val"], j) == z3.Select(b.f["val"], j)]))), "other entries are untouched")
        P(z3.Implies(had, And_([z3.Select(b.f["has"], k), z3.Select(b.f["val"], k) == z3.Select(a.f["val"], k)])), "an existing entry stays")
        if create: P(z3.Implies(Not_(had), And_([r > 0, z3.Select(b.f["has"], k), z3.Select(b.f["val"], k) == r, sf(eng, s, r, "blockedUntil") == 0, cm(eng, s, r)[0] == 0])), "a new entry starts empty and unblocked")
        else: P(z3.Implies(Not_(had), And_([r == 0, Not_(z3.Select(b.f["has"], k))])), "nothing is returned for an unknown key, and none is added")
    return post
def pre_look(eng, st, this, args): st.assume(eng.read_raw(st, m_h(flv(eng, st, args[0], "mapMutex"))) == 0)
def pre_clear(eng, st, this, args):
    for k in KEYS: st.assume(eng.read_raw(st, m_h(flv(eng, st, flv(eng, st, this, k), "mapMutex"))) == 0)
def post_clear(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); j = z3.Const("k!l", Str)
    if kind == "throw": P(F, "no exception escapes"); return
    for k in KEYS:
        m = flv(eng, s, this, k); P(z3.ForAll([j], Not_(z3.Select(states(eng, s, m).f["has"], j))), "no %s stays tracked or blocked" % ("identifier" if k == KEYS[0] else "name"))
        P(eng.read_raw(s, m_h(flv(eng, s, m, "mapMutex"))) == 0, "the lock is released")
def post_set(f):
    def post(eng, old, s, this, args, kind, p):
        P = lambda g, nm: eng.prove(s, g, nm)
        if kind == "throw": P(F, "no exception escapes"); return
        P(atom(eng, s, this, f) == eng.rv(args[0], old), "the new value is set"); P(eng.rv(p, s) == atom(eng, old, this, f), "the old value is returned")
        for g in ("_windowUS", "_identifierThresholdUS", "_commandThresholdUS", "_blockDurationUS"):
            if g != f: P(atom(eng, s, this, g) == atom(eng, old, this, g), "no other setting changes")
    return post
def items(prog):
    C = CLS
    return [Item("_recordAndCheck", C + "_recordAndCheck", setup=su_rec, pre=pre_rec, post=post_rec),
        Item("_isBlocked", C + "_isBlocked", setup=su_one, pre=pre_one, post=post_is1),
        Item("isBlocked", C + "isBlocked", setup=su_isb, pre=pre_both, post=post_isb),
        Item("recordExecutionTime", C + "recordExecutionTime", setup=su_record, pre=pre_both, post=post_record),
        Item("_getOrCreateState", C + "_getOrCreateState", pre=pre_look, post=post_look(True)),
        Item("_getState", C + "_getState", pre=pre_look, post=post_look(False)),
        Item("clearRateLimits", C + "clearRateLimits", pre=pre_clear, post=post_clear)] + [
        Item(a, C + a, post=post_set(f)) for a, f in (("setWindow", "_windowUS"), ("setIdentifierThreshold", "_identifierThresholdUS"), ("setCommandThreshold", "_commandThresholdUS"), ("setBlockDuration", "_blockDurationUS"))]
P15 = dict(common=dict(setup=setup, pre=pre), tus=TUS, items=items)
_h = [dict(name="queue", wrap=("sigaction",), bound="2000 (thorough 25000) random sequences of 120 operations on the rate limits under a set clock against a reference model, status included; threads recording, asking, clearing and inspecting at once")]
_a = ["the time samples of one key add up to less than 2^63 microseconds, and clock, window and block length lie below 2^62", "getState is only tested (bounded), not proved"]
P15 = dict(P15, harness=_h, assumptions=_a, frame=[(CLS + "IdentifierState", "blockedUntil"), (CLS + "IdentifierState", "commands"), (CLS + "StateMap", "states")])
