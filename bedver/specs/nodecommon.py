"""Contracts and views shared by the SQLiteNode specifications."""
import z3
from ..spec import *
from ..lib import cat, S_toull, S_toll, m_h, forall, int2str
from .. import lib as L
from . import sqcommon as C
TUS = ["sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLite.cpp", "libstuff/SData.cpp", "sqlitecluster/SQLitePeer.cpp", "libstuff/SQResult.cpp"]
STATES = ["UNKNOWN", "SEARCHING", "SYNCHRONIZING", "WAITING", "STANDINGUP", "LEADING", "STANDINGDOWN", "SUBSCRIBING", "FOLLOWING"]
def SV_(eng, name):
    """value of a SQLiteNodeState enumerator"""
    for k, e in eng.prog.enums.items():
        if k.endswith("SQLiteNodeState"):
            for x in e["consts"] if isinstance(e, dict) and "consts" in e else (e.items() if isinstance(e, dict) else e):
                if x[0].split("::")[-1] == name: return x[1]
    raise FrontError("no enumerator SQLiteNodeState::" + name)
RESP = {"NONE": 0, "APPROVE": 1, "DENY": 2}

# ---- views
def plist(eng, st, node): return flv(eng, st, node, "_peerList")
def pl_(eng, st, node): v = eng.read(st, plist(eng, st, node)); return v
def pty(eng, node): 
    t = next(f for f in eng.prog.all_fields(strip(node.ty).key) if f[0] == "_peerList")[1]
    return strip(t).a[0].to
def peer(eng, addr, node): return eng.objlv(addr, pty(eng, node))
def pf(eng, st, node, addr, name): return atom(eng, st, peer(eng, addr, node), name)
def full(eng, st, node, p): return Not_(pf(eng, st, node, p, "permaFollower"))
def db(eng, st, node): return flv(eng, st, node, "_db")
def state(eng, st, node): return atom(eng, st, node, "_state")
def dbv(eng, st, node): return C.view(eng, st, db(eng, st, node))

def in_states(eng, v, *names): return Or_([v == SV_(eng, n) for n in names])

# ---- what other functions see of a message
GM = ("sm_method", "sm_content", "sm_has", "sm_val")
def msgval(eng, st, m): return eng.rv(m, st)
def log_to(eng, st, p, v):
    """ghost: message v was handed to peer p; the log follows one arbitrary peer"""
    is0 = p == getattr(eng, "plog", eng.p0)
    m = v.f["nameValueMap"]
    for g, x in (("sm_method", v.f["methodLine"]), ("sm_content", v.f["content"]), ("sm_has", m.f["has"]), ("sm_val", m.f["val"])): st.setg(g, z3.If(is0, x, st.g(g)))
    st.setg("sn", st.g("sn") + z3.If(is0, 1, 0)); st.setg("sany", st.g("sany") + 1)
def ghosts(eng, st):
    for g, s in (("sn", I), ("sany", I), ("sm_method", Str), ("sm_content", Str), ("sm_has", z3.ArraySort(Str, B)), ("sm_val", z3.ArraySort(Str, Str)), ("resets", I), ("downs", I), ("chgn", I), ("chg", I)):
        st.setg(g, z3.Const("g_" + g, s))
    st.assume(st.g("sn") >= 0)
def send_message(eng, st, this, args, n):
    """SQLitePeer::sendMessage: serialises the message onto the peer's socket, if connected (network boundary)"""
    eng.used_contracts.add("SQLitePeer::sendMessage [trusted: network boundary; writes the serialised message to the peer's socket]")
    v = msgval(eng, st, args[0])
    h = getattr(eng, "on_send", None)
    if h: h(eng, st, this.root, v)
    log_to(eng, st, this.root, v)
def to_all(eng, st, this, args, n):
    """_sendToAllPeers: verified by its own item"""
    eng.used_contracts.add("SQLiteNode::_sendToAllPeers (verified by its own item)")
    v = msgval(eng, st, args[0]); sub = eng.rv(args[1], st) if len(args) > 1 else F
    h = getattr(eng, "on_all", None)
    if h: h(eng, st, this, v, sub)
    p = eng.p0; got = And_([Not_(pf(eng, st, this, p, "forked")), Or_([Not_(sub), pf(eng, st, this, p, "subscribed")])])
    m = v.f["nameValueMap"]
    for g, x in (("sm_method", v.f["methodLine"]), ("sm_content", v.f["content"]), ("sm_has", m.f["has"]), ("sm_val", m.f["val"])): st.setg(g, z3.If(got, x, st.g(g)))
    st.setg("sn", st.g("sn") + z3.If(got, 1, 0))
    k = z3.Const(fresh_name("sent_any"), I); st.assume(k >= st.g("sany")); st.assume(k >= st.g("sany") + z3.If(got, 1, 0)); st.setg("sany", k)
def header(v, eng, k): m = v.f["nameValueMap"]; return z3.Select(m.f["val"], eng.lit(k.lower()))
def has(v, eng, k): m = v.f["nameValueMap"]; return z3.Select(m.f["has"], eng.lit(k.lower()))
def gheader(eng, st, k): return z3.Select(st.g("sm_val"), eng.lit(k.lower()))
def ghas(eng, st, k): return z3.Select(st.g("sm_has"), eng.lit(k.lower()))

# ---- database handle contracts (each ensures clause is proved against the body by an item of P08 / P01 / P02)
sname = z3.Function("state_name", I, Str); sfrom = z3.Function("state_from_name", Str, I)
def state_name(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::stateName / stateFromName (finite tables; cross-checked by the replay program)")
    v = eng.rv(args[0], st); r = sname(v)
    for s in STATES: eng.axiom(sname(z3.IntVal(SV_(eng, s))) == eng.lit(s))
    if z3.is_int_value(z3.simplify(v)):
        nm = next((s for s in STATES if SV_(eng, s) == z3.simplify(v).as_long()), None)
        if nm: r = eng.lit(nm)
    return eng.new_tmp(st, r, strip(eng.ty(n)))
def state_from(eng, st, this, args, n):
    v = eng.rv(args[0], st); r = sfrom(v); eng.range_axiom(r, eng.ty(n))
    for s in STATES[1:]: eng.axiom(sfrom(eng.lit(s)) == SV_(eng, s))
    return r
def nothing(name, why, n_=None): return C.nothing(name, why)

def setdb(eng, st, d, **kw):
    for k, v in kw.items(): eng.write(st, flv(eng, st, d, k), v)
def hv(eng, st, d, *names):
    for nme in names:
        lv = flv(eng, st, d, nme); eng.write(st, lv, eng.fresh(lv.ty, "db_" + nme.split(".")[-1]))
HANDLE = ("_insideTransaction", "_mutexLocked", "_uncommittedHash", "_uncommittedQuery")
def setlock(eng, st, d, v): pass
def C_begin(eng, old, s, d, args, r, kind):
    b = C.view(eng, s, d); e = eng.lit("")
    if kind == "throw": return [("a refused begin leaves no transaction open", And_([Not_(b["inside"]), Not_(b["locked"]), b["hash"] == e]))]
    return [("a begun transaction is open, empty and unhashed", And_([r == b["inside"], z3.Implies(r, And_([b["hash"] == e, b["q"] == e])), z3.Implies(Not_(r), Not_(b["locked"]))]))]
def C_writeu(eng, old, s, d, args, r, kind):
    a, b = C.view(eng, old, d), C.view(eng, s, d)
    return [("a write neither ends nor hashes the transaction", And_([a["inside"] == b["inside"], a["locked"] == b["locked"], a["hash"] == b["hash"]])), ("a failed write keeps the text", Or_([r if r is not None else F, a["q"] == b["q"]]))]
def C_prepare(eng, old, s, d, args, r, kind):
    a, b = C.view(eng, old, d), C.view(eng, s, d); e = eng.lit("")
    if kind == "throw": return [("an exception from prepare leaves the transaction open", b["inside"])]
    return [("a prepared transaction is open and hashed", z3.Implies(r, And_([b["inside"], b["locked"], b["hash"] != e])))]
def C_commit(eng, old, s, d, args, r, kind):
    a, b = C.view(eng, old, d), C.view(eng, s, d)
    if kind == "throw": return []
    return [("a successful commit closes the transaction", z3.Implies(r == 0, And_([Not_(b["inside"]), Not_(b["locked"]), b["hash"] == eng.lit("")]))),
            ("a failed commit leaves the transaction open", z3.Implies(r != 0, And_([b["inside"] == a["inside"], b["locked"] == a["locked"], b["hash"] == a["hash"]])))]
def C_rollback(eng, old, s, d, args, r, kind):
    b = C.view(eng, s, d); e = eng.lit("")
    return [("rollback ends the transaction", And_([Not_(b["inside"]), Not_(b["locked"]), b["hash"] == e, b["q"] == e]))]
def dbcontract(name, fields, ens, throws=False, note=None, hook=None):
    def c(eng, st, this, args, n):
        eng.used_contracts.add("%s (contract verified by its own item)" % name)
        if hook is not None and getattr(eng, hook, None): getattr(eng, hook)(eng, st, this, args)
        old = st.copy(); hv(eng, st, this, *fields)
        if throws:
            s2 = st.copy(); b = z3.Const(fresh_name("throws"), B); s2.assume(b)
            for nm, f in ens(eng, old, s2, this, args, None, "throw"): s2.assume(f)
            eng.exits[-1].append(("throw", s2, Exc("SException"))); st.assume(Not_(b))
        t = eng.ty(n); r = eng.fresh(t, "ret_" + name.split("::")[-1]) if t.k != "void" else None
        for nm, f in ens(eng, old, st, this, args, r, "return"): st.assume(f)
        if name == "SQLite::prepare":
            for a, fld_ in ((0, None), (1, "_uncommittedHash")):
                if a < len(args) and isinstance(args[a], PtrTo):
                    x = atom(eng, st, this, fld_) if fld_ else eng.fresh(args[a].lv.ty, "txid"); cur = eng.read(st, args[a].lv)
                    eng.write(st, args[a].lv, z3.If(r, x, cur))
        if name == "SQLite::commit":
            cl = flv(eng, st, this, "_sharedData.commitCount"); cur = aval(eng.read(st, cl)); ok = r == 0; st.assume(z3.Implies(ok, cur + 1 < 2**62))
            v = eng.read(st, cl); w = z3.If(ok, cur + 1, cur); eng.write(st, cl, v.set("v", w) if isinstance(v, SV) else w)
        return r
    return c
jhash = z3.Function("journal_hash", I, Str); jquery = z3.Function("journal_query", I, Str)
def get_commit(eng, st, this, args, n):
    eng.used_contracts.add("SQLite::getCommit [trusted: the journal row of that number, if any]")
    r = z3.Const(fresh_name("getCommit"), B); i = eng.rv(args[0], st)
    for a, f in ((1, jquery), (2, jhash)):
        if a < len(args) and isinstance(args[a], PtrTo): eng.write(st, args[a].lv, z3.If(r, f(i), eng.lit("")))
    return r
sq_row = None
def get_commits(eng, st, this, args, n):
    """rows number from..to of the journal, in order, as (hash, query)"""
    eng.used_contracts.add("SQLite::getCompressedCommits [trusted: journal rows from..to in order, at most one per number]")
    fr, to = eng.rv(args[0], st), eng.rv(args[1], st); res = next(a for a in args if C.is_rec(a, "SQResult"))
    v = eng.fresh(res.ty, "commits"); rc = z3.Const(fresh_name("rc"), I); eng.range_axiom(rc, Ty("int", w=32, s=1))
    i = z3.Int("gi"); rows = v.f["rows"]; d = lambda i: eng.select(rows.f["el"], i).f["data"]
    val = lambda x: C.sqv(x.f["type"], x.f["integer"], x.f["text"])
    st.assume(rows.f["len"] >= 0)
    st.assume(z3.Implies(rc == 0, And_([z3.Implies(to >= fr, rows.f["len"] <= to - fr + 1), z3.ForAll([i], z3.Implies(And_([i >= 0, i < rows.f["len"]]), And_([d(i).f["len"] == 2]))),
        z3.Implies(rows.f["len"] == to - fr + 1, z3.ForAll([i], z3.Implies(And_([i >= 0, i < rows.f["len"]]), And_([val(eng.select(d(i).f["el"], z3.IntVal(0))) == jhash(fr + i), val(eng.select(d(i).f["el"], z3.IntVal(1))) == jquery(fr + i)]))))])))
    eng.write(st, res, v); return rc
def pop_committed(eng, st, this, args, n):
    """every committed transaction not yet handed out, once (P02)"""
    eng.used_contracts.add("SQLite::popCommittedTransactions (contract verified under P02)")
    st.setg("pops", st.g("pops") + 1) if "pops" in st.ghost else None
    r = eng.fresh(eng.ty(n), "popped"); k = z3.Int("pk")
    st.assume(z3.ForAll([k], z3.Implies(z3.Select(r.f["has"], k), And_([k >= 0, k < 2**62]))))
    h = getattr(eng, "on_pop", None)
    if h: h(eng, st, r)
    return r
def down_socket(eng, st, this, args, n):
    eng.used_contracts.add("SQLitePeer::shutdownSocket [trusted: network boundary]"); st.setg("downs", st.g("downs") + z3.If(this.root == eng.p0, 1, 0))
def decompress(eng, st, this, args, n):
    eng.used_contracts.add("BedrockPlugin_Compression::decompress [trusted: deterministic]"); return z3.Function("zstd_decompress", Str, Str)(eng.rv(args[0], st))
def change_state(eng, st, this, args, n):
    """_changeState: verified by its own items (C_change below)"""
    eng.used_contracts.add("SQLiteNode::_changeState (contract verified by its own items)")
    v = eng.rv(args[0], st)
    h = getattr(eng, "on_change", None)
    if h: h(eng, st, this, v)
    old = st.copy(); was = state(eng, old, this); ch = v != was
    setatom(eng, st, this, "_state", v)
    leaving = And_([ch, in_states(eng, was, "LEADING", "STANDINGDOWN"), Not_(in_states(eng, v, "LEADING", "STANDINGDOWN"))])
    for f_ in ("_stateTimeout", "_stateChangeCount", "_lastSentTransactionID", "_haveBeenWAITING", "_priority"):
        lv = flv(eng, st, this, f_); cur = eng.read(st, lv); new = eng.fresh(lv.ty, "cs" + f_)
        eng.write(st, lv, cur.set("v", z3.If(ch, aval(new), aval(cur))) if isinstance(cur, SV) else z3.If(ch, new, cur))
    lp = atom(eng, st, this, "_leadPeer"); setatom(eng, st, this, "_leadPeer", z3.If(And_([ch, Or_([v < SV_(eng, "SUBSCRIBING"), was == SV_(eng, "FOLLOWING")])]), z3.IntVal(0), lp))
    for f_, c in (("loggedIn", And_([ch, v == SV_(eng, "WAITING")])), ("subscribed", leaving)):
        key = "SQLitePeer." + f_; t = eng.heap_tree(st, key); new = eng.map_leaves(t, lambda x, p: z3.Const(fresh_name("cs_" + f_), x.sort()))
        a = z3.Int("csp"); 
        def m(x, y): return z3.If(c, y, x)
        eng.heap_set(st, key, merge_tree(eng, t, new, m))
        if f_ == "loggedIn": only_less(eng, st, key, t, new)
        if f_ == "subscribed": st.assume(z3.Implies(leaving, Not_(pf(eng, st, this, eng.p0, "subscribed"))))
    for g in GM: st.setg(g, z3.Const(fresh_name("cs_" + g), st.g(g).sort()))
    k = z3.Const(fresh_name("cs_sn"), I); st.assume(k >= st.g("sn")); st.setg("sn", k)
    st.setg("chgn", st.g("chgn") + z3.If(ch, 1, 0)); st.setg("chg", z3.If(ch, v, st.g("chg")))
def only_less(eng, st, key, t, new):
    """a boolean peer field only goes from true to false"""
    a = z3.Int("ola"); x, y = leaf(new), leaf(t); st.assume(z3.ForAll([a], z3.Implies(z3.Select(x, a), z3.Select(y, a)), patterns=[z3.Select(x, a)]))
def leaf(t):
    while isinstance(t, SV): t = next(iter(t.f.values()))
    return t
def merge_tree(eng, a, b, m):
    if is_z3(a): return m(a, b)
    return SV(a.ty, {k: merge_tree(eng, a.f[k], b.f[k], m) for k in a.f}) if isinstance(a, SV) else a
def setatom(eng, st, obj, name, x):
    lv = flv(eng, st, obj, name); v = eng.read(st, lv); eng.write(st, lv, v.set("v", x) if isinstance(v, SV) else x)
def setup(eng):
    eng.sqthis = None; eng.node = None
    c = eng.contracts
    c["SQLiteNode::_changeState"] = change_state; c["SQLitePeer::sendMessage"] = send_message; c["SQLiteNode::_sendToAllPeers"] = to_all
    c["SQLitePeer::shutdownSocket"] = down_socket
    c["SQLiteNode::stateName"] = state_name; c["SQLiteNode::stateFromName"] = state_from
    c["SQLite::beginTransaction"] = dbcontract("SQLite::beginTransaction", HANDLE, C_begin, throws=True, hook="on_begin")
    c["SQLite::writeUnmodified"] = dbcontract("SQLite::writeUnmodified", HANDLE, C_writeu, throws=True, hook="on_write")
    c["SQLite::prepare"] = dbcontract("SQLite::prepare", HANDLE, C_prepare, throws=True)
    c["SQLite::commit"] = dbcontract("SQLite::commit", HANDLE + ("_sharedData.lastCommittedHash",), C_commit, hook="on_commit")
    c["SQLite::rollback"] = dbcontract("SQLite::rollback", HANDLE, C_rollback)
    c["SQLite::getCommit"] = get_commit; c["SQLite::getCompressedCommits"] = get_commits
    c["SQLite::popCommittedTransactions"] = pop_committed
    c["SQLite::logLastTransactionTiming"] = nothing("SQLite::logLastTransactionTiming", "logging only")
    c["SQLite::exclusiveLockDB"] = nothing("SQLite::exclusiveLockDB", "takes the write and commit locks"); c["SQLite::exclusiveUnlockDB"] = nothing("SQLite::exclusiveUnlockDB", "their release")
    c["SQLiteServer::notifyStateChangeToPlugins"] = nothing("SQLiteServer::notifyStateChangeToPlugins", "plugins are told of the change through their own handle"); c["SQLiteServer::onNodeLogin"] = nothing("SQLiteServer::onNodeLogin", "server notification")
    c["SQLiteServer::blockCommandPort"] = nothing("SQLiteServer::blockCommandPort", "server notification"); c["SQLiteServer::unblockCommandPort"] = nothing("SQLiteServer::unblockCommandPort", "server notification")
    c["SQLiteNode::_getLostQuorumLogMessage"] = nothing("SQLiteNode::_getLostQuorumLogMessage", "log text")
    c["BedrockPlugin_Compression::decompress"] = decompress
    c["SQValue::operator basic_string"] = C.sqv_string; c["SQValue::operator string"] = C.sqv_string
    c["sleep"] = nothing("sleep", "delay")
    c["std::format"] = nothing("std::format", "log text")
    eng.vocab.append(peer_vocab)
def node_ty(eng):
    return eng.prog.byname["SQLiteNode::update"][0].this
def pre(eng, st, this, args):
    if this is not None and strip(this.ty).n == 'SQLitePeer': ghosts(eng, st); eng.node = None; return
    if this is None: this = eng.objlv(eng.rv(args[0], st), node_ty(eng)); eng.axiom(this.root > 0)   # a static function given its node
    eng.node = this; eng.p0 = z3.Int("peer0"); eng.k0 = z3.Int("peer0_ix"); ghosts(eng, st); st.setg("pops", z3.Const("g_pops", I))
    v = pl_(eng, st, this); i, j = z3.Ints("pi pj")
    eng.len0 = v.f["len"]
    st.assume(And_([v.f["len"] >= 0, z3.ForAll([i], z3.Implies(And_([i >= 0, i < v.f["len"]]), z3.Select(v.f["el"], i) > 0), patterns=[z3.Select(v.f["el"], i)])]))
    st.assume(z3.ForAll([i, j], z3.Implies(And_([i >= 0, i < j, j < v.f["len"]]), z3.Select(v.f["el"], i) != z3.Select(v.f["el"], j)), patterns=[z3.MultiPattern(z3.Select(v.f["el"], i), z3.Select(v.f["el"], j))]))
    st.assume(And_([eng.k0 >= 0, eng.k0 < v.f["len"], eng.p0 == z3.Select(v.f["el"], eng.k0), eng.p0 > 0]))
    st.assume(And_([state(eng, st, this) >= 0, state(eng, st, this) <= 8]))
    cc = dbv(eng, st, this)["count"]; st.assume(And_([cc >= 0, cc < 2**62]))
    eng.preds = []
    for nm, f in C.inv(eng, st, db(eng, st, this)): st.assume(f)
def setstate(eng, st, node, name):
    lv = flv(eng, st, node, "_state"); v = eng.read(st, lv); x = z3.IntVal(SV_(eng, name)); eng.write(st, lv, v.set("v", x) if isinstance(v, SV) else x)
def listed(eng, st, node, p):
    v = pl_(eng, st, node); i = z3.Int("li"); return z3.Exists([i], And_([i >= 0, i < v.f["len"], z3.Select(v.f["el"], i) == p]))
def count(eng, st, tag, pred):
    """number of peers satisfying pred in state st"""
    at, key = eng.count(st, plist(eng, st, eng.node), tag, lambda p, s: pred(eng, s, eng.node, p)); return at(eng.len0)
def peer_vocab(eng, info):
    """loops over the peer list: counters equal the number of peers seen that satisfy a listed predicate; what has been sent to the watched peer depends only on whether it has been reached"""
    out = []
    node = eng.node
    if node is None or not info["ix"]: return out
    pl = plist(eng, info["entry"], node); e = info["entry"]
    for c, ixf in info["ix"]:
        if c is None or not (c.kind == pl.kind and c.path and pl.path and c.path[-1][:2] == pl.path[-1][:2]): continue
        for nm, pred in eng.preds:
            for k in info["ints"]:
                v0 = e.locals[k]
                def f(s, k=k, v0=v0, pred=pred, nm=nm, ixf=ixf):
                    at, _ = eng.count(e, pl, nm, lambda p, s2: pred(eng, s2, node, p)); i = ixf(s); at(i - 1); return s.locals[k] == v0 + at(i)
                out.append(("counter = #%s" % nm, f))
        p0, k0 = eng.p0, eng.k0
        gm = {m[1] for m in info["mods"] if m[0] == "ghost"}
        if "sn" in gm: 
            out.append(("not yet reached: nothing sent", lambda s, ixf=ixf: z3.Implies(ixf(s) <= k0, And_([s.g(g) == e.g(g) for g in ("sn",) + GM]))))
            for cn, cf in getattr(eng, "send_conds", []):
                out.append(("reached: one copy (%s)" % cn, lambda s, ixf=ixf, cf=cf: z3.Implies(ixf(s) > k0, s.g("sn") == e.g("sn") + z3.If(cf(e), 1, 0))))
                for g, vf in getattr(eng, "send_val", {}).items(): out.append(("reached: its %s" % g, lambda s, ixf=ixf, cf=cf, g=g, vf=vf: z3.Implies(And_([ixf(s) > k0, cf(e)]), vf(s))))
                out.append(("reached, unsent", lambda s, ixf=ixf, cf=cf: z3.Implies(And_([ixf(s) > k0, Not_(cf(e))]), And_([s.g(g) == e.g(g) for g in GM]))))
        for nm, P in getattr(eng, "reach_props", []):
            out.append(("reached " + nm, lambda s, P=P, ixf=ixf: z3.Implies(ixf(s) > k0, P(s))))
        for m in info["mods"]:
            # a peer field written for every peer: reached peers have the value written
            if m[0] in ("heap",) and m[1].startswith("SQLitePeer."):
                fn_ = m[1].split(".")[1]
                for valn, val in getattr(eng, "peer_vals", []):
                    def g(s, fn_=fn_, val=val, ixf=ixf):
                        x = pf(eng, s, node, p0, fn_); v = val(eng)
                        if x.sort() != v.sort(): raise Unsupported("sort")
                        return z3.Implies(ixf(s) > k0, x == v)
                    out.append(("written", g))
                out.append(("unreached kept", lambda s, fn_=fn_, ixf=ixf: z3.Implies(ixf(s) <= k0, pf(eng, s, node, p0, fn_) == pf(eng, e, node, p0, fn_))))
        for k in info["ptrs"]:
            for nm, P in getattr(eng, "ptr_props", []):
                out.append(("ptr " + nm, lambda s, k=k, P=P, ixf=ixf: P(eng, s, node, s.locals[k], ixf(s))))
        if len(info["ptrs"]) > 1:
            for nm, P in getattr(eng, "pair_props", []): out.append(("ptrs " + nm, lambda s, P=P, ixf=ixf: P(eng, s, node, [s.locals[k] for k in info["ptrs"]], ixf(s))))
        for m in info["mods"]:
            if m[0] != "loc" or m[1] not in e.locals: continue
            x = e.locals[m[1]]
            if is_z3(x) and x.sort() == Str:
                for nm, P in getattr(eng, "str_props", []): out.append(("str " + nm, lambda s, k=m[1], P=P, ixf=ixf: P(eng, s, node, s.locals[k], ixf(s))))
            if is_z3(x) and x.sort() == B:
                for nm, P in getattr(eng, "bool_props", []): out.append(("bool " + nm, lambda s, k=m[1], P=P, ixf=ixf: P(eng, s, node, s.locals[k], ixf(s))))
    return out
