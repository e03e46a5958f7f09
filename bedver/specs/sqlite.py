"""P01 commit-lock discipline, P02 hash chain, P04 journal text, P05 read cache of a database handle."""
from .sqcommon import *
from . import sqcommon as C

# ============================================================ P01
def p01_pre(eng, st, this, args):
    for nm, f in inv(eng, st, this): st.assume(f)
def b2i(b): return z3.If(b, 1, 0)
def p01_common(eng, old, s, this, kind):
    w = "on exception: " if kind == "throw" else "on return: "
    for nm, f in inv(eng, s, this): eng.prove(s, f, w + nm)
    a, b = view(eng, old, this), view(eng, s, this)
    eng.prove(s, b["open"] - a["open"] == b2i(b["inside"]) - b2i(a["inside"]), w + "the open-transaction count follows the handle's transaction state")
    wl = lambda st_: eng.read(st_, m_h(flv(eng, st_, this, "_sharedData.writeLock")))
    eng.prove(s, wl(s) == wl(old), w + "the write lock is released")
    im = lambda st_: eng.read(st_, m_h(flv(eng, st_, this, "_sharedData._internalStateMutex")))
    eng.prove(s, im(s) == im(old), w + "the internal state mutex is released")
    return a, b, w
def enumv(eng, name, field):
    e = eng.prog.enums[name]
    return e
def p01_begin(eng, old, s, this, args, kind, p):
    a, b, w = p01_common(eng, old, s, this, kind)
    if kind == "return":
        r = eng.rv(p, s)
        eng.prove(s, r == b["inside"], "beginTransaction reports whether a transaction is open")
        exc = fld(eng, s, this, "_lastTransactionType") == 1
        eng.prove(s, z3.Implies(r, b["locked"] == (args[0] == 1)), "an exclusive transaction holds the commit lock, a shared one does not")
        eng.prove(s, Not_(a["inside"]), "beginTransaction succeeds or fails only from outside a transaction")
        eng.prove(s, And_([b["q"] == eng.lit(""), b["hash"] == eng.lit("")]), "a new transaction starts with no recorded text")
    else:
        eng.prove(s, And_([Not_(b["inside"]), Not_(b["locked"])]), "a refused begin leaves the handle clean")
def p01_keep(eng, old, s, this, args, kind, p):
    a, b, w = p01_common(eng, old, s, this, kind)
    eng.prove(s, And_([a["inside"] == b["inside"], a["locked"] == b["locked"], a["h"] == b["h"]]), w + "transaction and lock state unchanged")
def p01_prepare(eng, old, s, this, args, kind, p):
    a, b, w = p01_common(eng, old, s, this, kind)
    if kind == "return":
        r = eng.rv(p, s)
        eng.prove(s, z3.Implies(r, And_([b["inside"], b["locked"], b["hash"] != eng.lit("")])), "a prepared transaction is open and holds the commit lock")
        eng.prove(s, z3.Implies(And_([Not_(r), b["inside"]]), And_([b["h"] == a["h"], b["hash"] == a["hash"]])), "a refused prepare gives back the lock it took")
    else: eng.prove(s, b["inside"], "an exception from prepare leaves the transaction open for rollback")
def p01_commit(eng, old, s, this, args, kind, p):
    a, b, w = p01_common(eng, old, s, this, kind)
    if kind == "return":
        r = eng.rv(p, s)
        eng.prove(s, z3.Implies(r == 0, And_([Not_(b["inside"]), Not_(b["locked"]), b["h"] == 0])), "a successful commit closes the transaction and releases the commit lock")
        eng.prove(s, z3.Implies(r != 0, And_([b["inside"] == a["inside"], b["locked"] == a["locked"], b["hash"] == a["hash"], b["q"] == a["q"]])), "a failed commit keeps the transaction and the lock for rollback")
    else:
        eng.prove(s, Or_([b["inside"] == a["inside"], b["h"] == 0]), "an exception after commit does not leak the lock")
def p01_rollback(eng, old, s, this, args, kind, p):
    a, b, w = p01_common(eng, old, s, this, kind)
    eng.prove(s, And_([kind == "return" and T or F, Not_(b["inside"]), Not_(b["locked"]), b["h"] == 0, b["q"] == eng.lit(""), b["hash"] == eng.lit("")]), "rollback always ends the transaction and frees the commit lock")
def p01_pre_inside(eng, st, this, args):
    p01_pre(eng, st, this, args)
def ov(np, *tys):
    """pick an overload by parameter type names"""
    def f(fn): return all(t in repr(fn.ps[i][2]) for i, t in tys)
    return f
def write_items(post, tag):
    return [Item(tag + ": _writeIdempotent", "SQLite::_writeIdempotent", pre=p01_pre, post=post, want=("return", "throw"))]
P01 = dict(common=common, tus=TUS, items=lambda prog: [
    Item("beginTransaction keeps the lock discipline", "SQLite::beginTransaction", pre=p01_pre, post=p01_begin, want=("return", "throw")),
    Item("prepare keeps the lock discipline", "SQLite::prepare", pre=p01_pre, post=p01_prepare, want=("return", "throw")),
    Item("commit keeps the lock discipline", "SQLite::commit", pre=p01_pre, post=p01_commit),
    Item("rollback keeps the lock discipline", "SQLite::rollback", pre=p01_pre, post=p01_rollback),
    Item("_writeIdempotent keeps the lock discipline", "SQLite::_writeIdempotent", pre=p01_pre, post=p01_keep, want=("return", "throw")),
    Item("setUpdateNoopMode keeps the lock discipline", "SQLite::setUpdateNoopMode", pre=p01_pre, post=p01_keep),
    Item("writeLocalUnreplicated keeps the lock discipline", "SQLite::writeLocalUnreplicated", pre=p01_pre, post=p01_keep),
    Item("setCommitEnabled keeps the lock discipline", "SQLite::setCommitEnabled", pre=p01_pre, post=p01_keep),
] + [Item("read/%d%s keeps the lock discipline" % (len(f.ps), "" if len(f.ps) > 1 else ""), "SQLite::read", pre=p01_pre, post=p01_keep, pick=(lambda g, f=f: g is f)) for f in prog.byname.get("SQLite::read", [])]
  + [Item("%s/%d keeps the lock discipline" % (n.split("::")[1], len(f.ps)), n, pre=p01_pre, post=p01_keep, pick=(lambda g, f=f: g is f)) for n in ("SQLite::write", "SQLite::writeIdempotent", "SQLite::writeUnmodified") for f in prog.byname.get(n, [])],
  ok={"SQLite::exclusiveLockDB": "database-wide block, a separate holder of the lock", "SQLite::exclusiveUnlockDB": "its release"}, frame=[("SQLite", "_mutexLocked"), ("SQLite", "_insideTransaction"), ("SQLite", "_uncommittedHash"), ("SQLite", "_uncommittedQuery"), ("SQLite::SharedData", "commitLock"), ("SQLite::SharedData", "openTransactionCount")])

# ============================================================ P02 hash chain and commit count
comp = z3.Function("zstd_compress", Str, I, Str); decomp = z3.Function("zstd_decompress", Str, Str)
def compress(eng, st, this, args, n):
    eng.used_contracts.add("BedrockPlugin_Compression::compress [trusted: decompress(compress(x)) == x, non-empty for non-empty input]")
    x = eng.rv(args[0], st); r = comp(x, eng.rv(args[1], st)); eng.axiom(decomp(r) == x); eng.axiom(z3.Implies(x != eng.lit(""), r != eng.lit(""))); return r
def decompress(eng, st, this, args, n):
    x = eng.rv(args[0], st); return decomp(x)
def on_release(eng, st, lv, ev):
    """what other handles see: the shared commit state at the moment this thread gives the commit lock back"""
    if ev == "pre_unlock":
        sd = LV(lv.kind, lv.root, Ty("rec"), lv.path[:-1], lv.cls)
        last = eng.read_raw(st, m_h(lv)) == 1
        for g, f in (("rel_count", "commitCount"), ("rel_last", "lastCommittedHash")):
            p = lv.path[-1]; rec = next(r for r in eng.prog.records.values() if r["qn"] == p[2]); fty = next(x[1] for x in rec["fields"] if x[0] == f)
            v = aval(eng.read(st, sd.ext(("f", f, p[2], fty), fty))); st.setg(g, z3.If(last, v, st.g(g)))
        st.setg("rel_n", st.g("rel_n") + z3.If(last, 1, 0)); return
    hook_lock(eng, st, lv, ev)
def committed_view(eng, st, this, which="_committedTransactions"): return fld(eng, st, this, "_sharedData." + which)
def keys_below(eng, m, cnt, k=None):
    k = z3.Int("kk"); return forall([k], z3.Implies(z3.Select(m.f["has"], k), z3.And(k >= 0, k <= cnt)))
def rely_internal(eng, st, lv, ev):
    hook_internal(eng, st, lv, ev)
    if isinstance(ev, str) and "unlock" in ev: return
    sd = LV(lv.kind, lv.root, Ty("rec"), lv.path[:-1], lv.cls); p = lv.path[-1]
    rec = next(r for r in eng.prog.records.values() if r["qn"] == p[2])
    g = lambda f: eng.read(st, sd.ext(("f", f, p[2], next(x[1] for x in rec["fields"] if x[0] == f)), next(x[1] for x in rec["fields"] if x[0] == f)))
    h = eng.read_raw(st, m_h(lv))
    st.assume(z3.Implies(h == 1, keys_below(eng, g("_committedTransactions"), aval(g("commitCount")))))
def p02_setup(eng):
    C.setup(eng)
    eng.contracts["BedrockPlugin_Compression::compress"] = compress
    eng.contracts["BedrockPlugin_Compression::decompress"] = decompress
    eng.on_lock["commitLock"] = on_release
    eng.on_lock["_internalStateMutex"] = rely_internal
    base = squery()
    def sq(eng_, st, this, args, n):
        sql = eng_.rv(args[1], st); rc = base(eng_, st, this, args, n)
        if sql_prefix(eng_, sql).strip().upper().startswith("COMMIT"): st.setg("crc", rc); st.setg("cn", st.g("cn") + 1)
        if sql_prefix(eng_, sql).strip().upper().startswith("ROLLBACK"): st.setg("rn", st.g("rn") + 1)
        return rc
    eng.contracts["SQuery"] = sq
def p02_cpre(eng, st, this, args):
    C.pre(eng, st, this, args)
    for n, s in (("rel_count", I), ("rel_last", Str), ("rel_n", I), ("crc", I), ("cn", I), ("rn", I)): st.setg(n, z3.Const("g_" + n, s))
    if strip(this.ty).n != "SQLite": return
    for nm, f in inv(eng, st, this): st.assume(f)
    v = view(eng, st, this); st.assume(v["count"] >= 0); st.assume(v["count"] < 2**62)
    st.assume(fld(eng, st, this, "_sharedData.nextJournalCount") >= 0)
    st.assume(fld(eng, st, this, "_journalNames").f["len"] > 0)
    st.assume(eng.read(st, m_h(flv(eng, st, this, "_sharedData._internalStateMutex"))) == 0)
common02 = dict(setup=p02_setup, pre=p02_cpre)
def p02_prepare(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    if kind != "return": 
        eng.prove(s, s.g("cn") == old.g("cn"), "prepare never commits"); return
    r = eng.rv(p, s); e = eng.lit("")
    eng.axiom(decomp(e) == e)
    nid = b["count"] + 1
    P = lambda f, nm: eng.prove(s, z3.Implies(r, f), nm)
    P(b["hash"] == sha_hex(cat(eng, b["last"], decomp(b["q"]))), "new hash = SHA1(previous hash + transaction text)")
    P(And_([s.g("jn") == old.g("jn") + 1, s.g("jid") == nid]), "exactly one journal row, numbered previous commit + 1")
    P(And_([s.g("jq") == b["q"], s.g("jh") == b["hash"]]), "the journal row carries the transaction text and its hash")
    jn = fld(eng, s, this, "_journalName"); names = fld(eng, s, this, "_journalNames")
    P(s.g("jsql") == cat(eng, cat(eng, eng.lit("INSERT INTO "), jn), eng.lit(" VALUES (:commitID, :query, :hash)")), "the row goes into this handle's journal table")
    i = z3.Int("ji")
    P(z3.Exists([i], And_([i >= 0, i < names.f["len"], eng.select(names.f["el"], i) == jn])), "the journal table is one of the database's journal tables")
    pm = committed_view(eng, s, this, "_preparedTransactions")
    ent = eng.select(pm.f["val"], nid)
    P(And_([z3.Select(pm.f["has"], nid), ent.f["first"] == b["q"], ent.f["second"] == b["hash"]]), "the transaction to broadcast is the journaled one (same id, text, hash)")
    P(And_([b["locked"], b["h"] == 1, s.g("rel_n") == old.g("rel_n")]) if False else And_([b["locked"], b["h"] == 1]), "the commit lock is held from reading the previous state until after prepare")
    for i, nm, f in ((0, "id", nid), (1, "hash", b["hash"])):
        ptr = args[i]
        if is_z3(ptr):
            t = eng._p02fn.ps[i][2].to
            try: v = eng.read(s, LV("obj", ptr, t, (), None))
            except Exception: continue
            P(z3.Implies(ptr != 0, v == f), "the %s reported to the caller is the journaled one" % nm)
    eng.prove(s, s.g("cn") == old.g("cn"), "prepare never commits")
    eng.prove(s, z3.Implies(And_([Not_(r)]), And_([s.g("rel_n") >= old.g("rel_n")])), "bookkeeping")
def p02_prepare_pre(eng, st, this, args):
    eng._p02fn = eng.prog.fn("SQLite::prepare")
    st.assume(And_([args[0] >= 0, args[1] >= 0]))
    v = view(eng, st, this); st.assume(v["hash"] == eng.lit(""))
def p02_commit_pre(eng, st, this, args):
    # shared invariant established by prepare: the transaction this handle prepared is recorded under the next commit id
    v = view(eng, st, this); pm = committed_view(eng, st, this, "_preparedTransactions"); nid = v["count"] + 1
    ent = eng.select(pm.f["val"], nid)
    st.assume(z3.Implies(v["hash"] != eng.lit(""), And_([z3.Select(pm.f["has"], nid), ent.f["first"] == v["q"], ent.f["second"] == v["hash"]])))
def p02_commit(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    if kind == "return":
        r = eng.rv(p, s); ok = r == 0
        g = s.g
        eng.prove(s, z3.Implies(Not_(a["enabled"]), And_([r != 0, g("cn") == old.g("cn")])), "no commit while commits are disabled")
        eng.prove(s, z3.Implies(ok, And_([g("cn") == old.g("cn") + 1, g("crc") == 0])), "commit succeeds only if the database committed")
        eng.prove(s, z3.Implies(ok, And_([g("rel_n") == old.g("rel_n") + 1, g("rel_count") == a["count"] + 1])), "the commit count advances by exactly one before the lock is released")
        eng.prove(s, z3.Implies(ok, g("rel_last") == a["hash"]), "the published last hash is the prepared hash, before the lock is released")
        cm = committed_view(eng, s, this); ent = eng.select(cm.f["val"], a["count"] + 1)
        eng.prove(s, z3.Implies(ok, And_([z3.Select(cm.f["has"], a["count"] + 1), ent.f["first"] == a["q"], ent.f["second"] == a["hash"]])), "the committed transaction is queued for broadcast with its id, text and hash")
        eng.prove(s, z3.Implies(Not_(ok), And_([b["count"] == a["count"], b["last"] == a["last"], g("rel_n") == old.g("rel_n")])), "a failed commit changes neither count nor hash")
    else:
        eng.prove(s, Or_([s.g("cn") == old.g("cn") + 1, And_([b["count"] == a["count"], b["last"] == a["last"]])]), "exceptional commit keeps count and hash consistent")
def p02_rollback(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    eng.prove(s, And_([b["count"] == a["count"], b["last"] == a["last"], s.g("cn") == old.g("cn")]), "rollback leaves commit count and last hash alone")
    eng.prove(s, z3.Implies(And_([s.g("rel_n") != old.g("rel_n")]), And_([s.g("rel_count") == a["count"], s.g("rel_last") == a["last"]])), "rollback publishes nothing")
def p02_same(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    eng.prove(s, z3.Implies(b["h"] > 0, z3.Implies(a["h"] > 0, And_([b["count"] == a["count"], b["last"] == a["last"]]))), "commit count and last hash only change by committing")
    eng.prove(s, s.g("cn") == old.g("cn"), "does not commit")
def p02_hash(eng, old, s, this, args, kind, p):
    eng.prove(s, eng.rv(p, s) == view(eng, old, this)["last"], "getCommittedHash reports the last committed hash")
def p02_count(eng, old, s, this, args, kind, p):
    eng.prove(s, eng.rv(p, s) == view(eng, old, this)["count"], "getCommitCount reports the commit count")
def pop_setup(eng):
    def h(eng, st, lv, ev):
        hook_internal(eng, st, lv, ev)
        sd = LV(lv.kind, lv.root, Ty("rec"), lv.path[:-1], lv.cls)
        l = eng.fld(LV("obj", lv.root, eng.poplv.ty, (), lv.cls), "_committedTransactions")
        if ev == "pre_unlock": put_map(st, "out", eng.read(st, l))
        elif not (isinstance(ev, str) and "unlock" in ev): put_map(st, "in", eng.read(st, l))
    eng.on_lock["_internalStateMutex"] = h
def put_map(st, tag, m):
    def w(v, p):
        if is_z3(v): st.setg("map_%s%s" % (tag, p), v)
        else:
            for n in v.f: w(v.f[n], p + "." + n)
    w(m, "")
def pop_pre(eng, st, this, args):
    eng.poplv = this; m = eng.read(st, eng.fld(this, "_committedTransactions"))
    for t in ("in", "out"): put_map(st, t, eng.fresh_like(m, None))
    st.assume(eng.read(st, m_h(flv(eng, st, this, "_internalStateMutex"))) == 0)
def pop_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    m = eng.rv(p, s); k = z3.Int("popk"); has = s.g("map_in.has")
    eng.prove(s, m.f["has"] == has, "every committed transaction not yet taken is handed out")
    eng.prove(s, z3.ForAll([k], z3.Implies(z3.Select(has, k), And_([z3.Select(m.f["val"].f["first"], k) == z3.Select(s.g("map_in.val.first"), k), z3.Select(m.f["val"].f["second"], k) == z3.Select(s.g("map_in.val.second"), k)]))), "with the text and hash it committed with")
    eng.prove(s, z3.ForAll([k], Not_(z3.Select(s.g("map_out.has"), k))), "and is handed out once")
    eng.prove(s, eng.read(s, m_h(flv(eng, s, this, "_internalStateMutex"))) == 0, "the internal lock is released")
P02 = dict(ok={"SQLite::initializeSharedData": "initial commit count and hash, read from the journals before the first handle can commit"}, common=common02, tus=TUS, items=lambda prog: [
    Item("prepare extends the hash chain", "SQLite::prepare", pre=p02_prepare_pre, post=p02_prepare, want=("return", "throw")),
    Item("commit advances the chain by one", "SQLite::commit", pre=p02_commit_pre, post=p02_commit),
    Item("rollback leaves the chain alone", "SQLite::rollback", post=p02_rollback),
    Item("beginTransaction leaves the chain alone", "SQLite::beginTransaction", post=p02_same, want=("return", "throw")),
    Item("_writeIdempotent leaves the chain alone", "SQLite::_writeIdempotent", post=p02_same, want=("return", "throw")),
    Item("setUpdateNoopMode leaves the chain alone", "SQLite::setUpdateNoopMode", post=p02_same),
    Item("popCommittedTransactions", "SQLite::SharedData::popCommittedTransactions", setup=pop_setup, pre=pop_pre, post=pop_post),
    Item("getCommittedHash", "SQLite::getCommittedHash", post=p02_hash),
    Item("getCommitCount", "SQLite::getCommitCount", post=p02_count)],
    frame=[("SQLite::SharedData", "commitCount"), ("SQLite::SharedData", "lastCommittedHash"), ("SQLite::SharedData", "_preparedTransactions"), ("SQLite::SharedData", "_committedTransactions"), ("SQLite", "_uncommittedHash"), ("SQLite", "_uncommittedQuery")])

# ============================================================ P04 journal text
def p04_setup(eng):
    C.setup(eng)
    eng.contracts["BedrockPlugin_Compression::compress"] = compress
    eng.contracts["BedrockPlugin_Compression::decompress"] = decompress
common04 = dict(setup=p04_setup, pre=C.pre)
def p04_ppre(eng, st, this, args):
    p04_pre(eng, st, this, args); st.assume(fld(eng, st, this, "_journalNames").f["len"] > 0)
def p04_pre(eng, st, this, args):
    for nm, f in inv(eng, st, this): st.assume(f)
    st.assume(Not_(st.g("rwset")))
def p04_write(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    if kind == "throw":
        eng.prove(s, b["q"] == a["q"], "a write that throws records nothing"); return
    r = eng.rv(p, s); always = args[3] if len(args) > 3 else F
    changed = Or_([always, s.g("schema") > old.g("schema"), s.g("changes") > old.g("changes")])
    ran = s.g("sqln") > old.g("sqln")
    eng.prove(s, z3.Implies(r, Or_([s.g("mtxt") == eng.rv(args[0], old), And_([s.g("rwset"), s.g("mtxt") == s.g("rw")])])), "what runs is the statement given, or the replacement the rewriter made for it")
    eng.prove(s, a["inside"], "a write outside a transaction is refused")
    eng.prove(s, z3.Implies(Not_(r), b["q"] == a["q"]), "a failed write records nothing")
    eng.prove(s, z3.Implies(And_([r, changed]), b["q"] == cat(eng, a["q"], s.g("exp"))), "a write that took effect appends exactly the executed text")
    eng.prove(s, z3.Implies(And_([r, Not_(changed)]), b["q"] == a["q"]), "a write without effect records nothing")
    eng.prove(s, And_([b["inside"], b["hash"] == a["hash"]]), "a write keeps the transaction open")
def p04_wrap(keep, checks_noop):
    def post(eng, old, s, this, args, kind, p):
        a, b = view(eng, old, this), view(eng, s, this)
        if kind == "throw":
            eng.prove(s, b["q"] == a["q"], "a write that throws records nothing"); return
        r = eng.rv(p, s); noop = fld(eng, old, this, "_noopUpdateMode")
        skip = noop if checks_noop else F
        changed = Or_([T if keep else F, s.g("schema") > old.g("schema"), s.g("changes") > old.g("changes")])
        if checks_noop: eng.prove(s, z3.Implies(noop, And_([r, s.g("sqln") == old.g("sqln"), b["q"] == a["q"]])), "in no-op mode a write runs and records nothing")
        live = Not_(skip)
        eng.prove(s, z3.Implies(And_([live, r]), Or_([s.g("mtxt") == eng.rv(args[0], old), And_([s.g("rwset"), s.g("mtxt") == s.g("rw")])])), "what runs is the statement given, or the replacement the rewriter made for it")
        eng.prove(s, z3.Implies(live, a["inside"]), "a write outside a transaction is refused")
        eng.prove(s, z3.Implies(And_([live, r]), s.g("sqln") > old.g("sqln")), "a successful write was executed")
        eng.prove(s, z3.Implies(And_([live, r, changed]), b["q"] == cat(eng, a["q"], s.g("exp"))), "a write that took effect appends exactly the executed text")
        eng.prove(s, z3.Implies(And_([live, r, Not_(changed)]), b["q"] == a["q"]), "a write without effect records nothing")
        eng.prove(s, z3.Implies(Not_(r), b["q"] == a["q"]), "a failed write records nothing")
    return post
def p04_noop(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this); on = args[0]; was = fld(eng, old, this, "_noopUpdateMode")
    eng.prove(s, fld(eng, s, this, "_noopUpdateMode") == on, "no-op mode is set as requested")
    txt = cat(eng, cat(eng, eng.lit("PRAGMA noop_update="), z3.If(on, eng.lit("ON"), eng.lit("OFF"))), eng.lit(";"))
    eng.prove(s, z3.Implies(And_([was != on, a["inside"]]), b["q"] == cat(eng, a["q"], s.g("sql"))), "the mode change is recorded for replication inside a transaction")
    eng.prove(s, z3.Implies(Or_([was == on, Not_(a["inside"])]), b["q"] == a["q"]), "nothing else is recorded")
def p04_local(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    eng.prove(s, And_([b["q"] == a["q"], s.g("jn") == old.g("jn")]), "an unreplicated write is never recorded")
    if kind == "return": eng.prove(s, z3.Implies(a["inside"], And_([Not_(eng.rv(p, s)), s.g("sqln") == old.g("sqln")])), "an unreplicated write is refused inside a transaction")
def p04_read(eng, old, s, this, args, kind, p):
    eng.prove(s, view(eng, s, this)["q"] == view(eng, old, this)["q"], "reads record nothing")
def p04_prepare(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    if kind != "return": return
    eng.axiom(decomp(eng.lit("")) == eng.lit(""))
    handler = fld(eng, old, this, "_shouldNotifyPluginsOnPrepare")
    r = eng.rv(p, s)
    eng.prove(s, z3.Implies(And_([r, Not_(handler)]), decomp(b["q"]) == a["q"]), "the prepared text is the recorded text, possibly compressed")
    eng.prove(s, z3.Implies(r, And_([s.g("jn") == old.g("jn") + 1, s.g("jq") == b["q"]])), "the journal row carries the recorded text")
    eng.prove(s, z3.Implies(Not_(r), Or_([b["q"] == a["q"], handler, Not_(b["inside"])])), "a failed prepare does not alter the recorded text of an open transaction")
def p04_end(eng, old, s, this, args, kind, p):
    a, b = view(eng, old, this), view(eng, s, this)
    eng.prove(s, Or_([b["q"] == a["q"], And_([b["q"] == eng.lit(""), Not_(b["inside"])])]), "recorded text is only discarded with its transaction")
def _ov(prog, n): return prog.byname.get(n, [])
P04 = dict(common=common04, tus=TUS, items=lambda prog: [
    Item("prepare journals the recorded text", "SQLite::prepare", pre=p04_ppre, post=p04_prepare, want=("return", "throw")),
    Item("commit only discards text with its transaction", "SQLite::commit", pre=p04_pre, post=p04_end),
    Item("rollback only discards text with its transaction", "SQLite::rollback", pre=p04_pre, post=p04_end),
    Item("_writeIdempotent records what it ran", "SQLite::_writeIdempotent", pre=p04_pre, post=p04_write, want=("return", "throw")),
    Item("setUpdateNoopMode is recorded", "SQLite::setUpdateNoopMode", pre=p04_pre, post=p04_noop),
    Item("writeLocalUnreplicated is never recorded", "SQLite::writeLocalUnreplicated", pre=p04_pre, post=p04_local)]
    + [Item("write/%d (%s)" % (len(f.ps), ",".join(repr(x[2]) for x in f.ps)[:60]), "SQLite::write", pre=p04_pre, post=p04_wrap(False, True), pick=(lambda g, f=f: g is f), want=("return", "throw")) for f in _ov(prog, "SQLite::write")]
    + [Item("writeIdempotent/%d" % len(f.ps), "SQLite::writeIdempotent", pre=p04_pre, post=p04_wrap(False, False), pick=(lambda g, f=f: g is f), want=("return", "throw")) for f in _ov(prog, "SQLite::writeIdempotent")]
    + [Item("writeUnmodified/%d" % len(f.ps), "SQLite::writeUnmodified", pre=p04_pre, post=p04_wrap(True, False), pick=(lambda g, f=f: g is f), want=("return", "throw")) for f in _ov(prog, "SQLite::writeUnmodified")]
    + [Item("read/%d records nothing" % len(f.ps), "SQLite::read", pre=p04_pre, post=p04_read, pick=(lambda g, f=f: g is f)) for f in _ov(prog, "SQLite::read")],
    frame=[("SQLite", "_uncommittedQuery"), ("SQLite", "_noopUpdateMode")])

SQH = dict(name="sqlite", bound="random operation sequences on 1-3 real handles with injected statement failures: 40 sequences of 400 operations (thorough 400 x 700)")
P01["harness"] = P02["harness"] = [SQH]
P04["harness"] = [SQH, dict(name="sqlite", args=["P04F", "TIER"], standin=True, bound="five parameter values, replayed on a second database")]
