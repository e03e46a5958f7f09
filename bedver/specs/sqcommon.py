"""Contracts shared by the SQLite-handle specifications (trusted contracts on the SQLite library boundary)."""
import z3
from ..spec import *
from ..lib import cat, S_toull, S_toll, m_h, forall, int2str
from .. import lib as L
import itertools

TUS = ["sqlitecluster/SQLite.cpp", "libstuff/SQResult.cpp", "libstuff/SQValue.cpp", "libstuff/SQliteParameter.cpp"]
SD = "SQLite::SharedData"
sqv = z3.Function("sqvalue_string", I, I, Str, Str)

def ghosts(eng, st):
    for n, s in (("sqln", I), ("sql", Str), ("schema", I), ("changes", I), ("exp", Str), ("jn", I), ("jid", I), ("jq", Str), ("jh", Str), ("jsql", Str), ("pn", I), ("hn", I), ("detq", B), ("mtxt", Str), ("rwset", B), ("rw", Str)):
        st.setg(n, z3.Const("g_" + n, s))
    for n in ("sqln", "schema", "changes", "jn", "pn", "hn"): st.assume(st.g(n) >= 0)

def is_rec(lv, n): return isinstance(lv, LV) and strip(lv.ty).n == n

def squery(hook=None, reset=None):
    """SQuery: executes one SQL text on the handle's connection.
    Trusted contract: arbitrary result code and result set.  `PRAGMA schema_version` reports the ghost schema cookie and
    changes nothing; any other text may raise the schema cookie and the change counter.  *expandedSql is replaced by the
    expanded text of the executed statements.  Authorizer / progress / log callbacks may set the listed handle fields."""
    def c(eng, st, this, args, n):
        eng.used_contracts.add("SQuery [trusted: SQLite library]")
        sql = eng.rv(args[1], st); lit = eng.lit_of(sql)
        params = next((a for a in args if isinstance(a, LV) and strip(a.ty).n == "std::map"), None)
        pv = next((eng.rv(a, st) for a in args if (isinstance(a, LV) and strip(a.ty).n == "std::map") or (isinstance(a, SV) and a.ty.n == "std::map")), None)
        res = next((a for a in args if is_rec(a, "SQResult")), None)
        rc = z3.Const(fresh_name("rc"), I); eng.range_axiom(rc, Ty("int", w=32, s=1))
        st.setg("sqln", st.g("sqln") + 1); st.setg("sql", sql)
        pragma = lit is not None and lit.strip().upper().startswith("PRAGMA") and "=" not in lit
        if pragma and "schema_version" in lit:
            if res is not None:
                v = eng.fresh(res.ty, "schemaRes"); eng.write(st, res, v)
                row = eng.select(v.f["rows"].f["el"], z3.IntVal(0)); d = row.f["data"]
                val = eng.select(d.f["el"], z3.IntVal(0))
                st.assume(z3.Implies(rc == 0, And_([v.f["rows"].f["len"] == 1, d.f["len"] == 1, S_toull(sqv(val.f["type"], val.f["integer"], val.f["text"])) == st.g("schema")])))
            return rc
        if res is not None:
            if hook is None or hook(eng, st, args, sql, res, rc) is None: eng.write(st, res, eng.fresh(res.ty, "res"))
            rv_ = eng.read(st, res); st.assume(z3.Implies(rv_.f["rows"].f["len"] > 0, eng.select(rv_.f["rows"].f["el"], z3.IntVal(0)).f["data"].f["len"] >= 1))  # a result row has at least one column
        for g in ("schema", "changes"):
            nv = z3.Const(fresh_name(g), I); st.assume(nv >= st.g(g)); st.setg(g, nv)
        rw0 = eng.read(st, flv(eng, st, eng.sqthis, "_rewrittenQuery")) if eng.sqthis is not None else None
        for key in ("_isDeterministicQuery", "_rewrittenQuery", "_timeoutError", "_tablesUsed"):
            if eng.sqthis is not None:
                lv = flv(eng, st, eng.sqthis, key); eng.write(st, lv, eng.fresh(lv.ty, key))
        st.setg("mtxt", sql)
        if eng.sqthis is not None:
            # the rewrite handler runs inside the authorizer: it either supplies this statement's replacement (and the statement is denied) or leaves the old text alone
            b = z3.Const(fresh_name("rewritten"), B); lv = flv(eng, st, eng.sqthis, "_rewrittenQuery"); new = eng.read(st, lv); old_rw = rw0
            on = And_([fld(eng, st, eng.sqthis, "_enableRewrite"), Not_(fld(eng, st, eng.sqthis, "_currentlyRunningRewritten"))])
            st.assume(z3.Implies(b, And_([on, rc == 23, new != eng.lit("")])))
            eng.write(st, lv, z3.If(b, new, old_rw)); st.setg("rwset", Or_([b, st.g("rwset")])); st.setg("rw", z3.If(b, new, st.g("rw")))
        for gl in ("SQLite::_conflictIdentifier", "SQLite::_conflictLocation"):
            k = ("g", gl)
            if k in st.locals or gl in eng.global_vals:
                cur = eng.getloc(st, k); 
                if st.rec is not None: st.rec.add(("loc", k))
                st.locals[k] = z3.Const(fresh_name("conf"), cur.sort())
        sd = flv(eng, st, eng.sqthis, "_sharedData") if eng.sqthis is not None else None
        if sd is not None:
            for f in ("outstandingFramesToCheckpoint", "knownOutstandingFramesToCheckpoint"):
                lv = flv(eng, st, sd, f); eng.write(st, lv, eng.fresh(lv.ty, f))
        ep = next((a for a in args if isinstance(a, PtrTo) and strip(a.lv.ty).n in E.STRS), None)
        x = z3.Const(fresh_name("expanded"), Str)
        if ep is not None: eng.write(st, ep.lv, x)
        st.setg("exp", x)
        if pv is not None and isinstance(pv, SV) and "has" in pv.f:
            k = eng.lit(":commitID")
            isj = z3.simplify(z3.Select(pv.f["has"], k))
            if not z3.is_false(isj) and eng.check(list(st.pc) + [Not_(isj)]) == z3.unsat:
                g = lambda nm: eng.select(pv.f["val"], eng.lit(nm))
                st.setg("jn", st.g("jn") + 1); st.setg("jid", g(":commitID").f["intValue"]); st.setg("jq", g(":query").f["stringValue"]); st.setg("jh", g(":hash").f["stringValue"]); st.setg("jsql", sql)
        return rc
    return c

def nothing(name, why):
    def c(eng, st, this, args, n):
        eng.used_contracts.add("%s [trusted: %s]" % (name, why))
        t = eng.ty(n)
        return None if t.k == "void" else eng.fresh(t, name.split("::")[-1])
    return c

def total_changes(eng, st, this, args, n):
    eng.used_contracts.add("sqlite3_total_changes [trusted: SQLite library]"); return st.g("changes")

def sqv_string(eng, st, this, args, n):
    v = eng.read(st, this); return sqv(v.f["type"], v.f["integer"], v.f["text"])

def hook_lock(eng, st, lv, ev):
    """another handle may have changed the shared commit state while this thread did not hold commitLock (interference)"""
    if isinstance(ev, str) and "unlock" in ev: return
    cond = ev[1] if isinstance(ev, tuple) else T
    sd = LV(lv.kind, lv.root, Ty("rec"), lv.path[:-1], lv.cls)
    h = eng.read_raw(st, m_h(lv))
    c = And_([cond, h == 1])
    for f in ("commitCount", "lastCommittedHash", "_commitEnabled", "nextJournalCount", "_preparedTransactions"): interfere(eng, st, sd, lv, f, c)
    p = lv.path[-1]; rec = next(r for r in eng.prog.records.values() if r["qn"] == p[2]); fty = next(x[1] for x in rec["fields"] if x[0] == "commitCount")
    n = aval(eng.read(st, sd.ext(("f", "commitCount", p[2], fty), fty))); st.assume(z3.Implies(cond, And_([n >= 0, n < 2**62])))
def interfere(eng, st, sd, lv, f, c):
    p = lv.path[-1]; rec = next(r for r in eng.prog.records.values() if r["qn"] == p[2])
    fty = next(x[1] for x in rec["fields"] if x[0] == f)
    l = sd.ext(("f", f, p[2], fty), fty)
    cur = eng.read_raw(st, l); eng.write(st, l, merge_val(c, eng.fresh(fty, "other_" + f), cur))
def hook_internal(eng, st, lv, ev):
    if isinstance(ev, str) and "unlock" in ev: return
    sd = LV(lv.kind, lv.root, Ty("rec"), lv.path[:-1], lv.cls)
    h = eng.read_raw(st, m_h(lv)); interfere(eng, st, sd, lv, "_committedTransactions", h == 1)

def prepare_handler(eng, st, f, args, n):
    """a function value: the on-prepare notification handler, the pre-checkpoint callback, an authorizer or after-commit
    callback.  Handlers act on the handle through its public writes only: the text may grow, caches and counters change,
    and a handler may throw."""
    eng.used_contracts.add("<function value> [trusted: callbacks use the handle only through write/read and may throw]")
    eng.assumed.add("callback through function value: may read/write the handle, may throw")
    if any(is_rec(a, "SQLite") for a in args) and eng.sqthis is not None:
        for key in ("_uncommittedQuery", "_queryCache", "_readQueryCount", "_writeQueryCount", "_cacheHits", "_isDeterministicQuery", "_readElapsed", "_writeElapsed", "_timeoutError", "_tablesUsed"):
            lv = flv(eng, st, eng.sqthis, key); eng.write(st, lv, eng.fresh(lv.ty, key))
        st.setg("hn", st.g("hn") + 1)
        b = z3.Const(fresh_name("handler_throws"), B); eng.raise_(st, b, Exc("SException"))
    return eng.fresh(eng.ty(n), "cbret") if eng.ty(n).k != "void" else None

sha_hex = z3.Function("hex_of_sha1", Str, Str)
def sha1(eng, st, this, args, n):
    eng.used_contracts.add("SHashSHA1 [trusted: deterministic]")
    return z3.Function("sha1", Str, Str)(eng.rv(args[0], st))
def tohex(eng, st, this, args, n):
    v = eng.rv(args[0], st)
    if v.sort() != Str: return L.pure_call(eng, st, this, args, n)
    eng.used_contracts.add("SToHex [trusted: deterministic; the hex form of a SHA1 digest is not empty]")
    if v.decl().name() == "sha1": r = sha_hex(v.arg(0)); eng.axiom(r != eng.lit("")); return r
    return z3.Function("to_hex", Str, Str)(v)
def setup(eng):
    eng.sqthis = None
    eng.contracts["SHashSHA1"] = sha1; eng.contracts["SToHex"] = tohex
    eng.contracts["SQuery"] = squery()
    eng.contracts["sqlite3_total_changes"] = total_changes
    eng.contracts["SQValue::operator basic_string"] = sqv_string
    eng.contracts["SQValue::operator string"] = sqv_string
    eng.contracts["<fnptr>"] = prepare_handler
    for f in ("start", "stop", "log"): eng.contracts["SPerformanceTimer::" + f] = nothing("SPerformanceTimer::" + f, "timing only")
    eng.contracts["SQLite::logLastTransactionTiming"] = nothing("SQLite::logLastTransactionTiming", "logging only")
    eng.contracts["std::format"] = nothing("std::format", "log text")
    eng.on_lock["commitLock"] = hook_lock
    eng.on_lock["_internalStateMutex"] = hook_internal
def pre(eng, st, this, args):
    ghosts(eng, st)
    if this is not None and strip(this.ty).n == "SQLite": eng.sqthis = this
common = dict(setup=setup, pre=pre)

# ---- views of the handle
def fld(eng, st, this, n): return atom(eng, st, this, n)
def held(eng, st, this): return eng.read(st, m_h(flv(eng, st, this, "_sharedData.commitLock")))
def view(eng, st, this):
    f = lambda n: fld(eng, st, this, n)
    return dict(h=held(eng, st, this), locked=f("_mutexLocked"), inside=f("_insideTransaction"), q=f("_uncommittedQuery"), hash=f("_uncommittedHash"), open=f("_sharedData.openTransactionCount"), count=f("_sharedData.commitCount"), last=f("_sharedData.lastCommittedHash"), enabled=f("_sharedData._commitEnabled"))
def inv(eng, st, this):
    v = view(eng, st, this); e = eng.lit("")
    return [("the handle's lock flag says exactly whether it holds the commit lock", v["h"] == z3.If(v["locked"], 1, 0)),
            ("the commit lock is held only inside a transaction", z3.Implies(v["locked"], v["inside"])),
            ("no leftover transaction text or hash outside a transaction", z3.Implies(Not_(v["inside"]), And_([v["q"] == e, v["hash"] == e]))),
            ("a computed hash means the commit lock is held", z3.Implies(v["hash"] != e, v["locked"]))]

def sql_prefix(eng, t):
    """leading literal text of an SQL string term ('' if unknown)"""
    l = eng.lit_of(t)
    if l is not None: return l
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            a, b = sql_prefix(eng, t.arg(1)), sql_prefix(eng, t.arg(2))
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]: k += 1
            return a[:k]
        if t.decl().name() == "str_cat": return sql_prefix(eng, t.arg(0))
    return ""
