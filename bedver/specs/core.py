"""P12/P13: running a command (BedrockCore): whatever a command does, its transaction, deadline and modes are cleaned up."""
import z3
from ..spec import *
from ..lib import cat, S_toull, S_toll, m_h, forall, int2str
from . import sqcommon as C
from .nodecommon import dbcontract, C_begin, C_rollback, C_prepare, C_commit, HANDLE, SV_
TUS = ["BedrockCore.cpp", "sqlitecluster/SQLite.cpp", "BedrockCommand.cpp", "sqlitecluster/SQLiteCore.cpp", "libstuff/SData.cpp"]
NOTRUN, OK, SEXC, TIMEOUT, CONSTRAINT, UNKNOWN = range(6)
READ = {"prePeekCommand": "BedrockCommand::prePeek", "peekCommand": "BedrockCommand::peek", "postProcessCommand": "BedrockCommand::postProcess"}
CMD = "BedrockCommand"

def cmdty(eng): return eng.prog.byname["BedrockCommand::areHttpsRequestsComplete"][0].this
def cmd(eng, st, args): return eng.objlv(eng.rv(args[0], st), cmdty(eng))
def db(eng, st, this): return flv(eng, st, this, "_db")
def f_(eng, st, lv, name): return atom(eng, st, lv, name)
def const(eng, name):
    """value of a static const integer of the class, from the source's initialiser"""
    for k, g in eng.prog.globals.items():
        if k == name or (isinstance(g, dict) and g.get("qn") == name): return eng.global_vals[name]
def isnull(eng, st, lv, name):
    v = eng.read(st, flv(eng, st, lv, name)); return z3.BoolVal(False) if isinstance(v, (PtrTo,)) else (v == 0 if is_z3(v) and v.sort() == I else z3.BoolVal(not isinstance(v, (FnPtr, Lam))))
def text(eng, st, lv, name): return f_(eng, st, lv, name)
def reqset(eng, st, c, name):
    m = field(eng, st, c, "request.nameValueMap"); return z3.Select(m.f["has"], eng.lit(name.lower()))
def reqval(eng, st, c, name):
    m = field(eng, st, c, "request.nameValueMap"); return z3.Select(m.f["val"], eng.lit(name.lower()))

# ---- contracts
def cases(eng, t):
    """(condition, text) for every literal text the string term can be ([] if not literal)"""
    l = eng.lit_of(t)
    if l is not None: return [(T, l)]
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE: return [(And_([t.arg(0), c]), x) for c, x in cases(eng, t.arg(1))] + [(And_([Not_(t.arg(0)), c]), x) for c, x in cases(eng, t.arg(2))]
        if t.decl().name() == "str_cat": return [(And_([c, d]), x + y) for c, x in cases(eng, t.arg(0)) for d, y in cases(eng, t.arg(1))]
    return []
def handle(c):
    """the contract's effect includes the lock itself; the handle invariant (P01) holds afterwards"""
    def w(eng, st, this, args, n):
        ml = m_h(flv(eng, st, this, "_sharedData.commitLock")); eng.write(st, ml, z3.Const(fresh_name("lock"), eng.read(st, ml).sort()))
        k = len(eng.exits[-1]); r = c(eng, st, this, args, n)
        for s in [st] + [x[1] for x in eng.exits[-1][k:]]:
            for nm, f in C.inv(eng, s, this): s.assume(f)
        return r
    return w
def squery(inner):
    def c(eng, st, this, args, n):
        sql = eng.rv(args[1], st); pre = C.sql_prefix(eng, sql)
        which = next(((p, g) for p, g in (("PRAGMA query_only = ", "qo"), ("PRAGMA noop_update=", "noop")) if pre.startswith(p)), None)
        if which is None: return inner(eng, st, this, args, n)
        p, g = which; on = p + ("true;" if g == "qo" else "ON;"); off = p + ("false;" if g == "qo" else "OFF;")
        eng.used_contracts.add("SQuery [trusted: SQLite library; %s<mode>; switches that mode on or off]" % p)
        v = z3.Const(fresh_name(g), B)
        for cond, tx in cases(eng, sql): v = z3.If(cond, T if tx == on else F if tx == off else v, v)
        st.setg(g, v)
        res = next((a for a in args if C.is_rec(a, "SQResult")), None)
        if res is not None: eng.write(st, res, eng.fresh(res.ty, "res"))
        rc = z3.Const(fresh_name("rc"), I); eng.range_axiom(rc, Ty("int", w=32, s=1)); return rc
    return c
DBSTATE = HANDLE + ("_queryCache", "_readQueryCount", "_writeQueryCount", "_cacheHits", "_isDeterministicQuery", "_readElapsed", "_writeElapsed", "_timeoutError", "_tablesUsed")
CMDSTATE = ("response", "jsonContent", "repeek", "shouldAbort", "_timeout", "_commitEmptyTransactions")
def havocs(eng, st, lv, names):
    for nm in names:
        l = flv(eng, st, lv, nm); eng.write(st, l, eng.fresh(l.ty, "pl_" + nm))
def tick(eng, st):
    t = z3.Const(fresh_name("now"), I); st.assume(t >= st.g("now")); st.assume(t < 1 << 60); st.setg("now", t)
def raise_pl(eng, st, kind, exc):
    b = z3.Const(fresh_name("plugin_throws"), B); s2 = st.copy(); s2.assume(b); s2.setg("pl", z3.IntVal(kind))
    if exc.val is not None: s2.setg("excm", exc.val.f["method"]); 
    eng.exits[-1].append(("throw", s2, exc)); st.assume(Not_(b))
def excty(eng, name):
    for k, r in eng.prog.records.items():
        if r["qn"] == name: return Ty("rec", n=name, key=k)
    raise FrontError("no record " + name)
def plugin(stage):
    def c(eng, st, this, args, n):
        """the plugin's own code for this stage: anything it does through the handle's public interface, ending in any way"""
        eng.used_contracts.add("BedrockCommand::%s [plugin code: may write the response, use the handle and throw anything; does not end the transaction it is given except through waitForHTTPSRequests]" % stage)
        d = eng.rdb; co = eng.rcmd
        getattr(eng, "at_plugin", lambda *a: None)(eng, st, stage)
        st.setg("ran", st.g("ran") + 1)
        havocs(eng, st, d, DBSTATE); havocs(eng, st, co, CMDSTATE); tick(eng, st)
        for nm, f in C.inv(eng, st, d): st.assume(f)
        if stage == "process": st.assume(C.view(eng, st, d)["inside"])
        t = f_(eng, st, co, "_timeout"); st.assume(And_([t >= 0, t < 1 << 61]))
        st.setg("ptxt", C.view(eng, st, d)["q"]); st.setg("pm", f_(eng, st, co, "response.methodLine")); st.setg("pab", And_([eng.sock != 0, f_(eng, st, co, "shouldAbort")])); st.setg("prep", f_(eng, st, co, "repeek"))
        ex = eng.fresh(excty(eng, "SException"), "plexc")
        raise_pl(eng, st, SEXC, Exc("SException", ex)); raise_pl(eng, st, TIMEOUT, Exc("SQLite::timeout_error")); raise_pl(eng, st, CONSTRAINT, Exc("SQLite::constraint_error")); raise_pl(eng, st, UNKNOWN, Exc("(plugin exception)"))
        st.setg("pl", z3.IntVal(OK))
        if stage == "peek": r = z3.Const(fresh_name("peek_done"), B); st.setg("pdone", r); return r
        return None
    return c
def rewriting(eng, st, this, args, n):
    eng.used_contracts.add("BedrockCommand::shouldEnableQueryRewriting [plugin code: any answer, any handler]")
    if isinstance(args[1], PtrTo): eng.write(st, args[1].lv, z3.Const(fresh_name("handler"), I))
    b = z3.Const(fresh_name("rewriting"), B); return b
def pure_plugin(name):
    def c(eng, st, this, args, n):
        eng.used_contracts.add("BedrockCommand::%s [plugin code: any answer]" % name); t = eng.ty(n); return None if t.k == "void" else eng.new_tmp(st, eng.fresh(t, name), t) if n.get("lv") else eng.fresh(t, name)
    return c
def reset(eng, st, this, args, n):
    eng.used_contracts.add("BedrockCommand::reset [plugin code: may clear the response and content]"); havocs(eng, st, eng.rcmd, ("response", "jsonContent"))
def clocked(c):
    def w(eng, st, this, args, n):
        st.setg("nb", st.g("now")); tick(eng, st); st.setg("na", st.g("now")); st.setg("began", T); return c(eng, st, this, args, n)
    return w
def setup(eng):
    C.setup(eng); c = eng.contracts
    c["SQuery"] = squery(C.squery())
    for s in ("prePeek", "peek", "process", "postProcess"): c["BedrockCommand::" + s] = plugin(s)
    c["BedrockCommand::shouldEnableQueryRewriting"] = rewriting
    for s in ("shouldSuppressTimeoutWarnings", "getMethodName", "getName"): c["BedrockCommand::" + s] = pure_plugin(s)
    c["BedrockCommand::reset"] = reset
    c["SQLite::beginTransaction"] = clocked(handle(dbcontract("SQLite::beginTransaction", HANDLE, C_begin, throws=True)))
    c["SQLite::rollback"] = handle(dbcontract("SQLite::rollback", HANDLE, C_rollback))
    c["SGetCurrentExceptionName"] = C.nothing("SGetCurrentExceptionName", "log text")
    c["SException::details"] = C.nothing("SException::details", "call stack text")
    c["BedrockCore::AutoTimer::~AutoTimer"] = C.nothing("BedrockCore::AutoTimer::~AutoTimer", "records timing only")
GH = (("qo", B), ("noop", B), ("pl", I), ("ran", I), ("now", I), ("ptxt", Str), ("pm", Str), ("pab", B), ("excm", Str), ("pdone", B), ("nb", I), ("na", I), ("began", B), ("prep", B))
def pre(eng, st, this, args):
    C.ghosts(eng, st)
    for g, s in GH: st.setg(g, z3.Const("g_" + g, s))
    st.setg("pl", z3.IntVal(NOTRUN)); st.setg("ran", z3.IntVal(0)); st.setg("began", F)
    st.assume(And_([st.g("now") > 0, st.g("now") < 1 << 60]))
    if isinstance(args[0], LV) or is_z3(args[0]):
        eng.rcmd = cmd(eng, st, args); eng.axiom(eng.rcmd.root > 0); eng.sock = f_(eng, st, eng.rcmd, "socket")
        t = f_(eng, st, eng.rcmd, "_timeout"); st.assume(And_([t >= 0, t < 1 << 61]))
    eng.rdb = None
    if this is not None:
        eng.rdb = eng.sqthis = db(eng, st, this)
        for nm, f in C.inv(eng, st, eng.rdb): st.assume(f)
        st.assume(Not_(f_(eng, st, eng.rdb, "_enableRewrite"))); st.assume(isnull(eng, st, eng.rdb, "_rewriteHandler"))
        st.assume(st.g("noop") == f_(eng, st, eng.rdb, "_noopUpdateMode"))
        eng.now0 = st.g("now")
def RES(eng, name):
    for k, e in eng.prog.enums.items():
        if k.endswith("BedrockCore::RESULT"):
            for x in e["consts"] if isinstance(e, dict) and "consts" in e else (e.items() if isinstance(e, dict) else e):
                if x[0].split("::")[-1] == name: return x[1]
    raise FrontError("no BedrockCore::RESULT::" + name)

def clean(eng, s, P, idle=True):
    d = eng.rdb; b = C.view(eng, s, d)
    P(s, z3.And(f_(eng, s, d, "_timeoutLimit") == 0, f_(eng, s, d, "_timeoutStart") == 0), "no deadline is left on the database handle")
    P(s, isnull(eng, s, d, "_shouldAbortPtr"), "no abort flag is left on the database handle")
    for nm, f in C.inv(eng, s, d): P(s, f, nm)
def method(eng, s): return f_(eng, s, eng.rcmd, "response.methodLine")
def classify(eng, s, P, sx=True):
    pl = s.g("pl"); m = method(eng, s)
    P(s, z3.Implies(pl == UNKNOWN, m == eng.lit("500 Unhandled Exception")), "an exception of unknown type answers 500")
    P(s, z3.Implies(And_([pl == SEXC, s.g("excm") != eng.lit("")]), m == s.g("excm")), "a command's own exception decides the answer")
def R(name):
    def at(eng, st, stage):
        d = eng.rdb; P = lambda f, nm: eng.prove(st, f, nm)
        P(st.g("qo"), "read-only stage runs with query-only on")
        P(f_(eng, st, d, "_timeoutLimit") != 0, "plugin code runs with a deadline on the handle")
        P(Not_(isnull(eng, st, d, "_shouldAbortPtr")), "plugin code can be aborted while it runs")
        P(f_(eng, st, eng.rcmd, "_inDBReadOperation"), "the command is marked as reading")
        if stage == "peek": P(C.view(eng, st, d)["inside"], "peek runs inside a transaction")
    def post(eng, old, s, this, args, kind, p):
        P = lambda st, f, nm: eng.prove(st, f, nm)
        if kind == "throw": P(s, F, "no exception escapes"); return
        co = eng.rcmd; d = eng.rdb; b = C.view(eng, s, d); pl = s.g("pl"); m = method(eng, s)
        clean(eng, s, P)
        P(s, z3.Implies(s.g("ran") > 0, Not_(s.g("qo"))), "query-only is off again")
        P(s, Not_(f_(eng, s, co, "_inDBReadOperation")) if True else T, "the command is no longer marked as reading")
        P(s, s.g("ran") <= 1, "the stage runs at most once")
        sock = eng.sock; ab0 = And_([sock != 0, f_(eng, old, co, "shouldAbort")])
        P(s, z3.Implies(ab0, pl == NOTRUN), "a command whose client is gone is not run")
        P(s, z3.Implies(And_([pl == OK, s.g("pab")]), m_starts(eng, s, "556 Aborted")), "a command whose client left while it ran answers 556")
        classify(eng, s, P)
        P(s, z3.Implies(pl == TIMEOUT, m_starts(eng, s, {"prePeekCommand": "555 Timeout prePeeking command", "peekCommand": "555 Timeout peeking command", "postProcessCommand": "555 Timeout postProcessing command"}[name])), "a database timeout answers 555")
        comp = f_(eng, s, co, "complete")
        if name == "peekCommand":
            rv = eng.rv(p, s); C_, SP = RES(eng, "COMPLETE"), RES(eng, "SHOULD_PROCESS")
            P(s, z3.Or(rv == C_, rv == SP), "peek answers COMPLETE or SHOULD_PROCESS")
            P(s, z3.Implies(rv == C_, And_([comp, Not_(b["inside"]), Not_(b["locked"])])), "a completed command holds no transaction")
            P(s, (rv == SP) == And_([pl == OK, Not_(s.g("pdone")), Not_(s.g("pab"))]), "only a command that asked for it, and whose client is there, goes on to process")
            P(s, z3.Implies(pl >= SEXC, Not_(f_(eng, s, co, "repeek"))), "a failed command is not peeked again")
            P(s, z3.Implies(And_([rv == C_, pl == OK, s.g("pm") == eng.lit(""), Not_(s.g("pab"))]), m == eng.lit("200 OK")), "success without an answer answers 200 OK")
            P(s, z3.Implies(And_([rv == C_, pl == OK, s.g("pm") != eng.lit(""), Not_(s.g("pab"))]), m == s.g("pm")), "the command's own answer is kept")
        elif name == "prePeekCommand":
            P(s, z3.Implies(Or_([pl != OK, s.g("pab")]), comp), "a failed prePeek completes the command")
            P(s, z3.Implies(And_([pl == OK, Not_(s.g("pab"))]), And_([comp == f_(eng, old, co, "complete"), m == s.g("pm")])), "a successful prePeek neither completes nor answers")
        else: P(s, comp, "the command is complete after postProcess")
    return at, post
def m_starts(eng, s, lit): return method(eng, s) == eng.lit(lit)
def at_process(eng, st, stage):
    d = eng.rdb; P = lambda f, nm: eng.prove(st, f, nm)
    P(C.view(eng, st, d)["inside"], "process runs inside a transaction")
    P(f_(eng, st, d, "_timeoutLimit") != 0, "plugin code runs with a deadline on the handle")
    P(Not_(isnull(eng, st, d, "_shouldAbortPtr")), "plugin code can be aborted while it runs")
    P(f_(eng, st, eng.rcmd, "_inDBWriteOperation"), "the command is marked as writing")
    mock = reqset(eng, st, eng.rcmd, "mockRequest")
    P(st.g("noop") == mock, "updates are no-ops exactly for mocked requests")
def post_process(eng, old, s, this, args, kind, p):
    P = lambda st, f, nm: eng.prove(st, f, nm)
    if kind == "throw": P(s, F, "no exception escapes"); return
    co = eng.rcmd; d = eng.rdb; b = C.view(eng, s, d); pl = s.g("pl"); m = method(eng, s); rv = eng.rv(p, s); e = eng.lit("")
    clean(eng, s, P)
    NC, NO = RES(eng, "NEEDS_COMMIT"), RES(eng, "NO_COMMIT_REQUIRED"); ok = And_([pl == OK, Not_(s.g("pab"))]); comp = f_(eng, s, co, "complete")
    P(s, z3.Or(rv == NC, rv == NO), "process answers NEEDS_COMMIT or NO_COMMIT_REQUIRED")
    P(s, z3.Implies(rv == NC, And_([Not_(comp), b["inside"], ok])), "only a successful process leaves a transaction to commit")
    P(s, z3.Implies(rv == NO, And_([comp, Not_(b["inside"]), Not_(b["locked"]), b["q"] == e])), "without a commit the transaction is rolled back and the command complete")
    P(s, z3.Implies(And_([ok, s.g("ptxt") != e]), rv == NC), "a successful write is committed")
    P(s, z3.Implies(And_([ok, s.g("ptxt") == e, Not_(f_(eng, s, co, "_commitEmptyTransactions"))]), rv == NO), "a transaction without writes is not committed")
    P(s, z3.Implies(And_([rv == NC, Not_(reqset(eng, old, co, "mockRequest"))]), b["q"] == s.g("ptxt")), "what will be committed is exactly what the command wrote")
    P(s, z3.Implies(And_([eng.sock != 0, f_(eng, old, co, "shouldAbort")]), pl == NOTRUN), "a command whose client is gone is not run")
    P(s, z3.Implies(And_([pl == OK, s.g("pab")]), m == eng.lit("556 Aborted")), "a command whose client left while it ran answers 556")
    classify(eng, s, P)
    P(s, z3.Implies(pl == TIMEOUT, m == eng.lit("555 Timeout processing command")), "a database timeout answers 555")
    P(s, z3.Implies(pl == CONSTRAINT, m == eng.lit("400 Unique Constraints Violation")), "a constraint violation answers 400")
    P(s, z3.Implies(ok, m == z3.If(s.g("pm") == e, eng.lit("200 OK"), s.g("pm"))), "success without an answer answers 200 OK")
    P(s, Not_(f_(eng, s, d, "_noopUpdateMode")), "no-op mode is off again"); P(s, Not_(s.g("noop")), "the connection's no-op mode is off again")
    P(s, And_([Not_(f_(eng, s, d, "_enableRewrite")), isnull(eng, s, d, "_rewriteHandler")]), "query rewriting is off again")
    P(s, Not_(f_(eng, s, co, "_inDBWriteOperation")), "the command is no longer marked as writing")
    P(s, s.g("ran") <= 1, "the stage runs at most once")
def not_busy(eng, st, this, args):
    co = eng.rcmd; st.assume(Not_(f_(eng, st, co, "_inDBReadOperation"))); st.assume(Not_(f_(eng, st, co, "_inDBWriteOperation")))
def rd_item(name):
    at, post = R(name)
    def su(eng): eng.at_plugin = at
    return Item(name, "BedrockCore::" + name, setup=su, pre=not_busy, post=post)
# ---- SQLiteCore::commit
def moved(c):
    """while this waits for the commit lock the node may change to any state"""
    def w(eng, st, this, args, n):
        r = c(eng, st, this, args, n); l = flv(eng, st, eng.rnode, "_state")
        for s in [st] + [x[1] for x in eng.exits[-1] if x[0] == "throw"]: eng.write(s, l, eng.fresh(l.ty, "moved"))
        return r
    return w
def su_commit(eng):
    c = eng.contracts
    c["SQLite::prepare"] = moved(handle(dbcontract("SQLite::prepare", HANDLE, C_prepare)))
    c["SQLite::commit"] = handle(dbcontract("SQLite::commit", HANDLE + ("_sharedData.lastCommittedHash",), C_commit))
    c["SQLiteNode::stateName"] = C.nothing("SQLiteNode::stateName", "log text")
def pre_commit(eng, st, this, args):
    eng.rnode = args[0]
    C.ghosts(eng, st)
    for g, s in GH: st.setg(g, z3.Const("g_" + g, s))
    eng.rdb = eng.sqthis = db(eng, st, this)
    for nm, f in C.inv(eng, st, eng.rdb): st.assume(f)
    n = C.view(eng, st, eng.rdb)["count"]; st.assume(And_([n >= 0, n < 2**62])); st.assume(C.view(eng, st, eng.rdb)["inside"])
    d = eng.rdb; st.assume(And_([isnull(eng, st, d, "_onPrepareHandler"), Not_(f_(eng, st, d, "_shouldNotifyPluginsOnPrepare"))]))
def post_commit(eng, old, s, this, args, kind, p):
    P = lambda st, f, nm: eng.prove(st, f, nm)
    if kind == "throw": P(s, F, "no exception escapes"); return
    d = eng.rdb; a, b = C.view(eng, old, d), C.view(eng, s, d); r = eng.rv(p, s)
    node = args[0]; stt = atom(eng, s, node, "_state")
    P(s, And_([Not_(b["inside"]), Not_(b["locked"])]), "commit always ends the transaction and releases the commit lock")
    P(s, z3.Implies(r, stt == SV_(eng, "LEADING")), "only a node that still leads once its transaction is prepared commits it")
    P(s, z3.Implies(r, b["count"] == a["count"] + 1), "reported success means the commit count advanced")
    P(s, z3.Implies(Not_(r), And_([b["count"] == a["count"], b["q"] == eng.lit("")])), "reported failure means nothing was committed")
    P(s, And_([isnull(eng, s, d, "_onPrepareHandler"), Not_(f_(eng, s, d, "_shouldNotifyPluginsOnPrepare"))]), "the on-prepare handler is removed again")
def items12(prog):
    common_pre = None
    def su_p(eng): eng.at_plugin = at_process
    return [rd_item(n) for n in READ] + [Item("processCommand", "BedrockCore::processCommand", setup=su_p, pre=not_busy, post=post_process),
            ]
P12 = dict(common=dict(setup=setup, pre=pre), tus=TUS, items=items12)
P12C = dict(common=dict(setup=lambda eng: (setup(eng), su_commit(eng)), pre=pre_commit), tus=TUS + ["sqlitecluster/SQLiteNode.cpp"], items=lambda prog: [Item("SQLiteCore::commit", "SQLiteCore::commit", post=post_commit)])

# ================================================================ P13: deadlines
def now(s): return s.g("now")
def ms(eng, st, c, name): 
    """SData::calc: the number at the start of the header's value, capped at 2^31-1"""
    v = S_toll(reqval(eng, st, c, name)); return v
def process_limit(eng, st, c):
    v = S_toll(reqval(eng, st, c, "processTimeout")); w = z3.If(v > 0x7fffffff, 0x7fffffff, v)
    return z3.If(reqset(eng, st, c, "processTimeout"), w, 5000) * 1000
def sane(eng, st, this, args):
    """SData::calc narrows to int: headers outside the int range are not considered (they wrap)"""
    for h in ("processTimeout", "timeout"):
        try: v = S_toll(reqval(eng, st, eng.rcmd, h))
        except FrontError: continue
        st.assume(And_([v >= -(1 << 31), v < 1 << 40]))
def post_remaining(eng, old, s, this, args, kind, p):
    P = lambda st, f, nm: eng.prove(st, f, nm)
    t = f_(eng, old, eng.rcmd, "_timeout"); proc = eng.rv(args[1], old); pl = process_limit(eng, old, eng.rcmd)
    late = Or_([t <= now(s), And_([proc, pl <= 0])])
    if kind == "throw":
        P(s, late, "times out only once the deadline has passed"); P(s, And_([z3.BoolVal(p.ty == "SException"), p.val.f["method"] == eng.lit("555 Timeout")]) if p.val is not None else F, "an expired deadline answers 555 Timeout"); return
    r = eng.rv(p, s); r = aval(r) if not is_z3(r) else r
    left = t - now(s)
    P(s, Not_(late), "an expired command is always refused"); P(s, r > 0, "the time left is positive")
    P(s, r == z3.If(And_([proc, pl < left]), pl, left), "the time left is what remains of the deadline, and at most the process timeout")
def post_timedout(eng, old, s, this, args, kind, p):
    P = lambda st, f, nm: eng.prove(st, f, nm)
    if kind == "throw": P(s, F, "no exception escapes"); return
    t = f_(eng, old, eng.rcmd, "_timeout"); r = eng.rv(p, s); co = eng.rcmd
    P(s, r == (t <= now(s)), "reports expiry exactly when the deadline has passed")
    P(s, z3.Implies(r, And_([f_(eng, s, co, "complete"), method(eng, s) == eng.lit("555 Timeout")])), "an expired command is completed with 555")
    P(s, z3.Implies(Not_(r), And_([f_(eng, s, co, "complete") == f_(eng, old, co, "complete"), method(eng, s) == method(eng, old)])), "a command in time is not touched")
    P(s, f_(eng, s, co, "_timeout") == t, "the deadline is not moved")
def post_decrease(eng, old, s, this, args, kind, p):
    P = lambda st, f, nm: eng.prove(st, f, nm)
    co = eng.rcmd; t0, t1 = f_(eng, old, co, "_timeout"), f_(eng, s, co, "_timeout"); lim = eng.rv(args[1], old) * 1000; d = eng.rdb
    l0, l1 = f_(eng, old, d, "_timeoutLimit"), f_(eng, s, d, "_timeoutLimit")
    if kind == "throw": P(s, And_([t1 <= now(s)]), "refused only when the deadline has passed"); return
    P(s, t1 <= now(s) + lim, "the deadline is at most the limit away")
    P(s, z3.Or(t1 == t0, And_([t1 >= eng.now0 + lim, t1 <= now(s) + lim])), "the deadline is either kept or set to the limit")
    P(s, z3.Implies(t1 == t0, z3.Or(l1 == l0, l1 <= now(s) + lim)), "the handle's deadline follows")
    P(s, z3.Implies(t1 != t0, And_([l1 <= now(s) + lim, l1 > 0])), "a shortened deadline is put on the handle")
def small(eng, st, this, args): st.assume(And_([eng.rv(args[1], st) >= 0, eng.rv(args[1], st) < 1 << 40]))
def deadlines(eng, st, stage):
    d = eng.rdb; co = eng.rcmd; P = lambda f, nm: eng.prove(st, f, nm)
    t = f_(eng, st, co, "_timeout"); l = f_(eng, st, d, "_timeoutLimit"); n0 = eng.now0
    run = now(st) - n0 - z3.If(st.g("began"), st.g("na") - st.g("nb"), 0)    # time spent outside the wait for the lock
    P(l > 0, "plugin code never runs without a deadline")
    P(l <= t + run, "the handle's deadline is the command's")
    P(t > n0, "a command past its deadline is not run")
    if stage == "process":
        # a command that takes the commit lock exclusively is given the exclusive limit instead
        P(Or_([l <= now(st) + process_limit(eng, st, co), And_([eng.exclusive, st.g("began")])]), "processing is limited by the process timeout")
    if eng.exclusive is not None:
        lim = z3.If(f_(eng, st, co, "isSynchronous"), eng.c_sync, eng.c_proc) * 1000
        P(z3.Implies(And_([eng.exclusive, st.g("began")]), And_([t <= now(st) + lim, l <= now(st) + lim + run])), "a command holding the commit lock exclusively has a short deadline")
def dl_item(name):
    def su(eng): eng.at_plugin = deadlines
    def pr(eng, st, this, args):
        sane(eng, st, this, args); eng.exclusive = eng.rv(args[1], st) if name in ("peekCommand", "processCommand") else None
        eng.c_sync, eng.c_proc = 20000, 5000
    return Item(name + ": deadlines", "BedrockCore::" + name, setup=su, pre=pr)
def pre_cmd(eng, st, this, args):
    """methods of the command itself"""
    C.ghosts(eng, st)
    for g, s in GH: st.setg(g, z3.Const("g_" + g, s))
    st.setg("began", F); st.assume(And_([st.g("now") > 0, st.g("now") < 1 << 60])); eng.rcmd = this; eng.rdb = None
    if this is not None: eng.sock = f_(eng, st, this, "socket")
def post_settimeout(eng, old, s, this, args, kind, p):
    if kind == "throw": eng.prove(s, F, "no exception escapes"); return
    eng.prove(s, f_(eng, s, this, "_timeout") == now(s) + eng.rv(args[0], old) * 1000, "the deadline is the given number of milliseconds from now")
def small0(eng, st, this, args): st.assume(And_([eng.rv(args[0], st) >= 0, eng.rv(args[0], st) < 1 << 40]))
def post_gettimeout(eng, old, s, this, args, kind, p):
    if kind == "throw": eng.prove(s, F, "no exception escapes"); return
    m = eng.read(old, flv(eng, old, args[0], "nameValueMap")) if isinstance(args[0], LV) else args[0].f["nameValueMap"]
    has = lambda k: z3.Select(m.f["has"], eng.lit(k)); val = lambda k: z3.Select(m.f["val"], eng.lit(k))
    from .. import lib as L
    v = S_toll(val("timeout")); given = z3.If(v > 0x7fffffff, 0x7fffffff, v)
    forget = And_([has("connection"), L.lower(eng, val("connection")) == eng.lit("forget")])
    eng.prove(s, eng.rv(p, s) == eng.rv(args[1], old) + 1000 * z3.If(has("timeout"), given, z3.If(forget, 3600000, 110000)), "the deadline is the requested timeout, one hour for fire-and-forget, 110 seconds otherwise")
def pre_gettimeout(eng, st, this, args):
    C.ghosts(eng, st); st.assume(And_([eng.rv(args[1], st) >= 0, eng.rv(args[1], st) < 1 << 60]))
    m = eng.read(st, flv(eng, st, args[0], "nameValueMap")) if isinstance(args[0], LV) else args[0].f["nameValueMap"]
    v = S_toll(z3.Select(m.f["val"], eng.lit("timeout"))); st.assume(And_([v >= -(1 << 31), v < 1 << 62]))
def pre_sqlite(eng, st, this, args):
    C.ghosts(eng, st); st.setg("now", z3.Const("g_now", I)); st.assume(And_([st.g("now") > 0, st.g("now") < 1 << 60]))
    d = this if this is not None else eng.objlv(eng.rv(args[0], st), eng.prog.byname["SQLite::rollback"][0].this)
    if this is None: eng.axiom(d.root > 0)
    eng.rdb = eng.sqthis = d
    ts, tl = f_(eng, st, d, "_timeoutStart"), f_(eng, st, d, "_timeoutLimit")
    st.assume(z3.Implies(tl != 0, And_([ts < tl, ts <= st.g("now")])))
def expired(eng, st, s, d): tl = f_(eng, st, d, "_timeoutLimit"); return And_([tl != 0, now(s) > tl])
def aborted(eng, st, d):
    lv = flv(eng, st, d, "_shouldAbortPtr"); v = eng.read(st, lv)
    if isinstance(v, PtrTo): return aval(eng.read(st, v.lv))
    return And_([v != 0, aval(eng.read(st, eng.objlv(v, lv.ty.to)))])
def post_progress(eng, old, s, this, args, kind, p):
    if kind == "throw": eng.prove(s, F, "no exception escapes"); return
    d = eng.rdb
    eng.prove(s, (eng.rv(p, s) != 0) == Or_([expired(eng, old, s, d), aborted(eng, old, d)]), "a running statement is interrupted exactly when its deadline has passed or it was aborted")
    eng.prove(s, z3.Implies(expired(eng, old, s, d), f_(eng, s, d, "_timeoutError") > 0), "an interrupted statement is marked timed out")
def post_interrupt(eng, old, s, this, args, kind, p):
    d = eng.rdb; late = Or_([expired(eng, old, s, d), And_([f_(eng, old, d, "_timeoutLimit") != 0, f_(eng, old, d, "_timeoutError") != 0])]); ab = aborted(eng, old, d)
    if kind == "throw":
        P = lambda f, nm: eng.prove(s, f, nm)
        if p.ty == "SException": P(ab, "aborted only on request")
        else: P(And_([late, z3.BoolVal(p.ty == "SQLite::timeout_error")]), "timed out only past the deadline")
        return
    eng.prove(s, And_([Not_(late), Not_(ab)]), "returns only in time and not aborted")
def post_read(eng, old, s, this, args, kind, p):
    if kind == "throw": return
    d = eng.rdb; late = And_([f_(eng, s, d, "_timeoutLimit") != 0, f_(eng, s, d, "_timeoutError") != 0])
    eng.prove(s, And_([Not_(late), Not_(aborted(eng, s, d))]), "a statement interrupted by deadline or abort never looks successful")
    eng.prove(s, Not_(And_([f_(eng, s, d, "_timeoutLimit") != 0, now(s) > f_(eng, s, d, "_timeoutLimit")])), "no result is returned after the deadline")
# ---- waiting for HTTPS requests
def su_wait(eng):
    c = eng.contracts
    def wait(eng, st, this, args, n):
        eng.used_contracts.add("BedrockCommand::_waitForHTTPSRequests (contract verified by its own item)"); tick(eng, st); st.setg("waited", st.g("waited") + 1)
        eng.prove(st, Not_(C.view(eng, st, eng.rdb)["inside"]), "no transaction is held open while waiting on the network")
    c["BedrockCommand::_waitForHTTPSRequests"] = wait
def pre_wait(eng, st, this, args):
    pre_cmd(eng, st, this, args); st.setg("waited", z3.IntVal(0))
    eng.rdb = eng.sqthis = args[0]
    for nm, f in C.inv(eng, st, eng.rdb): st.assume(f)
def post_wait(eng, old, s, this, args, kind, p):
    d = eng.rdb; a, b = C.view(eng, old, d), C.view(eng, s, d); P = lambda f, nm: eng.prove(s, f, nm)
    rd = f_(eng, old, this, "_inDBReadOperation")
    for nm, f in C.inv(eng, s, d): P(f, nm)
    if kind == "throw":
        P(z3.Implies(And_([a["inside"], Not_(rd)]), And_([s.g("waited") == 0, b["inside"], b["q"] == a["q"]])), "waiting inside a write transaction is refused before anything happens"); return
    P(Or_([Not_(a["inside"]), rd]), "waiting inside a write transaction is refused")
    P(b["inside"] == a["inside"], "a transaction that was open is open again"); P(s.g("waited") == 1, "waits once")
    P(z3.Implies(Not_(a["inside"]), Not_(b["inside"])), "no transaction is opened where there was none")
def items13(prog):
    com = lambda **k: k
    return [dl_item(n) for n in ("prePeekCommand", "peekCommand", "processCommand", "postProcessCommand")] + [
        Item("getRemainingTime", "BedrockCore::getRemainingTime", pre=sane, post=post_remaining, want=("return", "throw")),
        Item("isTimedOut", "BedrockCore::isTimedOut", pre=sane, post=post_timedout),
        Item("decreaseCommandTimeout", "BedrockCore::decreaseCommandTimeout", pre=lambda *a: (sane(*a), small(*a)), post=post_decrease, want=("return", "throw"))]
P13 = dict(common=dict(setup=setup, pre=pre), tus=TUS, items=items13)
def items13c(prog):
    return [Item("BedrockCommand::setTimeout", "BedrockCommand::setTimeout", pre=small0, post=post_settimeout),
        Item("waitForHTTPSRequests(db)", "BedrockCommand::waitForHTTPSRequests", nparams=1, setup=su_wait, pre=pre_wait, post=post_wait, want=("return", "throw"))]
P13C = dict(common=dict(setup=setup, pre=pre_cmd), tus=TUS, items=items13c)
P13G = dict(common=dict(setup=setup, pre=pre_gettimeout), tus=TUS, items=lambda prog: [Item("BedrockCommand::_getTimeout", "BedrockCommand::_getTimeout", post=post_gettimeout)])
P13S = dict(common=dict(setup=setup, pre=pre_sqlite), tus=TUS, items=lambda prog: [
        Item("SQLite::_progressHandlerCallback", "SQLite::_progressHandlerCallback", post=post_progress),
        Item("SQLite::_checkInterruptErrors", "SQLite::_checkInterruptErrors", post=post_interrupt, want=("return", "throw")),
        Item("SQLite::read: deadline", "SQLite::read", pick=lambda f: len(f.ps) == 4, post=post_read, want=("return", "throw"))])
def su_it(eng):
    setup(eng); c = eng.contracts
    c.pop("BedrockCommand::_waitForHTTPSRequests", None)
    eng.iter_fields["BedrockCommand._lastContiguousCompletedTransaction"] = lambda e, st, lv: flv(e, st, LV("obj", lv.root, e.rcmd.ty, (), lv.cls), "httpsRequests._list")
def reqs(eng, st, c): return eng.read(st, flv(eng, st, c, "httpsRequests._list"))
def resp(eng, st, a):
    t = eng.heap_tree(st, "SStandaloneHTTPSManager::Transaction.response"); t = t if is_z3(t) else next(iter(t.f.values())); return z3.Select(t, a) != 0
def answered(eng, st, upto):
    """every request before the position has a response"""
    v = reqs(eng, st, eng.rcmd); i = z3.Int("ri"); a = z3.Select(v.f["el"], i); return z3.ForAll([i], z3.Implies(And_([i >= 0, i < upto, i < v.f["len"]]), resp(eng, st, a)), patterns=[a])
def stored(eng, st):
    p = eng.rcmd; t = eng.heap_get(st, "BedrockCommand._lastContiguousCompletedTransaction", ("leaf", I, None)); return z3.Select(t, p.root)
def it_inv(eng, st):
    v = reqs(eng, st, eng.rcmd); k = stored(eng, st)
    return [("the known-complete position lies in the list", And_([k >= -1, k < v.f["len"]])), ("everything up to the known-complete position is complete", answered(eng, st, k + 1))]
def pre_it(eng, st, this, args):
    pre_cmd(eng, st, this, args); v = reqs(eng, st, this); i = z3.Int("ri"); a = z3.Select(v.f["el"], i)
    st.assume(v.f["len"] >= 0); st.assume(z3.ForAll([i], z3.Implies(And_([i >= 0, i < v.f["len"]]), a > 0), patterns=[a]))
    t = atom(eng, st, this, "_timeout"); st.assume(And_([t >= 0, t < 1 << 61]))
    for nm, f in it_inv(eng, st): st.assume(f)
    eng.vocab.append(it_vocab)
def it_vocab(eng, info):
    out = [("invariant: " + nm, lambda s, j=j: it_inv(eng, s)[j][1]) for j, (nm, f) in enumerate(it_inv(eng, info["entry"]))]
    for m in info["mods"]:
        if m[0] == "loc" and isinstance(info["entry"].locals.get(m[1]), It):
            out.append(("requests before the iterator are answered", lambda s, k=m[1]: answered(eng, s, s.locals[k].pos)))
            out.append(("the iterator stays in the list", lambda s, k=m[1]: And_([s.locals[k].pos >= 0, s.locals[k].pos <= reqs(eng, s, eng.rcmd).f["len"]])))
    return out
def post_complete(eng, old, s, this, args, kind, p):
    if kind == "throw": eng.prove(s, F, "no exception escapes"); return
    r = eng.rv(p, s); n = reqs(eng, s, this).f["len"]
    eng.prove(s, z3.Implies(r, answered(eng, s, n)), "complete means every request has its response")
    i = z3.Const("some_request", I); 
    eng.prove(s, z3.Implies(And_([Not_(r)]), z3.Not(answered(eng, s, n))), "incomplete means some request has none")
    for nm, f in it_inv(eng, s): eng.prove(s, f, nm)
    eng.prove(s, n == reqs(eng, old, this).f["len"], "no request is added or lost")
def monotone(eng, st):
    """the network layer may answer requests; an answer is never taken back"""
    key = "SStandaloneHTTPSManager::Transaction.response"; t = eng.heap_tree(st, key); new = eng.map_leaves(t, lambda x, p: z3.Const(fresh_name("resp"), x.sort()))
    a = z3.Int("ra"); l = lambda x: x if is_z3(x) else next(iter(x.f.values())); eng.heap_set(st, key, new); st.assume(z3.ForAll([a], z3.Implies(z3.Select(l(t), a) != 0, z3.Select(l(new), a) != 0), patterns=[z3.Select(l(new), a)])); tick(eng, st)
def c_complete(eng, st, this, args, n):
    eng.used_contracts.add("BedrockCommand::areHttpsRequestsComplete (contract verified by its own item)")
    key = "BedrockCommand._lastContiguousCompletedTransaction"; k = z3.Const(fresh_name("stored"), I); t = eng.heap_get(st, key, ("leaf", I, None)); eng.heap_set(st, key, z3.Store(t, this.root, k), this.root)
    for nm, f in it_inv(eng, st): st.assume(f)
    r = z3.Const(fresh_name("complete"), B); st.assume(r == answered(eng, st, reqs(eng, st, this).f["len"])); return r
def su_waiting(eng):
    c = eng.contracts; c["BedrockCommand::areHttpsRequestsComplete"] = c_complete
    def net(name):
        def f(e, st, this, args, n): e.used_contracts.add("%s [trusted: network layer; may answer requests, never takes an answer back]" % name); monotone(e, st); return e.fresh(e.ty(n), "net") if e.ty(n).k != "void" else None
        return f
    for x in ("BedrockCommand::prePoll", "BedrockCommand::postPoll", "S_poll", "<fnptr>"): c[x] = net(x)
def post_waiting(eng, old, s, this, args, kind, p):
    if kind == "throw": eng.prove(s, F, "no exception escapes"); return
    eng.prove(s, answered(eng, s, reqs(eng, s, this).f["len"]), "after the wait every request has a response")
    for nm, f in it_inv(eng, s): eng.prove(s, f, nm)
P13X = dict(common=dict(setup=su_it, pre=pre_it), tus=TUS, items=lambda prog: [Item("areHttpsRequestsComplete", "BedrockCommand::areHttpsRequestsComplete", post=post_complete), Item("_waitForHTTPSRequests", "BedrockCommand::_waitForHTTPSRequests", setup=su_waiting, post=post_waiting)])
_h = [dict(name="core", wrap=("sigaction",), bound="5000 (thorough 60000) random commands through prePeek/peek/process/postProcess with every way plugin code can end, BEGIN failures, disconnects, tight deadlines; every answer case of each stage once; commits in every node state with each failure; waits for up to 5 HTTPS requests; interrupted endless statements")]
_a = ["plugin code reaches the handle only through SQLite's public interface and, while a stage runs, ends its transaction only through waitForHTTPSRequests", "request timeouts, process timeouts and schedule times lie within 2^60 microseconds of now", "a COMMIT failing with anything but SQLITE_BUSY_SNAPSHOT ends the process (by design)"]
_P12, _P13 = P12, P13
P12 = dict(parts=[_P12, P12C], harness=_h, assumptions=_a)
P13 = dict(parts=[_P13, P13C, P13G, P13S, P13X], harness=_h, assumptions=_a)
