"""P16: running a command on the server (BedrockServer::runCommand): it is run at most once and answered or handed on exactly once."""
import z3
from ..spec import *
from ..lib import m_h, forall
from . import sqcommon as C
from .nodecommon import SV_
TUS = ["BedrockServer.cpp", "BedrockCore.cpp", "sqlitecluster/SQLitePool.cpp", "libstuff/SData.cpp", "BedrockCommand.cpp"]
GH = (("disp", I), ("done", B), ("sent", B), ("ns", I), ("ready", B), ("wc", B), ("inside", B), ("needs", B), ("pool", I))
def cmdty(eng): return eng.prog.byname["BedrockCommand::areHttpsRequestsComplete"][0].this
def complete(eng, st): return atom(eng, st, eng.rcmd, "complete")
def setcomplete(eng, st, v): eng.write(st, flv(eng, st, eng.rcmd, "complete"), v)
def fresh_b(nm): return z3.Const(fresh_name(nm), B)
def idle(eng, st, what):
    eng.prove(st, Not_(st.g("inside")), "no transaction is open when " + what)
def once(eng, st, what):
    eng.prove(st, st.g("disp") == 0, "%s a command not yet answered or handed on" % what)
def runnable(eng, st, what):
    """conditions under which plugin code of the command may run, here or on another node"""
    once(eng, st, what); P = lambda f, nm: eng.prove(st, f, nm)
    P(Not_(st.g("done")), "%s never runs a command whose transaction was already committed" % what)
    P(Not_(st.g("sent")), "%s never runs a command another node may have run" % what)
    P(Not_(complete(eng, st)), "%s never runs a command that is already complete" % what)
    P(st.g("wc"), "%s never runs a command known to crash nodes" % what)
def used(eng, nm, why): eng.used_contracts.add("%s [%s]" % (nm, why))
def response(eng, st):
    l = flv(eng, st, eng.rcmd, "response"); eng.write(st, l, eng.fresh(l.ty, "resp"))
def c_timedout(eng, st, this, args, n):
    used(eng, "BedrockCore::isTimedOut", "verified under P13: an expired command is answered and complete, any other is untouched")
    r = fresh_b("timedout"); c = complete(eng, st); setcomplete(eng, st, z3.Or(c, r)); 
    s2 = st; old = eng.read(st, flv(eng, st, eng.rcmd, "response")); response(eng, st); l = flv(eng, st, eng.rcmd, "response"); eng.write(st, l, merge_val(r, eng.read(st, l), old)); return r
def c_status(eng, st, this, args, n):
    used(eng, "BedrockServer::_handleIfStatusOrControlCommand", "verified by its own item: answers exactly the status and control commands"); once(eng, st, "status handling answers")
    r = fresh_b("status"); st.setg("disp", z3.If(r, 1, st.g("disp"))); response(eng, st); return r
def c_crash(eng, st, this, args, n):
    used(eng, "BedrockServer::_wouldCrash", "verified under P19"); r = fresh_b("would_crash"); st.setg("wc", Not_(r)); return r
def c_reply(eng, st, this, args, n):
    used(eng, "BedrockServer::_reply", "verified by its own item: one answer"); once(eng, st, "_reply answers"); idle(eng, st, "a command is answered")
    eng.prove(st, z3.Implies(st.g("done"), complete(eng, st)), "a committed command is answered as complete"); st.setg("disp", st.g("disp") + 1)
def handed(eng, st, what):
    once(eng, st, what + " takes"); idle(eng, st, "a command is handed on")
    eng.prove(st, Not_(st.g("done")), "a committed command is never queued again")
    eng.prove(st, z3.Implies(st.g("sent"), complete(eng, st)), "a command another node may have run is queued only to be answered")
def c_push(blocking):
    def c(eng, st, this, args, n):
        used(eng, "Bedrock%sCommandQueue::push" % ("Blocking" if blocking else ""), "verified under P14: takes the command" + (", or throws and leaves it with the caller" if blocking else ""))
        handed(eng, st, "the queue")
        if blocking:
            s2 = st.copy(); b = fresh_b("rate_limited"); s2.assume(b); ex = eng.fresh(excty(eng), "qexc"); eng.exits[-1].append(("throw", s2, Exc("SException", ex))); st.assume(Not_(b))
        st.setg("disp", st.g("disp") + 1)
    return c
def excty(eng):
    for k, r in eng.prog.records.items():
        if r["qn"] == "SException": return Ty("rec", n="SException", key=k)
def c_peer(eng, st, this, args, n):
    used(eng, "SQLiteClusterMessenger::runOnPeer", "verified by its own items: true means answered; a command the peer may have got is complete"); runnable(eng, st, "sending to a peer"); idle(eng, st, "a command is sent to another node")
    r, s_ = fresh_b("peer_ok"), fresh_b("delivered"); c0 = complete(eng, st); c1 = fresh_b("complete"); st.assume(And_([z3.Implies(r, c1), z3.Implies(s_, c1), z3.Implies(c0, c1)])); setcomplete(eng, st, c1); st.setg("sent", z3.Or(st.g("sent"), s_)); response(eng, st); return r
def c_state(eng, st, this, args, n):
    used(eng, "BedrockServer::getState", "another thread changes the node's state at any time"); v = z3.Const(fresh_name("node_state"), I); st.setg("ns", v); return v
def c_ready(eng, st, this, args, n):
    used(eng, "BedrockServer::dbReadyToHandleRequests", "verified by its own item; may change at any time"); b = fresh_b("db_ready"); st.setg("ready", b); return b
def stage(name):
    def c(eng, st, this, args, n):
        used(eng, "BedrockCore::%sCommand" % name, "verified under P12")
        if name == "postProcess":
            once(eng, st, "postProcess runs on"); idle(eng, st, "postProcess starts"); eng.prove(st, complete(eng, st), "postProcess runs only on completed commands"); response(eng, st); return None
        runnable(eng, st, name)
        t = eng.ty(n); c1 = fresh_b("complete"); response(eng, st)
        for f in ("repeek", "processCount"): 
            l = flv(eng, st, eng.rcmd, f); eng.write(st, l, eng.fresh(l.ty, f))
        if name == "prePeek": idle(eng, st, "prePeek starts"); setcomplete(eng, st, c1); return None
        r = z3.Const(fresh_name("result"), I); from .core import RES
        if name == "peek":
            a, b = RES(eng, "COMPLETE"), RES(eng, "SHOULD_PROCESS"); idle(eng, st, "peek starts")
            st.assume(z3.Or(r == a, r == b)); setcomplete(eng, st, r == a); st.setg("inside", r == b)
        else:
            eng.prove(st, st.g("ns") == SV_(eng, "LEADING"), "only a leading node processes")
            eng.prove(st, z3.Or(st.g("ready"), eng.is_a(eng.rcmd_addr, "BedrockServerUpgradeCommand")), "nothing but the upgrade is processed before the database is upgraded")
            a, b = RES(eng, "NEEDS_COMMIT"), RES(eng, "NO_COMMIT_REQUIRED"); st.assume(z3.Or(r == a, r == b)); setcomplete(eng, st, r == b); st.setg("inside", r == a); st.setg("needs", r == a)
        return r
    return c
def c_commit(eng, st, this, args, n):
    used(eng, "SQLiteCore::commit", "verified under P12: ends the transaction either way; true means committed")
    eng.prove(st, And_([st.g("needs"), st.g("inside")]), "only a successfully processed transaction is committed"); once(eng, st, "commit")
    r = fresh_b("commit_ok"); st.setg("done", z3.Or(st.g("done"), r)); st.setg("inside", F); st.setg("needs", F)
    return r
def c_rollback(eng, st, this, args, n):
    used(eng, "SQLiteCore::rollback", "verified under P12: ends the transaction"); st.setg("inside", F); st.setg("needs", F)
def c_remaining(eng, st, this, args, n):
    used(eng, "BedrockCore::getRemainingTime", "verified under P13"); b = fresh_b("expired"); s2 = st.copy(); s2.assume(b); eng.exits[-1].append(("throw", s2, Exc("SException", eng.fresh(excty(eng), "rexc")))); st.assume(Not_(b)); return eng.fresh(eng.ty(n), "remaining")
def c_index(eng, st, this, args, n):
    used(eng, "SQLitePool::getIndex", "verified under P20: a handle nobody else uses"); idle(eng, st, "a handle is taken"); st.setg("pool", st.g("pool") + 1); return eng.fresh(eng.ty(n), "index")
def c_return(eng, st, this, args, n):
    used(eng, "SQLitePool::returnToPool", "verified under P20"); idle(eng, st, "a handle goes back to the pool"); st.setg("pool", st.g("pool") - 1)
def c_wait(eng, st, this, args, n):
    used(eng, "BedrockCommand::waitForHTTPSRequests", "verified under P13"); idle(eng, st, "requests are waited for"); once(eng, st, "waits")
def anyv(name, why):
    def c(eng, st, this, args, n):
        used(eng, name, why); t = eng.ty(n); return None if t.k == "void" else eng.new_tmp(st, eng.fresh(t, name.split("::")[-1]), t) if n.get("lv") else eng.fresh(t, name.split("::")[-1])
    return c
def c_upgrade(eng, st, this, args, n): pass
def watch_future(eng):
    from .. import lib
    old = lib.method("std::multimap", "insert")
    def ins(e, st, this, args, n):
        if this.path and this.path[-1][1] == "_futureCommitCommands":
            handed(e, st, "the list of commands waiting for a commit"); e.prove(st, Not_(st.g("sent")), "a command another node may have run does not wait for a commit"); st.setg("disp", st.g("disp") + 1); return None
        if this.path and this.path[-1][1] == "_futureCommitCommandTimeouts": return None
        return old(e, st, this, args, n)
    eng.contracts["std::multimap::insert"] = ins
def setup(eng):
    c = eng.contracts; eng.sqthis = None
    c["BedrockCore::isTimedOut"] = c_timedout; c["BedrockServer::_handleIfStatusOrControlCommand"] = c_status; c["BedrockServer::_wouldCrash"] = c_crash; c["BedrockServer::_reply"] = c_reply
    c["BedrockCommandQueue::push"] = c_push(False); c["BedrockBlockingCommandQueue::push"] = c_push(True); c["SQLiteClusterMessenger::runOnPeer"] = c_peer
    c["BedrockServer::getState"] = c_state; c["BedrockServer::dbReadyToHandleRequests"] = c_ready
    for s in ("prePeek", "peek", "process", "postProcess"): c["BedrockCore::%sCommand" % s] = stage(s)
    c["SQLiteCore::commit"] = c_commit; c["SQLiteCore::rollback"] = c_rollback; c["BedrockCore::getRemainingTime"] = c_remaining
    c["SQLitePool::getIndex"] = c_index; c["SQLitePool::returnToPool"] = c_return; c["SQLitePool::initializeIndex"] = anyv("SQLitePool::initializeIndex", "verified under P20")
    c["BedrockCommand::waitForHTTPSRequests"] = c_wait; watch_future(eng)
    for f in ("shouldPrePeek", "shouldPostProcess", "shouldEnableOnPrepareNotification", "getMethodName", "getPlugin", "areHttpsRequestsComplete"): c["BedrockCommand::" + f] = anyv("BedrockCommand::" + f, "any answer")
    c["BedrockPlugin::shouldLockCommitPageOnConflict"] = anyv("BedrockPlugin::shouldLockCommitPageOnConflict", "plugin code: any answer")
    for f in ("getCommitCount", "getLastConflictLocation", "getLastConflictIdentifier", "getTablesUsed"): c["SQLite::" + f] = anyv("SQLite::" + f, "any value")
    for f in ("BedrockCore::AutoTimer::AutoTimer", "BedrockCore::AutoTimer::~AutoTimer", "BedrockConflictManager::recordTables", "SQLiteNode::notifyCommit", "SSetSignalHandlerDieFunc", "ConflictLockGuard::ConflictLockGuard", "ConflictLockGuard::~ConflictLockGuard", "SRandom::rand64", "usleep", "std::this_thread::sleep_for", "SAutoThreadPrefix::SAutoThreadPrefix", "SAutoThreadPrefix::~SAutoThreadPrefix", "BedrockCommandQueue::size", "SQLiteNode::stateName"): c[f] = anyv(f, "does not touch the command or the database")
    eng.vocab.append(vocab)
def vocab(eng, info):
    return [("loop: " + g, f) for g, f in (("disp", lambda s: s.g("disp") == 0), ("done", lambda s: Not_(s.g("done"))), ("sent", lambda s: Not_(s.g("sent"))), ("inside", lambda s: Not_(s.g("inside"))), ("pool", lambda s: s.g("pool") == 0), ("wc", lambda s: s.g("wc")), ("complete", lambda s: Not_(complete(eng, s))))]
def pre(eng, st, this, args):
    for g, s in GH: st.setg(g, z3.Const("g_" + g, s))
    st.assume(And_([st.g("disp") == 0, Not_(st.g("done")), Not_(st.g("sent")), Not_(st.g("inside")), Not_(st.g("needs")), st.g("pool") == 0, Not_(st.g("wc"))]))
def pre_run(eng, st, this, args):
    pre(eng, st, this, args); v = eng.rv(args[0], st); eng.rcmd_addr = v; eng.rcmd = eng.objlv(v, cmdty(eng)); eng.axiom(v > 0)
def post_run(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); co = eng.rcmd
    if kind == "throw": P(F, "no exception escapes"); return
    P(Or_([s.g("disp") == 1, And_([s.g("disp") == 0, complete(eng, s), atom(eng, s, co, "initiatingClientID") < 0])]), "the command is answered or handed on exactly once")
    P(s.g("pool") == 0, "every database handle taken is given back"); P(Not_(s.g("inside")), "no transaction is left open")
P16 = dict(common=dict(setup=setup), tus=TUS, items=lambda prog: [Item("runCommand", "BedrockServer::runCommand", pre=pre_run, post=post_run)])

# ================================================================ the functions runCommand relies on
def SHUT(eng, name):
    for qn, cs in eng.prog.enums.items():
        if qn.split("::")[-1] == "SHUTDOWN_STATE": return dict(cs)[name] if not isinstance(cs, dict) else cs[name]
def pre_cmd(eng, st, this, args):
    v = eng.rv(args[0], st); eng.rcmd_addr = v; eng.rcmd = eng.objlv(v, cmdty(eng)); eng.axiom(v > 0); eng.sthis = this
    for g, s, x in (("sends", I, 0), ("plug", I, 0), ("failed", I, 0), ("tok", Str, None), ("replies", I, 0), ("control", I, 0), ("status", I, 0)): st.setg(g, z3.IntVal(x) if s == I else z3.Const("tok0", s))
def hmap(eng, st, f): return eng.read(st, flv(eng, st, eng.rcmd, f + ".nameValueMap"))
def hget(eng, st, f, k): m = hmap(eng, st, f); return z3.Select(m.f["has"], eng.lit(k.lower())), z3.Select(m.f["val"], eng.lit(k.lower()))
def running(eng, s): return atom(eng, s, eng.sthis, "_shutdownState") == SHUT(eng, "RUNNING")
def c_serialize(eng, st, this, args, n):
    used(eng, "SData::serialize", "trusted here; the text of the message it is called on"); t = z3.Const(fresh_name("text"), Str); st.setg("tok", t)
    same = eng.rv(args[0], st) if False else None
    h, v = hget(eng, st, "response", "nodeName"); P = lambda f, nm: eng.prove(st, f, nm)
    P(z3.BoolVal(bool(this.path) and this.path[-1][1] == "response"), "what is sent is the response of the command"); P(h, "the answer names the node")
    ch, cv = hget(eng, st, "response", "Connection"); P(z3.Implies(Not_(running(eng, st)), And_([ch, cv == eng.lit("close")])), "a node that shuts down tells the client to close the connection")
    P(z3.Implies(st.g("asked"), And_([ch, cv == eng.lit("close")])), "a client that asked for it is told to close the connection"); return t
def c_send(eng, st, this, args, n):
    used(eng, "STCPManager::Socket::send", "trusted: network layer"); P = lambda f, nm: eng.prove(st, f, nm)
    P(And_([st.g("sends") == 0, st.g("plug") == 0, st.g("failed") == 0]), "a command is answered once"); P(eng.rv(args[0], st) == st.g("tok"), "what is sent is the serialized response")
    P(this.root == atom(eng, st, eng.rcmd, "socket"), "the answer goes to the client that sent the command")
    st.setg("sends", st.g("sends") + 1); r = fresh_b("send_ok"); st.setg("sendok", r); return r
def c_plug(eng, st, this, args, n):
    used(eng, "BedrockPlugin::onPortRequestComplete", "plugin code"); eng.prove(st, And_([st.g("sends") == 0, st.g("plug") == 0, st.g("failed") == 0]), "a command is answered once"); st.setg("plug", st.g("plug") + 1)
def c_failed(eng, st, this, args, n):
    used(eng, "BedrockCommand::handleFailedReply", "plugin code"); eng.prove(st, And_([st.g("failed") == 0, st.g("plug") == 0]), "an answer that could not be delivered is reported once"); st.setg("failed", st.g("failed") + 1)
def su_reply(eng):
    c = eng.contracts; c["SData::serialize"] = c_serialize; c["STCPManager::Socket::send"] = c_send; c["BedrockPlugin::onPortRequestComplete"] = c_plug; c["BedrockCommand::handleFailedReply"] = c_failed
    for f in ("BedrockCommand::finalizeTimingInfo", "STCPManager::Socket::shutdown"): c[f] = anyv(f, "does not touch request or response")
    c["BedrockPlugin::handleFailedReply"] = c_failed
def pre_reply(eng, st, this, args):
    pre_cmd(eng, st, this, args); rh, rv = hget(eng, st, "request", "Connection"); st.setg("asked", And_([rh, rv == eng.lit("close")])); st.setg("sendok", T)
def post_reply(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); a = lambda st, f: atom(eng, st, eng.rcmd, f)
    if kind == "throw": P(F, "no exception escapes"); return
    nobody = a(old, "initiatingClientID") < 0; sock = a(old, "socket"); ph, pv = hget(eng, old, "request", "plugin"); plug = And_([ph, pv != eng.lit("")])
    P(z3.Implies(nobody, And_([s.g("sends") == 0, s.g("plug") == 0, s.g("failed") == 1])), "a command nobody waits for is not answered")
    P(z3.Implies(And_([Not_(nobody), sock != 0, Not_(plug)]), And_([s.g("sends") == 1, s.g("plug") == 0])), "the client is sent exactly one answer")
    P(z3.Implies(And_([Not_(nobody), sock != 0, plug]), And_([s.g("sends") == 0, s.g("plug") == 1, s.g("failed") == 0])), "the plugin that owns the connection answers, exactly once")
    P(z3.Implies(And_([Not_(nobody), sock == 0]), And_([s.g("sends") == 0, s.g("plug") == 0, s.g("failed") == 1])), "a client that can not be reached is reported")
    P(z3.Implies(And_([s.g("sends") == 1]), (s.g("failed") == 1) == Not_(s.g("sendok"))), "an answer that could not be delivered, and no other, is reported")
    m = a(old, "response.methodLine"); P(a(s, "response.methodLine") == m, "the answer is the one the command was given"); P(a(s, "complete") == a(old, "complete"), "answering does not change the command")
def su_hisc(eng):
    c = eng.contracts
    def ans(e, st, this, args, n): used(e, "BedrockServer::_reply", "verified by its own item: one answer"); st.setg("replies", st.g("replies") + 1)
    c["BedrockServer::_reply"] = ans
    def act(name):
        def f(e, st, this, args, n):
            used(e, "BedrockServer::_" + name, "the action itself is not part of this property"); st.setg(name, st.g(name) + 1); l = flv(e, st, e.rcmd, "response"); e.write(st, l, e.fresh(l.ty, "resp"))
        return f
    c["BedrockServer::_status"] = act("status"); c["BedrockServer::_control"] = act("control")
    def isc(name):
        def f(e, st, this, args, n): used(e, "BedrockServer::" + name, "verified by its own item"); return z3.Const("is" + name, B)
        return f
    for nm in ("_isStatusCommand", "_isControlCommand", "_isNonSecureControlCommand"): c["BedrockServer::" + nm] = isc(nm)
def post_hisc(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); iss, isc, non = (z3.Const("is" + n, B) for n in ("_isStatusCommand", "_isControlCommand", "_isNonSecureControlCommand"))
    P(r == z3.Or(iss, isc), "status and control commands, and no others, are handled at once"); P(s.g("replies") == z3.If(r, 1, 0), "a handled command is answered exactly once, any other not at all")
    P(s.g("status") == z3.If(iss, 1, 0), "a status command is carried out once")
    h, v = hget(eng, old, "request", "_source"); local = z3.Or(Not_(h), v == eng.lit(""))
    P(s.g("control") == z3.If(And_([Not_(iss), isc, z3.Or(local, non)]), 1, 0), "a control command is carried out once if it comes from this machine or may come from anywhere, and never otherwise")
    P(z3.Implies(And_([Not_(iss), isc, Not_(local), Not_(non)]), atom(eng, s, eng.rcmd, "response.methodLine") == eng.lit("401 Unauthorized")), "a refused control command is told so")
    P(z3.Implies(Not_(r), And_([atom(eng, s, eng.rcmd, "response.methodLine") == atom(eng, old, eng.rcmd, "response.methodLine"), complete(eng, s) == complete(eng, old)])), "other commands are left alone")
def su_ready(eng):
    def gs(e, st, this, args, n): used(e, "BedrockServer::getState", "the node's state now"); return z3.Const("node_state", I)
    eng.contracts["BedrockServer::getState"] = gs
def post_ready(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    ns = z3.Const("node_state", I); S_ = lambda n: SV_(eng, n); up = atom(eng, old, this, "_upgradeCompleted")
    P(eng.rv(p, s) == z3.Or(ns == S_("FOLLOWING"), And_([z3.Or(ns == S_("LEADING"), ns == S_("STANDINGDOWN")), up])), "the database is ready exactly while following, or while leading or standing down after the upgrade")
def pre_this(eng, st, this, args): eng.sthis = this
def items_small(prog):
    return [Item("_reply", "BedrockServer::_reply", setup=su_reply, pre=pre_reply, post=post_reply), Item("_handleIfStatusOrControlCommand", "BedrockServer::_handleIfStatusOrControlCommand", setup=su_hisc, pre=pre_cmd, post=post_hisc),
            Item("dbReadyToHandleRequests", "BedrockServer::dbReadyToHandleRequests", setup=su_ready, pre=pre_this, post=post_ready)]
def su_small(eng):
    eng.sqthis = None
    for f in ("SAutoThreadPrefix::SAutoThreadPrefix", "SAutoThreadPrefix::~SAutoThreadPrefix"): eng.contracts[f] = anyv(f, "logging only")
P16S = dict(common=dict(setup=su_small), tus=TUS, items=items_small)

# ---------------------------------------------------------------- the cluster messenger
TUSM = ["sqlitecluster/SQLiteClusterMessenger.cpp"]
def mcmd(eng, st, args, i=0):
    a = args[i]; eng.rcmd = a if isinstance(a, LV) else eng.objlv(eng.rv(a, st), cmdty(eng))
def pre_m(idx):
    def f(eng, st, this, args):
        eng.rcmd = args[idx].deref() if hasattr(args[idx], "deref") else args[idx]
        if isinstance(eng.rcmd, RefTo): eng.rcmd = eng.rcmd.lv
        for g, s, v in (("rem", I, z3.IntVal(-1)), ("sentall", B, F), ("tries", I, z3.IntVal(0))): st.setg(g, v)
        st.assume(Not_(complete(eng, st)))
    return f
def b_new(eng, st, this, args, n): used(eng, "SFastBuffer", "trusted: holds what was put in and not yet consumed"); v = z3.Const(fresh_name("bytes"), I); st.assume(v > 0); st.setg("rem", v)
def b_size(eng, st, this, args, n): return st.g("rem")
def b_empty(eng, st, this, args, n): return st.g("rem") == 0
def b_consume(eng, st, this, args, n):
    k = eng.rv(args[0], st); eng.prove(st, And_([k >= 0, k <= st.g("rem")]), "no more is consumed than was there"); st.setg("rem", st.g("rem") - k); st.setg("sentall", z3.Or(st.g("sentall"), st.g("rem") == 0))
def c_libsend(eng, st, this, args, n):
    used(eng, "send", "system call: -1 or the number of bytes taken, at most those offered"); eng.prove(st, eng.rv(args[2], st) == st.g("rem"), "exactly the bytes not sent so far are offered to the peer"); r = z3.Const(fresh_name("nsent"), I); st.assume(And_([r >= -1, r <= eng.rv(args[2], st)])); return r
def c_librecv(eng, st, this, args, n):
    used(eng, "recv", "system call: -1, 0 at the end, or the number of bytes received"); eng.prove(st, st.g("sentall"), "an answer is awaited only after the whole request was sent"); r = z3.Const(fresh_name("nrecv"), I); st.assume(And_([r >= -1, r <= eng.rv(args[2], st)])); return r
def c_parse(eng, st, this, args, n):
    used(eng, "SParseHTTP", "trusted: 0 unless a whole message was received"); r = z3.Const(fresh_name("parsed"), I); st.assume(r >= 0); response(eng, st); return r
def c_reqser(eng, st, this, args, n):
    P = lambda f, nm: eng.prove(st, f, nm); v = eng.read(st, this); o = eng.read(st, flv(eng, st, eng.rcmd, "request"))
    P(v.f["methodLine"] == o.f["methodLine"], "the request sent is the command's own"); P(v.f["content"] == o.f["content"], "the content sent is the command's own"); m, mo = v.f["nameValueMap"], o.f["nameValueMap"]
    k = z3.Const("k!hdr", Str); special = z3.Or([k == eng.lit(x) for x in ("timeout", "httpsrequests", "serializeddata", "id")])
    P(z3.ForAll([k], z3.Implies(Not_(special), And_([z3.Select(m.f["has"], k) == z3.Select(mo.f["has"], k), z3.Implies(z3.Select(mo.f["has"], k), z3.Select(m.f["val"], k) == z3.Select(mo.f["val"], k))]))), "the headers sent are the command's own"); P(And_([z3.Select(m.f["has"], eng.lit("id")), z3.Select(m.f["val"], eng.lit("id")) == atom(eng, st, eng.rcmd, "id")]), "the request sent carries the command's id")
    return z3.Const(fresh_name("text"), Str)
def su_m(eng):
    eng.sqthis = None; c = eng.contracts
    c["SFastBuffer::SFastBuffer"] = b_new; c["SFastBuffer::size"] = b_size; c["SFastBuffer::empty"] = b_empty; c["SFastBuffer::consumeFront"] = b_consume; c["SFastBuffer::c_str"] = anyv("SFastBuffer::c_str", "the bytes held")
    c["send"] = c_libsend; c["recv"] = c_librecv; c["SParseHTTP"] = c_parse; c["SData::serialize"] = c_reqser
    def wr(e, st, this, args, n): used(e, "SQLiteClusterMessenger::waitForReady", "const; any result"); return z3.Const(fresh_name("ready"), I)
    c["SQLiteClusterMessenger::waitForReady"] = wr
    for f in ("BedrockCommand::serializeHTTPSRequests", "BedrockCommand::serializeData", "BedrockCommand::timeout", "STimeNow", "std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now", "usleep", "SQLiteNode::leaderCommandAddress", "SQLiteNode::getEligibleFollowerForForwardingAddress", "SQLiteNode::getState", "SQLiteClusterMessenger::_getSocketForAddress", "SMultiHostSocketPool::returnSocket", "SQLiteNode::getPeerByName", "SQLiteClusterMessenger::commandWillCloseSocket"): c[f] = anyv(f, "any value; does not touch the command")
    eng.vocab.append(m_vocab)
def m_vocab(eng, info):
    out = [("something is left to send", lambda s: s.g("rem") > 0), ("the request was sent", lambda s: s.g("sentall")), ("the request was not sent", lambda s: Not_(s.g("sentall"))), ("still incomplete", lambda s: Not_(complete(eng, s))), ("a command a peer has is complete", lambda s: s.g("sentall") == complete(eng, s))]
    for k, v in info["entry"].locals.items():
        if is_z3(v) and v.sort() == B:
            for nm, f in (("the flag tells whether the request was sent", lambda s, k=k: s.locals[k] == s.g("sentall")), ("the flag is set only if the request was sent", lambda s, k=k: z3.Implies(s.locals[k], s.g("sentall"))), ("the flag is clear only if the request was not sent", lambda s, k=k: z3.Implies(s.g("sentall"), s.locals[k]))): out.append((nm, f))
            for k2, v2 in info["entry"].locals.items():
                if is_z3(v2) and v2.sort() == Str: out.append(("an address is left only when the request was sent", lambda s, k=k, k2=k2: z3.Or(s.locals[k], s.locals[k2] == eng.lit(""))))
    return out
def post_send(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); P(z3.Implies(r, And_([complete(eng, s), s.g("sentall")])), "success means the peer was sent the request and answered"); P(z3.Implies(s.g("sentall"), complete(eng, s)), "once the peer has the whole request the command is complete, answered or not")
    P(z3.Implies(Not_(s.g("sentall")), And_([Not_(complete(eng, s)), Not_(r)])), "a command the peer can not have run stays to be run")
    P(z3.Implies(And_([s.g("sentall"), Not_(r)]), atom(eng, s, eng.rcmd, "response.methodLine") == eng.lit("500 Internal Server Error")), "a lost answer is an error")
def c_sendcmd(eng, st, this, args, n):
    used(eng, "SQLiteClusterMessenger::_sendCommandOnSocket", "verified by its own item"); eng.prove(st, And_([Not_(st.g("sentall")), Not_(complete(eng, st))]), "no command is sent again that a peer may have run")
    r, s_ = fresh_b("send_ok"), fresh_b("sentall"); st.assume(z3.Implies(r, s_)); setcomplete(eng, st, s_); st.setg("sentall", s_); response(eng, st); return r
def post_peer(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); P(z3.Implies(r, complete(eng, s)), "success means the command is complete"); P(z3.Implies(s.g("sentall"), complete(eng, s)), "a command a peer may have run is complete")
def post_peername(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); post_peer(eng, old, s, this, args, kind, p)
    if kind == "return": P(complete(eng, s), "a command for a named peer is complete, whatever happened"); P(z3.Implies(eng.rv(p, s), s.g("sentall")), "success means the peer ran it")
def su_m2(eng): eng.contracts["SQLiteClusterMessenger::_sendCommandOnSocket"] = c_sendcmd
def isbool(f): return f.ps[1][2].k in ("bool", "int")
def items_m(prog):
    return [Item("_sendCommandOnSocket", "SQLiteClusterMessenger::_sendCommandOnSocket", pre=pre_m(1), post=post_send), Item("runOnPeer", "SQLiteClusterMessenger::runOnPeer", pick=isbool, setup=su_m2, pre=pre_m(0), post=post_peer), Item("runOnPeer by name", "SQLiteClusterMessenger::runOnPeer", pick=lambda f: not isbool(f), setup=su_m2, pre=pre_m(0), post=post_peername)]
P16M = dict(common=dict(setup=su_m), tus=TUSM + ["BedrockCommand.cpp", "libstuff/SData.cpp"], items=items_m)

# ---------------------------------------------------------------- the threads that take commands from the queues
def which_queue(l):
    if l.kind == "sel": c, a, b = l.root; return z3.If(c, which_queue(a), which_queue(b))
    if l.path and l.path[-1][1] in ("_commandQueue", "_blockingCommandQueue"): return z3.BoolVal(l.path[-1][1] == "_blockingCommandQueue")
    raise FrontError("queue the worker serves")
def pre_worker(eng, st, this, args):
    eng.sthis = this; eng.tid = eng.rv(args[0], st); st.assume(eng.tid >= 0)
    for g, v in (("have", z3.IntVal(0)), ("ran", F), ("owed", F)): st.setg(g, v)
    for g in ("ident", "mname"): st.setg(g, z3.Const("g_" + g, Str))
def su_worker(eng):
    c = eng.contracts
    def get(e, st, this, args, n):
        used(e, "BedrockCommandQueue::get", "verified under P14: a command, or timeout_error"); P = lambda f, nm: e.prove(st, f, nm)
        P(st.g("have") == 0, "a dequeued command is run before the next one is taken"); P(Not_(st.g("owed")), "the time of every command run on the blocking thread is recorded")
        is_q = which_queue(this)
        P(is_q == (e.tid == 0), "thread 0 serves the blocking queue, every other thread the main queue")
        b = fresh_b("timed_out"); s2 = st.copy(); s2.assume(b); e.exits[-1].append(("throw", s2, Exc("BedrockCommandQueue::timeout_error", e.fresh(excty(e), "tex")))); st.assume(Not_(b))
        a = z3.Const(fresh_name("command"), I); st.assume(a > 0); st.setg("have", a); e.rcmd = e.objlv(a, cmdty(e)); return a
    def run(e, st, this, args, n):
        used(e, "BedrockServer::runCommand", "verified by its own item"); P = lambda f, nm: e.prove(st, f, nm)
        P(And_([eng_arg(e, args[0], st) == st.g("have"), st.g("have") > 0]), "the command that was taken is the one that is run"); P(eng_bool(e, args[1], st) == (e.tid == 0), "commands of the blocking queue, and no others, run as blocking")
        co = e.objlv(st.g("have"), cmdty(e)); st.setg("ident", atom(e, st, co, "blockingQueueRateLimitIdentifier")); st.setg("mname", atom(e, st, co, "request.methodLine")); st.setg("have", z3.IntVal(0)); st.setg("owed", e.tid == 0)
    def rec(e, st, this, args, n):
        used(e, "BedrockBlockingCommandQueue::recordExecutionTime", "verified under P15"); P = lambda f, nm: e.prove(st, f, nm)
        P(st.g("owed"), "only commands run on the blocking thread are recorded, once"); P(e.rv(args[0], st) == st.g("ident"), "the time is recorded for the command's identifier"); P(e.rv(args[1], st) == st.g("mname"), "the time is recorded for the command's name"); st.setg("owed", F)
    c["BedrockCommandQueue::get"] = get; c["BedrockServer::runCommand"] = run; c["BedrockBlockingCommandQueue::recordExecutionTime"] = rec
    def now(e, st, this, args, n): t = z3.Const(fresh_name("now"), I); st.assume(t > 0); return t
    c["STimeNow"] = now
    for f in ("SInitialize", "SSetSignalHandlerDieFunc", "BedrockCommandQueue::size"): c[f] = anyv(f, "does not touch commands")
    eng.vocab.append(lambda e, info: [("no command is held", lambda s: s.g("have") == 0), ("no time is owed", lambda s: Not_(s.g("owed")))])
def eng_arg(e, a, st): v = e.rv(a, st); return v
def eng_bool(e, a, st): v = e.rv(a, st); return v
def post_worker(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(s.g("have") == 0, "no command is dropped when the thread ends"); P(atom(eng, s, this, "_shutdownState") == SHUT(eng, "DONE"), "a worker ends only when the server is done"); P(Not_(s.g("owed")), "the time of every command run on the blocking thread is recorded")
P16W = dict(common=dict(setup=su_small), tus=TUS + ["BedrockCommandQueue.cpp", "BedrockBlockingCommandQueue.cpp"], items=lambda prog: [Item("worker", "BedrockServer::worker", setup=su_worker, pre=pre_worker, post=post_worker)])
_w = ("sigaction", "_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb", "usleep", "poll")
_h = [dict(name="server", wrap=_w, bound="6000 (thorough 60000) random commands through runCommand until answered, on a node whose state, upgrade and leader version change at every point another thread could change them, with conflicts, failing plugin code, lost and late answers of peers; 130 requests through the real messenger to a loopback peer failing in nine ways")]
_a = ["hooks of a command called outside the stages (shouldPrePeek, shouldPostProcess, getPlugin, shouldEnableOnPrepareNotification, serializeData, handleFailedReply, onPortRequestComplete) do not throw", "send and recv behave as documented: a peer can not have run a request of which it was not sent every byte", "the pool and the synchronization node exist while commands run (their absence ends the process)"]
P16 = dict(parts=[P16, P16S, P16M, P16W], harness=_h, assumptions=_a)
