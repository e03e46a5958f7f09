"""P17: requests become commands, and only trusted hosts control the node. P18: ports follow their blocks. P19: commands known to crash nodes."""
import z3
from ..spec import *
from ..engine import Guard
from ..lib import m_h, forall, lower, at_lv, same_value
from .server import used, anyv, fresh_b, cmdty, complete, setcomplete, excty, hmap, hget, SHUT, TUS, pre_cmd, su_hisc, post_hisc
from .nodecommon import SV_
CONTROL = ["BeginBackup", "SuppressCommandPort", "ClearCommandPort", "ClearCrashCommands", "ConflictReport", "Detach", "Attach", "SetConflictParams", "SetConflictPageLocks", "EnableSQLTracing", "BlockWrites", "UnblockWrites", "SetMaxSocketThreads", "SetBlockingQueueTimeRateLimit", "ClearBlockingQueue", "SetPriority", "GetCommitHash", "CRASH_COMMAND"]
ANYONE = ["SuppressCommandPort", "ClearCommandPort", "GetCommitHash", "CRASH_COMMAND"]
STATUS = ["GET /status/isFollower HTTP/1.1", "GET /status/handlingCommands HTTP/1.1", "Ping", "Status"]
def su(eng):
    eng.sqthis = None
    for f in ("SAutoThreadPrefix::SAutoThreadPrefix", "SAutoThreadPrefix::~SAutoThreadPrefix", "SInitialize", "SQLiteNode::stateName"): eng.contracts[f] = anyv(f, "logging only")
def is_one(eng, m, names): return Or_([lower(eng, m) == eng.lit(x.lower()) for x in names])
def post_list(names, what):
    def post(eng, old, s, this, args, kind, p):
        if kind == "throw": eng.prove(s, F, "no exception escapes"); return
        eng.prove(s, eng.rv(p, s) == is_one(eng, atom(eng, old, eng.rcmd, "request.methodLine"), names), what)
    return post
# ---------------------------------------------------------------- a request becomes a command
def sdmap(v): return v.f["nameValueMap"]
def mhas(eng, m, k): return z3.Select(m.f["has"], eng.lit(k.lower()))
def mval(eng, m, k): return z3.Select(m.f["val"], eng.lit(k.lower()))
def pre_build(eng, st, this, args):
    eng.sthis = this; a = args[0]; eng.reqlv = a.lv if isinstance(a, RefTo) else a; eng.soclv = args[1].lv if isinstance(args[1], RefTo) else args[1]
    for g in ("sends", "closed"): st.setg(g, z3.IntVal(0))
    st.setg("oldsync", F); st.setg("badser", F); st.setg("oldcomplete", F)
def c_plugins(eng, st, this, args, n):
    used(eng, "BedrockServer::getCommandFromPlugins", "a command made from the request (plugin code)"); P = lambda f, nm: eng.prove(st, f, nm); v = eng.rv(args[0], st); m = sdmap(v); old = sdmap(eng.read(eng.old0, eng.reqlv)); ip = z3.Const("peer_ip", Str); local = z3.Or(eng.rv(eng.bargs[2], eng.old0), ip == eng.lit("127.0.0.1"))
    P(z3.Implies(Not_(local), And_([mhas(eng, m, "_source"), mval(eng, m, "_source") == ip])), "a request from another host carries that host's address, whatever it claims")
    P(z3.Implies(local, And_([mhas(eng, m, "_source") == mhas(eng, old, "_source"), z3.Implies(mhas(eng, m, "_source"), mval(eng, m, "_source") == mval(eng, old, "_source"))])), "the source a cluster node reports for a request is kept")
    P(v.f["methodLine"] == eng.read(eng.old0, eng.reqlv).f["methodLine"], "the command has the name of the request"); P(v.f["content"] == eng.read(eng.old0, eng.reqlv).f["content"], "the command has the content of the request")
    k = z3.Const("k!hdr", Str); special = Or_([k == eng.lit(x) for x in ("_source", "httpsrequests", "serializeddata")])
    P(z3.ForAll([k], z3.Implies(Not_(special), And_([z3.Implies(z3.Select(old.f["has"], k), z3.And(z3.Select(m.f["has"], k), z3.Select(m.f["val"], k) == z3.Select(old.f["val"], k))), z3.Implies(And_([z3.Select(m.f["has"], k), Not_(z3.Select(old.f["has"], k))]), z3.Select(m.f["val"], k) == eng.lit(""))]))), "the command has the headers of the request")
    P(Not_(Or_([mhas(eng, m, "httpsrequests"), mhas(eng, m, "serializeddata")])), "data for the command's own use is taken out of the request")
    a = z3.Const(fresh_name("command"), I); st.assume(a > 0); eng.rcmd_addr = a; eng.rcmd = eng.objlv(a, cmdty(eng)); st.setg("oldcomplete", complete(eng, st)); st.setg("oldsync", atom(eng, st, eng.rcmd, "isSynchronous")); return a
def c_deser(eng, st, this, args, n):
    used(eng, norm(n["fn"]), "throws on text it can not read"); b = fresh_b("unreadable"); s2 = st.copy(); s2.assume(b); s2.setg("badser", T); eng.exits[-1].append(("throw", s2, Exc("SException", eng.fresh(excty(eng), "dex")))); s3 = st.copy(); b3 = fresh_b("unreadable"); s3.assume(b3); s3.setg("badser", T); eng.exits[-1].append(("throw", s3, Exc("std::exception"))); st.assume(Not_(Or_([b, b3])))
def c_socksend(eng, st, this, args, n): used(eng, "STCPManager::Socket::send", "trusted: network layer"); eng.prove(st, st.g("sends") == 0, "one receipt is sent"); st.setg("sends", st.g("sends") + 1); return fresh_b("send_ok")
def c_sockshut(eng, st, this, args, n): used(eng, "STCPManager::Socket::shutdown", "trusted: network layer"); st.setg("closed", st.g("closed") + 1)
def su_build(eng):
    c = eng.contracts; c["BedrockServer::getCommandFromPlugins"] = c_plugins
    for f in ("BedrockCommand::deserializeHTTPSRequests", "BedrockCommand::deserializeData"): c[f] = c_deser
    def ntoa(e, st, this, args, n): used(e, "inet_ntoa", "the text of the peer's address"); return z3.Const("peer_ip", Str)
    c["inet_ntoa"] = ntoa; c["STCPManager::Socket::send"] = c_socksend; c["STCPManager::Socket::shutdown"] = c_sockshut; c["STimeNow"] = anyv("STimeNow", "the clock")
def start_build(eng, st, this, args): pre_build(eng, st, this, args); st.assume(atom(eng, st, eng.soclv, "id") < 2 ** 63); eng.old0 = st.copy(); eng.bargs = args
def post_build(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    r = eng.rv(p, s); m = sdmap(eng.read(old, eng.reqlv)); forget = And_([mhas(eng, m, "Connection"), lower(eng, mval(eng, m, "Connection")) == eng.lit("forget")]); run = atom(eng, s, this, "_shutdownState") == SHUT(eng, "RUNNING")
    P(z3.Implies(r == 0, And_([s.g("sends") == 1, Not_(run)])), "a request is dropped only when nobody waits for it and the node shuts down"); P(z3.Implies(forget, s.g("sends") == 1), "a client that does not want to wait gets a receipt at once")
    P(z3.Implies(And_([Not_(forget), Not_(mhas(eng, m, "commandExecuteTime"))]), s.g("sends") == 0), "any other client waits for its answer"); P(s.g("closed") == s.g("sends"), "a client that got its receipt is disconnected")
    made = r != 0
    if getattr(eng, "rcmd", None) is None: return
    co = eng.objlv(r, cmdty(eng)); f = lambda x: atom(eng, s, co, x)
    P(z3.Implies(made, (f("socket") == 0) == (s.g("sends") == 1)), "a command keeps its client's connection unless the client has its receipt")
    P(z3.Implies(And_([made, f("socket") != 0]), f("socket") == eng.soclv.root if eng.soclv.kind == "obj" else T), "a command is answered on the connection it came from")
    rm = eng.read(s, flv(eng, s, co, "request.nameValueMap")); fg = And_([mhas(eng, rm, "Connection"), lower(eng, mval(eng, rm, "Connection")) == eng.lit("forget")])
    P(z3.Implies(made, f("initiatingClientID") == z3.If(fg, -1, atom(eng, s, eng.soclv, "id"))), "a command knows which client waits for it")
    P(z3.Implies(And_([made, s.g("badser")]), f("complete")), "a command whose data can not be read is answered, not run"); P(z3.Implies(And_([made, Not_(s.g("badser"))]), f("complete") == s.g("oldcomplete")), "any other command is left to be run")
    ns = eng.read(s, flv(eng, s, this, "_synchronousCommands")); P(z3.Implies(made, f("isSynchronous") == Or_([s.g("oldsync"), z3.Select(ns.f["has"], f("request.methodLine"))])), "exactly the commands named as synchronous run on the blocking thread")
# ---------------------------------------------------------------- ports and their blocks
PF = ("_commandPortBlockReasons", "_commandPortPublic", "_commandPortPrivate", "_portPluginMap")
def pinv(eng, st, this):
    r = field(eng, st, this, "_commandPortBlockReasons"); pm = field(eng, st, this, "_portPluginMap"); n = r.f["n"]
    return [("a blocked node has no public port open", z3.Implies(n > 0, atom(eng, st, this, "_commandPortPublic") == 0)), ("the flag tells whether the port is blocked", atom(eng, st, this, "_isCommandPortLikelyBlocked") == (n > 0)), ("a count of blocks", n >= 0)] + ([("a blocked node has no plugin port open", z3.Implies(n > 0, pm.f["n"] == 0))] if isinstance(pm, SV) and "n" in pm.f else [])
def lock_port(eng, st, lv, ev):
    this = eng.sthis; P = lambda f, nm: eng.prove(st, f, nm)
    if ev == "lock":
        P(Not_(st.g("held")), "the lock on the ports is not taken twice"); st.setg("held", T)
        for f in PF + ("_isCommandPortLikelyBlocked",): l = flv(eng, st, this, f); eng.write(st, l, eng.fresh(l.ty, f))
        for nm, f in pinv(eng, st, this): st.assume(f)
        rs = field(eng, st, this, "_commandPortBlockReasons"); k = z3.Const("k!ms", Str); eng.axiom(forall([k], And_([z3.Select(rs.f["has"], k) == (z3.Select(rs.f["cnt"], k) > 0), z3.Select(rs.f["cnt"], k) >= 0, z3.Select(rs.f["cnt"], k) <= rs.f["n"]]), z3.Select(rs.f["cnt"], k)))
        eng.atlock = st.copy()
    elif ev == "pre_unlock":
        for nm, f in pinv(eng, st, this): P(f, nm)
        st.setg("held", F); st.setg("locked", st.g("locked") + 1)
def su_port(eng):
    eng.on_lock["_portMutex"] = lock_port; c = eng.contracts
    for f in ("SFDset", "SGetSignals", "SGetSignalDescription", "BedrockPlugin::getPort", "BedrockPlugin::getName", "BedrockPlugin::timerFired", "BedrockPlugin::onAttach", "SStopwatch::ding", "SQLiteNode::notifyCommit", "SSynchronizedQueue::postPoll", "SSynchronizedQueue::prePoll", "BedrockCommandQueue::abandonFutureCommands", "BedrockServer::_acceptSockets", "BedrockServer::getState", "SQLiteNode::getState", "SQLiteNode::setShutdownPriority", "BedrockCommandQueue::size", "BedrockBlockingCommandQueue::size", "BedrockBlockingCommandQueue::clearRateLimits", "BedrockCommand::getCommandCount", "std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now"): c[f] = anyv(f, "does not touch the ports or their blocks")
    def op(e, st, this, args, n):
        used(e, "STCPManager::openPort", "trusted: null or an open port"); st.setg("opened", st.g("opened") + 1); P = lambda f, nm: e.prove(st, f, nm); P(st.g("held"), "ports are opened under their lock")
        P(field(e, st, e.sthis, "_commandPortBlockReasons").f["n"] == 0, "no port is opened while a block is in force"); P(atom(e, st, e.sthis, "_shutdownState") == SHUT(e, "RUNNING"), "no port is opened while the node shuts down"); return e.fresh(e.ty(n), "port")
    c["STCPManager::openPort"] = op
    eng.vocab.append(port_vocab)
def port_vocab(eng, info):
    this = eng.sthis; return [(nm, lambda s, i=i: pinv(eng, s, this)[i][1]) for i, (nm, _) in enumerate(pinv(eng, info["entry"], this))] + [("not blocked", lambda s: field(eng, s, this, "_commandPortBlockReasons").f["n"] == 0)]
def pre_port(eng, st, this, args):
    eng.atlock = st.copy()
    eng.sthis = this; st.setg("held", F); st.setg("locked", z3.IntVal(0)); st.setg("opened", z3.IntVal(0))
def cnt(eng, st, this, k): return z3.Select(field(eng, st, this, "_commandPortBlockReasons").f["cnt"], k)
def post_port(block):
    def post(eng, old, s, this, args, kind, p):
        P = lambda f, nm: eng.prove(s, f, nm)
        if kind == "throw": P(F, "no exception escapes"); return
        k = eng.rv(args[0], old); a = eng.atlock; other = z3.Const("other_reason", Str); c0, c1 = cnt(eng, a, this, k), cnt(eng, s, this, k); P(s.g("locked") == 1, "the blocks are changed under their lock")
        P(z3.Implies(other != k, cnt(eng, s, this, other) == cnt(eng, a, this, other)), "blocks for other reasons stay as they are")
        if block: P(c1 == c0 + 1, "the block is in force"); P(atom(eng, s, this, "_commandPortPublic") == 0, "the public port is closed")
        else: P(c1 == z3.If(c0 > 0, c0 - 1, 0), "one block for the reason is lifted, and no other"); P(atom(eng, s, this, "_commandPortPublic") == atom(eng, a, this, "_commandPortPublic"), "lifting a block opens no port by itself")
        P(atom(eng, s, this, "_commandPortPrivate") == atom(eng, a, this, "_commandPortPrivate"), "the cluster's own port stays as it is")
    return post
def post_reset(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(field(eng, s, this, "_commandPortBlockReasons").f["n"] == 0, "a node that is reset has no blocks left"); P(And_([atom(eng, s, this, "_commandPortPublic") == 0, atom(eng, s, this, "_commandPortPrivate") == 0]), "a node that is reset has no command port open"); P(Not_(atom(eng, s, this, "_upgradeCompleted")), "a node that is reset has to upgrade again")
# ---------------------------------------------------------------- opening ports, shutting down
def pre_post(eng, st, this, args):
    eng.atlock = st.copy()
    pre_port(eng, st, this, args); st.setg("excl", F); st.setg("accepted", F); st.setg("count", z3.IntVal(-1)); st.setg("ns", z3.Const("node_state", I)); eng.fin0 = None
def lock_excl(eng, st, lv, ev):
    if ev == "lock": st.setg("excl", T); eng.atexcl = st.copy()
    elif ev == "pre_unlock": st.setg("excl", F)
def su_post(eng):
    su_port(eng); eng.on_lock["_controlPortExclusionMutex"] = lock_excl; c = eng.contracts
    def gs(e, st, this, args, n): used(e, "BedrockServer::getState", "the node's state now"); v = z3.Const(fresh_name("node_state"), I); st.setg("ns", v); return v
    def begin(e, st, this, args, n): used(e, "BedrockServer::_beginShutdown", "verified by its own item; takes and releases the lock on the ports"); e.prove(st, Not_(st.g("held")), "the lock on the ports is not taken twice"); r = fresh_b("shutdown_begun"); l = flv(e, st, e.sthis, "_shutdownState"); old = atom(e, st, e.sthis, "_shutdownState"); e.write(st, at_lv(l), z3.If(old == SHUT(e, "RUNNING"), SHUT(e, "START_SHUTDOWN"), old))
    def acc(e, st, this, args, n): used(e, "BedrockServer::_acceptSockets", "verified by its own item: takes and releases the lock on the ports; opens none of them, and closes one only through blockCommandPort"); e.prove(st, Not_(st.g("held")), "the lock on the ports is not taken twice"); st.setg("accepted", T)
    def count(e, st, this, args, n): used(e, "BedrockCommand::getCommandCount", "the number of commands that exist"); e.prove(st, st.g("excl"), "what is left to do is counted while no command can start on the control port"); v = e.fresh(e.ty(n), "commands"); st.setg("count", v); return v
    c["BedrockServer::getState"] = gs; c["BedrockServer::_beginShutdown"] = begin; c["BedrockServer::_acceptSockets"] = acc; c["BedrockCommand::getCommandCount"] = count; op = c["STCPManager::openPort"]
    def op2(e, st, this, args, n):
        e.prove(st, Or_([st.g("ns") == SV_(e, x) for x in ("LEADING", "FOLLOWING")]), "ports are opened only while leading or following"); return op(e, st, this, args, n)
    c["STCPManager::openPort"] = op2
def post_postpoll(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    sh0, sh1 = atom(eng, old, this, "_shutdownState"), atom(eng, s, this, "_shutdownState"); done = And_([sh1 == SHUT(eng, "COMMANDS_FINISHED"), sh0 != sh1])
    P(z3.Implies(done, And_([s.g("count") == 0, atom(eng, s, this, "_outstandingSocketThreads") == 0])), "the node stops only when no command and no connection is left"); P(z3.Implies(done, Or_([sh0 == SHUT(eng, "START_SHUTDOWN"), sh0 == SHUT(eng, "RUNNING")])), "only a node that shuts down finishes"); P(s.g("accepted"), "new connections are accepted on every pass")
    P(Or_([sh1 == sh0, And_([sh0 == SHUT(eng, "RUNNING"), sh1 == SHUT(eng, "START_SHUTDOWN")]), done]), "a shutdown goes through its steps in order")
    P(And_([z3.Implies(atom(eng, eng.atlock, this, f) != 0, atom(eng, s, this, f) == atom(eng, eng.atlock, this, f)) for f in ("_commandPortPublic", "_commandPortPrivate")]), "an open port stays open")
    P(z3.Implies(And_([s.g("count") == 0, atom(eng, s, this, "_outstandingSocketThreads") == 0]), sh1 == SHUT(eng, "COMMANDS_FINISHED")), "a node that shuts down with nothing left to do goes on to stop")
def isnull(eng, s, this, f): return atom(eng, s, this, f) == 0
def su_begin(eng):
    su_post(eng); c = eng.contracts
    def aband(e, st, this, args, n): used(e, "BedrockCommandQueue::abandonFutureCommands", "verified under P14"); st.setg("aband", T)
    c["BedrockCommandQueue::abandonFutureCommands"] = aband; c["BedrockCommand::getCommandCount"] = anyv("BedrockCommand::getCommandCount", "logging only")
    def acc(e, st, this, args, n): used(e, "BedrockServer::_acceptSockets", "verified by its own item: takes and releases the lock on the ports; opens none of them, and closes one only through blockCommandPort"); e.prove(st, Not_(st.g("held")), "the lock on the ports is not taken twice"); e.prove(st, atom(e, st, e.sthis, "_shutdownState") == SHUT(e, "RUNNING"), "connections already made are accepted before the ports close"); st.setg("accepted", T)
    c["BedrockServer::_acceptSockets"] = acc
def pre_begin(eng, st, this, args): pre_post(eng, st, this, args); st.setg("aband", F); eng.atlock = None
def post_begin(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    sh0, sh1 = atom(eng, old, this, "_shutdownState"), atom(eng, s, this, "_shutdownState"); run = sh0 == SHUT(eng, "RUNNING"); d = eng.rv(args[1], old)
    P(sh1 == z3.If(run, SHUT(eng, "START_SHUTDOWN"), sh0), "a running node starts to shut down, any other goes on as it was"); P(z3.Implies(run, And_([isnull(eng, s, this, "_commandPortPublic"), isnull(eng, s, this, "_commandPortPrivate"), s.g("locked") == 1])), "a node that shuts down closes its command ports, under their lock")
    P(z3.Implies(run, atom(eng, s, this, "_detach") == d), "a shutdown is the detach or the stop that was asked for"); P(z3.Implies(run, z3.If(d, atom(eng, s, this, "_controlPort") == atom(eng, old, this, "_controlPort"), isnull(eng, s, this, "_controlPort"))), "a node that detaches keeps its control port, one that stops closes it")
    P(z3.Implies(run, s.g("accepted")), "connections already made are accepted before the ports close"); P(z3.Implies(run, s.g("aband")), "commands scheduled for later are given up"); P(s.g("opened") == 0, "shutting down opens no port")
    pm = field(eng, s, this, "_portPluginMap"); P(z3.Implies(run, pm.f["n"] == 0), "a node that shuts down closes its plugins' ports")
    P(z3.Implies(Not_(run), And_([atom(eng, s, this, f) == atom(eng, old, this, f) for f in ("_controlPort", "_detach")] + [s.g("locked") == 0, Not_(s.g("aband"))])), "a node that already shuts down is left alone")
# ---------------------------------------------------------------- one connection, one command after the other
def SOCK(eng, nm):
    for k, e in eng.prog.enums.items():
        if k.endswith("Socket::State"): return dict(e)[nm] if not isinstance(e, dict) or nm in e else e[nm]
    raise FrontError("Socket::State")
def pre_sock(eng, st, this, args):
    eng.sthis = this; eng.sock = args[0].lv if isinstance(args[0], RefTo) else args[0]; eng.fin0 = None; eng.rcmd = None
    for g in ("ctl", "excl", "nullcmd", "fin", "alive", "hung", "late", "bpend"): st.setg(g, F)
    st.setg("fin", T)
    for g in ("cmd", "disp", "unblocked", "parsed", "nsock", "counted", "left"): st.setg(g, z3.IntVal(0))
    st.setg("rml", eng.lit("")); eng.h = dict(ctl=eng.rv(args[1], st), pub=eng.rv(args[2], st), priv=eng.rv(args[3], st)); st.assume(atom(eng, st, this, "_outstandingSocketThreads") > 0)
def sstate(eng, st): return at_lv(flv(eng, st, eng.sock, "state"))
def settled(eng, st):
    P = lambda f, nm: eng.prove(st, f, nm); P(z3.Implies(st.g("cmd") != 0, st.g("disp") == 1), "every command made from a request is answered or run, exactly once"); P(st.g("fin"), "the next request waits until the command before it has finished"); P(z3.Implies(st.g("nullcmd"), eng.read(st, sstate(eng, st)) == SOCK(eng, "CLOSED")), "a connection whose request was dropped is closed")
def su_sock(eng):
    c = eng.contracts; U = used
    def lock_ctl(e, st, lv, ev):
        if ev in ("lock_shared", "lock"): st.setg("excl", T)
        elif ev in ("pre_unlock", "pre_unlock_shared"): st.setg("excl", F)
    eng.on_lock["_controlPortExclusionMutex"] = lock_ctl
    def poll(e, st, this, args, n):
        U(e, "poll", "system call: any result, any events"); r = e.fresh(e.ty(n), "poll"); a = args[0]; lv = a.lv if isinstance(a, (PtrTo, RefTo)) else a
        if isinstance(lv, LV):
            ev = e.fresh(Ty("int", w=16, s=1), "revents"); e.write(st, lv.ext(("f", "revents", "pollfd", Ty("int", w=16, s=1)), Ty("int", w=16, s=1)), ev); st.setg("rev", ev)
        st.setg("pr", r); return r
    c["poll"] = poll
    def recv(e, st, this, args, n):
        U(e, "STCPManager::Socket::recv", "trusted: network layer; may change the state of the connection and what was received"); settled(e, st); b = fresh_b("received"); l = sstate(e, st); e.write(st, l, z3.Const(fresh_name("sockstate"), I)); return b
    c["STCPManager::Socket::recv"] = recv
    def shut(e, st, this, args, n): U(e, "STCPManager::Socket::shutdown", "trusted: network layer; sets the state"); e.write(st, sstate(e, st), e.rv(args[0], st))
    c["STCPManager::Socket::shutdown"] = shut
    def deser(e, st, this, args, n):
        U(e, "SData::deserialize", "trusted: the bytes of one whole request, or none"); r = z3.Const(fresh_name("reqsize"), I); st.assume(r >= 0); v = e.fresh(this.ty, "req"); e.write(st, this, v)
        m = v.f["methodLine"]; st.assume(z3.Implies(r == 0, And_([m == e.lit(""), v.f["content"] == e.lit(""), v.f["nameValueMap"].f["n"] == 0]))); st.setg("parsed", r); st.setg("rml", m); st.setg("bpend", r > 0); return r
    c["SData::deserialize"] = deser
    c["SFastBuffer::startsWithHTTPRequest"] = anyv("SFastBuffer::startsWithHTTPRequest", "any answer")
    def cons(e, st, this, args, n): U(e, "SFastBuffer::consumeFront", "trusted: drops that many bytes from the front"); e.prove(st, e.rv(args[0], st) == st.g("parsed"), "exactly the bytes of the request are taken from the connection"); st.setg("bpend", F)
    c["SFastBuffer::consumeFront"] = cons
    def pl(e, st, this, args, n):
        U(e, "BedrockPlugin::onPortRecv", "plugin code: makes any request, or throws"); b = fresh_b("threw"); s2 = st.copy(); s2.assume(b); e.exits[-1].append(("throw", s2, Exc("std::exception"))); st.assume(Not_(b)); lv = args[1].lv if isinstance(args[1], RefTo) else args[1]; v = e.fresh(lv.ty, "req"); e.write(st, lv, v); st.setg("rml", v.f["methodLine"]); l = sstate(e, st); e.write(st, l, z3.Const(fresh_name("sockstate"), I))
    c["BedrockPlugin::onPortRecv"] = pl; c["BedrockPlugin::getName"] = anyv("BedrockPlugin::getName", "any name")
    def build(e, st, this, args, n):
        U(e, "BedrockServer::buildCommandFromRequest", "verified by its own item"); P = lambda f, nm: e.prove(st, f, nm); settled(e, st); v = e.rv(args[0], st); P(v.f["methodLine"] == st.g("rml"), "the command is made from the request that was received"); P(e.rv(args[2], st) == e.h["priv"], "only requests on the cluster's own port count as made on this machine"); P(Not_(st.g("bpend")), "a request is taken from the connection before it is carried out")
        a = z3.Const(fresh_name("command"), I); nul = fresh_b("dropped"); st.assume(z3.If(nul, a == 0, a > 0)); e.rcmd_addr = a; e.rcmd = e.objlv(a, cmdty(e)); st.setg("cmd", a); st.setg("disp", z3.IntVal(0)); st.setg("nullcmd", nul); e.write(st, sstate(e, st), z3.Const(fresh_name("sockstate"), I)); dl = flv(e, st, e.rcmd, "destructionCallback"); st.assume(atom(e, st, e.rcmd, "destructionCallback") == 0) if is_z3(e.read(st, dl)) else None
        st.setg("nsock", z3.If(a == 0, 0, atom(e, st, e.rcmd, "socket"))); return a
    c["BedrockServer::buildCommandFromRequest"] = build
    def once_(e, st, what): e.prove(st, And_([st.g("cmd") != 0, st.g("disp") == 0]), what + " gets a command not yet answered or run"); e.prove(st, z3.Implies(e.h["ctl"], st.g("excl")), "the node does not go on shutting down while a command of the control port runs")
    def hisc(e, st, this, args, n): U(e, "BedrockServer::_handleIfStatusOrControlCommand", "verified by its own item: true means answered"); once_(e, st, "status handling"); r = fresh_b("handled"); st.setg("disp", z3.If(r, 1, 0)); l = at_lv(flv(e, st, e.sthis, "_shutdownState")); e.write(st, l, e.fresh(l.ty, "sh")); st.setg("offered", T); return r
    def rep(e, st, this, args, n):
        U(e, "BedrockServer::_reply", "verified under P16: one answer"); once_(e, st, "_reply"); e.prove(st, And_([e.h["ctl"], atom(e, st, e.sthis, "_shutdownState") != SHUT(e, "RUNNING")]), "only commands on the control port of a node shutting down are refused"); e.prove(st, atom(e, st, e.rcmd, "response.methodLine") != e.lit(""), "a refused command is told so"); st.setg("disp", z3.IntVal(1))
    def run(e, st, this, args, n):
        U(e, "BedrockServer::runCommand", "verified under P16: runs the command to its end or hands it on"); once_(e, st, "runCommand"); P = lambda f, nm: e.prove(st, f, nm); P(e.rv(args[0], st) == st.g("cmd"), "the command that is run is the one made from the request"); P(Not_(And_([e.h["ctl"], atom(e, st, e.sthis, "_shutdownState") != SHUT(e, "RUNNING")])), "no command runs from the control port while the node shuts down")
        cb = e.read(st, flv(e, st, e.rcmd, "destructionCallback")); P(z3.Implies(st.g("nsock") != 0, (cb != 0) if is_z3(cb) else T), "a command with a client tells when it has finished"); st.setg("disp", z3.IntVal(1)); st.setg("fin", st.g("nsock") == 0)
    c["BedrockServer::_handleIfStatusOrControlCommand"] = hisc; c["BedrockServer::_reply"] = rep; c["BedrockServer::runCommand"] = run
    def unb(e, st, this, args, n):
        U(e, "BedrockServer::unblockCommandPort", "verified by its own item"); e.prove(st, And_([st.g("nlock"), e.rv(args[0], st) == e.lit("NOT_ENOUGH_THREADS")]), "only the block for missing threads is lifted, once, under its lock"); st.setg("unblocked", st.g("unblocked") + 1)
    c["BedrockServer::unblockCommandPort"] = unb
    def lk(e, st, lv, ev): st.setg("nlock", T if ev == "lock" else F)
    eng.on_lock["_newSocketThreadBlockedMutex"] = lk
    def sh(e, st, lv, what, v):
        """other connections count themselves off at any time; this one is counted until its own decrement"""
        st.assume(z3.Implies(st.g("counted") == 0, v >= 1))
        if what != "load": st.setg("counted", st.g("counted") + (1 if what in ("operator--", "fetch_sub") else 99)); st.setg("left", v - 1)
    eng.shared_atomics = {"_outstandingSocketThreads": sh}
    def thr(e, st, this, args, n):
        U(e, "std::thread::thread", "assumed: a thread can be started"); e.call_value(args[0] if not isinstance(args[0], LV) else e.rv(args[0], st), [], st, n); finish(e, st); return e.fresh(e.ty(n), "thread")
    eng.thread_hook = thr; c["std::thread::join"] = anyv("std::thread::join", "waits for the thread"); 
    def wait(e, st, this, args, n): U(e, "std::condition_variable::wait_for", "trusted: releases the lock while it waits"); finish(e, st); return e.fresh(e.ty(n), "cv")
    for w in ("wait", "wait_for", "wait_until"): c["std::condition_variable::" + w] = wait
    for f in ("strerror", "SStrFromErrno", "__errno_location"): c[f] = anyv(f, "any value")
    def now(e, st, this, args, n): U(e, "std::chrono::steady_clock::now", "the clock"); v = e.fresh(e.ty(n), "now"); st.setg("now", v); return v
    for f in ("std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now"): c[f] = now
    from ..lib import METHODS
    def store(e, st, this, args, n):
        if this.path and this.path[-1][1] == "shouldAbort":
            P = lambda f, nm: e.prove(st, f, nm); it = Ty("int", w=32, s=1); gone = And_([st.g("pr") > 0, e.binop("&", st.g("rev"), z3.IntVal(0x2038), it, it, it) != 0]); t = atom(e, st, e.sthis, "_shutdownTime"); late = And_([t != 0, st.g("now") >= t])
            P(Or_([gone, late]), "a running command is told to stop only when its client has gone or the time for shutting down is over"); P(Not_(st.g("fin")), "a command that has finished is not touched again")
        return METHODS[("ATOMIC", "store")](e, st, this, args, n)
    for k in ("std::atomic::operator=", "std::atomic::store"): c[k] = store
def finish(eng, st):
    """the command may finish while this thread does not hold m: its callback sets the flag"""
    b = fresh_b("done_now"); st.setg("fin", z3.Or(st.g("fin"), And_([b, st.g("disp") == 1]))); k = finished_flag(eng, st)
    if k is not None: eng.write(st, at_lv(LV("loc", k, eng.local_ty[k])), And_([st.g("fin"), st.g("nsock") != 0]))
def finished_flag(eng, st):
    for k in st.locals:
        t = eng.local_ty.get(k)
        if t is not None and t.k == "rec" and t.n == "std::atomic" and t.a and t.a[0].k == "bool": return k
def post_sock(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(s.g("counted") == 1, "a finished connection is counted off exactly once"); n1 = s.g("left"); low = "the block for missing threads is lifted when this connection was the one that left enough threads, and only when enough are gone"
    b0, b1 = (atom(eng, x, this, "_shouldBlockNewSocketThreads") for x in (old, s)); P(z3.Implies(And_([n1 == 50, b0]), s.g("unblocked") == 1), low); P(Or_([s.g("unblocked") == 0, And_([s.g("unblocked") == 1, b0, n1 <= 50])]), low); P(b1 == And_([b0, s.g("unblocked") == 0]), low)
    settled_end(eng, s)
def settled_end(eng, s): eng.prove(s, z3.Implies(s.g("cmd") != 0, s.g("disp") == 1), "every command made from a request is answered or run, exactly once"); eng.prove(s, s.g("fin"), "a connection outlives the command that answers on it")
def pre_sock2(eng, st, this, args): pre_sock(eng, st, this, args); st.setg("nlock", F); st.setg("offered", F); st.setg("rev", z3.IntVal(0)); st.setg("pr", z3.IntVal(0)); st.setg("now", z3.IntVal(0)); eng.vocab.append(sock_vocab)
def sock_vocab(eng, info):
    return [("settled", lambda s: z3.Implies(s.g("cmd") != 0, s.g("disp") == 1)), ("finished", lambda s: s.g("fin")), ("dropped requests close", lambda s: z3.Implies(s.g("nullcmd"), eng.read(s, sstate(eng, s)) == SOCK(eng, "CLOSED"))), ("the control port is held", lambda s: z3.Implies(eng.h["ctl"], s.g("excl"))), ("nothing pending", lambda s: Not_(s.g("bpend"))), ("nothing unblocked", lambda s: s.g("unblocked") == 0),
            ("run", lambda s: And_([s.g("cmd") != 0, s.g("disp") == 1])), ("count", lambda s: s.g("counted") == 0), ("has a client", lambda s: s.g("nsock") != 0), ("nobody waits", lambda s: z3.Implies(s.g("nsock") == 0, s.g("fin")))] + \
           [("finished flag", lambda s, k=k: eng.read(s, at_lv(LV("loc", k, eng.local_ty[k]))) == And_([s.g("fin"), s.g("nsock") != 0])) for k in ([finished_flag(eng, info["entry"])] if finished_flag(eng, info["entry"]) is not None else [])] + \
           [("client", lambda s, k=k: s.locals[k] == (s.g("nsock") != 0)) for k, v in info["entry"].locals.items() if is_z3(v) and v.sort() == B]
P17A = dict(common=dict(setup=su), tus=TUS, items=lambda prog: [
    Item("_isControlCommand", "BedrockServer::_isControlCommand", pre=pre_cmd, post=post_list(CONTROL, "exactly the listed commands control the node, however they are written")),
    Item("_isNonSecureControlCommand", "BedrockServer::_isNonSecureControlCommand", pre=pre_cmd, post=post_list(ANYONE, "exactly the listed control commands may come from any host")),
    Item("_isStatusCommand", "BedrockServer::_isStatusCommand", pre=pre_cmd, post=post_list(STATUS, "exactly the listed commands ask for the status")),
    Item("_handleIfStatusOrControlCommand", "BedrockServer::_handleIfStatusOrControlCommand", setup=su_hisc, pre=pre_cmd, post=post_hisc),
    Item("buildCommandFromRequest", "BedrockServer::buildCommandFromRequest", setup=su_build, pre=start_build, post=post_build)])
P17P = dict(common=dict(setup=su), tus=TUS, items=lambda prog: [Item("blockCommandPort", "BedrockServer::blockCommandPort", setup=su_port, pre=pre_port, post=post_port(True)), Item("unblockCommandPort", "BedrockServer::unblockCommandPort", setup=su_port, pre=pre_port, post=post_port(False)), Item("_resetServer", "BedrockServer::_resetServer", setup=su_port, pre=pre_port, post=post_reset),
    Item("postPoll", "BedrockServer::postPoll", setup=su_post, pre=pre_post, post=post_postpoll), Item("_beginShutdown", "BedrockServer::_beginShutdown", setup=su_begin, pre=pre_begin, post=post_begin)])

# new connections
def su_acc(eng):
    su_port(eng); c = eng.contracts; U = used
    def accept(e, st, this, args, n):
        U(e, "S_accept", "trusted: a connection waiting on the port, or none"); e.prove(st, st.g("held"), "a port is used under its lock"); e.prove(st, st.g("sock") == 0, "a connection that was accepted is handed on before the next one"); r = z3.Const(fresh_name("accepted"), I)
        p = portof(e, st, args[0]); st.setg("from", p); st.setg("sock", z3.If(r > 0, 1, 0)); this_ = e.sthis
        e.prove(st, Or_([p == field(e, st, this_, "_controlPort"), And_([st.g("seen") >= 0, st.g("seen") < atom(e, st, this_, "_maxSocketThreads")])]), "no connection is accepted beyond the limit, except on the control port")
        st.setg("drained", z3.Or(st.g("drained"), z3.And(r <= 0, p == field(e, st, this_, "_controlPort")))); st.setg("seen", z3.IntVal(-1)); a = args[1].lv if isinstance(args[1], RefTo) else args[1]; v = e.fresh(a.ty, "peer_address"); e.write(st, a, v); e.peer = (r, v); return r
    c["S_accept"] = accept
    def blk(e, st, this, args, n):
        U(e, "BedrockServer::blockCommandPort", "verified by its own item"); P = lambda f, nm: e.prove(st, f, nm); P(Not_(st.g("held")), "the lock on the ports is not taken twice"); P(And_([st.g("nlock"), e.rv(args[0], st) == e.lit("NOT_ENOUGH_THREADS"), st.g("failed") == 1, st.g("lowest") >= 100]), "the port is blocked for missing threads only when a thread could not be started, and never with so few that the block would stay for ever"); st.setg("blocked", st.g("blocked") + 1)
    c["BedrockServer::blockCommandPort"] = blk
    for f in ("BedrockPlugin::onPortAccept",): c[f] = anyv(f, "plugin code: fills the new socket")
    def nlk(e, st, lv, ev):
        if ev == "lock": st.setg("nlock", T); e.prove(st, Not_(st.g("held")), "the locks are taken in the order a finished connection takes them"); l = flv(e, st, e.sthis, "_shouldBlockNewSocketThreads"); b = fresh_b("blocked_before"); e.write(st, l, b); st.setg("nb", b)
        elif ev == "unlock": st.setg("nlock", F)
    eng.on_lock["_newSocketThreadBlockedMutex"] = nlk
    def thr(e, st, this, args, n):
        U(e, "std::thread::thread", "a thread starts, or the constructor throws system_error and destroys the arguments it took"); P = lambda f, nm: e.prove(st, f, nm)
        P(st.g("sock") == 1, "every connection that was accepted gets one thread"); P(st.g("incs") == st.g("started") + 1, "a connection is counted before its thread runs"); vals = [e.rv(a, st) for a in args[-3:]]; this_ = e.sthis
        for v, f in zip(vals, ("_controlPort", "_commandPortPublic", "_commandPortPrivate")): P(v == (st.g("from") == field(e, st, this_, f)), "a connection is handled as one of the port it came from")
        so = args[2]; so = e.read(st, so.lv if isinstance(so, RefTo) else so) if not isinstance(so, SV) else so; r, v = e.peer; P(so.f["s"] == r, "the connection that was accepted is the one handled"); P(same_value(e, so.f["addr"], v), "a connection carries the address it came from")
        pm = field(e, st, this_, "_portPluginMap"); P(so.f["data"] == z3.If(z3.Select(pm.f["has"], st.g("from")), z3.Select(pm.f["val"], st.g("from")), 0), "a connection belongs to the plugin of its port, if any")
        b = fresh_b("no_thread"); st.setg("sock", z3.IntVal(0)); s2 = st.copy(); s2.assume(b); s2.setg("failed", s2.g("failed") + 1); e.exits[-1].append(("throw", s2, Exc("std::system_error", z3.Const(fresh_name("se"), I)))); st.assume(Not_(b)); st.setg("started", st.g("started") + 1); return e.fresh(e.ty(n), "thread")
    eng.thread_hook = thr; c["std::thread::detach"] = anyv("std::thread::detach", "the thread goes on by itself")
    def sh(e, st, lv, what, v):
        st.assume(v >= st.g("incs") - st.g("started")); 
        if what == "load": st.setg("lowest", v); st.setg("seen", v)
        else: st.setg("incs", st.g("incs") + (1 if what == "operator++" else -1 if what == "operator--" else 99))
    eng.shared_atomics = {"_outstandingSocketThreads": sh}
P18A = dict(common=dict(setup=su), tus=TUS + ["libstuff/STCPManager.cpp"], items=lambda prog: [Item("_acceptSockets", "BedrockServer::_acceptSockets", setup=su_acc, # all obligations; P17 and P18 take their share
    pre=lambda *a: pre_acc(*a), post=lambda *a: post_acc(*a))])
PORT_OF = z3.Function("port_of_fd", I, I)
def portof(e, st, a):
    """the port whose descriptor is used (open ports have different descriptors)"""
    v = e.rv(a, st)
    if z3.is_select(v) and "Port.s" in str(v.arg(0)): return v.arg(1)
    p = z3.Int("p!po"); fd = field(e, st, e.objlv(p, Ty("rec", n="STCPManager::Port", key="STCPManager::Port")), "s"); st.assume(forall([p], PORT_OF(fd) == p, fd)); return PORT_OF(v)
def acc_vocab(eng, info):
    ik = info.get("ixk"); ctl = lambda s: atom(eng, s, eng.sthis, "_controlPort") == 0
    return acc_vocab0(eng, info) + [("drained stays", lambda s: z3.Implies(info["entry"].g("drained"), s.g("drained")))] + ([("the control port is first", lambda s: z3.Implies(s.locals[ik] >= 1, z3.Or(s.g("drained"), ctl(s))))] if ik is not None and info["kind"] == "range" else []) + [("the list is only added to", lambda s, k=k: And_([s.locals[k].f["len"] >= info["entry"].locals[k].f["len"], z3.Select(s.locals[k].f["el"], 0) == z3.Select(info["entry"].locals[k].f["el"], 0)])) for k, x in info["entry"].locals.items() if isinstance(x, SV) and "len" in x.f and isinstance(x.f.get("el"), z3.ArrayRef)]
def acc_vocab0(eng, info):
    return [("nothing pending", lambda s: s.g("sock") == 0), ("counted", lambda s: s.g("incs") == s.g("started")), ("nothing failed", lambda s: And_([s.g("failed") == 0, s.g("blocked") == 0])), ("lock held", lambda s: s.g("held"))] + [("lock owned", lambda s, k=k: s.locals[k].owned) for k, x in info["entry"].locals.items() if isinstance(x, Guard)] + [("ports stay", lambda s: And_([atom(eng, s, eng.sthis, f) == atom(eng, info["entry"], eng.sthis, f) for f in ("_controlPort", "_commandPortPublic", "_commandPortPrivate")]))]
def pre_acc(eng, st, this, args):
    pre_port(eng, st, this, args); 
    for g in ("from", "sock", "incs", "started", "failed", "blocked", "lowest", "seen"): st.setg(g, z3.IntVal(0))
    st.setg("nlock", F); st.setg("nb", F); st.setg("drained", F); eng.vocab.append(acc_vocab)
def post_acc(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(Or_([s.g("drained"), s.g("failed") > 0, atom(eng, s, this, "_controlPort") == 0]), "connections on the control port are accepted however many there are")
    P(s.g("incs") == s.g("started"), "the connections counted are those that were started"); P(s.g("sock") == 0, "every connection that was accepted gets one thread"); P(Not_(s.g("held")), "the lock on the ports is released"); P(Not_(s.g("nlock")), "the lock on the ports is released")
    f1 = field(eng, s, this, "_shouldBlockNewSocketThreads"); P(s.g("blocked") == z3.If(And_([s.g("failed") == 1, Not_(s.g("nb"))]), 1, 0), "the port is blocked once when threads run out"); P(z3.Implies(s.g("failed") > 0, f1), "the port is blocked once when threads run out")

P17S = dict(common=dict(setup=su), tus=TUS, items=lambda prog: [Item("handleSocket", "BedrockServer::handleSocket", setup=su_sock, pre=pre_sock2, post=post_sock)])

# ---------------------------------------------------------------- commands known to crash nodes
CL = "content-length"
def su_crash(eng):
    eng.sqthis = None; eng.one_line = True
    def lk(e, st, lv, ev):
        if ev in ("lock", "lock_shared"): st.setg("cl", z3.IntVal(2 if ev == "lock" else 1))
        elif ev in ("unlock", "unlock_shared"): st.setg("cl", z3.IntVal(0))
    eng.on_lock["_crashCommandMutex"] = lk
def canon(eng, m): k = z3.Const("k!cn", Str); h = z3.Select(m.f["has"], k); return z3.ForAll([k], z3.Implies(h, lower(eng, k) == k), patterns=[h])
def canon_prints(eng, cc):
    """header names are compared without case: the model keeps them in lower case"""
    m, i, k = z3.Const("m!cp", Str), z3.Int("i!cp"), z3.Const("k!cp", Str); el = eng.select(eng.select(cc.f["val"], m).f["el"], i); h = z3.Select(el.f["has"], k); return z3.ForAll([m, i, k], z3.Implies(h, lower(eng, k) == k), patterns=[h])
def pre_would(eng, st, this, args):
    eng.sthis = this; eng.rcmd = eng.objlv(eng.rv(args[0], st), cmdty(eng)); st.setg("cl", z3.IntVal(0)); st.assume(eng.rv(args[0], st) > 0)
    if this is not None: eng.axiom(canon_prints(eng, field(eng, st, this, "_crashCommands")))
    eng.axiom(canon(eng, eng.read(st, flv(eng, st, eng.rcmd, "request.nameValueMap")))); eng.vocab.append(would_vocab); eng.start0 = st.copy()
def prints(eng, s, this, m):
    cc = field(eng, s, this, "_crashCommands"); return z3.Select(cc.f["has"], m), eng.select(cc.f["val"], m)
def fits(eng, t, req):
    k = z3.Const("k!ft", Str); h = z3.Select(t.f["has"], k); return z3.ForAll([k], z3.Implies(And_([h, k != eng.lit(CL)]), And_([z3.Select(req.f["has"], k), z3.Select(req.f["val"], k) == z3.Select(t.f["val"], k)])), patterns=[h])
def would_vocab(eng, info):
    s0 = eng.start0; req = eng.read(s0, flv(eng, s0, eng.rcmd, "request.nameValueMap")); _, l = prints(eng, s0, eng.sthis, atom(eng, s0, eng.rcmd, "request.methodLine")); t0 = eng.select(l.f["el"], z3.IntVal(0)); out = []; ik = info.get("ixk")
    if ik is None: return out
    if info["kind"] == "range": return [("the first fingerprint does not fit", lambda s: z3.Implies(s.locals[ik] >= 1, Not_(fits(eng, t0, req))))]
    if info["kind"] == "rangemap":
        k = z3.Const("k!vis", Str); v = lambda s: z3.Select(s.locals[ik], k)
        out.append(("what was compared fits", lambda s: z3.ForAll([k], z3.Implies(And_([v(s), k != eng.lit(CL)]), And_([z3.Select(req.f["has"], k), z3.Select(req.f["val"], k) == z3.Select(t0.f["val"], k)])), patterns=[v(s)])))
    return out
def post_would(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    m = atom(eng, old, eng.rcmd, "request.methodLine"); h, l = prints(eng, old, this, m); req = eng.read(old, flv(eng, old, eng.rcmd, "request.nameValueMap")); r = eng.rv(p, s)
    P(z3.Implies(Not_(h), Not_(r)), "a command no node crashed on is not refused"); P(z3.Implies(And_([h, l.f["len"] > 1]), r), "a command several nodes crashed on is refused whatever it says")
    P(z3.Implies(And_([h, l.f["len"] == 1]), r == fits(eng, eng.select(l.f["el"], z3.IntVal(0)), req)), "a command a node crashed on is refused exactly when it says the same"); P(z3.Implies(And_([h, l.f["len"] == 0]), Not_(r)), "a command no node crashed on is not refused")
    P(s.g("cl") == 0, "the lock on the list is released")
# the message that tells other nodes
def crashmap(eng, st, co): return eng.read(st, eng.container_base(flv(eng, st, co, "crashIdentifyingValues")))
VAL = z3.Function("identifying_value", Str, Str)
def pre_gen(eng, st, this, args):
    pre_would(eng, st, None, args); cm = crashmap(eng, st, eng.rcmd); k = z3.Const("k!iv", Str); h = z3.Select(cm.f["has"], k); st.assume(z3.ForAll([k], z3.Implies(h, z3.Select(cm.f["val"], k) == VAL(lower(eng, k))), patterns=[h])); eng.k0, eng.x0 = z3.Const("some_name", Str), z3.Const("some_header", Str); lower(eng, eng.k0); eng.vocab[-1] = gen_vocab; eng.said = None
def sub_maps(eng, info):
    return [k for k, v in info["entry"].locals.items() if isinstance(v, SV) and "nameValueMap" in v.f]
def gen_vocab(eng, info):
    ik = info.get("ixk"); out = []
    if ik is None or info["kind"] != "rangemap": return out
    q = z3.Const("q!gv", Str); w = z3.Const("w!gv", Str)
    for kk in sub_maps(eng, info):
        nm = lambda s, kk=kk: s.locals[kk].f["nameValueMap"]
        out += [("named", lambda s, nm=nm: z3.Implies(z3.Select(s.locals[ik], eng.k0), z3.Select(nm(s).f["has"], lower(eng, eng.k0)))), ("valued", lambda s, nm=nm: z3.Implies(z3.Select(nm(s).f["has"], eng.x0), z3.Select(nm(s).f["val"], eng.x0) == VAL(eng.x0))),
                ("nothing else", lambda s, nm=nm: z3.Implies(z3.Select(nm(s).f["has"], eng.x0), z3.Exists([q], And_([z3.Select(s.locals[ik], q), z3.Select(crashmap(eng, s, eng.rcmd).f["has"], q), lower(eng, q) == eng.x0])))), ("method", lambda s, kk=kk: s.locals[kk].f["methodLine"] == atom(eng, s, eng.rcmd, "request.methodLine")), ("no content", lambda s, kk=kk: s.locals[kk].f["content"] == eng.lit(""))]
    return out
def su_gen(eng):
    su_crash(eng)
    def ser(e, st, this, args, n):
        used(e, "SData::serialize", "trusted: the text deserialize reads back"); e.said = (e.read(st, this), z3.Const(fresh_name("text"), Str)); return e.said[1]
    eng.contracts["SData::serialize"] = ser
def post_gen(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    v = eng.rv(p, s); cm = crashmap(eng, old, eng.rcmd); P(v.f["methodLine"] == eng.lit("CRASH_COMMAND"), "the message is a CRASH_COMMAND")
    if eng.said is None: P(F, "the message carries the fingerprint"); return
    said, text = eng.said; P(v.f["content"] == text, "the message carries the fingerprint"); P(said.f["methodLine"] == atom(eng, old, eng.rcmd, "request.methodLine"), "the fingerprint has the command's name"); m = said.f["nameValueMap"]
    P(z3.Implies(z3.Select(cm.f["has"], eng.k0), z3.Select(m.f["has"], lower(eng, eng.k0))), "the fingerprint has every identifying value of the command"); P(z3.Implies(z3.Select(m.f["has"], eng.x0), z3.Select(m.f["val"], eng.x0) == VAL(eng.x0)), "the fingerprint has the command's values")
    q = z3.Const("q!gv", Str); P(z3.Implies(z3.Select(m.f["has"], eng.x0), z3.Exists([q], And_([z3.Select(cm.f["has"], q), lower(eng, q) == eng.x0]))), "the fingerprint has nothing but identifying values")
# a node that joins is told
def su_login(eng):
    eng.prune_ms = 60; eng.solver_timeout = 1500
    su_crash(eng); c = eng.contracts
    def plug(e, st, this, args, n):
        used(e, "BedrockServer::getCommandFromPlugins", "verified by its own item: a command made from the request by a plugin, or an empty one when the plugin refuses it"); v = e.rv(args[0], st); a = z3.Const(fresh_name("command"), I); st.assume(a > 0); from ..lib import fresh_addr
        fresh_addr(e, st, a); co = e.objlv(a, cmdty(e)); b = fresh_b("refused"); rl = flv(e, st, co, "request"); em = e.default(rl.ty); e.write(st, rl, merge_val(b, em, v)); e.write(st, flv(e, st, co, "crashIdentifyingValues.cmd"), a) if False else None
        st.assume(e.read(st, flv(e, st, co, "crashIdentifyingValues")).f["cmd"] == a); return a
    c["BedrockServer::getCommandFromPlugins"] = plug
    def gen(e, st, this, args, n):
        used(e, "BedrockServer::_generateCrashMessage", "verified by its own item: a message with the command's name and identifying values"); co = e.objlv(e.rv(args[0], st), cmdty(e)); cm = crashmap(e, st, co); m = atom(e, st, co, "request.methodLine"); t = e.table0; k = z3.Const("k!lg", Str); h = z3.Select(t.f["has"], k)
        e.prove(st, st.g("cl") != 0, "the list is read under its lock"); whole = And_([m == e.m0, z3.ForAll([k], z3.Implies(h, And_([z3.Select(cm.f["has"], k), z3.Select(cm.f["val"], k) == z3.Select(t.f["val"], k)])))])
        st.setg("told", z3.Or(st.g("told"), whole)); st.setg("made", st.g("made") + 1); return e.fresh(e.ty(n), "message")
    c["BedrockServer::_generateCrashMessage"] = gen
    def peer(e, st, this, args, n): used(e, "SQLiteClusterMessenger::runOnPeer", "verified under P16"); st.setg("sent", st.g("sent") + 1); return fresh_b("peer_ok")
    c["SQLiteClusterMessenger::runOnPeer"] = peer
    def thr(e, st, this, args, n): used(e, "std::thread::thread", "assumed: a thread can be started"); e.call_value(args[0] if not isinstance(args[0], LV) else e.rv(args[0], st), [], st, n); return e.fresh(e.ty(n), "thread")
    def mk(e, st, co, args, n):
        used(e, "BedrockCommand::BedrockCommand", "trusted: a new command with the request it was given and no identifying values"); v = e.rv(args[0], st); v = v.f["privateRequest"] if "privateRequest" in v.f else v; co = e.objlv(co.root, cmdty(e)); rl = flv(e, st, co, "request"); e.axiom(rl.root > 0); from ..lib import fresh_addr; fresh_addr(e, st, rl.root); e.write(st, rl, v); l = flv(e, st, co, "crashIdentifyingValues")
        e.axiom(e.read(st, l).f["cmd"] == co.root); cm = e.container_base(l); e.write(st, cm, e.default(cm.ty))
    c["new:BedrockCommand"] = mk
    eng.thread_hook = thr; c["std::thread::detach"] = anyv("std::thread::detach", "the thread goes on by itself"); c["BedrockPlugin::onNodeLogin"] = anyv("BedrockPlugin::onNodeLogin", "plugin code")
def pre_login(eng, st, this, args):
    eng.sthis = this; st.setg("cl", z3.IntVal(0)); st.setg("told", F); st.setg("sent", z3.IntVal(0)); st.setg("made", z3.IntVal(0)); eng.m0, eng.i0 = z3.Const("some_command", Str), z3.Const("some_print", I)
    eng.axiom(canon_prints(eng, field(eng, st, this, "_crashCommands"))); h, l = prints(eng, st, this, eng.m0); eng.table0 = eng.select(l.f["el"], eng.i0); eng.want0 = And_([h, eng.i0 >= 0, eng.i0 < l.f["len"]]); eng.vocab.append(login_vocab); eng.rcmd = None; eng.start0 = st.copy()
def login_vocab(eng, info):
    ik = info.get("ixk"); out = [("sent", lambda s: s.g("sent") == 0), ("what was told", lambda s: z3.Implies(info["entry"].g("told"), s.g("told")))]
    if ik is None: return out
    if info["kind"] == "range":
        out.append(("each message is sent", lambda s: s.g("sent") == z3.If(atom(eng, eng.start0, eng.sthis, "_clusterMessenger") != 0, s.locals[ik], 0)))
        for k, v in info["entry"].locals.items():
            if isinstance(v, SV) and is_z3(v.f.get("first")) and v.f["first"].sort() == Str: out.append(("the fingerprint was sent", lambda s, k=k: z3.Implies(And_([s.locals[k].f["first"] == eng.m0, eng.i0 >= 0, eng.i0 < s.locals[ik], eng.want0]), s.g("told"))))
    if info["kind"] == "rangemap":
        v = lambda s, x: z3.Select(s.locals[ik], x)
        if info["entry"].locals[ik].sort().domain() == Str: out.append(("the fingerprint was sent", lambda s: z3.Implies(And_([v(s, eng.m0), eng.want0]), s.g("told"))))
        k = z3.Const("k!lv", Str)
        for kk, x in info["entry"].locals.items():
            t = eng.local_ty.get(kk)
            if is_z3(x) and x.sort() == I and t is not None and "unique_ptr" in str(t.n) :
                co = lambda s, kk=kk: crashmap(eng, s, eng.objlv(s.locals[kk], cmdty(eng)))
                out.append(("identifying", lambda s, co=co: z3.ForAll([k], z3.Implies(And_([v(s, k), z3.Select(eng.table0.f["has"], k), lower(eng, k) == k]), z3.Select(co(s).f["has"], k)))))
                rq = lambda s, kk=kk: eng.read(s, flv(eng, s, eng.objlv(s.locals[kk], cmdty(eng)), "request.nameValueMap"))
                out.append(("identifying values", lambda s, co=co, rq=rq: forall([k], z3.Implies(And_([z3.Select(co(s).f["has"], k), z3.Select(rq(s).f["has"], lower(eng, k))]), z3.Select(co(s).f["val"], k) == z3.Select(rq(s).f["val"], lower(eng, k))), z3.Select(co(s).f["has"], k))))
    for kk, x in info["entry"].locals.items():
        if isinstance(x, SV) and "len" in x.f: out.append(("all made are kept", lambda s, kk=kk: s.locals[kk].f["len"] == s.g("made")))
    return out
def post_login(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(z3.Implies(eng.want0, s.g("told")), "a node that joins is told of every command known to crash nodes"); P(z3.Implies(atom(eng, old, this, "_clusterMessenger") != 0, s.g("sent") == s.g("made")), "every message made is sent")
# a crash is announced before any plugin code can crash
ARMED = "other nodes are told if %s crashes this node"
def su_armed(eng):
    from . import server
    server.setup(eng); c = eng.contracts; keep = ("known to crash nodes", "crashes this node", "announce"); orig = eng.prove
    def prove(st, goal, name, loc=None):
        if any(k in name for k in keep): orig(st, goal, name, loc)
    eng.prove = prove
    def gen(e, st, this, args, n):
        used(e, "BedrockServer::_generateCrashMessage", "verified by its own item: names the command and its identifying values"); v = e.fresh(e.ty(n), "message"); st.assume(v.f["methodLine"] == e.lit("CRASH_COMMAND")); st.setg("msg", z3.If(e.rv(args[0], st) == e.rcmd_addr, v.f["methodLine"], e.lit(""))); st.setg("msgc", v.f["content"]); return v
    def all_(e, st, this, args, n):
        used(e, "SQLiteClusterMessenger::runOnAll", "trusted: sends to every node"); v = e.rv(args[0], st); e.prove(st, And_([v.f["methodLine"] == st.g("msg"), v.f["content"] == st.g("msgc"), st.g("msg") != e.lit("")]), "what is announced is the command that is run"); st.setg("toall", st.g("toall") + 1); return e.fresh(e.ty(n), "answers") if e.ty(n).k != "void" else None
    def die(e, st, this, args, n):
        used(e, "SSetSignalHandlerDieFunc", "trusted: the function is called when a signal kills the node on this thread"); w = st.copy(); w.setg("msg", e.lit("")); w.setg("msgc", e.lit("")); w.setg("toall", z3.IntVal(0)); f = args[0] if not isinstance(args[0], LV) else e.rv(args[0], st); w.assume(atom(e, w, e.sthis, "_clusterMessenger") != 0); e.exits.append([])
        try: e.call_value(f, [], w, n); ok = w.g("toall") == 1
        except PathDead: ok = F
        finally: e.exits.pop()
        e.prove(w, ok, "a crash is announced to all nodes once"); st.setg("armed", T)
    c["BedrockServer::_generateCrashMessage"] = gen; c["SQLiteClusterMessenger::runOnAll"] = all_; c["SSetSignalHandlerDieFunc"] = die
    def wrap(k, what):
        f = c[k]
        def g(e, st, this, args, n): e.prove(st, st.g("armed"), ARMED % what); return f(e, st, this, args, n)
        c[k] = g
    for x in ("prePeek", "peek", "process", "postProcess"): wrap("BedrockCore::%sCommand" % x, x)
def pre_armed(eng, st, this, args):
    from . import server
    server.pre_run(eng, st, this, args); eng.sthis = this; st.setg("armed", F); eng.vocab.append(lambda e, info: [("armed", lambda s: s.g("armed"))])
def post_armed(eng, old, s, this, args, kind, p): pass
P19C = dict(common=dict(setup=su), tus=TUS + ["sqlitecluster/SQLiteCommand.cpp"], items=lambda prog: [Item("_wouldCrash", "BedrockServer::_wouldCrash", setup=su_crash, pre=pre_would, post=post_would), Item("_generateCrashMessage", "BedrockServer::_generateCrashMessage", setup=su_gen, pre=pre_gen, post=post_gen), Item("onNodeLogin", "BedrockServer::onNodeLogin", setup=su_login, pre=pre_login, post=post_login),
    Item("runCommand", "BedrockServer::runCommand", setup=su_armed, pre=pre_armed, post=post_armed)])
