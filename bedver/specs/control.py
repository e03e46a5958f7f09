"""P17: what each control command does, and that it does nothing else."""
import z3
from ..spec import *
from ..lib import lower, at_lv, same_value
from .server import used, anyv, fresh_b, cmdty, SHUT, TUS
from . import access as A
from .access import is_one, canon_prints, prints, su, su_crash

def member(eng, cc, m, t):
    """t is a fingerprint known for the command m in the list cc"""
    i = z3.Int("i!mb"); l = eng.select(cc.f["val"], m)
    return And_([z3.Select(cc.f["has"], m), z3.Exists([i], And_([i >= 0, i < l.f["len"], same_value(eng, eng.select(l.f["el"], i), t)]))])

def su_control(eng):
    su_crash(eng); c = eng.contracts
    def port(name, ghost):
        def f(e, st, this, args, n):
            used(e, "BedrockServer::" + name, "verified by its own item"); st.setg(ghost, st.g(ghost) + 1); st.setg("reason", e.rv(args[0], st))
        c["BedrockServer::" + name] = f
    port("blockCommandPort", "blocks"); port("unblockCommandPort", "unblocks")
    def begin(e, st, this, args, n):
        used(e, "BedrockServer::_beginShutdown", "verified by its own item"); st.setg("began", st.g("began") + 1); e.prove(st, e.rv(args[1], st), "control commands only shut the node down to detach it")
    c["BedrockServer::_beginShutdown"] = begin
    def det(e, st, this, args, n):
        used(e, "BedrockServer::isDetached", "whether the node is detached"); b = fresh_b("detached"); st.setg("isdet", b); return b
    c["BedrockServer::isDetached"] = det
    def prev(e, st, this, args, n):
        used(e, "BedrockPlugin::preventAttach", "plugin code: any answer"); b = fresh_b("prevents"); st.setg("prev", z3.Or(st.g("prev"), b)); return b
    c["BedrockPlugin::preventAttach"] = prev; c["BedrockPlugin::getName"] = anyv("BedrockPlugin::getName", "any name")
    c["BedrockConflictManager::generateReport"] = anyv("BedrockConflictManager::generateReport", "any text")
    def deser(e, st, this, args, n):
        used(e, "SData::deserialize", "trusted: any request"); e.prove(st, e.rv(args[0], st) == atom(e, st, e.rcmd, "request.content"), "the fingerprint is the one in the message")
        v = e.fresh(this.ty, "print"); e.write(st, this, v); e.said = v; r = e.fresh(e.ty(n), "size")
        k = z3.Const("k!de", Str); h = z3.Select(v.f["nameValueMap"].f["has"], k); st.assume(z3.ForAll([k], z3.Implies(h, lower(e, k) == k), patterns=[h])); return r
    c["SData::deserialize"] = deser; c["SData::serialize"] = anyv("SData::serialize", "logging only")
    def getall(e, st, this, args, n):
        used(e, "BedrockCommandQueue::getAll", "verified under P14: takes every queued command out, each once"); v = e.fresh(e.ty(n), "removed"); e.removed = v; i, j = z3.Ints("i!ga j!ga"); st.assume(v.f["len"] >= 0)
        x, y = z3.Select(v.f["el"], i), z3.Select(v.f["el"], j); e.axiom(z3.ForAll([i, j], z3.Implies(And_([i >= 0, j >= 0, i < v.f["len"], j < v.f["len"], i != j]), x != y), patterns=[z3.MultiPattern(x, y)])); e.axiom(z3.ForAll([i], z3.Implies(And_([i >= 0, i < v.f["len"]]), x > 0), patterns=[x]))
        st.setg("taken", st.g("taken") + 1); st.setg("ntaken", v.f["len"]); st.setg("a0", z3.Select(v.f["el"], e.i0)); return v
    c["BedrockBlockingCommandQueue::getAll"] = getall; c["BedrockCommandQueue::getAll"] = getall
    def reply(e, st, this, args, n):
        used(e, "BedrockServer::_reply", "verified under P16: one answer"); a = e.rv(args[0], st); co = e.objlv(a, cmdty(e)); P = lambda f, nm: e.prove(st, f, nm)
        P(at_complete(e, st, co), "a command taken out of the queue is complete when it is answered"); P(atom(e, st, co, "response.methodLine") == e.lit("503 Service Unavailable"), "a command taken out of the queue is answered 503"); P(st.g("taken") > 0, "only commands taken out of the queue are answered")
        st.setg("replies", st.g("replies") + 1); st.setg("hits", st.g("hits") + z3.If(a == st.g("a0"), 1, 0))
    c["BedrockServer::_reply"] = reply
    def clear(e, st, this, args, n): used(e, "BedrockBlockingCommandQueue::clearRateLimits", "verified under P15"); st.setg("cleared", st.g("cleared") + 1)
    c["BedrockBlockingCommandQueue::clearRateLimits"] = clear
    for f, hd in (("setWindow", "windowMS"), ("setIdentifierThreshold", "identifierThresholdMS"), ("setCommandThreshold", "commandThresholdMS"), ("setBlockDuration", "blockDurationMS")):
        def lim(e, st, this, args, n, f=f, hd=hd):
            used(e, "BedrockBlockingCommandQueue::" + f, "verified under P15"); e.prove(st, is_one(e, st.g("m"), ["SetBlockingQueueTimeRateLimit"]), "limits change only when asked for"); e.prove(st, e.rv(args[0], st) >= 0, "a limit is not negative"); return e.fresh(e.ty(n), "previous")
        c["BedrockBlockingCommandQueue::" + f] = lim
    def sp(e, st, this, args, n):
        used(e, "SQLiteNode::setPriority", "verified under P11: refuses or sets the priority"); P = lambda f, nm: e.prove(st, f, nm); p = e.rv(args[0], st); P(is_one(e, st.g("m"), ["SetPriority"]), "the priority changes only when asked for"); P(p == st.g("asked"), "the priority that is set is the one asked for")
        st.setg("setp", st.g("setp") + 1); b = fresh_b("refused"); s2 = st.copy(); s2.assume(b); s2.setg("pref", T); x = e.fresh(excty(e), "refusal"); e.exits[-1].append(("throw", s2, Exc("SException", x))); st.assume(Not_(b)); return e.fresh(e.ty(n), "old")
    c["SQLiteNode::setPriority"] = sp
    from ..lib import METHODS
    def calc(name):
        def f(e, st, this, args, n):
            used(e, "SData::" + name, "trusted: the header as a number, 0 when it is none"); v = e.fresh(e.ty(n), "number"); st.setg("asked", v); return v
        c["SData::" + name] = f
    calc("calc64"); calc("calcU64")
    def gc(e, st, this, args, n):
        used(e, "SQLite::getCommit", "trusted: the journal row of that commit, or false"); b = fresh_b("found"); e.prove(st, e.rv(args[0], st) == st.g("asked"), "the hash is looked up for the commit asked for"); h = z3.Const(fresh_name("hash"), Str); p = args[2]; lv = p.lv if isinstance(p, (PtrTo, RefTo)) else e.objlv(e.rv(p, st), None)
        e.write(st, lv, h); st.setg("hash", h); st.setg("found", b); return b
    c["SQLite::getCommit"] = gc
    def xl(v, name):
        def f(e, st, this, args, n):
            used(e, "SQLite::" + name, "verified under P01"); e.prove(st, (Not_ if v else (lambda x: x))(st.g("xl")), "writes are blocked and unblocked in turn"); st.setg("xl", T if v else F)
        return f
    c["SQLite::exclusiveLockDB"] = xl(True, "exclusiveLockDB"); c["SQLite::exclusiveUnlockDB"] = xl(False, "exclusiveUnlockDB")
    def store(e, st, this, args, n):
        if this.kind == "loc" and not this.path and this.root[0] != "g":
            used(e, "locked", "the flag the quiesce thread sets"); v = e.rv(args[0], st); e.prove(st, z3.Implies(v if v.sort() == B else v != 0, st.g("xl")), "writes are reported blocked only once they are")
        return METHODS[("ATOMIC", "store")](e, st, this, args, n)
    for k in ("std::atomic::operator=", "std::atomic::store"): c[k] = store
    def thr(e, st, this, args, n):
        used(e, "std::thread::thread", "the thread's body is verified on its own; meanwhile it may have set the flag it shares"); w = st.copy(); f = args[0] if not isinstance(args[0], LV) else e.rv(args[0], st); e.exits.append([])
        try: e.call_value(f, [], w, n); e.prove(w, Not_(w.g("xl")), "the thread that blocks writes ends with writes unblocked")
        finally: e.exits.pop()
        for k in list(st.locals):
            t = e.local_ty.get(k)
            if t is not None and t.k == "rec" and t.n == "std::atomic": e.write(st, at_lv(LV("loc", k, t)), fresh_b("locked_now"))
        return e.fresh(e.ty(n), "thread")
    eng.thread_hook = thr
    for f in ("SQLitePool::getIndex",): c[f] = anyv(f, "trusted: a free handle")
    c["new:SQLiteScopedHandle"] = lambda e, st, co, args, n: None
    c["SQLiteScopedHandle::db"] = anyv("SQLiteScopedHandle::db", "the handle")
from .server import excty
def at_complete(eng, st, co): return atom(eng, st, co, "complete")
GH = ("blocks", "unblocks", "began", "taken", "ntaken", "replies", "hits", "cleared", "setp")
def pre_control(eng, st, this, args):
    eng.sthis = this; eng.rcmd = eng.objlv(eng.rv(args[0], st), cmdty(eng)); st.assume(eng.rv(args[0], st) > 0); st.setg("cl", z3.IntVal(0))
    for g in GH: st.setg(g, z3.IntVal(0))
    for g in ("prev", "pref", "found", "isdet", "xl"): st.setg(g, F)
    st.setg("a0", z3.IntVal(0)); st.setg("asked", z3.Const("no_number", I)); st.setg("reason", eng.lit("")); st.setg("hash", eng.lit("")); st.setg("m", atom(eng, st, eng.rcmd, "request.methodLine")); eng.i0 = z3.Const("some_removed", I); eng.said = None
    eng.axiom(canon_prints(eng, field(eng, st, this, "_crashCommands"))); eng.start0 = st.copy(); eng.vocab.append(control_vocab)
def control_vocab(eng, info):
    ik = info.get("ixk"); out = [("stays " + g, lambda s, g=g: s.g(g) == info["entry"].g(g)) for g in GH if g not in ("replies", "hits")]
    if info["kind"] == "range" and ik is not None: out += [("answers", lambda s: s.g("replies") == s.locals[ik]), ("each once", lambda s: z3.Implies(And_([eng.i0 >= 0, eng.i0 < s.g("ntaken")]), s.g("hits") == z3.If(eng.i0 < s.locals[ik], 1, 0)))]
    for k, v in info["entry"].locals.items():
        if isinstance(v, SV) and "len" in v.f and isinstance(v.f.get("el"), z3.ArrayRef) and v.f["el"].sort().range() == Str: out.append(("who prevents", lambda s, k=k: (s.locals[k].f["len"] == 0) == Not_(s.g("prev"))))
    return out
def post_control(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); m = s.g("m"); q = lambda *x: is_one(eng, m, x); ml = atom(eng, s, eng.rcmd, "response.methodLine"); starts = lambda a: ml == eng.lit(a)
    if kind == "throw": P(F, "no exception escapes"); return
    c0, c1 = field(eng, old, this, "_crashCommands"), field(eng, s, this, "_crashCommands"); M = z3.Const("any_command", Str); i = z3.Const("any_print", I); l0, l1 = eng.select(c0.f["val"], M), eng.select(c1.f["val"], M)
    t0, t1 = eng.select(l0.f["el"], i), eng.select(l1.f["el"], i); was = And_([z3.Select(c0.f["has"], M), i >= 0, i < l0.f["len"]]); now = And_([z3.Select(c1.f["has"], M), i >= 0, i < l1.f["len"]])
    P(z3.Implies(q("ClearCrashCommands"), c1.f["n"] == 0), "clearing the list leaves no command refused"); P(z3.Implies(And_([Not_(q("ClearCrashCommands")), was]), And_([z3.Select(c1.f["has"], M), Or_([And_([i + d < l1.f["len"], same_value(eng, eng.select(l1.f["el"], i + d), t0)]) for d in (0, 1)])])), "a command known to crash nodes stays known until the list is cleared")
    new = F
    if eng.said is not None:
        sm = eng.said.f["methodLine"]; empty = And_([sm == eng.lit(""), eng.said.f["nameValueMap"].f["n"] == 0, eng.said.f["content"] == eng.lit("")]); new = And_([q("CRASH_COMMAND"), M == sm, same_value(eng, t1, eng.said.f["nameValueMap"])])
        P(z3.Implies(And_([q("CRASH_COMMAND"), Not_(empty)]), member(eng, c1, sm, eng.said.f["nameValueMap"])), "the command that was announced is known from then on")
    P(z3.Implies(now, Or_([member(eng, c0, M, t1), new])), "no other command becomes known to crash nodes"); P(s.g("cl") == 0, "the lock on the list is released")
    for g, nm in (("blocks", "SuppressCommandPort"), ("unblocks", "ClearCommandPort")): P(s.g(g) == z3.If(q(nm), 1, 0), "the port is %s once, and only by the command for it" % ("blocked" if g == "blocks" else "unblocked"))
    mp = flv(eng, old, eng.rcmd, "request.nameValueMap"); rq = eng.read(old, mp); r = eng.lit("reason"); given = And_([z3.Select(rq.f["has"], r), z3.Select(rq.f["val"], r) != eng.lit("")])
    P(z3.Implies(s.g("blocks") + s.g("unblocks") > 0, s.g("reason") == z3.If(given, z3.Select(rq.f["val"], r), eng.lit("MANUAL"))), "the block is for the reason given")
    P(z3.Implies(s.g("began") > 0, Or_([q("BeginBackup"), And_([q("Detach"), Not_(s.g("isdet"))])])), "the node detaches only when asked to"); P(z3.Implies(Or_([q("BeginBackup"), And_([q("Detach"), Not_(s.g("isdet"))])]), s.g("began") == 1), "a node asked to detach does")
    d0, d1 = (atom(eng, x, this, "_detach") for x in (old, s)); r0, r1 = (atom(eng, x, this, "_syncLoopShouldBeRunning") for x in (old, s)); att = And_([q("Attach"), Not_(s.g("prev")), atom(eng, old, this, "_shutdownState") == SHUT(eng, "RUNNING")])
    P(z3.If(att, And_([Not_(d1), r1, ml == eng.lit("204 ATTACHING")]), And_([d1 == d0, r1 == r0])), "the node attaches when asked to, ready to, and no plugin prevents it, and never otherwise")
    P(s.g("taken") == z3.If(q("ClearBlockingQueue"), 1, 0), "the blocking queue is emptied only when asked to"); P(s.g("replies") == s.g("ntaken"), "every command taken out of the queue is answered"); P(z3.Implies(And_([q("ClearBlockingQueue"), eng.i0 >= 0, eng.i0 < s.g("ntaken")]), s.g("hits") == 1), "and each exactly once")
    P(z3.Implies(q("ClearBlockingQueue"), s.g("cleared") == 1), "an emptied queue counts no command any more"); P(z3.Implies(s.g("cleared") > 0, q("ClearBlockingQueue", "SetBlockingQueueTimeRateLimit")), "limits are cleared only when asked to")
    P(s.g("setp") <= 1, "the priority is set at most once"); a = s.g("asked"); hp = z3.Select(rq.f["has"], eng.lit("priority")); P(z3.Implies(And_([s.g("setp") > 0]), And_([hp, a >= 0, a != 1])), "an invalid priority is refused"); P(z3.Implies(And_([q("SetPriority"), ml == eng.lit("200 OK"), Not_(s.g("pref"))]), s.g("setp") == 1), "a change of priority is confirmed only when it was made")
    rm = eng.read(s, flv(eng, s, eng.rcmd, "response.nameValueMap")); old_rm = eng.read(old, flv(eng, old, eng.rcmd, "response.nameValueMap"))
    P(z3.Implies(And_([q("GetCommitHash"), s.g("found")]), And_([z3.Select(rm.f["has"], eng.lit("hash")), z3.Select(rm.f["val"], eng.lit("hash")) == s.g("hash"), ml == eng.lit("200 OK")])), "the hash answered is that commit's"); P(z3.Implies(And_([q("GetCommitHash"), Not_(s.g("found"))]), ml != eng.lit("200 OK")), "a commit that is not there is not answered with a hash")
    mx = [atom(eng, x, this, "_maxSocketThreads") for x in (old, s)]; P(z3.Implies(Not_(q("SetMaxSocketThreads")), mx[0] == mx[1]), "the number of connections allowed changes only when asked for"); P(z3.Implies(mx[1] == 0, mx[0] == 0), "some connection is always allowed")
    P(z3.Implies(Not_(q("BeginBackup")), atom(eng, s, this, "_shouldBackup") == atom(eng, old, this, "_shouldBackup")), "a backup is made only when asked for")
P17C = dict(common=dict(setup=su), tus=TUS + ["sqlitecluster/SQLiteCommand.cpp"], items=lambda prog: [Item("_control", "BedrockServer::_control", setup=su_control, pre=pre_control, post=post_control)])
_w = ("sigaction", "_ZN11STCPManager8openPortERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZN10SQLiteNode11setPriorityEi", "_ZN22SQLiteClusterMessenger8runOnAllERK5SData", "_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def _hz(b): return [dict(name="access", wrap=_w, bound=b)]
_sock = ["socket ids are below 2^63", "a thread can be started for each command", "the socket is used by its own thread only; send and recv behave as documented"]
LIST = ("known to crash nodes", "leaves no command refused", "is known from then on", "lock on the list")
def only(su, names):
    def f(eng):
        su(eng); orig = eng.prove
        def prove(st, goal, name, loc=None):
            if any(k in name for k in names): orig(st, goal, name, loc)
        eng.prove = prove
    return f
P19L = dict(common=dict(setup=su), tus=TUS + ["sqlitecluster/SQLiteCommand.cpp"], items=lambda prog: [Item("_control crash list", "BedrockServer::_control", setup=only(su_control, LIST), pre=pre_control, post=post_control)])
WHO = ("one of the port it came from", "address it came from", "is the one handled", "plugin of its port", "gets one thread", "handed on before")
def acc(su): return dict(common=dict(setup=su_), tus=TUS + ["libstuff/STCPManager.cpp"], items=lambda prog: [Item("_acceptSockets", "BedrockServer::_acceptSockets", setup=su, pre=A.pre_acc, post=A.post_acc)])
def su_rest(eng):
    A.su_acc(eng); orig = eng.prove
    def prove(st, goal, name, loc=None):
        if not any(k in name for k in WHO): orig(st, goal, name, loc)
    eng.prove = prove
su_ = A.su
P18S = dict(common=dict(setup=A.su), tus=TUS, items=lambda prog: [Item("handleSocket blocks", "BedrockServer::handleSocket", setup=only(A.su_sock, LOW), pre=A.pre_sock2, post=A.post_sock)])
FR18 = [("BedrockServer", f) for f in ("_commandPortBlockReasons", "_isCommandPortLikelyBlocked", "_commandPortPublic", "_commandPortPrivate", "_portPluginMap", "_outstandingSocketThreads")]
OK18 = {"BedrockServer::_acceptSockets": "verified in another part of this property", "BedrockServer::handleSocket": "verified in another part of this property"}
P17 = dict(parts=[A.P17A, A.P17S, P17C, acc(only(A.su_acc, WHO))], assumptions=_sock + ["SData::deserialize yields one whole request or none; header names are compared without case", "SetBlockingQueueTimeRateLimit is asked for fewer than 2^63 microseconds"],
           harness=_hz("2500 (thorough 25000) control commands with random arguments, hosts and node states; 1500 (15000) requests turned into commands; 60 (600) connections of up to five requests in random pieces on the three ports"))
LOW = ("block for missing threads", "counted off exactly once")
P18 = dict(parts=[dict(A.P17P, frame=FR18, ok=OK18), P18S, acc(su_rest)], assumptions=["opening a port either yields a listening port or ends the process", "other connections count themselves off atomically"],
           harness=_hz("700 (thorough 7000) random histories of blocks, control commands, state changes, shutdowns and resets; 40 (400) rounds of 51 to 56 connections ending at once"))
P19 = dict(parts=[dict(A.P19C, frame=[("BedrockServer", "_crashCommands")], ok={"BedrockServer::_control": "verified in another part of this property"}), P19L], assumptions=["the signal handler calls the function set for the crashing thread (SSignal)", "the cluster messenger exists while commands run", "SData::serialize and deserialize are inverse for the fingerprint; header names are compared without case", "a plugin names an identifying value always with the same spelling"],
           harness=_hz("250 (thorough 2500) random histories of announcements, clears, joining nodes and commands, with the announcement checked from inside each plugin hook"))
