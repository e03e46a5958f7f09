"""SQLiteNode: P03 broadcast, P06/P07/P10 leadership, P08 replication, P09 forks."""
from .nodecommon import *
from . import nodecommon as N
from . import sqcommon as C

# ============================================================ P03 broadcast of committed transactions
HDR = ("commitcount", "hash", "commandaddress")
def deliver_cond(eng, st, this, sub): return And_([Not_(pf(eng, st, this, eng.p0, "forked")), Or_([Not_(sub), pf(eng, st, this, eng.p0, "subscribed")])])
def all_setup(eng):
    eng.contracts.pop("SQLiteNode::_sendToAllPeers")
def all_pre(eng, st, this, args):
    msg = eng.rv(args[0], st); sub = args[1]; k = eng.key0 = z3.Const("anykey", Str)
    st.assume(And_([k != eng.lit(h) for h in HDR])); m = msg.f["nameValueMap"]
    eng.send_conds = [("eligible", lambda s: deliver_cond(eng, s, this, sub))]
    eng.send_val = {"method": lambda s: s.g("sm_method") == msg.f["methodLine"], "content": lambda s: s.g("sm_content") == msg.f["content"],
        "header": lambda s: And_([z3.Select(s.g("sm_has"), k) == z3.Select(m.f["has"], k), z3.Implies(z3.Select(m.f["has"], k), z3.Select(s.g("sm_val"), k) == z3.Select(m.f["val"], k))])}
def all_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    c = deliver_cond(eng, old, this, args[1])
    eng.prove(s, s.g("sn") == old.g("sn") + z3.If(c, 1, 0), "a broadcast reaches each eligible peer exactly once, and no other")
    for nm, f in eng.send_val.items(): eng.prove(s, z3.Implies(c, f(s)), "what is delivered is the message given: its " + nm)
    eng.prove(s, z3.Implies(Not_(c), And_([s.g(g) == old.g(g) for g in GM])), "nothing is delivered to a forked or unsubscribed peer")
def one_post(eng, old, s, this, args, kind, p):
    q = args[0]; msg = eng.rv(args[1], old); f = pf(eng, old, this, q, "forked")
    eng.prove(s, z3.Implies(q == eng.p0, s.g("sn") == old.g("sn") + z3.If(f, 0, 1)), "a message is sent once, unless the peer is forked")
    eng.prove(s, z3.Implies(q != eng.p0, s.g("sn") == old.g("sn")), "and to that peer only")
    eng.prove(s, z3.Implies(And_([q == eng.p0, Not_(f)]), And_([s.g("sm_method") == msg.f["methodLine"], s.g("sm_content") == msg.f["content"]])), "unchanged")
# ---- _sendOutstandingTransactions
def out_setup(eng):
    def on_all(eng, st, this, v, sub):
        idh = header(v, eng, "NewCount"); ident = S_toull(idh); m = eng.popped
        last = atom(eng, st, eng.node, "_lastSentTransactionID")
        eng.prove(st, And_([has(v, eng, "NewCount"), has(v, eng, "NewHash"), has(v, eng, "ID"), header(v, eng, "ID") == idh]), "every broadcast transaction carries its number and hash")
        eng.prove(st, And_([v.f["methodLine"] == eng.lit("TRANSACTION"), sub]), "committed transactions go to subscribed peers as TRANSACTION messages")
        eng.prove(st, z3.Select(m.f["has"], ident), "only committed transactions are broadcast")
        eng.prove(st, And_([header(v, eng, "NewHash") == z3.Select(m.f["val"].f["second"], ident), v.f["content"] == z3.Select(m.f["val"].f["first"], ident)]), "each is broadcast with the text and hash it was committed with")
        eng.prove(st, ident > st.g("tx_last"), "transactions are broadcast in increasing order, never twice")
        st.setg("tx_last", ident); st.setg("tx_set", z3.Store(st.g("tx_set"), ident, T)); st.setg("tx_n", st.g("tx_n") + 1)
    eng.on_all = on_all
    def on_pop(eng, st, r): eng.popped = r
    eng.on_pop = on_pop; eng.vocab.append(out_vocab)
def out_pre(eng, st, this, args):
    last = atom(eng, st, this, "_lastSentTransactionID"); st.setg("tx_last", last); st.setg("tx_set", z3.K(I, F)); st.setg("tx_n", z3.IntVal(0)); eng.last0 = last
def out_vocab(eng, info):
    if info["kind"] != "rangemap": return []
    ik = info["ixk"]; c = info["cont"]; k, q = z3.Ints("mk mq"); node = eng.node; l0 = eng.last0
    last = lambda s: atom(eng, s, node, "_lastSentTransactionID"); e = info["entry"]
    if not hasattr(eng, "popped"): return []
    mh = eng.popped.f["has"]
    return [("visited", lambda s: z3.ForAll([k], z3.Implies(And_([z3.Select(s.locals[ik], k), k > l0]), z3.Select(s.g("tx_set"), k)))),
            ("ordered", lambda s: z3.ForAll([k, q], z3.Implies(And_([z3.Select(s.locals[ik], k), z3.Select(mh, q), Not_(z3.Select(s.locals[ik], q))]), k < q))),
            ("only popped visited", lambda s: z3.ForAll([k], z3.Implies(z3.Select(s.locals[ik], k), z3.Select(mh, k)))),
            ("last", lambda s: And_([last(s) == s.g("tx_last"), Or_([last(s) == l0, z3.Select(s.locals[ik], last(s))]), last(s) >= l0])),
            ("set", lambda s: z3.ForAll([k], z3.Implies(z3.Select(s.g("tx_set"), k), And_([k > l0, k <= last(s)]))))]
def out_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    k = z3.Int("anytx"); m = eng.popped; last = atom(eng, s, this, "_lastSentTransactionID")
    eng.prove(s, z3.Implies(And_([z3.Select(m.f["has"], k), k > eng.last0]), z3.Select(s.g("tx_set"), k)), "every transaction committed since the last broadcast is broadcast")
    eng.prove(s, z3.Implies(And_([z3.Select(m.f["has"], k)]), k <= last), "and remembered as broadcast")
    eng.prove(s, And_([last >= eng.last0, Or_([last == eng.last0, z3.Select(s.g("tx_set"), last)])]), "nothing else is remembered as broadcast")
P03 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: [
    Item("_sendToAllPeers delivers to each eligible peer once", "SQLiteNode::_sendToAllPeers", setup=all_setup, pre=all_pre, post=all_post),
    Item("_sendToPeer", "SQLiteNode::_sendToPeer", post=one_post),
    Item("_sendOutstandingTransactions broadcasts every commit once, in order", "SQLiteNode::_sendOutstandingTransactions", setup=out_setup, pre=out_pre, post=out_post),
    ])

# ============================================================ P06 taking the lead needs a quorum of approvals
def enters(eng, v, name): return v == SV_(eng, name)
def loggedfull(eng, s, node, p): return And_([full(eng, s, node, p), pf(eng, s, node, p, "loggedIn")])
def approved(eng, s, node, p): return And_([loggedfull(eng, s, node, p), pf(eng, s, node, p, "standupResponse") == RESP["APPROVE"]])
def eligible(eng, s, node, p): return And_([full(eng, s, node, p), Not_(pf(eng, s, node, p, "forked"))])
def eligloc(eng, s, node, p): return And_([eligible(eng, s, node, p), pf(eng, s, node, p, "loggedIn")])
PREDS = [("full peers", full), ("logged-in full peers", loggedfull), ("approvals", approved)]
def upd(name, preds, change, extra=None, want=("return",), reach=(), ptrs=(), posts=None):
    def setup(eng):
        eng.on_change = lambda eng, st, this, v: change(eng, st, this, v)
        eng.contracts["SQLiteNode::_updateSyncPeer"] = sync_peer
    def pre(eng, st, this, args):
        setstate(eng, st, this, name); eng.preds = list(preds); eng.old0 = st.copy(); eng.ptr_props = list(ptrs)
        eng.reach_props = [(nm, (lambda s, f=f: f(eng, s))) for nm, f in reach]
        if extra: extra(eng, st, this, args)
    return Item("update() in " + name, "SQLiteNode::update", setup=setup, pre=pre, post=posts or (lambda *a: None), want=want, min_obls=0)
def sync_peer(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_updateSyncPeer (contract verified by its own item)")
    setatom(eng, st, this, "_syncPeer", z3.Const(fresh_name("sync"), I))
def never(eng, v, *names): return Not_(in_states(eng, v, *names))
def ch_standingup(eng, st, this, v):
    n = lambda tag, pr: count(eng, eng.old0, tag, pr)
    eng.prove(st, z3.Implies(enters(eng, v, "LEADING"), 2 * n("approvals", approved) >= n("full peers", full)), "a node starts leading only with approvals from at least half the other full peers")
    eng.prove(st, z3.Implies(enters(eng, v, "LEADING"), 2 * n("logged-in full peers", loggedfull) >= n("full peers", full)), "a node starts leading only while connected to at least half the other full peers")
    eng.prove(st, z3.Implies(And_([enters(eng, v, "LEADING"), loggedfull(eng, eng.old0, this, eng.p0)]), pf(eng, eng.old0, this, eng.p0, "standupResponse") != RESP["DENY"]), "a node does not start leading over a denial")
    eng.prove(st, z3.Implies(enters(eng, v, "LEADING"), Not_(atom(eng, eng.old0, this, "_isShuttingDown"))), "a node shutting down does not start leading")
    eng.prove(st, in_states(eng, v, "LEADING", "SEARCHING"), "standing up ends in LEADING or SEARCHING")
LEADISH = ("STANDINGUP", "LEADING", "STANDINGDOWN")
def seen(eng, i): return i > eng.k0
def leadish(eng, s, node, p): return in_states(eng, pf(eng, s, node, p, "state"), *LEADISH)
def best(field, elig):
    return lambda eng, s, node, v, i: z3.Implies(And_([seen(eng, i), elig(eng, s, node, eng.p0)]), And_([v != 0, pf(eng, s, node, v, field) >= pf(eng, s, node, eng.p0, field)]))
def loc_unforked(eng, s, node, p): return And_([pf(eng, s, node, p, "loggedIn"), Not_(pf(eng, s, node, p, "forked"))])
W_PTRS = [("highest priority", best("priority", eligloc)), ("freshest", best("commitCount", eligloc)),
    ("any leader is noticed", lambda eng, s, node, v, i: z3.Implies(And_([seen(eng, i), eligloc(eng, s, node, eng.p0), leadish(eng, s, node, eng.p0)]), v != 0)),
    ("only eligible", lambda eng, s, node, v, i: z3.Implies(v != 0, eligloc(eng, s, node, v))),
    ("only leaders", lambda eng, s, node, v, i: z3.Implies(v != 0, leadish(eng, s, node, v)))]
S_PTRS = [("freshest", best("commitCount", loc_unforked)), ("only usable", lambda eng, s, node, v, i: z3.Implies(v != 0, loc_unforked(eng, s, node, v)))]
def ch_waiting(eng, st, this, v):
    o = eng.old0; p = eng.p0; up = enters(eng, v, "STANDINGUP"); mine = dbv(eng, o, this)["count"]; pr = atom(eng, o, this, "_priority")
    n = lambda tag, f: count(eng, o, tag, f)
    eng.prove(st, z3.Implies(up, 2 * n("eligible connected", eligloc) >= n("eligible", eligible)), "a node stands up only while connected to at least half the other full peers it can work with")
    eng.prove(st, z3.Implies(And_([up, eligloc(eng, o, this, p)]), And_([pr > 0, pr > pf(eng, o, this, p, "priority")])), "only the node of highest priority among those connected stands up")
    eng.prove(st, z3.Implies(And_([up, eligloc(eng, o, this, p)]), mine >= pf(eng, o, this, p, "commitCount")), "a node behind a connected peer does not stand up")
    eng.prove(st, z3.Implies(And_([up, eligloc(eng, o, this, p)]), Not_(leadish(eng, o, this, p))), "nobody stands up while a connected peer leads or is standing up or down")
    eng.prove(st, z3.Implies(up, pf(eng, st, this, p, "standupResponse") == RESP["NONE"]), "answers to an earlier attempt are forgotten before a new one")
    eng.prove(st, z3.Implies(up, Not_(atom(eng, o, this, "_isShuttingDown"))), "a node shutting down does not stand up")
    sub = enters(eng, v, "SUBSCRIBING"); lp = atom(eng, st, this, "_leadPeer")
    eng.prove(st, z3.Implies(sub, And_([lp != 0, eligloc(eng, o, this, lp), pf(eng, o, this, lp, "state") == SV_(eng, "LEADING")])), "a node subscribes only to a connected, unforked peer that leads")
    eng.prove(st, never(eng, v, "LEADING", "STANDINGDOWN", "FOLLOWING"), "nobody leads without standing up first")
def ch_searching(eng, st, this, v):
    o = eng.old0; p = eng.p0; n = lambda tag, f: count(eng, o, tag, f)
    eng.prove(st, in_states(eng, v, "WAITING", "SYNCHRONIZING"), "with peers configured a searching node only goes waiting or synchronizing")
    w = enters(eng, v, "WAITING")
    eng.prove(st, z3.Implies(w, 2 * n("logged-in full peers", loggedfull) >= n("full peers", full)), "a node leaves SEARCHING only while connected to at least half the other full peers")
    eng.prove(st, z3.Implies(And_([w, loc_unforked(eng, o, this, p)]), dbv(eng, o, this)["count"] >= pf(eng, o, this, p, "commitCount")), "a node goes WAITING only when no connected peer has commits it lacks")
    eng.prove(st, z3.Implies(enters(eng, v, "SYNCHRONIZING"), atom(eng, st, this, "_syncPeer") != 0), "a node synchronizes only from a chosen peer")
def ch_leading(eng, st, this, v):
    cur = state(eng, st, this)
    eng.prove(st, Or_([And_([enters(eng, v, "STANDINGDOWN"), cur == SV_(eng, "LEADING")]), And_([enters(eng, v, "SEARCHING"), cur == SV_(eng, "STANDINGDOWN")])]), "a leader stops leading by standing down, then searching")
def must_stand_down(eng, s, node, p):
    st_ = pf(eng, s, node, p, "state"); w = st_ == SV_(eng, "WAITING"); shut = Or_([atom(eng, s, node, "_isShuttingDown"), atom(eng, s, node, "_priority") == 1])
    return Or_([st_ == SV_(eng, "LEADING"), And_([w, pf(eng, s, node, p, "priority") > atom(eng, s, node, "_priority")]), And_([w, pf(eng, s, node, p, "commitCount") > dbv(eng, s, node)["count"]])])
def post_leading(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0
    go = Or_([must_stand_down(eng, o, this, eng.p0), atom(eng, o, this, "_isShuttingDown"), atom(eng, o, this, "_priority") == 1])
    nk = eng.global_vals.get("SQLiteNode::NODE_KILLED")
    eng.prove(s, z3.Implies(And_([go, Not_(killed(eng, s))]), state(eng, s, this) == SV_(eng, "SEARCHING")), "a leader that sees another leader, a waiting peer of higher priority or with more commits, or that shuts down, stops leading at once")
    eng.prove(s, z3.Implies(state(eng, s, this) != SV_(eng, "LEADING"), s.g("outsent") >= 1), "what a leader committed is broadcast before it gives up the lead")
def killed(eng, s):
    k = ("g", "SQLiteNode::NODE_KILLED"); v = s.locals.get(k, eng.global_vals.get("SQLiteNode::NODE_KILLED")); return aval(v) if v is not None else F
def outstanding(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_sendOutstandingTransactions (verified under P03)")
    st.setg("outsent", st.g("outsent") + 1)
    for g in GM: st.setg(g, z3.Const(fresh_name("os_" + g), st.g(g).sort()))
    k = z3.Const(fresh_name("os_sn"), I); st.assume(k >= st.g("sn")); st.setg("sn", k); lv = flv(eng, st, this, "_lastSentTransactionID"); eng.write(st, lv, eng.fresh(lv.ty, "lastSent"))
def lead_extra(eng, st, this, args):
    eng.contracts["SQLiteNode::_sendOutstandingTransactions"] = outstanding; st.setg("outsent", z3.IntVal(0))
    st.assume(Not_(atom(eng, st, this, "_isShuttingDown")) if False else T)
    eng.str_props = [("a reason is noted", lambda eng, s, node, v, i: z3.Implies(And_([seen(eng, i), must_stand_down(eng, s, node, eng.p0)]), v != eng.lit("")))]
def ch_only(*names):
    def ch(eng, st, this, v): eng.prove(st, in_states(eng, v, *names), "this state is left only for " + " or ".join(names))
    return ch
def follow_pre(eng, st, this, args): pass
def post_following(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; lp = atom(eng, o, this, "_leadPeer")
    eng.prove(s, z3.Implies(And_([lp != 0, Not_(killed(eng, s)), Not_(in_states(eng, pf(eng, o, this, lp, "state"), "LEADING", "STANDINGDOWN"))]), state(eng, s, this) == SV_(eng, "SEARCHING")), "a follower whose leader stopped leading goes searching")
P06_ITEMS = [
    upd("STANDINGUP", PREDS, ch_standingup, reach=[("no denial", lambda eng, s: Not_(And_([loggedfull(eng, eng.old0, eng.node, eng.p0), pf(eng, eng.old0, eng.node, eng.p0, "standupResponse") == RESP["DENY"]])))]),
    upd("WAITING", [("eligible", eligible), ("eligible connected", eligloc)], ch_waiting, extra=lambda eng, st, this, a: setattr(eng, "peer_vals", [("none", lambda eng: z3.IntVal(RESP["NONE"]))]), ptrs=W_PTRS),
    upd("SEARCHING", PREDS[:2], ch_searching, ptrs=S_PTRS),
    upd("LEADING", [], ch_leading, extra=lead_extra, posts=post_leading),
    upd("STANDINGDOWN", [], ch_only("SEARCHING"), extra=lead_extra),
    upd("SYNCHRONIZING", [], ch_only("SEARCHING")), upd("SUBSCRIBING", [], ch_only("SEARCHING")),
    upd("FOLLOWING", [], ch_only("SEARCHING"), posts=post_following),
]

# ---- one message kind at a time through _onMESSAGE
def onmsg(kind, label=None, pre=None, post=None, setup=None, stn=None, want=("return",), **kw):
    def pre_(eng, st, this, args):
        m = args[1]; lv = flv(eng, st, m, "methodLine"); eng.write(st, lv, eng.lit(kind))
        if stn: setstate(eng, st, this, stn)
        eng.msg = eng.rv(m, st); eng.peer_arg = eng.rv(args[0], st)
        st.assume(z3.Implies(eng.peer_arg != 0, listed(eng, st, this, eng.peer_arg))); st.assume(eng.peer_arg == eng.p0)
        eng.old0 = st.copy()
        if pre: pre(eng, st, this, args)
    return Item(label or "_onMESSAGE %s%s" % (kind, " in " + stn if stn else ""), "SQLiteNode::_onMESSAGE", pre=pre_, post=post or (lambda *a: None), setup=setup, want=want, min_obls=0, **kw)
def m_has(eng, k): return has(eng.msg, eng, k)
def m_val(eng, k): return header(eng.msg, eng, k)
siequals = None
def lead_gate(eng):
    eng.on_change = lambda eng, st, this, v: eng.prove(st, Or_([v == state(eng, st, this), never(eng, v, "LEADING", "STANDINGUP")]), "no message makes a node lead or stand up by itself")
def calc(eng, k): return z3.If(m_has(eng, k), eng.wrap(z3.If(S_toll(m_val(eng, k)) < 0x7fffffff, S_toll(m_val(eng, k)), z3.IntVal(0x7fffffff)), Ty("int", w=32, s=1)), 0)
def calcU(eng, k): return z3.If(m_has(eng, k), S_toull(m_val(eng, k)), 0)
def ieq(eng, x, l): return L.lower(eng, x) == eng.lit(l.lower())
def resp_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    q = eng.peer_arg; o = eng.old0
    b0, b1 = pf(eng, o, this, q, "standupResponse"), pf(eng, s, this, q, "standupResponse"); up = state(eng, o, this) == SV_(eng, "STANDINGUP")
    new = And_([b1 == RESP["APPROVE"], b0 != RESP["APPROVE"]])
    eng.prove(s, z3.Implies(new, up), "an approval counts only while standing up")
    eng.prove(s, z3.Implies(new, And_([Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn")])), "an approval counts only from a logged-in, unforked peer")
    eng.prove(s, z3.Implies(new, ieq(eng, m_val(eng, "Response"), "approve")), "only an answer that says approve is an approval")
    eng.prove(s, z3.Implies(b1 != b0, calc(eng, "StateChangeCount") == atom(eng, o, this, "_stateChangeCount")), "an answer to an earlier attempt is ignored")
    ok = And_([up, Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash"), m_has(eng, "Response"), calc(eng, "StateChangeCount") == atom(eng, o, this, "_stateChangeCount")])
    eng.prove(s, z3.Implies(And_([ok, Not_(ieq(eng, m_val(eng, "Response"), "approve"))]), b1 == RESP["DENY"]), "any other answer is a denial")
def node_setup(*more):
    def f(eng):
        lead_gate(eng); eng.contracts["SQLiteNode::_updateSyncPeer"] = sync_peer
        for m in more: m(eng)
    return f
P06_MSG = [onmsg("STANDUP_RESPONSE", setup=lead_gate, post=resp_post)]
# ============================================================ P07 losing the quorum ends leadership
def disc_preds(eng): 
    g = eng.gone
    return [("other full", lambda eng, s, n, p: And_([p != g, full(eng, s, n, p)])), ("other connected", lambda eng, s, n, p: And_([p != g, loggedfull(eng, s, n, p)]))]
def disc_pre(eng, st, this, args):
    eng.gone = eng.rv(args[0], st); eng.preds = disc_preds(eng); eng.old0 = st.copy()
def disc_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; pr = dict(disc_preds(eng)); was = state(eng, o, this); now = state(eng, s, this); SE = SV_(eng, "SEARCHING"); q = eng.gone
    n = lambda t: count(eng, o, t, pr[t])
    # how many peers remain, in the state the code counts in (no peer's login changes before that)
    eng.prove(s, z3.Implies(And_([in_states(eng, was, *LEADISH), 2 * n("other connected") < n("other full")]), now == SE), "a leader that loses contact with too many full peers stops leading at once")
    eng.prove(s, z3.Implies(And_([in_states(eng, was, *LEADISH), 2 * n("other connected") >= n("other full"), q != atom(eng, o, this, "_leadPeer"), q != atom(eng, o, this, "_syncPeer")]), now == was), "a leader that keeps its quorum keeps leading")
    eng.prove(s, z3.Implies(q == atom(eng, o, this, "_leadPeer"), And_([now == SE, atom(eng, s, this, "_leadPeer") == 0])), "a follower that loses its leader forgets it and goes searching")
    eng.prove(s, z3.Implies(q == atom(eng, o, this, "_syncPeer"), And_([now == SE, atom(eng, s, this, "_syncPeer") == 0])), "a synchronizing node that loses its source forgets it and goes searching")
    eng.prove(s, Or_([now == was, now == SE]), "a disconnection leads nowhere but SEARCHING")
fullsub = lambda eng, s, n, p: And_([full(eng, s, n, p), pf(eng, s, n, p, "subscribed")])
def maj_pre(eng, st, this, args): eng.preds = [("full peers", full), ("full followers", fullsub)]; eng.old0 = st.copy()
def maj_post(eng, old, s, this, args, kind, r):
    if kind != "return": return
    eng.prove(s, eng.rv(r, s) == (2 * count(eng, eng.old0, "full followers", fullsub) >= count(eng, eng.old0, "full peers", full)), "the majority test is exactly: at least half the other full peers follow this node")
# ---- _changeState
def enable(eng, st, this, args, n):
    eng.used_contracts.add("SQLite::setCommitEnabled (body verified under P01/P02)")
    v = eng.rv(args[0], st); st.setg("enabled", v)
def cs_out(eng, st, this, args, n):
    eng.prove(st, Not_(st.g("enabled")), "commits are turned off before the last broadcast")
    eng.prove(st, Or_([pf(eng, st, this, eng.p0, "subscribed") == pf(eng, eng.old0, this, eng.p0, "subscribed")]), "followers stay subscribed until the last broadcast")
    outstanding(eng, st, this, args, n)
def cs_setup(eng):
    eng.contracts.pop("SQLiteNode::_changeState"); eng.contracts["SQLite::setCommitEnabled"] = enable; eng.contracts["SQLiteNode::_sendOutstandingTransactions"] = cs_out
    eng.contracts["SQLiteNode::_reconnectAll"] = reconnect_all
    def on_all(eng, st, this, v, sub):
        st.setg("bn", st.g("bn") + 1)
        eng.prove(st, And_([v.f["methodLine"] == eng.lit("STATE"), Not_(sub)]), "every connected peer is told of a state change")
        nw = eng.rv(eng.args0[0], eng.old0)
        eng.prove(st, state(eng, st, this) == nw, "the state told is the state the node is in")
        eng.prove(st, header(v, eng, "State") == sname(nw), "the state change names the new state")
        eng.prove(st, header(v, eng, "Priority") == int2str(eng, atom(eng, st, this, "_priority")), "the state change carries the node's priority")
        eng.prove(st, header(v, eng, "StateChangeCount") == int2str(eng, atom(eng, st, this, "_stateChangeCount")), "and its change counter")
    eng.on_all = on_all; eng.peer_vals = [("false", lambda eng: F)]
def reconnect_all(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_reconnectAll (logs every peer out and shuts its socket down)")
    key = "SQLitePeer.loggedIn"; t = eng.heap_tree(st, key); new = eng.map_leaves(t, lambda x, p: z3.Const(fresh_name("ra"), x.sort())); only_less(eng, st, key, t, new)
    eng.heap_set(st, key, new); st.assume(Not_(pf(eng, st, this, eng.p0, "loggedIn"))); st.setg("downs", st.g("downs") + 1)
def cs_pre(eng, st, this, args):
    st.setg("enabled", z3.Const("g_enabled", B)); st.setg("outsent", z3.IntVal(0)); st.setg("bn", z3.IntVal(0)); eng.old0 = st.copy(); eng.args0 = args
    st.assume(And_([eng.rv(args[0], st) >= 0, eng.rv(args[0], st) <= 8]))
def cs_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; was = state(eng, o, this); nw = eng.rv(args[0], o); now = state(eng, s, this); ch = nw != was
    leaving = And_([in_states(eng, was, "LEADING", "STANDINGDOWN"), Not_(in_states(eng, nw, "LEADING", "STANDINGDOWN"))])
    eng.prove(s, now == nw, "the node is in the state asked for")
    eng.prove(s, s.g("bn") == z3.If(ch, 1, 0), "every change of state is announced exactly once")
    eng.prove(s, z3.Implies(pf(eng, s, this, eng.p0, "loggedIn"), pf(eng, o, this, eng.p0, "loggedIn")), "a change of state logs nobody in")
    eng.prove(s, z3.Implies(ch, atom(eng, s, this, "_stateChangeCount") == eng.wrap(atom(eng, o, this, "_stateChangeCount") + 1, Ty("int", w=32, s=1))) if False else z3.Implies(ch, atom(eng, s, this, "_stateChangeCount") != atom(eng, o, this, "_stateChangeCount")), "every change gets a new number")
    eng.prove(s, z3.Implies(leaving, s.g("outsent") == 1), "a leader broadcasts all it committed before it stops leading")
    eng.prove(s, z3.Implies(leaving, Not_(pf(eng, s, this, eng.p0, "subscribed"))), "nobody stays subscribed to a node that stopped leading")
    eng.prove(s, z3.Implies(And_([leaving, nw == SV_(eng, "SEARCHING")]), Not_(s.g("enabled"))), "a node that stopped leading cannot commit while searching")
    eng.prove(s, z3.Implies(And_([ch, nw != SV_(eng, "SEARCHING")]), s.g("enabled")), "commits are possible again once a node left SEARCHING")
    eng.prove(s, z3.Implies(And_([ch, nw == SV_(eng, "SEARCHING"), Not_(leaving)]), s.g("enabled") == o.g("enabled")), "nothing else turns commits on or off")
    eng.prove(s, z3.Implies(And_([ch, nw == SV_(eng, "LEADING")]), And_([s.g("pops") >= o.g("pops") + 1, atom(eng, s, this, "_lastSentTransactionID") == dbv(eng, s, this)["count"]])), "a new leader broadcasts exactly what is committed from then on")
    eng.prove(s, z3.Implies(And_([ch, Or_([was == SV_(eng, "FOLLOWING"), nw < SV_(eng, "SUBSCRIBING")])]), atom(eng, s, this, "_leadPeer") == 0), "a node that does not follow has no leader")
    eng.prove(s, z3.Implies(And_([ch, was == SV_(eng, "FOLLOWING")]), And_([atom(eng, s, this, "_replicateThread") == 0, qlen(eng, s, this) == 0, atom(eng, s, this, "_replicateThreadShouldExitTime") == 0])), "a node that stopped following has stopped replicating and kept nothing queued")
def qlen(eng, s, this): return field(eng, s, this, "_replicateQueue").f["len"]
CS_ITEM = lambda: Item("_changeState", "SQLiteNode::_changeState", setup=cs_setup, pre=cs_pre, post=cs_post)
P07_ITEMS = [
    Item("_onDisconnect", "SQLiteNode::_onDisconnect", setup=lead_gate, pre=disc_pre, post=disc_post),
    Item("_majoritySubscribed", "SQLiteNode::_majoritySubscribed", pre=maj_pre, post=maj_post),
    CS_ITEM()]
P07 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: list(P07_ITEMS))
P06 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: list(P06_ITEMS) + list(P06_MSG))

# ============================================================ P08 followers apply exactly the leader's commits, in order
def m_content(eng): return eng.msg.f["content"]
zdec = z3.Function("zstd_decompress", Str, Str)
def commit_gate(expected):
    """every commit made while replicating: the next number, with the hash the sender stated"""
    def on_commit(eng, st, this, args):
        v = C.view(eng, st, this); num, h = expected(eng, st)
        eng.prove(st, And_([v["inside"], v["locked"]]), "only a prepared transaction is committed")
        eng.prove(st, v["hash"] == h, "a replicated transaction is committed only with the hash the sender committed it with")
        eng.prove(st, num == v["count"] + 1, "a replicated transaction is committed only as the next commit")
        st.setg("commits", st.g("commits") + 1)
    return on_commit
def write_gate(text):
    def on_write(eng, st, this, args):
        v = C.view(eng, st, this); x = eng.rv(args[0], st)
        eng.prove(st, And_([v["inside"], v["q"] == eng.lit("")]), "a replicated transaction starts empty")
        eng.prove(st, x == zdec(text(eng, st)), "what is applied is the text the sender committed")
    return on_write
def dbarg_pre(eng, st, d):
    for nm, f in C.inv(eng, st, d): st.assume(f)
    cc = C.view(eng, st, d)["count"]; st.assume(And_([cc >= 0, cc < 2**62]))
def hb_pre(eng, st, this, args):
    eng.msg = eng.rv(args[2], st); eng.d = args[0]; dbarg_pre(eng, st, args[0]); st.setg("commits", z3.IntVal(0)); eng.on_write = write_gate(lambda e, s: m_content(e)); eng.old0 = st.copy()
    eng.on_commit = commit_gate(lambda e, s: (calcU(e, "NewCount"), m_val(e, "NewHash")))
def no_commit(eng, s, nm): eng.prove(s, s.g("commits") == 0, nm)
def hb_post(eng, old, s, this, args, kind, p):
    v = C.view(eng, s, args[0]); no_commit(eng, s, "starting to replicate commits nothing")
    if kind != "return": return
    eng.prove(s, v["inside"], "a replicated transaction is open after it was begun")
    eng.prove(s, state(eng, old, this) == SV_(eng, "FOLLOWING"), "only a follower replicates")
def hp_post(eng, old, s, this, args, kind, r):
    v = C.view(eng, s, args[0]); no_commit(eng, s, "preparing commits nothing")
    if kind != "return": return
    ok = eng.rv(r, s)
    eng.prove(s, z3.Implies(ok, And_([v["inside"], v["locked"], v["hash"] != eng.lit("")])), "a replicated transaction is prepared or given up")
    eng.prove(s, z3.Implies(Not_(ok), Not_(v["inside"])), "a replicated transaction that cannot be prepared is rolled back")
def hc_pre(eng, st, this, args):
    eng.d = args[0]; dbarg_pre(eng, st, args[0]); st.setg("commits", z3.IntVal(0)); eng.old0 = st.copy()
    eng.on_commit = commit_gate(lambda e, s: (args[2], eng.rv(args[3], s)))
def hc_post(eng, old, s, this, args, kind, r):
    v, o = C.view(eng, s, args[0]), C.view(eng, old, args[0])
    eng.prove(s, s.g("commits") <= 1, "a replicated transaction is committed at most once")
    if kind == "return":
        ok = eng.rv(r, s) == 0
        eng.prove(s, s.g("commits") == 1, "a replicated transaction that is accepted is committed")
        eng.prove(s, z3.Implies(ok, v["count"] == o["count"] + 1), "a replicated commit makes the follower exactly one commit longer")
        eng.prove(s, z3.Implies(Not_(ok), v["count"] == o["count"]), "a failed commit leaves the follower where it was")
    else: eng.prove(s, s.g("commits") == 0, "a transaction that does not match is never committed")
P08_HANDLE = [
    Item("_handleBeginTransaction", "SQLiteNode::_handleBeginTransaction", pre=hb_pre, post=hb_post, want=("return", "throw")),
    Item("_handlePrepareTransaction", "SQLiteNode::_handlePrepareTransaction", pre=hb_pre, post=hp_post, want=("return", "throw")),
    Item("_handleCommitTransaction", "SQLiteNode::_handleCommitTransaction", pre=hc_pre, post=hc_post, want=("return", "throw")),
]
# ---- _recvSynchronize
def deser(eng, st, this, args, n):
    """SData::deserialize(buffer, length): parses one message from the front of the buffer, returns its size (0 = incomplete)"""
    eng.used_contracts.add("SData::deserialize [trusted: network text boundary; size between 0 and the length given]")
    r = z3.Const(fresh_name("msgsize"), I); rem = eng.rv(args[1], st) if len(args) > 1 else None
    st.assume(And_([r >= 0] + ([z3.Or(r <= rem, r == 0)] if rem is not None else []))); eng.write(st, this, eng.fresh(this.ty, "commitmsg")); 
    return r
def rs_setup(eng):
    eng.contracts["SData::deserialize"] = deser; eng.vocab.append(rs_vocab)
def cur_commit(eng, st):
    k = next((k for k, v in st.locals.items() if isinstance(v, SV) and v.ty is not None and strip(v.ty).n == "SData" and not (isinstance(k, tuple) and k[0] == "tmp") and k != eng.msg_key), None)
    if k is None: raise Unsupported("no message being applied")
    return st.locals[k]
def rs_pre(eng, st, this, args):
    eng.msg = eng.rv(args[1], st); eng.msg_key = getattr(args[1], "root", None); eng.d = db(eng, st, this); st.setg("commits", z3.IntVal(0)); eng.old0 = st.copy()
    st.assume(Not_(C.view(eng, st, eng.d)["inside"]))
    def exp(e, s): m = cur_commit(e, s); mv = m.f["nameValueMap"]; k = e.lit("commitindex"); return z3.If(z3.Select(mv.f["has"], k), S_toull(z3.Select(mv.f["val"], k)), 0), z3.Select(mv.f["val"], e.lit("hash"))
    eng.on_commit = commit_gate(exp); eng.on_write = write_gate(lambda e, s: cur_commit(e, s).f["content"])
def rs_vocab(eng, info):
    if not hasattr(eng, "d"): return []
    d, e = eng.d, info["entry"]; o = eng.old0
    vw = lambda s: C.view(eng, s, d)
    out = [("no transaction open", lambda s: Not_(vw(s)["inside"])), ("not locked", lambda s: Not_(vw(s)["locked"])), ("no hash", lambda s: And_([vw(s)["hash"] == eng.lit(""), vw(s)["q"] == eng.lit("")])),
           ("count", lambda s: vw(s)["count"] == C.view(eng, o, d)["count"] + s.g("commits")), ("commits>=0", lambda s: s.g("commits") >= 0), ("small", lambda s: vw(s)["count"] < 2**62 + s.g("commits")), ("state", lambda s: state(eng, s, eng.node) == state(eng, o, eng.node))]
    for k in info["ints"]: out.append(("remaining", lambda s, k=k: s.locals[k] == eng.wrap(e.locals[k] - s.g("commits"), Ty("int", w=32, s=1)))); out.append(("remaining2", lambda s, k=k: s.locals[k] == e.locals[k] - s.g("commits")))
    return out
def rs_post(eng, old, s, this, args, kind, p):
    v, o = C.view(eng, s, eng.d), C.view(eng, old, eng.d)
    eng.prove(s, And_([Not_(v["inside"]), Not_(v["locked"])]), "synchronizing leaves no transaction open, whatever failed")
    if kind != "return":
        eng.prove(s, And_([v["count"] <= o["count"] + s.g("commits"), v["count"] + 1 >= o["count"] + s.g("commits")]), "every commit synchronized counts, except one that failed"); return
    eng.prove(s, v["count"] == o["count"] + s.g("commits"), "every commit synchronized counts")
    eng.prove(s, s.g("commits") == calc(eng, "NumCommits"), "synchronizing succeeds only if every commit announced was committed")
P08_RECV = [Item("_recvSynchronize", "SQLiteNode::_recvSynchronize", setup=rs_setup, pre=rs_pre, post=rs_post, want=("return", "throw"))]

# ---- _replicate: the replication thread
def scoped(eng):
    def ctor(e, st, n, ty): return e.fresh(ty, "scope")
    eng.contracts["SQLitePool::getIndex"] = C.nothing("SQLitePool::getIndex", "verified under P15"); eng.contracts["SQLitePool::getBase"] = None or eng.contracts.get("SQLitePool::getBase")
    eng.contracts.pop("SQLitePool::getBase", None)
    def dbget(e, st, this, args, n):
        e.used_contracts.add("SQLiteScopedHandle::db [trusted here: a pool handle of its own; exclusivity is P15]")
        t = strip(e.ty(n)); lv = e.objlv(e.hd, t); return lv
    eng.contracts["SQLiteScopedHandle::db"] = dbget
    eng.contracts["SQLiteScopedHandle::SQLiteScopedHandle"] = C.nothing("SQLiteScopedHandle", "takes a pool handle for its lifetime")
    eng.contracts["SQLiteScopedHandle::~SQLiteScopedHandle"] = C.nothing("~SQLiteScopedHandle", "returns it")
def handle_ty(eng, node): return next(f[1].to for f in eng.prog.all_fields(strip(node.ty).key) if f[0] == "_db")
def rep_setup(eng):
    scoped(eng); eng.vocab.append(rep_vocab)
    def wait(e, st, this, args, n):
        e.used_contracts.add("std::condition_variable::wait [trusted: holds the lock again when it returns; other threads may have changed what the lock guards]")
        for f in ("_replicateQueue", "_replicateThreadShouldExitTime"): lv = e.fld(e.rep_this, f); e.write(st, lv, e.fresh(lv.ty, f))
        return e.fresh(strip(e.ty(n)), "waited") if strip(e.ty(n)).k != "void" else None
    for w in ("wait", "wait_for", "wait_until"): eng.contracts["std::condition_variable::" + w] = wait
    eng.on_commit = commit_gate(lambda e, s: (rcU(e, s, "NewCount"), rcH(e, s, "NewHash")))
    def on_write(e, st, this, args):
        write_gate(lambda e2, s2: rcmd(e2, s2).f["content"])(e, st, this, args); st.setg("writes", st.g("writes") + 1)
    eng.on_write = on_write
def rcmd(eng, s): return next(v for k, v in s.locals.items() if isinstance(v, SV) and v.ty is not None and strip(v.ty).n == "SData" and not (isinstance(k, tuple) and k[0] == "tmp") and eng.local_names.get(k, "command") == "command") if hasattr(eng, "local_names") else cur_commit(eng, s)
def rcH(eng, s, k): return header(rcmd(eng, s), eng, k)
def rcU(eng, s, k): m = rcmd(eng, s); return z3.If(has(m, eng, k), S_toull(header(m, eng, k)), 0)
def rep_pre(eng, st, this, args):
    eng.rep_this = this
    eng.hd = z3.Int("replication_handle"); st.assume(eng.hd > 0); eng.d = eng.objlv(eng.hd, handle_ty(eng, this)); eng.msg_key = None
    dbarg_pre(eng, st, eng.d); st.setg("commits", z3.IntVal(0)); st.setg("writes", z3.IntVal(0))
    st.assume(Not_(C.view(eng, st, eng.d)["inside"])); eng.old0 = st.copy()
def rep_vocab(eng, info):
    d, e = eng.d, info["entry"]; o = eng.old0; vw = lambda s: C.view(eng, s, d)
    return [("no transaction open", lambda s: And_([Not_(vw(s)["inside"]), Not_(vw(s)["locked"])])), ("no hash", lambda s: And_([vw(s)["hash"] == eng.lit(""), vw(s)["q"] == eng.lit("")])),
        ("count", lambda s: vw(s)["count"] == C.view(eng, o, d)["count"] + s.g("commits")), ("small", lambda s: And_([vw(s)["count"] >= 0, vw(s)["count"] < 2**62])), ("all committed", lambda s: s.g("commits") == s.g("writes")), ("commits>=0", lambda s: s.g("commits") >= 0)]
def rep_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    v = C.view(eng, s, eng.d)
    eng.prove(s, And_([Not_(v["inside"]), Not_(v["locked"])]), "replication ends with no transaction open")
    eng.prove(s, s.g("commits") == s.g("writes"), "everything replication applied is committed, one transaction each")
    eng.prove(s, v["count"] == C.view(eng, old, eng.d)["count"] + s.g("commits"), "each replicated transaction makes the follower one commit longer")
P08_REP = [Item("_replicate", "SQLiteNode::_replicate", setup=rep_setup, pre=rep_pre, post=rep_post, want=("return", "throw"))]

# ---- messages that lead to commits
def recv_sync(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_recvSynchronize (verified by its own item)")
    o = eng.old0; q = eng.rv(args[0], st)
    for nm, f in getattr(eng, "recv_gate", lambda *a: [])(eng, st, this, q): eng.prove(st, f, nm)
    st.setg("recvs", st.g("recvs") + 1)
    cl = flv(eng, st, db(eng, st, this), "_sharedData.commitCount"); cur = aval(eng.read(st, cl)); k = z3.Const(fresh_name("synced"), I); st.assume(And_([k >= cur, k < 2**62])); setatom(eng, st, db(eng, st, this), "_sharedData.commitCount", k)
    b = z3.Const(fresh_name("recv_throws"), B); s2 = st.copy(); s2.assume(b); eng.exits[-1].append(("throw", s2, Exc("SException"))); st.assume(Not_(b)); st.setg("recv_ok", T)
def msg_pre(eng, st, this, args):
    st.setg("recvs", z3.IntVal(0)); st.setg("recv_ok", F); st.setg("dies", z3.IntVal(0)); st.setg("standups", z3.IntVal(0)); st.setg("syncs", z3.IntVal(0)); st.setg("die_forked", F); eng.old0 = st.copy()
def die_if(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_dieIfForkedFromCluster (verified under P09)"); st.setg("dies", st.g("dies") + 1); eng.last_die = True
    st.setg("die_forked", pf(eng, st, this, eng.p0, "forked"))
def reconnect_one(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_reconnectPeer (logs that peer out and shuts its socket down)")
    q = eng.rv(args[0], st); lv = peer(eng, q, this); setatom(eng, st, lv, "loggedIn", F); st.setg("downs", st.g("downs") + z3.If(q == eng.p0, 1, 0))
def standup_resp(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_sendStandupResponse (verified under P10)"); st.setg("standups", st.g("standups") + 1)
    change_state(eng, st, this, [z3.If(z3.Const(fresh_name("ssr"), B), state(eng, st, this), z3.If(z3.Const(fresh_name("ssr2"), B), z3.IntVal(SV_(eng, "SEARCHING")), z3.IntVal(SV_(eng, "STANDINGDOWN"))))], n)
def queue_sync(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_queueSynchronize (verified under P03)"); st.setg("syncs", st.g("syncs") + 1)
    i = next(k for k, a in enumerate(args) if C.is_rec(a, "SData")); v = eng.read(st, args[i]); new = eng.fresh(args[i].ty, "resp"); eng.write(st, args[i], new.set("methodLine", v.f["methodLine"]))
    if getattr(eng, "on_qs", None): eng.on_qs(eng, st, args)
    b = z3.Const(fresh_name("qs_throws"), B); s2 = st.copy(); s2.assume(b); eng.exits[-1].append(("throw", s2, Exc("SException"))); st.assume(Not_(b))
def msg_setup(eng):
    c = eng.contracts; c["SQLiteNode::_recvSynchronize"] = recv_sync; c["SQLiteNode::_dieIfForkedFromCluster"] = die_if; c["SQLiteNode::_reconnectPeer"] = reconnect_one; c["SQLiteNode::_reconnectAll"] = reconnect_all
    c["SQLiteNode::_sendStandupResponse"] = standup_resp; c["SQLiteNode::_updateSyncPeer"] = sync_peer; c["SQLiteNode::_queueSynchronize"] = queue_sync
    lead_gate(eng)
def gate_of(stn, who):
    def f(eng, st, this, q): 
        o = eng.old0
        return [("commits are taken from a message only in " + stn, state(eng, o, this) == SV_(eng, stn)), ("commits are taken only from the peer asked for them", And_([q == eng.peer_arg, q == atom(eng, o, this, who)])),
            ("commits are taken only from a logged-in, unforked peer", And_([pf(eng, o, this, q, "loggedIn"), Not_(pf(eng, o, this, q, "forked"))]))]
    return f
def sr_setup(eng):
    msg_setup(eng); eng.recv_gate = gate_of("SYNCHRONIZING", "_syncPeer")
    def ch(e, st, this, v):
        e.prove(st, never(e, v, "LEADING", "STANDINGUP", "FOLLOWING", "SUBSCRIBING"), "synchronizing leads only to WAITING or SEARCHING")
        lp = eng.peer_arg
        e.prove(st, z3.Implies(enters(e, v, "WAITING"), And_([st.g("recv_ok"), dbv(e, st, this)["count"] == pf(e, st, this, lp, "commitCount")])), "a node is done synchronizing only when it has every commit of its source")
    eng.on_change = ch
def sa_setup(eng):
    msg_setup(eng); eng.recv_gate = gate_of("SUBSCRIBING", "_leadPeer")
    eng.on_change = lambda e, st, this, v: (e.prove(st, z3.Implies(enters(e, v, "FOLLOWING"), st.g("recv_ok")), "a node follows only after it committed everything its leader sent to catch it up"), e.prove(st, in_states(e, v, "FOLLOWING", "SEARCHING"), "subscribing leads only to FOLLOWING or SEARCHING"))
def none_recv(eng, old, s, this, args, kind, p): pass
def tr_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q0, q1 = field(eng, o, this, "_replicateQueue"), field(eng, s, this, "_replicateQueue"); n0, n1 = q0.f["len"], q1.f["len"]
    eng.prove(s, z3.Implies(n1 != n0, And_([n1 == n0 + 1, state(eng, o, this) == SV_(eng, "FOLLOWING"), Not_(pf(eng, o, this, eng.peer_arg, "forked")), pf(eng, o, this, eng.peer_arg, "loggedIn")])), "a transaction is queued for replication only while following, from a logged-in, unforked peer")
    i = z3.Int("qi"); eq = eng.equal(eng.select(q1.f["el"], i).f["second"], eng.select(q0.f["el"], i).f["second"]) if False else T
    ok = And_([state(eng, o, this) == SV_(eng, "FOLLOWING"), Not_(pf(eng, o, this, eng.peer_arg, "forked")), pf(eng, o, this, eng.peer_arg, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash"), atom(eng, o, this, "_replicateThreadShouldExitTime") == 0])
    eng.prove(s, z3.Implies(ok, n1 == n0 + 1), "a follower queues every transaction it is sent")
    last = eng.select(q1.f["el"], n1 - 1).f["second"] if n1 is not None else None
    eng.prove(s, z3.Implies(n1 != n0, And_([last.f["methodLine"] == eng.msg.f["methodLine"], last.f["content"] == eng.msg.f["content"], z3.Select(last.f["nameValueMap"].f["has"], eng.lit("newhash")) == m_has(eng, "NewHash"), z3.Select(last.f["nameValueMap"].f["val"], eng.lit("newhash")) == m_val(eng, "NewHash"), z3.Select(last.f["nameValueMap"].f["val"], eng.lit("newcount")) == m_val(eng, "NewCount")])), "what is queued is the message received, at the end of the queue")
    k = z3.Int("qany"); 
    eng.prove(s, z3.Implies(And_([k >= 0, k < n0]), And_([eng.select(q1.f["el"], k).f["second"].f["content"] == eng.select(q0.f["el"], k).f["second"].f["content"]])), "what was queued before stays ahead of it")
P08_MSG = [onmsg("SYNCHRONIZE_RESPONSE", setup=sr_setup, pre=msg_pre), onmsg("SUBSCRIPTION_APPROVED", setup=sa_setup, pre=msg_pre), onmsg("TRANSACTION", setup=msg_setup, pre=msg_pre, post=tr_post)]
P08 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: P08_HANDLE + P08_RECV + P08_REP + P08_MSG)

# ============================================================ P09 forked peers
def fork_gate_pre(eng, st, this, args):
    eng.msg = eng.rv(args[1], st); eng.peer_arg = eng.rv(args[0], st); st.assume(eng.peer_arg == eng.p0); st.assume(pf(eng, st, this, eng.p0, "forked"))
    m = eng.msg.f["methodLine"]; st.assume(And_([Not_(ieq(eng, m, "PING")), Not_(ieq(eng, m, "PONG"))])); msg_pre(eng, st, this, args)
def fork_gate_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.p0
    same = [state(eng, s, this) == state(eng, o, this), s.g("sn") == o.g("sn"), s.g("recvs") == 0, s.g("standups") == 0, s.g("chgn") == o.g("chgn")]
    for f_ in ("standupResponse", "priority", "state", "loggedIn", "subscribed", "commitCount", "permaFollower", "forked"): same.append(pf(eng, s, this, q, f_) == pf(eng, o, this, q, f_))
    same.append(field(eng, s, this, "_replicateQueue").f["len"] == field(eng, o, this, "_replicateQueue").f["len"])
    eng.prove(s, And_(same), "a message from a forked peer changes nothing and is not answered")
def fork_gate_setup(eng):
    msg_setup(eng); eng.on_change = lambda e, st, this, v: e.prove(st, F, "a message from a forked peer changes nothing")
fkfull = lambda eng, s, n, p: And_([full(eng, s, n, p), pf(eng, s, n, p, "forked")])
def die_pre(eng, st, this, args): eng.preds = [("full peers", full), ("forked full peers", fkfull)]; eng.old0 = st.copy()
def die_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; n = count(eng, o, "full peers", full) + z3.If(atom(eng, o, this, "_configuredPriority") != 0, 1, 0); k = count(eng, o, "forked full peers", fkfull)
    eng.prove(s, 2 * k < n + 1 if False else k < (n + 1) / 2, "a node forked from half the cluster or more does not go on")
def die_all(eng, s, n): pass
usable = lambda eng, s, n, p: And_([pf(eng, s, n, p, "loggedIn"), Not_(pf(eng, s, n, p, "forked")), pf(eng, s, n, p, "commitCount") > dbv(eng, s, n)["count"]])
def usp_setup(eng): eng.contracts.pop("SQLiteNode::_updateSyncPeer", None)
def usp_pre(eng, st, this, args):
    eng.old0 = st.copy(); o = eng.old0
    eng.ptr_props = [("only usable", lambda e, s, n, v, i: z3.Implies(v != 0, And_([usable(e, o, n, v)])))]
    eng.pair_props = [("some source is found", lambda e, s, n, vs, i: z3.Implies(And_([seen(e, i), usable(e, o, n, e.p0)]), Or_([v != 0 for v in vs]))),
        ("no leader taken", lambda e, s, n, vs, i: T)]
def usp_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; sp = atom(eng, s, this, "_syncPeer")
    eng.prove(s, z3.Implies(sp != 0, usable(eng, o, this, sp)), "commits are fetched only from a logged-in, unforked peer that has more of them")
    eng.prove(s, z3.Implies(usable(eng, o, this, eng.p0), sp != 0), "if some peer can provide missing commits, one is chosen")
def login_setup(eng): msg_setup(eng)
def login_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.p0; cc = calcU(eng, "CommitCount"); mine = dbv(eng, o, this)["count"]; h = m_val(eng, "Hash")
    acc = And_([pf(eng, s, this, q, "loggedIn"), Not_(pf(eng, o, this, q, "loggedIn"))])
    known_ = And_([h != eng.lit(""), cc <= mine])
    g = eng.getc if hasattr(eng, "getc") else []
    eng.prove(s, z3.Implies(acc, And_([m_has(eng, "Priority"), m_has(eng, "State"), m_has(eng, "Version"), m_has(eng, "CommitCount"), m_has(eng, "Hash")])), "a login is complete or refused")
    eng.prove(s, z3.Implies(And_([acc, known_]), And_([s.g("lookups") == 1, s.g("lk_ix") == cc, s.g("lk_hash") == h])), "a peer whose newest commit differs from ours of the same number is not logged in")
    eng.prove(s, z3.Implies(And_([s.g("lookups") == 1, s.g("lk_hash") != h, Not_(pf(eng, o, this, q, "forked")), Not_(pf(eng, o, this, q, "loggedIn"))]), And_([pf(eng, s, this, q, "forked"), s.g("dies") == 1, s.g("die_forked")])), "such a peer is marked forked, and counted among the forked")
    pr = atom(eng, o, this, "_priority"); same = And_([calc(eng, "Priority") == pr, pr != -1, pr != 0, pr != 1])
    eng.prove(s, z3.Implies(acc, Not_(same)), "a peer with this node's own priority is not logged in")
    eng.prove(s, z3.Implies(acc, And_([pf(eng, s, this, q, "priority") == calc(eng, "Priority"), pf(eng, s, this, q, "permaFollower") == (calc(eng, "Priority") == 0)])), "a login records the peer's priority and whether it is a permafollower")
def login_pre(eng, st, this, args):
    msg_pre(eng, st, this, args); st.setg("lookups", z3.IntVal(0)); st.setg("lk_ix", z3.IntVal(0)); st.setg("lk_hash", eng.lit("")); eng.old0 = st.copy()
    def gc(e, st2, this2, a, n):
        e.used_contracts.add("SQLite::getCommit [trusted: the journal row of that number, if any]")
        r = z3.Const(fresh_name("getCommit"), B); i = e.rv(a[0], st2); hv_ = z3.If(r, jhash(i), e.lit(""))
        for k, f in ((1, jquery), (2, jhash)):
            if k < len(a) and isinstance(a[k], PtrTo): e.write(st2, a[k].lv, z3.If(r, f(i), e.lit("")))
        st2.setg("lookups", st2.g("lookups") + 1); st2.setg("lk_ix", i); st2.setg("lk_hash", hv_); return r
    eng.contracts["SQLite::getCommit"] = gc
def forked_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.p0; ok = And_([Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash")])
    eng.prove(s, z3.Implies(ok, And_([pf(eng, s, this, q, "forked"), s.g("dies") == 1, s.g("die_forked")])), "a peer that says it is forked from us is believed and counted")
    eng.prove(s, z3.Implies(And_([ok, q == atom(eng, o, this, "_leadPeer")]), And_([atom(eng, s, this, "_leadPeer") == 0, state(eng, s, this) == SV_(eng, "SEARCHING")])), "a forked leader is not followed")
    eng.prove(s, z3.Implies(And_([ok, q == atom(eng, o, this, "_syncPeer")]), atom(eng, s, this, "_syncPeer") == 0), "a forked peer is not synchronized from")
def mism_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.p0; ok = And_([Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash"), state(eng, o, this) == SV_(eng, "SYNCHRONIZING"), Or_([m_has(eng, "hashMismatchValue"), m_has(eng, "hashMismatchNumber")])])
    eng.prove(s, z3.Implies(ok, And_([pf(eng, s, this, q, "forked"), s.g("dies") == 1, s.g("die_forked"), s.g("recvs") == 0])), "a source that reports a hash mismatch is marked forked, counted, and nothing is taken from it")
P09_ITEMS = [
    Item("_onMESSAGE from a forked peer", "SQLiteNode::_onMESSAGE", setup=fork_gate_setup, pre=fork_gate_pre, post=fork_gate_post),
    Item("_dieIfForkedFromCluster", "SQLiteNode::_dieIfForkedFromCluster", pre=die_pre, post=die_post),
    Item("_updateSyncPeer", "SQLiteNode::_updateSyncPeer", setup=usp_setup, pre=usp_pre, post=usp_post),
    onmsg("LOGIN", setup=login_setup, pre=login_pre, post=login_post),
    onmsg("FORKED", setup=msg_setup, pre=msg_pre, post=forked_post),
    onmsg("SYNCHRONIZE_RESPONSE", label="_onMESSAGE SYNCHRONIZE_RESPONSE with a mismatch", setup=msg_setup, pre=msg_pre, post=mism_post),
    Item("_sendToPeer", "SQLiteNode::_sendToPeer", post=one_post),
    Item("_sendToAllPeers", "SQLiteNode::_sendToAllPeers", setup=all_setup, pre=all_pre, post=all_post),
]
P09 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: list(P09_ITEMS))
# ============================================================ P10 votes on who may lead
def sr_peer(eng, st): return eng.rv(eng.args0[0], st)
def ssr_setup(eng):
    eng.contracts.pop("SQLiteNode::_sendStandupResponse", None); eng.contracts["SQLiteNode::_reconnectAll"] = reconnect_all
    def ch(e, st, this, v):
        o = e.old0; q = e.voter; was = state(e, o, this); hi = pf(e, o, this, q, "priority") > atom(e, o, this, "_priority")
        e.prove(st, z3.Implies(v != state(e, st, this), And_([in_states(e, was, *LEADISH), Not_(pf(e, o, this, q, "permaFollower"))])), "a request to lead moves only a node that leads or is about to")
        e.prove(st, z3.Implies(v != state(e, st, this), Or_([And_([hi, was == SV_(e, "STANDINGUP"), enters(e, v, "SEARCHING")]), And_([hi, was == SV_(e, "LEADING"), enters(e, v, "STANDINGDOWN")]), And_([Not_(hi), enters(e, v, "SEARCHING"), Not_(has_majority(e, o))])])), "a leader gives way to a higher priority by standing down, and otherwise only when it lost its majority")
    eng.on_change = ch
def has_majority(eng, o): return 2 * count(eng, o, "full followers", fullsub) >= count(eng, o, "full peers", full)
def majority(eng, st, this, args, n):
    eng.used_contracts.add("SQLiteNode::_majoritySubscribed (contract verified under P07)"); return has_majority(eng, st)
def contender(eng, s, n, p): return And_([p != eng.voter, leadish(eng, s, n, p)])
def ssr_pre(eng, st, this, args):
    eng.contracts["SQLiteNode::_majoritySubscribed"] = majority
    eng.voter = eng.rv(args[0], st); eng.plog = eng.voter; eng.rq = eng.rv(args[1], st); st.assume(listed(eng, st, this, eng.voter)); eng.preds = [("full peers", full), ("full followers", fullsub)]; eng.old0 = st.copy()
    eng.reach_props = [("no contender", lambda s: Not_(contender(eng, eng.old0, this, eng.p0)))]
def ssr_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.voter; R = gheader(eng, s, "Response"); yes = And_([s.g("sn") > o.g("sn"), ieq(eng, R, "approve")]); f = pf(eng, o, this, q, "forked"); was = state(eng, o, this); pm = pf(eng, o, this, q, "permaFollower")
    sent = Not_(f); lead = in_states(eng, was, *LEADISH); i = z3.Int("ci"); v = pl_(eng, o, this)
    eng.prove(s, z3.Implies(sent, And_([s.g("sm_method") == eng.lit("STANDUP_RESPONSE"), s.g("sn") >= o.g("sn") + 1])), "every request to lead is answered, unless the peer is forked")
    eng.prove(s, z3.Implies(And_([sent, Not_(lead)]), s.g("sn") == o.g("sn") + 1), "and answered once")
    eng.prove(s, z3.Implies(And_([sent, ieq(eng, R, "approve")]), Not_(pm)), "a permafollower is never approved as leader")
    eng.prove(s, z3.Implies(And_([sent, ieq(eng, R, "approve")]), Not_(lead)), "a node that leads, or is standing up or down, approves nobody")
    eng.prove(s, z3.Implies(And_([sent, ieq(eng, R, "approve")]), Not_(contender(eng, o, this, eng.p0))), "nobody is approved while another peer leads or is standing up or down")
    some = z3.Exists([i], And_([i >= 0, i < v.f["len"], contender(eng, o, this, z3.Select(v.f["el"], i))]))
    eng.prove(s, z3.Implies(And_([sent, Not_(pm), Not_(lead)]), Or_([ieq(eng, R, "approve"), some])), "a request nobody contests is approved")
    eng.prove(s, z3.Implies(sent, gheader(eng, s, "StateChangeCount") == z3.If(has(eng.rq, eng, "StateChangeCount"), header(eng.rq, eng, "StateChangeCount"), eng.lit(""))), "the answer names the attempt it answers")
    hi = pf(eng, o, this, q, "priority") > atom(eng, o, this, "_priority"); now = state(eng, s, this)
    eng.prove(s, z3.Implies(And_([Not_(pm), hi, was == SV_(eng, "LEADING")]), now == SV_(eng, "STANDINGDOWN")), "a leader stands down for a peer of higher priority")
    eng.prove(s, z3.Implies(And_([Not_(pm), hi, was == SV_(eng, "STANDINGUP")]), now == SV_(eng, "SEARCHING")), "a node standing up gives way to a peer of higher priority")
    eng.prove(s, z3.Implies(Or_([pm, Not_(lead)]), now == was), "answering otherwise changes no state")
def st_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.peer_arg; ok = And_([Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash"), m_has(eng, "State"), m_has(eng, "Priority")]); to = sfrom(m_val(eng, "State")); fr = pf(eng, o, this, q, "state")
    eng.prove(s, z3.Implies(ok, And_([pf(eng, s, this, q, "priority") == calc(eng, "Priority"), pf(eng, s, this, q, "permaFollower") == (calc(eng, "Priority") == 0), pf(eng, s, this, q, "state") == to])), "a peer's announced state and priority are believed")
    eng.prove(s, z3.Implies(And_([ok, to != fr, to == SV_(eng, "SEARCHING")]), Not_(pf(eng, s, this, q, "subscribed"))), "a peer that goes searching is no longer a follower")
    eng.prove(s, z3.Implies(ok, s.g("standups") == z3.If(And_([to != fr, to == SV_(eng, "STANDINGUP")]), 1, 0)), "a peer that starts standing up is answered once")
    eng.prove(s, z3.Implies(And_([ok, s.g("standups") == 0]), state(eng, s, this) == state(eng, o, this)), "a peer's announcement by itself does not change this node's state")
def li_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.peer_arg; acc = And_([pf(eng, s, this, q, "loggedIn"), Not_(pf(eng, o, this, q, "loggedIn"))])
    eng.prove(s, z3.Implies(acc, s.g("standups") == z3.If(sfrom(m_val(eng, "State")) == SV_(eng, "STANDINGUP"), 1, 0)), "a peer that logs in while standing up is answered")
def sub_post(eng, old, s, this, args, kind, p):
    o = eng.old0; q = eng.peer_arg; new = And_([pf(eng, s, this, q, "subscribed"), Not_(pf(eng, o, this, q, "subscribed"))])
    eng.prove(s, z3.Implies(new, And_([state(eng, o, this) == SV_(eng, "LEADING"), Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn")])), "only a leader takes followers, and only logged-in, unforked ones")
    eng.prove(s, z3.Implies(new, And_([s.g("syncs") == 1, s.g("sn") == o.g("sn") + 1, s.g("sm_method") == eng.lit("SUBSCRIPTION_APPROVED")])), "a new follower is first sent every commit it lacks")
    if kind != "return": return
    ok = And_([state(eng, o, this) == SV_(eng, "LEADING"), Not_(pf(eng, o, this, q, "forked")), pf(eng, o, this, q, "loggedIn"), m_has(eng, "CommitCount"), m_has(eng, "Hash")])
    eng.prove(s, z3.Implies(And_([ok, s.g("resets") == o.g("resets"), s.g("downs") == o.g("downs")]), pf(eng, s, this, q, "subscribed")), "a peer told it may follow is sent every later transaction")
def sub_pre(eng, st, this, args):
    msg_pre(eng, st, this, args); eng.old0 = st.copy()
    def on_qs(e, s, a):
        d = next(x for x in a if C.is_rec(x, "SQLite")); 
        e.prove(s, And_([bool_arg(e, s, a), d.same(db(e, s, this)) if hasattr(d, "same") else T]), "a new follower is caught up completely, not in part")
        e.prove(s, pf(e, s, this, e.p0, "subscribed") == pf(e, e.old0, this, e.p0, "subscribed"), "no transaction goes to a new follower before it was caught up")
    eng.on_qs = on_qs
def bool_arg(e, s, a): return e.rv(a[4], s)
P10_ITEMS = [
    Item("_sendStandupResponse", "SQLiteNode::_sendStandupResponse", setup=ssr_setup, pre=ssr_pre, post=ssr_post),
    onmsg("STATE", setup=msg_setup, pre=msg_pre, post=st_post),
    onmsg("LOGIN", label="_onMESSAGE LOGIN of a peer standing up", setup=msg_setup, pre=msg_pre, post=li_post),
    Item("_majoritySubscribed", "SQLiteNode::_majoritySubscribed", pre=maj_pre, post=maj_post),
]
P10 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: list(P10_ITEMS))
P03_SUB = [onmsg("SUBSCRIBE", setup=msg_setup, pre=sub_pre, post=sub_post)]
P03["items"] = (lambda f: lambda prog: f(prog) + P03_SUB)(P03["items"])
# ---- _queueSynchronize: what a lagging peer is sent
ser_text = z3.Function("commit_text", I, Str); ser_all = z3.Function("commits_text", I, Str)
def qs_setup(eng):
    eng.contracts.pop("SQLiteNode::_queueSynchronize", None)
    def ser(e, st, this, args, n):
        e.used_contracts.add("SData::serialize [trusted: the text of the message, verified under the HTTP framing property]")
        v = e.rv(this, st); k = st.g("ser"); num = e.pc0 + k + 1
        e.prove(st, v.f["methodLine"] == e.lit("COMMIT"), "what is queued are commits")
        e.prove(st, And_([has(v, e, "CommitIndex"), header(v, e, "CommitIndex") == int2str(e, num)]), "the commits sent are consecutive, starting with the first one the peer lacks")
        e.prove(st, And_([has(v, e, "Hash"), header(v, e, "Hash") == jhash(num), v.f["content"] == jquery(num)]), "each is sent with the text and hash it has in the journal")
        e.axiom(ser_all(k + 1) == cat(e, ser_all(k), ser_text(k))) if False else st.assume(ser_all(k + 1) == cat(e, ser_all(k), ser_text(k)))
        st.setg("ser", k + 1); return ser_text(k)
    eng.contracts["SData::serialize"] = ser; eng.vocab.append(qs_vocab)
def qs_pre(eng, st, this, args):
    st.setg("ser", z3.IntVal(0)); q = eng.rv(args[1], st); eng.pc0 = pf(eng, st, eng.node, q, "commitCount"); eng.resp = args[3]; eng.qdb = args[2]
    st.assume(q > 0); dbarg_pre(eng, st, args[2]); st.assume(eng.pc0 < 2**62)
    ls = atom(eng, st, eng.node, "_lastSentTransactionID"); st.assume(And_([ls >= 0, ls < 2**62]))
    st.assume(ser_all(0) == field(eng, st, eng.resp, "content")); eng.old0 = st.copy()
def qs_vocab(eng, info):
    return [("serialised so far", lambda s: field(eng, s, eng.resp, "content") == ser_all(s.g("ser")))] + [("one per row", lambda s, k=k: s.locals[k] == s.g("ser")) for k in info["ints"]] + [("same headers", lambda s: eng.equal(field(eng, s, eng.resp, "nameValueMap"), field(eng, info["entry"], eng.resp, "nameValueMap")))]
def qs_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0; q = eng.rv(args[1], o); nd = eng.node; pc = eng.pc0; mine = C.view(eng, o, args[2])["count"]; r = eng.rv(eng.resp, s); all_ = eng.rv(args[4], o); r0 = eng.rv(eng.resp, o)
    ph = aval(pf(eng, o, nd, q, "hash")); st_ = state(eng, o, nd)
    mism = And_([pc != 0, jhash(pc) != ph]); tgt = z3.If(in_states(eng, st_, "LEADING", "STANDINGDOWN"), atom(eng, o, nd, "_lastSentTransactionID"), mine)
    n = s.g("ser"); C_ = lambda k: And_([has(r, eng, k)])
    eng.prove(s, pc <= mine, "a peer that has more commits is refused")
    eng.prove(s, z3.Implies(mism, And_([C_("hashMismatchValue"), header(r, eng, "hashMismatchValue") == jhash(pc), header(r, eng, "hashMismatchNumber") == int2str(eng, pc), n == 0])), "a peer whose last commit differs is told so, and sent no commit")
    eng.prove(s, z3.Implies(And_([Not_(mism), Not_(has(r0, eng, "hashMismatchValue"))]), Not_(C_("hashMismatchValue"))), "a peer that agrees is not told it differs")
    ok = And_([Not_(mism), pc <= tgt])
    eng.prove(s, z3.Implies(And_([ok, all_]), n == tgt - pc), "a new follower is sent every commit up to the last one broadcast")
    eng.prove(s, z3.Implies(And_([ok, Not_(all_), pc < tgt]), And_([n >= 1, n <= tgt - pc])), "a synchronizing peer makes progress, never beyond what it may be sent")
    eng.prove(s, z3.Implies(ok, And_([C_("NumCommits"), header(r, eng, "NumCommits") == int2str(eng, n)])), "the number of commits announced is the number sent")
    eng.prove(s, field(eng, s, eng.resp, "content") == ser_all(n), "nothing but those commits is sent")
P03_QS = [Item("_queueSynchronize", "SQLiteNode::_queueSynchronize", setup=qs_setup, pre=qs_pre, post=qs_post, want=("return", "throw"))]
P03["items"] = (lambda f: lambda prog: f(prog) + P03_QS)(P03["items"])

# ============================================================ P11 priorities
def sp_change(e, st, this, v):
    o = e.old0; new = e.rv(e.args0[0], o); was = state(e, o, this)
    e.prove(st, Or_([And_([was == SV_(e, "LEADING"), enters(e, v, "STANDINGDOWN")]), And_([was == SV_(e, "FOLLOWING"), enters(e, v, "SEARCHING")])]), "a new priority makes a leader stand down or a follower search, nothing else")
def sp_setup(eng):
    eng.on_change = sp_change
    def on_all(e, st, this, v, sub):
        st.setg("bn", st.g("bn") + 1); o = e.old0; new = e.rv(e.args0[0], o)
        e.prove(st, And_([v.f["methodLine"] == e.lit("STATE"), Not_(sub), header(v, e, "Priority") == int2str(e, new), header(v, e, "State") == sname(state(e, o, this)), header(v, e, "StateChangeCount") == int2str(e, atom(e, o, this, "_stateChangeCount"))]), "every connected peer is told the new priority, with the node's state")
    eng.on_all = on_all
fullp = ("full peers", full)
def sp_pre(eng, st, this, args):
    st.setg("bn", z3.IntVal(0)); eng.args0 = args; eng.old0 = st.copy(); eng.preds = [fullp]; new = eng.rv(args[0], st); o = eng.old0
    eng.reach_props = [("no conflict", lambda s: Not_(And_([new > 0, pf(eng, o, this, eng.p0, "loggedIn"), pf(eng, o, this, eng.p0, "priority") == new])))]
    follows = lambda p: And_([pf(eng, o, this, p, "loggedIn"), pf(eng, o, this, p, "priority") > new, pf(eng, o, this, p, "state") == SV_(eng, "FOLLOWING")])
    eng.ptr_props = [("noticed", lambda e, s, n, v, i: z3.Implies(And_([seen(e, i), follows(e.p0)]), v != 0)), ("real", lambda e, s, n, v, i: z3.Implies(v != 0, follows(v)))]
    eng.follows = follows; st.assume(pl_(eng, st, this).f["len"] < 2**30)
def sp_post(eng, old, s, this, args, kind, p):
    o = eng.old0; new = eng.rv(args[0], o); conf0, conf1 = atom(eng, o, this, "_configuredPriority"), atom(eng, s, this, "_configuredPriority"); pr0, pr1 = atom(eng, o, this, "_priority"), atom(eng, s, this, "_priority"); n = pl_(eng, o, this).f["len"]
    if kind != "return":
        eng.prove(s, And_([conf1 == conf0, pr1 == pr0, s.g("bn") == 0, state(eng, s, this) == state(eng, o, this)]), "a refused priority change changes nothing"); return
    c = conf1 != conf0; lg = pf(eng, o, this, eng.p0, "loggedIn")
    eng.prove(s, And_([conf1 == new, eng.rv(p, s) == conf0]), "the priority asked for is remembered, the former one returned")
    eng.prove(s, And_([new >= 0, new != 1]), "reserved priorities are refused")
    eng.prove(s, z3.Implies(And_([new > 0, lg]), pf(eng, o, this, eng.p0, "priority") != new), "no two connected nodes get the same priority")
    eng.prove(s, z3.Implies(And_([new == 0, pr0 > 0]), 2 * count(eng, o, "full peers", full) >= n + 1), "no demotion leaves the cluster with too few full peers")
    t = Or_([pr0 == -1, pr0 == 1]); same = state(eng, s, this) == state(eng, o, this)
    eng.prove(s, z3.Implies(t, And_([pr1 == pr0, s.g("bn") == 0, same])), "a node that is starting or stopping keeps its interim priority")
    eng.prove(s, z3.Implies(And_([c, Not_(t)]), s.g("bn") == 1), "a change of priority is announced once")
    eng.prove(s, z3.Implies(And_([c, Not_(t), same]), pr1 == new), "the node uses its new priority")
    eng.prove(s, z3.Implies(And_([c, Not_(t), state(eng, o, this) == SV_(eng, "LEADING"), eng.follows(eng.p0)]), state(eng, s, this) == SV_(eng, "STANDINGDOWN")), "a leader no longer of highest priority stands down")
    lp = atom(eng, o, this, "_leadPeer")
    eng.prove(s, z3.Implies(And_([c, Not_(t), state(eng, o, this) == SV_(eng, "FOLLOWING"), lp != 0, pf(eng, o, this, lp, "loggedIn"), pf(eng, o, this, lp, "state") == SV_(eng, "LEADING"), pf(eng, o, this, lp, "priority") < new]), state(eng, s, this) == SV_(eng, "SEARCHING")), "a follower that outranks its leader goes searching")
P11 = dict(common=dict(setup=N.setup, pre=N.pre), tus=TUS, items=lambda prog: [
    Item("setPriority", "SQLiteNode::setPriority", setup=sp_setup, pre=sp_pre, post=sp_post, want=("return", "throw")),
    onmsg("LOGIN", label="_onMESSAGE LOGIN with our priority", setup=login_setup, pre=login_pre, post=login_post)])

# ---- the database contracts used above, verified against the bodies in SQLite.cpp
import importlib
_sq = importlib.import_module("bedver.specs.sqlite")
def body_item(fn, ens, pick=None, throw=True):
    def post(eng, old, s, this, args, kind, p):
        if kind == "throw" and not throw: eng.prove(s, F, "does not throw"); return
        for nm, f in ens(eng, old, s, this, args, eng.rv(p, s) if p is not None and kind == "return" else None, kind): eng.prove(s, f, "contract: " + nm)
    return Item("contract of " + fn, fn, pre=_sq.p01_pre, post=post, pick=pick, min_obls=0)
def dbparts(prog):
    return [body_item("SQLite::beginTransaction", C_begin), body_item("SQLite::prepare", C_prepare), body_item("SQLite::commit", C_commit), body_item("SQLite::rollback", C_rollback, throw=False)] + \
        [body_item("SQLite::writeUnmodified", C_writeu, pick=lambda g, f=f: g is f) for f in prog.byname.get("SQLite::writeUnmodified", [])]
DBPART = dict(common=C.common, tus=C.TUS, items=dbparts)

# ---- small functions the others rely on
def reset_setup(eng): eng.contracts["operator delete"] = N.nothing("delete", "frees the socket")
def no_pre(eng, st, this, args): pass
def reset_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    a = lambda n: atom(eng, s, this, n)
    eng.prove(s, Not_(a("loggedIn")), "a closed connection logs the peer out")
    eng.prove(s, Not_(a("subscribed")), "a closed connection ends the subscription")
    eng.prove(s, a("standupResponse") == RESP["NONE"], "a closed connection forgets the peer's answer")
    eng.prove(s, a("state") == SV_(eng, "SEARCHING"), "a closed connection forgets the peer's state")
    eng.prove(s, And_([a("priority") == 0, Not_(a("forked"))]), "a closed connection forgets the peer's priority and fork")
    eng.prove(s, a("commitCount") == 0, "a closed connection forgets the peer's commits")
def rp_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    q = eng.rv(args[0], old)
    eng.prove(s, Not_(pf(eng, s, this, q, "loggedIn")), "a peer being reconnected is logged out")
    eng.prove(s, z3.Implies(q != eng.p0, pf(eng, s, this, eng.p0, "loggedIn") == pf(eng, old, this, eng.p0, "loggedIn")), "and no other peer")
def ra_setup(eng): eng.peer_vals = [("false", lambda eng: F)]
def ra_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    eng.prove(s, Not_(pf(eng, s, this, eng.p0, "loggedIn")), "every peer is logged out")
def shut_setup(eng):
    def on_all(e, st, this, v, sub):
        st.setg("bn", st.g("bn") + 1); o = e.old0
        e.prove(st, And_([v.f["methodLine"] == e.lit("STATE"), Not_(sub), header(v, e, "Priority") == int2str(e, z3.IntVal(1)), header(v, e, "State") == sname(state(e, o, this))]), "every connected peer is told that the node is shutting down")
    eng.on_all = on_all
def shut_pre(eng, st, this, args): st.setg("bn", z3.IntVal(0)); eng.old0 = st.copy()
def shut_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    o = eng.old0
    eng.prove(s, And_([atom(eng, s, this, "_priority") == 1, state(eng, s, this) == state(eng, o, this)]), "a node shutting down has the lowest priority and keeps its state")
    eng.prove(s, atom(eng, s, this, "_configuredPriority") == atom(eng, o, this, "_configuredPriority"), "the configured priority is kept")
    eng.prove(s, s.g("bn") == z3.If(state(eng, o, this) == SV_(eng, "LEADING"), 0, 1), "and the others are told, unless it leads")
P07_ITEMS += [Item("SQLitePeer::reset", "SQLitePeer::reset", setup=reset_setup, pre=no_pre, post=reset_post),
    Item("_reconnectPeer", "SQLiteNode::_reconnectPeer", setup=lambda e: e.contracts.pop("SQLiteNode::_reconnectPeer", None), post=rp_post),
    Item("_reconnectAll", "SQLiteNode::_reconnectAll", setup=ra_setup, post=ra_post)]
P11["items"] = (lambda f: lambda prog: f(prog) + [Item("setShutdownPriority", "SQLiteNode::setShutdownPriority", setup=shut_setup, pre=shut_pre, post=shut_post)])(P11["items"])

# ---- frames: whatever writes the state a property speaks of must be a function verified here, or say why not
HERE = lambda why: why
VERIF_OTHERS = {"SQLiteNode::_changeState": "verified under P07", "SQLiteNode::_onDisconnect": "verified under P07", "SQLiteNode::update": "verified under P06", "SQLiteNode::_onMESSAGE": "verified kind by kind under P06, P08, P09, P10, P11",
    "SQLiteNode::_updateSyncPeer": "verified under P09", "SQLiteNode::setPriority": "verified under P11", "SQLiteNode::_replicate": "verified under P08", "SQLiteNode::_sendOutstandingTransactions": "verified under P03", "SQLiteNode::_sendStandupResponse": "verified under P10"}
def ok(*extra, **kw): d = dict(VERIF_OTHERS); d.update(kw); d.update(dict(extra)); return d
RESET = ("SQLitePeer::reset", "verified under P07: forgets everything a connection established")
RECON = ("SQLiteNode::_reconnectPeer", "logs the peer out, verified under P07")
SHUTP = ("SQLiteNode::setShutdownPriority", "lowers the priority for shutdown, verified under P11")
for P_, fr, o in ((P03, [("SQLiteNode", "_lastSentTransactionID"), ("SQLitePeer", "subscribed")], ok(RESET)),
    (P06, [("SQLiteNode", "_state"), ("SQLitePeer", "standupResponse")], ok(RESET)),
    (P07, [("SQLiteNode", "_state"), ("SQLiteNode", "_leadPeer"), ("SQLiteNode", "_syncPeer"), ("SQLiteNode", "_stateChangeCount"), ("SQLitePeer", "loggedIn")], ok(RESET, RECON)),
    (P09, [("SQLitePeer", "forked")], ok(RESET)),
    (P10, [("SQLitePeer", "state"), ("SQLitePeer", "priority"), ("SQLitePeer", "permaFollower"), ("SQLitePeer", "standupResponse")], ok(RESET)),
    (P11, [("SQLiteNode", "_priority"), ("SQLiteNode", "_configuredPriority")], ok(SHUTP))): P_["frame"] = fr; P_["ok"] = o
_p08 = dict(P08, frame=[("SQLiteNode", "_replicateQueue"), ("SQLiteNode", "_replicateThreadShouldExitTime")], ok=ok())
P08 = dict(parts=[_p08, DBPART])
NODEH = dict(name="node", wrap=("_ZN10SQLitePeer11sendMessageERK5SData", "_ZN10SQLitePeer14shutdownSocketEv", "sigaction"),
    bound="a real SQLiteNode with up to 6 peers driven for 60000 random steps (messages of every kind, state changes, disconnections, updates) plus 150 replications over real journals with corruption and statement faults; thorough 1000000 steps and 800 replications")
for P_ in (P03, P06, P07, P08, P09, P10, P11): P_["harness"] = [NODEH]
_asm = ["peer fields are read as one consistent snapshot per step of the node (the node's state mutex is held by its callers)", "commit numbers stay below 2^62", "the node has peers: a single-node cluster leads by itself"]
for P_ in (P03, P06, P07, P08, P09, P10, P11): P_["assumptions"] = _asm
P12x = DBPART
