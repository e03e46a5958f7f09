"""P14: the command queue: nothing lost or repeated, expired commands first, then in schedule order."""
import z3
from ..spec import *
from ..lib import mm_facts, mm_attr, mm_at, forall, m_h, ok_pattern
TUS = ["BedrockCommandQueue.cpp", "BedrockBlockingCommandQueue.cpp", "BedrockCommand.cpp"]
AI = z3.ArraySort(I, I)
def Q(eng, st): return eng.read(st, flv(eng, st, eng.qthis, "_queue"))
def L(eng, st): return eng.read(st, flv(eng, st, eng.qthis, "_lookupByTimeout"))
def qa(eng, st):
    q = Q(eng, st); return q.f["len"], q.f["el"].f["first"], q.f["el"].f["second"].f["timeout"], q.f["el"].f["second"].f["item"]
def inv(eng, st):
    q, l = Q(eng, st), L(eng, st); s, t = z3.Ints("s!q t!q"); i = z3.Int("i!q"); n, sc, to, it = qa(eng, st)
    return [("every queued command has exactly one timeout entry and every entry a command", both([s, t], mm_at(q.f["cnt"], s, t) == mm_at(l.f["cnt"], t, s), mm_at(q.f["cnt"], s, t), mm_at(l.f["cnt"], t, s))),
            ("every queued command is owned", forall([i], z3.Implies(And_([i >= 0, i < n]), z3.Select(it, i) > 0), z3.Select(it, i)))]
def both(vs, body, p1, p2):
    return z3.ForAll(vs, body, patterns=[p for p in (p1, p2)]) if ok_pattern(p1) and ok_pattern(p2) else z3.ForAll(vs, body)
def facts(eng, st): mm_facts(eng, st, Q(eng, st)); mm_facts(eng, st, L(eng, st))
def save(eng, st, p):
    for nm, v in zip(("n", "sc", "to", "it"), qa(eng, st)):
        st.setg(p + nm, v)
def at(s, p): return s.g(p + "n"), s.g(p + "sc"), s.g(p + "to"), s.g(p + "it")
def havocq(eng, st):
    """what other threads, which hold the lock for every change, may have left"""
    for f in ("_queue", "_lookupByTimeout"):
        l = flv(eng, st, eng.qthis, f); eng.write(st, l, eng.fresh(l.ty, "rely"))
    facts(eng, st)
    for nm, x in inv(eng, st): st.assume(x)
def hook(eng, st, lv, ev):
    if ev == "lock": havocq(eng, st); save(eng, st, "e_")
    elif ev == "pre_unlock":
        facts(eng, st)
        for nm, x in inv(eng, st): eng.prove(st, x, nm + " (when the lock is released)")
        save(eng, st, "r_"); st.setg("rel", st.g("rel") + 1)
def fn(eng, st, f, args, n):
    """the queue's start and end functions: _startFunction and _endFunction are told apart by the member they were read from"""
    eng.used_contracts.add("_startFunction/_endFunction [trusted: record timing only]")
    st.setg("calls", st.g("calls") + 1); st.setg("lastcall", eng.rv(args[0], st)); st.setg("called", f if is_z3(f) and f.sort() == I else z3.Const(fresh_name("f"), I)); return None
def now(eng, st, this, args, n):
    t = z3.Const(fresh_name("now"), I); st.assume(And_([t >= st.g("now"), t < 1 << 60])); st.setg("now", t); return t
def setup(eng):
    eng.solver_timeout = 500; eng.prune_ms = 200; eng.mm_track = {"", "timeout"}; eng.on_lock["_queueMutex"] = hook
    eng.contracts["<fnptr>"] = fn; eng.contracts["STimeNow"] = now
    def notify(e, st, this, args, n): st.setg("notified", T)
    eng.contracts["std::condition_variable::notify_one"] = notify; eng.contracts["std::condition_variable::notify_all"] = notify
    eng.vocab.append(vocab)
def pre(eng, st, this, args):
    eng.qthis = this
    for p in ("e_", "r_"):
        for nm, so in (("n", I), ("sc", AI), ("to", AI), ("it", AI)): st.setg(p + nm, z3.Const(p + nm + "0", so))
    for nm, so, v in (("rel", I, z3.IntVal(0)), ("calls", I, z3.IntVal(0)), ("lastcall", I, z3.IntVal(0)), ("called", I, z3.IntVal(0)), ("notified", B, F)): st.setg(nm, v)
    t = z3.Const("now0", I); st.assume(And_([t >= 0, t < 1 << 60])); st.setg("now", t)
    facts(eng, st); st.assume(z3.IntVal(0) == eng.read_raw(st, m_h(flv(eng, st, this, "_queueMutex"))))
    a, b = fval(eng, st, "_startFunction"), fval(eng, st, "_endFunction"); st.assume(And_([a != b, a != 0, b != 0]))
def fval(eng, st, nm): v = eng.read(st, flv(eng, st, eng.qthis, nm)); return v
def held(eng, s): return eng.read_raw(s, m_h(flv(eng, s, eng.qthis, "_queueMutex")))
def vocab(eng, info):
    out = []; e = info["entry"]
    for m in info["mods"]:
        if m[0] != "loc": continue
        v = e.locals.get(m[1])
        if isinstance(v, It) and v.kind == "seq" and v.c.path and v.c.path[-1][1] in ("_queue", "_lookupByTimeout"):
            k = m[1]; lo = v.pos; i = z3.Int("i!v"); o = eng.read(e, v.c); first, attr = o.f["el"].f["first"], mm_attr(eng, o.f["el"])
            out.append(("the iterator moves forward", lambda s, k=k, lo=lo: s.locals[k].pos >= lo))
            for x in e.locals.values():
                if isinstance(x, SV) and isinstance(x.f.get("second"), It): hi = x.f["second"].pos; out.append(("the iterator stays in its range", lambda s, k=k, hi=hi: s.locals[k].pos <= hi))
            for k2, x in e.locals.items():
                if isinstance(x, It) and x.kind == "seq" and k2 != k and x.c.path and x.c.path[-1][1] == "_queue" and v.c.path[-1][1] != "_queue":
                    tv = z3.Select(eng.read(e, x.c).f["el"].f["first"], x.pos)
                    out.append(("no earlier element is scheduled for that time", lambda s, k=k, lo=lo, tv=tv, attr=attr: z3.ForAll([i], z3.Implies(And_([i >= lo, i < s.locals[k].pos]), z3.Select(attr, i) != tv))))
            for nm, t in list(e.locals.items()):
                tv = eng.read(e, t.lv) if isinstance(t, RefTo) else t
                if is_z3(tv) and tv.sort() == I: out.append(("no earlier element has it", lambda s, k=k, lo=lo, tv=tv, attr=attr: z3.ForAll([i], z3.Implies(And_([i >= lo, i < s.locals[k].pos]), z3.Select(attr, i) != tv))))
    return out
# ---- postconditions
def removed(s, p, a, b):
    """b is a without position p"""
    n, sc, to, it = a; n2, sc2, to2, it2 = b; i = z3.Int("i!r")
    return And_([n2 == n - 1, z3.ForAll([i], z3.Implies(And_([i >= 0, i < n - 1]), And_([z3.Select(y, i) == z3.If(i < p, z3.Select(x, i), z3.Select(x, i + 1)) for x, y in ((sc, sc2), (to, to2), (it, it2))])))])
def post_dequeue(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    a, b = qa(eng, old), qa(eng, s); n, sc, to, it = a; i = z3.Int("i!p"); t = s.g("now"); facts(eng, s)
    inr = And_([i >= 0, i < n])
    for nm, x in inv(eng, s): P(x, nm)
    P(held(eng, s) == 0, "the lock is neither taken nor released")
    if kind == "throw":
        P(z3.BoolVal(p.ty == "std::out_of_range"), "only out_of_range is thrown")
        P(z3.ForAll([i], z3.Implies(inr, And_([z3.Select(to, i) > t, z3.Select(sc, i) > t]))), "nothing is found only when nothing has expired and nothing is due")
        P(And_([b[0] == n, z3.ForAll([i], z3.Implies(inr, And_([z3.Select(b[1], i) == z3.Select(sc, i), z3.Select(b[2], i) == z3.Select(to, i), z3.Select(b[3], i) == z3.Select(it, i)])))]), "finding nothing changes nothing"); P(s.g("calls") == 0, "finding nothing times nothing"); return
    r = eng.rv(p, s); q = z3.Int("taken")
    k = z3.Const(fresh_name("taken"), I)
    # the removed position: the first one whose element differs, found from the two sequences
    P(z3.Exists([q], And_([q >= 0, q < n, z3.Select(it, q) == r, removed(s, q, a, b)])), "exactly the returned command leaves the queue") if False else None
    for nm, f in taken(eng, s, a, b, r, t): P(f, nm)
    P(And_([s.g("calls") == 1, s.g("lastcall") == r, s.g("called") == fval(eng, s, "_endFunction")]), "its waiting time is stopped once")
def taken(eng, s, a, b, r, t):
    n, sc, to, it = a; i = z3.Int("i!p"); inr = And_([i >= 0, i < n]); q = s.locals.get("pos!taken") or s.g("pos")
    ex = z3.Not(z3.ForAll([i], z3.Implies(inr, z3.Select(to, i) > t)))
    return [("exactly the returned command leaves the queue", And_([q >= 0, q < n, z3.Select(it, q) == r, removed(s, q, a, b)])),
            ("an expired command goes before every other", z3.Implies(ex, z3.Select(to, q) <= t)),
            ("of expired commands the one with the oldest timeout goes first", z3.Implies(ex, z3.ForAll([i], z3.Implies(inr, z3.Select(to, i) >= z3.Select(to, q))))),
            ("otherwise the command scheduled first goes first", z3.Implies(Not_(ex), z3.ForAll([i], z3.Implies(inr, z3.Select(sc, i) >= z3.Select(sc, q))))),
            ("no command goes before its scheduled time unless it expired", z3.Implies(Not_(ex), z3.Select(sc, q) <= t))]
def watch_erase(eng):
    """remember the position removed from _queue (a witness for the postcondition)"""
    from .. import lib
    old = lib.method("std::multimap", "erase")
    def er(e, st, this, args, n):
        it = e.rv(args[0], st)
        if this.path and this.path[-1][1] == "_queue" and isinstance(it, It): st.setg("pos", it.pos); st.setg("nrem", st.g("nrem") + 1)
        return old(e, st, this, args, n)
    eng.contracts["std::multimap::erase"] = er
def pre_dequeue(eng, st, this, args):
    st.setg("pos", z3.IntVal(-1)); st.setg("nrem", z3.IntVal(0))
    for nm, x in inv(eng, st): st.assume(x)

# ---- callers of _dequeue see its contract (the virtual one: both implementations are verified against it)
def c_dequeue(eng, st, this, args, n):
    eng.used_contracts.add("BedrockCommandQueue::_dequeue (verified by its own items)")
    eng.prove(st, held(eng, st) == 1, "the queue is searched only with its lock held")
    facts(eng, st)
    for nm, x in inv(eng, st): eng.prove(st, x, nm + " (when the queue is searched)")
    a = qa(eng, st); now(eng, st, None, [], n); t = st.g("now"); i = z3.Int("i!c"); inr = And_([i >= 0, i < a[0]])
    b = z3.Const(fresh_name("nothing_available"), B); s2 = st.copy(); s2.assume(b); s2.setg("tried", T)
    s2.assume(z3.ForAll([i], z3.Implies(inr, And_([z3.Select(a[2], i) > t, z3.Select(a[1], i) > t])))); eng.exits[-1].append(("throw", s2, Exc("std::out_of_range")))
    st.assume(Not_(b)); havocq(eng, st); r = z3.Const(fresh_name("dequeued"), I); st.setg("pos", z3.Const(fresh_name("pos"), I))
    for nm, x in taken(eng, st, a, qa(eng, st), r, t): st.assume(x)
    st.assume(r > 0); st.setg("got", r); st.setg("ndq", st.g("ndq") + 1); st.setg("calls", st.g("calls") + 1); save(eng, st, "d_"); return r
def c_wait(timed):
    def c(eng, st, this, args, n):
        eng.used_contracts.add("std::condition_variable::wait* [trusted: releases the lock while waiting and holds it again afterwards; may wake at any time]")
        eng.prove(st, held(eng, st) == 1, "the wait releases a lock that is held")
        eng.prove(st, st.g("tried"), "nothing is waited for while something is available")
        facts(eng, st)
        for nm, x in inv(eng, st): eng.prove(st, x, nm + " (when a wait releases the lock)")
        havocq(eng, st); st.setg("tried", F); tick(eng, st)
        return z3.Const(fresh_name("cvstatus"), I) if eng.ty(n).k != "void" else None
    return c
def tick(eng, st): t = z3.Const(fresh_name("steady"), I); st.assume(t >= st.g("steady")); st.setg("steady", t)
def steady(eng, st, this, args, n): tick(eng, st); st.setg("reads", st.g("reads") + 1); st.setg("first", z3.If(st.g("reads") == 1, st.g("steady"), st.g("first"))); return st.g("steady")
def su_get(eng):
    c = eng.contracts; c["BedrockCommandQueue::_dequeue"] = c_dequeue
    for w in ("wait", "wait_until", "wait_for"): c["std::condition_variable::" + w] = c_wait(w != "wait")
    for k in ("std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now"): c[k] = steady
    eng.vocab.append(lambda e, info: [("no command has been taken yet", lambda s: s.g("ndq") == 0), ("the lock is held", lambda s: held(e, s) == 1), ("nothing was available", lambda s: s.g("tried")), ("nothing has been timed", lambda s: s.g("calls") == 0)] + [(nm, lambda s, j=j: inv(e, s)[j][1]) for j, (nm, _) in enumerate(inv(e, info["entry"]))] + [("the clock was read", lambda s: s.g("reads") >= 1), ("the first reading stays", lambda s, v=info["entry"].g("first"): s.g("first") == v)])
def pre_get(eng, st, this, args):
    for nm, so, v in (("pos", I, z3.IntVal(-1)), ("ndq", I, z3.IntVal(0)), ("got", I, z3.IntVal(0)), ("tried", B, F), ("reads", I, z3.IntVal(0)), ("first", I, z3.IntVal(0))): st.setg(nm, v)
    t = z3.Const("steady0", I); st.assume(t >= 0); st.setg("steady", t)
    for nm, so in (("n", I), ("sc", AI), ("to", AI), ("it", AI)): st.setg("d_" + nm, z3.Const("d_%s0" % nm, so))
def post_get(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); w = eng.rv(args[0], old)
    P(held(eng, s) == 0, "the lock is released")
    if kind == "throw":
        P(z3.BoolVal("timeout_error" in p.ty), "only timeout_error is thrown"); P(s.g("ndq") == 0, "no command is lost when the wait ends")
        P(w > 0, "a wait without limit never gives up"); P(And_([s.g("reads") >= 1, s.g("steady") >= s.g("first") + z3.ToReal(w) if s.g("first").sort() != I else s.g("steady") >= s.g("first")]), "it gives up only once the time has passed"); P(s.g("tried"), "it gives up only when nothing was available"); return
    r = eng.rv(p, s); P(And_([s.g("ndq") == 1, r == s.g("got")]), "exactly one command is taken and it is returned")
    n, sc, to, it = at(s, "r_"); n2, sc2, to2, it2 = at(s, "d_"); P(And_([n == n2, sc == sc2, to == to2, it == it2]), "the queue keeps everything else")
# ---- adding
def watch_insert(eng):
    from .. import lib
    old = lib.mm_insert
    def ins(e, st, this, v):
        r = old(e, st, this, v)
        if this.path and this.path[-1][1] == "_queue": st.setg("pos", r.pos)
        return r
    lib.mm_insert = ins
def cmdfield(eng, st, a, name):
    fs = eng.prog.byname["BedrockCommand::areHttpsRequestsComplete"][0].this
    return field(eng, st, eng.objlv(a, fs), name)
def post_push(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    c = eng.rv(args[0], old); i = z3.Int("i!a"); n, sc, to, it = at(s, "e_"); m, sc2, to2, it2 = at(s, "r_"); q = s.g("pos")
    when = eng.rv(args[1], old) if len(args) > 1 else cmdfield(eng, old, c, "scheduledTime")
    P(held(eng, s) == 0, "the lock is released"); P(s.g("rel") == 1, "the lock is taken once")
    P(And_([m == n + 1, q >= 0, q <= n, z3.Select(it2, q) == c]), "the command is queued")
    P(z3.Select(sc2, q) == when, "it is queued for the time asked for"); P(z3.Select(to2, q) == cmdfield(eng, old, c, "_timeout"), "it is queued with its own deadline")
    P(z3.ForAll([i], z3.Implies(And_([i >= 0, i < n]), And_([z3.Select(y, z3.If(i < q, i, i + 1)) == z3.Select(x, i) for x, y in ((sc, sc2), (to, to2), (it, it2))]))), "every other command stays, in order")
    P(z3.ForAll([i], z3.Implies(And_([i >= 0, i < m, z3.Select(sc2, i) == when]), i <= q)), "of commands scheduled for the same time the first queued goes first")
    P(s.g("notified"), "a waiting thread is woken"); P(And_([s.g("calls") == 1, s.g("lastcall") == c, s.g("called") == fval(eng, s, "_startFunction")]), "its waiting time is started once")
def pre_push(eng, st, this, args):
    st.setg("pos", z3.IntVal(-1)); c = eng.rv(args[0], st); st.assume(c > 0); t = cmdfield(eng, st, c, "_timeout")
# ---- everything at once
def post_all(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(held(eng, s) == 0, "the lock is released"); P(s.g("rel") == 1, "the lock is taken once")
    v = eng.rv(p, s); i = z3.Int("i!g"); n, sc, to, it = at(s, "e_"); m = at(s, "r_")[0]
    P(v.f["len"] == n, "every queued command is returned"); P(z3.ForAll([i], z3.Implies(And_([i >= 0, i < n]), z3.Select(v.f["el"], i) == z3.Select(it, i))), "in schedule order"); P(m == 0, "and the queue is empty")
    P(s.g("calls") == n, "each one's waiting time is stopped once")
def all_vocab(eng, info):
    out = []; e = info["entry"]; i = z3.Int("i!h")
    ix = next((m[1] for m in info["mods"] if m[0] == "loc" and is_z3(e.locals.get(m[1])) and z3.is_int_value(z3.simplify(e.locals[m[1]])) or False), None)
    for m in info["mods"]:
        if m[0] != "loc": continue
        v = e.locals.get(m[1])
        pos = (lambda s, k=m[1]: s.locals[k]) if is_z3(v) and v.sort() == I else (lambda s, k=m[1]: s.locals[k].pos) if isinstance(v, It) else None
        if pos is None: continue
        out.append(("the position is in the queue", lambda s, pos=pos: And_([pos(s) >= 0, pos(s) <= s.g("e_n")])))
        out.append(("each command passed was timed once", lambda s, pos=pos: s.g("calls") == pos(s)))
        out.append(("commands not yet passed are still there", lambda s, pos=pos: z3.ForAll([i], z3.Implies(And_([i >= pos(s), i < s.g("e_n")]), z3.Select(qa(eng, s)[3], i) == z3.Select(s.g("e_it"), i)))))
        for k, x in e.locals.items():
            if isinstance(x, SV) and x.ty is not None and x.ty.k == "rec" and x.ty.n in ("std::list", "std::vector"):
                out.append(("one result for each command passed", lambda s, k=k, pos=pos: s.locals[k].f["len"] == pos(s)))
                if x.f["el"].sort().range() == I if is_z3(x.f["el"]) else False:
                    out.append(("the results are the commands passed", lambda s, k=k, pos=pos: z3.ForAll([i], z3.Implies(And_([i >= 0, i < pos(s)]), z3.Select(s.locals[k].f["el"], i) == z3.Select(s.g("e_it"), i)))))
                elif is_z3(x.f["el"]):
                    out.append(("the results are the method lines passed", lambda s, k=k, pos=pos: z3.ForAll([i], z3.Implies(And_([i >= 0, i < pos(s)]), z3.Select(s.locals[k].f["el"], i) == cmdfield(eng, s, z3.Select(s.g("e_it"), i), "request.methodLine")))))
    out.append(("the queue keeps its size", lambda s: And_([qa(eng, s)[0] == s.g("e_n")])))
    return out
def su_all(eng): eng.vocab.append(all_vocab)
def post_lines(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(held(eng, s) == 0, "the lock is released"); v = eng.rv(p, s); i = z3.Int("i!g"); n, sc, to, it = at(s, "e_"); r = at(s, "r_")
    P(And_([v.f["len"] == n, z3.ForAll([i], z3.Implies(And_([i >= 0, i < n]), z3.Select(v.f["el"], i) == cmdfield(eng, s, z3.Select(it, i), "request.methodLine")))]), "every queued command is named once, in order")
    P(And_([r[j] == at(s, "e_")[j] for j in range(4)]), "looking changes nothing")
def post_abandon(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm)
    if kind == "throw": P(F, "no exception escapes"); return
    P(held(eng, s) == 0, "the lock is released"); i = z3.Int("i!b"); n, sc, to, it = at(s, "e_"); m, sc2, to2, it2 = at(s, "r_"); lim = s.g("now") + eng.rv(args[0], old) * 1000
    P(m <= n, "nothing is added"); P(z3.ForAll([i], z3.Implies(And_([i >= 0, i < m]), And_([z3.Select(sc2, i) == z3.Select(sc, i), z3.Select(to2, i) == z3.Select(to, i), z3.Select(it2, i) == z3.Select(it, i)]))), "what stays is unchanged")
    P(z3.ForAll([i], z3.Implies(And_([i >= 0, i < n]), (i < m) == (z3.Select(sc, i) < lim))), "exactly the commands scheduled later are dropped")
def abandon_vocab(eng, info):
    e = info["entry"]; out = []; i = z3.Int("i!w")
    for k in [m[1] for m in info["mods"] if m[0] == "loc" and isinstance(e.locals.get(m[1]), It)]:
        v = e.locals[k]
        if v.c.path[-1][1] == "_queue":
            out.append(("the position stays", lambda s, k=k, v=v: s.locals[k].pos == v.pos)); out.append(("the position is in the queue", lambda s, k=k: s.locals[k].pos <= qa(eng, s)[0]))
            out.append(("earlier commands stay", lambda s, k=k: z3.ForAll([i], z3.Implies(And_([i >= 0, i < s.locals[k].pos]), And_([z3.Select(x, i) == z3.Select(y, i) for x, y in zip(qa(eng, s)[1:], at(s, "e_")[1:])])))))
            out.append(("the queue does not grow", lambda s: qa(eng, s)[0] <= s.g("e_n"))); out.append(("later commands go", lambda s, k=k: z3.ForAll([i], z3.Implies(And_([i >= s.locals[k].pos, i < qa(eng, s)[0]]), And_([z3.Select(x, i) == z3.Select(y, i + s.g("e_n") - qa(eng, s)[0]) for x, y in zip(qa(eng, s)[1:], at(s, "e_")[1:])])))))
    out += [(nm, lambda s, j=j: inv(eng, s)[j][1]) for j, (nm, _) in enumerate(inv(eng, info["entry"]))]
    out.append(("exactly one entry is due for removal", lambda s: T))
    return out
def su_abandon(eng): eng.vocab.append(abandon_vocab)
def pre_abandon(eng, st, this, args): st.assume(And_([args[0] >= 0, args[0] < 2000000]) if is_z3(args[0]) else T)
def post_size(what):
    def post(eng, old, s, this, args, kind, p):
        P = lambda f, nm: eng.prove(s, f, nm)
        if kind == "throw": P(F, "no exception escapes"); return
        P(held(eng, s) == 0, "the lock is released"); n = s.g("e_n")
        if what == "clear": P(s.g("r_n") == 0, "the queue is empty"); return
        r = eng.rv(p, s); P(r == n if what == "size" else r == (n == 0), "the answer is right at the moment of asking"); P(And_([at(s, "r_")[j] == at(s, "e_")[j] for j in range(4)]), "asking changes nothing")
    return post
# ---- the blocking queue's overrides
BLOCKED = "503 Blocking queue rate limited (time)"
def c_blocked(eng, st, this, args, n):
    eng.used_contracts.add("BedrockBlockingCommandQueue::isBlocked (verified by P15)")
    st.setg("nasked", st.g("nasked") + 1); st.setg("asked_id", eng.rv(args[0], st)); st.setg("asked_name", eng.rv(args[1], st)); return st.g("blocked")
def c_push(eng, st, this, args, n):
    """BedrockCommandQueue::push(command), verified by its own item"""
    eng.used_contracts.add("BedrockCommandQueue::push (verified by its own items)")
    st.setg("npushed", st.g("npushed") + 1); c = eng.rv(args[0], st); st.setg("pushed", c)
    if isinstance(args[0], LV): eng.write(st, args[0], z3.IntVal(0))
def su_block(eng):
    eng.contracts["BedrockBlockingCommandQueue::isBlocked"] = c_blocked; eng.contracts["BedrockCommandQueue::push"] = c_push; eng.contracts["BedrockCommandQueue::_dequeue"] = c_dequeue
def pre_block(eng, st, this, args):
    pre_get(eng, st, this, args); st.setg("blocked", z3.Const("blocked", B)); st.setg("nasked", z3.IntVal(0)); st.setg("npushed", z3.IntVal(0)); st.setg("pushed", z3.IntVal(0))
    for g in ("asked_id", "asked_name"): st.setg(g, z3.Const(g + "0", Str))
def asked(eng, s, c): return And_([s.g("nasked") >= 1, s.g("asked_id") == cmdfield(eng, s, c, "blockingQueueRateLimitIdentifier"), s.g("asked_name") == cmdfield(eng, s, c, "request.methodLine")])
def pre_bdeq(eng, st, this, args):
    pre_block(eng, st, this, args); eng.write(st, m_h(flv(eng, st, this, "_queueMutex")), z3.IntVal(1))
    for nm, x in inv(eng, st): st.assume(x)
def post_bdeq(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); P(held(eng, s) == 1, "the lock is neither taken nor released")
    if kind == "throw":
        P(z3.BoolVal(p.ty == "std::out_of_range"), "only out_of_range is thrown"); P(s.g("ndq") == 0, "no command is lost"); return
    r = eng.rv(p, s); c = s.g("got"); b = s.g("blocked")
    P(And_([s.g("ndq") == 1, r == c]), "the command taken is the one returned"); P(asked(eng, s, r), "its own identifier and name are checked")
    o = old; same = lambda f: cmdfield(eng, s, r, f) == cmdfield(eng, o, r, f)
    P(z3.Implies(b, And_([aval(cmdfield(eng, s, r, "complete")), cmdfield(eng, s, r, "response.methodLine") == eng.lit(BLOCKED)])), "a rate limited command is answered with 503 and does not run")
    P(z3.Implies(Not_(b), And_([aval(cmdfield(eng, s, r, "complete")) == aval(cmdfield(eng, o, r, "complete")), same("response.methodLine")])), "any other command is untouched")
    d = [at(s, "d_")[j] for j in range(4)]; e = qa(eng, s); P(And_([d[j] == e[j] for j in range(4)]), "the queue keeps everything else")
def post_bpush(eng, old, s, this, args, kind, p):
    P = lambda f, nm: eng.prove(s, f, nm); c = eng.rv(args[0], old); b = s.g("blocked"); P(asked(eng, s, c), "its own identifier and name are checked")
    if kind == "throw":
        P(And_([z3.BoolVal(p.ty == "SException"), p.val.f["method"] == eng.lit(BLOCKED)]) if p.val is not None else F, "a refusal is 503"); P(b, "only a rate limited command is refused")
        P(s.g("npushed") == 0, "a refused command is not queued"); P(eng.rv(args[0], s) == c, "a refused command stays with the caller, who answers it"); return
    P(Not_(b), "a rate limited command is not queued"); P(And_([s.g("npushed") == 1, s.g("pushed") == c]), "any other command is queued once")
def pre_bpush(eng, st, this, args): pre_block(eng, st, this, args); st.assume(eng.rv(args[0], st) > 0)
def items(prog):
    return [Item("_dequeue", "BedrockCommandQueue::_dequeue", setup=watch_erase, pre=pre_dequeue, post=post_dequeue, want=("return", "throw")),
        Item("get", "BedrockCommandQueue::get", setup=su_get, pre=pre_get, post=post_get, want=("return", "throw")),
        Item("push(command, time)", "BedrockCommandQueue::push", nparams=2, setup=watch_insert, pre=pre_push, post=post_push),
        Item("push(command)", "BedrockCommandQueue::push", nparams=1, setup=watch_insert, pre=pre_push, post=post_push),
        Item("getAll", "BedrockCommandQueue::getAll", setup=su_all, post=post_all),
        Item("getRequestMethodLines", "BedrockCommandQueue::getRequestMethodLines", setup=su_all, post=post_lines),
        Item("abandonFutureCommands", "BedrockCommandQueue::abandonFutureCommands", setup=su_abandon, pre=pre_abandon, post=post_abandon),
        Item("blocking _dequeue", "BedrockBlockingCommandQueue::_dequeue", setup=su_block, pre=pre_bdeq, post=post_bdeq, want=("return", "throw")),
        Item("blocking push", "BedrockBlockingCommandQueue::push", setup=su_block, pre=pre_bpush, post=post_bpush, want=("return", "throw"))] + [
        Item(x, "BedrockCommandQueue::" + x, post=post_size(x)) for x in ("clear", "size", "empty")]
P14 = dict(common=dict(setup=setup, pre=pre), tus=TUS, items=items)
_h = [dict(name="queue", wrap=("sigaction",), bound="900 (thorough 5000) random sequences of 40 operations on each kind of queue against a reference model; threads putting and taking 1500 commands at once")]
_a = ["the start and end functions given to the queue only time the command", "std::multimap holds its elements in key order, equal keys in insertion order (C++ standard); the count of equal (key, value) elements is a theorem of finite sequences", "the argument of abandonFutureCommands lies within [0, 2000000) ms (the only caller passes 5000)", "condition variables release the lock while waiting and may wake at any time; being woken at all (liveness) is only tested"]
P14 = dict(P14, harness=_h, assumptions=_a, frame=[("BedrockCommandQueue", "_queue"), ("BedrockCommandQueue", "_lookupByTimeout")])
