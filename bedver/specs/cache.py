"""P05: a read served from the per-transaction cache equals what running it would return."""
import z3
from ..spec import *
from ..lib import cat, m_h, forall
from . import sqcommon as C
from .sqcommon import *
TUS = C.TUS + ["libstuff/SData.cpp"]
Det = z3.Function("deterministic_query", Str, B)
NONDET = ["random", "randomblob", "date", "time", "datetime", "julianday", "unixepoch", "strftime", "timediff", "current_date", "current_time", "current_timestamp", "changes", "total_changes", "last_insert_rowid"]
def leaves(v, path=""):
    if is_z3(v): return [] if path.endswith(".result") or path.endswith("!") else [(path, v)]
    out = []
    if isinstance(v, SV):
        for n in v.f: out += leaves(v.f[n], path + "." + n)
    return out
def pid_of(m):
    ls = leaves(m); f = z3.Function("params_id", *([x.sort() for _, x in ls] + [I]))
    return z3.If(m.f["n"] == 0, z3.IntVal(0), f(*[x for _, x in ls]))
def Rleaf(path, sort, sql, pid, ver, auth): return z3.Function("R" + path, Str, I, I, I, sort)(sql, pid, ver, auth)
def auth_of(eng, st): return fld(eng, st, eng.sqthis, "_authorizer")
def same_as_run(eng, st, v, sql, pid, sel=None):
    """every leaf of the result value is what running (sql, params) on the current data returns"""
    return And_([(z3.Select(x, sel) if sel is not None else x) == Rleaf(p, x.sort().range() if sel is not None else x.sort(), sql, pid, st.g("ver"), auth_of(eng, st)) for p, x in leaves(v)])
def fa(vs, body, pat):
    seen = set(); todo = [pat]; ok = True
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE): ok = False; break
        todo += x.children()
    return z3.ForAll(vs, body, patterns=[pat]) if ok else z3.ForAll(vs, body)
def cinv(eng, st):
    c = flv(eng, st, eng.sqthis, "_queryCache"); m = eng.read(st, c); q = z3.Const("cq", Str)
    inside = fld(eng, st, eng.sqthis, "_insideTransaction")
    return [("cached results are what running the query now would return", fa([q], z3.Implies(z3.Select(m.f["has"], q), And_([Det(q), same_as_run(eng, st, m.f["val"], q, z3.IntVal(0), q)])), z3.Select(m.f["has"], q))),
            ("nothing is cached outside a transaction", fa([q], z3.Implies(z3.Select(m.f["has"], q), inside), z3.Select(m.f["has"], q)))]
def sq(mode):
    def c(eng, st, this, args, n):
        eng.used_contracts.add("SQuery [trusted: SQLite library; a deterministic query depends only on its text, parameters, the data and the authorizer; the authorizer callback is told every function a statement uses]")
        sql = eng.rv(args[1], st); pre_ = sql_prefix(eng, sql).strip().upper()
        det0 = fld(eng, st, eng.sqthis, "_isDeterministicQuery")
        pl = next((a for a in args if (isinstance(a, LV) and strip(a.ty).n == "std::map") or (isinstance(a, SV) and a.ty.n == "std::map")), None)
        pid = pid_of(eng.rv(pl, st)) if pl is not None else z3.IntVal(0)
        box = {}
        def hook(eng_, s2, a2, sql2, res, rc):
            v = eng_.fresh(res.ty, "res"); box["res"] = (res, v); eng_.write(s2, res, v); return True
        rc = C.squery(hook)(eng, st, this, args, n)
        if "res" in box:
            res, v = box["res"]; st.assume(z3.Implies(And_([rc == 0, Det(sql)]), same_as_run(eng, st, v, sql, pid)))
        eng.write(st, flv(eng, st, eng.sqthis, "_isDeterministicQuery"), And_([det0, Det(sql)]))
        # effect on the data
        cur = st.g("ver"); nv = z3.Const(fresh_name("ver"), I)
        if pre_.startswith("PRAGMA") or pre_.startswith("SELECT"): pass
        elif pre_.startswith(("COMMIT", "ROLLBACK")): st.setg("ver", z3.If(rc == 0, nv, cur))
        elif mode == "read" or mode == "journal" and not pre_.startswith("BEGIN"): pass
        else: st.setg("ver", nv)
        return rc
    return c
def handler(eng, st, f, args, n):
    """callbacks: those given the handle use it through its public functions, which preserve the cache invariant"""
    if any(is_rec(a, "SQLite") for a in args):
        inner = flv(eng, st, eng.sqthis, "_queryCache"); eng.write(st, inner, eng.fresh(inner.ty, "cacheAfterHandler")); st.setg("ver", z3.Const(fresh_name("ver"), I))
        keep = eng.read(st, inner); r = C.prepare_handler
        for nm, x in cinv(eng, st): st.assume(x)
        b = z3.Const(fresh_name("handler_throws"), B); eng.raise_(st, b, Exc("SException"))
        eng.used_contracts.add("<function value> [trusted: callbacks use the handle only through write/read and may throw]")
        return eng.fresh(eng.ty(n), "cbret") if eng.ty(n).k != "void" else None
    return C.prepare_handler(eng, st, f, args, n)
def assign_result(eng, st, this, args, n):
    """SQResult::operator=: verified separately (copies headers and rows; only the back pointers differ)"""
    eng.used_contracts.add("SQResult::operator= (verified by its own item)")
    o = eng.rv(args[0], st); cur = eng.fresh(this.ty, "copied")
    for (p, x), (_, y) in zip(leaves(cur), leaves(o)): st.assume(x == y)
    eng.write(st, this, cur); return this
def setup(mode):
    def s(eng):
        C.setup(eng); eng.contracts["SQuery"] = sq(mode); eng.contracts["<fnptr>"] = handler; eng.contracts["SQResult::operator="] = assign_result
    return s
def pre(eng, st, this, args):
    C.pre(eng, st, this, args); st.setg("ver", z3.Const("g_ver", I))
    if strip(this.ty).n != "SQLite": return
    for nm, f in inv(eng, st, this): st.assume(f)
    for nm, f in cinv(eng, st): st.assume(f)
    jn = fld(eng, st, this, "_journalNames"); st.assume(jn.f["len"] > 0)
def keep(eng, old, s, this, args, kind, p):
    for nm, f in cinv(eng, s): eng.prove(s, f, nm + (" (after an exception)" if kind == "throw" else ""))
def read_post(form):
    def post(eng, old, s, this, args, kind, p):
        keep(eng, old, s, this, args, kind, p)
        if kind != "return": return
        q = eng.rv(args[0], s); q0 = eng.rv(args[0], old)
        pl = next((a for a in args[1:] if isinstance(a, LV) and strip(a.ty).n == "std::map"), None)
        pid = pid_of(eng.read(old, pl)) if pl is not None else z3.IntVal(0)
        ran = s.g("sqln") > old.g("sqln")
        eng.prove(s, z3.Implies(Not_(ran), s.g("ver") == old.g("ver")), "a cached read changes nothing")
        if form == "result":
            r = eng.rv(p, s); res = next(a for a in args if is_rec(a, "SQResult"))
            eng.prove(s, z3.Implies(And_([r, Det(q0)]), same_as_run(eng, s, eng.read(s, res), q0, pid)), "a successful read returns what running the query returns")
            eng.prove(s, z3.Implies(And_([r, Not_(Det(q0))]), And_([ran, s.g("sql") == q0])), "a non-deterministic query is always executed")
            eng.prove(s, z3.Implies(ran, s.g("sql") == q0), "what is executed is the query asked for")
        if form == "spec": eng.prove(s, And_([ran, s.g("sql") == q0]), "reads that bypass the cache are always executed")
    return post
def form(f):
    if any(strip(t).n == "SQResult" for _, _, t in f.ps): return "result"
    if any(repr(t).startswith("sqlite3_qrf_spec") for _, _, t in f.ps): return "spec"
    return "string"
def auth_pre(eng, st, this, args):
    pre(eng, st, this, args); eng.sqthis = this
    for i in range(1, 5): args[i] = z3.Const("detail%d" % i, Str)
    st.assume(args[0] == 31)
def auth_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    r = eng.rv(p, s); det = fld(eng, s, this, "_isDeterministicQuery"); det0 = fld(eng, old, this, "_isDeterministicQuery")
    for nm in NONDET:
        eng.prove(s, z3.Implies(args[2] == eng.lit(nm), Or_([r != 0, Not_(det)])), "a query using %s() is never cached" % nm)
    eng.prove(s, z3.Implies(Not_(det0), Not_(det)), "the authorizer never marks a query deterministic again")
def auth_any(eng, st, this, args):
    pre(eng, st, this, args); eng.sqthis = this
    for i in range(1, 5): args[i] = z3.Const("detail%d" % i, Str)
def auth_any_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    eng.prove(s, z3.Implies(Not_(fld(eng, old, this, "_isDeterministicQuery")), Not_(fld(eng, s, this, "_isDeterministicQuery"))), "the authorizer never marks a query deterministic again")
    keep(eng, old, s, this, args, kind, p)
def asg_post(eng, old, s, this, args, kind, p):
    if kind != "return": return
    a = eng.read(s, this); o = eng.rv(args[0], old)
    eng.prove(s, And_([eng.equal(a.f["headers"], o.f["headers"]) if False else And_([x == y for (p1, x), (_, y) in zip(leaves(a.f["headers"]), leaves(o.f["headers"]))])]), "assigning a result copies the column names")
    i, j = z3.Ints("ri rj")
    eng.prove(s, a.f["rows"].f["len"] == o.f["rows"].f["len"], "assigning a result copies every row")
    def cmp(x, y):
        ra, rb = eng.select(x.f["rows"].f["el"], i).f["data"], eng.select(y.f["rows"].f["el"], i).f["data"]
        return And_([u == v for (_, u), (_, v) in zip(leaves(ra), leaves(rb))])
    eng.prove(s, z3.ForAll([i], z3.Implies(And_([i >= 0, i < o.f["rows"].f["len"]]), cmp(a, o))), "assigning a result copies every value")
def asg_vocab(eng, info):
    return []
P05 = dict(common=dict(setup=setup("journal"), pre=pre), tus=TUS, items=lambda prog: 
    [Item("read/%d (%s)" % (len(f.ps), form(f)), "SQLite::read", setup=setup("read"), post=read_post(form(f)), pick=(lambda g, f=f: g is f), want=("return", "throw")) for f in prog.byname.get("SQLite::read", [])] + [
    Item("_writeIdempotent empties the cache before writing", "SQLite::_writeIdempotent", setup=setup("write"), post=keep, want=("return", "throw")),
    Item("setUpdateNoopMode", "SQLite::setUpdateNoopMode", setup=setup("write"), post=keep),
    Item("writeLocalUnreplicated", "SQLite::writeLocalUnreplicated", setup=setup("write"), post=keep),
    Item("setAuthorizer empties the cache", "SQLite::setAuthorizer", post=keep),
    Item("beginTransaction starts with an empty cache", "SQLite::beginTransaction", post=keep, want=("return", "throw")),
    Item("prepare", "SQLite::prepare", post=keep, want=("return", "throw")),
    Item("commit empties the cache", "SQLite::commit", post=keep),
    Item("rollback empties the cache", "SQLite::rollback", post=keep),
    Item("assigning a result copies it", "SQResult::operator=", pre=lambda eng, st, this, args: None, setup=lambda eng: eng.contracts.pop("SQResult::operator="), post=asg_post),
    Item("the authorizer spots non-deterministic functions", "SQLite::_authorize", pre=auth_pre, post=auth_post),
    Item("the authorizer leaves the cache alone", "SQLite::_authorize", pre=auth_any, post=auth_any_post),
    ],
    frame=[("SQLite", "_queryCache"), ("SQLite", "_isDeterministicQuery"), ("SQLite", "_insideTransaction"), ("SQLite", "_authorizer")],
    assumptions=["read() is given row-returning statements (Bedrock's documented contract)", "prepare's own journal bookkeeping is not application data", "changing the public whitelist pointer mid-transaction is outside the property"])

from .sqlite import SQH
P05["harness"] = [SQH]
