"""Trusted contracts for the C++ standard library, POSIX and a few libstuff leaf functions."""
import z3, itertools
from .front import Ty, strip
from .engine import *
from . import engine as E

FUNCS, METHODS, CTORS, SPECIAL = {}, {}, {}, {}
def func(*names):
    def d(f):
        for n in names: FUNCS[n] = f
        return f
    return d
def meth(classes, *names):
    def d(f):
        for c in ([classes] if isinstance(classes, str) else classes):
            for n in names: METHODS[(c, n)] = f
        return f
    return d
def special(*names):
    def d(f):
        for n in names: SPECIAL[n] = f
        return f
    return d
ALIAS = {"std::__atomic_base": "std::atomic", "std::__basic_mutex": "std::mutex", "std::_Mutex_base": "std::mutex", "std::__shared_ptr": "std::shared_ptr", "std::__shared_ptr_access": "std::shared_ptr", "std::__weak_ptr": "std::weak_ptr"}
def method(cls, name):
    cls = ALIAS.get(cls, cls)
    f = METHODS.get((cls, name))
    if f is None and cls.startswith("std::"):
        for base, group in (("SEQ", E.SEQ), ("MAPS", E.MAPS), ("SETS", E.SETS), ("MUTEX", E.MUTEX), ("SMART", E.SMART), ("STRS", E.STRS), ("GUARDS", E.GUARDS), ("ATOMIC", E.ATOMIC)):
            if cls in group: f = METHODS.get((base, name)); break
    elif f is None and cls in E.STRS: f = METHODS.get(("STRS", name))
    return f

# ------------------------------------------------------------------ strings (uninterpreted sort)
S_len = z3.Function("str_len", Str, I)
S_cat = z3.Function("str_cat", Str, Str, Str)
S_lower = z3.Function("str_lower", Str, Str)
S_upper = z3.Function("str_upper", Str, Str)
S_ofint = z3.Function("str_of_int", I, Str)
S_ofbool = z3.Function("str_of_bool", B, Str)
S_toll = z3.Function("str_strtoll", Str, I)
S_toull = z3.Function("str_strtoull", Str, I)
S_at = z3.Function("str_at", Str, I, I)
S_sub = z3.Function("str_substr", Str, I, I, Str)
S_starts = z3.Function("str_starts", Str, Str, B)
S_lt = z3.Function("str_lt", Str, Str, B)
S_app = z3.Function("str_append_char", Str, I, Str)

def lit_facts(eng, s, c):
    """facts about one string literal, linked to the literals seen so far"""
    out = [S_len(c) == len(s)]
    out.append(S_lower(c) == eng.lits[s.lower()] if s.lower() in eng.lits else S_len(S_lower(c)) == len(s))
    for s2, c2 in list(eng.lits.items()):
        if s2 != s and s2.lower() == s: out.append(S_lower(c2) == c)
    v = parse_int(s)
    out.append(S_toll(c) == max(-(1 << 63), min(v, (1 << 63) - 1)))
    out.append(S_toull(c) == (v % (1 << 64)))
    if str(v) == s: out.append(S_ofint(z3.IntVal(v)) == c)
    return out
def parse_int(s):
    import re
    m = re.match(r"\s*([+-]?\d+)", s)
    return int(m.group(1)) if m else 0
def lenS(eng, s):
    l = eng.lit_of(s)
    if l is not None: return z3.IntVal(len(l))
    eng.axiom(z3.And(S_len(s) >= 0, S_len(s) < (1 << 62))); eng.axiom((S_len(s) == 0) == (s == eng.lit("")))
    if z3.is_app(s) and s.decl().eq(S_cat):
        eng.axiom(S_len(s) == lenS(eng, s.arg(0)) + lenS(eng, s.arg(1)))
    return S_len(s)
def emptyS(eng, s):
    l = eng.lit_of(s)
    if l is not None: return z3.BoolVal(l == "")
    lenS(eng, s)
    return s == eng.lit("")
def cat(eng, a, b):
    la, lb = eng.lit_of(a), eng.lit_of(b)
    if la == "": return b
    if lb == "": return a
    if la is not None and lb is not None: return eng.lit(la + lb)
    # normalise to left-nested concatenation
    if z3.is_app(b) and b.decl().eq(S_cat): return cat(eng, cat(eng, a, b.arg(0)), b.arg(1))
    if lb is not None and z3.is_app(a) and a.decl().eq(S_cat) and eng.lit_of(a.arg(1)) is not None: return cat(eng, a.arg(0), eng.lit(eng.lit_of(a.arg(1)) + lb))
    r = S_cat(a, b); e = eng.lit("")
    eng.axiom(z3.Implies(a == e, r == b)); eng.axiom(z3.Implies(b == e, r == a)); eng.axiom((r == e) == z3.And(a == e, b == e))
    return r
def lower(eng, s):
    l = eng.lit_of(s)
    if l is not None: return eng.lit(l.lower())
    if z3.is_app(s) and s.decl().eq(S_lower): return s
    eng.axiom(S_lower(S_lower(s)) == S_lower(s)); eng.axiom((S_lower(s) == eng.lit("")) == (s == eng.lit("")))
    return S_lower(s)
def int2str(eng, t):
    t = eng.toint(t)
    if z3.is_int_value(t): return eng.lit(str(t.as_long()))
    r = S_ofint(t); eng.axiom(S_toll(r) == z3.If(t > (1 << 63) - 1, (1 << 63) - 1, z3.If(t < -(1 << 63), -(1 << 63), t))); eng.axiom(S_toull(r) == z3.If(t >= 0, t, t + (1 << 64))); eng.axiom(z3.Not(r == eng.lit("")))
    return r
def tostr(eng, v):
    if not is_z3(v): return z3.Const(fresh_name("opqstr"), Str)
    if v.sort() == Str: return v
    if v.sort() == I: return int2str(eng, v)
    if v.sort() == B: return int2str(eng, v)
    return z3.Const(fresh_name("fltstr"), Str)
def str_at(eng, s, i):
    l = eng.lit_of(s)
    if l is not None and z3.is_int_value(z3.simplify(i)) and 0 <= z3.simplify(i).as_long() < len(l):
        o = ord(l[z3.simplify(i).as_long()]); return z3.IntVal(o - 256 if o > 127 else o)
    t = S_at(s, i); eng.axiom(z3.And(t >= -128, t <= 127)); return t

def S(eng, st, a): 
    v = eng.rv(a, st)
    if isinstance(v, It): return z3.Const(fresh_name("cstr"), Str)
    if is_z3(v) and v.sort() == I: return z3.Function("str_from_ptr", I, Str)(v)
    if isinstance(v, PtrTo): return eng.read(st, v.lv)
    if not is_z3(v): return z3.Const(fresh_name("opqstr"), Str)
    return v

def ctor_string(eng, st, n, ty):
    a = n["a"]
    if not a: return eng.lit("")
    v = eng.evr(a[0], st)
    if len(a) >= 2 and not is_alloc(eng, a[1]):
        b = eng.evr(a[1], st)
        if is_z3(v) and v.sort() == Str and is_z3(b) and b.sort() == I:
            l = eng.lit_of(v)
            if l is not None and z3.is_int_value(b) and b.as_long() <= len(l): return eng.lit(l[:b.as_long()])
            return z3.Function("str_prefix", Str, I, Str)(v, b)
        return z3.Const(fresh_name("str"), Str)
    if is_z3(v) and v.sort() == Str: return v
    if ty.n == "SString": return tostr(eng, v)
    if is_z3(v) and v.sort() == I and strip(eng.ty(a[0])).k == "ptr": return z3.Function("str_from_ptr", I, Str)(v)
    if isinstance(v, SV): return z3.Const(fresh_name("str"), Str)
    return z3.Const(fresh_name("str"), Str)
def is_alloc(eng, node):
    t = strip(eng.ty(node)); return t.k == "rec" and t.n == "std::allocator"
for s in E.STRS: CTORS[s] = ctor_string

@meth("STRS", "operator=", "assign")
def _(eng, st, this, a, n):
    v = S(eng, st, a[0]) if len(a) == 1 else z3.Const(fresh_name("str"), Str)
    if strip(n_argty(eng, n)).k in ("int", "bool") if n_argty(eng, n) is not None else False:
        v = tostr(eng, eng.rv(a[0], st))
    eng.write(st, this, v); return this
def n_argty(eng, n):
    try: return strip(eng.ty(n["a"][-1])) if n.get("a") else None
    except Exception: return None
@meth("STRS", "operator+=", "append", "push_back")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); cur = eng.read(st, this)
    if len(a) == 1 and is_z3(v) and v.sort() == Str: nv = cat(eng, cur, v)
    elif len(a) == 1 and is_z3(v) and v.sort() == I: 
        if z3.is_int_value(v) and 0 <= v.as_long() < 256: nv = cat(eng, cur, eng.lit(chr(v.as_long())))
        else: nv = S_app(cur, v); eng.axiom(z3.Not(nv == eng.lit("")))
    else: nv = z3.Const(fresh_name("str"), Str)
    eng.write(st, this, nv); return this
@meth("STRS", "empty")
def _(eng, st, this, a, n): return emptyS(eng, eng.read(st, this))
@meth("STRS", "size", "length")
def _(eng, st, this, a, n): return lenS(eng, eng.read(st, this))
@meth("STRS", "c_str", "data", "operator basic_string_view", "operator std::basic_string_view", "operator basic_string_view<char, char_traits<char>>")
def _(eng, st, this, a, n): return eng.read(st, this)
@meth("STRS", "clear")
def _(eng, st, this, a, n): eng.write(st, this, eng.lit(""))
@meth("STRS", "operator[]", "at", "front", "back")
def _(eng, st, this, a, n):
    s = eng.read(st, this); nm = n["fn"].split("::")[-1]
    i = eng.rv(a[0], st) if a else (z3.IntVal(0) if nm == "front" else lenS(eng, s) - 1)
    if not n.get("cst") and n.get("lv") and False: pass
    return LV("tmp", str_at(eng, s, i), Ty("int", w=8, s=1))
@meth("STRS", "substr")
def _(eng, st, this, a, n):
    s = eng.read(st, this); i = eng.rv(a[0], st) if a else z3.IntVal(0); j = eng.rv(a[1], st) if len(a) > 1 else z3.IntVal((1 << 64) - 1)
    l = eng.lit_of(s)
    if l is not None and z3.is_int_value(i) and z3.is_int_value(j): return eng.lit(l[i.as_long():][:j.as_long()])
    if z3.is_int_value(i) and i.as_long() == 0 and z3.is_int_value(j) and j.as_long() == (1 << 64) - 1: return s
    return S_sub(s, i, j)
@meth("STRS", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "compare")
def _(eng, st, this, a, n):
    s = eng.read(st, this); x = eng.rv(a[0], st); nm = n["fn"].split("::")[-1]
    if not is_z3(x): return eng.fresh(eng.ty(n))
    f = z3.Function("str_" + nm + "_" + str(x.sort()), Str, x.sort(), I); r = f(s, x)
    if nm != "compare": eng.range_axiom(r, Ty("int", w=64, s=0))
    return r
@func("std::operator==", "operator==")
def _(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st)
    return eng.equal(x, y)
@func("std::operator!=", "operator!=")
def _(eng, st, this, a, n): return Not_(eng.equal(eng.rv(a[0], st), eng.rv(a[1], st)))
@func("std::operator<", "std::operator>", "std::operator<=", "std::operator>=")
def _(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st); op = n["op"]
    if isinstance(x, It) and isinstance(y, It): return eng.binop(op, x, y, None, None, Ty("bool"))
    if is_z3(x) and x.sort() == Str and is_z3(y) and y.sort() == Str:
        if op == ">": return S_lt(y, x)
        if op == "<": return S_lt(x, y)
        if op == "<=": return Not_(S_lt(y, x))
        return Not_(S_lt(x, y))
    if is_z3(x) and x.sort() == I and strip(n_argty0(eng, n)).n in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"):
        return {"<": x < 0, ">": x > 0, "<=": x <= 0, ">=": x >= 0}[op]
    raise Unsupported("operator" + op + " " + repr([strip(eng.ty(q)) for q in n["a"]]))
def n_argty0(eng, n): return strip(eng.ty(n["a"][0]))
@func("std::operator<=>", "std::chrono::operator<=>")
def _(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st)
    if is_z3(x) and x.sort() == I: return z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))
    raise Unsupported("<=>")
@func("std::operator+")
def _(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st)
    if isinstance(x, It): return It(x.kind, x.c, x.pos + y, x.end, x.rev)
    def s(v):
        if is_z3(v) and v.sort() == I:
            if z3.is_int_value(v): return eng.lit(chr(v.as_long() % 256))
            return z3.Function("str_of_char", I, Str)(v)
        return v if is_z3(v) else z3.Const(fresh_name("opqstr"), Str)
    return cat(eng, s(x), s(y))
@func("std::to_string", "SToStr")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); return tostr(eng, v.f["v"] if isinstance(v, SV) and set(v.f) == {"v"} else v)
@func("strtoll", "std::strtoll", "atoll", "std::atoll", "SToInt64", "std::stoll")
def _(eng, st, this, a, n):
    s = S(eng, st, a[0]); t = S_toll(s); eng.range_axiom(t, Ty("int", w=64, s=1)); return t
@func("strtoull", "std::strtoull", "SToUInt64", "std::stoull")
def _(eng, st, this, a, n):
    s = S(eng, st, a[0]); t = S_toull(s); eng.range_axiom(t, Ty("int", w=64, s=0)); return t
@func("SToInt", "atoi", "std::atoi", "SToUInt")
def _(eng, st, this, a, n):
    s = S(eng, st, a[0]); t = S_toll(s); eng.range_axiom(t, Ty("int", w=64, s=1)); return eng.wrap(t, eng.ty(n))
@func("SToUpper")
def _(eng, st, this, a, n): 
    s = S(eng, st, a[0]); l = eng.lit_of(s); return eng.lit(l.upper()) if l is not None else S_upper(s)
@func("SToLower")
def _(eng, st, this, a, n): return lower(eng, S(eng, st, a[0]))
@func("SIEquals")
def _(eng, st, this, a, n): return eng.equal(lower(eng, S(eng, st, a[0])), lower(eng, S(eng, st, a[1])))
@func("SStartsWith")
def _(eng, st, this, a, n):
    x, y = S(eng, st, a[0]), S(eng, st, a[1]); lx, ly = eng.lit_of(x), eng.lit_of(y)
    if lx is not None and ly is not None: return z3.BoolVal(lx.startswith(ly))
    if ly == "": return T
    if lx is None and ly is not None: eng.axiom(z3.Implies(x == eng.lit(""), Not_(S_starts(x, y))))
    for s2, c2 in list(eng.lits.items()):
        if lx is None and ly is not None: eng.axiom(z3.Implies(x == c2, S_starts(x, y) == z3.BoolVal(s2.startswith(ly))))
    return S_starts(x, y)
@func("SEndsWith")
def _(eng, st, this, a, n): return z3.Function("str_ends", Str, Str, B)(S(eng, st, a[0]), S(eng, st, a[1]))
@func("std::isspace", "isspace")
def _(eng, st, this, a, n): return z3.Function("c_isspace", I, I)(eng.rv(a[0], st))
@func("STimeNow")
def _(eng, st, this, a, n):
    t = z3.Const(fresh_name("now"), I); eng.range_axiom(t, Ty("int", w=64, s=0)); eng.axiom(t < (1 << 60))
    last = st.ghost.get("now")
    if last is not None: st.assume(t >= last)
    if "now" in st.ghost: st.setg("now", t)
    return t
@func("SGetCurrentExceptionName", "STIMESTAMP", "SComposeList", "SGetCallstack", "SCURRENT_TIMESTAMP", "SComposeTime")
def _(eng, st, this, a, n): return eng.fresh(eng.ty(n), "s")

# ------------------------------------------------------------------ ostream
CTORS["std::basic_ostringstream"] = lambda eng, st, n, ty: SV(ty, {"s": eng.lit("")})
@func("std::operator<<", "operator<<")
@meth("std::basic_ostream", "operator<<")
def _(eng, st, this, a, n):
    s = this if this is not None else a[0]; v = eng.rv(a[-1], st)
    if isinstance(s, LV):
        cur = eng.read_raw(st, s) if s.kind == "loc" else None
        if isinstance(cur, SV) and "s" in cur.f: eng.write(st, s, cur.set("s", cat(eng, cur.f["s"], tostr(eng, v) if not isinstance(v, FnPtr) else eng.lit(""))))
    return s
@meth(["std::basic_ostringstream", "std::basic_stringstream"], "str")
def _(eng, st, this, a, n): return eng.read(st, this).f["s"]

def ok_pattern(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return False
        todo += x.children()
    return True
def forall(vs, body, pat=None):
    if pat is not None and ok_pattern(pat): return z3.ForAll(vs, body, patterns=[pat])
    return z3.ForAll(vs, body)

# ------------------------------------------------------------------ moves, swap, forward
@func("std::move", "std::forward", "std::as_const", "std::addressof_ref")
def _(eng, st, this, a, n): return a[0]
@func("std::ref", "std::cref")
def _(eng, st, this, a, n): return a[0]
@func("std::swap")
def _(eng, st, this, a, n):
    x, y = eng.read(st, a[0]), eng.read(st, a[1]); eng.write(st, a[0], y); eng.write(st, a[1], x)
@func("std::min", "std::max")
def _(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st); mn = "min" in n["fn"].split("<")[0]
    if not is_z3(x) or not is_z3(y): raise Unsupported("min/max")
    r = z3.If(y < x, y, x) if mn else z3.If(x < y, y, x)
    return LV("tmp", r, eng.ty(n))
@func("std::abs", "abs", "llabs", "labs")
def _(eng, st, this, a, n): x = eng.rv(a[0], st); return z3.If(x < 0, -x, x)
@func("std::make_pair")
def _(eng, st, this, a, n):
    ty = eng.ty(n); return SV(ty, {"first": fit(eng, eng.rv(a[0], st), ty.a[0]), "second": fit(eng, eng.rv(a[1], st), ty.a[1])})
@func("std::make_tuple", "std::tie", "std::forward_as_tuple")
def _(eng, st, this, a, n):
    ty = eng.ty(n); return SV(ty, {"_%d" % i: (eng.rv(x, st)) for i, x in enumerate(a)})
def fit(eng, v, ty): return v
@special("std::get")
def _(eng, st, n):
    b = eng.ev(n["a"][0], st); ty = strip(eng.ty(n["a"][0]))
    if not isinstance(b, LV): b = eng.new_tmp(st, b, ty)
    # the index is not exported for non-type template args: recover by type when unique
    idx = n.get("idx")
    if idx is None:
        t = eng.ty(n); cand = [i for i, x in enumerate(ty.a) if repr(x) == repr(t)]
        if len(cand) != 1: raise Unsupported("std::get index")
        idx = cand[0]
    nm = ("first", "second")[idx] if ty.n == "std::pair" else "_%d" % idx
    return b.ext(("f", nm, ty.n, ty.a[idx]), ty.a[idx])
def ctor_pair(eng, st, n, ty):
    a = n["a"]
    if not a: return eng.default(ty)
    if len(a) == 1: return eng.evr(a[0], st)
    names = ["first", "second"] if ty.n == "std::pair" else ["_%d" % i for i in range(len(ty.a))]
    vals = [eng.evr(x, st) for x in a]
    return SV(ty, dict(zip(names, vals)))
CTORS["std::pair"] = ctor_pair; CTORS["std::tuple"] = ctor_pair

def moved_from(eng, st, lv, v):
    t = strip(lv.ty)
    if t.k != "rec" or lv.kind == "tmp": return
    if t.n in E.SMART: eng.write(st, lv, z3.IntVal(0))
    elif t.n in E.SEQ or t.n in E.MAPS or t.n in E.SETS: eng.write(st, lv, eng.default(t))
    elif t.n in E.GUARDS: eng.write(st, lv, Guard(None, F))

# ------------------------------------------------------------------ atomics
@meth("ATOMIC", "load")
def _(eng, st, this, a, n): others(eng, st, this, "load"); return eng.read(st, at_lv(this))
def others(eng, st, lv, what):
    """an atomic that other threads change too (eng.shared_atomics: field -> hook) has an unknown value at each access"""
    h = getattr(eng, "shared_atomics", {}); f = lv.path[-1][1] if lv.path and lv.path[-1][0] == "f" else None
    if f in h: v = eng.fresh(at_ty(lv), "shared"); eng.write(st, at_lv(lv), v); h[f](eng, st, lv, what, v)
def at_ty(lv): 
    t = strip(lv.ty); return t.a[0] if t.a else Ty("bool")
def at_lv(lv): return lv.ext(("f", "v", "std::atomic", at_ty(lv)), at_ty(lv))
@meth("ATOMIC", "store", "operator=")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); eng.write(st, at_lv(this), v); return v
@meth("ATOMIC", "exchange", "test_and_set")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st) if a and "test" not in n["fn"] else T; o = eng.read(st, at_lv(this)); eng.write(st, at_lv(this), v); return o
@meth("ATOMIC", "clear")
def _(eng, st, this, a, n): eng.write(st, at_lv(this), F)
@meth("ATOMIC", "operator++", "operator--", "fetch_add", "fetch_sub", "operator+=", "operator-=")
def _(eng, st, this, a, n):
    others(eng, st, this, n["fn"].split("::")[-1]); lv = at_lv(this); o = eng.read(st, lv); nm = n["fn"].split("::")[-1]; t = at_ty(this)
    if nm in ("operator++", "operator--"):
        d = z3.IntVal(1); post = bool(a) or len(n.get("pt", [])) == 1
    else: d = eng.rv(a[0], st); post = nm.startswith("fetch")
    nv = eng.wrapop(o + d if nm in ("operator++", "fetch_add", "operator+=") else o - d, t)
    eng.write(st, lv, nv); return o if post else nv
@meth("ATOMIC", "compare_exchange_strong", "compare_exchange_weak")
def _(eng, st, this, a, n):
    lv = at_lv(this); o = eng.read(st, lv); exp = eng.read(st, a[0]); new = eng.rv(a[1], st)
    ok = eng.equal(o, exp)
    if "weak" in n["fn"]: ok = z3.And(ok, z3.Const(fresh_name("nospurious"), B))
    eng.write(st, lv, merge_val(ok, new, o)); eng.write(st, a[0], merge_val(ok, exp, o)); return ok
@meth("ATOMIC", "notify_one", "notify_all", "wait", "is_lock_free")
def _(eng, st, this, a, n): return None
_old = method
def method(cls, name, _old=_old):
    if cls in E.ATOMIC and name.startswith("operator ") : return METHODS[("ATOMIC", "load")]
    if name.startswith("operator bool"):
        f = METHODS.get((ALIAS.get(cls, cls), "operator bool")) or METHODS.get(("SMART" if ALIAS.get(cls, cls) in E.SMART else cls, "operator bool"))
        if f: return f
    if cls.startswith("std::") and name.startswith("~"): return lambda *a: None
    return _old(cls, name)
def ctor_atomic(eng, st, n, ty):
    return SV(ty, {"v": eng.evr(n["a"][0], st) if n["a"] else eng.default(ty.a[0] if ty.a else Ty("bool"))})
for c in E.ATOMIC: CTORS[c] = ctor_atomic
# a reference_wrapper to a pointer-like member of an object is a negative number that stands for the member (read when used); one to
# anything else is modelled by the value it had (only used for keys of containers, which do not change)
def ctor_refw(eng, st, n, ty):
    a = eng.ev(n["a"][0], st)
    if isinstance(a, RefTo): a = a.lv
    if not isinstance(a, LV): return a
    t = strip(a.ty)
    if t.k == "rec" and t.n == "std::reference_wrapper": return eng.read(st, a)
    if a.kind == "loc" and isinstance(st.locals.get(a.root), RefTo) and not a.path: a = st.locals[a.root].lv
    if a.kind == "obj" and a.path and eng.leaf_sort(t) == I:
        reg = eng.__dict__.setdefault("refs", [])
        for i, x in enumerate(reg):
            if lv_eq(x, a): return z3.IntVal(-1 - i)
        reg.append(a); return z3.IntVal(-len(reg))
    return eng.read(st, a)
CTORS["std::reference_wrapper"] = ctor_refw
@meth("std::reference_wrapper", "get", "operator T", "operator type-parameter-0-0 &")
def _(eng, st, this, a, n):
    v = eng.read(st, this)
    for i, x in enumerate(getattr(eng, "refs", [])): v = z3.If(v == -1 - i, eng.read(st, x), v)
    return z3.simplify(v)

# ------------------------------------------------------------------ smart pointers
def ctor_smart(eng, st, n, ty):
    if not n["a"]: return z3.IntVal(0)
    a = eng.ev(n["a"][0], st); v = eng.rv(a, st)
    if isinstance(a, LV) and n.get("pt") and eng.tu.ty(n["pt"][0]).k == "ref" and eng.tu.ty(n["pt"][0]).rv and strip(a.ty).k == "rec" and strip(a.ty).n in E.SMART: moved_from(eng, st, a, v)
    if isinstance(v, PtrTo): return eng.opaque_leaf(I, v)
    return v if is_z3(v) else eng.fresh(ty, "smart")
for c in E.SMART: CTORS[c] = ctor_smart
CTORS["std::function"] = lambda eng, st, n, ty: (eng.evr(n["a"][0], st) if n["a"] else z3.IntVal(0))
CTORS["std::thread"] = lambda eng, st, n, ty: eng.thread_hook(eng, st, None, [eng.ev(a, st) for a in n["a"]], n) if getattr(eng, "thread_hook", None) and n["a"] else eng.fresh(ty, "thread")
@meth("SMART", "get", "operator->", "lock")
def _(eng, st, this, a, n): return eng.read(st, this)
@meth("SMART", "operator*")
def _(eng, st, this, a, n): return eng.deref(eng.read(st, this), st, eng.ty(n))
@meth("SMART", "operator bool")
def _(eng, st, this, a, n): return eng.tobool(eng.read(st, this))
@meth("std::function", "operator bool")
def _(eng, st, this, a, n): return eng.tobool(eng.read(st, this))
@meth("std::function", "operator=")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); eng.write(st, this, v if is_z3(v) or this.kind == "loc" else eng.fresh(this.ty, "fn")); return this
@meth("SMART", "operator=", "reset")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st) if a else z3.IntVal(0)
    if a and isinstance(a[0], LV) and strip(a[0].ty).k == "rec" and strip(a[0].ty).n == "std::unique_ptr": moved_from(eng, st, a[0], v)
    if isinstance(v, PtrTo): v = eng.opaque_leaf(I, v)
    eng.write(st, this, v); return this
@meth("SMART", "release")
def _(eng, st, this, a, n): v = eng.read(st, this); eng.write(st, this, z3.IntVal(0)); return v
@special("std::make_unique", "std::make_shared")
def _(eng, st, n):
    ty = eng.ty(n); t = eng.tu.ty(n["ta"][0]) if n.get("ta") else None
    addr = z3.Const(fresh_name("new"), I); eng.axiom(addr > 0); fresh_addr(eng, st, addr)
    args = [eng.ev(a, st) for a in n["a"]]
    h = eng.contracts.get("new:" + t.n) if t is not None and t.k == "rec" else None
    if h: h(eng, st, LV("obj", addr, t, (), t.n), args, n)
    elif not args and t is not None and t.k == "rec" and eng.obj_fields(t) and not eng.prog.byname.get(norm(t.n) + "::" + norm(t.n).split("::")[-1]):
        # a struct without constructor of its own: members have their initialisers or are default-initialised
        eng.write(st, LV("obj", addr, t, (), t.n), eng.default(t))
    else:
        eng.assumed.add("make_unique<%s>: contents arbitrary" % (t.n if t is not None else "?"))
        for a in args:
            if isinstance(a, LV) and strip(a.ty).k == "rec" and strip(a.ty).n in E.SMART and a.kind != "tmp": moved_from(eng, st, a, None)
    return addr
def fresh_addr(eng, st, addr):
    """a newly allocated address differs from every address allocated before on any path"""
    for x in getattr(eng, "allocs", []): eng.axiom(addr != x)
    eng.allocs = getattr(eng, "allocs", []) + [addr]

# ------------------------------------------------------------------ mutexes
def m_h(lv): return lv.ext(("f", "h", "std::mutex", Ty("int", w=64, s=1)), Ty("int", w=64, s=1))
def held(eng, st, m, ev):
    k = "held:" + m
    if k not in st.ghost: return
    d = z3.If(ev[1], z3.IntVal(1), z3.IntVal(0)) if isinstance(ev, tuple) else {"lock": 1, "lock_shared": 1, "unlock": -1, "unlock_shared": -1}.get(ev, 0)
    if not (isinstance(d, int) and d == 0): st.setg(k, z3.simplify(st.g(k) + d))
def lockhook(eng, st, lv, ev):
    if lv.path and lv.path[-1][1] in eng.guarded.values(): held(eng, st, lv.path[-1][1], ev)
    if lv.path:
        key = ".".join(p[1] for p in lv.path if p[0] == "f")
        h = eng.on_lock.get(key) or eng.on_lock.get(lv.path[-1][1])
        if h: h(eng, st, lv, ev)
    elif lv.kind == "loc" and isinstance(lv.root, tuple) and lv.root[0] == "g":
        h = eng.on_lock.get(str(lv.root[1]).split("::")[-1])
        if h: h(eng, st, lv, ev)
def m_lock(eng, st, lv, ev="lock"):
    h = m_h(lv)
    v = eng.read_raw(st, h); eng.write(st, h, z3.simplify(v + 1)); lockhook(eng, st, lv, ev)
def m_unlock(eng, st, lv, ev="unlock"):
    lockhook(eng, st, lv, "pre_" + ev)
    h = m_h(lv); v = eng.read_raw(st, h); eng.write(st, h, z3.simplify(v - 1)); lockhook(eng, st, lv, ev)
@meth("MUTEX", "lock")
def _(eng, st, this, a, n): m_lock(eng, st, this)
@meth("MUTEX", "lock_shared")
def _(eng, st, this, a, n): m_lock(eng, st, this, "lock_shared")
@meth("MUTEX", "unlock")
def _(eng, st, this, a, n): m_unlock(eng, st, this)
@meth("MUTEX", "unlock_shared")
def _(eng, st, this, a, n): m_unlock(eng, st, this, "unlock_shared")
@meth("MUTEX", "try_lock", "try_lock_for", "try_lock_until", "try_lock_shared")
def _(eng, st, this, a, n):
    ok = z3.Const(fresh_name("trylock"), B)
    h = m_h(this); v = eng.read_raw(st, h); eng.write(st, h, z3.If(ok, v + 1, v))
    lockhook(eng, st, this, ("try", ok)); return ok
def ctor_guard(eng, st, n, ty):
    a = n["a"]
    if not a: return Guard(None, F)
    m = eng.ev(a[0], st)
    if n.get("move") or (isinstance(m, LV) and strip(m.ty).n in E.GUARDS):
        v = eng.read_raw(st, m); eng.write(st, m, Guard(None, F)); return v
    if isinstance(m, LV) and m.kind == "loc" and isinstance(st.locals.get(m.root), RefTo): m = st.locals[m.root].lv
    if len(a) > 1:
        t = strip(eng.ty(a[1])).n
        if t == "std::defer_lock_t": return Guard(m, F)
        if t == "std::adopt_lock_t": return Guard(m, T)
        if t == "std::try_to_lock_t" or (t or "").startswith("std::chrono"):
            ok = z3.Const(fresh_name("trylock"), B); h = m_h(m); v = eng.read_raw(st, h); eng.write(st, h, z3.If(ok, v + 1, v)); lockhook(eng, st, m, ("try", ok)); return Guard(m, ok)
    m_lock(eng, st, m, "lock_shared" if ty.n == "std::shared_lock" else "lock"); return Guard(m, T)
for c in E.GUARDS: CTORS[c] = ctor_guard
def guard_release(eng, st, g):
    if z3.is_false(g.owned): return
    if z3.is_true(g.owned): m_unlock(eng, st, g.m); return
    if eng.valid(st, g.owned): m_unlock(eng, st, g.m); return
    if eng.valid(st, z3.Not(g.owned)): return
    a = st.copy().assume(g.owned); m_unlock(eng, a, g.m); eng.join(st, [(a, T), (st.copy().assume(z3.Not(g.owned)), T)])
@meth("GUARDS", "unlock")
def _(eng, st, this, a, n):
    g = eng.read_raw(st, this); guard_release(eng, st, g); eng.write(st, this, Guard(g.m, F))
@meth("GUARDS", "lock")
def _(eng, st, this, a, n):
    g = eng.read_raw(st, this); m_lock(eng, st, g.m); eng.write(st, this, Guard(g.m, T))
@meth("GUARDS", "try_lock")
def _(eng, st, this, a, n):
    g = eng.read_raw(st, this); ok = z3.Const(fresh_name("trylock"), B); h = m_h(g.m); v = eng.read_raw(st, h); eng.write(st, h, z3.If(ok, v + 1, v)); eng.write(st, this, Guard(g.m, ok)); return ok
@meth("GUARDS", "owns_lock", "operator bool")
def _(eng, st, this, a, n): return eng.read_raw(st, this).owned
@meth("std::condition_variable", "notify_one", "notify_all")
@meth("std::condition_variable_any", "notify_one", "notify_all")
def _(eng, st, this, a, n): return None

# ------------------------------------------------------------------ chrono
def ratio(ty):
    if ty.k != "rec": return None
    if ty.n == "std::chrono::time_point": return ratio(ty.a[1])
    if ty.n == "std::chrono::duration":
        r = ty.a[1]; return (r.a[0], r.a[1])
    return None
def dconv(v, fr, to):
    if fr is None or to is None or fr == to: return v
    num = fr[0] * to[1]; den = fr[1] * to[0]
    import math
    g = math.gcd(num, den); num //= g; den //= g
    if den == 1: return v * num
    if num == 1: return z3.If(v >= 0, v / den, -((-v) / den))
    x = v * num; return z3.If(x >= 0, x / den, -((-x) / den))
def ctor_dur(eng, st, n, ty):
    if not n["a"]: return z3.IntVal(0)
    v = eng.evr(n["a"][0], st); at = strip(eng.ty(n["a"][0]))
    if at.k == "rec" and ratio(at): return dconv(v, ratio(at), ratio(ty))
    return v
CTORS["std::chrono::duration"] = ctor_dur; CTORS["std::chrono::time_point"] = ctor_dur
@func("std::chrono::duration_cast", "std::chrono::time_point_cast", "std::chrono::floor")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); return dconv(v, ratio(strip(a[0].ty)) if isinstance(a[0], LV) else ratio(strip(eng.ty(n["a"][0]))), ratio(eng.ty(n)))
@meth("std::chrono::duration", "count")
@meth("std::chrono::time_point", "time_since_epoch")
def _(eng, st, this, a, n): return eng.read(st, this)
@func("std::chrono::duration::zero")
def _(eng, st, this, a, n): return z3.IntVal(0)
@func("std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now", "std::chrono::steady_clock::now", "std::chrono::system_clock::now")
def _(eng, st, this, a, n):
    t = z3.Const(fresh_name("now"), I); eng.axiom(z3.And(t >= 0, t < (1 << 62)))
    last = st.ghost.get("clock")
    if last is not None: st.assume(t >= last); st.setg("clock", t)
    return t
def chrono_bin(eng, st, this, a, n):
    op = n["op"]; ts = [strip(x.ty) if isinstance(x, LV) else strip(eng.ty(y)) for x, y in zip(a, n["a"])]
    x, y = eng.rv(a[0], st), eng.rv(a[1], st)
    rs = [ratio(t) for t in ts]
    if rs[0] and rs[1]:
        # common type: finer of the two
        c = min(rs, key=lambda r: r[0] / r[1]); x = dconv(x, rs[0], c); y = dconv(y, rs[1], c)
        out = ratio(strip(eng.ty(n))) if strip(eng.ty(n)).k == "rec" else None
    else: c = rs[0] or rs[1]; out = c
    if op in ("<", ">", "<=", ">="): return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
    if op == "==": return x == y
    if op == "!=": return x != y
    if op == "<=>": return z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))
    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "%": lambda: x % y}[op]()
    return dconv(r, c, out) if out and c else r
for o in ("+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "<=>"): FUNCS["std::chrono::operator" + o] = chrono_bin
@meth(["std::chrono::duration", "std::chrono::time_point"], "operator+=", "operator-=")
def _(eng, st, this, a, n):
    x = eng.read(st, this); y = eng.rv(a[0], st); y = dconv(y, ratio(strip(a[0].ty)) if isinstance(a[0], LV) else None, ratio(strip(this.ty)))
    eng.write(st, this, x + y if "+=" in n["fn"] else x - y); return this

# ------------------------------------------------------------------ optional
CTORS["std::optional"] = lambda eng, st, n, ty: opt_ctor(eng, st, n, ty)
def opt_ctor(eng, st, n, ty):
    if not n["a"] or strip(eng.ty(n["a"][0])).n == "std::nullopt_t": return eng.default(ty)
    v = eng.evr(n["a"][0], st)
    if isinstance(v, SV) and v.ty is not None and v.ty.k == "rec" and v.ty.n == "std::optional": return v
    return SV(ty, {"has": T, "v": v})
@meth("std::optional", "has_value", "operator bool")
def _(eng, st, this, a, n): return eng.read(st, this).f["has"]
@meth("std::optional", "value", "operator*")
def _(eng, st, this, a, n): t = strip(this.ty).a[0]; return this.ext(("f", "v", "std::optional", t), t)
@meth("std::optional", "operator->")
def _(eng, st, this, a, n): t = strip(this.ty).a[0]; return PtrTo(this.ext(("f", "v", "std::optional", t), t))
@meth("std::optional", "operator=")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st); ty = strip(this.ty)
    if isinstance(v, SV) and v.ty is not None and v.ty.n in ("std::optional",): nv = v
    elif isinstance(a[0], LV) and strip(a[0].ty).n == "std::nullopt_t": nv = eng.default(ty)
    else: nv = SV(ty, {"has": T, "v": v})
    eng.write(st, this, nv); return this
@meth("std::optional", "reset")
def _(eng, st, this, a, n): eng.write(st, this, eng.default(strip(this.ty)))
@meth("std::optional", "value_or")
def _(eng, st, this, a, n): o = eng.read(st, this); return merge_val(o.f["has"], o.f["v"], eng.rv(a[0], st))

# ------------------------------------------------------------------ sequences
def elem_ty(ty):
    if ty.k == "arr": return ty.to
    if ty.n == "std::multimap": return Ty("rec", n="std::pair", a=(ty.a[0], ty.a[1]), key="pair")
    return ty.a[0]
def range_kind(eng, ty, v):
    if ty.k == "arr": return "seq"
    if ty.k == "rec" and ty.n in E.SEQ: return "seq"
    if ty.k == "rec" and (ty.n in E.MAPS or ty.n in E.SETS) and isinstance(v, SV): return "map" if "has" in v.f else "seq"
    return None
def seq_len(eng, v, ty):
    if "len" in v.f: return v.f["len"]
    return z3.IntVal(ty.alen)
def seq_eq(eng, a, b):
    i = z3.Int(fresh_name("i")); x, y = eng.select(a.f["el"], i), eng.select(b.f["el"], i)
    return z3.And(a.f["len"] == b.f["len"], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.f["len"]), eng.equal(x, y))))
def ctor_seq(eng, st, n, ty):
    a = n["a"]
    if not a: return eng.default(ty)
    v = eng.evr(a[0], st)
    if isinstance(v, SV) and "el" in v.f: return SV(ty, {"len": v.f.get("len", z3.IntVal(0)), "el": v.f["el"]})
    if is_z3(v) and v.sort() == I and len([x for x in a if not is_alloc(eng, x)]) >= 1:
        r = eng.fresh(ty, "seq"); r = r.set("len", v)
        dv = eng.evr(a[1], st) if len(a) > 1 and not is_alloc(eng, a[1]) else eng.default(ty.a[0])
        return SV(ty, {"len": v, "el": const_tree(eng, r.f["el"], dv)})
    if isinstance(v, It) and len(a) >= 2: return eng.fresh(ty, "seq")
    return eng.fresh(ty, "seq")
def const_tree(eng, tree, val):
    if is_z3(tree): return z3.K(tree.sort().domain(), val)
    return SV(tree.ty, {n: const_tree(eng, x, val.f[n]) for n, x in tree.f.items()})
for c in E.SEQ: CTORS[c] = ctor_seq
@meth("SEQ", "size")
def _(eng, st, this, a, n): return seq_len(eng, eng.read(st, this), strip(this.ty))
@meth("SEQ", "empty")
def _(eng, st, this, a, n): 
    l = seq_len(eng, eng.read(st, this), strip(this.ty)); return z3.simplify(l == 0) if z3.is_int_value(l) else l == 0
@meth("SEQ", "begin", "cbegin")
def _(eng, st, this, a, n):
    v = eng.read(st, this)
    if isinstance(v, SV): mm_facts(eng, st, v)
    return It("seq", this, z3.IntVal(0))
@meth("SEQ", "end", "cend")
def _(eng, st, this, a, n): return It("seq", this, seq_len(eng, eng.read(st, this), strip(this.ty)))
@meth("SEQ", "rbegin")
def _(eng, st, this, a, n): return It("seq", this, z3.IntVal(0), None, True)
@meth("SEQ", "rend")
def _(eng, st, this, a, n): return It("seq", this, seq_len(eng, eng.read(st, this), strip(this.ty)), None, True)
def seq_bound(eng, st, this, i):
    if getattr(eng, "side_obls", False): eng.prove(st, z3.And(i >= 0, i < seq_len(eng, eng.read(st, this), strip(this.ty))), "index in range")
@meth("SEQ", "operator[]", "at")
def _(eng, st, this, a, n):
    i = eng.rv(a[0], st); t = elem_ty(strip(this.ty)); 
    if "at" == n["fn"].split("::")[-1]: eng.raise_(st, Not_(z3.And(i >= 0, i < seq_len(eng, eng.read(st, this), strip(this.ty)))), Exc("std::out_of_range"))
    else: seq_bound(eng, st, this, i)
    return this.ext(("i", i), t)
@meth("SEQ", "front", "top")
def _(eng, st, this, a, n): t = elem_ty(strip(this.ty)); seq_bound(eng, st, this, z3.IntVal(0)); return this.ext(("i", z3.IntVal(0)), t)
@meth("SEQ", "back")
def _(eng, st, this, a, n): t = elem_ty(strip(this.ty)); l = seq_len(eng, eng.read(st, this), strip(this.ty)); seq_bound(eng, st, this, l - 1); return this.ext(("i", l - 1), t)
def as_elem(eng, st, args, ety, n):
    """element value from emplace/push arguments"""
    if len(args) == 1:
        v = eng.rv(args[0], st)
        if isinstance(args[0], LV) and strip(args[0].ty).k == "rec" and strip(args[0].ty).n == "std::unique_ptr": moved_from(eng, st, args[0], v)
        es = eng.leaf_sort(ety)
        if es is not None and is_z3(v) and v.sort() == es: return v
        if es is not None and isinstance(v, PtrTo): return eng.opaque_leaf(es, v)
        if es is None and isinstance(v, SV): return v
        if es == Str: return tostr(eng, v)
    if ety.k == "rec" and ety.n in ("std::pair", "std::tuple") and len(args) == len(ety.a):
        names = ["first", "second"] if ety.n == "std::pair" else ["_%d" % i for i in range(len(ety.a))]
        return SV(ety, {nm: as_elem(eng, st, [x], t, n) for nm, x, t in zip(names, args, ety.a)})
    h = eng.contracts.get("emplace:" + (ety.n or ""))
    if h: return h(eng, st, args, ety, n)
    # aggregate / constructor of a repo struct
    if ety.k == "rec":
        cand = [f for f in eng.prog.byname.get(ety.n + "::" + ety.n.split("::")[-1], []) if len(f.ps) == len(args)]
        if len(cand) == 1:
            tmp = eng.new_tmp(st, eng.default(ety), ety); eng.inline(cand[0], st, tmp, args); return eng.read(st, tmp)
    eng.assumed.add("element construction of %r arbitrary" % ety)
    return eng.fresh(ety, "elem")
@meth("SEQ", "push_back", "emplace_back", "push", "emplace")
def _(eng, st, this, a, n):
    ty = strip(this.ty)
    if ty.n == "std::multimap": return mm_insert(eng, st, this, as_elem(eng, st, a, elem_ty(ty), n))
    if n["fn"].split("::")[-1] == "emplace" and ty.n not in ("std::queue",): return seq_insert(eng, st, this, eng.rv(a[0], st), as_elem(eng, st, a[1:], elem_ty(ty), n))
    v = as_elem(eng, st, a, elem_ty(ty), n); s = eng.read(st, this)
    eng.write(st, this, SV(s.ty, {"len": z3.simplify(s.f["len"] + 1), "el": eng.store(s.f["el"], s.f["len"], v)}))
    if n.get("lv"): return this.ext(("i", s.f["len"]), elem_ty(ty))
def shift(eng, tree, p, d):
    """tree' with tree'[i] = i<p ? tree[i] : tree[i-d]"""
    i = z3.Int("i!sh")
    return eng.map_leaves(tree, lambda t, _: z3.Lambda([i], z3.If(i < p, z3.Select(t, i), z3.Select(t, i - d))))
# a multimap is its elements in order plus, when tracked, the number of elements of each (key, tracked leaf): theorems about finite sequences
def mm_leaf(eng, pair):
    """path of the tracked leaf in the element shape or value, or None"""
    if isinstance(pair, tuple):
        sec = pair[2]["second"]
        if sec[0] == "leaf": return ("second",) if sec[1] == I and "" in eng.mm_track else None
        return next((("second", nm) for nm, x in sec[2].items() if nm in eng.mm_track and x[0] == "leaf"), None)
    sec = pair.f["second"]
    return ("second",) if is_z3(sec) else next((("second", nm) for nm in sec.f if nm in eng.mm_track), None)
def mm_attr(eng, el):
    t = el
    for q in mm_leaf(eng, el): t = t.f[q]
    return t
def mm_at(cnt, k, a): return z3.Select(z3.Select(cnt, k), a)
def mm_facts(eng, st, s):
    """keys ascend; an element's count is positive; a positive count has an element; counts are never negative"""
    if "cnt" not in s.f: return
    F_, L_, n, C0 = s.f["el"].f["first"], mm_attr(eng, s.f["el"]), s.f["len"], s.f["cnt"]
    key = (F_.get_id(), L_.get_id(), n.get_id(), C0.get_id()); memo = eng.__dict__.setdefault("mm_done", {})
    if key not in memo:
        def named(t):
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
            c = z3.Const(fresh_name("mm"), t.sort()); eng.axiom(c == t); return c
        C = named(C0); i, j, k, a = z3.Ints("i!m j!m k!m a!m"); w = z3.Function(fresh_name("mm_where"), I, I, I)
        memo[key] = (F_, L_, n, C0, z3.And(n >= 0,
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(F_, i) <= z3.Select(F_, j)), patterns=[z3.MultiPattern(z3.Select(F_, i), z3.Select(F_, j))]) if ok_pattern(z3.Select(F_, i)) else z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(F_, i) <= z3.Select(F_, j))),
            forall([i], z3.Implies(z3.And(0 <= i, i < n), mm_at(C, z3.Select(F_, i), z3.Select(L_, i)) >= 1), z3.Select(L_, i)),
            forall([k, a], z3.And(mm_at(C, k, a) >= 0, z3.Implies(mm_at(C, k, a) >= 1, z3.And(0 <= w(k, a), w(k, a) < n, z3.Select(F_, w(k, a)) == k, z3.Select(L_, w(k, a)) == a))), mm_at(C, k, a))))
    f = memo[key][4]
    if not any(x.eq(f) for x in st.pc): st.assume(f)
def mm_new(eng, s, k, a, d):
    c = z3.Const(fresh_name("mmcnt"), s.f["cnt"].sort()); eng.axiom(c == z3.Store(s.f["cnt"], k, z3.Store(z3.Select(s.f["cnt"], k), a, mm_at(s.f["cnt"], k, a) + d))); return {"cnt": c}
def seq_insert(eng, st, this, it, v):
    s = eng.read(st, this); p = it.pos if isinstance(it, It) else it
    el = eng.store(shift(eng, s.f["el"], p, 1), p, v); x = {}
    if "cnt" in s.f: x = mm_new(eng, s, v.f["first"], mm_attr(eng, v), 1)
    nv = SV(s.ty, dict({"len": s.f["len"] + 1, "el": el}, **x)); mm_facts(eng, st, nv)
    eng.write(st, this, nv); return It("seq", this, p)
def seq_erase(eng, st, this, p):
    s = eng.read(st, this); i = z3.Int("i!er"); x = {}
    el = eng.map_leaves(s.f["el"], lambda t, _: z3.Lambda([i], z3.If(i < p, z3.Select(t, i), z3.Select(t, i + 1))))
    if "cnt" in s.f: mm_facts(eng, st, s); x = mm_new(eng, s, z3.Select(s.f["el"].f["first"], p), z3.Select(mm_attr(eng, s.f["el"]), p), -1)
    nv = SV(s.ty, dict({"len": s.f["len"] - 1, "el": el}, **x)); mm_facts(eng, st, nv)
    eng.write(st, this, nv)
@meth("SEQ", "insert")
def _(eng, st, this, a, n):
    ty = strip(this.ty)
    if ty.n == "std::multimap" and len(a) == 1: return mm_insert(eng, st, this, as_elem(eng, st, a, elem_ty(ty), n))
    if len(a) == 2:
        it = eng.rv(a[0], st); return seq_insert(eng, st, this, it, as_elem(eng, st, a[1:], elem_ty(ty), n))
    if len(a) == 3:
        x, y = eng.rv(a[1], st), eng.rv(a[2], st); it = eng.rv(a[0], st); s = eng.read(st, this)
        src = eng.read(st, x.c) if isinstance(x, It) else None
        if src is None: raise Unsupported("insert range")
        k = y.pos - x.pos; i = z3.Int("i!ins"); p = it.pos
        def f(t, path):
            o = src.f["el"]
            for q in path: o = o.f[q]
            return z3.Lambda([i], z3.If(i < p, z3.Select(t, i), z3.If(i < p + k, z3.Select(o, i - p + x.pos), z3.Select(t, i - k))))
        eng.write(st, this, SV(s.ty, {"len": s.f["len"] + k, "el": eng.map_leaves(s.f["el"], f)})); return It("seq", this, p)
    raise Unsupported("insert")
def mm_insert(eng, st, this, v):
    """multimap insert: at upper_bound(key)"""
    s = eng.read(st, this); p = z3.Const(fresh_name("ub"), I); ln = s.f["len"]; k = v.f["first"]; ks = s.f["el"].f["first"]
    if not is_z3(k) or k.sort() != I: raise Unsupported("multimap key")
    j = z3.Int("j!mm")
    st.assume(z3.And(p >= 0, p <= ln, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Select(ks, j) <= k)), z3.ForAll([j], z3.Implies(z3.And(j >= p, j < ln), z3.Select(ks, j) > k))))
    return seq_insert(eng, st, this, p, v)
@meth("SEQ", "pop_front", "pop")
def _(eng, st, this, a, n): seq_bound(eng, st, this, z3.IntVal(0)); seq_erase(eng, st, this, z3.IntVal(0))
@meth("SEQ", "pop_back")
def _(eng, st, this, a, n):
    s = eng.read(st, this); eng.write(st, this, s.set("len", s.f["len"] - 1))
@meth("SEQ", "push_front", "emplace_front")
def _(eng, st, this, a, n):
    seq_insert(eng, st, this, z3.IntVal(0), as_elem(eng, st, a, elem_ty(strip(this.ty)), n))
@meth("SEQ", "clear")
def _(eng, st, this, a, n):
    s = eng.read(st, this).set("len", z3.IntVal(0))
    if "cnt" in s.f: s = s.set("cnt", z3.K(I, z3.K(I, z3.IntVal(0))))
    eng.write(st, this, s)
@meth("SEQ", "reserve", "shrink_to_fit")
def _(eng, st, this, a, n): return None
@meth("SEQ", "erase")
def _(eng, st, this, a, n):
    it = eng.rv(a[0], st)
    if len(a) == 1 and isinstance(it, It): seq_erase(eng, st, this, it.pos); return It("seq", this, it.pos)
    if len(a) == 2:
        x, y = it, eng.rv(a[1], st); s = eng.read(st, this); k = y.pos - x.pos; i = z3.Int("i!er")
        if "cnt" in s.f:
            cf = z3.Const(fresh_name("mmcnt"), s.f["cnt"].sort()); el = eng.map_leaves(s.f["el"], lambda t, _: z3.Lambda([i], z3.If(i < x.pos, z3.Select(t, i), z3.Select(t, i + k))))
            nv = SV(s.ty, {"len": s.f["len"] - k, "el": el, "cnt": cf}); mm_facts(eng, st, nv); eng.write(st, this, nv); return It("seq", this, x.pos)
        el = eng.map_leaves(s.f["el"], lambda t, _: z3.Lambda([i], z3.If(i < x.pos, z3.Select(t, i), z3.Select(t, i + k))))
        eng.write(st, this, SV(s.ty, {"len": s.f["len"] - k, "el": el})); return It("seq", this, x.pos)
    if len(a) == 1 and is_z3(it) and strip(this.ty).n == "std::multimap":
        raise Unsupported("multimap erase by key")
    raise Unsupported("erase")
@meth("SEQ", "resize")
def _(eng, st, this, a, n):
    s = eng.read(st, this); k = eng.rv(a[0], st); dv = eng.rv(a[1], st) if len(a) > 1 else eng.default(elem_ty(strip(this.ty))); i = z3.Int("i!rs")
    def f(t, path):
        d = dv
        for q in path: d = d.f[q]
        return z3.Lambda([i], z3.If(i < s.f["len"], z3.Select(t, i), d))
    eng.write(st, this, SV(s.ty, {"len": k, "el": eng.map_leaves(s.f["el"], f)}))
@meth("SEQ", "operator=", "swap")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st)
    if n["fn"].endswith("swap"): 
        o = eng.read(st, this); eng.write(st, this, v); eng.write(st, a[0], o); return
    if isinstance(v, SV) and "el" in v.f: v = SV(strip(this.ty), {"len": v.f["len"], "el": v.f["el"]})
    if n.get("pt") and eng.tu.ty(n["pt"][0]).rv and isinstance(a[0], LV): moved_from(eng, st, a[0], v)
    eng.write(st, this, v); return this
@meth("std::multimap", "upper_bound", "lower_bound", "find", "equal_range")
def _(eng, st, this, a, n):
    s = eng.read(st, this); mm_facts(eng, st, s); k = eng.rv(a[0], st); ks = s.f["el"].f["first"]; p = z3.Const(fresh_name("bnd"), I); j = z3.Int("j!mm"); nm = n["fn"].split("::")[-1]; ln = s.f["len"]
    if nm == "upper_bound": st.assume(z3.And(p >= 0, p <= ln, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Select(ks, j) <= k)), z3.ForAll([j], z3.Implies(z3.And(j >= p, j < ln), z3.Select(ks, j) > k))))
    elif nm in ("lower_bound", "find"):
        st.assume(z3.And(p >= 0, p <= ln, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Select(ks, j) < k)), z3.ForAll([j], z3.Implies(z3.And(j >= p, j < ln), z3.Select(ks, j) >= k))))
        if nm == "find": return It("seq", this, z3.If(z3.And(p < ln, z3.Select(ks, p) == k), p, ln))
    else:
        q = z3.Const(fresh_name("bnd"), I)
        st.assume(z3.And(p >= 0, p <= q, q <= ln, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Select(ks, j) < k)), z3.ForAll([j], z3.Implies(z3.And(j >= p, j < q), z3.Select(ks, j) == k)), z3.ForAll([j], z3.Implies(z3.And(j >= q, j < ln), z3.Select(ks, j) > k))))
        return SV(eng.ty(n), {"first": It("seq", this, p), "second": It("seq", this, q)})
    return It("seq", this, p)

# ------------------------------------------------------------------ iterators
def it_base(eng, lv, st):
    return lv
def it_deref(eng, st, it):
    if it.kind == "seq":
        t = elem_ty(strip(it.c.ty)); i = it.pos
        if it.rev: i = seq_len(eng, eng.read(st, it.c), strip(it.c.ty)) - 1 - it.pos
        seq_bound(eng, st, it.c, i)
        return it.c.ext(("i", i), t)
    ty = strip(it.c.ty)
    if ty.n in E.SETS: return LV("tmp", it.pos, ty.a[0])
    pt = Ty("rec", n="std::pair", a=(ty.a[0], ty.a[1]), key="pair")
    return LV("tmp", SV(pt, {"first": it.pos, "second": RefTo(it.c.ext(("k", it.pos), ty.a[1]))}), pt)
def it_eq(eng, a, b):
    if not lv_eq(a.c, b.c): raise Unsupported("comparing iterators of different containers")
    if a.kind == "seq": return z3.simplify(a.pos == b.pos) if z3.is_int_value(a.pos) and z3.is_int_value(b.pos) else a.pos == b.pos
    ea, eb = a.end, b.end
    return Or_([And_([ea, eb]), And_([Not_(ea), Not_(eb), eng.equal(a.pos, b.pos) if a.pos is not None and b.pos is not None else F])])
for c in E.ITS:
    @meth(c, "operator*")
    def _(eng, st, this, a, n): return it_deref(eng, st, eng.read_raw(st, this))
    @meth(c, "operator->")
    def _(eng, st, this, a, n): return PtrTo(it_deref(eng, st, eng.read_raw(st, this)))
    @meth(c, "operator++", "operator--")
    def _(eng, st, this, a, n):
        it = eng.read_raw(st, this); post = len(n.get("pt", [])) == 1; d = 1 if "++" in n["fn"] else -1
        if it.kind == "seq": nv = It("seq", it.c, it.pos + d, None, it.rev)
        else: nv = map_next(eng, st, it, d)
        eng.write(st, this, nv); return it if post else this
    @meth(c, "operator+", "operator-")
    def _(eng, st, this, a, n):
        it = eng.read_raw(st, this); d = eng.rv(a[0], st)
        if isinstance(d, It): return it.pos - d.pos
        return It("seq", it.c, it.pos + d if "+" in n["fn"][-1] else it.pos - d, None, it.rev)
    @meth(c, "operator+=", "operator-=")
    def _(eng, st, this, a, n):
        it = eng.read_raw(st, this); d = eng.rv(a[0], st); eng.write(st, this, It("seq", it.c, it.pos + d if "+=" in n["fn"] else it.pos - d, None, it.rev)); return this
    @meth(c, "operator=")
    def _(eng, st, this, a, n): eng.write(st, this, eng.rv(a[0], st)); return this
    @meth(c, "operator==", "operator!=")
    def _(eng, st, this, a, n):
        r = it_eq(eng, eng.read_raw(st, this), eng.rv(a[0], st)); return r if "==" in n["fn"] else Not_(r)
    def ctor_it(eng, st, n, ty): 
        if not n["a"]: return Opaque("iterator")
        return eng.evr(n["a"][0], st)
    CTORS[c] = ctor_it
for o in ("==", "!="):
    def f(eng, st, this, a, n, o=o):
        r = it_eq(eng, eng.rv(a[0], st), eng.rv(a[1], st)); return r if o == "==" else Not_(r)
    FUNCS["__gnu_cxx::operator" + o] = f; FUNCS["std::__detail::operator" + o] = f
@func("__gnu_cxx::operator-")
def _(eng, st, this, a, n): return eng.rv(a[0], st).pos - eng.rv(a[1], st).pos
@func("__gnu_cxx::operator<", "__gnu_cxx::operator<=>", "__gnu_cxx::operator>", "__gnu_cxx::operator<=", "__gnu_cxx::operator>=")
def _(eng, st, this, a, n): return eng.binop(n["op"], eng.rv(a[0], st), eng.rv(a[1], st), None, None, Ty("bool"))
@func("std::next", "std::prev", "std::advance", "std::distance")
def _(eng, st, this, a, n):
    it = eng.rv(a[0], st); nm = n["fn"].split("::")[1].split("<")[0]
    if nm == "distance": return eng.rv(a[1], st).pos - it.pos
    d = eng.rv(a[1], st) if len(a) > 1 else z3.IntVal(1)
    if it.kind != "seq": return map_next(eng, st, it, 1 if nm == "next" else -1)
    nv = It("seq", it.c, it.pos - d if nm == "prev" else it.pos + d, None, it.rev)
    if nm == "advance": eng.write(st, a[0], nv); return
    return nv
@func("std::begin", "std::end", "std::size", "std::empty")
def _(eng, st, this, a, n):
    nm = n["fn"].split("::")[1].split("<")[0]; f = method(norm(strip(a[0].ty).n or ""), nm); return f(eng, st, a[0], [], n)

# ------------------------------------------------------------------ maps and sets
def ci(ty):
    for x in ty.a[1:]:
        if isinstance(x, Ty) and x.k == "rec" and x.n == "STableComp": return True
    return False
def key_of(eng, st, lvty, k):
    v = eng.rv(k, st)
    if isinstance(v, PtrTo): v = eng.opaque_leaf(I, v)
    if isinstance(v, SV) and eng.leaf_sort(lvty.a[0]) == Str: v = z3.Const(fresh_name("str"), Str)
    if ci(lvty) and is_z3(v) and v.sort() == Str: v = lower(eng, v)
    return eng.toint(v) if eng.leaf_sort(lvty.a[0]) == I else v
def ctor_map(eng, st, n, ty):
    a = [x for x in n["a"]]
    d = eng.default(ty)
    if not a: return d
    v = eng.evr(a[0], st) if strip(eng.ty(a[0])).k in ("rec", "arr") else None
    if isinstance(v, SV) and "has" in v.f and "el" not in v.f: return v
    if isinstance(v, SV) and "el" in v.f and z3.is_int_value(z3.simplify(v.f.get("len", z3.Int("x")))):
        k = z3.simplify(v.f["len"]).as_long(); m = d
        if not isinstance(m, SV): return m
        for i in range(k):
            e = eng.select(v.f["el"], z3.IntVal(i)); key = e.f["first"] if ty.n in E.MAPS else e
            key = z3.simplify(key)
            kk = key_of(eng, st, ty, key)
            m = map_put(eng, m, ty, kk, e.f["second"] if ty.n in E.MAPS else None, only_new=True)
        return m
    return eng.fresh(ty, "map")
for c in list(E.MAPS) + list(E.SETS): CTORS[c] = ctor_map
def map_put(eng, m, ty, k, v, only_new=False):
    had = z3.simplify(z3.Select(m.f["has"], k)) if z3.is_K(m.f["has"]) or z3.is_store(m.f["has"]) else z3.Select(m.f["has"], k)
    f = {"has": z3.Store(m.f["has"], k, T), "n": z3.simplify(If_(had, m.f["n"], m.f["n"] + 1)) if z3.is_true(had) or z3.is_false(had) else z3.If(had, m.f["n"], m.f["n"] + 1)}
    if "val" in m.f: 
        nv = eng.store(m.f["val"], k, v) if v is not None else m.f["val"]
        f["val"] = merge_val(had, m.f["val"], nv) if only_new and not z3.is_false(had) else nv
    return SV(m.ty, f)
def has(eng, m, k): 
    h = z3.Select(m.f["has"], k)
    # size is positive when something is present
    if z3.is_const(m.f["n"]) or True: eng.axiom(z3.Implies(h, m.f["n"] >= 1))
    return h
@meth("MAPS", "operator[]")
def _(eng, st, this, a, n):
    ty = strip(this.ty); k = key_of(eng, st, ty, a[0]); m = eng.read(st, this)
    if not isinstance(m, SV): raise Unsupported("map with composite key")
    h = z3.Select(m.f["has"], k); hs = z3.simplify(h)
    if not z3.is_true(hs):
        dv = eng.default(ty.a[1]); cur = eng.select(m.f["val"], k)
        nm = map_put(eng, m, ty, k, merge_val(h, cur, dv) if not z3.is_false(hs) else dv)
        if "cst" not in n or not n.get("cst"): eng.write(st, this, nm)
    return this.ext(("k", k), ty.a[1])
@meth("MAPS", "at")
def _(eng, st, this, a, n):
    ty = strip(this.ty); k = key_of(eng, st, ty, a[0]); m = eng.read(st, this); eng.raise_(st, Not_(has(eng, m, k)), Exc("std::out_of_range"))
    return this.ext(("k", k), ty.a[1])
def _find(eng, st, this, a, n):
    ty = strip(this.ty); k = key_of(eng, st, ty, a[0]); m = eng.read(st, this)
    if not isinstance(m, SV): raise Unsupported("map with composite key")
    return It("map", this, k, z3.simplify(Not_(has(eng, m, k))))
for g in ("MAPS", "SETS"):
    meth(g, "find")(_find)
    @meth(g, "end", "cend")
    def _(eng, st, this, a, n):
        ty = strip(this.ty); return It("map", this, z3.Const("endkey_" + str(eng.leaf_sort(ty.a[0])), eng.leaf_sort(ty.a[0])), T)
    @meth(g, "count", "contains")
    def _(eng, st, this, a, n):
        ty = strip(this.ty); m = eng.read(st, this)
        if not isinstance(m, SV) or "has" not in m.f: return eng.fresh(eng.ty(n), "cnt")
        h = has(eng, m, key_of(eng, st, ty, a[0]))
        return h if n["fn"].endswith("contains") else If_(z3.simplify(h), z3.IntVal(1), z3.IntVal(0))
    @meth(g, "size")
    def _(eng, st, this, a, n): m = eng.read(st, this); return map_size(eng, m)
    @meth(g, "empty")
    def _(eng, st, this, a, n): 
        m = eng.read(st, this); 
        if not isinstance(m, SV): return eng.fresh(Ty("bool"), "empty")
        return map_size(eng, m) == 0
    @meth(g, "clear")
    def _(eng, st, this, a, n): eng.write(st, this, eng.default(strip(this.ty)))
    @meth(g, "operator=", "swap")
    def _(eng, st, this, a, n):
        v = eng.rv(a[0], st)
        if n["fn"].endswith("swap"): o = eng.read(st, this); eng.write(st, a[0], o)
        if isinstance(v, SV) and "el" in v.f: v = eng.fresh(strip(this.ty), "map")
        eng.write(st, this, v); return this
    @meth(g, "erase", "extract")
    def _(eng, st, this, a, n):
        ty = strip(this.ty); it = eng.rv(a[0], st); m = eng.read(st, this)
        if n["fn"].endswith("extract"):
            k = it.pos if isinstance(it, It) else key_of(eng, st, ty, a[0]); h = has(eng, m, k)
            r = {"first": k, "nh": h}
            if "val" in m.f: r["second"] = eng.select(m.f["val"], k)
            eng.write(st, this, m.set("has", z3.Store(m.f["has"], k, F)).set("n", z3.If(h, m.f["n"] - 1, m.f["n"])))
            return SV(Ty("rec", n="node_handle", key="node_handle"), r)
        if len(a) == 2: 
            y = eng.rv(a[1], st); raise Unsupported("map range erase")
        if "cnt" in m.f:
            k = it.pos if isinstance(it, It) else key_of(eng, st, ty, a[0]); ms_fact(eng, st, m, k); c = z3.Select(m.f["cnt"], k); d = z3.IntVal(1) if isinstance(it, It) else c
            eng.write(st, this, SV(m.ty, {"has": z3.Store(m.f["has"], k, c - d > 0), "n": m.f["n"] - d, "cnt": z3.Store(m.f["cnt"], k, c - d)})); return eng.fresh(eng.ty(n), "erased") if not isinstance(it, It) else It("map", this, z3.Const(fresh_name("next"), eng.leaf_sort(ty.a[0])), z3.Const(fresh_name("nend"), B))
        if isinstance(it, It):
            nxt = map_next(eng, st, it, 1)
            k = it.pos; eng.write(st, this, m.set("has", z3.Store(m.f["has"], k, F)).set("n", m.f["n"] - 1)); return nxt
        k = key_of(eng, st, ty, a[0]); h = has(eng, m, k)
        eng.write(st, this, m.set("has", z3.Store(m.f["has"], k, F)).set("n", z3.If(h, m.f["n"] - 1, m.f["n"]))); return z3.If(h, z3.IntVal(1), z3.IntVal(0))
    @meth(g, "begin", "cbegin")
    def _(eng, st, this, a, n): return map_first(eng, st, this)
    @meth(g, "upper_bound", "lower_bound")
    def _(eng, st, this, a, n):
        ty = strip(this.ty); m = eng.read(st, this); k = eng.rv(a[0], st); key = z3.Const(fresh_name("bnd"), I); q = z3.Int("q"); e = z3.Const(fresh_name("bend"), B); ub = n["fn"].endswith("upper_bound")
        if eng.leaf_sort(ty.a[0]) != I: raise Unsupported("bound on string map")
        c = (lambda x: x > k) if ub else (lambda x: x >= k)
        st.assume(z3.If(e, z3.ForAll([q], z3.Implies(z3.Select(m.f["has"], q), z3.Not(c(q)))), z3.And(z3.Select(m.f["has"], key), c(key), z3.ForAll([q], z3.Implies(z3.And(z3.Select(m.f["has"], q), c(q)), key <= q)))))
        return It("map", this, key, e)
def ms_fact(eng, st, m, k): st.assume(And_([z3.Select(m.f["has"], k) == (z3.Select(m.f["cnt"], k) > 0), z3.Select(m.f["cnt"], k) >= 0, z3.Select(m.f["cnt"], k) <= m.f["n"]]))
def map_size(eng, m):
    if "has" not in m.f: return m.f["len"]
    n = m.f["n"]
    if not z3.is_int_value(n):
        ks = m.f["has"].sort().domain(); q = z3.Const("q!sz", ks)
        eng.axiom((n == 0) == forall([q], z3.Not(z3.Select(m.f["has"], q)), z3.Select(m.f["has"], q)))
        eng.axiom(n >= 0)
    return n
def map_first(eng, st, this):
    ty = strip(this.ty); m = eng.read(st, this); ks = eng.leaf_sort(ty.a[0]); key = z3.Const(fresh_name("first"), ks); e = map_size(eng, m) == 0
    eng.range_axiom(key, ty.a[0])
    st.assume(z3.Implies(Not_(e), z3.Select(m.f["has"], key)))
    if ks == I:
        q = z3.Int("q"); st.assume(forall([q], z3.Implies(z3.Select(m.f["has"], q), key <= q), z3.Select(m.f["has"], q)))
    return It("map", this, key, e)
def map_next(eng, st, it, d):
    ty = strip(it.c.ty); m = eng.read(st, it.c); ks = eng.leaf_sort(ty.a[0])
    key = z3.Const(fresh_name("next"), ks); e = z3.Const(fresh_name("nend"), B); q = z3.Const("q", ks)
    eng.range_axiom(key, ty.a[0])
    st.assume(z3.Implies(Not_(e), z3.Select(m.f["has"], key)))
    if ks == I:
        lt = (lambda x, y: x < y) if d > 0 else (lambda x, y: x > y)
        after = (lambda x: z3.Or(it.end, lt(it.pos, x))) if d < 0 else (lambda x: lt(it.pos, x))
        st.assume(z3.If(e, z3.ForAll([q], z3.Implies(z3.Select(m.f["has"], q), z3.Not(after(q)))), z3.And(after(key), z3.ForAll([q], z3.Implies(z3.And(z3.Select(m.f["has"], q), after(q)), key <= q if d > 0 else key >= q)))))
    return It("map", it.c, key, e)
@meth("MAPS", "insert", "emplace", "try_emplace", "insert_or_assign")
def _(eng, st, this, a, n):
    ty = strip(this.ty); m = eng.read(st, this); nm = n["fn"].split("::")[-1].split("<")[0]
    if len(a) == 2 and isinstance(eng.rv(a[0], st), It):
        # insert(range): pairs of the other map that are not present yet
        x = eng.rv(a[0], st); o = eng.read(st, x.c); q = z3.Const("q!in", m.f["has"].sort().domain())
        if "has" not in o.f: eng.write(st, this, eng.fresh(ty, "map")); return None
        hs = z3.Lambda([q], z3.Or(z3.Select(m.f["has"], q), z3.Select(o.f["has"], q)))
        def mix(t, path):
            ov = o.f["val"]
            for p in path: ov = ov.f[p]
            return z3.Lambda([q], z3.If(z3.Select(m.f["has"], q), z3.Select(t, q), z3.Select(ov, q)))
        nn = z3.Const(fresh_name("n"), I); eng.axiom(nn >= 0)
        eng.write(st, this, SV(ty, {"has": hs, "val": eng.map_leaves(m.f["val"], mix), "n": nn})); return None
    if not isinstance(m, SV): eng.write(st, this, eng.fresh(ty, "map")); return eng.fresh(eng.ty(n), "ins") if eng.ty(n).k != "void" else None
    if len(a) == 1 and isinstance(eng.rv(a[0], st), SV) and "nh" in eng.rv(a[0], st).f:
        v = eng.rv(a[0], st); k = v.f["first"]; put = map_put(eng, m, ty, k, v.f["second"], only_new=True)
        eng.write(st, this, merge_val(v.f["nh"], put, m)); return eng.fresh(Ty("int", w=64, s=1), "nhins")
    if nm == "try_emplace" and len(a) == 1: k = key_of(eng, st, ty, a[0]); val = eng.default(ty.a[1])
    elif len(a) == 1:
        v = eng.rv(a[0], st)
        if not isinstance(v, SV): raise Unsupported("map insert")
        k, val = v.f["first"], v.f["second"]
        if isinstance(val, RefTo): val = eng.read(st, val.lv)
        k = key_of(eng, st, ty, k)
    else:
        k = key_of(eng, st, ty, a[0]); val = as_elem(eng, st, a[1:], ty.a[1], n)
    h = has(eng, m, k)
    eng.write(st, this, map_put(eng, m, ty, k, val, only_new=(nm != "insert_or_assign")))
    return SV(eng.ty(n), {"first": It("map", this, k, F), "second": Not_(h)})
def set_insert(eng, st, this, v, n):
    """set of values that are not scalars: its elements in some order; equal to an element already there, or put somewhere"""
    s = eng.read(st, this); dup, p = z3.Const(fresh_name("dup"), B), z3.Const(fresh_name("setpos"), I); st.assume(And_([p >= 0, p <= s.f["len"], z3.Implies(dup, And_([p < s.f["len"], same_value(eng, eng.select(s.f["el"], p), v)]))]))
    el = eng.store(shift(eng, s.f["el"], p, 1), p, v); eng.write(st, this, merge_val(dup, s, SV(s.ty, {"len": s.f["len"] + 1, "el": el})))
    return eng.fresh(eng.ty(n), "ins") if eng.ty(n).k != "void" else None
def same_value(eng, a, b):
    if isinstance(a, SV) and "has" in a.f:
        k = z3.Const("k!sv", a.f["has"].sort().domain()); x, y = eng.select(a.f["val"], k), eng.select(b.f["val"], k)
        return z3.ForAll([k], z3.And(z3.Select(a.f["has"], k) == z3.Select(b.f["has"], k), z3.Implies(z3.Select(a.f["has"], k), same_value(eng, x, y))))
    if isinstance(a, SV): return And_([same_value(eng, a.f[x], b.f[x]) for x in a.f])
    return eng.equal(a, b)
@meth("SETS", "insert", "emplace")
def _(eng, st, this, a, n):
    ty = strip(this.ty); m = eng.read(st, this)
    if isinstance(m, SV) and "el" in m.f and len(a) == 1 and isinstance(eng.rv(a[0], st), SV): return set_insert(eng, st, this, eng.rv(a[0], st), n)
    if ty.n == "std::multiset" and len(a) == 1:
        k = key_of(eng, st, ty, a[0]); ms_fact(eng, st, m, k); eng.write(st, this, SV(m.ty, {"has": z3.Store(m.f["has"], k, T), "n": m.f["n"] + 1, "cnt": z3.Store(m.f["cnt"], k, z3.Select(m.f["cnt"], k) + 1)})); return It("map", this, k, F)
    if len(a) == 2: eng.write(st, this, eng.fresh(ty, "set")); return None
    v = eng.rv(a[0], st)
    if isinstance(v, SV) or not isinstance(m, SV): eng.write(st, this, eng.fresh(ty, "set")); return eng.fresh(eng.ty(n), "ins") if eng.ty(n).k != "void" else None
    k = key_of(eng, st, ty, a[0]); h = has(eng, m, k)
    eng.write(st, this, map_put(eng, m, ty, k, None)); return SV(eng.ty(n), {"first": It("map", this, k, F), "second": Not_(h)})
@func("strcmp", "std::strcmp")
def f_strcmp(eng, st, this, a, n):
    x, y = eng.rv(a[0], st), eng.rv(a[1], st); r = z3.Const(fresh_name("strcmp"), I)
    if is_z3(x) and is_z3(y) and x.sort() == Str and y.sort() == Str: st.assume((r == 0) == (x == y))
    return r
@func("SContains")
def _(eng, st, this, a, n):
    c = a[0]; v = eng.rv(c, st)
    if is_z3(v) and v.sort() == Str: 
        x = S(eng, st, a[1]); return z3.Function("str_contains", Str, Str, B)(v, x) if x.sort() == Str else eng.fresh(Ty("bool"))
    ty = strip(c.ty)
    if isinstance(v, SV) and "has" in v.f: return has(eng, v, key_of(eng, st, ty, a[1]))
    if isinstance(v, SV) and "el" in v.f:
        k = eng.rv(a[1], st); i = z3.Int("i!ct"); return z3.Exists([i], z3.And(i >= 0, i < v.f["len"], eng.equal(eng.select(v.f["el"], i), k)))
    return eng.fresh(Ty("bool"), "contains")

# ------------------------------------------------------------------ algorithms with predicates (desugared to loops)
def _alg_loop(eng, st, first, last, bodyf, tag):
    """for (i=first.pos; i != last.pos; ++i) bodyf(state, elementLV) with bodyf -> outcomes"""
    ik = ("it", next(E._ctr)); st.locals[ik] = first.pos; eng.local_ty[ik] = Ty("int", w=64, s=1)
    et = elem_ty(strip(first.c.ty))
    def cond(c): return Not_(eng.equal(c.locals[ik], last.pos))
    def body(c): return bodyf(c, first.c.ext(("i", c.locals[ik]), et), ik)
    def inc(c):
        if c.rec is not None: c.rec.add(("loc", ik))
        c.locals[ik] = c.locals[ik] + 1; return [("normal", c, None)]
    outs = eng.loop(st, cond, body, inc, dict(kind="alg", node={"l": tag}, cont=first.c, ix=ik))
    return outs, ik
def _finish(eng, st, outs, ik, res):
    norm_ = []
    for k, s, p in outs:
        if k == "normal": norm_.append((s, None))
        else: eng.exits[-1].append((k, s, p))
    if not norm_: raise PathDead()
    m = eng.merge_states(norm_)
    if len(m) != 1: raise Unsupported("algorithm merge")
    st.become(m[0][0])
@func("std::count_if", "std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::for_each", "std::ranges::any_of")
def _(eng, st, this, a, n):
    nm = n["fn"].split("::")[1].split("<")[0]; x, y, f = eng.rv(a[0], st), eng.rv(a[1], st), eng.rv(a[2], st)
    if not isinstance(x, It) or x.kind != "seq": raise Unsupported("algorithm over non-sequence")
    rk = ("alg", next(E._ctr))
    st.locals[rk] = z3.IntVal(0) if nm == "count_if" else (F if nm in ("any_of", "find_if") else T); eng.local_ty[rk] = Ty("int", w=64, s=1) if nm == "count_if" else Ty("bool")
    box = {}
    def body(c, lv, ik):
        ex = []; eng.exits.append(ex)
        try: r = eng.call_value(f, [lv], c, {"t": -1})
        except PathDead: return ex
        finally: eng.exits.pop()
        if nm == "for_each": return ex + [("normal", c, None)]
        r = eng.tobool(eng.rv(r, c))
        if c.rec is not None: c.rec.add(("loc", rk))
        if nm == "count_if":
            c.locals[rk] = c.locals[rk] + z3.If(r, 1, 0); return ex + [("normal", c, None)]
        stop = r if nm in ("any_of", "find_if", "none_of") else Not_(r)
        c2 = c.copy().assume(stop); c2.locals[rk] = T if nm in ("any_of", "find_if") else F
        c.assume(Not_(stop))
        return ex + [("normal", c, None), ("break", c2, None)]
    outs, ik = _alg_loop(eng, st, x, y, body, n.get("l"))
    _finish(eng, st, outs, ik, None)
    r = st.locals.pop(rk); pos = st.locals.pop(ik)
    if nm == "for_each": return f
    if nm == "find_if": return It("seq", x.c, z3.If(r, pos, y.pos))
    return r
@func("std::find")
def _(eng, st, this, a, n):
    x, y, v = eng.rv(a[0], st), eng.rv(a[1], st), eng.rv(a[2], st); p = z3.Const(fresh_name("find"), I); s = eng.read(st, x.c); j = z3.Int("j!f")
    st.assume(z3.And(p >= x.pos, p <= y.pos, z3.ForAll([j], z3.Implies(z3.And(j >= x.pos, j < p), Not_(eng.equal(eng.select(s.f["el"], j), v)))), z3.Implies(p < y.pos, eng.equal(eng.select(s.f["el"], p), v))))
    return It("seq", x.c, p)

# ------------------------------------------------------------------ exceptions
def ctor_sexc(eng, st, n, ty):
    vals = [eng.evr(a, st) for a in n["a"]]
    if n.get("copy") or n.get("move"): return vals[0]
    d = eng.default(ty)
    names = ["file", "line", "func", "method", "headers", "body"]
    if isinstance(d, SV):
        for i, v in enumerate(vals):
            nm = {3: "method", 4: "headers", 5: "body"}.get(i)
            if nm and nm in d.f:
                if nm == "method": v = tostr(eng, v)
                if isinstance(v, SV) or is_z3(v) and is_z3(d.f[nm]) and v.sort() == d.f[nm].sort(): d = d.set(nm, v)
    return d
CTORS["SException"] = ctor_sexc
@meth("SException", "what")
def _(eng, st, this, a, n):
    v = eng.read(st, this); return v.f["method"] if isinstance(v, SV) and "method" in v.f else z3.Const(fresh_name("what"), Str)
@meth("std::exception", "what")
def _(eng, st, this, a, n): return z3.Const(fresh_name("what"), Str)
@func("std::current_exception")
def _(eng, st, this, a, n): return z3.IntVal(1)
@func("usleep", "std::this_thread::sleep_for", "sleep", "std::this_thread::yield")
def _(eng, st, this, a, n): return z3.IntVal(0) if eng.ty(n).k != "void" else None
@func("abort", "std::abort", "exit", "_exit", "std::terminate", "__assert_fail", "std::quick_exit")
def _(eng, st, this, a, n): raise PathDead()

# ------------------------------------------------------------------ libstuff leaf contracts (trusted here; the ones a property needs are proved separately in the byte-level specs)
S_p_line = z3.Function("http_line", Str, Str)
PURE = ["SBefore", "SAfter", "SAfterLastOf", "SAfterUpTo", "SReplace", "SReplaceAllBut", "SReplaceAll", "STrim", "SCollapse", "SStrip", "SStripTrim", "SStripNonNum", "SEscape", "SUnescape", "SToHex", "SFromHex", "SStrFromHex", "SGetDomain", "SHostIsValid", "SComposeHost", "SDecodeURIComponent", "SEncodeURIComponent", "SQ", "SUNQUOTED_TIMESTAMP", "SToFloat", "SHashSHA1", "SHashSHA256", "SEncodeBase64", "SDecodeBase64", "SAESEncrypt", "SAESDecrypt", "SGZip", "SGUnzip", "STimestampToEpoch", "SRandom::rand64", "SGetHostName", "SConstantTimeEquals", "SConstantTimeIEquals", "SQuery_quote", "SGetOpAddress", "STCPManager::getIP", "SIsValidSQLiteDateModifier", "SREMatch", "SContainsStr", "SParseIntegerList", "SREMATCH", "SStateNameToInt", "SZLibCompress", "SDeburr::deburr", "SCURRENT_TIMESTAMP_MS"]
def pure_call(eng, st, this, a, n):
    vals = [eng.rv(x, st) for x in a]; ty = eng.ty(n); rs = eng.leaf_sort(ty)
    leaves = []
    for v in vals:
        if is_z3(v): leaves.append(v)
        else: return eng.fresh(ty, "pure")
    if rs is None or not leaves: return eng.fresh(ty, "pure")
    f = z3.Function("pure_%s_%s" % (norm(n["fn"]), "_".join(str(x.sort()) for x in leaves)), *([x.sort() for x in leaves] + [rs]))
    r = f(*leaves); eng.range_axiom(r, ty); eng.assumed.add("pure deterministic function: " + norm(n["fn"])); return r
for p in PURE: FUNCS.setdefault(p, pure_call)
def sdata_parse(eng, st, this, s):
    """SData(string) / deserialize: a string without a line break is the method line; otherwise the parse is a function of the text"""
    ty = strip(this.ty); l = eng.lit_of(s); d = eng.default(ty)
    if l is not None and "\n" not in l and "\r" not in l: return d.set("methodLine", s)
    if getattr(eng, "one_line", False): eng.assumed.add("the names of commands have no line break"); return d.set("methodLine", s)
    eng.assumed.add("SData(string): parse result is an arbitrary function of the text")
    out = {}
    for nm, v in d.f.items():
        def mkf(t, path, nm=nm): return z3.Function("parse_%s_%s" % (nm, "_".join(path)), Str, t.sort())(s)
        out[nm] = eng.map_leaves(v, mkf)
    r = SV(ty, out); eng.sv_axioms(out["nameValueMap"]); return r
def ctor_sdata(eng, st, n, ty):
    tmp = eng.new_tmp(st, eng.default(ty), ty)
    if not n["a"]: return eng.default(ty)
    v = eng.evr(n["a"][0], st)
    if isinstance(v, SV) and "methodLine" in v.f: return v
    if isinstance(v, SV) and "has" in v.f: return eng.default(ty).set("nameValueMap", v)
    return sdata_parse(eng, st, tmp, v)
CTORS["SData"] = ctor_sdata
S_ser = None
@meth("SData", "serialize")
def _(eng, st, this, a, n):
    v = eng.read(st, this); m = v.f["nameValueMap"]
    args = [v.f["methodLine"], m.f["has"], m.f["val"], v.f["content"]]
    f = z3.Function("sdata_serialize", *([x.sort() for x in args] + [Str])); r = f(*args); eng.axiom(z3.Not(r == eng.lit("")))
    eng.assumed.add("SData::serialize: deterministic, non-empty")
    if a: return None
    return r
@meth("SData", "deserialize")
def _(eng, st, this, a, n):
    v = eng.rv(a[0], st)
    ok = z3.Const(fresh_name("parsed"), I); eng.range_axiom(ok, Ty("int", w=32, s=1)); st.assume(ok >= 0)
    if is_z3(v) and v.sort() == Str: nv = sdata_parse(eng, st, this, v)
    else: nv = eng.fresh(strip(this.ty), "parsed")
    eng.write(st, this, nv); return ok
@func("SParseHTTP", "SParseURI", "SParseURIPath", "SParseRequestMethodLine", "SParseHost", "SParseResponseMethodLine", "SParseJSONObject", "SParseJSONArray", "SParseList", "SParseIntegerList")
def _(eng, st, this, a, n): return eng.unknown(norm(n["fn"]), n, st, a)
@func("SComposeHTTP", "SComposeJSONObject", "SComposeJSONArray", "SComposePOST", "SLogStackTrace", "SLogSetThreadName", "SLogSetThreadPrefix", "SInitialize")
def _(eng, st, this, a, n): return eng.unknown(norm(n["fn"]), n, st, a)
