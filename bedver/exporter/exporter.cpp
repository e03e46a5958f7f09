// bedver exporter: dumps the type-checked clang AST of every function defined in /repo (headers, templates
// instantiations and lambdas included) as JSON.  No rewriting: one JSON node per AST node, minus parentheses,
// no-op casts, temporaries bookkeeping and the bodies of the logging macros.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
#include <unordered_map>
using namespace clang;
namespace json = llvm::json;
typedef json::Object O;
typedef json::Array A;

static std::string gRoot = "/repo";
static const std::set<std::string> kLogMacros = {"SINFO", "SDEBUG", "SHMMM", "SWARN", "SALERT", "SSYSLOG", "SLOGPREFIX", "PINFO","PDEBUG","PHMMM","PWARN","PALERT"};
static const std::set<std::string> kFatalMacros = {"SERROR"};

struct Exporter : RecursiveASTVisitor<Exporter> {
    ASTContext& C; SourceManager& SM; A types; std::map<std::string,int> typeIdx; O records, enums; A funcs, globals;
    std::unordered_map<const Decl*, int> ids; std::unique_ptr<MangleContext> MC; std::set<std::string> seenFn, seenRec;
    PrintingPolicy PP;
    Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) { MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics())); PP.SuppressTagKeyword = true; }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }
    bool inRepo(SourceLocation l) { l = SM.getExpansionLoc(l); if (l.isInvalid()) return false; auto f = SM.getFilename(l); return f.starts_with(gRoot + "/"); }
    std::string loc(SourceLocation l) { l = SM.getExpansionLoc(l); if (l.isInvalid()) return ""; auto f = SM.getFilename(l).str(); if (f.rfind(gRoot + "/", 0) == 0) f = f.substr(gRoot.size() + 1); return f + ":" + std::to_string(SM.getSpellingLineNumber(l)); }
    int line(SourceLocation l) { l = SM.getExpansionLoc(l); return l.isInvalid() ? 0 : (int)SM.getSpellingLineNumber(l); }
    std::string qn(const NamedDecl* d) {
        // qualified name without template args and without inline namespaces
        std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os); os.flush();
        std::string r; int depth = 0;
        for (size_t i = 0; i < s.size(); i++) {
            if (s.compare(i, 9, "__cxx11::") == 0) { i += 8; continue; }
            r += s[i];
        }
        (void)depth;
        return r;
    }
    std::string mangled(const FunctionDecl* f) {
        std::string s; llvm::raw_string_ostream os(s);
        if (f->isDependentContext()) return "dep:" + qn(f);
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
        else os << f->getNameAsString();
        return os.str();
    }
    int type(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        std::string key = q.getAsString(PP);
        auto it = typeIdx.find(key); if (it != typeIdx.end()) return it->second;
        int n = types.size(); typeIdx[key] = n; types.push_back(nullptr);
        O o; if (q.isConstQualified()) o["c"] = 1;
        const Type* t = q.getTypePtr();
        if (auto b = dyn_cast<BuiltinType>(t)) {
            if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (b->isInteger()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(q); o["s"] = b->isSignedInteger() ? 1 : 0; if (b->getKind() == BuiltinType::Char_S || b->getKind() == BuiltinType::Char_U) o["ch"] = 1; }
            else if (b->isFloatingPoint()) { o["k"] = "float"; }
            else if (b->isVoidType()) o["k"] = "void";
            else if (b->isNullPtrType()) o["k"] = "nullptr";
            else o["k"] = "other";
        } else if (auto e = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["n"] = qn(e->getDecl()); if (!e->getDecl()->getIntegerType().isNull()) { o["w"] = (int)C.getTypeSize(q); o["s"] = e->getDecl()->getIntegerType()->isSignedIntegerType() ? 1 : 0; } exportEnum(e->getDecl()); }
        else if (auto p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); }
        else if (auto r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = type(r->getPointeeType()); if (isa<RValueReferenceType>(t)) o["rv"] = 1; }
        else if (auto a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["n"] = (int64_t)a->getSize().getZExtValue(); o["of"] = type(a->getElementType()); }
        else if (auto a2 = dyn_cast<ArrayType>(t)) { o["k"] = "arr"; o["n"] = -1; o["of"] = type(a2->getElementType()); }
        else if (auto r2 = dyn_cast<RecordType>(t)) {
            auto rd = r2->getDecl(); o["k"] = "rec"; o["n"] = recName(rd);
            auto targs = [&](llvm::ArrayRef<TemplateArgument> args, A& out) {
                std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument& ta) {
                    if (ta.getKind() == TemplateArgument::Type) out.push_back(type(ta.getAsType()));
                    else if (ta.getKind() == TemplateArgument::Integral) { O i; llvm::SmallString<16> ss; ta.getAsIntegral().toString(ss); i["v"] = ss.str().str(); out.push_back(std::move(i)); }
                    else if (ta.getKind() == TemplateArgument::Pack) { for (auto& x : ta.pack_elements()) one(x); }
                    else out.push_back(nullptr);
                };
                for (auto& x : args) one(x);
            };
            // innermost-to-outermost template args; nested classes of a template get the args of the enclosing one
            A aa; const DeclContext* dc = rd;
            while (dc) { if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(dc)) { targs(sp->getTemplateArgs().asArray(), aa); break; } dc = dc->getParent(); }
            o["a"] = std::move(aa); o["s"] = key;
            if (auto cr = dyn_cast<CXXRecordDecl>(rd)) exportRecord(cr);
        } else { o["k"] = "other"; o["s"] = key; }
        types[n] = std::move(o);
        return n;
    }
    std::string recName(const RecordDecl* rd) {
        if (auto cr = dyn_cast<CXXRecordDecl>(rd)) if (cr->isLambda()) return "lambda#" + std::to_string(id(cr));
        std::string n = qn(rd); return n;
    }
    void exportEnum(const EnumDecl* e) {
        std::string n = qn(e); if (enums.get(n)) return; O o;
        for (auto c : e->enumerators()) o[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
        enums[n] = std::move(o);
    }
    void exportRecord(const CXXRecordDecl* rd) {
        rd = rd->getDefinition(); if (!rd || rd->isDependentContext() || rd->isLambda()) return;
        if (!inRepo(rd->getLocation()) && qn(rd) != "pollfd") { // pollfd: the one plain C struct the code fills in itself
            // export base list of std exceptions for catch matching
            std::string n = qn(rd); if (!seenRec.insert("S" + n).second) return; 
            O o; A bs; for (auto& b : rd->bases()) if (auto br = b.getType()->getAsCXXRecordDecl()) bs.push_back(qn(br)); o["bases"] = std::move(bs); o["sys"] = 1; if (!records.get(n)) records[n] = std::move(o);
            return; }
        std::string key = C.getRecordType(rd).getCanonicalType().getAsString(PP);
        if (!seenRec.insert(key).second) return;
        O o; o["qn"] = qn(rd); A fs, bs;
        for (auto& b : rd->bases()) bs.push_back(type(b.getType()));
        for (auto f : rd->fields()) { O fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer()); if (f->isMutable()) fo["mut"] = 1; fs.push_back(std::move(fo)); }
        o["fields"] = std::move(fs); o["bases"] = std::move(bs);
        if (rd->isUnion()) o["union"] = 1;
        o["line"] = loc(rd->getLocation());
        records[key] = std::move(o);
    }
    // ---------- macros
    std::string outerMacro(SourceLocation l) {
        // name of the OUTERMOST macro whose expansion produced l
        if (!l.isMacroID()) return "";
        SourceLocation cur = l; std::string name;
        while (cur.isMacroID()) {
            name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
            if (kLogMacros.count(name) || kFatalMacros.count(name)) return name;
            if (SM.isMacroArgExpansion(cur)) cur = SM.getImmediateExpansionRange(cur).getBegin();
            else cur = SM.getImmediateExpansionRange(cur).getBegin();
        }
        return name;
    }
    // ---------- statements
    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) { O o; o["k"] = "Expr"; o["l"] = line(s->getBeginLoc()); o["e"] = expr(e); return o; }
        O o; o["l"] = line(s->getBeginLoc());
        if (s->getBeginLoc().isMacroID() && (isa<DoStmt>(s) || isa<CompoundStmt>(s) || isa<IfStmt>(s))) {
            std::string m = outerMacro(s->getBeginLoc());
            // only when the statement itself (not its enclosing) starts the macro
            if (kLogMacros.count(m)) { o["k"] = "Log"; o["m"] = m; return o; }
            if (kFatalMacros.count(m)) { o["k"] = "Fatal"; o["m"] = m; return o; }
        }
        if (auto c = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; A b; for (auto x : c->body()) b.push_back(stmt(x)); o["b"] = std::move(b); o["el"] = line(c->getRBracLoc()); return o; }
        if (auto d = dyn_cast<DeclStmt>(s)) {
            o["k"] = "Decl"; A ds;
            for (auto x : d->decls()) { auto v = decl(x); if (!v.getAsNull()) ds.push_back(std::move(v)); }
            o["d"] = std::move(ds); return o;
        }
        if (auto i = dyn_cast<IfStmt>(s)) { o["k"] = "If"; if (i->isConstexpr()) o["cx"] = 1; if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariable()) o["cv"] = decl(i->getConditionVariable()); o["c"] = expr(i->getCond()); o["t"] = stmt(i->getThen()); if (i->getElse()) o["e"] = stmt(i->getElse()); return o; }
        if (auto w = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if (w->getConditionVariable()) o["cv"] = decl(w->getConditionVariable()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
        if (auto w = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
        if (auto f = dyn_cast<ForStmt>(s)) { o["k"] = "For"; if (f->getInit()) o["init"] = stmt(f->getInit()); if (f->getCond()) o["c"] = expr(f->getCond()); if (f->getInc()) o["inc"] = expr(f->getInc()); o["b"] = stmt(f->getBody()); return o; }
        if (auto f = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "RangeFor"; if (f->getInit()) o["init"] = stmt(f->getInit()); o["v"] = decl(f->getLoopVariable(), false); o["r"] = expr(f->getRangeInit()); o["b"] = stmt(f->getBody()); return o; }
        if (auto r = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (r->getRetValue()) o["e"] = expr(r->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "Null"; return o; }
        if (auto t = dyn_cast<CXXTryStmt>(s)) { o["k"] = "Try"; o["b"] = stmt(t->getTryBlock()); A hs; for (unsigned i = 0; i < t->getNumHandlers(); i++) { auto h = t->getHandler(i); O ho; if (h->getExceptionDecl()) { ho["v"] = decl(h->getExceptionDecl(), false); ho["t"] = type(h->getCaughtType()); } ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); } o["h"] = std::move(hs); return o; }
        if (auto sw = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; if (sw->getInit()) o["init"] = stmt(sw->getInit()); o["c"] = expr(sw->getCond()); o["b"] = stmt(sw->getBody()); return o; }
        if (auto c = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["v"] = expr(c->getLHS()); if (c->getRHS()) o["v2"] = expr(c->getRHS()); o["s"] = stmt(c->getSubStmt()); return o; }
        if (auto c = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = stmt(c->getSubStmt()); return o; }
        if (auto a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        if (auto lb = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["n"] = lb->getName(); o["s"] = stmt(lb->getSubStmt()); return o; }
        if (auto g = dyn_cast<GotoStmt>(s)) { o["k"] = "Goto"; o["n"] = g->getLabel()->getNameAsString(); return o; }
        o["k"] = "UnsupportedStmt"; o["n"] = s->getStmtClassName(); return o;
    }
    json::Value decl(const Decl* d, bool withInit = true) {
        O o;
        if (auto dd = dyn_cast<DecompositionDecl>(d)) {
            o["k"] = "Decomp"; o["id"] = id(dd); o["t"] = type(dd->getType()); if (withInit && dd->getInit()) o["init"] = expr(dd->getInit());
            A bs; for (auto b : dd->bindings()) { O bo; bo["id"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = type(b->getType()); if (b->getBinding() && isa<MemberExpr>(b->getBinding()->IgnoreImplicit())) bo["f"] = cast<MemberExpr>(b->getBinding()->IgnoreImplicit())->getMemberDecl()->getNameAsString(); bs.push_back(std::move(bo)); }
            o["bs"] = std::move(bs); return o;
        }
        if (auto v = dyn_cast<VarDecl>(d)) { o["k"] = "Var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType()); if (v->isStaticLocal()) { o["static"] = 1; } if (withInit && v->getInit()) o["init"] = expr(v->getInit()); return o; }
        return nullptr;
    }
    // ---------- expressions
    A exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) { A a; for (auto x : r) a.push_back(expr(x)); return a; }
    void callee(O& o, const FunctionDecl* f) {
        o["fn"] = qn(f); 
        bool sys = !inRepo(f->getLocation());
        if (!sys) o["mg"] = mangled(f); else o["sys"] = 1;
        if (f->isNoReturn()) o["nr"] = 1;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) { if (m->isVirtual()) o["virt"] = 1; if (m->isConst()) o["cst"] = 1; }
        if (auto n = f->getType()->getAs<FunctionProtoType>()) { if (n->isNothrow()) o["nothrow"] = 1; A pt; for (auto p : n->param_types()) pt.push_back(type(p)); o["pt"] = std::move(pt); }
    }
    json::Value expr(const Expr* e) {
        if (!e) return nullptr;
        for (;;) {
            if (auto p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) { O o; o["k"] = "Mat"; o["e"] = expr(p->getSubExpr()); o["t"] = type(e->getType()); return o; }
            if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
            if (auto p = dyn_cast<UserDefinedLiteral>(e)) { break; }
            if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<CastExpr>(e)) { if (p->getCastKind() == CK_NoOp || p->getCastKind() == CK_FunctionToPointerDecay || p->getCastKind() == CK_UserDefinedConversion || p->getCastKind() == CK_ConstructorConversion || p->getCastKind() == CK_BuiltinFnToFnPtr) { e = p->getSubExpr(); continue; } }
            break;
        }
        O o; o["t"] = type(e->getType()); int ln = line(e->getBeginLoc()); 
        if (e->isGLValue()) o["lv"] = 1;
        if (auto x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "Int"; llvm::SmallString<32> ss; x->getValue().toString(ss, 10, e->getType()->isSignedIntegerType()); o["v"] = ss.str().str(); return o; }
        if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Int"; o["v"] = std::to_string((int)(signed char)x->getValue()); return o; }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        if (auto x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "Str"; std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : ""; std::string h; static const char* hx = "0123456789abcdef"; for (unsigned char c : s) { h += hx[c >> 4]; h += hx[c & 15]; } o["v"] = h; return o; }
        if (auto x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; std::string s = x->getFunctionName() ? x->getFunctionName()->getString().str() : ""; std::string h; static const char* hx = "0123456789abcdef"; for (unsigned char c : s) { h += hx[c >> 4]; h += hx[c & 15]; } o["v"] = h; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return o; }
        o["l"] = ln;
        if (auto x = dyn_cast<UserDefinedLiteral>(e)) { o["k"] = "UDL"; if (x->getDirectCallee()) o["fn"] = qn(x->getDirectCallee()); if (auto* dc = x->getDirectCallee()) if (auto* tsa = dc->getTemplateSpecializationArgs()) { std::string raw; for (auto& t : tsa->asArray()) { if (t.getKind() == TemplateArgument::Pack) for (auto& q : t.pack_elements()) if (q.getKind() == TemplateArgument::Integral) raw.push_back((char)q.getAsIntegral().getExtValue()); } if (!raw.empty()) o["raw"] = raw; } o["a"] = exprs(x->arguments()); return o; }
        if (auto x = dyn_cast<DeclRefExpr>(e)) {
            auto d = x->getDecl(); 
            if (auto ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "Int"; o["v"] = std::to_string(ec->getInitVal().getExtValue()); o["en"] = ec->getNameAsString(); return o; }
            if (auto f = dyn_cast<FunctionDecl>(d)) { o["k"] = "FnRef"; callee(o, f); return o; }
            o["k"] = "Ref"; o["id"] = id(d); o["n"] = d->getNameAsString();
            if (auto v = dyn_cast<VarDecl>(d)) { if (!v->isLocalVarDeclOrParm()) { o["g"] = qn(v); exportGlobal(v); } else if (v->isStaticLocal()) o["static"] = 1; }
            else if (isa<BindingDecl>(d)) o["bind"] = 1;
            return o;
        }
        if (auto x = dyn_cast<MemberExpr>(e)) {
            if (auto f = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["k"] = "Mem"; o["n"] = f->getNameAsString(); o["cls"] = qn(cast<NamedDecl>(f->getParent())); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase()); return o; }
            if (auto v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "Ref"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["g"] = qn(v); exportGlobal(v); return o; }
            if (auto f = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["k"] = "MemFn"; callee(o, f); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase()); return o; }
            if (auto ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) { o["k"] = "Int"; o["v"] = std::to_string(ec->getInitVal().getExtValue()); o["en"] = ec->getNameAsString(); return o; }
        }
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator()); if (x->getDirectCallee()) { callee(o, x->getDirectCallee()); if (isa<CXXMethodDecl>(x->getDirectCallee())) o["meth"] = 1; }
            o["a"] = exprs(x->arguments()); return o;
        }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "MCall"; if (x->getMethodDecl()) { callee(o, x->getMethodDecl()); 
                if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) { o["arrow"] = me->isArrow(); o["b"] = expr(me->getBase()); if (me->hasQualifier()) o["nonvirt"] = 1; } 
            } else { o["k"] = "PtrMCall"; }
            o["a"] = exprs(x->arguments()); return o;
        }
        if (auto x = dyn_cast<CallExpr>(e)) {
            o["k"] = "Call"; if (x->getDirectCallee()) callee(o, x->getDirectCallee()); else o["f"] = expr(x->getCallee());
            if (x->getDirectCallee() && x->getDirectCallee()->getTemplateSpecializationArgs()) { A ta; bool first = true; for (auto& t : x->getDirectCallee()->getTemplateSpecializationArgs()->asArray()) { if (t.getKind() == TemplateArgument::Type) ta.push_back(type(t.getAsType())); else if (first && t.getKind() == TemplateArgument::Integral) { llvm::SmallString<16> ss; t.getAsIntegral().toString(ss); o["idx"] = (int64_t)atoll(ss.c_str()); } first = false; } o["ta"] = std::move(ta); }
            o["a"] = exprs(x->arguments()); return o;
        }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "Ctor"; auto cd = x->getConstructor(); callee(o, cd); o["copy"] = cd->isCopyConstructor() ? 1 : 0; o["move"] = cd->isMoveConstructor() ? 1 : 0; o["elide"] = x->isElidable() ? 1 : 0; o["dflt"] = (cd->isDefaultConstructor() ? 1 : 0); o["il"] = x->isListInitialization() ? 1 : 0; o["sil"] = x->isStdInitListInitialization() ? 1 : 0;
            if (x->requiresZeroInitialization()) o["zero"] = 1;
            if (cd->isImplicit() || cd->isDefaulted()) o["impl"] = 1;
            A a; for (auto y : x->arguments()) a.push_back(expr(y)); o["a"] = std::move(a); return o;
        }
        if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "Ctor"; callee(o, x->getConstructor()); o["inh"] = 1; o["a"] = A{}; return o; }
        if (auto x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "New"; o["of"] = type(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize()); if (x->getInitializer()) o["i"] = expr(x->getInitializer()); return o; }
        if (auto x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument()); o["of"] = type(x->getDestroyedType()); return o; }
        if (auto x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; if (x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); o["of"] = type(x->getSubExpr()->getType()); } return o; }
        if (auto x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "CAssign"; o["op"] = x->getOpcodeStr().str(); o["ct"] = type(x->getComputationResultType()); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o; }
        if (auto x = dyn_cast<BinaryOperator>(e)) { o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o; }
        if (auto x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix() ? 1 : 0; o["a"] = expr(x->getSubExpr()); return o; }
        if (auto x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return o; }
        if (auto x = dyn_cast<BinaryConditionalOperator>(e)) { o["k"] = "BCond"; o["c"] = expr(x->getCommon()); o["b"] = expr(x->getFalseExpr()); return o; }
        if (auto x = dyn_cast<CastExpr>(e)) { o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Sub"; o["a"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o; }
        if (auto x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "Lambda"; O f; auto cd = x->getCallOperator(); A ps; for (auto p : cd->parameters()) { O po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); } o["ps"] = std::move(ps); 
            if (!cd->isDependentContext()) o["b"] = stmt(x->getBody()); else o["dep"] = 1;
            A cs; auto ii = x->capture_init_begin(); for (auto& c : x->captures()) { O co; if (c.capturesThis()) co["this"] = 1; else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0; co["n"] = c.getCapturedVar()->getNameAsString(); if (x->isInitCapture(&c)) co["init"] = expr(*ii); } cs.push_back(std::move(co)); ++ii; }
            o["cs"] = std::move(cs); o["rt"] = type(cd->getReturnType()); o["lid"] = id(x->getLambdaClass()); return o;
        }
        if (auto x = dyn_cast<InitListExpr>(e)) { o["k"] = "IList"; A a; for (auto y : x->inits()) a.push_back(expr(y)); o["a"] = std::move(a); return o; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "Zero"; return o; }
        if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { Expr::EvalResult r; if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { o["k"] = "Int"; llvm::SmallString<32> ss; r.Val.getInt().toString(ss, 10); o["v"] = ss.str().str(); return o; } }
        if (auto x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "Bool"; o["v"] = !x->isValueDependent() && x->getValue(); return o; }
        if (auto x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; if (x->isTypeOperand()) o["of"] = type(x->getTypeOperand(C)); else o["e"] = expr(x->getExprOperand()); return o; }
        if (auto x = dyn_cast<SourceLocExpr>(e)) { o["k"] = "Int"; o["v"] = "0"; return o; }
        if (auto x = dyn_cast<CXXFoldExpr>(e)) { o["k"] = "Unsupported"; o["n"] = "fold"; return o; }
        if (auto x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
        o["k"] = "Unsupported"; o["n"] = e->getStmtClassName();
        { // constant-evaluate as a last resort
            Expr::EvalResult r; if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C)) { o["k"] = "Int"; llvm::SmallString<32> ss; r.Val.getInt().toString(ss, 10); o["v"] = ss.str().str(); }
        }
        return o;
    }
    std::set<const Decl*> seenGlobals;
    void exportGlobal(const VarDecl* v) {
        v = v->getCanonicalDecl(); if (!seenGlobals.insert(v).second) return;
        const VarDecl* def = v->getDefinition(C); const Expr* init = nullptr; const VarDecl* initDecl = nullptr; init = v->getAnyInitializer(initDecl);
        if (!inRepo(v->getLocation())) return;
        O o; o["n"] = qn(v); o["t"] = type(v->getType()); if (init && !init->isValueDependent()) { o["init"] = expr(init); } if (def) o["line"] = loc(def->getLocation()); globals.push_back(std::move(o));
    }
    // ---------- visitors
    bool VisitCXXRecordDecl(CXXRecordDecl* d) { if (d->isCompleteDefinition() && inRepo(d->getLocation()) && !d->isDependentContext() && !d->isLambda()) type(C.getRecordType(d)); return true; }
    bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && !v->isStaticLocal() && inRepo(v->getLocation()) && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType()) exportGlobal(v); return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !inRepo(f->getLocation())) return true;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (f->isImplicit()) return true;
        std::string mg = mangled(f); if (!seenFn.insert(mg).second) return true;
        O o; o["mg"] = mg; o["n"] = qn(f); o["loc"] = loc(f->getLocation()); o["el"] = line(f->getEndLoc()); o["rt"] = type(f->getReturnType());
        A ps; for (auto p : f->parameters()) { O po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); } o["ps"] = std::move(ps);
        if (auto m = dyn_cast<CXXMethodDecl>(f)) { if (!m->isStatic()) o["this"] = type(C.getRecordType(m->getParent())); if (m->isVirtual()) o["virt"] = 1; if (m->isConst()) o["cst"] = 1; A ov; for (auto b : m->overridden_methods()) ov.push_back(mangled(b)); if (ov.size()) o["ov"] = std::move(ov); o["acc"] = (int)m->getAccess(); }
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = 1; A is; for (auto i : c->inits()) { O io; if (i->isMemberInitializer()) { io["m"] = i->getMember()->getNameAsString(); } else if (i->isBaseInitializer()) { io["base"] = type(QualType(i->getBaseClass(), 0)); } else if (i->isDelegatingInitializer()) io["deleg"] = 1; if (i->isWritten()) io["w"] = 1; io["e"] = expr(i->getInit()); is.push_back(std::move(io)); } o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
        o["b"] = stmt(f->getBody());
        funcs.push_back(std::move(o));
        return true;
    }
};
struct Consumer : ASTConsumer {
    std::string out; Consumer(std::string o) : out(o) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Exporter x(C); x.TraverseDecl(C.getTranslationUnitDecl());
        O o; o["types"] = std::move(x.types); o["records"] = std::move(x.records); o["enums"] = std::move(x.enums); o["funcs"] = std::move(x.funcs); o["globals"] = std::move(x.globals);
        std::error_code ec; llvm::raw_fd_ostream os(out, ec); os << json::Value(std::move(o)); os.flush();
    }
};
struct Action : ASTFrontendAction { std::string out; Action(std::string o) : out(o) {} std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(out); } };
int main(int argc, char** argv) {
    // exporter ROOT IN.cpp OUT.json -- flags...
    if (argc < 5) return 2;
    gRoot = argv[1]; std::string in = argv[2], out = argv[3]; std::vector<std::string> flags; for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(gRoot, flags);
    tooling::ClangTool tool(db, {in});
    struct F : tooling::FrontendActionFactory { std::string out; std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); } } f; f.out = out;
    return tool.run(&f);
}
