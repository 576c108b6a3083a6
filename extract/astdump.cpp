// astdump: mechanical extraction of the functions of libdiffpy.
// Parses one translation unit of the real source with clang and writes, as
// JSON, the typed AST of every function definition located under a given
// source prefix (template patterns are skipped, their instantiations kept),
// together with the record, enum and global tables those bodies refer to.
// Nothing is rewritten: each JSON node is one clang AST node.  Dropped:
// parentheses, ExprWithCleanups, MaterializeTemporary, BindTemporary wrappers.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/Mangle.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
static std::string PREFIX;
static std::string OUT;
static bool FAILED = false;

class Dumper {
public:
    ASTContext& C;
    PrintingPolicy pp;
    json::Array types, fdescs, functions, records, globals;
    std::map<const void*, int> tids;
    std::map<const FunctionDecl*, int> fids;
    std::map<const Decl*, int> dids;
    std::set<const CXXRecordDecl*> seenrec;
    std::set<const VarDecl*> seenglob;
    std::vector<const VarDecl*> globqueue;
    std::unique_ptr<MangleContext> mangler;

    Dumper(ASTContext& c) : C(c), pp(c.getLangOpts()), mangler(c.createMangleContext()) {
        pp.SuppressTagKeyword = true; pp.Bool = true; pp.SuppressDefaultTemplateArgs = false;
    }
    int did(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = dids.find(d); if (it != dids.end()) return it->second;
        int n = dids.size(); dids[d] = n; return n;
    }
    std::string qn(const NamedDecl* d) {
        std::string s; llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp); return os.str();
    }
    json::Array targs(llvm::ArrayRef<TemplateArgument> a) {
        json::Array r;
        for (auto& x : a) {
            switch (x.getKind()) {
            case TemplateArgument::Type: r.push_back(ty(x.getAsType())); break;
            case TemplateArgument::Integral: { json::Object o; o["i"] = std::string(llvm::toString(x.getAsIntegral(), 10)); r.push_back(std::move(o)); break; }
            case TemplateArgument::Pack: for (auto& y : targs(x.pack_elements())) r.push_back(y); break;
            default: r.push_back(nullptr);
            }
        }
        return r;
    }
    int ty(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        const void* key = q.getAsOpaquePtr();
        auto it = tids.find(key); if (it != tids.end()) return it->second;
        int n = types.size(); tids[key] = n; types.push_back(nullptr);
        json::Object o;
        o["s"] = q.getAsString(pp);
        if (q.isConstQualified()) o["const"] = true;
        const Type* t = q.getTypePtr();
        if (auto* b = dyn_cast<BuiltinType>(t)) { o["k"] = "b"; o["n"] = b->getName(pp).str(); }
        else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "p"; o["to"] = ty(p->getPointeeType()); }
        else if (auto* r = dyn_cast<ReferenceType>(t)) { o["k"] = "r"; o["to"] = ty(r->getPointeeType()); }
        else if (auto* r = dyn_cast<RecordType>(t)) {
            o["k"] = "c"; o["n"] = qn(r->getDecl());
            if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl()))
                o["a"] = targs(s->getTemplateArgs().asArray());
            if (auto* rd = dyn_cast<CXXRecordDecl>(r->getDecl())) record(rd);
        }
        else if (auto* e = dyn_cast<EnumType>(t)) { o["k"] = "e"; o["n"] = qn(e->getDecl()); }
        else if (auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "a"; o["to"] = ty(a->getElementType()); o["sz"] = (int64_t)a->getSize().getZExtValue(); }
        else if (isa<FunctionType>(t)) { o["k"] = "f"; }
        else if (auto* m = dyn_cast<MemberPointerType>(t)) { o["k"] = "m"; o["to"] = ty(m->getPointeeType()); }
        else { o["k"] = "?"; }
        types[n] = std::move(o);
        return n;
    }
    bool inprefix(SourceLocation l) {
        auto& SM = C.getSourceManager();
        auto f = SM.getFilename(SM.getExpansionLoc(l));
        return f.starts_with(PREFIX);
    }
    void record(const CXXRecordDecl* r) {
        r = r->getDefinition(); if (!r) return;
        if (!inprefix(r->getLocation())) return;
        if (r->isDependentContext()) return;
        if (!seenrec.insert(r).second) return;
        json::Object o; o["n"] = qn(r);
        o["t"] = ty(C.getRecordType(r));
        json::Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : r->fields()) { json::Object x; x["n"] = f->getNameAsString(); x["t"] = ty(f->getType()); if (f->isMutable()) x["mutable"] = true; fs.push_back(std::move(x)); }
        o["fields"] = std::move(fs);
        o["poly"] = r->isPolymorphic();
        json::Array ms;
        for (auto* m : r->methods()) if (m->isVirtual() && !isa<CXXDestructorDecl>(m)) {
            json::Object x; x["f"] = fd(m); x["pure"] = m->isPureVirtual();
            json::Array ov; for (auto* q : m->overridden_methods()) ov.push_back(fd(q)); x["ov"] = std::move(ov);
            ms.push_back(std::move(x));
        }
        o["virt"] = std::move(ms);
        records.push_back(std::move(o));
    }
    std::string mangled(const FunctionDecl* f) {
        if (f->isDependentContext()) return "";
        std::string s; llvm::raw_string_ostream os(s);
        GlobalDecl gd;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) gd = GlobalDecl(c, Ctor_Complete);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) gd = GlobalDecl(d, Dtor_Complete);
        else gd = GlobalDecl(f);
        if (mangler->shouldMangleDeclName(f)) mangler->mangleName(gd, os); else os << f->getNameAsString();
        return os.str();
    }
    int fd(const FunctionDecl* f) {
        f = f->getCanonicalDecl();
        auto it = fids.find(f); if (it != fids.end()) return it->second;
        int n = fdescs.size(); fids[f] = n; fdescs.push_back(nullptr);
        json::Object o;
        o["qn"] = qn(f); o["n"] = f->getNameAsString();
        o["mn"] = mangled(f);
        o["ret"] = ty(f->getReturnType());
        json::Array ps; for (auto* p : f->parameters()) ps.push_back(ty(p->getType()));
        o["p"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["clsn"] = qn(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isPureVirtual()) o["pure"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isImplicit() || m->isDefaulted()) o["implicit"] = true;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                o["ctor"] = true;
                if (c->isCopyOrMoveConstructor()) o["copy"] = true;
                if (c->isDefaultConstructor()) o["defctor"] = true;
            }
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["copyassign"] = true;
            if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
            if (isa<CXXConversionDecl>(m)) o["conv"] = true;
        }
        if (auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
        o["src"] = inprefix(f->getLocation());
        fdescs[n] = std::move(o);
        return n;
    }
    int line(SourceLocation l) { auto& SM = C.getSourceManager(); return SM.getExpansionLineNumber(l); }

    json::Value vardecl(const VarDecl* v) {
        json::Object o; o["id"] = did(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasInit() ) { o["init"] = st(v->getInit()); }
        return o;
    }
    json::Value declref(const ValueDecl* d) {
        json::Object o; o["id"] = did(d); o["n"] = d->getNameAsString();
        if (auto* e = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "enum"; o["v"] = (int64_t)e->getInitVal().getExtValue(); }
        else if (isa<ParmVarDecl>(d)) o["dk"] = "parm";
        else if (auto* v = dyn_cast<VarDecl>(d)) {
            if (v->isLocalVarDecl()) o["dk"] = "var";
            else { o["dk"] = "glob"; o["qn"] = qn(v); o["t"] = ty(v->getType()); if (seenglob.insert(v).second) globqueue.push_back(v); }
        }
        else if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["f"] = fd(f); }
        else if (auto* f = dyn_cast<FieldDecl>(d)) { o["dk"] = "field"; o["qn"] = qn(f); }
        else o["dk"] = "?";
        return o;
    }
    json::Value st(const Stmt* s) {
        if (!s) return nullptr;
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr>(s)) return st(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(s)) return st(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(s)) return st(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(s)) return st(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return st(x->getReplacement());
        json::Object o;
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) { o["k"] = "MTE"; o["t"] = ty(x->getType()); o["c"] = json::Array{st(x->getSubExpr())}; return o; }
        o["k"] = s->getStmtClassName();
        o["l"] = line(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) { o["t"] = ty(e->getType()); if (e->isLValue()) o["lv"] = true; else if (e->isXValue()) o["xv"] = true; }
        json::Array c;
        if (auto* x = dyn_cast<DeclRefExpr>(s)) { o["d"] = declref(x->getDecl()); }
        else if (auto* x = dyn_cast<MemberExpr>(s)) {
            o["arrow"] = x->isArrow();
            auto* m = x->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(m)) { o["fld"] = f->getNameAsString(); o["fcls"] = qn(cast<CXXRecordDecl>(f->getParent())); }
            else if (auto* f = dyn_cast<FunctionDecl>(m)) { o["f"] = fd(f); if (x->hasQualifier()) o["qual"] = true; }
            else if (auto* v = dyn_cast<VarDecl>(m)) { o["d"] = declref(v); }
            else if (auto* v = dyn_cast<EnumConstantDecl>(m)) { o["d"] = declref(v); }
            c.push_back(st(x->getBase()));
        }
        else if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) { c.push_back(st(x->getExpr())); }
        else if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) { c.push_back(st(x->getExpr())); }
        else if (auto* x = dyn_cast<IntegerLiteral>(s)) { o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()); }
        else if (auto* x = dyn_cast<CharacterLiteral>(s)) { o["v"] = std::to_string(x->getValue()); }
        else if (auto* x = dyn_cast<FloatingLiteral>(s)) { llvm::SmallVector<char, 64> b; x->getValue().toString(b, 0, 0); o["v"] = std::string(b.data(), b.size()); llvm::SmallVector<char,64> h; h.resize(64); unsigned nn = x->getValue().convertToHexString(h.data(), 0, false, llvm::APFloat::rmNearestTiesToEven); o["h"] = std::string(h.data(), nn); }
        else if (auto* x = dyn_cast<StringLiteral>(s)) { if (x->isOrdinary()) o["v"] = json::fixUTF8(x->getString()); }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) { o["v"] = x->getValue(); }
        else if (auto* x = dyn_cast<UnaryOperator>(s)) { o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; c.push_back(st(x->getSubExpr())); }
        else if (auto* x = dyn_cast<BinaryOperator>(s)) { o["op"] = x->getOpcodeStr().str(); if (auto* ca = dyn_cast<CompoundAssignOperator>(s)) o["ct"] = ty(ca->getComputationResultType()); c.push_back(st(x->getLHS())); c.push_back(st(x->getRHS())); }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { o["trait"] = (int)x->getKind(); Expr::EvalResult r; if (x->EvaluateAsInt(r, C)) o["v"] = llvm::toString(r.Val.getInt(), 10); }
        else if (auto* x = dyn_cast<CastExpr>(s)) {
            o["ck"] = x->getCastKindName(); c.push_back(st(x->getSubExpr()));
            if (auto* cf = x->getConversionFunction()) if (auto* f = dyn_cast<FunctionDecl>(cf)) o["f"] = fd(f);
        }
        else if (auto* x = dyn_cast<CXXTemporaryObjectExpr>(s)) { o["k"] = "CXXConstructExpr"; o["f"] = fd(x->getConstructor()); for (auto* a : x->arguments()) c.push_back(st(a)); }
        else if (auto* x = dyn_cast<CXXConstructExpr>(s)) { o["f"] = fd(x->getConstructor()); if (x->isElidable()) o["elide"] = true; if (x->isStdInitListInitialization()) o["il"] = true; for (auto* a : x->arguments()) c.push_back(st(a)); }
        else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(s)) { c.push_back(st(x->getSubExpr())); }
        else if (auto* x = dyn_cast<CallExpr>(s)) {
            if (auto* f = x->getDirectCallee()) o["f"] = fd(f);
            c.push_back(st(x->getCallee()));
            for (auto* a : x->arguments()) c.push_back(st(a));
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s)) o["op"] = getOperatorSpelling(oc->getOperator());
        }
        else if (auto* x = dyn_cast<CXXNewExpr>(s)) { o["at"] = ty(x->getAllocatedType()); if (x->isArray()) o["array"] = true; c.push_back(st(x->getInitializer())); if (x->isArray() && x->getArraySize()) c.push_back(st(*x->getArraySize())); }
        else if (auto* x = dyn_cast<LambdaExpr>(s)) {
            o["call"] = fd(x->getCallOperator()); 
            json::Array caps;
            for (auto& cp : x->captures()) { json::Object q; if (cp.capturesThis()) q["this"] = true; else if (cp.capturesVariable()) { q["d"] = declref(cast<ValueDecl>(cp.getCapturedVar())); q["byref"] = cp.getCaptureKind() == LCK_ByRef; } caps.push_back(std::move(q)); }
            o["caps"] = std::move(caps);
            json::Array ps; for (auto* p : x->getCallOperator()->parameters()) ps.push_back(vardecl(p));
            o["params"] = std::move(ps);
            if (!x->getCallOperator()->isDependentContext()) o["body"] = st(x->getBody());
        }
        else if (auto* x = dyn_cast<DeclStmt>(s)) {
            json::Array ds; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) ds.push_back(vardecl(v));
            o["vars"] = std::move(ds);
        }
        else if (auto* x = dyn_cast<IfStmt>(s)) { o["init"] = st(x->getInit()); o["var"] = x->getConditionVariableDeclStmt() ? st(x->getConditionVariableDeclStmt()) : json::Value(nullptr); c.push_back(st(x->getCond())); c.push_back(st(x->getThen())); c.push_back(st(x->getElse())); }
        else if (auto* x = dyn_cast<ForStmt>(s)) { o["el"] = line(s->getEndLoc()); c.push_back(st(x->getInit())); c.push_back(st(x->getCond())); c.push_back(st(x->getInc())); c.push_back(st(x->getBody())); o["var"] = x->getConditionVariableDeclStmt() ? st(x->getConditionVariableDeclStmt()) : json::Value(nullptr); }
        else if (auto* x = dyn_cast<WhileStmt>(s)) { c.push_back(st(x->getCond())); c.push_back(st(x->getBody())); o["var"] = x->getConditionVariableDeclStmt() ? st(x->getConditionVariableDeclStmt()) : json::Value(nullptr); }
        else if (auto* x = dyn_cast<DoStmt>(s)) { c.push_back(st(x->getBody())); c.push_back(st(x->getCond())); }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            c.push_back(st(x->getInit())); c.push_back(st(x->getRangeStmt())); c.push_back(st(x->getBeginStmt())); c.push_back(st(x->getEndStmt()));
            c.push_back(st(x->getCond())); c.push_back(st(x->getInc())); c.push_back(st(x->getLoopVarStmt())); c.push_back(st(x->getBody()));
        }
        else if (auto* x = dyn_cast<SwitchStmt>(s)) { c.push_back(st(x->getCond())); c.push_back(st(x->getBody())); }
        else if (auto* x = dyn_cast<CaseStmt>(s)) { c.push_back(st(x->getLHS())); c.push_back(st(x->getSubStmt())); }
        else if (auto* x = dyn_cast<DefaultStmt>(s)) { c.push_back(st(x->getSubStmt())); }
        else if (auto* x = dyn_cast<CXXCatchStmt>(s)) { if (x->getExceptionDecl()) o["var1"] = vardecl(x->getExceptionDecl()); if (!x->getCaughtType().isNull()) o["ct"] = ty(x->getCaughtType()); c.push_back(st(x->getHandlerBlock())); }
        else if (auto* x = dyn_cast<CXXThisExpr>(s)) { (void)x; }
        else if (auto* x = dyn_cast<InitListExpr>(s)) { for (auto* a : x->inits()) c.push_back(st(a)); }
        else { for (auto* a : s->children()) c.push_back(st(a)); }
        if (!c.empty()) o["c"] = std::move(c);
        return o;
    }
    void function(const FunctionDecl* f) {
        json::Object o; o["f"] = fd(f);
        auto& SM = C.getSourceManager();
        o["file"] = SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
        o["line"] = line(f->getLocation());
        json::Array ps; for (auto* p : f->parameters()) { json::Object x; x["id"] = did(p); x["n"] = p->getNameAsString(); x["t"] = ty(p->getType()); ps.push_back(std::move(x)); }
        o["params"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            json::Array is;
            for (auto* i : c->inits()) {
                json::Object x;
                if (i->isMemberInitializer()) x["fld"] = i->getMember()->getNameAsString();
                else if (i->isBaseInitializer()) x["base"] = ty(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) x["deleg"] = true;
                x["e"] = st(i->getInit()); x["written"] = i->isWritten();
                is.push_back(std::move(x));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = st(f->getBody());
        functions.push_back(std::move(o));
    }
    void finish() {
        for (size_t i = 0; i < globqueue.size(); ++i) {
            auto* v = globqueue[i]; json::Object o; o["id"] = did(v); o["qn"] = qn(v); o["t"] = ty(v->getType());
            const VarDecl* def = nullptr; const Expr* e = v->getAnyInitializer(def);
            if (e && !e->isValueDependent()) o["init"] = st(e);
            globals.push_back(std::move(o));
        }
        json::Object r; r["types"] = std::move(types); r["fdescs"] = std::move(fdescs); r["functions"] = std::move(functions);
        r["records"] = std::move(records); r["globals"] = std::move(globals);
        std::error_code ec; llvm::raw_fd_ostream os(OUT, ec); os << json::Value(std::move(r)); os.flush();
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper& D; V(Dumper& d) : D(d) {}
    std::set<const FunctionDecl*> seen;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
        if (f->isDependentContext()) return true;
        if (!D.inprefix(f->getLocation())) return true;
        if (isa<CXXDestructorDecl>(f)) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (seen.insert(f->getCanonicalDecl()).second) D.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (r->isThisDeclarationADefinition()) D.record(r); return true; }
};
class Cons : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) { FAILED = true; return; }
        Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl()); D.finish();
    }
};
class Act : public ASTFrontendAction {
public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv) {
    // astdump OUT PREFIX FILE flags...
    OUT = argv[1]; PREFIX = argv[2]; std::string file = argv[3];
    std::vector<std::string> flags(argv + 4, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
    return (rc || FAILED) ? 2 : 0;
}
