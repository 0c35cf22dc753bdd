// Dumps a compact, fully resolved abstract syntax tree (JSON) of every function
// defined in a set of directories, one file per translation unit.
// usage: dpextract -o OUT.json -r ROOT [-r ROOT ...] -x EXCLUDED_PREFIX... FILE -- clang-args
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/MemoryBuffer.h>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::vector<std::string> gRoots, gExcl;
static std::set<std::string> gTempl;
static std::string gOut;

static void jstr(llvm::raw_ostream& o, llvm::StringRef s) {
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o << '\\' << c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b; }
        else o << c;
    }
    o << '"';
}

class Dumper {
    ASTContext& C;
    SourceManager& SM;
    llvm::raw_ostream& o;
    std::map<const Decl*, unsigned> varIds;
    std::map<const Decl*, unsigned> calleeIds;
    std::vector<const FunctionDecl*> callees;
    PrintingPolicy PP;
    bool dependent = false;

public:
    std::set<const FunctionDecl*> broken;
    Dumper(ASTContext& c, llvm::raw_ostream& out) : C(c), SM(c.getSourceManager()), o(out), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
    }

    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return SM.getFilename(l).str();
    }
    unsigned lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }

    bool inRepoLoc(SourceLocation l) {
        std::string f = fileOf(l);
        for (auto& x : gExcl) if (f.rfind(x, 0) == 0) return false;
        for (auto& r : gRoots) if (f.rfind(r, 0) == 0) return true;
        return false;
    }

    std::string qn(const NamedDecl* d) {
        if (!d) return "";
        std::string s; llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }

    unsigned varId(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = varIds.find(d);
        if (it != varIds.end()) return it->second;
        unsigned n = varIds.size() + 1;
        varIds[d] = n;
        return n;
    }

    // short type: record name without arguments, or the builtin's name
    // one of the class templates whose instantiations are analysed on their own
    static bool special(const CXXRecordDecl* r) {
        if (gTempl.empty()) return false;
        auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r);
        return sp && gTempl.count(sp->getNameAsString());
    }
    std::string cname(const CXXRecordDecl* r) {
        if (!special(r)) return qn(r);
        std::string a;
        auto& L = cast<ClassTemplateSpecializationDecl>(r)->getTemplateArgs();
        for (unsigned i = 0; i < L.size(); ++i)
            if (L[i].getKind() == TemplateArgument::Type) a += (a.empty() ? "" : ",") + L[i].getAsType().getCanonicalType().getAsString(PP);
            else if (L[i].getKind() == TemplateArgument::Integral) {
                llvm::SmallString<16> b; L[i].getAsIntegral().toString(b, 10);
                a += (a.empty() ? "" : ",") + b.str().str();
            }
        return qn(r) + "<" + a + ">";
    }

    std::string shortType(QualType t) {
        if (t.isNull()) return "?";
        t = t.getCanonicalType();
        std::string suf;
        if (t->isReferenceType()) t = t->getPointeeType().getCanonicalType();
        while (t->isPointerType()) { suf += "*"; t = t->getPointeeType().getCanonicalType(); }
        std::string pre = t.isConstQualified() ? "const " : "";
        t = t.getUnqualifiedType();
        if (const RecordType* r = t->getAs<RecordType>()) {
            std::string n = qn(r->getDecl());
            if (auto* cr = dyn_cast<CXXRecordDecl>(r->getDecl())) if (special(cr)) return pre + cname(cr) + suf;
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl())) {
                std::string a;
                auto& L = sp->getTemplateArgs();
                for (unsigned i = 0; i < L.size(); ++i)
                    if (L[i].getKind() == TemplateArgument::Integral) {
                        llvm::SmallString<16> b; L[i].getAsIntegral().toString(b, 10);
                        a += (a.empty() ? "" : ",") + b.str().str();
                    }
                if (!a.empty()) n += "<" + a + ">";
                else if (n == "std::vector" || n == "std::shared_ptr" || n == "std::unique_ptr" || n == "std::deque") {
                    if (L.size() && L[0].getKind() == TemplateArgument::Type) n += "<" + shortType(L[0].getAsType()) + ">";
                }
            }
            return pre + n + suf;
        }
        if (const InjectedClassNameType* r = t->getAs<InjectedClassNameType>()) return pre + qn(r->getDecl()) + suf;
        if (const EnumType* e = t->getAs<EnumType>()) return pre + qn(e->getDecl()) + suf;
        std::string s = t.getAsString(PP);
        if (s.size() > 80) s = s.substr(0, 80);
        return pre + s + suf;
    }
    std::string longType(QualType t) {
        if (t.isNull()) return "?";
        std::string s = t.getCanonicalType().getAsString(PP);
        if (gTempl.empty() && s.size() > 240) s = s.substr(0, 240);
        return s;
    }

    std::string usr(const Decl* d) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "";
        return b.str().str();
    }

    const FunctionDecl* pattern(const FunctionDecl* f) {
        if (const FunctionDecl* p = f->getTemplateInstantiationPattern()) {
            if (instantiated(f)) return f;
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (special(m->getParent())) return f;
            return p;
        }
        return f;
    }

    // instantiation of one of the analysed function templates: it has a body of its own
    bool instantiated(const FunctionDecl* f) {
        if (!f->isFunctionTemplateSpecialization()) return false;
        if (!gTempl.empty()) {
            auto* m = dyn_cast<CXXMethodDecl>(f);
            if (!m || !special(m->getParent())) return false;
        }
        const FunctionDecl* p = f->getTemplateInstantiationPattern();
        if (!p || !inRepoLoc(p->getLocation())) return false;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda() || (isa<ClassTemplateSpecializationDecl>(m->getParent()) && !special(m->getParent()))) return false;
        const FunctionDecl* d = nullptr;
        return f->isDefined(d) && d && d->getBody() && !d->isDependentContext();
    }

    unsigned calleeId(const FunctionDecl* f) {
        const Decl* k = f->getCanonicalDecl();
        auto it = calleeIds.find(k);
        if (it != calleeIds.end()) return it->second;
        unsigned n = callees.size();
        callees.push_back(f);
        calleeIds[k] = n;
        return n;
    }

    static char mode(QualType t) {
        t = t.getCanonicalType();
        if (t->isReferenceType()) {
            QualType p = t->getPointeeType();
            if (t->isRValueReferenceType()) return 'r';
            return p.isConstQualified() ? 'c' : 'm';
        }
        if (t->isPointerType()) return t->getPointeeType().isConstQualified() ? 'q' : 'p';
        return 'v';
    }

    void dumpCallees() {
        o << "[";
        for (size_t i = 0; i < callees.size(); ++i) {
            const FunctionDecl* f = callees[i];
            if (i) o << ",\n";
            const FunctionDecl* p = pattern(f);
            o << "{\"qn\":"; jstr(o, qn(f));
            o << ",\"n\":"; jstr(o, f->getNameAsString());
            o << ",\"usr\":"; jstr(o, usr(p));
            o << ",\"ret\":"; jstr(o, shortType(f->getReturnType()));
            o << ",\"rm\":\"" << mode(f->getReturnType()) << "\"";
            o << ",\"pm\":\"";
            for (auto* a : f->parameters()) o << mode(a->getType());
            o << "\",\"pt\":[";
            bool first = true;
            for (auto* a : f->parameters()) { if (!first) o << ","; first = false; jstr(o, shortType(a->getType())); }
            o << "]";
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                o << ",\"cls\":"; jstr(o, cname(m->getParent()));
                if (m->isConst()) o << ",\"const\":1";
                if (m->isStatic()) { o << ",\"static\":1,\"rlt\":"; jstr(o, longType(f->getReturnType())); }
                if (m->isVirtual()) o << ",\"virt\":1";
                if (isa<CXXConstructorDecl>(f)) {
                    auto* cd = cast<CXXConstructorDecl>(f);
                    o << ",\"ctor\":\"" << (cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other") << "\"";
                }
            }
            if (inRepoLoc(p->getLocation())) o << ",\"repo\":1";
            if (auto* ta = f->getTemplateSpecializationArgs()) {
                o << ",\"ta\":[";
                bool ff = true;
                for (unsigned k = 0; k < ta->size(); ++k) {
                    const TemplateArgument& A = ta->get(k);
                    if (A.getKind() == TemplateArgument::Integral) {
                        if (!ff) o << ","; ff = false;
                        llvm::SmallString<16> b; A.getAsIntegral().toString(b, 10);
                        o << b;
                    } else { if (!ff) o << ","; ff = false; o << "null"; }
                }
                o << "]";
            }
            o << "}";
        }
        o << "]";
    }

    // ---------------------------------------------------------------- expressions
    void loc(const Stmt* s) {
        SourceLocation l = s->getBeginLoc();
        if (auto* m = dyn_cast<MemberExpr>(s)) l = m->getMemberLoc();
        if (l.isValid()) o << ",\"l\":" << lineOf(l);
    }
    void ty(const Expr* e) { o << ",\"t\":"; jstr(o, shortType(e->getType())); }
    void lty(const Expr* e) {
        std::string l = longType(e->getType());
        if (l.find('<') != std::string::npos) { o << ",\"lt\":"; jstr(o, l); }
    }

    void constval(const Expr* e) {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        if (!e->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
            llvm::SmallString<24> b; R.Val.getInt().toString(b, 10);
            o << ",\"cv\":" << b;
        }
    }

    void args(llvm::ArrayRef<const Expr*> a) {
        o << "[";
        for (size_t i = 0; i < a.size(); ++i) { if (i) o << ","; expr(a[i]); }
        o << "]";
    }
    template <class R> void argRange(R r) {
        o << "[";
        bool first = true;
        for (const Expr* e : r) { if (!first) o << ","; first = false; expr(e); }
        o << "]";
    }

    const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                switch (p->getCastKind()) {
                case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_FloatingToIntegral:
                    return e;
                default: e = p->getSubExpr(); continue;
                }
            }
            break;
        }
        return e;
    }

    void expr(const Expr* e0) {
        const Expr* e = strip(e0);
        if (!e) { o << "null"; return; }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<24> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
            o << "{\"k\":\"int\",\"v\":" << b << "}"; return;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            llvm::SmallString<32> b; x->getValue().toString(b, 17, 0, false);
            std::string s = b.str().str();
            o << "{\"k\":\"flt\",\"v\":"; jstr(o, s); o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o << "{\"k\":\"bool\",\"v\":" << (x->getValue() ? "true" : "false") << "}"; return; }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            o << "{\"k\":\"str\",\"v\":"; jstr(o, x->getCharByteWidth() == 1 ? x->getString() : llvm::StringRef("?")); o << "}"; return;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { o << "{\"k\":\"int\",\"v\":" << x->getValue() << "}"; return; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o << "{\"k\":\"null\"}"; return; }
        if (isa<CXXThisExpr>(e)) { o << "{\"k\":\"this\""; ty(e); o << "}"; return; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o << "{\"k\":\"fref\",\"f\":" << calleeId(fd) << "}"; return;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                llvm::SmallString<24> b; ec->getInitVal().toString(b, 10);
                o << "{\"k\":\"enum\",\"n\":"; jstr(o, qn(ec)); o << ",\"v\":" << b << "}"; return;
            }
            if (auto* vd = dyn_cast<VarDecl>(d)) {
                const char* dk = isa<ParmVarDecl>(vd) ? "param" : vd->isLocalVarDecl() ? "local" : "global";
                o << "{\"k\":\"var\",\"n\":"; jstr(o, vd->hasGlobalStorage() ? qn(vd) : vd->getNameAsString());
                o << ",\"id\":" << varId(vd) << ",\"dk\":\"" << dk << "\"";
                if (x->refersToEnclosingVariableOrCapture()) o << ",\"cap\":1";
                ty(e); constval(e); loc(e);
                o << "}"; return;
            }
            if (auto* bd = dyn_cast<BindingDecl>(d)) {
                if (VarDecl* h = bd->getHoldingVar()) {
                    o << "{\"k\":\"var\",\"n\":"; jstr(o, bd->getNameAsString()); o << ",\"id\":" << varId(h) << ",\"dk\":\"local\"";
                    ty(e); loc(e); o << "}"; return;
                }
                if (bd->getBinding()) { expr(bd->getBinding()); return; }
                o << "{\"k\":\"var\",\"n\":"; jstr(o, bd->getNameAsString()); o << ",\"id\":" << varId(bd) << ",\"dk\":\"binding\"}"; return;
            }
            o << "{\"k\":\"dref\",\"n\":"; jstr(o, qn(d)); ty(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o << "{\"k\":\"mfref\",\"f\":" << calleeId(fd) << ",\"b\":"; expr(x->getBase()); o << "}"; return;
            }
            o << "{\"k\":\"mem\",\"n\":"; jstr(o, d->getNameAsString());
            if (auto* f = dyn_cast<FieldDecl>(d)) { o << ",\"q\":"; jstr(o, qn(f)); if (f->isMutable()) o << ",\"mut\":1"; }
            if (auto* v = dyn_cast<VarDecl>(d)) { o << ",\"q\":"; jstr(o, qn(v)); o << ",\"static\":1"; }
            if (x->isArrow()) o << ",\"arrow\":1";
            o << ",\"b\":"; expr(x->getBase());
            ty(e); constval(e); loc(e);
            o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o << "{\"k\":\"op\",\"op\":"; jstr(o, getOperatorSpelling(x->getOperator()));
            if (auto* fd = x->getDirectCallee()) o << ",\"f\":" << calleeId(fd);
            o << ",\"a\":"; args(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o << "{\"k\":\"mcall\"";
            if (auto* md = x->getMethodDecl()) {
                o << ",\"f\":" << calleeId(md);
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->hasQualifier()) o << ",\"qual\":1";
            } else { o << ",\"callee\":"; expr(x->getCallee()); }
            o << ",\"o\":"; expr(x->getImplicitObjectArgument());
            o << ",\"a\":"; args(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o << "{\"k\":\"call\"";
            if (auto* fd = x->getDirectCallee()) o << ",\"f\":" << calleeId(fd);
            else { o << ",\"callee\":"; expr(x->getCallee()); }
            o << ",\"a\":"; args(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            ty(e); loc(e); constval(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            const CXXConstructorDecl* cd = x->getConstructor();
            // elidable copies/moves of a temporary are the temporary
            if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1 && (x->isElidable())) { expr(x->getArg(0)); return; }
            o << "{\"k\":\"ctor\",\"f\":" << calleeId(cd);
            if (isa<CXXTemporaryObjectExpr>(x)) o << ",\"tmp\":1";
            o << ",\"a\":"; args(llvm::ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            ty(e); lty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o << "{\"k\":\"ctor\",\"f\":" << calleeId(x->getConstructor()) << ",\"a\":[]"; ty(e); o << "}"; return; }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o << "{\"k\":\"un\",\"op\":"; jstr(o, UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix()) o << ",\"post\":1";
            o << ",\"e\":"; expr(x->getSubExpr()); ty(e); constval(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o << "{\"k\":\"casg\",\"op\":"; jstr(o, BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())));
            o << ",\"a\":"; expr(x->getLHS()); o << ",\"b\":"; expr(x->getRHS()); ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign) {
                o << "{\"k\":\"asg\",\"a\":"; expr(x->getLHS()); o << ",\"b\":"; expr(x->getRHS()); ty(e); loc(e); o << "}"; return;
            }
            o << "{\"k\":\"bin\",\"op\":"; jstr(o, x->getOpcodeStr());
            o << ",\"a\":"; expr(x->getLHS()); o << ",\"b\":"; expr(x->getRHS()); ty(e); constval(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o << "{\"k\":\"cond\",\"c\":"; expr(x->getCond()); o << ",\"a\":"; expr(x->getTrueExpr()); o << ",\"b\":"; expr(x->getFalseExpr());
            ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o << "{\"k\":\"sub\",\"a\":"; expr(x->getBase()); o << ",\"i\":"; expr(x->getIdx()); ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ImplicitCastExpr>(e); x && x->getCastKind() == CK_FloatingToIntegral) {
            o << "{\"k\":\"cast\",\"ck\":\"FloatingToIntegral\",\"e\":"; expr(x->getSubExpr()); ty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            const char* n = x->getCastKind() == CK_PointerToBoolean ? "ptr" : x->getCastKind() == CK_IntegralToBoolean ? "int" : "flt";
            o << "{\"k\":\"tobool\",\"from\":\"" << n << "\",\"e\":"; expr(x->getSubExpr()); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            // casts that only wrap a construction are the construction
            o << "{\"k\":\"cast\",\"ck\":"; jstr(o, x->getCastKindName()); o << ",\"e\":"; expr(x->getSubExpr()); ty(e); constval(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o << "{\"k\":\"lambda\",\"caps\":[";
            bool first = true;
            for (auto& cp : x->captures()) {
                if (!first) o << ","; first = false;
                if (cp.capturesThis()) o << "{\"this\":1}";
                else if (cp.capturesVariable()) {
                    o << "{\"n\":"; jstr(o, cp.getCapturedVar()->getNameAsString());
                    o << ",\"id\":" << varId(cp.getCapturedVar());
                    o << ",\"by\":\"" << (cp.getCaptureKind() == LCK_ByRef ? "ref" : "val") << "\"}";
                } else o << "{}";
            }
            o << "],";
            if (FunctionTemplateDecl* ft = x->getDependentCallOperator()) {
                // generic lambda: the bodies it is instantiated with
                o << "\"specs\":[";
                bool f1 = true;
                for (FunctionDecl* sp : ft->specializations()) {
                    const FunctionDecl* d = nullptr;
                    if (!sp->isDefined(d) || !d || !d->getBody() || d->isDependentContext()) continue;
                    if (!f1) o << ","; f1 = false;
                    o << "{\"f\":" << calleeId(sp) << ",\"params\":"; params(d);
                    o << ",\"body\":"; stmt(d->getBody()); o << "}";
                }
                o << "],";
            }
            o << "\"params\":"; params(x->getCallOperator());
            o << ",\"body\":"; stmt(x->getBody()); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr* s = x->isSemanticForm() || !x->getSemanticForm() ? x : x->getSemanticForm();
            o << "{\"k\":\"ilist\",\"a\":"; argRange(s->inits()); ty(e); lty(e); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) { o << "{\"k\":\"new\",\"e\":"; if (x->getConstructExpr()) expr(x->getConstructExpr()); else if (x->getInitializer()) expr(x->getInitializer()); else o << "null"; ty(e); loc(e); o << "}"; return; }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o << "{\"k\":\"del\",\"e\":"; expr(x->getArgument()); loc(e); o << "}"; return; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o << "{\"k\":\"throw\",\"e\":"; if (x->getSubExpr()) expr(x->getSubExpr()); else o << "null"; loc(e); o << "}"; return; }
        if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e)) { o << "{\"k\":\"int\",\"v\":0"; constval(e); o << ",\"trait\":1}"; return; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o << "{\"k\":\"vinit\""; ty(e); lty(e); o << "}"; return; }
        // dependent forms (templates)
        if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
            o << "{\"k\":\"dmem\",\"n\":"; jstr(o, x->getMember().getAsString());
            o << ",\"b\":"; if (x->isImplicitAccess()) o << "{\"k\":\"this\"}"; else expr(x->getBase());
            loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<UnresolvedMemberExpr>(e)) {
            o << "{\"k\":\"dmem\",\"n\":"; jstr(o, x->getMemberName().getAsString());
            o << ",\"b\":"; if (x->isImplicitAccess()) o << "{\"k\":\"this\"}"; else expr(x->getBase());
            loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<UnresolvedLookupExpr>(e)) { o << "{\"k\":\"dref\",\"n\":"; jstr(o, x->getName().getAsString()); loc(e); o << "}"; return; }
        if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) { o << "{\"k\":\"dref\",\"n\":"; jstr(o, x->getDeclName().getAsString()); loc(e); o << "}"; return; }
        if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
            o << "{\"k\":\"dctor\",\"a\":"; argRange(x->arguments()); o << ",\"lt\":"; jstr(o, longType(x->getType())); loc(e); o << "}"; return;
        }
        if (auto* x = dyn_cast<ParenListExpr>(e)) {
            o << "{\"k\":\"plist\",\"a\":[";
            for (unsigned i = 0; i < x->getNumExprs(); ++i) { if (i) o << ","; expr(x->getExpr(i)); }
            o << "]}"; return;
        }
        if (auto* x = dyn_cast<PackExpansionExpr>(e)) { o << "{\"k\":\"pack\",\"e\":"; expr(x->getPattern()); o << "}"; return; }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { expr(x->getSourceExpr()); return; } }
        o << "{\"k\":\"other\",\"c\":"; jstr(o, e->getStmtClassName());
        o << ",\"ch\":[";
        bool first = true;
        for (const Stmt* c : e->children()) {
            if (!c) continue;
            if (!first) o << ","; first = false;
            if (auto* ce = dyn_cast<Expr>(c)) expr(ce); else stmt(c);
        }
        o << "]"; loc(e); o << "}";
    }

    // ---------------------------------------------------------------- statements
    void vardecl(const VarDecl* v) {
        o << "{\"n\":"; jstr(o, v->getNameAsString());
        o << ",\"id\":" << varId(v) << ",\"t\":"; jstr(o, shortType(v->getType()));
        o << ",\"lt\":"; jstr(o, longType(v->getType()));
        o << ",\"m\":\"" << mode(v->getType()) << "\"";
        if (v->isStaticLocal()) o << ",\"static\":1";
        o << ",\"l\":" << lineOf(v->getLocation());
        if (v->hasInit()) { o << ",\"e\":"; expr(v->getInit()); }
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            o << ",\"bs\":[";
            bool first = true;
            for (auto* b : dd->bindings())
                if (VarDecl* h = b->getHoldingVar()) { if (!first) o << ","; first = false; vardecl(h); }
            o << "]";
        }
        o << "}";
    }

    void stmt(const Stmt* s) {
        if (!s) { o << "null"; return; }
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o << "{\"k\":\"blk\",\"s\":[";
            bool first = true;
            for (auto* c : x->body()) { if (!first) o << ","; first = false; stmt(c); }
            o << "],\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o << "{\"k\":\"decl\",\"d\":[";
            bool first = true;
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) { if (!first) o << ","; first = false; vardecl(v); }
            }
            o << "],\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o << "{\"k\":\"if\"";
            if (x->getInit()) { o << ",\"init\":"; stmt(x->getInit()); }
            if (x->getConditionVariable()) { o << ",\"cv\":"; vardecl(x->getConditionVariable()); }
            o << ",\"c\":"; expr(x->getCond());
            o << ",\"a\":"; stmt(x->getThen());
            o << ",\"b\":"; stmt(x->getElse());
            o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o << "{\"k\":\"for\",\"init\":"; stmt(x->getInit());
            o << ",\"c\":"; if (x->getCond()) expr(x->getCond()); else o << "null";
            o << ",\"inc\":"; if (x->getInc()) expr(x->getInc()); else o << "null";
            o << ",\"body\":"; stmt(x->getBody()); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o << "{\"k\":\"rfor\",\"v\":"; vardecl(x->getLoopVariable());
            o << ",\"r\":"; if (x->getRangeInit()) expr(x->getRangeInit()); else o << "null";
            o << ",\"body\":"; stmt(x->getBody()); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            o << "{\"k\":\"while\",\"c\":"; expr(x->getCond()); o << ",\"body\":"; stmt(x->getBody()); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            o << "{\"k\":\"do\",\"c\":"; expr(x->getCond()); o << ",\"body\":"; stmt(x->getBody()); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o << "{\"k\":\"switch\",\"c\":"; expr(x->getCond()); o << ",\"body\":"; stmt(x->getBody()); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            o << "{\"k\":\"case\",\"v\":"; expr(x->getLHS()); o << ",\"s\":"; stmt(x->getSubStmt()); o << "}"; return;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o << "{\"k\":\"default\",\"s\":"; stmt(x->getSubStmt()); o << "}"; return; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o << "{\"k\":\"ret\",\"e\":"; if (x->getRetValue()) expr(x->getRetValue()); else o << "null"; o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (isa<BreakStmt>(s)) { o << "{\"k\":\"break\"}"; return; }
        if (isa<ContinueStmt>(s)) { o << "{\"k\":\"continue\"}"; return; }
        if (isa<NullStmt>(s)) { o << "{\"k\":\"nop\"}"; return; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o << "{\"k\":\"try\",\"body\":"; stmt(x->getTryBlock()); o << ",\"h\":[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) o << ","; stmt(x->getHandler(i)->getHandlerBlock()); }
            o << "],\"l\":" << lineOf(x->getBeginLoc()) << "}"; return;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { stmt(x->getSubStmt()); return; }
        if (auto* x = dyn_cast<Expr>(s)) { o << "{\"k\":\"ex\",\"e\":"; expr(x); o << ",\"l\":" << lineOf(x->getBeginLoc()) << "}"; return; }
        o << "{\"k\":\"ostmt\",\"c\":"; jstr(o, s->getStmtClassName()); o << ",\"l\":" << lineOf(s->getBeginLoc()) << "}";
    }

    void params(const FunctionDecl* f) {
        o << "[";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) o << ","; first = false;
            o << "{\"n\":"; jstr(o, p->getNameAsString()); o << ",\"id\":" << varId(p) << ",\"t\":"; jstr(o, shortType(p->getType()));
            o << ",\"lt\":"; jstr(o, longType(p->getType()));
            o << ",\"m\":\"" << mode(p->getType()) << "\"}";
        }
        o << "]";
    }

    void function(const FunctionDecl* f) {
        o << "{\"qn\":"; jstr(o, qn(f));
        o << ",\"n\":"; jstr(o, f->getNameAsString());
        o << ",\"usr\":"; jstr(o, usr(f));
        o << ",\"file\":"; jstr(o, fileOf(f->getLocation()));
        o << ",\"l\":" << lineOf(f->getLocation());
        o << ",\"ret\":"; jstr(o, shortType(f->getReturnType()));
        o << ",\"rm\":\"" << mode(f->getReturnType()) << "\"";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o << ",\"cls\":"; jstr(o, cname(m->getParent()));
            if (m->isConst()) o << ",\"const\":1";
            if (m->isStatic()) o << ",\"static\":1";
            if (m->isVirtual()) o << ",\"virt\":1";
            o << ",\"acc\":" << (int)m->getAccess();
            o << ",\"ov\":[";
            bool first = true;
            for (auto* ov : m->overridden_methods()) { if (!first) o << ","; first = false; jstr(o, usr(ov)); }
            o << "]";
            if (isa<CXXDestructorDecl>(f)) o << ",\"dtor\":1";
        }
        if (f->isDefaulted()) o << ",\"defaulted\":1";
        if (f->isTemplated()) o << ",\"templ\":1";
        if (broken.count(f)) o << ",\"broken\":1";
        o << ",\"params\":"; params(f);
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            o << ",\"ctor\":\"" << (cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other") << "\"";
            o << ",\"inits\":[";
            bool first = true;
            for (auto* i : cd->inits()) {
                if (!first) o << ","; first = false;
                o << "{";
                if (i->isAnyMemberInitializer()) { o << "\"f\":"; jstr(o, i->getAnyMember()->getNameAsString()); }
                else if (i->isBaseInitializer()) { o << "\"base\":"; jstr(o, shortType(QualType(i->getBaseClass(), 0))); }
                else o << "\"deleg\":1";
                if (i->isWritten()) o << ",\"w\":1";
                o << ",\"e\":"; expr(i->getInit()); o << "}";
            }
            o << "]";
        }
        o << ",\"body\":"; stmt(f->getBody());
        o << "}";
    }

    void record(const CXXRecordDecl* r) {
        o << "{\"qn\":"; jstr(o, cname(r));
        o << ",\"file\":"; jstr(o, fileOf(r->getLocation())); o << ",\"l\":" << lineOf(r->getLocation());
        o << ",\"bases\":[";
        bool first = true;
        for (auto& b : r->bases()) { if (!first) o << ","; first = false; jstr(o, shortType(b.getType())); }
        o << "],\"fields\":[";
        first = true;
        for (auto* f : r->fields()) {
            if (!first) o << ","; first = false;
            o << "{\"n\":"; jstr(o, f->getNameAsString()); o << ",\"t\":"; jstr(o, shortType(f->getType()));
            o << ",\"lt\":"; jstr(o, longType(f->getType())); o << ",\"l\":" << lineOf(f->getLocation());
            o << ",\"m\":\"" << mode(f->getType()) << "\"";
            if (f->isMutable()) o << ",\"mut\":1";
            if (f->hasInClassInitializer() && f->getInClassInitializer()) { o << ",\"e\":"; expr(f->getInClassInitializer()); }
            o << "}";
        }
        o << "],\"methods\":[";
        first = true;
        for (auto* m : r->methods()) {
            if (m->isImplicit()) continue;
            if (!first) o << ","; first = false;
            o << "{\"n\":"; jstr(o, m->getNameAsString()); o << ",\"usr\":"; jstr(o, usr(m));
            o << ",\"ret\":"; jstr(o, shortType(m->getReturnType()));
            if (m->isConst()) o << ",\"const\":1";
            if (m->isVirtual()) o << ",\"virt\":1";
            if (m->isStatic()) o << ",\"static\":1";
            if (m->isDeleted()) o << ",\"del\":1";
            o << ",\"acc\":" << (int)m->getAccess();
            if (isa<CXXConstructorDecl>(m)) o << ",\"ctor\":1";
            o << ",\"ov\":[";
            bool f2 = true;
            for (auto* ov : m->overridden_methods()) { if (!f2) o << ","; f2 = false; jstr(o, usr(ov)); }
            o << "]}";
        }
        o << "]}";
    }
    std::vector<const FunctionDecl*>& calleeList() { return callees; }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    std::vector<const FunctionDecl*> funcs;
    std::vector<const CXXRecordDecl*> recs;
    std::set<const Decl*> seen;
    Dumper& D;
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->doesThisDeclarationHaveABody()) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (!D.inRepoLoc(f->getLocation()) || !gTempl.empty()) return true;
        if (seen.insert(f).second) funcs.push_back(f);
        return true;
    }
    bool VisitClassTemplateDecl(ClassTemplateDecl* t) {
        if (!gTempl.count(t->getNameAsString()) || !D.inRepoLoc(t->getLocation())) return true;
        for (auto* sp : t->specializations()) {
            if (!sp->getDefinition() || sp->getDefinition() != sp) continue;
            if (!seen.insert(sp).second) continue;
            recs.push_back(sp);
            for (auto* m : sp->methods()) {
                const FunctionDecl* d = nullptr;
                if (m->isImplicit() || !m->isDefined(d) || !d || !d->getBody() || d->isDependentContext()) continue;
                if (seen.insert(d).second) funcs.push_back(d);
            }
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
        if (!D.inRepoLoc(r->getLocation()) || !gTempl.empty()) return true;
        if (seen.insert(r).second) recs.push_back(r);
        return true;
    }
};

// compilation errors: where they are, so that a function that does not compile is never judged
struct ErrorSites : public DiagnosticConsumer {
    std::vector<SourceLocation> at;
    unsigned count = 0;
    void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic& d) override {
        DiagnosticConsumer::HandleDiagnostic(l, d);
        if (l >= DiagnosticsEngine::Error) { ++count; at.push_back(d.getLocation()); }
    }
};
static ErrorSites* gErrors = nullptr;

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        std::error_code ec;
        llvm::raw_fd_ostream out(gOut, ec);
        if (ec) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
        Dumper D(C, out);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        SourceManager& SM = C.getSourceManager();
        out << "{\"main\":"; jstr(out, SM.getFileEntryRefForID(SM.getMainFileID())->getName());
        out << ",\n\"errors\":" << (gErrors ? gErrors->count : C.getDiagnostics().getClient()->getNumErrors());
        std::vector<SourceLocation> outside;
        if (gErrors) for (auto l : gErrors->at) {
            bool in = false;
            if (l.isValid()) {
                SourceLocation e = SM.getExpansionLoc(l);
                for (auto* f : V.funcs) {
                    SourceLocation b = SM.getExpansionLoc(f->getBeginLoc()), z = SM.getExpansionLoc(f->getEndLoc());
                    if (SM.getFileID(b) == SM.getFileID(e) && !SM.isBeforeInTranslationUnit(e, b) && !SM.isBeforeInTranslationUnit(z, e)) { D.broken.insert(f); in = true; }
                }
            }
            if (!in) outside.push_back(l);
        }
        out << ",\n\"outside\":[";
        for (size_t i = 0; i < outside.size(); ++i) {
            if (i) out << ",";
            jstr(out, outside[i].isValid() ? outside[i].printToString(SM) : "?");
        }
        out << "]";
        // files read, so that the caller can key a cache on their contents
        out << ",\n\"deps\":[";
        bool first = true;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            llvm::StringRef n = it->first.getName();
            bool in = false;
            for (auto& r : gRoots) if (n.starts_with(r)) in = true;
            if (!in) continue;
            if (!first) out << ","; first = false;
            jstr(out, n);
        }
        out << "],\n\"records\":[";
        first = true;
        for (auto* r : V.recs) { if (!first) out << ",\n"; first = false; D.record(r); }
        out << "],\n\"functions\":[";
        first = true;
        for (auto* f : V.funcs) { if (!first) out << ",\n"; first = false; D.function(f); }
        for (size_t i = 0; i < D.calleeList().size(); ++i) {
            const FunctionDecl* f = D.calleeList()[i];
            const FunctionDecl* d = nullptr;
            if (!D.instantiated(f) || !f->isDefined(d) || !V.seen.insert(d).second) continue;
            if (!first) out << ",\n"; first = false; D.function(d);
        }
        out << "],\n\"callees\":";
        D.dumpCallees();
        out << "}\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
        gErrors = new ErrorSites;
        CI.getDiagnostics().setClient(gErrors, true);
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv) {
    std::string file;
    std::vector<std::string> cargs;
    std::vector<std::pair<std::string, std::string>> maps;
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "-o") gOut = argv[++i];
        else if (a == "-r") gRoots.push_back(argv[++i]);
        else if (a == "-m") { std::string v = argv[++i]; auto k = v.find('='); maps.push_back({v.substr(0, k), v.substr(k + 1)}); }
        else if (a == "-t") gTempl.insert(argv[++i]);
        else if (a == "-x") gExcl.push_back(argv[++i]);
        else file = a;
    }
    for (; i < argc; ++i) cargs.push_back(argv[i]);
    if (file.empty() || gOut.empty()) { llvm::errs() << "usage\n"; return 2; }
    tooling::FixedCompilationDatabase db(".", cargs);
    tooling::ClangTool tool(db, {file});
    std::vector<std::unique_ptr<llvm::MemoryBuffer>> bufs;
    for (auto& m : maps) {
        auto b = llvm::MemoryBuffer::getFile(m.second);
        if (!b) { llvm::errs() << "cannot read " << m.second << "\n"; return 2; }
        bufs.push_back(std::move(*b));
        tool.mapVirtualFile(m.first, bufs.back()->getBuffer());
    }
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
