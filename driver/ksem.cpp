// Prints how each C kernel uses values of the integer-backed floating point storage types: one tab-separated event per line.
//   function  file:line  kind  detail...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <set>
#include <string>
using namespace clang;

static const std::set<std::string> SMALL = {"f16_t", "bf16_t", "f8e4m3_t", "f8e5m2_t"};

// the storage type a type spells, if any ("" otherwise); pointers give the pointee's with a '*'
static std::string small(QualType t, ASTContext &c) {
    std::string stars;
    for (int i = 0; i < 40 && !t.isNull(); i++) {
        const Type *p = t.getTypePtr();
        if (auto *td = dyn_cast<TypedefType>(p)) {
            std::string n = td->getDecl()->getNameAsString();
            if (SMALL.count(n))
                return n + stars;
        } else if (auto *pt = dyn_cast<PointerType>(p)) {
            stars += "*";
            t = pt->getPointeeType();
            continue;
        } else if (auto *at = dyn_cast<ArrayType>(p)) {
            stars += "*";
            t = at->getElementType();
            continue;
        }
        QualType n = t.getSingleStepDesugaredType(c);
        if (n == t)
            return "";
        t = n;
    }
    return "";
}

static std::string spell(QualType t, ASTContext &c) {
    std::string s = small(t, c);
    if (!s.empty())
        return s;
    std::string stars;
    t = t.getCanonicalType();
    while (t->isPointerType()) {
        stars += "*";
        t = t->getPointeeType();
    }
    return t.getUnqualifiedType().getAsString() + stars;
}

class V : public RecursiveASTVisitor<V> {
  public:
    ASTContext &c;
    SourceManager &sm;
    FunctionDecl *fn = nullptr;
    V(ASTContext &c) : c(c), sm(c.getSourceManager()) {}

    std::string sem(const Expr *e) {
        for (int i = 0; i < 40; i++) {
            std::string s = small(e->getType(), c);
            if (!s.empty())
                return s;
            if (auto *p = dyn_cast<ParenExpr>(e))
                e = p->getSubExpr();
            else if (auto *ic = dyn_cast<ImplicitCastExpr>(e)) {
                auto k = ic->getCastKind();
                if (k == CK_LValueToRValue || k == CK_NoOp || k == CK_IntegralCast || k == CK_ArrayToPointerDecay)
                    e = ic->getSubExpr();
                else
                    return "";
            } else if (auto *co = dyn_cast<ConditionalOperator>(e)) {
                std::string a = sem(co->getTrueExpr()), b = sem(co->getFalseExpr());
                return a.empty() ? b : a;
            } else
                return "";
        }
        return "";
    }
    // what an expression is when it is not of a storage type
    std::string other(const Expr *e) {
        e = e->IgnoreParenImpCasts();
        if (auto *ce = dyn_cast<CStyleCastExpr>(e)) {
            std::string s = small(ce->getType(), c);
            if (!s.empty())
                return s;
            e = ce->getSubExpr()->IgnoreParenImpCasts();
        }
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, c))
            return "const:" + std::to_string(r.Val.getInt().getExtValue());
        if (e->getType()->isRealFloatingType())
            return "float";
        if (e->getType()->isVoidPointerType())
            return "void*";
        return "int";
    }
    void out(SourceLocation l, const std::string &s) {
        if (!fn)
            return;
        l = sm.getExpansionLoc(l);
        std::string f = sm.getFilename(l).str();
        size_t k = f.rfind('/');
        llvm::outs() << fn->getNameAsString() << "\t" << (k == std::string::npos ? f : f.substr(k + 1)) << ":"
                     << sm.getSpellingLineNumber(l) << "\t" << s << "\n";
    }
    void flow(SourceLocation l, const char *kind, QualType to, const Expr *from) {
        std::string d = small(to, c), s = sem(from);
        if (d.empty() && s.empty())
            return;
        if (d.empty() && to->isVoidPointerType())
            return;
        out(l, std::string("flow\t") + kind + "\t" + (d.empty() ? to.getAsString() : d) + "\t" + (s.empty() ? other(from) : s));
    }
    bool TraverseFunctionDecl(FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody())
            return true;
        fn = f;
        std::string h = sm.getFilename(sm.getSpellingLoc(f->getLocation())).str();
        size_t k = h.rfind('/');
        out(f->getLocation(), "fn\t" + (k == std::string::npos ? h : h.substr(k + 1)) + "\t" + std::to_string(f->getNumParams()));
        std::string sg = "sig\t" + std::string(f->isExternallyVisible() ? "extern" : "static") + "\t" + spell(f->getReturnType(), c);
        for (ParmVarDecl *p : f->parameters())
            sg += "\t" + spell(p->getType(), c) + (p->getType()->isPointerType() && p->getType()->getPointeeType().isConstQualified() ? " const" : "");
        out(f->getLocation(), sg);
        bool r = RecursiveASTVisitor<V>::TraverseFunctionDecl(f);
        fn = nullptr;
        return r;
    }
    bool VisitBinaryOperator(BinaryOperator *b) {
        if (b->isAssignmentOp() && !b->isCompoundAssignmentOp()) {
            flow(b->getOperatorLoc(), "assign", b->getLHS()->getType(), b->getRHS());
            return true;
        }
        if (b->getOpcode() == BO_Comma)
            return true;
        std::string l = sem(b->getLHS()), r = sem(b->getRHS());
        for (const std::string &s : {l, r})
            if (!s.empty() && s.find('*') == std::string::npos) {
                out(b->getOperatorLoc(), "arith\t" + b->getOpcodeStr().str() + "\t" + s);
                break;
            }
        return true;
    }
    bool VisitUnaryOperator(UnaryOperator *u) {
        if (u->getOpcode() == UO_Deref || u->getOpcode() == UO_AddrOf)
            return true;
        std::string s = sem(u->getSubExpr());
        if (!s.empty() && s.find('*') == std::string::npos)
            out(u->getOperatorLoc(), "arith\t" + UnaryOperator::getOpcodeStr(u->getOpcode()).str() + "\t" + s);
        return true;
    }
    // a conversion that may not preserve the number
    void numeric(CastExpr *e) {
        auto k = e->getCastKind();
        QualType a = e->getSubExpr()->getType(), b = e->getType();
        bool lossy = false;
        if (k == CK_FloatingCast)
            lossy = c.getTypeSize(b) < c.getTypeSize(a);
        else if (k == CK_IntegralToFloating)
            lossy = c.getTypeSize(a) > (c.getTypeSize(b) == 32 ? 16u : 32u);
        else if (k == CK_IntegralCast)
            lossy = c.getTypeSize(b) < c.getTypeSize(a);
        else if (k == CK_FloatingToIntegral)
            lossy = true;
        Expr::EvalResult r;
        if (!lossy || e->getSubExpr()->EvaluateAsRValue(r, c))
            return;
        const Expr *x = e->getSubExpr()->IgnoreParenImpCasts();
        out(e->getBeginLoc(), std::string("conv\t") + e->getCastKindName() + "\t" + b.getAsString() + "\t" + a.getAsString() + "\t" +
                                  x->getType().getAsString() + "\t" + (isa<ExplicitCastExpr>(e) ? "explicit" : "implicit"));
    }
    bool VisitCastExpr(CastExpr *e) {
        // an untyped parameter seen as a pointer to elements
        if (fn && e->getType()->isPointerType() && !e->getType()->isVoidPointerType() && e->getSubExpr()->getType()->isVoidPointerType())
            if (auto *dr = dyn_cast<DeclRefExpr>(e->getSubExpr()->IgnoreParenImpCasts())) {
                if (auto *pv = dyn_cast<ParmVarDecl>(dr->getDecl()))
                    if (pv->getDeclContext() == fn)
                        out(e->getBeginLoc(), "pview\t" + std::to_string(pv->getFunctionScopeIndex()) + "\t" + spell(e->getType(), c));
            }
        std::string s = sem(e->getSubExpr()), d = small(e->getType(), c);
        auto k = e->getCastKind();
        numeric(e);
        if (s.empty() && d.empty())
            return true;
        if (k == CK_IntegralToFloating || k == CK_IntegralToBoolean || k == CK_FloatingToIntegral ||
            (isa<CStyleCastExpr>(e) && (!s.empty() || k != CK_BitCast)))
            out(e->getBeginLoc(), std::string("cast\t") + e->getCastKindName() + "\t" + (d.empty() ? e->getType().getAsString() : d) + "\t" +
                                      (s.empty() ? other(e->getSubExpr()) : s));
        else if (isa<CStyleCastExpr>(e) && !d.empty())
            out(e->getBeginLoc(), "view\t" + d);
        return true;
    }
    bool VisitDeclRefExpr(DeclRefExpr *e) {
        if (auto *f = dyn_cast<FunctionDecl>(e->getDecl()))
            if (!sm.isInSystemHeader(sm.getExpansionLoc(f->getLocation())))
                out(e->getBeginLoc(), "call\t" + f->getNameAsString());
        return true;
    }
    // single-precision arithmetic
    bool VisitExpr(Expr *e) {
        if (auto *bt = e->getType().getCanonicalType()->getAs<BuiltinType>())
            if (bt->getKind() == BuiltinType::Float) {
                // infinities, NaN and short binary fractions are the same in every precision
                Expr::EvalResult r;
                if (e->EvaluateAsRValue(r, c) && r.Val.isFloat()) {
                    double v = r.Val.getFloat().convertToDouble() * 1024;
                    if (v != v || v - v != 0 || (v < 1e15 && v > -1e15 && v == (double)(long long)v))
                        return true;
                }
                out(e->getBeginLoc(), "single");
            }
        return true;
    }
    void cond(const Expr *e) {
        if (!e)
            return;
        std::string s = sem(e);
        if (!s.empty() && s.find('*') == std::string::npos)
            out(e->getBeginLoc(), "arith\tcondition\t" + s);
    }
    bool VisitIfStmt(IfStmt *s) { cond(s->getCond()); return true; }
    bool VisitWhileStmt(WhileStmt *s) { cond(s->getCond()); return true; }
    bool VisitForStmt(ForStmt *s) { cond(s->getCond()); return true; }
    bool VisitConditionalOperator(ConditionalOperator *s) { cond(s->getCond()); return true; }
    bool VisitVarDecl(VarDecl *v) {
        if (v->hasInit() && !isa<InitListExpr>(v->getInit()))
            flow(v->getLocation(), "init", v->getType(), v->getInit());
        return true;
    }
    bool VisitReturnStmt(ReturnStmt *r) {
        if (r->getRetValue() && fn)
            flow(r->getReturnLoc(), "return", fn->getReturnType(), r->getRetValue());
        return true;
    }
    bool VisitCallExpr(CallExpr *e) {
        const FunctionDecl *f = e->getDirectCallee();
        const FunctionProtoType *ft = nullptr;
        QualType ct = e->getCallee()->getType();
        if (ct->isPointerType())
            ct = ct->getPointeeType();
        ft = ct->getAs<FunctionProtoType>();
        for (unsigned i = 0; i < e->getNumArgs(); i++) {
            QualType pt;
            if (f && i < f->getNumParams())
                pt = f->getParamDecl(i)->getType();
            else if (ft && i < ft->getNumParams())
                pt = ft->getParamType(i);
            else
                continue;
            flow(e->getBeginLoc(), "argument", pt, e->getArg(i));
        }
        return true;
    }
};

class A : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &c) override { V(c).TraverseDecl(c.getTranslationUnitDecl()); }
};
class Act : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<A>(); }
};

int main(int argc, const char **argv) {
    std::string err;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
    std::vector<std::string> files(argv + 1, argv + argc);
    tooling::ClangTool t(*db, files);
    return t.run(tooling::newFrontendActionFactory<Act>().get());
}
