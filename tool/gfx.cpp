// gfx: exports the type-checked, instantiated functions and records of namespace GooseFEM as JSON.
// Analysis is done by /verif/lib on this export; nothing is executed.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static json::OStream* J = nullptr;
static std::string g_out;

struct Exporter {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> ids;
    std::map<std::string, int> typeIds;
    std::vector<std::string> typeNames;
    std::vector<const FunctionDecl*> queue;
    std::set<const FunctionDecl*> seen;
    Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }
    int id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end())
            return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    // GooseFEM: the code under analysis; entry, spec: client functions and reference semantics
    // of the driver (see /verif/props)
    static bool rootName(const NamespaceDecl* ns)
    {
        auto n = ns->getName();
        return n == "GooseFEM" || n == "entry" || n == "spec" || n == "pre";
    }
    bool inGoose(const Decl* d)
    {
        for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(c))
                if (rootName(ns) && ns->getParent()->getRedeclContext()->isTranslationUnit())
                    return true;
        }
        return false;
    }
    std::string tystr(QualType t)
    {
        std::string s = t.getCanonicalType().getAsString(PP);
        return s;
    }
    int tyid(QualType t)
    {
        auto s = tystr(t);
        auto it = typeIds.find(s);
        if (it != typeIds.end())
            return it->second;
        int n = (int)typeNames.size();
        typeNames.push_back(s);
        typeIds[s] = n;
        return n;
    }
    void ty(QualType t)
    {
        J->attribute("ty", tyid(t));
    }
    void loc(SourceLocation l)
    {
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isValid())
            J->attribute("ln", (int64_t)p.getLine());
    }
    std::string file(SourceLocation l)
    {
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getFilename() : "";
    }
    std::string macro(SourceLocation l)
    {
        std::string name;
        while (l.isMacroID()) {
            if (SM.isMacroArgExpansion(l)) {
                l = SM.getImmediateSpellingLoc(l);
                continue;
            }
            name = Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str();
            l = SM.getImmediateExpansionRange(l).getBegin();
        }
        return name;
    }
    void targs(const TemplateArgumentList* a)
    {
        if (!a)
            return;
        J->attributeArray("targs", [&] {
            for (auto& x : a->asArray())
                targ(x);
        });
    }
    void targ(const TemplateArgument& x)
    {
        switch (x.getKind()) {
        case TemplateArgument::Type:
            J->object([&] { J->attribute("t", tyid(x.getAsType())); });
            break;
        case TemplateArgument::Integral:
            J->object([&] { J->attribute("v", x.getAsIntegral().getExtValue()); });
            break;
        case TemplateArgument::Pack:
            for (auto& y : x.pack_elements())
                targ(y);
            break;
        default:
            J->object([&] { J->attribute("o", 1); });
        }
    }
    void fref(const FunctionDecl* f)
    {
        J->attribute("fn", f->getQualifiedNameAsString());
        if (inGoose(f)) {
            const FunctionDecl* def = f;
            f->getBody(def);
            if (!def)
                def = f;
            J->attribute("fid", id(f));
            enqueue(f);
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            J->attribute("cls", m->getParent()->getQualifiedNameAsString());
            if (m->isStatic())
                J->attribute("static", true);
            if (m->isConst())
                J->attribute("const", true);
        }
        targs(f->getTemplateSpecializationArgs());
    }
    void enqueue(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def)
            return;
        if (def->isDependentContext())
            return;
        if (seen.insert(def->getCanonicalDecl()).second)
            queue.push_back(def);
    }
    void exprs(StringRef key, llvm::ArrayRef<const Expr*> es)
    {
        J->attributeArray(key, [&] {
            for (auto* e : es)
                expr(e);
        });
    }
    void attrExpr(StringRef key, const Expr* e)
    {
        J->attributeBegin(key);
        expr(e);
        J->attributeEnd();
    }
    void attrStmt(StringRef key, const Stmt* s)
    {
        J->attributeBegin(key);
        stmt(s);
        J->attributeEnd();
    }
    const Expr* strip(const Expr* e)
    {
        while (true) {
            if (auto* x = dyn_cast<ExprWithCleanups>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e))
                e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e))
                e = x->getExpr();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                switch (x->getCastKind()) {
                case CK_IntegralCast:
                case CK_IntegralToFloating:
                case CK_FloatingToIntegral:
                case CK_FloatingCast:
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                    return e;
                default:
                    e = x->getSubExpr();
                }
            }
            else
                return e;
        }
    }
    void expr(const Expr* e0)
    {
        if (!e0) {
            J->value(nullptr);
            return;
        }
        const Expr* e = strip(e0);
        J->object([&] { exprBody(e); });
    }
    void exprBody(const Expr* e)
    {
        loc(e->getBeginLoc());
        // compile-time integer constants that are not literals
        if ((isa<DeclRefExpr>(e) || isa<MemberExpr>(e)) && !e->isValueDependent() &&
            e->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult r;
            const ValueDecl* vd = isa<DeclRefExpr>(e) ? cast<DeclRefExpr>(e)->getDecl() :
                                                        cast<MemberExpr>(e)->getMemberDecl();
            bool ok = isa<EnumConstantDecl>(vd);
            if (auto* v = dyn_cast<VarDecl>(vd))
                ok = v->isConstexpr() || (v->getType().isConstQualified() && v->isUsableInConstantExpressions(C));
            if (ok && e->EvaluateAsInt(r, C)) {
                J->attribute("k", "int");
                J->attribute("v", r.Val.getInt().getExtValue());
                J->attribute("name", vd->getQualifiedNameAsString());
                ty(e->getType());
                return;
            }
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            J->attribute("k", "int");
            J->attribute("v", (int64_t)x->getValue().getLimitedValue());
            return;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            J->attribute("k", "float");
            J->attribute("v", x->getValueAsApproximateDouble());
            llvm::SmallString<32> s;
            x->getValue().toString(s);
            J->attribute("s", s.str());
            return;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            J->attribute("k", "bool");
            J->attribute("v", x->getValue());
            return;
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            J->attribute("k", "str");
            J->attribute("v", x->isOrdinary() ? json::fixUTF8(x->getString()) : "");
            return;
        }
        if (isa<CharacterLiteral>(e)) {
            J->attribute("k", "int");
            J->attribute("v", (int64_t)cast<CharacterLiteral>(e)->getValue());
            return;
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                J->attribute("k", "fnref");
                fref(f);
                return;
            }
            J->attribute("k", "ref");
            J->attribute("name", d->getNameAsString());
            J->attribute("q", d->getQualifiedNameAsString());
            J->attribute("id", id(d));
            ty(e->getType());
            if (auto* v = dyn_cast<VarDecl>(d)) {
                J->attribute("local", v->isLocalVarDeclOrParm());
                if (v->hasGlobalStorage())
                    J->attribute("global", true);
            }
            return;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            if (auto* f = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
                J->attribute("k", "memfn");
                fref(f);
                attrExpr("base", x->getBase());
                return;
            }
            J->attribute("k", "member");
            J->attribute("name", x->getMemberDecl()->getNameAsString());
            J->attribute("id", id(x->getMemberDecl()));
            if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl()))
                J->attribute("cls", fd->getParent()->getQualifiedNameAsString());
            attrExpr("base", x->getBase());
            ty(e->getType());
            return;
        }
        if (isa<CXXThisExpr>(e)) {
            J->attribute("k", "this");
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            J->attribute("k", "op");
            J->attribute("op", getOperatorSpelling(x->getOperator()));
            if (auto* f = x->getDirectCallee())
                fref(f);
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            exprs("args", a);
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto* md = x->getMethodDecl();
            if (md && isa<CXXConversionDecl>(md)) {
                J->attribute("k", "conv");
                ty(e->getType());
                attrExpr("e", x->getImplicitObjectArgument());
                return;
            }
            J->attribute("k", "mcall");
            if (md) {
                J->attribute("name", md->getNameAsString());
                fref(md);
            }
            attrExpr("obj", x->getImplicitObjectArgument());
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            exprs("args", a);
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            J->attribute("k", "call");
            if (auto* f = x->getDirectCallee()) {
                J->attribute("name", f->getNameAsString());
                fref(f);
            }
            else
                attrExpr("callee", x->getCallee());
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            exprs("args", a);
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            J->attribute("k", "assign");
            J->attribute("op", BinaryOperator::getOpcodeStr(x->getOpcode()));
            attrExpr("l", x->getLHS());
            attrExpr("r", x->getRHS());
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            J->attribute("k", x->getOpcode() == BO_Assign ? "assign" : "bin");
            if (x->isComparisonOp() && x->getLHS()->getType()->isRealFloatingType())
                J->attribute("fp", true);
            J->attribute("op", BinaryOperator::getOpcodeStr(x->getOpcode()));
            attrExpr("l", x->getLHS());
            attrExpr("r", x->getRHS());
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            J->attribute("k", "un");
            J->attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix())
                J->attribute("post", true);
            attrExpr("e", x->getSubExpr());
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            J->attribute("k", "cond");
            attrExpr("c", x->getCond());
            attrExpr("t", x->getTrueExpr());
            attrExpr("f", x->getFalseExpr());
            return;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            J->attribute("k", "sub");
            attrExpr("b", x->getBase());
            attrExpr("i", x->getIdx());
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* cd = x->getConstructor();
            J->attribute("k", "ctor");
            if (x->isElidable() || (cd->isCopyOrMoveConstructor()))
                J->attribute("copy", true);
            fref(cd);
            ty(e->getType());
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            exprs("args", a);
            if (x->isListInitialization())
                J->attribute("list", true);
            return;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            J->attribute("k", "cast");
            J->attribute("ck", x->getCastKindName());
            ty(e->getType());
            attrExpr("e", x->getSubExpr());
            if (!isa<ImplicitCastExpr>(x))
                J->attribute("explicit", true);
            return;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            J->attribute("k", "init");
            ty(e->getType());
            const InitListExpr* y = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            J->attributeArray("args", [&] {
                for (auto* i : y->inits())
                    expr(i);
            });
            return;
        }
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            exprBody(strip(x->getSubExpr()));
            return;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            J->attribute("k", "lambda");
            auto* m = x->getCallOperator();
            J->attribute("generic", x->isGenericLambda());
            J->attribute("fid", id(m));
            J->attributeArray("captures", [&] {
                for (auto& c : x->captures())
                    J->object([&] {
                        if (c.capturesThis())
                            J->attribute("this", true);
                        else if (c.capturesVariable()) {
                            J->attribute("id", id(c.getCapturedVar()));
                            J->attribute("name", c.getCapturedVar()->getNameAsString());
                            J->attribute("byref", c.getCaptureKind() == LCK_ByRef);
                        }
                    });
            });
            if (!x->isGenericLambda())
                enqueue(m);
            else if (auto* t = m->getDescribedFunctionTemplate())
                J->attributeArray("specs", [&] {
                    for (auto* f : t->specializations())
                        if (f->doesThisDeclarationHaveABody() || f->getTemplateInstantiationPattern()) {
                            J->value(id(f));
                            enqueue(f);
                        }
                });
            return;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            J->attribute("k", "zero");
            ty(x->getType());
            return;
        }
        if (isa<ImplicitValueInitExpr>(e)) {
            J->attribute("k", "zero");
            ty(e->getType());
            return;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            J->attribute("k", "throw");
            if (x->getSubExpr())
                attrExpr("e", x->getSubExpr());
            return;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) {
                J->attribute("k", "int");
                J->attribute("v", r.Val.getInt().getExtValue());
                return;
            }
        }
        if (auto* x = dyn_cast<SizeOfPackExpr>(e)) {
            J->attribute("k", "int");
            J->attribute("v", (int64_t)x->getPackLength());
            return;
        }
        J->attribute("k", "opaque");
        J->attribute("what", e->getStmtClassName());
        ty(e->getType());
        J->attributeArray("ch", [&] {
            for (auto* c : e->children())
                if (auto* ce = dyn_cast_or_null<Expr>(c))
                    expr(ce);
        });
    }
    void varDecl(const VarDecl* v)
    {
        J->object([&] {
            J->attribute("k", "var");
            J->attribute("name", v->getNameAsString());
            J->attribute("id", id(v));
            loc(v->getBeginLoc());
            ty(v->getType());
            J->attribute("isref", v->getType()->isReferenceType());
            if (v->isStaticLocal())
                J->attribute("static", true);
            if (v->hasInit())
                attrExpr("init", v->getInit());
        });
    }
    void stmts(StringRef key, const Stmt* s)
    {
        J->attributeArray(key, [&] {
            if (auto* c = dyn_cast_or_null<CompoundStmt>(s)) {
                for (auto* x : c->body())
                    stmt(x);
            }
            else if (s)
                stmt(s);
        });
    }
    const Stmt* ompBody(const OMPExecutableDirective* d)
    {
        if (!d->hasAssociatedStmt())
            return nullptr;
        const Stmt* s = d->getAssociatedStmt();
        while (auto* c = dyn_cast<CapturedStmt>(s))
            s = c->getCapturedStmt();
        if (auto* ol = dyn_cast<OMPCanonicalLoop>(s))
            s = ol->getLoopStmt();
        return s;
    }
    void stmt(const Stmt* s)
    {
        if (!s) {
            J->value(nullptr);
            return;
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            J->object([&] {
                J->attribute("k", "expr");
                loc(s->getBeginLoc());
                auto m = macro(s->getBeginLoc());
                if (!m.empty())
                    J->attribute("macro", m);
                attrExpr("e", e);
            });
            return;
        }
        if (auto* a = dyn_cast<AttributedStmt>(s)) {
            stmt(a->getSubStmt());
            return;
        }
        if (auto* l = dyn_cast<LabelStmt>(s)) {
            stmt(l->getSubStmt());
            return;
        }
        J->object([&] {
            loc(s->getBeginLoc());
            auto m = macro(s->getBeginLoc());
            if (!m.empty())
                J->attribute("macro", m);
            if (isa<CompoundStmt>(s)) {
                J->attribute("k", "block");
                stmts("body", s);
            }
            else if (auto* x = dyn_cast<DeclStmt>(s)) {
                J->attribute("k", "decl");
                J->attributeArray("decls", [&] {
                    for (auto* d : x->decls()) {
                        if (auto* v = dyn_cast<VarDecl>(d))
                            varDecl(v);
                    }
                });
            }
            else if (auto* x = dyn_cast<IfStmt>(s)) {
                J->attribute("k", "if");
                if (x->isConstexpr()) {
                    J->attribute("constexpr", true);
                    if (auto t = x->getNondiscardedCase(C)) {
                        J->attribute("taken", true);
                        stmts("body", *t);
                        J->attribute("resolved", true);
                        return;
                    }
                }
                if (x->getInit())
                    attrStmt("init", x->getInit());
                if (x->getConditionVariable()) {
                    J->attributeBegin("condvar");
                    varDecl(x->getConditionVariable());
                    J->attributeEnd();
                }
                attrExpr("c", x->getCond());
                stmts("t", x->getThen());
                stmts("f", x->getElse());
            }
            else if (auto* x = dyn_cast<ForStmt>(s)) {
                J->attribute("k", "for");
                attrStmt("init", x->getInit());
                attrExpr("c", x->getCond());
                attrExpr("inc", x->getInc());
                stmts("body", x->getBody());
            }
            else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
                J->attribute("k", "rangefor");
                J->attributeBegin("var");
                varDecl(x->getLoopVariable());
                J->attributeEnd();
                attrExpr("range", x->getRangeInit());
                stmts("body", x->getBody());
            }
            else if (auto* x = dyn_cast<WhileStmt>(s)) {
                J->attribute("k", "while");
                attrExpr("c", x->getCond());
                stmts("body", x->getBody());
            }
            else if (auto* x = dyn_cast<DoStmt>(s)) {
                J->attribute("k", "do");
                attrExpr("c", x->getCond());
                stmts("body", x->getBody());
            }
            else if (auto* x = dyn_cast<ReturnStmt>(s)) {
                J->attribute("k", "return");
                if (x->getRetValue())
                    attrExpr("e", x->getRetValue());
            }
            else if (isa<BreakStmt>(s))
                J->attribute("k", "break");
            else if (isa<ContinueStmt>(s))
                J->attribute("k", "continue");
            else if (isa<NullStmt>(s))
                J->attribute("k", "null");
            else if (auto* x = dyn_cast<SwitchStmt>(s)) {
                J->attribute("k", "switch");
                attrExpr("c", x->getCond());
                stmts("body", x->getBody());
            }
            else if (auto* x = dyn_cast<CaseStmt>(s)) {
                J->attribute("k", "case");
                attrExpr("v", x->getLHS());
                attrStmt("s", x->getSubStmt());
            }
            else if (auto* x = dyn_cast<DefaultStmt>(s)) {
                J->attribute("k", "default");
                attrStmt("s", x->getSubStmt());
            }
            else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
                J->attribute("k", "try");
                stmts("body", x->getTryBlock());
            }
            else if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
                J->attribute("k", "omp");
                J->attribute("dir", llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()));
                J->attributeArray("clauses", [&] {
                    for (auto* c : x->clauses()) {
                        if (c->isImplicit())
                            continue;
                        J->object([&] {
                            J->attribute("name", llvm::omp::getOpenMPClauseName(c->getClauseKind()));
                            J->attributeArray("vars", [&] {
                                for (auto* ch : c->children())
                                    if (auto* r = dyn_cast_or_null<DeclRefExpr>(ch))
                                        J->value(id(r->getDecl()));
                            });
                        });
                    }
                });
                stmts("body", ompBody(x));
            }
            else {
                J->attribute("k", "opaque");
                J->attribute("what", s->getStmtClassName());
                J->attributeArray("ch", [&] {
                    for (auto* c : s->children())
                        stmt(c);
                });
            }
        });
    }
    void function(const FunctionDecl* f)
    {
        J->object([&] {
            J->attribute("id", id(f));
            J->attribute("name", f->getNameAsString());
            J->attribute("q", f->getQualifiedNameAsString());
            J->attribute("file", file(f->getLocation()));
            loc(f->getLocation());
            J->attribute("ret", tyid(f->getReturnType()));
            J->attribute("goose", inGoose(f));
            targs(f->getTemplateSpecializationArgs());
            J->attribute("tmpl", f->isTemplateInstantiation());
            J->attribute("inline", f->isInlined());
            J->attribute("linkage", f->isExternallyVisible());
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                auto* p = m->getParent();
                J->attribute("cls", p->getQualifiedNameAsString());
                J->attribute("clsid", id(p));
                J->attribute("clsty", tyid(C.getRecordType(p)));
                J->attribute("const", m->isConst());
                J->attribute("static", m->isStatic());
                J->attribute("access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
                J->attribute("lambda", p->isLambda());
                if (isa<CXXConstructorDecl>(m)) {
                    J->attribute("isctor", true);
                    auto* cd = cast<CXXConstructorDecl>(m);
                    J->attributeArray("inits", [&] {
                        for (auto* i : cd->inits()) {
                            if (i->isMemberInitializer())
                                J->object([&] {
                                    J->attribute("field", i->getMember()->getNameAsString());
                                    J->attribute("id", id(i->getMember()));
                                    J->attribute("written", i->isWritten());
                                    attrExpr("e", i->getInit());
                                });
                            else if (i->isBaseInitializer())
                                J->object([&] {
                                    J->attribute("base", tyid(QualType(i->getBaseClass(), 0)));
                                    attrExpr("e", i->getInit());
                                });
                            else
                                J->object([&] { attrExpr("e", i->getInit()); });
                        }
                    });
                }
                J->attribute("defaulted", f->isDefaulted());
            }
            J->attributeArray("params", [&] {
                for (auto* p : f->parameters())
                    J->object([&] {
                        J->attribute("name", p->getNameAsString());
                        J->attribute("id", id(p));
                        ty(p->getType());
                        QualType t = p->getType();
                        J->attribute("isref", t->isReferenceType());
                        J->attribute("constref", t->isReferenceType() && t.getNonReferenceType().isConstQualified());
                    });
            });
            stmts("body", f->getBody());
        });
    }
};

struct Collector : RecursiveASTVisitor<Collector> {
    Exporter& X;
    std::vector<const CXXRecordDecl*> recs;
    std::vector<const VarDecl*> globals;
    std::vector<const FunctionDecl*> patterns;
    Collector(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseNamespaceDecl(NamespaceDecl* n)
    {
        bool top = n->getParent()->getRedeclContext()->isTranslationUnit();
        if (top && !Exporter::rootName(n))
            return true;
        // without GFX_ALL: only what is reachable from the driver
        if (top && n->getName() == "GooseFEM" && !getenv("GFX_ALL"))
            return true;
        return RecursiveASTVisitor::TraverseNamespaceDecl(n);
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!X.inGoose(f))
            return true;
        if (f->isDependentContext()) {
            if (f->isThisDeclarationADefinition())
                patterns.push_back(f);
            return true;
        }
        if (!f->isThisDeclarationADefinition()) {
            return true;
        }
        if (f->isImplicit())
            return true;
        if (f->doesThisDeclarationHaveABody())
            X.enqueue(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (r->isThisDeclarationADefinition() && X.inGoose(r) && !r->isLambda())
            recs.push_back(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (X.inGoose(v) && v->isFileVarDecl())
            globals.push_back(v);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred())
            return;
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        json::OStream js(os);
        J = &js;
        Exporter X(C);
        Collector V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        js.object([&] {
            js.attributeArray("functions", [&] {
                for (size_t i = 0; i < X.queue.size(); ++i)
                    X.function(X.queue[i]);
            });
            js.attributeArray("patterns", [&] {
                for (auto* f : V.patterns)
                    js.object([&] {
                        js.attribute("q", f->getQualifiedNameAsString());
                        js.attribute("file", X.file(f->getLocation()));
                        X.loc(f->getLocation());
                        js.attribute("nparams", (int64_t)f->getNumParams());
                        js.attribute("inline", f->isInlined());
                        if (auto* m = dyn_cast<CXXMethodDecl>(f))
                            js.attribute("lambda", m->getParent()->isLambda());
                    });
            });
            for (size_t i = 0; i < X.queue.size(); ++i)
                if (auto* m = dyn_cast<CXXMethodDecl>(X.queue[i])) {
                    auto* r = m->getParent();
                    if (!r->isLambda() && r->isThisDeclarationADefinition() && X.inGoose(r)
                        && std::find(V.recs.begin(), V.recs.end(), r) == V.recs.end())
                        V.recs.push_back(r);
                }
            // the types of members and bases
            for (size_t i = 0; i < V.recs.size(); ++i) {
                auto* r = V.recs[i];
                if (r->isDependentContext())
                    continue;
                auto need = [&](QualType t) {
                    auto* f = t.getNonReferenceType()->getAsCXXRecordDecl();
                    f = f ? f->getDefinition() : nullptr;
                    if (f && X.inGoose(f) && !f->isLambda() && std::find(V.recs.begin(), V.recs.end(), f) == V.recs.end())
                        V.recs.push_back(f);
                };
                for (auto& b : r->bases())
                    need(b.getType());
                for (auto* f : r->fields())
                    need(f->getType());
            }
            js.attributeArray("records", [&] {
                for (auto* r : V.recs)
                    js.object([&] {
                        js.attribute("q", r->getQualifiedNameAsString());
                        js.attribute("id", X.id(r));
                        js.attribute("dependent", r->isDependentContext());
                        js.attribute("file", X.file(r->getLocation()));
                        X.loc(r->getLocation());
                        js.attribute("ty", X.tyid(C.getRecordType(r)));
                        js.attributeArray("bases", [&] {
                            for (auto& b : r->bases()) {
                                js.object([&] {
                                    js.attribute("ty", X.tyid(b.getType()));
                                    if (auto* br = b.getType()->getAsCXXRecordDecl()) {
                                        js.attribute("q", br->getQualifiedNameAsString());
                                        js.attribute("id", X.id(br));
                                    }
                                });
                            }
                        });
                        js.attributeArray("fields", [&] {
                            for (auto* f : r->fields())
                                js.object([&] {
                                    js.attribute("name", f->getNameAsString());
                                    js.attribute("id", X.id(f));
                                    X.ty(f->getType());
                                    X.loc(f->getLocation());
                                    js.attribute("mutable", f->isMutable());
                                    js.attribute("access", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private");
                                    if (f->hasInClassInitializer() && f->getInClassInitializer() && !r->isDependentContext())
                                        X.attrExpr("init", f->getInClassInitializer());
                                });
                        });
                        js.attributeArray("methods", [&] {
                            for (auto* m : r->methods())
                                js.object([&] {
                                    js.attribute("name", m->getNameAsString());
                                    js.attribute("id", X.id(m));
                                    js.attribute("const", m->isConst());
                                    js.attribute("static", m->isStatic());
                                    js.attribute("implicit", m->isImplicit());
                                    js.attribute("access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
                                    js.attribute("nparams", (int64_t)m->getNumParams());
                                    X.loc(m->getLocation());
                                });
                        });
                    });
            });
            js.attributeArray("globals", [&] {
                for (auto* v : V.globals)
                    js.object([&] {
                        js.attribute("q", v->getQualifiedNameAsString());
                        js.attribute("id", X.id(v));
                        js.attribute("file", X.file(v->getLocation()));
                        X.loc(v->getLocation());
                        X.ty(v->getType());
                        js.attribute("const", v->getType().isConstQualified());
                        js.attribute("constexpr", v->isConstexpr());
                        js.attribute("inline", v->isInline());
                        js.attribute("external", v->isExternallyVisible());
                    });
            });
            js.attributeArray("types", [&] {
                for (auto& t : X.typeNames)
                    js.value(json::fixUTF8(t.size() > 600 ? t.substr(0, 600) : t));
            });
        });
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char** argv)
{
    // gfx <out.json> <file.cpp> <compiler flags...>
    if (argc < 3)
        return 2;
    g_out = argv[1];
    std::vector<std::string> flags;
    for (int i = 3; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {std::string(argv[2])});
    tool.clearArgumentsAdjusters();
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
