// gflint: facts about declarations, as JSON: definitions with their linkage, fields, casts, and the bindings of the Python interface.
// Analysis is done by /verif/lib on these facts; nothing is executed.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string g_out, g_root;

struct Visitor : RecursiveASTVisitor<Visitor> {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    json::Array funs, vars, fields, casts, binds, calls, subs;
    Visitor(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string file(SourceLocation l)
    {
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getFilename() : "";
    }
    int64_t line(SourceLocation l)
    {
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getLine() : 0;
    }
    bool mine(SourceLocation l)
    {
        return file(l).rfind(g_root, 0) == 0;
    }
    std::string str(QualType t) { return t.getCanonicalType().getAsString(PP); }
    bool TraverseDecl(Decl* d)
    {
        if (d && !isa<TranslationUnitDecl>(d)) {
            // library namespaces
            if (auto* n = dyn_cast<NamespaceDecl>(d); n && n->getParent()->getRedeclContext()->isTranslationUnit() && !n->isAnonymousNamespace() && n->getName() != "GooseFEM") {
                bool any = false;
                for (auto* x : n->decls())
                    if (mine(x->getLocation())) {
                        any = true;
                        break;
                    }
                if (!any)
                    return true;
            }
        }
        return RecursiveASTVisitor::TraverseDecl(d);
    }
    // ---- definitions
    const FunctionDecl* fn = nullptr;
    bool TraverseFunction(FunctionDecl* f, std::function<bool()> go)
    {
        auto* o = fn;
        fn = f;
        bool r = go();
        fn = o;
        return r;
    }
#define T(X) \
    bool Traverse##X(X* f) { return TraverseFunction(f, [&] { return RecursiveASTVisitor::Traverse##X(f); }); }
    T(FunctionDecl)
    T(CXXMethodDecl)
    T(CXXConstructorDecl)
    T(CXXDestructorDecl)
    T(CXXConversionDecl)
#undef T
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!mine(f->getLocation()) || f->isImplicit() || !f->isThisDeclarationADefinition() || f->isDeleted() || f->isDefaulted())
            return true;
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->getParent()->isLambda())
            return true;
        bool inst = f->isTemplateInstantiation() && f->getTemplateSpecializationKind() != TSK_ExplicitSpecialization;
        json::Object o{{"q", f->getQualifiedNameAsString()}, {"file", file(f->getLocation())}, {"ln", line(f->getLocation())},
                       {"inline", f->isInlined()}, {"instance", inst}, {"template", f->isDependentContext()},
                       {"external", f->isExternallyVisible() && f->getFormalLinkage() != Linkage::Internal},
                       {"explicit", f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization},
                       {"ret", str(f->getReturnType())}, {"method", m != nullptr}, {"const", m && m->isConst()}, {"static", m && m->isStatic()},
                       {"access", f->getAccess() == AS_private ? "private" : f->getAccess() == AS_protected ? "protected" : "public"}};
        json::Array ps;
        for (auto* p : f->parameters())
            ps.push_back(json::Object{{"name", p->getNameAsString()}, {"ty", str(p->getType())}});
        o["params"] = std::move(ps);
        funs.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (isa<ParmVarDecl>(v) || !mine(v->getLocation()) || v->isImplicit())
            return true;
        bool local = v->isStaticLocal();
        if (!local && !v->isFileVarDecl())
            return true;
        if (!local && v->isThisDeclarationADefinition() != VarDecl::Definition)
            return true;
        QualType t = v->getType();
        bool cst = t.isConstQualified() || v->isConstexpr() || t->isReferenceType();
        json::Object o{{"q", v->getQualifiedNameAsString()}, {"file", file(v->getLocation())}, {"ln", line(v->getLocation())},
                       {"local", local}, {"const", cst}, {"inline", v->isInline()},
                       {"template", v->getDeclContext()->isDependentContext() || v->getDescribedVarTemplate() != nullptr || v->getTemplateSpecializationKind() == TSK_ImplicitInstantiation},
                       {"external", v->isExternallyVisible() && v->getFormalLinkage() != Linkage::Internal}, {"ty", str(t)},
                       {"in", fn ? fn->getQualifiedNameAsString() : ""}, {"fninternal", fn && !fn->isExternallyVisible()}};
        vars.push_back(std::move(o));
        return true;
    }
    bool VisitFieldDecl(FieldDecl* f)
    {
        auto* r = dyn_cast<CXXRecordDecl>(f->getParent());
        if (!mine(f->getLocation()) || !r || r->isLambda())
            return true;
        fields.push_back(json::Object{{"q", f->getQualifiedNameAsString()}, {"cls", r->getQualifiedNameAsString()}, {"file", file(f->getLocation())}, {"ln", line(f->getLocation())},
                                      {"mutable", f->isMutable()}, {"ty", str(f->getType())}, {"dependent", f->getType()->isDependentType()},
                                      {"ref", f->getType()->isReferenceType()}, {"ptr", f->getType()->isPointerType()}});
        return true;
    }
    bool dropsConst(const Expr* from, QualType to)
    {
        QualType a = from->getType(), b = to;
        if (a->isDependentType() || b->isDependentType())
            return false;
        if (b->isReferenceType())
            return a.isConstQualified() && !b->getPointeeType().isConstQualified() && b->isLValueReferenceType();
        if (a->isPointerType() && b->isPointerType())
            return a->getPointeeType().isConstQualified() && !b->getPointeeType().isConstQualified();
        return false;
    }
    bool VisitExplicitCastExpr(ExplicitCastExpr* e)
    {
        if (!mine(e->getExprLoc()))
            return true;
        if (isa<CXXConstCastExpr>(e) || dropsConst(e->getSubExprAsWritten(), e->getTypeAsWritten()))
            casts.push_back(json::Object{{"file", file(e->getExprLoc())}, {"ln", line(e->getExprLoc())}, {"to", str(e->getTypeAsWritten())}, {"in", fn ? fn->getQualifiedNameAsString() : ""},
                                         {"drops", dropsConst(e->getSubExprAsWritten(), e->getTypeAsWritten()) || e->getSubExprAsWritten()->getType()->isDependentType()}});
        return true;
    }
    // ---- bindings
    static bool inNs(const Decl* d, StringRef n)
    {
        for (auto* c = d->getDeclContext(); c; c = c->getParent())
            if (auto* ns = dyn_cast<NamespaceDecl>(c))
                if (ns->getName() == n && ns->getParent()->getRedeclContext()->isTranslationUnit())
                    return true;
        return false;
    }
    template <class F> void walk(const Stmt* s, F f)
    {
        if (!s)
            return;
        if (!f(s))
            return;
        for (auto* c : s->children())
            walk(c, f);
    }
    std::string literal(const Expr* e)
    {
        std::string r;
        walk(e, [&](const Stmt* s) {
            if (auto* l = dyn_cast<StringLiteral>(s); l && r.empty())
                r = l->getString().str();
            return true;
        });
        return r;
    }
    // value of a constant expression as text, or ""
    std::string value(const Expr* e)
    {
        if (!e || e->isValueDependent() || e->isTypeDependent())
            return "";
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects)
            return "";
        if (r.Val.isInt()) {
            auto v = r.Val.getInt();
            return std::to_string(v.isSigned() ? (double)v.getSExtValue() : (double)v.getZExtValue());
        }
        if (r.Val.isFloat()) {
            auto v = r.Val.getFloat();
            bool lost;
            v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
            char buf[64];
            snprintf(buf, sizeof buf, "%.17g", v.convertToDouble());
            return std::to_string(v.convertToDouble()) == buf ? buf : std::string(buf);
        }
        return "";
    }
    json::Object target(const FunctionDecl* f)
    {
        // of a template: the parameters as written there
        const FunctionDecl* w = f;
        if (auto* p = f->getTemplateInstantiationPattern())
            w = p;
        json::Array ps;
        for (auto* p : w->parameters()) {
            const Expr* d = nullptr;
            if (p->hasUninstantiatedDefaultArg())
                d = p->getUninstantiatedDefaultArg();
            else if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg())
                d = p->getDefaultArg();
            ps.push_back(json::Object{{"name", p->getNameAsString()}, {"ty", str(p->getType())}, {"default", d ? value(d) : ""}, {"hasdefault", d != nullptr}});
        }
        return json::Object{{"q", f->getQualifiedNameAsString()}, {"name", f->getNameAsString()}, {"method", isa<CXXMethodDecl>(f)}, {"params", std::move(ps)}};
    }
    json::Array targets(const Expr* e, bool& lambda)
    {
        json::Array r;
        lambda = false;
        walk(e, [&](const Stmt* s) {
            if (auto* l = dyn_cast<LambdaExpr>(s)) {
                lambda = true;
                walk(l->getBody(), [&](const Stmt* t) {
                    if (auto* d = dyn_cast<DeclRefExpr>(t))
                        if (auto* f = dyn_cast<FunctionDecl>(d->getDecl()); f && inNs(f, "GooseFEM"))
                            r.push_back(target(f));
                    if (auto* m = dyn_cast<MemberExpr>(t))
                        if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl()); f && inNs(f, "GooseFEM"))
                            r.push_back(target(f));
                    return true;
                });
                return false;
            }
            if (auto* d = dyn_cast<DeclRefExpr>(s))
                if (auto* f = dyn_cast<FunctionDecl>(d->getDecl()); f && inNs(f, "GooseFEM"))
                    r.push_back(target(f));
            return true;
        });
        return r;
    }
    // does the class (or a base of it) have an operation of this name
    bool has(const CXXRecordDecl* r, StringRef n)
    {
        if (!r || !(r = r->getDefinition()))
            return false;
        if (!r->lookup(DeclarationName(&C.Idents.get(n))).empty())
            return true;
        for (auto& b : r->bases())
            if (has(b.getType()->getAsCXXRecordDecl(), n))
                return true;
        return false;
    }
    bool has(const DeclContext* d, StringRef n)
    {
        d = d->getRedeclContext();
        return !d->lookup(DeclarationName(&C.Idents.get(n))).empty();
    }
    // per operation that a lambda calls: the order in which it passes its parameters
    json::Array uses(const Expr* e)
    {
        json::Array r;
        walk(e, [&](const Stmt* s) {
            if (auto* l = dyn_cast<LambdaExpr>(s)) {
                auto* op = l->getCallOperator();
                auto call = [&](auto* c) {
                    json::Array a;
                    for (auto* x : c->arguments())
                        walk(x, [&](const Stmt* u) {
                            if (auto* d = dyn_cast<DeclRefExpr>(u))
                                if (auto* p = dyn_cast<ParmVarDecl>(d->getDecl()); p && p->getDeclContext() == op)
                                    a.push_back((int64_t)p->getFunctionScopeIndex());
                            return true;
                        });
                    r.push_back(std::move(a));
                };
                walk(l->getBody(), [&](const Stmt* t) {
                    if (auto* c = dyn_cast<CallExpr>(t); c && c->getDirectCallee() && inNs(c->getDirectCallee(), "GooseFEM"))
                        call(c);
                    if (auto* c = dyn_cast<CXXConstructExpr>(t); c && inNs(c->getConstructor(), "GooseFEM") && !c->getConstructor()->isCopyOrMoveConstructor())
                        call(c);
                    return true;
                });
                return false;
            }
            return true;
        });
        return r;
    }
    const FunctionDecl* first(const Expr* e)
    {
        const FunctionDecl* r = nullptr;
        walk(e, [&](const Stmt* s) {
            if (auto* d = dyn_cast<DeclRefExpr>(s))
                if (auto* f = dyn_cast<FunctionDecl>(d->getDecl()); f && inNs(f, "GooseFEM") && !r)
                    r = f;
            return true;
        });
        return r;
    }
    std::string varName(const Expr* e)
    {
        std::string r;
        walk(e, [&](const Stmt* s) {
            if (auto* d = dyn_cast<DeclRefExpr>(s))
                if (auto* v = dyn_cast<VarDecl>(d->getDecl()); v && r.empty())
                    r = v->getNameAsString();
            return true;
        });
        return r;
    }
    // name of the module that an object is defined in: the parameter, or the class variable's first argument
    std::string moduleOf(const Expr* e)
    {
        std::string r;
        walk(e, [&](const Stmt* s) {
            if (!r.empty())
                return false;
            if (auto* d = dyn_cast<DeclRefExpr>(s))
                if (auto* v = dyn_cast<VarDecl>(d->getDecl())) {
                    if (auto* rec = v->getType().getNonReferenceType()->getAsCXXRecordDecl(); rec && rec->getName() != "module" && v->getInit()) {
                        r = moduleOf(v->getInit());
                    } else
                        r = v->getNameAsString();
                    return false;
                }
            return true;
        });
        return r;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr* e)
    {
        if (!mine(e->getExprLoc()) || !fn || fn->isDependentContext())
            return true;
        auto* r = e->getConstructor()->getParent();
        auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r);
        if (!sp || !inNs(r, "pybind11") || e->getNumArgs() < 2 || (r->getName() != "class_" && r->getName() != "enum_"))
            return true;
        binds.push_back(json::Object{{"kind", "class"}, {"name", literal(e->getArg(1))}, {"cls", str(sp->getTemplateArgs()[0].getAsType())},
                                     {"file", file(e->getExprLoc())}, {"ln", line(e->getExprLoc())}, {"in", fn->getQualifiedNameAsString()}, {"module", varName(e->getArg(0))}});
        return true;
    }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr* e)
    {
        if (!mine(e->getExprLoc()) || !fn || fn->isDependentContext())
            return true;
        auto* m = e->getMethodDecl();
        if (!m || !inNs(m, "pybind11") || !m->getName().starts_with("def") && m->getName() != "value")
            return true;
        auto loc = e->getNumArgs() ? e->getArg(0)->getExprLoc() : e->getExprLoc();
        json::Object o{{"kind", m->getNameAsString()}, {"file", file(loc)}, {"ln", line(loc)}, {"in", fn->getQualifiedNameAsString()}};
        if (m->getName() == "def_submodule")
            return true;
        auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent());
        o["cls"] = sp ? str(sp->getTemplateArgs()[0].getAsType()) : "";
        o["module"] = moduleOf(e->getImplicitObjectArgument());
        unsigned k = 0;
        bool init = false;
        if (m->getNumParams() && !m->getParamDecl(0)->getType()->isPointerType()) {
            init = true;
            o["kind"] = "init";
            const FunctionDecl* def = nullptr;
            json::Array ts;
            if (m->hasBody(def) && def) {
                walk(def->getBody(), [&](const Stmt* s) {
                    if (auto* st = dyn_cast<DeclStmt>(s))
                        for (auto* d : st->decls())
                            if (auto* sa = dyn_cast<StaticAssertDecl>(d))
                                walk(sa->getAssertExpr(), [&](const Stmt* t) {
                                    if (auto* ue = dyn_cast<UnaryExprOrTypeTraitExpr>(t); ue && !ue->isArgumentType())
                                        walk(ue->getArgumentExpr(), [&](const Stmt* u) {
                                            if (auto* ne = dyn_cast<CXXNewExpr>(u))
                                                if (auto* ce = ne->getConstructExpr())
                                                    ts.push_back(target(ce->getConstructor()));
                                            return true;
                                        });
                                    return true;
                                });
                    return true;
                });
            }
            bool lambda = false;
            walk(e->getArg(0), [&](const Stmt* s) {
                lambda |= isa<LambdaExpr>(s);
                return true;
            });
            o["lambda"] = lambda;
            o["uses"] = uses(e->getArg(0));
            o["targets"] = std::move(ts);
            k = 1;
        } else {
            o["name"] = literal(e->getArg(0));
            bool lambda = false;
            if (e->getNumArgs() > 1 && m->getName() != "value")
                o["targets"] = targets(e->getArg(1), lambda);
            if (m->getName() == "value") {
                json::Array ts;
                walk(e->getArg(1), [&](const Stmt* s) {
                    if (auto* d = dyn_cast<DeclRefExpr>(s); d && isa<EnumConstantDecl>(d->getDecl()))
                        ts.push_back(json::Object{{"q", d->getDecl()->getQualifiedNameAsString()}, {"name", d->getDecl()->getNameAsString()}, {"params", json::Array{}}});
                    return true;
                });
                o["targets"] = std::move(ts);
            }
            o["lambda"] = lambda;
            o["uses"] = uses(e->getArg(1));
            bool h = false;
            if (sp)
                h = has(sp->getTemplateArgs()[0].getAsType()->getAsCXXRecordDecl(), literal(e->getArg(0)));
            else if (e->getNumArgs() > 1)
                if (auto* f = first(e->getArg(1)))
                    h = has(f->getDeclContext(), literal(e->getArg(0)));
            o["has"] = h;
            std::string doc;
            for (unsigned j = 2; j < e->getNumArgs(); ++j)
                if (isa<StringLiteral>(e->getArg(j)->IgnoreImplicit()))
                    doc = literal(e->getArg(j));
            o["doc"] = doc;
            k = 2;
            if (m->getName() == "def_property") {
                bool l2;
                o["setter"] = targets(e->getArg(2), l2);
                k = 3;
            }
        }
        json::Array as;
        for (; k < e->getNumArgs(); ++k) {
            auto* a = e->getArg(k);
            auto* rec = a->getType()->getAsCXXRecordDecl();
            if (!rec || !inNs(rec, "pybind11") || (rec->getName() != "arg" && rec->getName() != "arg_v"))
                continue;
            json::Object ao{{"name", literal(a)}};
            walk(a, [&](const Stmt* s) {
                if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s); oc && oc->getOperator() == OO_Equal) {
                    const Expr* v = oc->getArg(1);
                    ao["hasdefault"] = true;
                    ao["default"] = value(v);
                    return false;
                }
                return true;
            });
            as.push_back(std::move(ao));
        }
        o["args"] = std::move(as);
        (void)init;
        binds.push_back(std::move(o));
        return true;
    }
    bool VisitCallExpr(CallExpr* e)
    {
        if (!mine(e->getExprLoc()) || !fn || fn->isDependentContext() || isa<CXXMemberCallExpr>(e))
            return true;
        auto* f = e->getDirectCallee();
        if (!f || !mine(f->getLocation()) || !e->getNumArgs() || inNs(f, "GooseFEM"))
            return true;
        json::Array as;
        for (auto* a : e->arguments())
            as.push_back(moduleOf(a));
        json::Array ps;
        for (auto* p : f->parameters())
            ps.push_back(p->getNameAsString());
        calls.push_back(json::Object{{"fn", f->getQualifiedNameAsString()}, {"in", fn->getQualifiedNameAsString()}, {"args", std::move(as)}, {"params", std::move(ps)}, {"ln", line(e->getExprLoc())}, {"file", file(e->getExprLoc())}});
        return true;
    }
    bool VisitDeclStmt(DeclStmt* s)
    {
        for (auto* d : s->decls()) {
            auto* v = dyn_cast<VarDecl>(d);
            if (!v || !v->getInit() || !mine(v->getLocation()))
                continue;
            walk(v->getInit(), [&](const Stmt* t) {
                if (auto* c = dyn_cast<CXXMemberCallExpr>(t))
                    if (c->getMethodDecl() && c->getMethodDecl()->getName() == "def_submodule")
                        subs.push_back(json::Object{{"var", v->getNameAsString()}, {"of", varName(c->getImplicitObjectArgument())}, {"name", literal(c->getArg(0))}, {"ln", line(v->getLocation())}});
                return true;
            });
        }
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred())
            return;
        Visitor V(C);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        json::Object o{{"functions", std::move(V.funs)}, {"variables", std::move(V.vars)}, {"fields", std::move(V.fields)}, {"casts", std::move(V.casts)},
                       {"bindings", std::move(V.binds)}, {"calls", std::move(V.calls)}, {"submodules", std::move(V.subs)}};
        os << json::Value(std::move(o));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, const char** argv)
{
    // gflint <out.json> <root of the sources to report on> <file.cpp> <compiler flags...>
    if (argc < 4)
        return 2;
    g_out = argv[1];
    g_root = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {std::string(argv[3])});
    tool.clearArgumentsAdjusters();
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
