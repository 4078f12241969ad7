// Effects written anywhere in the library's source, templates that nothing instantiates included.
// lxast <include dir> <clang args...>: parses a file including every header below the directory and prints one JSON line per
// throw, allocating new, heap or I/O call, heap-owning std type, and mutable variable of static or thread storage duration.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <iostream>
#include <set>
using namespace clang;
static std::string dir;
static size_t nfun, ncall, nvar;
static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c >= 32) r += char(c); }
    return r;
}
static const std::set<std::string> effects = {
    "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup", "operator new", "operator new[]", "operator delete", "operator delete[]",
    "printf", "fprintf", "sprintf", "snprintf", "vprintf", "vfprintf", "puts", "fputs", "putchar", "fputc", "putc", "fwrite", "fread", "fopen", "fclose", "fflush", "fgets", "fgetc", "getc", "getchar", "scanf", "fscanf", "perror",
    "open", "read", "write", "close", "mmap", "munmap", "lseek", "fstat", "stat",
    "rand", "srand", "time", "clock", "getenv", "setenv", "setlocale", "localeconv", "strtok", "strerror", "exit", "atexit", "system", "signal", "raise", "longjmp",
    "make_unique", "make_shared", "allocate_shared", "rethrow_exception", "throw_with_nested"};
static const std::set<std::string> heapTypes = {"basic_string", "vector", "deque", "list", "forward_list", "map", "multimap", "set", "multiset", "unordered_map", "unordered_set", "unordered_multimap", "unordered_multiset", "function", "any", "shared_ptr", "unique_ptr", "basic_stringstream", "basic_ostringstream", "mutex", "atomic"};
struct Visitor : RecursiveASTVisitor<Visitor>
{
    ASTContext& c;
    std::vector<std::string> ctx;
    explicit Visitor(ASTContext& c) : c(c) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool shouldVisitImplicitCode() const { return false; }
    bool ours(SourceLocation l, std::string& at)
    {
        auto& sm = c.getSourceManager();
        auto  p  = sm.getPresumedLoc(sm.getExpansionLoc(l));
        if (p.isInvalid()) return false;
        std::string f = p.getFilename();
        if (f.rfind(dir, 0) != 0) return false;
        at = f.substr(dir.size() + (dir.back() == '/' ? 0 : 1)) + ":" + std::to_string(p.getLine());
        return true;
    }
    void report(const char* kind, const std::string& what, SourceLocation l, const std::string& in = "")
    {
        std::string at;
        if (!ours(l, at)) return;
        std::cout << "{\"kind\":\"" << kind << "\",\"name\":\"" << esc(what) << "\",\"at\":\"" << esc(at) << "\",\"path\":\"" << esc(in.empty() && !ctx.empty() ? ctx.back() : in) << "\"}\n";
    }
    bool TraverseDecl(Decl* d)
    {
        bool f = d && isa<FunctionDecl>(d);
        if (f) { ctx.push_back(cast<FunctionDecl>(d)->getQualifiedNameAsString()); std::string at; if (ours(d->getLocation(), at) && cast<FunctionDecl>(d)->doesThisDeclarationHaveABody()) ++nfun; }
        bool r = RecursiveASTVisitor::TraverseDecl(d);
        if (f) ctx.pop_back();
        return r;
    }
    bool VisitCXXThrowExpr(CXXThrowExpr* e) { report("throw", "throw expression", e->getBeginLoc()); return true; }
    bool VisitCXXNewExpr(CXXNewExpr* e) { if (e->getNumPlacementArgs() == 0) report("new", "allocating new expression", e->getBeginLoc()); return true; }
    bool VisitCallExpr(CallExpr* e)
    {
        std::string at;
        if (!ours(e->getBeginLoc(), at)) return true;
        ++ncall;
        auto* k = e->getCallee()->IgnoreParenImpCasts();
        std::string n;
        const DeclContext* in = nullptr;
        if (auto* r = dyn_cast<DeclRefExpr>(k)) { n = r->getDecl()->getNameAsString(); in = r->getDecl()->getDeclContext(); }
        else if (auto* u = dyn_cast<UnresolvedLookupExpr>(k)) { n = u->getName().getAsString(); if (u->decls_begin() != u->decls_end()) in = (*u->decls_begin())->getDeclContext(); }
        else return true;
        if (!effects.count(n)) return true;
        // only the global and std ones
        while (in && in->isTransparentContext()) in = in->getParent();
        if (in && !in->isTranslationUnit() && !in->isStdNamespace() && !(in->isInlineNamespace() && in->getParent()->isStdNamespace())) return true;
        if (n.rfind("operator new", 0) == 0 && e->getNumArgs() > 1 && e->getArg(1)->getType()->isPointerType()) return true; // placement
        report("call", n, e->getBeginLoc());
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        std::string at;
        if (isa<ParmVarDecl>(v) || !ours(v->getLocation(), at)) return true;
        ++nvar;
        heap(v->getType(), v->getNameAsString(), v->getLocation());
        if (!v->hasGlobalStorage()) return true;
        if (v->getTSCSpec() != TSCS_unspecified) { report("thread_local", v->getQualifiedNameAsString(), v->getLocation()); return true; }
        auto t = v->getType();
        if (v->isConstexpr() || t.isConstQualified() || t->isReferenceType()) return true;
        if (v->isStaticDataMember() && !v->hasInit() && !v->isThisDeclarationADefinition()) { report("global", v->getQualifiedNameAsString(), v->getLocation()); return true; }
        if (v->hasExternalStorage() && !v->hasInit()) { report("global", v->getQualifiedNameAsString(), v->getLocation()); return true; }
        report(v->isStaticLocal() ? "static local" : "global", v->getQualifiedNameAsString(), v->getLocation());
        return true;
    }
    bool VisitFieldDecl(FieldDecl* v) { heap(v->getType(), v->getNameAsString(), v->getLocation()); return true; }
    void heap(QualType t, const std::string& name, SourceLocation l)
    {
        const Type* y = t.getNonReferenceType().getTypePtr();
        TemplateDecl* td = nullptr;
        NamedDecl* d = nullptr;
        if (auto* s = y->getAs<TemplateSpecializationType>()) td = s->getTemplateName().getAsTemplateDecl();
        else if (auto* r = y->getAsCXXRecordDecl()) d = r;
        if (td) d = td;
        if (d && heapTypes.count(d->getNameAsString()))
        {
            auto* in = d->getDeclContext();
            while (in && (in->isTransparentContext() || in->isInlineNamespace())) in = in->getParent();
            if (in && in->isStdNamespace() && !t->isReferenceType()) report("heap type", name + " of type " + d->getQualifiedNameAsString(), l);
        }
    }
};
struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& c) override { Visitor(c).TraverseDecl(c.getTranslationUnitDecl()); }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char** argv)
{
    dir = argv[1];
    std::string code((std::istreambuf_iterator<char>(std::cin)), {});
    std::vector<std::string> args(argv + 2, argv + argc);
    bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, args, "all.cpp");
    std::cout << "{\"kind\":\"stats\",\"functions\":" << nfun << ",\"calls\":" << ncall << ",\"variables\":" << nvar << "}\n";
    return ok ? 0 : 3;
}
