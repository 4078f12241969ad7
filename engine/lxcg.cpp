// Effects reachable in the call graph: lxcg file.bc root-regex cut-regex
// Prints one JSON line per external function, mutable global or inline assembly reachable from the roots, with the
// shortest path. Functions whose demangled name matches the cut expression are not entered.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <deque>
#include <iostream>
#include <map>
#include <regex>
#include <set>
using namespace llvm;
static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c >= 32) r += char(c); }
    return r;
}
static std::string dem(const Function* f) { return demangle(f->getName().str()); }
static std::string where(const Instruction* i)
{
    if (auto& d = i->getDebugLoc())
        if (auto* sc = dyn_cast_or_null<DIScope>(d.getScope())) return (sc->getFilename() + ":" + Twine(d.getLine())).str();
    if (auto* sp = i->getFunction()->getSubprogram()) return (sp->getFilename() + ":" + Twine(sp->getLine())).str();
    return "?";
}
int main(int argc, char** argv)
{
    LLVMContext c; SMDiagnostic e;
    auto m = parseIRFile(argv[1], e, c);
    if (!m) { std::cerr << "cannot read " << argv[1] << "\n"; return 3; }
    std::regex root(argv[2]), cut(argv[3]);
    std::map<const Function*, std::pair<const Function*, std::string>> from; // how it was reached
    std::deque<const Function*> q;
    std::set<std::string> seen;
    size_t edges = 0, roots = 0, indirect = 0;
    auto reach = [&](const Function* f, const Function* by, const std::string& at) {
        if (from.count(f)) return;
        from[f] = {by, at};
        q.push_back(f);
    };
    for (auto& f : *m)
        if (!f.isDeclaration() && std::regex_search(f.getName().str(), root)) { ++roots; reach(&f, nullptr, ""); }
    auto path = [&](const Function* f) {
        std::string r;
        for (int i = 0; f && i < 12; ++i)
        {
            std::string n = dem(f);
            if (n.size() > 140) n = n.substr(0, 137) + "...";
            r = n + (r.empty() ? "" : " -> " + r);
            f = from[f].first;
        }
        return r;
    };
    auto report = [&](const char* kind, const std::string& name, const std::string& file, const Function* f, const std::string& at) {
        if (!seen.insert(kind + name).second) return;
        std::cout << "{\"kind\":\"" << kind << "\",\"name\":\"" << esc(name) << "\",\"file\":\"" << esc(file) << "\",\"at\":\"" << esc(at) << "\",\"path\":\"" << esc(path(f)) << "\"}\n";
    };
    std::set<const Constant*> visited;
    std::function<void(const Constant*, const Function*, const std::string&)> konst = [&](const Constant* k, const Function* by, const std::string& at) {
        if (auto* f = dyn_cast<Function>(k)) { ++edges; reach(f, by, at); return; }
        if (auto* g = dyn_cast<GlobalVariable>(k))
        {
            if (!g->isConstant() || g->isThreadLocal())
            {
                std::string file;
                SmallVector<DIGlobalVariableExpression*, 1> dbg;
                g->getDebugInfo(dbg);
                if (!dbg.empty()) file = dbg[0]->getVariable()->getFilename().str();
                report(g->isThreadLocal() ? "thread_local" : "global", demangle(g->getName().str()), file, by, at);
            }
            if (g->hasInitializer() && visited.insert(g).second) konst(g->getInitializer(), by, at);
            return;
        }
        if (isa<GlobalAlias>(k)) { konst(cast<GlobalAlias>(k)->getAliasee(), by, at); return; }
        if (!visited.insert(k).second && !isa<ConstantExpr>(k)) return;
        for (auto& o : k->operands())
            if (auto* x = dyn_cast<Constant>(&*o)) konst(x, by, at);
    };
    size_t functions = 0;
    while (!q.empty())
    {
        auto* f = q.front(); q.pop_front();
        if (f->isDeclaration())
        {
            if (f->isIntrinsic()) continue;
            report("external", dem(f), "", f, from[f].second);
            continue;
        }
        if (from[f].first && std::regex_search(dem(f), cut)) continue;
        ++functions;
        for (auto& b : *f)
            for (auto& i : b)
            {
                auto at = where(&i);
                if (auto* cb = dyn_cast<CallBase>(&i))
                {
                    if (cb->isInlineAsm()) { report("asm", dem(f), "", f, at); continue; }
                    if (!cb->getCalledFunction() && !isa<Constant>(cb->getCalledOperand())) ++indirect;
                }
                for (auto& o : i.operands())
                    if (auto* k = dyn_cast<Constant>(&*o)) { visited.clear(); konst(k, f, at); }
            }
        if (f->hasPersonalityFn()) {} // unwinding through a function is no effect of its own
    }
    std::cout << "{\"kind\":\"stats\",\"functions\":" << functions << ",\"edges\":" << edges << ",\"roots\":" << roots << ",\"indirect\":" << indirect << "}\n";
}
