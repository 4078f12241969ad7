// development aid: lxcov file.bc: for every root w_*, the source lines of the functions it can reach
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <iostream>
#include <map>
#include <set>
using namespace llvm;
int main(int argc, char** argv)
{
    LLVMContext c; SMDiagnostic e;
    auto m = parseIRFile(argv[1], e, c);
    if (!m) return 3;
    std::map<const Function*, std::set<std::pair<std::string, unsigned>>> lines;
    std::map<const Function*, std::set<const Function*>> calls;
    for (auto& f : *m)
        for (auto& b : f)
            for (auto& i : b)
            {
                if (auto& d = i.getDebugLoc()) if (d.getLine()) lines[&f].insert({cast<DIScope>(d.getScope())->getFilename().str(), d.getLine()});
                for (auto& o : i.operands()) if (auto* g = dyn_cast<Function>(o->stripPointerCasts())) calls[&f].insert(g);
            }
    for (auto& f : *m)
    {
        if (f.isDeclaration() || !f.getName().starts_with("w_")) continue;
        std::set<const Function*> seen{&f}; std::vector<const Function*> q{&f};
        std::map<std::string, std::set<unsigned>> out;
        while (!q.empty())
        {
            auto* g = q.back(); q.pop_back();
            for (auto& [p, l] : lines[g]) out[p].insert(l);
            for (auto* h : calls[g]) if (!h->isDeclaration() && seen.insert(h).second) q.push_back(h);
        }
        for (auto& [p, ls] : out)
        {
            auto k = p.find("include/lexy");
            if (k == std::string::npos && p.find("src/input") == std::string::npos) continue;
            std::cout << f.getName().str() << " " << (k == std::string::npos ? p : p.substr(k));
            for (auto l : ls) std::cout << " " << l;
            std::cout << "\n";
        }
    }
}
