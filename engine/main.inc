static void optimize(Module& M)
{
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    const char* pipe = "globaldce,always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
    MPM.run(M, MAM);
}
int main(int argc, char** argv)
{
    std::string file; std::vector<std::string> entries; bool list = false, dump = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--time") opt.maxTime = atof(argv[++i]);
        else if (a == "--states") opt.maxStates = strtoull(argv[++i], nullptr, 10);
        else if (a == "--widen") opt.widenAt = unsigned(atoi(argv[++i]));
        else if (a == "--maxex") opt.maxEx = unsigned(atoi(argv[++i]));
        else if (a == "--dumpat") opt.dumpAt = strtoull(argv[++i], nullptr, 10);
        else if (a == "--dumpn") opt.dumpN = strtoull(argv[++i], nullptr, 10);
        else if (a == "--dumpall") opt.dumpAll = true;
        else if (a == "--list") list = true;
        else if (a == "--dump") dump = true;
        else if (file.empty()) file = a;
        else entries.push_back(a);
    }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(file, err, ctx);
    if (!M) { err.print("lxai", errs()); return 3; }
    for (auto& F : *M) if (F.getName().starts_with("w_") && !F.isDeclaration()) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    if (list) { for (auto& F : *M) if (F.getName().starts_with("w_") && !F.isDeclaration()) outs() << F.getName() << "\n"; return 0; }
    if (!entries.empty()) for (auto& F : *M) if (F.getName().starts_with("w_") && !F.isDeclaration() && std::find(entries.begin(), entries.end(), F.getName().str()) == entries.end()) F.deleteBody();
    optimize(*M);
    if (dump) { M->print(outs(), nullptr); return 0; }
    Engine E(*M);
    for (auto& F : *M)
    {
        if (!F.getName().starts_with("w_") || F.isDeclaration()) continue;
        if (!entries.empty() && std::find(entries.begin(), entries.end(), F.getName().str()) == entries.end()) continue;
        E.runWitness(&F);
        E.print(&F);
    }
    return 0;
}
