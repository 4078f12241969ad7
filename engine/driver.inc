    //=== driver ===//
    std::string avStr(State& s, const AV& v)
    {
        switch (v.k)
        {
        case K::Undef: return "undef";
        case K::Int: return v.e ? exstr(v.e) : std::to_string(v.c) + ":" + std::to_string(v.w);
        case K::Ptr: return "&" + std::to_string(v.obj) + "+" + (v.e ? exstr(v.e) : std::to_string(v.c));
        case K::Pos: return std::string(v.w ? "wpos" : "pos") + std::to_string(tidx(s, v.obj)) + (v.c ? "+" + std::to_string(v.c) : "");
        case K::End: return "END" + (v.c ? std::to_string(v.c) : "");
        case K::Dist: return "dist";
        case K::Fn: return "fn";
        default: { std::string r = "{"; for (auto& x : v.agg->v) r += avStr(s, x) + ","; return r + "}"; }
        }
    }
    void dumpState(State& s)
    {
        errs() << "--- state " << nStates << (s.imprecise ? " imprecise" : "") << "\n";
        for (auto& f : s.fr)
        {
            errs() << " frame " << f.f->F->getName() << " bb" << f.bb << " @ " << (f.f->bbs[size_t(f.bb)].ins.empty() ? "" : locStr(f.f->bbs[size_t(f.bb)].ins[0].I->getDebugLoc(), true).substr(0, 300)) << "\n";
            for (auto& p : f.env)
            {
                std::string nm;
                for (auto& kv : f.f->idx) if (kv.second == p.first) { raw_string_ostream os(nm); kv.first->print(os); }
                errs() << "   %" << p.first << " = " << avStr(s, p.second) << "     ; " << nm.substr(0, 80) << "\n";
            }
        }
        for (auto& m : s.mem)
        {
            errs() << " obj " << m.first << " size " << m.second->size << (m.second->freed ? " freed" : "") << ":";
            for (auto& c : m.second->cells) errs() << " [" << c.off << "+" << c.size << "]=" << avStr(s, c.v);
            errs() << "\n";
        }
        errs() << " tape:";
        for (auto& e : s.tape) errs() << " " << (e.gap ? "gap" : "") << setstr(e.set) << (e.qa[0] != QNONE ? " qa" + std::to_string(e.qa[0]) : "");
        errs() << " q=" << s.q[0] << "\n";
        for (auto& y : s.syms) errs() << " sym " << y.id << " " << setstr(y.set) << "\n";
    }
    std::string locStr(const DebugLoc& dl, bool chain)
    {
        std::string r;
        const DILocation* L = dl.get();
        while (L)
        {
            auto sp = L->getScope()->getSubprogram();
            std::string fn = L->getFilename().str();
            auto p = fn.find("/include/lexy");
            if (p != std::string::npos) fn = fn.substr(p + 1);
            else if ((p = fn.find("/src/")) != std::string::npos) fn = fn.substr(p + 1);
            else if ((p = fn.rfind('/')) != std::string::npos) fn = fn.substr(p + 1);
            std::string name = sp ? sp->getName().str() : "";
            r += (r.empty() ? "" : " <- ") + fn + ":" + std::to_string(L->getLine()) + (name.empty() ? "" : " " + name);
            if (!chain) break;
            L = L->getInlinedAt();
        }
        return r;
    }
    static bool libLoc(const DILocation* L)
    {
        auto fn = L->getFilename();
        return fn.contains("/include/lexy") || fn.contains("/src/input/");
    }
    // innermost source location inside the library, looking through inlining and the call stack
    std::string libLocation(State& s)
    {
        for (size_t i = s.fr.size(); i-- > 0;)
        {
            auto& f = s.fr[i];
            if (size_t(f.ip) >= f.f->bbs[size_t(f.bb)].ins.size()) continue;
            const DILocation* L = f.f->bbs[size_t(f.bb)].ins[size_t(f.ip)].I->getDebugLoc().get();
            for (; L; L = L->getInlinedAt()) if (libLoc(L)) return locStr(DebugLoc(L), false);
        }
        return "";
    }
    std::string stackOf(State& s)
    {
        std::string r;
        for (size_t i = s.fr.size(); i-- > 0;)
        {
            auto& f = s.fr[i];
            if (size_t(f.ip) >= f.f->bbs[size_t(f.bb)].ins.size()) continue;
            auto x = locStr(f.f->bbs[size_t(f.bb)].ins[size_t(f.ip)].I->getDebugLoc(), true);
            r += (r.empty() ? "" : " <- ") + x;
        }
        return r;
    }
    std::string showSet(SetP S)
    {
        if (S == ST.one(-1)) return "<end>";
        std::string r;
        int n = 0;
        for (auto& p : S->iv)
        {
            if (n++ == 4) { r += ".."; break; }
            auto one = [](i128 v) {
                char b[32];
                if (v == -1) return std::string("<end>");
                if (v > 32 && v < 127) { snprintf(b, sizeof b, "'%c'", char(v)); return std::string(b); }
                snprintf(b, sizeof b, "%llx", (unsigned long long)v);
                return "0x" + std::string(b);
            };
            r += (r.empty() ? "" : ",") + one(p.first) + (p.first == p.second ? "" : "-" + one(p.second));
        }
        return "[" + r + "]";
    }
    std::string inputOf(State& s)
    {
        std::vector<std::string> v;
        unsigned n = 0;
        for (auto t = s.trail; t && n < 24; t = t->prev, ++n) v.push_back(showSet(t->set) + (t->gap ? "+" : ""));
        std::string r;
        if (n == 24) r = "... ";
        for (size_t i = v.size(); i-- > 0;) r += v[i];
        for (auto& e : s.tape) r += e.set == s.domE ? "[any or end]" : showSet(e.set) + (e.gap ? "+" : "");
        return r;
    }
    void report(State& s, const std::string& code, const std::string& msg)
    {
        Report r;
        r.code = code; r.msg = msg; r.loc = libLocation(s); r.stack = stackOf(s); r.input = inputOf(s);
        r.imprecise = s.imprecise; r.why = s.why >= 0 ? reasons[size_t(s.why)] : "";
        std::string key = code + "|" + msg + "|" + r.loc;
        auto it = reports.find(key);
        if (it == reports.end()) reports[key] = r;
        else
        {
            auto n = it->second.count + 1;
            if (it->second.imprecise && !r.imprecise) it->second = r;
            it->second.count = n;
        }
    }
    void runWitness(const Function* F)
    {
        work.clear(); visited.clear(); skels.clear(); npEdges.clear(); nodeLoc.clear(); reports.clear(); gaveup.clear();
        externals.clear(); mutGlobals.clear(); coverHit.clear(); seenIns.clear(); stepCache.clear();
        nStates = nTrans = nInst = nForks = nMerged = nWiden = pathsEnded = 0; truncated = false; imprecision.clear();
        t0 = std::chrono::steady_clock::now();
        nodeLoc.push_back({nullptr, nullptr}); // node 0 = start
        State s;
        Frame f;
        f.f = compile(F);
        s.fr.push_back(f);
        work.push_back(std::move(s));
        while (!work.empty())
        {
            if (nStates > opt.maxStates) { truncated = true; break; }
            State c = std::move(work.back());
            work.pop_back();
            try
            {
                while (true)
                {
                    Frame& top = c.fr.back();
                    if (top.fresh && c.decided.empty())
                    {
                        auto& b = top.f->bbs[size_t(top.bb)];
                        if (b.join) { if (!canon(c, b.loop)) break; c.fr.back().fresh = false; if (opt.dumpAt && nStates >= opt.dumpAt && nStates < opt.dumpAt + opt.dumpN && (b.loop || opt.dumpAll)) dumpState(c); }
                        else { prune(top, b.live); top.fresh = false; }
                    }
                    AV r; bool done = false;
                    step(c, &r, &done);
                    c.decided.clear();
                    if (done) { ++pathsEnded; if (c.imprecise && c.why >= 0) imprecision[reasons[size_t(c.why)]]++; break; }
                    if (work.size() > 2000000) throw GiveUp{"worklist"};
                }
            }
            catch (Fork& fk)
            {
                nForks += fk.alts.size(); if (dbgForks) forkHist[stackOf(c).substr(0, 130)] += fk.alts.size();
                for (size_t i = 0; i < fk.alts.size(); ++i)
                {
                    if (i + 1 < fk.alts.size()) work.push_back(c);
                    else work.push_back(std::move(c));
                    fk.alts[i](work.back());
                }
            }
            catch (Viol& v)
            {
                ++pathsEnded;
                report(c, v.code, v.msg);
            }
            catch (GiveUp& g)
            {
                ++pathsEnded;
                if (g.why == "time limit") { truncated = true; break; }
                gaveup[g.why + " @ " + (libLocation(c).empty() ? stackOf(c) : libLocation(c))]++;
            }
            catch (PathEnd&) { ++pathsEnded; }
            if ((pathsEnded & 0x3ff) == 0)
            {
                struct rusage ru; getrusage(RUSAGE_SELF, &ru);
                if (ru.ru_maxrss > 5l * 1024 * 1024) { truncated = true; break; }
            }
        }
        if (truncated) gaveup["limit reached"]++;
        cycles();
    }
    void cycles()
    {
        // strongly connected components of the edges without progress
        size_t n = nodeLoc.size();
        std::vector<std::vector<unsigned>> g(n);
        for (auto& e : npEdges) g[e.first].push_back(e.second);
        std::vector<int> idx(n, -1), low(n, 0);
        std::vector<char> on(n, 0);
        std::vector<unsigned> st;
        int cnt = 0;
        std::vector<std::pair<unsigned, size_t>> cs;
        for (size_t r = 0; r < n; ++r)
        {
            if (idx[r] >= 0 || g[r].empty()) continue;
            cs.push_back({unsigned(r), 0}); idx[r] = low[r] = cnt++; st.push_back(unsigned(r)); on[r] = 1;
            while (!cs.empty())
            {
                auto& [v, i] = cs.back();
                if (i < g[v].size())
                {
                    unsigned w = g[v][i++];
                    if (w == v) { noProgress(v); continue; }
                    if (idx[w] < 0) { idx[w] = low[w] = cnt++; st.push_back(w); on[w] = 1; cs.push_back({w, 0}); }
                    else if (on[w]) low[v] = std::min(low[v], idx[w]);
                }
                else
                {
                    if (low[v] == idx[v])
                    {
                        size_t k = 0; unsigned w;
                        do { w = st.back(); st.pop_back(); on[w] = 0; ++k; } while (w != v);
                        if (k > 1) noProgress(v);
                    }
                    unsigned vv = v;
                    cs.pop_back();
                    if (!cs.empty()) low[cs.back().first] = std::min(low[cs.back().first], low[vv]);
                }
            }
        }
    }
    void noProgress(unsigned node)
    {
        auto bb = nodeLoc[node].second;
        std::string loc, chain;
        for (auto& I : *bb)
        {
            if (!I.getDebugLoc()) continue;
            if (chain.empty()) chain = locStr(I.getDebugLoc(), true);
            for (const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) if (libLoc(L)) { loc = locStr(DebugLoc(L), false); break; }
            if (!loc.empty()) break;
        }
        Report r;
        r.code = "no-progress"; r.msg = "loop repeats the same state without consuming input"; r.loc = loc; r.stack = chain; r.imprecise = false;
        auto key = r.code + "|" + loc;
        if (!reports.count(key)) reports[key] = r;
    }
    static std::string js(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }
    void print(const Function* F)
    {
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::set<std::string> fnsSeen; std::set<std::string> lines;
        for (auto& p : seenIns)
            for (const DILocation* L = p.first->getDebugLoc().get(); L; L = L->getInlinedAt())
                if (libLoc(L))
                {
                    auto sp = L->getScope()->getSubprogram();
                    std::string file = L->getFilename().str();
                    auto k = file.find("/include/lexy"); if (k == std::string::npos) k = file.find("/src/");
                    file = file.substr(k + 1);
                    if (sp) fnsSeen.insert(file + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str());
                    lines.insert(file + ":" + std::to_string(L->getLine()));
                }
        std::string o = "{\"witness\":" + js(F->getName().str());
        auto num = [&](const char* k, u64 v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
        for (auto& h : forkHist) fprintf(stderr, "%8llu %s\n", (unsigned long long)h.second, h.first.c_str());
        num("states", nStates); num("transitions", nTrans); num("merged", nMerged); num("forks", nForks); num("widenings", nWiden);
        num("instructions", nInst); num("ir_instructions", seenIns.size()); num("paths", pathsEnded); num("functions", fnsSeen.size()); num("lines", lines.size());
        o += ",\"wall\":" + std::to_string(t) + ",\"truncated\":" + (truncated ? "true" : "false");
        o += ",\"violations\":[";
        bool first = true;
        for (auto& p : reports)
        {
            auto& r = p.second;
            o += std::string(first ? "" : ",") + "{\"code\":" + js(r.code) + ",\"msg\":" + js(r.msg) + ",\"loc\":" + js(r.loc) + ",\"stack\":" + js(r.stack.substr(0, 3000)) + ",\"input\":" + js(r.input) + ",\"imprecise\":" + (r.imprecise ? "true" : "false") + ",\"why\":" + js(r.why) + ",\"count\":" + std::to_string(r.count) + "}";
            first = false;
        }
        o += "],\"gaveup\":{"; first = true;
        for (auto& p : gaveup) { o += std::string(first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); first = false; }
        o += "},\"imprecision\":{"; first = true;
        for (auto& p : imprecision) { o += std::string(first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); first = false; }
        o += "},\"covers\":{"; first = true;
        for (auto& p : coverHit) { o += std::string(first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); first = false; }
        o += "},\"externals\":{"; first = true;
        for (auto& p : externals) { o += std::string(first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); first = false; }
        o += "},\"mutable_globals\":["; first = true;
        for (auto& p : mutGlobals) { o += std::string(first ? "" : ",") + js(p); first = false; }
        o += "],\"function_list\":["; first = true;
        for (auto& p : fnsSeen) { o += std::string(first ? "" : ",") + js(p); first = false; }
        o += "]}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
    }
