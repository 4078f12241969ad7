    //=== canonicalisation ===//
    struct Collect
    {
        std::unordered_map<int, int> obj;   // object -> canonical number
        std::vector<int>             order; // objects in order
        std::map<int, int>           pos;   // element id -> 1 strong / 2 weak mask
        std::set<i64>                leaves;
        bool                         bigEx = false;
    };
    void collectAV(const AV& v, Collect& c)
    {
        switch (v.k)
        {
        case K::Int: if (v.e) { c.leaves.insert(v.e->leaves.begin(), v.e->leaves.end()); if (v.e->size > opt.maxEx) c.bigEx = true; } break;
        case K::Ptr:
            if (v.e) { c.leaves.insert(v.e->leaves.begin(), v.e->leaves.end()); if (v.e->size > opt.maxEx) c.bigEx = true; }
            if (v.obj && c.obj.emplace(v.obj, int(c.order.size())).second) c.order.push_back(v.obj);
            break;
        case K::Pos: c.pos[v.obj] |= v.w ? 2 : 1; break;
        case K::Dist: c.pos[v.obj] |= 2; break;
        case K::Agg: case K::Bundle: for (auto& x : v.agg->v) collectAV(x, c); break;
        default: break;
        }
    }
    void collect(State& s, Collect& c)
    {
        for (auto& f : s.fr)
        {
            for (auto& p : f.env) collectAV(p.second, c);
        }
        for (auto& m : s.mem) if (m.first < 0 && c.obj.emplace(m.first, int(c.order.size())).second) c.order.push_back(m.first);
        for (size_t i = 0; i < c.order.size(); ++i)
            if (auto o = findObj(s, c.order[i])) for (auto& x : o->cells) collectAV(x.v, c);
    }
    // apply a rewriting to every value; pred says whether a (flat) value must change
    template <typename P, typename R>
    bool rewriteAV(AV& v, P pred, R rw)
    {
        if (v.k == K::Agg || v.k == K::Bundle)
        {
            bool ch = false;
            std::function<bool(const AV&)> need = [&](const AV& x) { if (x.k == K::Agg || x.k == K::Bundle) { for (auto& y : x.agg->v) if (need(y)) return true; return false; } return bool(pred(x)); };
            if (!need(v)) return false;
            auto d = std::make_shared<AggD>(*v.agg);
            for (auto& x : d->v) ch |= rewriteAV(x, pred, rw);
            v.agg = d;
            return ch;
        }
        if (!pred(v)) return false;
        rw(v);
        return true;
    }
    template <typename P, typename R>
    void rewriteAll(State& s, P pred, R rw)
    {
        std::function<bool(const AV&)> need = [&](const AV& x) { if (x.k == K::Agg || x.k == K::Bundle) { for (auto& y : x.agg->v) if (need(y)) return true; return false; } return bool(pred(x)); };
        for (auto& f : s.fr) for (auto& p : f.env) if (need(p.second)) rewriteAV(p.second, pred, rw);
        for (size_t i = 0; i < s.mem.size(); ++i)
        {
            bool n = false;
            for (auto& c : s.mem[i].second->cells) if (need(c.v)) { n = true; break; }
            if (!n) continue;
            auto o = ownObj(s, s.mem[i].first);
            for (auto& c : o->cells) rewriteAV(c.v, pred, rw);
        }
    }
    void substLeaves(State& s, const std::map<i64, ExP>& m)
    {
        auto pred = [&](const AV& v) {
            if ((v.k != K::Int && v.k != K::Ptr) || !v.e) return false;
            for (i64 l : v.e->leaves) if (m.count(l)) return true;
            return false;
        };
        auto rw = [&](AV& v) {
            ExP r = exSubst(v.e, [&](i64 l, unsigned w) { auto it = m.find(l); return it == m.end() ? exLeaf(l, w) : it->second; });
            if (v.k == K::Int) { v = mkE(r); return; }
            if (isC(r)) { v.e = nullptr; v.c = i64(r->c); } else v.e = r;
        };
        rewriteAll(s, pred, rw);
    }
    static void addTrail(State& s, SetP set, bool gap)
    {
        auto t = std::make_shared<Trail>();
        t->set = set; t->gap = gap; t->prev = s.trail; t->n = s.trail ? s.trail->n + 1 : 1;
        s.trail = t;
    }

    struct Ser
    {
        std::vector<u64> full, vals;
        std::vector<u64> skel;
        std::unordered_map<ExP, int> exs;
        std::vector<i64> symOrder;
        size_t lagFrom = 0;
    };
    void serEx(State& s, Ser& z, ExP e)
    {
        auto it = z.exs.find(e);
        if (it != z.exs.end()) { z.full.push_back(0xE0000000ull + u64(it->second)); return; }
        z.exs.emplace(e, int(z.exs.size()));
        z.full.push_back((u64(e->op) << 8) | e->w);
        if (e->op == Op::Const) { z.full.push_back(e->c); return; }
        if (e->op == Op::Leaf)
        {
            i64 l = e->leaf();
            if (l >= 0) { z.full.push_back(u64(tidx(s, int(l)))); return; }
            size_t k = 0;
            while (k < z.symOrder.size() && z.symOrder[k] != l) ++k;
            if (k == z.symOrder.size()) z.symOrder.push_back(l);
            z.full.push_back(0x5000 + k);
            return;
        }
        if (e->tab) z.full.push_back(u64(e->tab));
        for (auto k : e->k) if (k) serEx(s, z, k);
    }
    // val(slot): numbers constants that may be widened
    void serAV(State& s, Ser& z, const Collect& c, const AV& v, bool top)
    {
        u64 h = (u64(v.k) << 8) | v.w;
        switch (v.k)
        {
        case K::Int:
            if (!v.e)
            {
                if (top && v.w >= 32) { z.full.push_back(h); z.vals.push_back(u64(v.c)); }
                else { z.full.push_back(h); z.full.push_back(u64(v.c)); }
            }
            else { z.full.push_back(h | 0x10000); serEx(s, z, v.e); }
            break;
        case K::Ptr:
            z.full.push_back(h); z.full.push_back(v.obj ? u64(c.obj.at(v.obj)) + 1 : 0);
            if (v.e) serEx(s, z, v.e); else z.full.push_back(u64(v.c));
            break;
        case K::Pos: case K::Dist: z.full.push_back(h); z.full.push_back(u64(tidx(s, v.obj))); z.full.push_back(u64(v.c)); break;
        case K::End: z.full.push_back(h); z.full.push_back(u64(v.c)); break;
        case K::Fn: z.full.push_back(h); z.full.push_back(u64(v.obj)); break;
        case K::Agg: case K::Bundle:
            z.full.push_back(h); z.full.push_back(v.agg->v.size());
            for (auto& p : v.agg->pos) z.full.push_back(u64(p.first) * 64 + u64(p.second));
            for (auto& x : v.agg->v) serAV(s, z, c, x, false);
            break;
        default: z.full.push_back(h); break;
        }
    }
    static H128 hash(const std::vector<u64>& a, const std::vector<u64>* b = nullptr)
    {
        u64 x = 0x243f6a8885a308d3ull, y = 0x13198a2e03707344ull;
        auto mix = [&](u64 v) {
            x = (x ^ v) * 0x9fb21c651e98df25ull; x ^= x >> 32;
            y = (y + v) * 0xd6e8feb86659fd93ull; y ^= (y >> 29) ^ x;
        };
        for (u64 v : a) mix(v);
        if (b) { mix(0xabcdef); for (u64 v : *b) mix(v); }
        x *= 0xff51afd7ed558ccdull; x ^= x >> 33; y *= 0xc4ceb9fe1a85ec53ull; y ^= y >> 33;
        return {x, y};
    }
    void serialize(State& s, Ser& z, const Collect& c)
    {
        for (auto& f : s.fr)
        {
            z.full.push_back(u64(f.f->no) << 32 | u64(f.bb)); z.full.push_back(u64(f.ip)); z.full.push_back(u64(f.call));
            z.full.push_back(f.env.size());
            for (auto& p : f.env) { z.full.push_back(u64(p.first)); serAV(s, z, c, p.second, true); }
        }
        for (int id : c.order)
        {
            auto o = findObj(s, id);
            if (!o) { z.full.push_back(id < 0 ? u64(i64(id)) : 0xdead); continue; }
            z.full.push_back(u64(o->kind) | (u64(o->freed) << 4) | (u64(o->fill) << 5));
            if (id < 0) z.full.push_back(u64(i64(id)));
            z.full.push_back(u64(o->size)); z.full.push_back(o->cells.size());
            for (auto& x : o->cells) { z.full.push_back(u64(x.off)); z.full.push_back(u64(x.size)); serAV(s, z, c, x.v, true); }
        }
        if (s.heapCheck)
        {
            std::vector<u64> un;
            for (auto& m : s.mem) if (m.second->kind == 1 && !m.second->freed && !c.obj.count(m.first)) un.push_back(u64(m.second->size) * 1000 + m.second->site);
            std::sort(un.begin(), un.end());
            z.full.push_back(un.size());
            for (u64 x : un) z.full.push_back(x);
        }
        z.full.push_back(s.tape.size());
        int ls = lastStrongOf(s, c);
        for (size_t i = 0; i < s.tape.size(); ++i)
        {
            auto& e = s.tape[i];
            z.full.push_back(e.gap);
            if (int(i) >= ls) z.full.push_back(u64(e.set));
            z.full.push_back((u64(uint32_t(e.qa[0])) << 32) | uint32_t(e.qa[1]));
        }
        z.full.push_back((u64(s.unit) << 8) | (u64(s.tapeOn)) | (u64(s.K) << 16));
        if (s.tapeOn) z.full.push_back(u64(s.dom));
        if (s.maxlen) z.full.push_back(u64(std::min(s.absEnd, s.maxlen + 1)) * 1000 + u64(s.maxlen));
        for (int k = 0; k < 2; ++k) if (s.spec[k]) { z.full.push_back(u64(s.spec[k])); z.full.push_back(u64(i64(s.q[k]))); }
        for (i64 y : z.symOrder) z.vals.push_back(u64(setOf(s, y)));
        z.lagFrom = z.vals.size();
        for (int i = 0; i < ls; ++i) z.vals.push_back(u64(s.tape[size_t(i)].set));
    }
    int lastStrongOf(State& s, const Collect& c)
    {
        int r = -1;
        for (auto& p : c.pos) if (p.second & 1) r = std::max(r, tidx(s, p.first));
        return r;
    }
    // Canonicalise at the entry of the current block. Returns false if the state was seen before.
    bool canon(State& s, bool loop)
    {
        Frame& top = s.fr.back();
        prune(top, top.f->bbs[size_t(top.bb)].live);
        Collect c;
        collect(s, c);
        // garbage
        {
            size_t k = 0;
            for (size_t i = 0; i < s.mem.size(); ++i)
            {
                auto& m = s.mem[i];
                bool keep = m.first < 0 || c.obj.count(m.first);
                if (!keep && s.heapCheck && m.second->kind == 1 && !m.second->freed)
                {
                    keep = true;
                    if (!m.second->cells.empty()) { auto o = std::make_shared<Obj>(*m.second); o->cells.clear(); m.second = o; }
                }
                if (!keep) continue;
                if (k != i) s.mem[k] = std::move(m);
                ++k;
            }
            s.mem.resize(k);
            s.nextObj = s.mem.empty() ? 1 : std::max(1, s.mem.back().first + 1);
            // names of dead objects that are still referenced, or that a frame would end, are not reused
            for (auto& r : c.obj) s.nextObj = std::max(s.nextObj, r.first + 1);
            for (auto& f : s.fr)
            {
                size_t n = 0;
                for (int id : f.allocas)
                    if (findObj(s, id)) f.allocas[n++] = id;
                f.allocas.resize(n);
            }
            k = 0;
            for (size_t i = 0; i < s.syms.size(); ++i)
                if (c.leaves.count(s.syms[i].id)) { if (k != i) s.syms[k] = s.syms[i]; ++k; }
            s.syms.resize(k);
        }
        // single-valued leaves become constants; oversized expressions become symbols
        {
            std::map<i64, ExP> m;
            for (i64 l : c.leaves)
            {
                SetP S = setOf(s, l);
                if (S->single()) { unsigned w = l >= 0 ? unsigned(s.unit) * 8 : 0; if (!w) for (auto& y : s.syms) if (y.id == l) w = y.w; m[l] = exConst(u64(S->lo()), w); }
            }
            if (!m.empty()) substLeaves(s, m);
            if (c.bigEx)
            {
                std::map<ExP, AV> done;
                auto pred = [&](const AV& v) { return (v.k == K::Int || v.k == K::Ptr) && v.e && v.e->size > opt.maxEx; };
                auto rw = [&](AV& v) {
                    auto it = done.find(v.e);
                    if (it == done.end())
                    {
                        AB r = rangeOf(v.e, [&](i64 l) { return setOf(s, l); });
                        mark(s, "expression too large");
                        it = done.emplace(v.e, freshInt(s, v.e->w, ST.range(i128(r.lo), i128(r.hi)))).first;
                    }
                    if (v.k == K::Int) v = it->second; else v.e = it->second.e;
                };
                rewriteAll(s, pred, rw);
            }
            if (!m.empty() || c.bigEx) { c = Collect(); collect(s, c); }
        }
        if (s.tapeOn && !s.tape.empty() && loop)
        {
            // positions that reach into summarised input are resolved first (may fork)
            bool ch = false;
            auto pred = [&](const AV& v) { return v.k == K::Pos && v.c > 0; };
            auto rw = [&](AV& v) {
                AV p = normPos(s, v);
                if (p.c == 0) { v = p; ch = true; return; }
                int i = tidx(s, p.obj);
                bool gap = false;
                for (int k = i; k < int(s.tape.size()) && k <= i + p.c / s.unit; ++k) gap |= s.tape[size_t(k)].gap;
                if (!gap) return;
                int j = resolve(s, p);
                if (j >= 0) { v = mkPos(s.tape[size_t(j)].id, 0, p.w); ch = true; }
            };
            rewriteAll(s, pred, rw);
            if (ch) { c = Collect(); collect(s, c); }
        }
        if (s.tapeOn && !s.tape.empty())
        {
            int n = int(s.tape.size());
            int firstAny = n, firstStrong = n, lastStrong = -1;
            std::vector<int> use(size_t(n), 0);
            for (auto& p : c.pos)
            {
                int i = tidx(s, p.first);
                if (i < 0) throw GiveUp{"internal: dangling position"};
                use[size_t(i)] = p.second;
                firstAny = std::min(firstAny, i);
                if (p.second & 1) { firstStrong = std::min(firstStrong, i); lastStrong = std::max(lastStrong, i); }
            }
            // what happens to each element: 0 keep, 1 drop, 2 merge into a gap, 3 forget its set
            std::vector<char> act(size_t(n), 0);
            int prot = -1; // protected up to index
            bool any = false;
            for (int i = 0; i < n; ++i)
            {
                if (use[size_t(i)] & 1) prot = std::max(prot, i + s.K - 1);
                if (i < firstAny && firstAny < n) act[size_t(i)] = 1;
                else if (!loop || (firstAny == n && n == 1)) continue; // an input that nothing has looked at yet
                else if (i > lastStrong && lastStrong >= 0) continue; // look-ahead
                else if (lastStrong < 0 && firstAny < n && i >= firstAny) { if (!(use[size_t(i)])) act[size_t(i)] = s.tape[size_t(i)].gap ? 0 : 2; else act[size_t(i)] = 3; }
                else if (i <= prot && i >= firstStrong) continue;
                else if (use[size_t(i)]) act[size_t(i)] = 3;
                else if (!s.tape[size_t(i)].gap) act[size_t(i)] = 2;
                any |= act[size_t(i)] != 0;
                if (s.tape[size_t(i)].set == ST.one(-1) && act[size_t(i)] != 1) act[size_t(i)] = 0;
            }
            for (char a : act) any |= a != 0;
            if (any)
            {
                // the end cell stays; spec states are fixed first (may fork)
                int q[2] = {s.q[0], s.q[1]};
                for (int i = 0; i < n; ++i)
                {
                    bool last = true;
                    for (int j = i; j < n; ++j) if (act[size_t(j)]) last = false;
                    if (last) break;
                    for (int k = 0; k < 2; ++k)
                        if (s.spec[k])
                        {
                            q[k] = specAfter(s, k, q[k], i);
                            if (act[size_t(i)] == 2 || act[size_t(i)] == 3) s.tape[size_t(i)].qa[k] = q[k];
                        }
                }
                std::map<i64, ExP> m;
                for (int i = 0; i < n; ++i)
                    if (act[size_t(i)] && !s.tape[size_t(i)].gap && c.leaves.count(s.tape[size_t(i)].id))
                    {
                        SetP S = s.tape[size_t(i)].set;
                        m[s.tape[size_t(i)].id] = exLeaf(newSym(s, unsigned(s.unit) * 8, S), unsigned(s.unit) * 8);
                    }
                std::vector<Elem> t;
                for (int i = 0; i < n; ++i)
                {
                    Elem e = s.tape[size_t(i)];
                    bool strongBefore = i >= firstStrong;
                    switch (act[size_t(i)])
                    {
                    case 1:
                        addTrail(s, e.set, e.gap);
                        for (int k = 0; k < 2; ++k) if (s.spec[k]) s.q[k] = specAfter(s, k, s.q[k], i);
                        break;
                    case 2:
                        addTrail(s, e.set, false);
                        e.gap = true;
                        if (!strongBefore) e.set = s.dom;
                        if (!t.empty() && t.back().gap)
                        {
                            t.back().set = ST.uni(t.back().set, e.set);
                            t.back().qa[0] = e.qa[0]; t.back().qa[1] = e.qa[1];
                        }
                        else t.push_back(e);
                        break;
                    case 3: e.set = s.dom; e.lossy = true; t.push_back(e); break;
                    default:
                        if (e.gap && !t.empty() && t.back().gap)
                        {
                            t.back().set = ST.uni(t.back().set, e.set);
                            t.back().qa[0] = e.qa[0]; t.back().qa[1] = e.qa[1];
                        }
                        else { if (e.gap && !strongBefore) e.set = s.dom; t.push_back(e); }
                    }
                }
                if (!m.empty()) substLeaves(s, m);
                s.tape = t;
                if (!m.empty()) { c = Collect(); collect(s, c); }
                // drop the leaves that are gone
            }
        }
        else if (s.tapeOn) {}
        for (int round = 0;; ++round)
        {
            Ser z;
            serialize(s, z, c);
            if (loop && round == 0)
            {
                H128 sk = hash(z.full);
                auto& S = skels[sk];
                ++S.n;
                if (S.seen.empty() && !z.vals.empty()) { S.seen.resize(z.vals.size()); S.vary.assign(z.vals.size(), 0); }
                {
                    for (size_t i = 0; i < z.vals.size(); ++i)
                        if (!S.vary[i])
                        {
                            auto& v = S.seen[i];
                            if (std::find(v.begin(), v.end(), z.vals[i]) == v.end()) v.push_back(z.vals[i]);
                            if (i >= z.lagFrom ? v.size() > 1 && S.n > opt.lagAt : v.size() > opt.widenAt) { S.vary[i] = 1; S.any = true; v.clear(); }
                        }
                    if (S.any)
                    {
                        // is this exact state known already?
                        if (!visited.count(hash(z.full, &z.vals)) && widen(s, c, S.vary))
                        {
                            ++nWiden;
                            c = Collect(); collect(s, c);
                            continue;
                        }
                    }
                }
            }
            H128 h = hash(z.full, &z.vals);
            auto it = visited.find(h);
            unsigned node;
            bool isNew = it == visited.end();
            if (isNew)
            {
                node = unsigned(nodeLoc.size());
                nodeLoc.push_back({&*top.f->bbs[size_t(top.bb)].bb->begin(), top.f->bbs[size_t(top.bb)].bb});
                visited.emplace(h, std::make_pair(node, s.imprecise));
                ++nStates;
            }
            else node = it->second.first;
            ++nTrans;
            if (!s.progress && !s.imprecise && s.node) npEdges.push_back({s.node, node});
            s.node = node; s.progress = false;
            if (!isNew)
            {
                if (it->second.second && !s.imprecise) { it->second.second = false; return true; }
                ++nMerged;
                return false;
            }
            return true;
        }
    }
    // replace varying constants by unknown values
    bool widen(State& s, const Collect& c, const std::vector<char>& vary)
    {
        size_t i = 0;
        bool ch = false;
        Ser z; // to follow the symbol order
        std::vector<std::function<void()>> todo;
        for (auto& f : s.fr)
            for (auto& p : f.env)
            {
                if (p.second.k == K::Int && !p.second.e && p.second.w >= 32) { if (i < vary.size() && vary[i]) { AV* a = &p.second; todo.push_back([this, &s, a] { *a = freshInt(s, a->w); }); ch = true; } ++i; }
                else serAV(s, z, c, p.second, true);
            }
        for (int id : c.order)
        {
            auto o = findObj(s, id);
            if (!o) continue;
            for (size_t k = 0; k < o->cells.size(); ++k)
            {
                auto& v = o->cells[k].v;
                if (v.k == K::Int && !v.e && v.w >= 32) { if (i < vary.size() && vary[i]) { todo.push_back([this, &s, id, k] { auto w = ownObj(s, id); w->cells[k].v = freshInt(s, w->cells[k].v.w); }); ch = true; } ++i; }
                else serAV(s, z, c, v, true);
            }
        }
        for (i64 y : z.symOrder)
        {
            if (i < vary.size() && vary[i]) for (auto& q : s.syms) if (q.id == y && q.set != ST.full(q.w)) { unsigned w = q.w; i64 id = q.id; todo.push_back([&s, id, w] { setLeaf(s, id, ST.full(w)); }); ch = true; }
            ++i;
        }
        if (ch) { mark(s, "widening of an unbounded counter"); s.progress = true; }
        int ls = lastStrongOf(s, c);
        {
            int last = -1; size_t j = i;
            for (int k = 0; k < ls; ++k, ++j) if (j < vary.size() && vary[j] && s.tape[size_t(k)].set != s.dom) last = k;
            int q[2] = {s.q[0], s.q[1]};
            std::map<i64, ExP> m;
            for (int k = 0; k <= last; ++k)
                for (int z2 = 0; z2 < 2; ++z2) if (s.spec[z2]) q[z2] = specAfter(s, z2, q[z2], k);
            q[0] = s.q[0]; q[1] = s.q[1];
            for (int k = 0; k <= last; ++k, ++i)
            {
                auto& e = s.tape[size_t(k)];
                for (int z2 = 0; z2 < 2; ++z2) if (s.spec[z2]) q[z2] = specAfter(s, z2, q[z2], k);
                if (!(i < vary.size() && vary[i] && e.set != s.dom)) continue;
                for (int z2 = 0; z2 < 2; ++z2) if (s.spec[z2]) e.qa[z2] = q[z2];
                if (c.leaves.count(e.id)) m[e.id] = exLeaf(newSym(s, unsigned(s.unit) * 8, e.set), unsigned(s.unit) * 8);
                e.set = s.dom; e.lossy = true; ch = true;
            }
            if (!m.empty()) substLeaves(s, m);
        }
        for (auto& t : todo) t();
        return ch;
    }
