    //=== calls ===//
    static ExP ovf(Op op, ExP a, ExP b) { return exBin(op, a, b); }
    AV pair(const AV& a, const AV& b)
    {
        auto d = std::make_shared<AggD>();
        d->v = {a, b};
        AV r; r.k = K::Agg; r.agg = d; return r;
    }
    void freeObj(State& s, AV p, i64 size, const char* what)
    {
        if (p.k == K::Ptr && p.obj == 0 && !p.e && p.c == 0) return;
        if (p.k == K::Undef) throw Viol{"bad-free", "release of an uninitialised pointer"};
        if (p.k != K::Ptr || p.e) throw Viol{"bad-free", std::string("release of something that was not allocated: ") + what};
        auto o = p.obj > 0 ? ownObj(s, p.obj) : nullptr;
        if (!o) throw Viol{"bad-free", "release of something that was not allocated"};
        if (o->freed) throw Viol{"double-free", "memory released twice"};
        if (o->kind != 1 || p.c != 0) throw Viol{"bad-free", "release of something that was not allocated"};
        if (size >= 0 && size != o->size) throw Viol{"free-size", "memory released with a size different from the requested one (" + std::to_string(size) + " instead of " + std::to_string(o->size) + ")"};
        o->freed = true; o->cells.clear();
    }
    unsigned siteOf(const Instruction* I)
    {
        // stable number per source line
        static DenseMap<const Instruction*, unsigned> m;
        auto& x = m[I];
        if (!x) x = unsigned(m.size());
        return x;
    }
    void doCall(State& s, const Ins& in, AV* ret, bool* done)
    {
        Frame& f = s.fr.back();
        auto& CI = cast<CallInst>(*in.I);
        unsigned na = CI.arg_size();
        auto arg = [&](unsigned i) -> const AV& { return getv(f, in.ops[i]); };
        auto fin = [&](AV v) { setv(f, in.dst, std::move(v)); ++f.ip; };
        auto argc = [&](unsigned i) -> u64 { return concretize(s, arg(i), 64, "argument"); };
        unsigned w = CI.getType()->isIntegerTy() ? CI.getType()->getIntegerBitWidth() : 64;
        const AV& cv = getv(f, in.ops[na]);
        if (cv.k == K::Ptr && cv.obj == 0) throw Viol{"null-call", "call through a null pointer"};
        if (cv.k != K::Fn) throw GiveUp{"call through an unknown pointer"};
        const Function* F = fnList[size_t(cv.obj)];
        StringRef N = F->getName();

        if (F->isIntrinsic())
        {
            if (CI.getType()->isVectorTy()) throw GiveUp{"vector intrinsic"};
            auto id = F->getIntrinsicID();
            auto un = [&](Op op) { AV v = asInt(arg(0)); if (v.k == K::Undef) return AV(); if (v.k == K::Bundle) v = compose(v, w); if (v.k != K::Int) throw GiveUp{"intrinsic on an address"}; return mkE(exUn(op, toE(v), w)); };
            auto ov = [&](Op op, Op o2) {
                AV a = asInt(arg(0)), b = asInt(arg(1));
                if (a.k != K::Int || b.k != K::Int) throw GiveUp{"overflow intrinsic operand"};
                return pair(mkE(exBin(op, toE(a), toE(b))), mkE(ovf(o2, toE(a), toE(b))));
            };
            switch (id)
            {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
            {
                const AV& p = arg(1);
                if (p.k == K::Ptr && p.obj > 0 && !p.e)
                    if (auto o = ownObj(s, p.obj)) { o->cells.clear(); }
                ++f.ip; return;
            }
            case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
            case Intrinsic::invariant_end: ++f.ip; return;
            case Intrinsic::expect: fin(arg(0)); return;
            case Intrinsic::is_constant: fin(mkInt(0, 1)); return;
            case Intrinsic::objectsize: fin(mkInt(~u64(0), w)); return;
            case Intrinsic::stacksave: fin(mkPtr(0, 0)); return;
            case Intrinsic::stackrestore: ++f.ip; return;
            case Intrinsic::ptrmask: fin(binop(s, Op::And, arg(0), arg(1), 64)); return;
            case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: fin(arg(0)); return;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            {
                i64 n = i64(argc(2));
                copyMem(s, arg(0), arg(1), n); ++f.ip; return;
            }
            case Intrinsic::memset: doMemset(s, arg(0), arg(1), i64(argc(2))); ++f.ip; return;
            case Intrinsic::umin: fin(binop(s, Op::UMin, arg(0), arg(1), w)); return;
            case Intrinsic::umax: fin(binop(s, Op::UMax, arg(0), arg(1), w)); return;
            case Intrinsic::smin: fin(binop(s, Op::SMin, arg(0), arg(1), w)); return;
            case Intrinsic::smax: fin(binop(s, Op::SMax, arg(0), arg(1), w)); return;
            case Intrinsic::usub_sat: fin(binop(s, Op::USubSat, arg(0), arg(1), w)); return;
            case Intrinsic::uadd_sat: fin(binop(s, Op::UAddSat, arg(0), arg(1), w)); return;
            case Intrinsic::ctpop: fin(un(Op::CtPop)); return;
            case Intrinsic::cttz: fin(un(Op::CtTz)); return;
            case Intrinsic::ctlz: fin(un(Op::CtLz)); return;
            case Intrinsic::bswap: fin(un(Op::Bswap)); return;
            case Intrinsic::abs:
            {
                AV v = arg(0); if (v.k != K::Int) throw GiveUp{"abs"};
                ExP e = toE(v);
                fin(mkE(exSel(exBin(Op::Slt, e, exConst(0, w)), exBin(Op::Sub, exConst(0, w), e), e))); return;
            }
            case Intrinsic::fshl: case Intrinsic::fshr:
            {
                AV a = arg(0), b = arg(1), c = arg(2);
                if (a.k != K::Int || b.k != K::Int || !c.isConst()) throw GiveUp{"funnel shift"};
                unsigned k = unsigned(u64(c.c) % w);
                if (id == Intrinsic::fshr) k = (w - k) % w;
                if (k == 0) { fin(id == Intrinsic::fshl ? a : b); return; }
                fin(mkE(exBin(Op::Or, exBin(Op::Shl, toE(a), exConst(k, w)), exBin(Op::LShr, toE(b), exConst(w - k, w))))); return;
            }
            case Intrinsic::uadd_with_overflow: fin(ov(Op::Add, Op::UAddOv)); return;
            case Intrinsic::usub_with_overflow: fin(ov(Op::Sub, Op::USubOv)); return;
            case Intrinsic::umul_with_overflow: fin(ov(Op::Mul, Op::UMulOv)); return;
            case Intrinsic::sadd_with_overflow: fin(ov(Op::Add, Op::SAddOv)); return;
            case Intrinsic::ssub_with_overflow: fin(ov(Op::Sub, Op::SSubOv)); return;
            case Intrinsic::smul_with_overflow: fin(ov(Op::Mul, Op::SMulOv)); return;
            case Intrinsic::trap: case Intrinsic::ubsantrap: throw Viol{"trap", "trap reached"};
            default: throw GiveUp{"intrinsic " + N.str()};
            }
        }
        if (N.starts_with("vp_")) { vpCall(s, in, N); return; }
        if (N == "__assert_fail")
            throw Viol{"assert", "assertion `" + constStr(s, arg(0)) + "` in " + constStr(s, arg(3))};
        if (N == "abort" || N == "_ZSt9terminatev" || N == "exit" || N == "_exit") throw Viol{"abort", "program terminated by " + N.str()};
        if (N == "__cxa_pure_virtual") throw Viol{"abort", "pure virtual call"};
        bool body = !F->isDeclaration();
        if (!body)
        {
            externals[N.str()]++;
            if (N == "_Znwm" || N == "_Znam" || N == "malloc" || N == "_ZnwmSt11align_val_t" || N == "_ZnamSt11align_val_t" || N == "_ZnwmRKSt9nothrow_t")
            {
                i64 n = i64(argc(0));
                if (n < 0 || n > (i64(1) << 40)) throw Viol{"alloc-size", "absurd allocation size"};
                int id = newObj(s, 1, n, siteOf(&CI));
                fin(mkPtr(id, 0));
                return;
            }
            if (N == "_ZdlPv" || N == "_ZdaPv" || N == "free" || N == "_ZdlPvSt11align_val_t" || N == "_ZdaPvSt11align_val_t") { freeObj(s, arg(0), -1, "delete"); ++f.ip; return; }
            if (N == "_ZdlPvm" || N == "_ZdaPvm" || N == "_ZdlPvmSt11align_val_t") { i64 n = i64(argc(1)); freeObj(s, arg(0), n, "delete"); ++f.ip; return; }
            if (N == "memcpy" || N == "memmove") { i64 n = i64(argc(2)); AV d = arg(0); copyMem(s, d, arg(1), n); fin(d); return; }
            if (N == "memset") { AV d = arg(0); doMemset(s, d, arg(1), i64(argc(2))); fin(d); return; }
            if (N == "memcmp" || N == "bcmp")
            {
                u64 n = argc(2);
                if (n > 64) throw GiveUp{"memcmp size"};
                ExP r = exConst(0, 32);
                std::vector<std::pair<ExP, ExP>> by;
                auto i8 = Type::getInt8Ty(ctx);
                for (u64 i = 0; i < n; ++i)
                {
                    AV a = load(s, addPtr(s, arg(0), mkInt(i, 64)), i8), b = load(s, addPtr(s, arg(1), mkInt(i, 64)), i8);
                    if (a.k != K::Int || b.k != K::Int) throw GiveUp{"memcmp operand"};
                    by.push_back({toE(a), toE(b)});
                }
                for (size_t i = by.size(); i-- > 0;)
                    r = exSel(exBin(Op::Eq, by[i].first, by[i].second), r, exSel(exBin(Op::Ult, by[i].first, by[i].second), exConst(~u64(0), 32), exConst(1, 32)));
                fin(mkE(r));
                return;
            }
            if (N == "strlen")
            {
                auto i8 = Type::getInt8Ty(ctx);
                for (u64 i = 0;; ++i)
                {
                    AV a = load(s, addPtr(s, arg(0), mkInt(i, 64)), i8);
                    if (a.k == K::Int && decide(s, exBin(Op::Eq, toE(a), exConst(0, 8)))) { fin(mkInt(i, 64)); return; }
                    if (i > 256) throw GiveUp{"strlen"};
                }
            }
            // unknown external: no effect on tracked memory assumed, result unknown
            mark(s, ("result of external function " + N.str()).c_str());
            if (CI.getType()->isVoidTy()) { ++f.ip; return; }
            if (CI.getType()->isIntegerTy()) { AV v = freshInt(s, w); fin(v); return; }
            throw GiveUp{"external function " + N.str()};
        }
        if (s.fr.size() >= s.depthCut) throw GiveUp{"call depth bound"};
        FnInfo* fi = compile(F);
        Frame nf;
        nf.f = fi; nf.call = &CI;
        for (unsigned i = 0; i < na && i < F->arg_size(); ++i)
        {
            AV v = arg(i);
            if (CI.isByValArgument(i))
            {
                auto ty = CI.getParamByValType(i);
                i64 n = i64(DL.getTypeAllocSize(ty));
                int id = newObj(s, 0, n, 0);
                copyMem(s, mkPtr(id, 0), v, n);
                nf.allocas.push_back(id);
                v = mkPtr(id, 0);
            }
            setv(nf, int(i), v);
        }
        prune(f, liveAfterCall(f.f, f.bb, &CI));
        s.fr.push_back(std::move(nf));
        (void)ret; (void)done;
    }
    void doMemset(State& s, AV d, const AV& v, i64 n)
    {
        if (n == 0) return;
        d = fixPtr(s, d, "memset");
        if (d.k != K::Ptr) throw Viol{"tape-write", "write to the input"};
        auto o = writeObj(s, d.obj);
        if (d.c < 0 || d.c + n > o->size) throw Viol{"heap-oob", "memset outside of an object"};
        if (d.c == 0 && n == o->size && v.isConst() && v.c == 0) { o->cells.clear(); o->fill = Fill::Zero; return; }
        for (i64 p = 0; p < n;)
        {
            i64 k = std::min<i64>(8, n - p);
            AV x;
            if (v.isConst()) { u64 r = 0; for (i64 i = 0; i < k; ++i) r |= (u64(v.c) & 0xff) << (8 * i); x = mkInt(r, unsigned(k) * 8); rawStore(o, d.c + p, k, x); p += k; }
            else { rawStore(o, d.c + p, 1, v); p += 1; }
        }
    }
    void vpCall(State& s, const Ins& in, StringRef N)
    {
        Frame& f = s.fr.back();
        auto arg = [&](unsigned i) -> const AV& { return getv(f, in.ops[i]); };
        auto fin = [&](AV v) { setv(f, in.dst, std::move(v)); ++f.ip; };
        auto argi = [&](unsigned i) -> i64 { const AV& v = arg(i); return sextw(concretize(s, v, 300, "argument"), v.w); };
        if (N == "vp_violation") throw Viol{constStr(s, arg(0)), constStr(s, arg(1))};
        if (N == "vp_note") { ++f.ip; return; }
        if (N == "vp_cover")
        {
            std::string n = constStr(s, arg(0));
            auto& x = coverHit[n];
            if (x == 0 || (x == 1 && !s.imprecise)) x = s.imprecise ? 1 : 2;
            ++f.ip; return;
        }
        if (N == "vp_cover_decl") { coverHit[constStr(s, arg(0))]; ++f.ip; return; }
        if (N == "vp_stop") throw PathEnd{};
        if (N == "vp_assume") { if (!decide(s, arg(0))) throw PathEnd{}; ++f.ip; return; }
        if (N == "vp_imprecise") { mark(s, "declared by the witness"); ++f.ip; return; }
        if (N == "vp_choice") { AV v = freshInt(s, 32, ST.range(0, argi(0) - 1)); fin(v); return; }
        if (N == "vp_any") { i64 w = argi(0); AV v = freshInt(s, unsigned(w)); fin(w == 64 ? v : mkE(exUn(Op::ZExt, toE(v), 64))); return; }
        if (N == "vp_any_range") { i64 lo = argi(0), hi = argi(1); AV v = freshInt(s, 64, ST.range(lo, hi)); fin(v); return; }
        if (N == "vp_concretize") { u64 v = concretize(s, arg(0), 2000, "vp_concretize"); fin(mkInt(v, 64)); return; }
        if (N == "vp_split") { AV v = arg(0); if (v.k == K::Int && v.e) { bool b = decide(s, v); v = mkInt(b, v.w); } fin(v); return; }
        if (N == "vp_tape")
        {
            if (s.tapeOn && s.unit == int(argi(0)) && !s.tape.empty() && s.absEnd == int(s.tape.size())) { fin(mkPos(s.tape[0].id)); return; } // the same input again
            s.tapeOn = true; s.unit = int(argi(0)); s.sentinel = i64(argi(1)); s.pad = argi(2) != 0;
            s.dom = ST.full(unsigned(s.unit) * 8);
            s.domE = ST.uni(s.dom, ST.one(-1));
            s.tape.clear(); s.absEnd = 0;
            extend(s);
            fin(mkPos(s.tape[0].id));
            return;
        }
        if (N == "vp_tape_domain")
        {
            s.dom = ST.range(argi(0), argi(1)); s.domE = ST.uni(s.dom, ST.one(-1));
            for (auto& e : s.tape) e.set = s.domE;
            ++f.ip; return;
        }
        if (N == "vp_tape_domain_add")
        {
            s.dom = ST.uni(s.dom, ST.range(argi(0), argi(1))); s.domE = ST.uni(s.dom, ST.one(-1));
            for (auto& e : s.tape) e.set = s.domE;
            ++f.ip; return;
        }
        if (N == "vp_tape_end") { fin(mkEnd()); return; }
        if (N == "vp_exact") { opt.lagAt = opt.widenAt = ~0u; ++f.ip; return; } // bounded input: keep all states apart
        if (N == "vp_retain") { s.K = int(argi(0)); ++f.ip; return; }
        if (N == "vp_maxlen")
        {
            s.maxlen = int(argi(0));
            if (s.maxlen == 0) for (auto& e : s.tape) e.set = ST.one(-1);
            ++f.ip; return;
        }
        if (N == "vp_depth") { s.depthCut = unsigned(argi(0)); ++f.ip; return; }
        if (N == "vp_pos") { AV v = arg(0); if (v.k == K::Pos) { int i = resolve(s, v); if (i < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"}; v = posAt(s, i, true); } fin(v); return; }
        if (N == "vp_is_input") { AV v = arg(0); fin(mkInt(v.k == K::Pos || v.k == K::End, 32)); return; }
        if (N == "vp_at_end") // 1 iff the position is the end
        {
            AV v = arg(0);
            if (v.k != K::Pos && v.k != K::End) throw Viol{"tape-past-end", "position is not inside the input"};
            fin(mkInt(v.k == K::End ? 1 : cmpPos(s, v, mkEnd()) == 0, 32)); return;
        }
        if (N == "vp_spec")
        {
            int slot = int(argi(0));
            AV fn = arg(1);
            if (fn.k != K::Fn) throw GiveUp{"spec function"};
            int i = resolve(s, arg(3));
            if (i != 0) throw GiveUp{"spec must start at the beginning of the retained input"};
            s.spec[slot] = fnList[size_t(fn.obj)];
            s.q[slot] = int(argi(2));
            ++f.ip; return;
        }
        if (N == "vp_spec_at")
        {
            int slot = int(argi(0));
            AV p = arg(1);
            int i;
            if (p.k == K::End)
            {
                // only if the end is known
                i = -1;
                for (size_t k = 0; k < s.tape.size(); ++k) if (s.tape[k].set == ST.one(-1)) i = int(k);
                if (i < 0) throw GiveUp{"spec at an unknown end"};
            }
            else i = resolve(s, p);
            if (i < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"};
            int q = specAt(s, slot, i);
            if (q == QLOST) { mark(s, "spec state lost"); AV v = freshInt(s, 32); fin(v); return; }
            fin(mkInt(u64(i64(q)), 32));
            return;
        }
        if (N == "vp_alloc") { i64 n = argi(0); int id = newObj(s, 1, n, siteOf(in.I)); fin(mkPtr(id, 0)); return; }
        if (N == "vp_free") { AV p = arg(0); i64 n = argi(1); freeObj(s, p, n, "deallocate"); ++f.ip; return; }
        if (N == "vp_heap_live") { int n = 0; for (auto& o : s.mem) n += o.second->kind == 1 && !o.second->freed; fin(mkInt(u64(n), 32)); return; }
        if (N == "vp_heap_track") { s.heapCheck = 1; ++f.ip; return; }
        if (N == "vp_same_object") { AV a = arg(0), b = arg(1); fin(mkInt(a.k == b.k && a.k == K::Ptr && a.obj == b.obj, 32)); return; }
        if (N == "vp_escape") { ++f.ip; return; }
        throw GiveUp{"unknown vp_ function " + N.str()};
    }
    std::map<std::string, int> coverHit; // 0 declared, 1 reached on an imprecise path, 2 reached
