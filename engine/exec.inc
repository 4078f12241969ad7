    //=== memory ===//
    Obj* findObj(State& s, int id)
    {
        auto it = std::lower_bound(s.mem.begin(), s.mem.end(), id, [](auto& p, int i) { return p.first < i; });
        if (it != s.mem.end() && it->first == id) return it->second.get();
        return nullptr;
    }
    Obj* ownObj(State& s, int id)
    {
        auto it = std::lower_bound(s.mem.begin(), s.mem.end(), id, [](auto& p, int i) { return p.first < i; });
        if (it != s.mem.end() && it->first == id)
        {
            if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
            return it->second.get();
        }
        if (id < 0)
        {
            auto G = glist[size_t(-id - 1)];
            auto o = std::make_shared<Obj>();
            o->kind = 2;
            o->size = i64(DL.getTypeAllocSize(G->getValueType()));
            o->konst = G->isConstant();
            o->fill = Fill::Init; o->init = G;
            s.mem.insert(it, {id, o});
            return o.get();
        }
        return nullptr;
    }
    bool heapPtr(State& s, const AV& a) { if (a.k != K::Ptr || a.obj <= 0) return false; auto o = findObj(s, a.obj); return o && o->kind == 1; }
    int newObj(State& s, int kind, i64 size, unsigned site)
    {
        auto o = std::make_shared<Obj>();
        o->kind = kind; o->size = size; o->site = site;
        int id = s.nextObj++;
        s.mem.push_back({id, o}); // ids increase, stays sorted (globals are negative)
        return id;
    }
    // Object for reading; temporary for untouched globals
    std::shared_ptr<Obj> tmpGlobal;
    std::map<int, ObjP> globalObjs;
    const Obj* readObj(State& s, int id)
    {
        if (id == 0) throw Viol{"null-deref", "access through a null pointer"};
        if (auto o = findObj(s, id)) { if (o->freed) throw Viol{"use-after-free", "access to released memory"}; return o; }
        if (id < 0)
        {
            auto& p = globalObjs[id];
            if (!p)
            {
                auto G = glist[size_t(-id - 1)];
                p = std::make_shared<Obj>();
                p->kind = 2; p->size = i64(DL.getTypeAllocSize(G->getValueType()));
                p->konst = G->isConstant(); p->fill = Fill::Init; p->init = G;
            }
            if (!p->konst) mutGlobals.insert(glist[size_t(-id - 1)]->getName().str());
            return p.get();
        }
        throw Viol{"use-after-scope", "access to an object that no longer exists"};
    }
    Obj* writeObj(State& s, int id)
    {
        if (id == 0) throw Viol{"null-deref", "write through a null pointer"};
        auto o = ownObj(s, id);
        if (!o) throw Viol{"use-after-scope", "write to an object that no longer exists"};
        if (o->freed) throw Viol{"use-after-free", "write to released memory"};
        if (o->konst) throw Viol{"const-write", "write to a constant"};
        if (id < 0) mutGlobals.insert(glist[size_t(-id - 1)]->getName().str());
        return o;
    }
    AV initLoad(const GlobalVariable* G, i64 off, Type* ty)
    {
        if (!G->hasInitializer()) throw GiveUp{"read of external global " + G->getName().str()};
        auto C = ConstantFoldLoadFromConst(const_cast<Constant*>(G->getInitializer()), ty, APInt(64, u64(off)), DL);
        if (!C) throw GiveUp{"unfoldable read of global " + G->getName().str()};
        return constAV(C);
    }
    AV zeroOf(Type* ty)
    {
        if (ty->isIntegerTy()) return mkInt(0, ty->getIntegerBitWidth());
        if (ty->isPointerTy()) return mkPtr(0, 0);
        return constAV(Constant::getNullValue(ty));
    }
    // bits [lo*8, lo*8+size*8) of an integer value as an integer
    AV slice(const AV& v, i64 lo, i64 size)
    {
        if (v.k == K::Undef) return v;
        if (v.k == K::Bundle)
        {
            AV r; r.k = K::Bundle;
            auto d = std::make_shared<AggD>();
            for (size_t i = 0; i < v.agg->v.size(); ++i)
            {
                i64 a = std::max<i64>(v.agg->pos[i].first, lo), b = std::min<i64>(v.agg->pos[i].first + v.agg->pos[i].second, lo + size);
                if (a >= b) continue;
                AV x = (a == v.agg->pos[i].first && b - a == v.agg->pos[i].second) ? v.agg->v[i] : slice(v.agg->v[i], a - v.agg->pos[i].first, b - a);
                if (a == lo && b - a == size) return x;
                d->v.push_back(x); d->pos.push_back({int(a - lo), int(b - a)});
            }
            r.agg = d;
            return r;
        }
        if (v.k != K::Int) { if (lo == 0 && size >= 8) return v; return AV(); }
        unsigned w = unsigned(size) * 8;
        if (lo == 0 && v.w <= w) return v;
        ExP e = toE(v);
        if (e->w < (lo + size) * 8) e = exUn(Op::ZExt, e, unsigned((lo + size) * 8));
        if (lo) e = exBin(Op::LShr, e, exConst(u64(lo) * 8, e->w));
        if (e->w > w) e = exUn(Op::Trunc, e, w);
        return mkE(e);
    }
    AV adapt(State&, const AV& v, Type* ty)
    {
        if (ty->isIntegerTy())
        {
            unsigned w = ty->getIntegerBitWidth();
            if (v.k == K::Int)
            {
                if (v.w == w) return v;
                if (v.w > w) return mkE(exUn(Op::Trunc, toE(v), w));
                return mkE(exUn(Op::ZExt, toE(v), w));
            }
            if (v.k == K::Ptr && v.obj == 0 && !v.e && w == 64) return mkInt(u64(v.c), 64);
            return v;
        }
        if (ty->isPointerTy() && v.isConst()) return mkPtr(0, v.c);
        return v;
    }
    AV loadMem(State& s, const Obj* o, i64 off, Type* ty)
    {
        i64 size = i64(DL.getTypeStoreSize(ty).getFixedValue());
        if (off < 0 || off + size > o->size) throw Viol{"heap-oob", "read outside of an object (offset " + std::to_string(off) + ", size " + std::to_string(size) + ", object " + std::to_string(o->size) + ")"};
        if (ty->isStructTy() || ty->isArrayTy())
        {
            auto d = std::make_shared<AggD>();
            if (auto st = dyn_cast<StructType>(ty))
            {
                auto L = DL.getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) d->v.push_back(loadMem(s, o, off + i64(L->getElementOffset(i).getFixedValue()), st->getElementType(i)));
            }
            else
            {
                auto at = cast<ArrayType>(ty);
                i64 es = i64(DL.getTypeAllocSize(at->getElementType()));
                for (u64 i = 0; i < at->getNumElements(); ++i) d->v.push_back(loadMem(s, o, off + i64(i) * es, at->getElementType()));
            }
            AV a; a.k = K::Agg; a.agg = d; return a;
        }
        auto it = std::lower_bound(o->cells.begin(), o->cells.end(), off, [](const Cell& c, i64 x) { return c.off + c.size <= x; });
        if (it != o->cells.end() && it->off == off && it->size == size) return adapt(s, it->v, ty);
        bool any = it != o->cells.end() && it->off < off + size;
        if (!any)
        {
            if (o->fill == Fill::Zero) return zeroOf(ty);
            if (o->fill == Fill::Init) return initLoad(o->init, off, ty);
            return AV();
        }
        if (it->off <= off && it->off + it->size >= off + size) return adapt(s, slice(it->v, off - it->off, size), ty);
        auto d = std::make_shared<AggD>();
        bool ints = true;
        i64 p = off;
        auto fillTo = [&](i64 to) {
            if (p >= to) return;
            AV f;
            if (o->fill == Fill::Zero) f = mkInt(0, unsigned(to - p) * 8);
            else if (o->fill == Fill::Init) { f = initLoad(o->init, p, Type::getIntNTy(ctx, unsigned(to - p) * 8)); }
            if (f.k != K::Int) ints = false;
            d->v.push_back(f); d->pos.push_back({int(p - off), int(to - p)});
            p = to;
        };
        for (; it != o->cells.end() && it->off < off + size; ++it)
        {
            i64 a = std::max(it->off, off), b = std::min(it->off + it->size, off + size);
            fillTo(a);
            AV v = slice(it->v, a - it->off, b - a);
            if (v.k != K::Int) ints = false;
            d->v.push_back(v); d->pos.push_back({int(a - off), int(b - a)});
            p = b;
        }
        fillTo(off + size);
        AV r; r.k = K::Bundle; r.agg = d;
        if (ints && size <= 8) return adapt(s, compose(r, unsigned(size) * 8), ty);
        return r;
    }
    // bundle -> integer (uninitialised parts read as 0)
    AV compose(const AV& b, unsigned w)
    {
        ExP r = exConst(0, w);
        for (size_t i = 0; i < b.agg->v.size(); ++i)
        {
            const AV& x = b.agg->v[i];
            if (x.k == K::Undef) continue;
            if (x.k != K::Int) throw GiveUp{"arithmetic on a mixed memory word"};
            ExP e = toE(x);
            e = e->w < w ? exUn(Op::ZExt, e, w) : e->w > w ? exUn(Op::Trunc, e, w) : e;
            if (b.agg->pos[i].first) e = exBin(Op::Shl, e, exConst(u64(b.agg->pos[i].first) * 8, w));
            r = exBin(Op::Or, r, e);
        }
        return mkE(r);
    }
    void clearRange(Obj* o, i64 off, i64 size)
    {
        std::vector<Cell> add;
        auto& C = o->cells;
        for (size_t i = 0; i < C.size();)
        {
            auto& c = C[i];
            if (c.off + c.size <= off) { ++i; continue; }
            if (c.off >= off + size) break;
            if (c.off < off) add.push_back({c.off, off - c.off, slice(c.v, 0, off - c.off)});
            if (c.off + c.size > off + size) add.push_back({off + size, c.off + c.size - off - size, slice(c.v, off + size - c.off, c.off + c.size - off - size)});
            C.erase(C.begin() + long(i));
        }
        for (auto& c : add) insertCell(o, c);
    }
    void insertCell(Obj* o, Cell c)
    {
        auto it = std::lower_bound(o->cells.begin(), o->cells.end(), c.off, [](const Cell& x, i64 y) { return x.off < y; });
        o->cells.insert(it, std::move(c));
    }
    void rawStore(Obj* o, i64 off, i64 size, const AV& v)
    {
        auto it = std::lower_bound(o->cells.begin(), o->cells.end(), off, [](const Cell& c, i64 x) { return c.off + c.size <= x; });
        if (it != o->cells.end() && it->off == off && it->size == size) { it->v = v; return; }
        clearRange(o, off, size);
        if (v.k == K::Undef && o->fill == Fill::Undef) return;
        insertCell(o, {off, size, v});
    }
    void storeMem(State& s, Obj* o, i64 off, Type* ty, const AV& v)
    {
        i64 size = i64(DL.getTypeStoreSize(ty).getFixedValue());
        if (off < 0 || off + size > o->size) throw Viol{"heap-oob", "write outside of an object (offset " + std::to_string(off) + ", size " + std::to_string(size) + ", object " + std::to_string(o->size) + ")"};
        if (v.k == K::Agg)
        {
            if (auto st = dyn_cast<StructType>(ty))
            {
                auto L = DL.getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) storeMem(s, o, off + i64(L->getElementOffset(i).getFixedValue()), st->getElementType(i), v.agg->v[i]);
            }
            else
            {
                auto at = cast<ArrayType>(ty);
                i64 es = i64(DL.getTypeAllocSize(at->getElementType()));
                for (u64 i = 0; i < at->getNumElements(); ++i) storeMem(s, o, off + i64(i) * es, at->getElementType(), v.agg->v[i]);
            }
            return;
        }
        if (v.k == K::Bundle)
        {
            for (size_t i = 0; i < v.agg->v.size(); ++i) rawStore(o, off + v.agg->pos[i].first, v.agg->pos[i].second, v.agg->v[i]);
            return;
        }
        rawStore(o, off, size, v);
    }
    // make a pointer's offset constant
    AV fixPtr(State& s, AV p, const char* what)
    {
        if (p.k == K::Undef) throw Viol{"undef", "access through an uninitialised pointer"};
        if (p.k == K::Int) { if (p.isConst()) return mkPtr(0, p.c); throw GiveUp{"access through an integer"}; }
        if (p.k == K::Bundle) throw GiveUp{"access through a mixed word"};
        if (p.k != K::Ptr) return p;
        if (p.e) { AV o; o.k = K::Int; o.w = 64; o.e = p.e; p.c = i64(concretize(s, o, 300, what)); p.e = nullptr; }
        return p;
    }
    TableData* table(const GlobalVariable* G)
    {
        auto& t = tables[G];
        if (t) return t->bytes.empty() ? nullptr : t;
        t = new TableData;
        t->name = G->getName().str();
        u64 n = DL.getTypeAllocSize(G->getValueType());
        if (!G->isConstant() || !G->hasInitializer() || n > (1u << 20)) return nullptr;
        std::vector<uint8_t> b(n);
        if (!flat(G->getInitializer(), b, 0)) return nullptr;
        t->bytes = b;
        return t->bytes.empty() ? nullptr : t;
    }
    bool flat(const Constant* C, std::vector<uint8_t>& b, u64 off)
    {
        if (C->isNullValue() || isa<UndefValue>(C)) return !(C->getType()->isPointerTy());
        if (auto ci = dyn_cast<ConstantInt>(C))
        {
            unsigned n = (ci->getBitWidth() + 7) / 8;
            if (n > 8) return false;
            for (unsigned i = 0; i < n; ++i) b[off + i] = uint8_t(ci->getZExtValue() >> (8 * i));
            return true;
        }
        if (auto cd = dyn_cast<ConstantDataSequential>(C))
        {
            if (!cd->getElementType()->isIntegerTy()) return false;
            u64 es = cd->getElementByteSize();
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
                for (u64 k = 0; k < es; ++k) b[off + i * es + k] = uint8_t(cd->getElementAsInteger(i) >> (8 * k));
            return true;
        }
        if (auto st = dyn_cast<StructType>(C->getType()))
        {
            auto L = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) if (!flat(C->getAggregateElement(i), b, off + L->getElementOffset(i).getFixedValue())) return false;
            return true;
        }
        if (auto at = dyn_cast<ArrayType>(C->getType()))
        {
            u64 es = DL.getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); ++i) if (!flat(C->getAggregateElement(unsigned(i)), b, off + i * es)) return false;
            return true;
        }
        return false;
    }
    AV load(State& s, AV p, Type* ty)
    {
        i64 size = i64(DL.getTypeStoreSize(ty).getFixedValue());
        if (p.k == K::Pos || p.k == K::End)
        {
            AV v = loadTape(s, p, unsigned(size));
            return adapt(s, v, ty);
        }
        if (p.k == K::Ptr && p.e && p.obj < 0 && ty->isIntegerTy())
        {
            auto G = glist[size_t(-p.obj - 1)];
            if (!findObj(s, p.obj))
                if (auto t = table(G))
                {
                    AB r = rangeOf(p.e, [&](i64 l) { return setOf(s, l); });
                    if (r.hi + u64(size) > t->bytes.size())
                    {
                        if (!decide(s, exBin(Op::Ule, p.e, exConst(t->bytes.size() - u64(size), 64))))
                            throw Viol{"table-oob", "read outside of constant table " + t->name};
                    }
                    ExP x = mkEx(Op::Table, unsigned(size) * 8, 0, t, p.e);
                    return adapt(s, mkE(x), ty);
                }
        }
        p = fixPtr(s, p, "address");
        if (p.k == K::Fn) throw GiveUp{"read of code"};
        auto o = readObj(s, p.obj);
        return loadMem(s, o, p.c, ty);
    }
    void store(State& s, AV p, Type* ty, const AV& v)
    {
        if (p.k == K::Pos || p.k == K::End) throw Viol{"tape-write", "write to the input"};
        p = fixPtr(s, p, "address");
        auto o = writeObj(s, p.obj);
        storeMem(s, o, p.c, ty, v);
    }
    void copyMem(State& s, AV d, AV src, i64 n)
    {
        if (n == 0) return;
        d = fixPtr(s, d, "memcpy destination");
        if (d.k != K::Ptr) throw Viol{"tape-write", "write to the input"};
        std::vector<Cell> tmp;
        if (src.k == K::Pos || src.k == K::End)
        {
            if (n % s.unit) throw GiveUp{"partial code unit copy"};
            for (i64 k = 0; k < n / s.unit; ++k)
            {
                AV p = src; p.c += k * s.unit;
                tmp.push_back({k * s.unit, s.unit, loadTape(s, p, unsigned(s.unit))});
            }
        }
        else
        {
            src = fixPtr(s, src, "memcpy source");
            auto o = readObj(s, src.obj);
            if (src.c < 0 || src.c + n > o->size) throw Viol{"heap-oob", "copy reads outside of an object (offset " + std::to_string(src.c) + ", size " + std::to_string(n) + ", object " + std::to_string(o->size) + ")"};
            i64 p = 0;
            auto fillTo = [&](i64 to) {
                while (p < to)
                {
                    i64 k = std::min<i64>(8, to - p);
                    AV v;
                    if (o->fill == Fill::Zero) v = mkInt(0, unsigned(k) * 8);
                    else if (o->fill == Fill::Init)
                    {
                        v = initLoad(o->init, src.c + p, Type::getIntNTy(ctx, unsigned(k) * 8));
                        if (v.k == K::Undef && k == 8) v = initLoad(o->init, src.c + p, PointerType::get(ctx, 0));
                    }
                    tmp.push_back({p, k, v});
                    p += k;
                }
            };
            for (auto& c : o->cells)
            {
                i64 a = std::max(c.off, src.c), b = std::min(c.off + c.size, src.c + n);
                if (a >= b) continue;
                fillTo(a - src.c);
                AV v = (a == c.off && b - a == c.size) ? c.v : slice(c.v, a - c.off, b - a);
                tmp.push_back({a - src.c, b - a, v});
                p = b - src.c;
            }
            if (o->fill == Fill::Undef && p < n) { tmp.push_back({p, n - p, AV()}); p = n; }
            fillTo(n);
        }
        auto o = writeObj(s, d.obj);
        if (d.c < 0 || d.c + n > o->size) throw Viol{"heap-oob", "copy writes outside of an object (offset " + std::to_string(d.c) + ", size " + std::to_string(n) + ", object " + std::to_string(o->size) + ")"};
        for (auto& c : tmp) rawStore(o, d.c + c.off, c.size, c.v);
    }

    //=== integer operations ===//
    static AV asInt(const AV& v) { if (v.k == K::Ptr && v.obj == 0 && !v.e) return mkInt(u64(v.c), 64); return v; }
    AV binop(State& s, Op op, AV a, AV b, unsigned w)
    {
        a = asInt(a); b = asInt(b);
        if (a.k == K::Undef || b.k == K::Undef)
        {
            // and/mul with zero etc. stay defined
            if (op == Op::And && ((a.isConst() && a.c == 0) || (b.isConst() && b.c == 0))) return mkInt(0, w);
            return AV();
        }
        if (a.k == K::Bundle) a = compose(a, w);
        if (b.k == K::Bundle) b = compose(b, w);
        if (a.k == K::Dist || b.k == K::Dist)
        {
            if (a.k == K::Dist && b.isConst())
            {
                u64 v = u64(b.c);
                if (op == Op::LShr || op == Op::AShr) { a.w = uint8_t(a.w + v); return a; }
                if ((op == Op::SDiv || op == Op::UDiv) && v && !(v & (v - 1))) { a.w = uint8_t(a.w + __builtin_ctzll(v)); return a; }
                if (op == Op::Shl && v <= a.w) { a.w = uint8_t(a.w - v); return a; }
                if (op == Op::Mul && v && !(v & (v - 1)) && unsigned(__builtin_ctzll(v)) <= a.w) { a.w = uint8_t(a.w - __builtin_ctzll(v)); return a; }
            }
            if (a.k == K::Dist && op == Op::Add && (b.k == K::Pos)) return addPtr(s, b, a);
            if (b.k == K::Dist && op == Op::Add && (a.k == K::Pos)) return addPtr(s, a, b);
            if (a.k == K::Dist) a = distInt(s, a);
            if (b.k == K::Dist) b = distInt(s, b);
        }
        if (a.k == K::Int && b.k == K::Int)
        {
            if (!a.e && !b.e)
            {
                if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && b.c == 0) throw Viol{"div-zero", "division by zero"};
                return mkInt(evalOp(op, w, w, u64(a.c), u64(b.c), 0, nullptr), w);
            }
            if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && b.e && decide(s, exBin(Op::Eq, b.e, exConst(0, w)))) throw Viol{"div-zero", "division by zero"};
            return mkE(exBin(op, toE(a), toE(b)));
        }
        // address arithmetic
        bool ap = a.k == K::Pos || a.k == K::End, bp = b.k == K::Pos || b.k == K::End;
        if (op == Op::Sub && ap && bp) return diffPos(s, a, b);
        if (op == Op::Sub && a.k == K::Ptr && b.k == K::Ptr && a.obj == b.obj)
        {
            ExP x = a.e ? a.e : exConst(u64(a.c), 64), y = b.e ? b.e : exConst(u64(b.c), 64);
            return mkE(exBin(Op::Sub, x, y));
        }
        if (b.k == K::Int && (op == Op::Add || op == Op::Sub))
        {
            AV d = op == Op::Sub ? mkE(exBin(Op::Sub, exConst(0, b.w), toE(b))) : b;
            return addPtr(s, a, d);
        }
        if (a.k == K::Int && op == Op::Add) return addPtr(s, b, a);
        if (a.k == K::Ptr && a.obj && !a.e && b.isConst())
        {
            u64 m = u64(b.c);
            if (op == Op::And)
            {
                if (m < 16) return mkInt(u64(a.c) & m, w);
                if ((~m) < 16) { AV r = a; r.c = i64(u64(a.c) & m); return r; }
            }
            if ((op == Op::Or) && m < 16) { AV r = a; r.c = i64(u64(a.c) | m); return r; }
            if ((op == Op::Xor) && m < 16) { AV r = a; r.c = i64(u64(a.c) ^ m); return r; }
        }
        if (b.k == K::Ptr && b.obj && a.isConst() && (op == Op::And || op == Op::Or || op == Op::Xor)) return binop(s, op, b, a, w);
        throw GiveUp{"arithmetic on an address (" + std::to_string(int(op)) + (b.isConst() ? "," + std::to_string(b.c) : std::string()) + ")"};
    }
    // remaining length as an integer: constant if the end is known, otherwise unknown
    AV distInt(State& s, const AV& d)
    {
        AV r = diffPos(s, mkEnd(), mkPos(d.obj, d.c));
        if (r.k == K::Dist)
        {
            int i = tidx(s, d.obj), n = 0;
            for (; i >= 0 && i < int(s.tape.size()) && !s.tape[size_t(i)].set->contains(-1); ++i) ++n;
            mark(s, "unknown remaining length");
            r = freshInt(s, 64, ST.range(n * s.unit, i128(1) << 40));
        }
        if (d.w) r = mkE(exBin(Op::LShr, toE(r), exConst(d.w, 64)));
        return r;
    }
    AV addPtr(State& s, AV p, const AV& d0)
    {
        AV d = d0;
        if (d.k == K::Dist)
        {
            if (p.k == K::Pos && p.obj == d.obj && p.c == d.c && d.w == 0) return mkEnd();
            if (p.k == K::Pos && d.w == 0 && p.c == 0 && d.c == 0)
            {
                int i = tidx(s, p.obj), j = tidx(s, d.obj);
                bool gap = i < 0 || j < 0;
                for (int k = std::min(i, j); !gap && k < std::max(i, j); ++k) gap |= s.tape[size_t(k)].gap;
                if (!gap) return mkEnd(i64(i - j) * s.unit);
            }
            d = distInt(s, d);
        }
        if (p.k == K::Undef || d.k == K::Undef) return AV();
        if (d.k != K::Int) throw GiveUp{"address plus non-integer"};
        if (p.k == K::Int) { if (p.isConst()) p = mkPtr(0, p.c); else throw GiveUp{"address arithmetic on an integer"}; }
        if (p.k == K::Pos || p.k == K::End)
        {
            i64 k = sextw(d.e ? concretize(s, d, 64, "input offset") : u64(d.c), d.w);
            p.c += k;
            return normPos(s, p);
        }
        if (p.k != K::Ptr) throw GiveUp{"address arithmetic"};
        if (!d.e && !p.e) { p.c += sextw(u64(d.c), d.w); return p; }
        ExP x = p.e ? p.e : exConst(u64(p.c), 64), y = toE(d);
        if (y->w < 64) y = exUn(Op::SExt, y, 64);
        ExP r = exBin(Op::Add, x, y);
        if (isC(r)) { p.e = nullptr; p.c = i64(r->c); }
        else { p.e = r; p.c = 0; }
        return p;
    }
    AV icmp(State& s, CmpInst::Predicate P, AV a, AV b)
    {
        a = asInt(a); b = asInt(b);
        if (a.k == K::Bundle && b.k == K::Int) a = compose(a, b.w);
        if (b.k == K::Bundle && a.k == K::Int) b = compose(b, a.w);
        if (a.k == K::Undef || b.k == K::Undef) return AV();
        if (a.k == K::Dist && b.isConst() && b.c == 0 && (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE || P == CmpInst::ICMP_UGT))
        {
            bool z = cmpPos(s, mkPos(a.obj, a.c), mkEnd()) == 0;
            return mkInt(P == CmpInst::ICMP_EQ ? z : !z, 1);
        }
        if (a.k == K::Dist && b.k == K::Dist && a.obj == b.obj && a.c == b.c && a.w == b.w) return mkInt(P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_UGE, 1);
        if (a.k == K::Dist) a = distInt(s, a);
        if (b.k == K::Dist) b = distInt(s, b);
        if (a.k == K::Int && b.k == K::Int)
        {
            ExP x = toE(a), y = toE(b);
            switch (P)
            {
            case CmpInst::ICMP_EQ: return mkE(exBin(Op::Eq, x, y));
            case CmpInst::ICMP_NE: return mkE(exBin(Op::Ne, x, y));
            case CmpInst::ICMP_ULT: return mkE(exBin(Op::Ult, x, y));
            case CmpInst::ICMP_ULE: return mkE(exBin(Op::Ule, x, y));
            case CmpInst::ICMP_UGT: return mkE(exBin(Op::Ult, y, x));
            case CmpInst::ICMP_UGE: return mkE(exBin(Op::Ule, y, x));
            case CmpInst::ICMP_SLT: return mkE(exBin(Op::Slt, x, y));
            case CmpInst::ICMP_SLE: return mkE(exBin(Op::Sle, x, y));
            case CmpInst::ICMP_SGT: return mkE(exBin(Op::Slt, y, x));
            case CmpInst::ICMP_SGE: return mkE(exBin(Op::Sle, y, x));
            default: throw GiveUp{"icmp"};
            }
        }
        int c; // -1,0,1, 2 = incomparable (different)
        bool ap = a.k == K::Pos || a.k == K::End, bp = b.k == K::Pos || b.k == K::End;
        if (ap && bp) c = cmpPos(s, a, b);
        else if (a.k == K::Ptr && b.k == K::Ptr && a.obj == b.obj)
        {
            AV x = mkInt(u64(a.c), 64), y = mkInt(u64(b.c), 64);
            if (a.e) x = mkE(a.e);
            if (b.e) y = mkE(b.e);
            if (CmpInst::isSigned(P)) P = ICmpInst::getSignedPredicate(P);
            return icmp(s, P, x, y);
        }
        else if (a.k == K::Fn && b.k == K::Fn) c = a.obj == b.obj ? 0 : 2;
        else if (a.k == K::Ptr && b.isConst() && a.obj && !a.e && u64(b.c) < 4096) c = 1;
        else if (b.k == K::Ptr && a.isConst() && b.obj && !b.e && u64(a.c) < 4096) c = -1;
        else if (heapPtr(s, a) && heapPtr(s, b) && P != CmpInst::ICMP_EQ && P != CmpInst::ICMP_NE) c = a.obj < b.obj ? -1 : 1; // blocks lie in the order of their allocation
        else c = 2;
        bool r;
        switch (P)
        {
        case CmpInst::ICMP_EQ: r = c == 0; break;
        case CmpInst::ICMP_NE: r = c != 0; break;
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = c == -1; break;
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = c == -1 || c == 0; break;
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = c == 1; break;
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = c == 1 || c == 0; break;
        default: throw GiveUp{"icmp"};
        }
        if (c == 2 && P != CmpInst::ICMP_EQ && P != CmpInst::ICMP_NE) throw GiveUp{"ordering of unrelated addresses"};
        return mkInt(r, 1);
    }

    //=== one step ===//
    const Ins& cur(State& s) { auto& f = s.fr.back(); return f.f->bbs[size_t(f.bb)].ins[size_t(f.ip)]; }
    void jump(State& s, const BasicBlock* to)
    {
        auto& f = s.fr.back();
        auto from = f.f->bbs[size_t(f.bb)].bb;
        int  t    = f.f->bbno[to];
        auto& tb  = f.f->bbs[size_t(t)];
        if (!tb.phis.empty())
        {
            std::vector<AV> vals;
            for (auto p : tb.phis) vals.push_back(getv(f, opnd(f.f, p->getIncomingValueForBlock(from))));
            for (size_t i = 0; i < vals.size(); ++i) setv(f, tb.phiDst[i], vals[i]);
        }
        f.bb = t; f.ip = 0; f.fresh = true;
    }
    void doReturn(State& s, const AV& v, AV* ret, bool* done)
    {
        Frame f = std::move(s.fr.back());
        s.fr.pop_back();
        for (int id : f.allocas)
        {
            auto it = std::lower_bound(s.mem.begin(), s.mem.end(), id, [](auto& p, int i) { return p.first < i; });
            if (it != s.mem.end() && it->first == id) s.mem.erase(it);
        }
        if (s.fr.empty()) { if (ret) *ret = v; *done = true; return; }
        auto& c = s.fr.back();
        auto& in = c.f->bbs[size_t(c.bb)].ins[size_t(c.ip)];
        if (in.dst >= 0) setv(c, in.dst, v);
        ++c.ip;
    }
    // executes one instruction; may throw Fork (then the instruction is re-executed in every alternative)
    void step(State& s, AV* ret, bool* done)
    {
        Frame& f = s.fr.back();
        const Ins& in = f.f->bbs[size_t(f.bb)].ins[size_t(f.ip)];
        const Instruction& I = *in.I;
        ++nInst;
        if ((nInst & 0xffff) == 0) { auto t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (t > opt.maxTime) throw GiveUp{"time limit"}; }
        seenIns[&I] = 1;
        auto op = [&](unsigned i) -> const AV& { return getv(f, in.ops[i]); };
        auto fin = [&](AV v) { setv(f, in.dst, std::move(v)); ++f.ip; };
        unsigned w = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 64;
        if (I.getType()->isIntegerTy() && w > 64) throw GiveUp{"wide integer"};
        switch (in.opc)
        {
        case Instruction::Add: fin(binop(s, Op::Add, op(0), op(1), w)); break;
        case Instruction::Sub: fin(binop(s, Op::Sub, op(0), op(1), w)); break;
        case Instruction::Mul: fin(binop(s, Op::Mul, op(0), op(1), w)); break;
        case Instruction::UDiv: fin(binop(s, Op::UDiv, op(0), op(1), w)); break;
        case Instruction::SDiv: fin(binop(s, Op::SDiv, op(0), op(1), w)); break;
        case Instruction::URem: fin(binop(s, Op::URem, op(0), op(1), w)); break;
        case Instruction::SRem: fin(binop(s, Op::SRem, op(0), op(1), w)); break;
        case Instruction::And: fin(binop(s, Op::And, op(0), op(1), w)); break;
        case Instruction::Or: fin(binop(s, Op::Or, op(0), op(1), w)); break;
        case Instruction::Xor: fin(binop(s, Op::Xor, op(0), op(1), w)); break;
        case Instruction::Shl: fin(binop(s, Op::Shl, op(0), op(1), w)); break;
        case Instruction::LShr: fin(binop(s, Op::LShr, op(0), op(1), w)); break;
        case Instruction::AShr: fin(binop(s, Op::AShr, op(0), op(1), w)); break;
        case Instruction::ICmp:
        {
            if (I.getOperand(0)->getType()->isIntegerTy() && I.getOperand(0)->getType()->getIntegerBitWidth() > 64) throw GiveUp{"wide integer"};
            fin(icmp(s, cast<ICmpInst>(I).getPredicate(), op(0), op(1)));
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        {
            AV v = asInt(op(0));
            if (v.k == K::Bundle) v = slice(v, 0, (w + 7) / 8);
            if (v.k == K::Bundle) v = compose(v, w);
            if (v.k == K::Ptr && in.opc == Instruction::Trunc && !v.e && w <= 4) v = mkInt(u64(v.c), w);
            if (v.k == K::Ptr && in.opc == Instruction::Trunc && !v.e && v.obj && w >= 8) v = mkInt(u64(v.c), w); // only the tag bits matter: objects are taken to start at multiples of 2^w
            if (v.k == K::Int)
            {
                if (v.w == w) fin(v);
                else fin(mkE(exUn(in.opc == Instruction::ZExt ? Op::ZExt : in.opc == Instruction::SExt ? Op::SExt : Op::Trunc, toE(v), w)));
            }
            else if (v.k == K::Undef) fin(v);
            else throw GiveUp{"conversion of an address"};
            break;
        }
        case Instruction::PtrToInt: { AV v = op(0); if (v.k == K::Ptr && v.obj == 0 && !v.e) v = mkInt(u64(v.c), w); fin(v); break; }
        case Instruction::IntToPtr: { AV v = op(0); if (v.isConst()) v = mkPtr(0, v.c); fin(v); break; }
        case Instruction::BitCast: case Instruction::Freeze: fin(op(0)); break;
        case Instruction::Select:
        {
            const AV& c = op(0);
            const AV &a = op(1), &b = op(2);
            if (c.isConst()) { fin(c.c ? a : b); break; }
            if (c.k == K::Int && a.k == K::Int && b.k == K::Int) { fin(mkE(exSel(c.e, toE(a), toE(b)))); break; }
            if (c.k == K::Undef && in.dst >= 0) { fin(AV()); break; }
            bool t = decide(s, c);
            fin(t ? a : b);
            break;
        }
        case Instruction::GetElementPtr:
        {
            auto& G = cast<GEPOperator>(I);
            AV p = op(0);
            APInt off(64, 0);
            if (G.accumulateConstantOffset(DL, off)) { fin(addPtr(s, p, mkInt(off.getZExtValue(), 64))); break; }
            unsigned i = 1;
            for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti, ++i)
            {
                const AV& ix = op(i);
                if (auto st = gti.getStructTypeOrNull())
                {
                    p = addPtr(s, p, mkInt(DL.getStructLayout(st)->getElementOffset(unsigned(ix.c)).getFixedValue(), 64));
                    continue;
                }
                u64 es = DL.getTypeAllocSize(gti.getIndexedType());
                if (ix.k == K::Undef) { p = AV(); break; }
                if (ix.k == K::Dist) { p = addPtr(s, p, binop(s, Op::Mul, ix, mkInt(es, 64), 64)); continue; }
                if (ix.k != K::Int)
                {
                    // base+index swapped by the optimiser: null-based arithmetic
                    if (p.k == K::Ptr && p.obj == 0 && !p.e && p.c == 0 && es == 1) { p = ix; continue; }
                    throw GiveUp{"index is an address"};
                }
                if (!ix.e) p = addPtr(s, p, mkInt(u64(sextw(u64(ix.c), ix.w)) * es, 64));
                else
                {
                    ExP y = toE(ix);
                    if (y->w < 64) y = exUn(Op::SExt, y, 64);
                    y = exBin(Op::Mul, y, exConst(es, 64));
                    p = addPtr(s, p, mkE(y));
                }
            }
            fin(p);
            break;
        }
        case Instruction::Alloca:
        {
            auto& A = cast<AllocaInst>(I);
            u64 n = 1;
            if (A.isArrayAllocation()) n = concretize(s, op(0), 8, "alloca size");
            int id = newObj(s, 0, i64(n * DL.getTypeAllocSize(A.getAllocatedType())), 0);
            s.fr.back().allocas.push_back(id);
            setv(s.fr.back(), in.dst, mkPtr(id, 0));
            ++s.fr.back().ip;
            break;
        }
        case Instruction::Load:
        {
            if (!I.getType()->isIntegerTy() && !I.getType()->isPointerTy() && !I.getType()->isAggregateType()) throw GiveUp{"load type"};
            AV v = load(s, op(0), I.getType());
            fin(v);
            break;
        }
        case Instruction::Store:
        {
            AV v = op(0);
            store(s, op(1), I.getOperand(0)->getType(), v);
            ++f.ip;
            break;
        }
        case Instruction::ExtractValue:
        {
            AV v = op(0);
            for (unsigned i : cast<ExtractValueInst>(I).indices())
            {
                if (v.k == K::Undef) break;
                if (v.k != K::Agg) throw GiveUp{"extractvalue"};
                AV x = v.agg->v[i];
                v = x;
            }
            fin(v);
            break;
        }
        case Instruction::InsertValue:
        {
            auto& IV = cast<InsertValueInst>(I);
            AV a = op(0);
            if (a.k == K::Undef) a = constAV(UndefValue::get(I.getType()));
            if (a.k != K::Agg) throw GiveUp{"insertvalue"};
            std::function<AV(const AV&, unsigned)> ins = [&](const AV& x, unsigned d) -> AV {
                if (d == IV.getNumIndices()) return op(1);
                auto n = std::make_shared<AggD>(*x.agg);
                n->v[IV.getIndices()[d]] = ins(x.agg->v[IV.getIndices()[d]], d + 1);
                AV r; r.k = K::Agg; r.agg = n; return r;
            };
            fin(ins(a, 0));
            break;
        }
        case Instruction::Br:
        {
            auto& B = cast<BranchInst>(I);
            if (B.isUnconditional()) { jump(s, B.getSuccessor(0)); break; }
            jump(s, B.getSuccessor(decide(s, op(0)) ? 0 : 1));
            break;
        }
        case Instruction::Switch:
        {
            auto& S = cast<SwitchInst>(I);
            const AV& v = op(0);
            if (v.k == K::Undef) throw Viol{"undef", "decision depends on an uninitialised value"};
            if (v.k != K::Int) throw GiveUp{"switch on an address"};
            if (!v.e)
            {
                for (auto& c : S.cases()) if (c.getCaseValue()->getZExtValue() == u64(v.c)) { jump(s, c.getCaseSuccessor()); return; }
                jump(s, S.getDefaultDest());
                break;
            }
            // group the cases by successor (those of the default destination need no test)
            std::vector<std::pair<const BasicBlock*, ExP>> groups;
            for (auto& c : S.cases())
            {
                ExP e = exBin(Op::Eq, v.e, exConst(c.getCaseValue()->getZExtValue(), v.e->w));
                bool f2 = false;
                for (auto& g : groups) if (g.first == c.getCaseSuccessor()) { g.second = exBin(Op::Or, g.second, e); f2 = true; }
                if (!f2) groups.push_back({c.getCaseSuccessor(), e});
            }
            for (auto& g : groups)
            {
                // phis that distinguish the cases see the value through the case constants: same block, same operand
                if (decide(s, g.second)) { jump(s, g.first); return; }
            }
            jump(s, S.getDefaultDest());
            break;
        }
        case Instruction::Ret:
            doReturn(s, I.getNumOperands() ? op(0) : AV(), ret, done);
            break;
        case Instruction::Unreachable: throw Viol{"unreachable", "code declared unreachable is reached"};
        case Instruction::Call: doCall(s, in, ret, done); break;
        default: throw GiveUp{std::string("unsupported instruction ") + I.getOpcodeName()};
        }
    }
    std::string constStr(State& s, const AV& p)
    {
        (void)s;
        if (p.k != K::Ptr || p.obj >= 0 || p.e) return "?";
        auto G = glist[size_t(-p.obj - 1)];
        if (!G->hasInitializer()) return "?";
        if (auto cd = dyn_cast<ConstantDataSequential>(G->getInitializer()))
            if (cd->isString()) { auto r = cd->getAsString().drop_front(size_t(p.c)); return r.substr(0, r.find('\0')).str(); }
        if (G->getInitializer()->isNullValue()) return "";
        return "?";
    }
#include "calls.inc"
