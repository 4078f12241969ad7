// lxai: path-sensitive abstract interpretation of LLVM IR to a fixpoint.
//
// The program analysed is a witness (a C++ function that instantiates the library over an abstract
// input "tape").  Abstract states are (control location, value sets of every live SSA value and
// memory cell, value sets of the input cells that can still be read, typestate of the monitors).
// States are joined by identity of their canonical form; loops converge because input behind every
// live position is summarised, and unbounded counters are widened.
#include "state.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <sys/resource.h>

using namespace llvm;

//=== exceptions steering the exploration ===//
typedef std::function<void(State&)> Alt;
struct Fork { std::vector<Alt> alts; };
struct Viol { std::string code, msg; };
struct GiveUp { std::string why; };
struct PathEnd {};

//=== compiled functions ===//
struct Opnd { int idx = -1; AV c; };
struct Ins
{
    const Instruction* I;
    unsigned           opc;
    int                dst = -1;
    std::vector<Opnd>  ops;
};
struct BBInfo
{
    const BasicBlock*  bb;
    std::vector<const PHINode*> phis;
    std::vector<int>   phiDst;
    std::vector<Ins>   ins;
    std::vector<int>   live; // live after the phis
    bool               join = false, loop = false;
};
struct FnInfo
{
    const Function* F;
    unsigned        no;
    DenseMap<const Value*, int>      idx;
    DenseMap<const BasicBlock*, int> bbno;
    std::vector<BBInfo>              bbs;
    std::vector<std::vector<int>>    liveOut;
    DenseMap<const Instruction*, std::vector<int>*> callLive;
};

static std::vector<std::string>   reasons;
static std::map<std::string, int> reasonIdx;
static int reason(const std::string& s)
{
    auto it = reasonIdx.find(s);
    if (it != reasonIdx.end()) return it->second;
    reasons.push_back(s);
    return reasonIdx[s] = int(reasons.size()) - 1;
}
static void mark(State& s, const char* why)
{
    if (!s.imprecise) { s.imprecise = true; s.why = reason(why); }
}

struct Report { std::string code, msg, loc, stack, input; bool imprecise; std::string why; unsigned long count = 1; };

struct Options
{
    u64    maxStates = 3000000;
    double maxTime   = 120;
    unsigned widenAt = 24, lagAt = 12;
    unsigned maxEx   = 400;
    unsigned maxSteps = 0;
    u64 dumpAt = 0, dumpN = 20; bool dumpAll = false;
} opt;

struct Engine
{
    LLVMContext& ctx;
    Module&      M;
    const DataLayout& DL;
    Engine(Module& m) : ctx(m.getContext()), M(m), DL(m.getDataLayout()) {}

    //--- static tables
    DenseMap<const Function*, FnInfo*> fns;
    std::vector<const Function*>       fnList;
    DenseMap<const Function*, int>     fnNo;
    DenseMap<const GlobalVariable*, int> gids;
    std::vector<const GlobalVariable*> glist; // id = -(index+1)
    DenseMap<const Constant*, AV>      cAV;
    DenseMap<const GlobalVariable*, TableData*> tables;

    //--- per witness results
    std::vector<State> work;
    struct H128 { u64 a, b; bool operator==(const H128& o) const { return a == o.a && b == o.b; } };
    struct HH { size_t operator()(const H128& h) const { return h.a; } };
    std::unordered_map<H128, std::pair<unsigned, bool>, HH> visited;
    struct Skel { unsigned n = 0; bool any = false; std::vector<std::vector<u64>> seen; std::vector<char> vary; };
    std::unordered_map<H128, Skel, HH> skels;
    std::vector<std::pair<unsigned, unsigned>> npEdges;
    std::vector<std::pair<const Instruction*, const BasicBlock*>> nodeLoc;
    std::map<std::string, Report> reports;
    std::map<std::string, unsigned long> gaveup;
    std::map<std::string, unsigned long> externals;
    std::set<std::string> mutGlobals;
    std::map<int, bool> covers; // id -> reached
    std::set<int> coversImprecise;
    std::map<int, std::string> coverName;
    DenseMap<const Instruction*, char> seenIns;
    bool dbgForks = getenv("LXFORKS") != nullptr; std::map<std::string, u64> forkHist;
    u64 nStates = 0, nTrans = 0, nInst = 0, nForks = 0, nMerged = 0, nWiden = 0, pathsEnded = 0;
    bool truncated = false;
    std::map<std::string, unsigned long> imprecision;
    std::chrono::steady_clock::time_point t0;

    //=== compile ===//
    int fnId(const Function* F)
    {
        auto it = fnNo.find(F);
        if (it != fnNo.end()) return it->second;
        fnList.push_back(F);
        return fnNo[F] = int(fnList.size()) - 1;
    }
    int gid(const GlobalVariable* g)
    {
        auto it = gids.find(g);
        if (it != gids.end()) return it->second;
        glist.push_back(g);
        return gids[g] = -int(glist.size());
    }
    AV constAV(const Constant* C)
    {
        auto it = cAV.find(C);
        if (it != cAV.end()) return it->second;
        AV r = constAV1(C);
        cAV[C] = r;
        return r;
    }
    AV constAV1(const Constant* C)
    {
        if (auto ci = dyn_cast<ConstantInt>(C))
        {
            if (ci->getBitWidth() > 64) return AV();
            return mkInt(ci->getZExtValue(), ci->getBitWidth());
        }
        if (isa<UndefValue>(C)) // also poison
        {
            if (auto st = dyn_cast<StructType>(C->getType()))
            {
                auto d = std::make_shared<AggD>();
                d->v.resize(st->getNumElements());
                for (unsigned i = 0; i < st->getNumElements(); ++i) d->v[i] = constAV(UndefValue::get(st->getElementType(i)));
                AV a; a.k = K::Agg; a.agg = d; return a;
            }
            if (auto at = dyn_cast<ArrayType>(C->getType()))
            {
                auto d = std::make_shared<AggD>();
                d->v.resize(at->getNumElements());
                for (unsigned i = 0; i < at->getNumElements(); ++i) d->v[i] = constAV(UndefValue::get(at->getElementType()));
                AV a; a.k = K::Agg; a.agg = d; return a;
            }
            return AV();
        }
        if (isa<ConstantPointerNull>(C)) return mkPtr(0, 0);
        if (auto F = dyn_cast<Function>(C)) { AV a; a.k = K::Fn; a.obj = fnId(F); return a; }
        if (auto G = dyn_cast<GlobalVariable>(C)) return mkPtr(gid(G), 0);
        if (auto ga = dyn_cast<GlobalAlias>(C)) return constAV(ga->getAliasee());
        if (C->getType()->isAggregateType())
        {
            unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : unsigned(C->getType()->getArrayNumElements());
            auto d = std::make_shared<AggD>();
            for (unsigned i = 0; i < n; ++i) d->v.push_back(constAV(C->getAggregateElement(i)));
            AV a; a.k = K::Agg; a.agg = d; return a;
        }
        if (auto ce = dyn_cast<ConstantExpr>(C))
        {
            if (auto gep = dyn_cast<GEPOperator>(ce))
            {
                APInt off(64, 0);
                AV b = constAV(cast<Constant>(gep->getPointerOperand()));
                if (gep->accumulateConstantOffset(DL, off) && b.k == K::Ptr) { b.c += off.getSExtValue(); return b; }
                return AV();
            }
            if (ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast)
            {
                AV a = constAV(ce->getOperand(0));
                if (ce->getOpcode() == Instruction::IntToPtr && a.isConst()) return mkPtr(0, a.c);
                return a;
            }
            if (auto f = ConstantFoldConstant(ce, DL); f && f != ce) return constAV(f);
        }
        return AV();
    }
    Opnd opnd(FnInfo* fi, const Value* V)
    {
        Opnd o;
        if (auto C = dyn_cast<Constant>(V)) { o.c = constAV(C); return o; }
        auto it = fi->idx.find(V);
        if (it != fi->idx.end()) o.idx = it->second;
        return o;
    }
    FnInfo* compile(const Function* F)
    {
        auto it = fns.find(F);
        if (it != fns.end()) return it->second;
        auto fi = new FnInfo;
        fns[F]  = fi;
        fi->F   = F;
        fi->no  = fnId(F);
        int n   = 0;
        for (auto& a : F->args()) fi->idx[&a] = n++;
        for (auto& bb : *F)
        {
            fi->bbno[&bb] = int(fi->bbs.size());
            fi->bbs.emplace_back();
            fi->bbs.back().bb = &bb;
            for (auto& I : bb) if (!I.getType()->isVoidTy()) fi->idx[&I] = n++;
        }
        for (auto& b : fi->bbs)
        {
            for (auto& I : *b.bb)
            {
                if (auto p = dyn_cast<PHINode>(&I)) { b.phis.push_back(p); b.phiDst.push_back(fi->idx[p]); continue; }
                if (isa<DbgInfoIntrinsic>(I)) continue;
                Ins x;
                x.I = &I; x.opc = I.getOpcode();
                if (!I.getType()->isVoidTy()) x.dst = fi->idx[&I];
                for (auto& U : I.operands())
                {
                    if (isa<BasicBlock>(U.get()) || isa<MetadataAsValue>(U.get())) { x.ops.emplace_back(); continue; }
                    x.ops.push_back(opnd(fi, U.get()));
                }
                b.ins.push_back(std::move(x));
            }
            b.join = !b.bb->hasNPredecessors(1) && !pred_empty(b.bb);
        }
        // loop headers: targets of DFS back edges
        {
            std::vector<int> color(fi->bbs.size(), 0);
            std::vector<std::pair<int, unsigned>> st;
            st.push_back({0, 0}); color[0] = 1;
            while (!st.empty())
            {
                auto& [b, i] = st.back();
                auto T = fi->bbs[size_t(b)].bb->getTerminator();
                if (i < T->getNumSuccessors())
                {
                    int t = fi->bbno[T->getSuccessor(i++)];
                    if (color[size_t(t)] == 1) { fi->bbs[size_t(t)].loop = true; fi->bbs[size_t(t)].join = true; }
                    else if (!color[size_t(t)]) { color[size_t(t)] = 1; st.push_back({t, 0}); }
                }
                else { color[size_t(b)] = 2; st.pop_back(); }
            }
        }
        // liveness
        size_t nb = fi->bbs.size();
        std::vector<std::set<int>> in(nb), out(nb);
        bool ch = true;
        auto uses = [&](const Ins& x, std::set<int>& s) { for (auto& o : x.ops) if (o.idx >= 0) s.insert(o.idx); };
        while (ch)
        {
            ch = false;
            for (size_t bi = nb; bi-- > 0;)
            {
                auto& b = fi->bbs[bi];
                std::set<int> o;
                auto T = b.bb->getTerminator();
                for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
                {
                    int t = fi->bbno[T->getSuccessor(i)];
                    auto& tb = fi->bbs[size_t(t)];
                    std::set<int> li = in[size_t(t)];
                    for (int d : tb.phiDst) li.erase(d);
                    for (auto p : tb.phis) { auto x = opnd(fi, p->getIncomingValueForBlock(b.bb)); if (x.idx >= 0) li.insert(x.idx); }
                    o.insert(li.begin(), li.end());
                }
                std::set<int> l = o;
                for (size_t k = b.ins.size(); k-- > 0;) { if (b.ins[k].dst >= 0) l.erase(b.ins[k].dst); uses(b.ins[k], l); }
                if (l != in[bi] || o != out[bi]) { in[bi] = l; out[bi] = o; ch = true; }
            }
        }
        for (size_t bi = 0; bi < nb; ++bi)
        {
            fi->bbs[bi].live.assign(in[bi].begin(), in[bi].end());
            fi->liveOut.emplace_back(out[bi].begin(), out[bi].end());
        }
        return fi;
    }
    // values live after the call instruction, excluding its own result
    const std::vector<int>& liveAfterCall(FnInfo* fi, int bb, const Instruction* I)
    {
        auto& p = fi->callLive[I];
        if (p) return *p;
        std::set<int> l(fi->liveOut[size_t(bb)].begin(), fi->liveOut[size_t(bb)].end());
        auto& b = fi->bbs[size_t(bb)];
        for (size_t k = b.ins.size(); k-- > 0;)
        {
            if (b.ins[k].I == I) break;
            if (b.ins[k].dst >= 0) l.erase(b.ins[k].dst);
            for (auto& o : b.ins[k].ops) if (o.idx >= 0) l.insert(o.idx);
        }
        auto it = fi->idx.find(I);
        if (it != fi->idx.end()) l.erase(it->second);
        p = new std::vector<int>(l.begin(), l.end());
        return *p;
    }

    //=== env ===//
    static const AV& getv(const Frame& f, const Opnd& o)
    {
        if (o.idx < 0) return o.c;
        auto it = std::lower_bound(f.env.begin(), f.env.end(), o.idx, [](auto& p, int i) { return p.first < i; });
        static AV undef;
        if (it == f.env.end() || it->first != o.idx) return undef;
        return it->second;
    }
    static void setv(Frame& f, int idx, AV v)
    {
        if (idx < 0) return;
        auto it = std::lower_bound(f.env.begin(), f.env.end(), idx, [](auto& p, int i) { return p.first < i; });
        if (it != f.env.end() && it->first == idx) it->second = std::move(v);
        else f.env.insert(it, {idx, std::move(v)});
    }
    static void prune(Frame& f, const std::vector<int>& live)
    {
        size_t j = 0, k = 0;
        for (size_t i = 0; i < f.env.size(); ++i)
        {
            while (j < live.size() && live[j] < f.env[i].first) ++j;
            if (j < live.size() && live[j] == f.env[i].first)
            {
                if (k != i) f.env[k] = std::move(f.env[i]);
                ++k;
            }
        }
        f.env.resize(k);
    }

    //=== leaves ===//
    static int tidx(const State& s, int id)
    {
        for (size_t i = 0; i < s.tape.size(); ++i) if (s.tape[i].id == id) return int(i);
        return -1;
    }
    static SetP setOf(const State& s, i64 leaf)
    {
        if (leaf >= 0)
        {
            int i = tidx(s, int(leaf));
            if (i < 0) throw GiveUp{"internal: leaf of dropped cell"};
            return s.tape[size_t(i)].set;
        }
        for (auto& y : s.syms) if (y.id == leaf) return y.set;
        throw GiveUp{"internal: unknown symbol"};
    }
    static void setLeaf(State& s, i64 leaf, SetP v)
    {
        if (leaf >= 0) { int i = tidx(s, int(leaf)); if (i >= 0) s.tape[size_t(i)].set = v; return; }
        for (auto& y : s.syms) if (y.id == leaf) { y.set = v; return; }
    }
    static i64 newSym(State& s, unsigned w, SetP set)
    {
        i64 id = -1;
        while (true)
        {
            bool used = false;
            for (auto& y : s.syms) if (y.id == id) { used = true; break; }
            if (!used) break;
            --id;
        }
        s.syms.push_back({id, w, set});
        return id;
    }
    AV freshInt(State& s, unsigned w, SetP set = nullptr) { return mkE(exLeaf(newSym(s, w, set ? set : ST.full(w)), w)); }
    // decide a one-bit expression; forks when both outcomes are possible
    bool decide(State& s, ExP e)
    {
        if (isC(e)) return e->c != 0;
        for (auto& d : s.decided) if (d.first == e) return d.second != 0;
        if (e->w == 1 && e->leaves.size() > 1)
        {
            if (e->op == Op::And) return decide(s, e->k[0]) && decide(s, e->k[1]);
            if (e->op == Op::Or) return decide(s, e->k[0]) || decide(s, e->k[1]);
            if (e->op == Op::Xor && isC(e->k[1])) return decide(s, e->k[0]) != (e->k[1]->c != 0);
            if (e->op == Op::Select) return decide(s, e->k[0]) ? decide(s, e->k[1]) : decide(s, e->k[2]);
        }
        if ((e->op == Op::Eq || e->op == Op::Ne) && !isC(e->k[0]) && !isC(e->k[1]))
        {
            // settle choices inside the compared values first
            for (ExP cur = e;;)
            {
                std::function<ExP(ExP)> sel = [&](ExP x) -> ExP {
                    if (x->op == Op::Select) return x;
                    if (x->size > 400) return nullptr;
                    for (auto k : x->k) if (k && !k->leaves.empty()) if (auto r = sel(k)) return r;
                    return nullptr;
                };
                ExP c = sel(cur);
                if (!c) { if (cur != e) return decide(s, cur); break; }
                bool b = decide(s, c->k[0]);
                cur = exReplace(cur, c, c->k[b ? 1 : 2]);
            }
            i64 leaf = 0; std::vector<SetP> parts;
            int r = eqLin(e->k[0], e->k[1], [&](i64 l) { return setOf(s, l); }, leaf, parts);
            if (r < 2) return (r == 1) == (e->op == Op::Eq);
            if (r == 2)
            {
                Fork f;
                for (SetP x : parts) f.alts.push_back([leaf, x](State& n) { setLeaf(n, leaf, x); });
                throw f;
            }
        }
        auto boxes = ::partition(e, [&](i64 l) { return setOf(s, l); });
        if (boxes.size() == 1 && boxes[0].truth != 2) return boxes[0].truth != 0;
        Fork f;
        for (auto& b : boxes)
            for (int t = 0; t < 2; ++t)
            {
                if (b.truth != 2 && b.truth != t) continue;
                bool unk = b.truth == 2;
                if (unk && opt.dumpAll) { errs() << "undecided " << exstr(e) << "\n"; for (auto& p : b.sets) errs() << "   " << p.first << " " << setstr(p.second) << "\n"; }
                f.alts.push_back([b, t, e, unk](State& n) {
                    for (auto& p : b.sets) setLeaf(n, p.first, p.second);
                    n.decided.push_back({e, t});
                    if (unk) mark(n, "undecided condition");
                });
            }
        throw f;
    }
    bool decide(State& s, const AV& v)
    {
        if (v.k == K::Int) return v.e ? decide(s, v.e) : v.c != 0;
        if (v.k == K::Undef) throw Viol{"undef", "decision depends on an uninitialised value"};
        throw GiveUp{"decision on a non-integer value"};
    }
    u64 concretize(State& s, const AV& v, unsigned maxn, const char* what)
    {
        if (v.k == K::Undef) throw Viol{"undef", std::string("uninitialised value used: ") + what};
        if (v.k != K::Int) throw GiveUp{std::string("non-integer ") + what};
        if (!v.e) return u64(v.c);
        std::vector<u64> vals;
        if (!possibleValues(v.e, [&](i64 l) { return setOf(s, l); }, maxn, vals))
        {
            // a choice between alternatives: settle the condition first
            for (ExP e = v.e; e && e->leaves.size() >= 1;)
            {
                std::function<ExP(ExP)> sel = [&](ExP x) -> ExP {
                    if (x->op == Op::Select || (x->w == 1 && !x->leaves.empty() && x->op != Op::Leaf)) return x;
                    if (x->size > 60) return nullptr;
                    for (auto k : x->k) if (k) if (auto r = sel(k)) return r;
                    return nullptr;
                };
                ExP c = sel(e);
                if (!c) { if (e != v.e) return concretize(s, mkE(e), maxn, what); break; }
                bool b = decide(s, c->op == Op::Select ? c->k[0] : c);
                e = exReplace(e, c, c->op == Op::Select ? c->k[b ? 1 : 2] : exConst(b, 1));
                if (isC(e)) return e->c;
            }
            { if (getenv("LXDBG")) fprintf(stderr, "TMV %s\n", exstr(v.e).c_str()); throw GiveUp{std::string("too many possible values: ") + what}; }
        }
        if (vals.size() == 1) return vals[0];
        for (u64 x : vals)
        {
            ExP c = exBin(Op::Eq, v.e, exConst(x, v.e->w));
            bool known = false; int t = 0;
            for (auto& d : s.decided) if (d.first == c) { known = true; t = d.second; }
            if (known && t) return x;
        }
        Fork f;
        for (u64 x : vals)
        {
            ExP c = exBin(Op::Eq, v.e, exConst(x, v.e->w));
            for (auto& b : ::partition(c, [&](i64 l) { return setOf(s, l); }))
            {
                if (b.truth == 0) continue;
                bool unk = b.truth == 2;
                f.alts.push_back([b, c, unk](State& n) {
                    for (auto& p : b.sets) setLeaf(n, p.first, p.second);
                    n.decided.push_back({c, 1});
                    if (unk) mark(n, "undecided value");
                });
            }
        }
        throw f;
    }

    //=== tape ===//
    static int newElemId(const State& s)
    {
        int id = 0;
        while (tidx(s, id) >= 0) ++id;
        return id;
    }
    void extend(State& s)
    {
        Elem e; e.id = newElemId(s); e.gap = false; e.set = s.domE;
        if (s.maxlen && s.absEnd >= s.maxlen) e.set = ST.one(-1);
        ++s.absEnd;
        s.progress = true;
        s.tape.push_back(e);
    }
    // make sure tape[i] is a cell
    void needCell(State& s, int i)
    {
        if (i < 0) throw GiveUp{"position before the retained input"};
        while (int(s.tape.size()) <= i)
        {
            if (!s.tape.empty() && s.tape.back().set == ST.one(-1)) throw Viol{"tape-past-end", "input position moved past the end of the input"};
            extend(s);
        }
        if (s.tape[size_t(i)].gap)
        {
            Fork f;
            for (int two = 0; two < 2; ++two)
                f.alts.push_back([i, two](State& n) {
                    Elem g = n.tape[size_t(i)];
                    Elem c = g; c.gap = false; c.id = g.id;
                    if (two)
                    {
                        for (int k = 0; k < 2; ++k) if (n.spec[k]) c.qa[k] = QLOST;
                        Elem r = g; r.id = newElemId(n);
                        n.tape[size_t(i)] = c;
                        n.tape.insert(n.tape.begin() + i + 1, r);
                    }
                    else n.tape[size_t(i)] = c;
                    n.progress = true;
                    mark(n, "re-read of summarised input");
                });
            throw f;
        }
    }
    bool cellEof(State& s, int i)
    {
        needCell(s, i);
        SetP S = s.tape[size_t(i)].set;
        if (!S->contains(-1)) return false;
        if (S->single()) return true;
        Fork f;
        SetP E = ST.one(-1), N = ST.diff(S, E);
        f.alts.push_back([i, N](State& n) { n.tape[size_t(i)].set = N; });
        f.alts.push_back([i, E](State& n) { n.tape[size_t(i)].set = E; });
        throw f;
    }
    // index of the cell a position denotes; -1 if past the end
    int resolve(State& s, const AV& p)
    {
        if (p.k == K::End)
        {
            if (p.c != 0) throw GiveUp{"position relative to the end"};
            throw GiveUp{"end position used as a cell"};
        }
        int i = tidx(s, p.obj);
        if (i < 0) throw GiveUp{"internal: position of dropped cell"};
        if (p.c % s.unit) throw GiveUp{"misaligned input position"};
        i64 k = p.c / s.unit;
        while (k > 0)
        {
            if (cellEof(s, i)) return -1;
            ++i; --k;
            needCell(s, i);
        }
        while (k < 0)
        {
            --i; ++k;
            if (i < 0) throw GiveUp{"position before the retained input"};
            if (s.tape[size_t(i)].gap) throw GiveUp{"backwards into summarised input"};
        }
        needCell(s, i);
        return i;
    }
    AV posAt(State& s, int i, bool weak) { return mkPos(s.tape[size_t(i)].id, 0, weak); }
    AV normPos(State& s, const AV& p)
    {
        // cheap normalisation, without forking
        if (p.k != K::Pos || p.c == 0) return p;
        int i = tidx(s, p.obj);
        if (i < 0 || p.c % s.unit) return p;
        i64 k = p.c / s.unit;
        while (k > 0)
        {
            auto& e = s.tape[size_t(i)];
            if (e.gap || e.set->contains(-1)) return p;
            if (i + 1 >= int(s.tape.size())) extend(s);
            if (s.tape[size_t(i) + 1].gap) return p;
            ++i; --k;
        }
        while (k < 0)
        {
            if (i == 0 || s.tape[size_t(i) - 1].gap) return p;
            --i; ++k;
        }
        return mkPos(s.tape[size_t(i)].id, 0, p.w);
    }
    AV loadUnit(State& s, int i)
    {
        if (cellEof(s, i))
        {
            if (s.sentinel >= 0) return mkInt(u64(s.sentinel), unsigned(s.unit) * 8);
            throw Viol{"tape-oob-read", "read of a code unit at the end of the input"};
        }
        SetP S = s.tape[size_t(i)].set;
        if (s.tape[size_t(i)].lossy) mark(s, "re-read of joined input");
        if (S->single()) return mkInt(u64(S->lo()), unsigned(s.unit) * 8);
        return mkE(exLeaf(s.tape[size_t(i)].id, unsigned(s.unit) * 8));
    }
    AV loadTape(State& s, const AV& p, unsigned bytes)
    {
        if (p.k == K::End && p.c == 0 && s.sentinel >= 0 && int(bytes) == s.unit) return mkInt(u64(s.sentinel), bytes * 8);
        if (p.k == K::End) throw Viol{"tape-oob-read", "read of a code unit at the end of the input"};
        int i = resolve(s, p);
        if (i < 0) throw Viol{"tape-oob-read", "read of a code unit past the end of the input"};
        if (int(bytes) == s.unit) return loadUnit(s, i);
        if (int(bytes) < s.unit || int(bytes) % s.unit || bytes > 8) throw GiveUp{"partial code unit load"};
        ExP r = exConst(0, bytes * 8);
        bool past = false;
        for (unsigned k = 0; k < bytes / unsigned(s.unit); ++k)
        {
            AV v;
            if (past) v = mkInt(u64(s.sentinel), unsigned(s.unit) * 8);
            else
            {
                if (cellEof(s, i + int(k)))
                {
                    if (!s.pad) throw Viol{"tape-oob-read", "wide read past the end of the input"};
                    past = true;
                    v = mkInt(u64(s.sentinel), unsigned(s.unit) * 8);
                }
                else v = loadUnit(s, i + int(k));
            }
            ExP x = exUn(Op::ZExt, toE(v), bytes * 8);
            x = exBin(Op::Shl, x, exConst(k * unsigned(s.unit) * 8, bytes * 8));
            r = exBin(Op::Or, r, x);
        }
        return mkE(r);
    }
    // order of two positions: -1,0,1
    int cmpPos(State& s, const AV& a, const AV& b)
    {
        if (a.k == K::End && b.k == K::End) return a.c < b.c ? -1 : a.c > b.c;
        if (a.k == K::End) return -cmpPos(s, b, a);
        if (b.k == K::End)
        {
            if (b.c != 0) throw GiveUp{"position relative to the end"};
            int i = resolve(s, a);
            if (i < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"};
            return cellEof(s, i) ? 0 : -1;
        }
        if (a.obj == b.obj) return a.c < b.c ? -1 : a.c > b.c;
        int i = resolve(s, a), j = resolve(s, b);
        if (i < 0 || j < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"};
        i = resolve(s, a);
        return i < j ? -1 : i > j;
    }
    AV diffPos(State& s, const AV& a, const AV& b)
    {
        if (a.k == K::End && b.k == K::End) return mkInt(u64(a.c - b.c), 64);
        auto sym = [&](i64 lo, bool neg) {
            mark(s, "distance over summarised input");
            AV v = freshInt(s, 64, ST.range(lo, i128(1) << 40));
            return neg ? mkE(exBin(Op::Sub, exConst(0, 64), toE(v))) : v;
        };
        if (a.k == K::End || b.k == K::End)
        {
            bool neg = b.k == K::End;
            const AV& p = neg ? b : a; (void)p;
            const AV& q = neg ? a : b;
            int i = resolve(s, q);
            if (i < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"};
            i64 n = 0;
            for (int j = i; j < int(s.tape.size()); ++j)
            {
                if (s.tape[size_t(j)].gap) break;
                if (s.tape[size_t(j)].set == ST.one(-1)) return mkInt(u64(neg ? -n * s.unit : n * s.unit), 64);
                if (s.maxlen) { if (cellEof(s, j)) return mkInt(u64(neg ? -n * s.unit : n * s.unit), 64); needCell(s, j + 1); }
                if (s.tape[size_t(j)].set->contains(-1)) break;
                ++n;
            }
            if (!neg) { AV d; d.k = K::Dist; d.obj = s.tape[size_t(i)].id; d.c = 0; d.w = 0; return d; }
            return sym(n * s.unit, neg);
        }
        if (a.obj == b.obj) return mkInt(u64(a.c - b.c), 64);
        int i = resolve(s, a);
        int j = resolve(s, b);
        if (i < 0 || j < 0) throw Viol{"tape-past-end", "input position moved past the end of the input"};
        i = resolve(s, a);
        bool gap = false;
        for (int k = std::min(i, j); k < std::max(i, j); ++k) gap |= s.tape[size_t(k)].gap;
        if (!gap) return mkInt(u64(i64(i - j) * s.unit), 64);
        i64 n = std::abs(i - j);
        return sym(n * s.unit, i < j);
    }

    //=== spec automata ===//
    std::map<std::pair<const Function*, int>, std::vector<std::pair<SetP, int>>> stepCache;
    const std::vector<std::pair<SetP, int>>& stepClasses(const State& s, const Function* F, int q)
    {
        auto key = std::make_pair(F, q);
        auto it  = stepCache.find(key);
        if (it != stepCache.end()) return it->second;
        State n;
        n.syms.push_back({-1, 32, s.dom});
        Frame f;
        f.f = compile(F);
        setv(f, 0, mkInt(u64(i64(q)), 32));
        setv(f, 1, mkE(exLeaf(-1, 32)));
        n.fr.push_back(f);
        std::map<int, SetP> cls;
        std::vector<State> wl{n};
        while (!wl.empty())
        {
            State c = std::move(wl.back());
            wl.pop_back();
            try
            {
                while (true)
                {
                    AV ret;
                    bool done = false;
                    step(c, &ret, &done);
                    if (done)
                    {
                        u64 v = concretize(c, ret, 64, "spec state");
                        SetP S = setOf(c, -1);
                        int  q2 = int(i64(v));
                        cls[q2] = cls.count(q2) ? ST.uni(cls[q2], S) : S;
                        break;
                    }
                }
            }
            catch (Fork& fk)
            {
                for (auto& a : fk.alts) { wl.push_back(c); a(wl.back()); }
            }
        }
        std::vector<std::pair<SetP, int>> r;
        for (auto& c : cls) r.push_back({c.second, c.first});
        return stepCache[key] = r;
    }
    // spec state after element i, given the state before it; forks if the cell straddles classes
    int specAfter(State& s, int slot, int q, int i)
    {
        auto& e = s.tape[size_t(i)];
        if (e.qa[slot] != QNONE) return e.qa[slot];
        if (q == QLOST) return QLOST;
        if (e.gap) return QLOST;
        auto& cl = stepClasses(s, s.spec[slot], q);
        SetP S = ST.diff(e.set, ST.one(-1));
        int n = 0, res = 0;
        for (auto& c : cl) if (!ST.inter(S, c.first)->empty()) { ++n; res = c.second; }
        if (n == 1 && !e.set->contains(-1)) return res;
        if (n == 0) return QLOST;
        Fork f;
        for (auto& c : cl)
        {
            SetP T = ST.inter(S, c.first);
            if (T->empty()) continue;
            f.alts.push_back([i, T](State& x) { x.tape[size_t(i)].set = T; });
        }
        throw f;
    }
    int specAt(State& s, int slot, int idx)
    {
        int q = s.q[slot];
        for (int i = 0; i < idx; ++i) q = specAfter(s, slot, q, i);
        return q;
    }

#include "exec.inc"
#include "canon.inc"
#include "driver.inc"
};

#include "main.inc"
