// lxai: abstract interpreter for LLVM IR -- value domain.
//
//  ISet  : hash-consed finite unions of integer intervals (value sets)
//  Ex    : hash-consed expressions over leaves; a leaf is a tape cell (one unknown code unit of the
//          input, id >= 0) or a symbol (any other unknown value, id < 0).  Every leaf has an ISet in
//          the abstract state.
//  AV    : abstract value of an SSA name or memory cell
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t  i64;

inline u64 maskw(unsigned w) { return w >= 64 ? ~u64(0) : ((u64(1) << w) - 1); }
inline i64 sextw(u64 v, unsigned w)
{
    if (w >= 64) return i64(v);
    u64 m = u64(1) << (w - 1);
    v &= maskw(w);
    return i64((v ^ m) - m);
}

//=== interval sets ===//
struct ISet
{
    std::vector<std::pair<i128, i128>> iv;
    bool empty() const { return iv.empty(); }
    bool contains(i128 v) const
    {
        for (auto& p : iv)
            if (p.first <= v && v <= p.second) return true;
        return false;
    }
    i128 lo() const { return iv.front().first; }
    i128 hi() const { return iv.back().second; }
    i128 count() const
    {
        i128 n = 0;
        for (auto& p : iv) n += p.second - p.first + 1;
        return n;
    }
    bool single() const { return iv.size() == 1 && iv[0].first == iv[0].second; }
};
typedef const ISet* SetP;

struct SetTable
{
    std::map<std::vector<std::pair<i128, i128>>, std::unique_ptr<ISet>> tab;
    SetP get(std::vector<std::pair<i128, i128>> v)
    {
        std::sort(v.begin(), v.end());
        std::vector<std::pair<i128, i128>> r;
        for (auto& p : v)
        {
            if (p.first > p.second) continue;
            if (!r.empty() && p.first <= r.back().second + 1)
                r.back().second = std::max(r.back().second, p.second);
            else
                r.push_back(p);
        }
        auto it = tab.find(r);
        if (it != tab.end()) return it->second.get();
        auto s = std::make_unique<ISet>();
        s->iv  = r;
        auto p = s.get();
        tab.emplace(r, std::move(s));
        return p;
    }
    std::map<std::pair<SetP, SetP>, SetP> icache, dcache, ucache;
    SetP inter(SetP a, SetP b)
    {
        if (a == b) return a;
        auto key = std::make_pair(a, b);
        auto it  = icache.find(key);
        if (it != icache.end()) return it->second;
        std::vector<std::pair<i128, i128>> r;
        size_t i = 0, j = 0;
        while (i < a->iv.size() && j < b->iv.size())
        {
            auto lo = std::max(a->iv[i].first, b->iv[j].first);
            auto hi = std::min(a->iv[i].second, b->iv[j].second);
            if (lo <= hi) r.push_back({lo, hi});
            if (a->iv[i].second < b->iv[j].second) ++i; else ++j;
        }
        return icache[key] = get(std::move(r));
    }
    SetP diff(SetP a, SetP b)
    {
        auto key = std::make_pair(a, b);
        auto it  = dcache.find(key);
        if (it != dcache.end()) return it->second;
        std::vector<std::pair<i128, i128>> r;
        for (auto p : a->iv)
        {
            i128 cur = p.first;
            bool done = false;
            for (auto& q : b->iv)
            {
                if (q.second < cur) continue;
                if (q.first > p.second) break;
                if (q.first > cur) r.push_back({cur, q.first - 1});
                cur = q.second + 1;
                if (cur > p.second) { done = true; break; }
            }
            if (!done && cur <= p.second) r.push_back({cur, p.second});
        }
        return dcache[key] = get(std::move(r));
    }
    SetP uni(SetP a, SetP b)
    {
        if (a == b) return a;
        auto key = std::make_pair(a, b);
        auto it  = ucache.find(key);
        if (it != ucache.end()) return it->second;
        auto r = a->iv;
        r.insert(r.end(), b->iv.begin(), b->iv.end());
        return ucache[key] = get(std::move(r));
    }
    SetP range(i128 a, i128 b) { return get({{a, b}}); }
    SetP one(i128 a) { return get({{a, a}}); }
    SetP full(unsigned w) { return range(0, i128(maskw(w))); }
    SetP none() { return get({}); }
};
extern SetTable ST;
std::string setstr(SetP s);

//=== expressions ===//
enum class Op : uint8_t
{
    Const, Leaf, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Trunc, Eq, Ne, Ult, Ule, Slt, Sle, Select, Table,
    CtPop, CtTz, CtLz, Bswap, UMin, UMax, SMin, SMax, UAddOv, USubOv, UMulOv, SAddOv, SSubOv, SMulOv,
    USubSat, UAddSat
};
struct TableData // constant memory: bytes of a constant global (only if fully integral)
{
    std::vector<uint8_t> bytes;
    std::string          name;
};
struct Ex
{
    Op               op;
    uint8_t          w;
    u64              c    = 0; // Const value / Leaf id
    const TableData* tab  = nullptr;
    const Ex*        k[3] = {nullptr, nullptr, nullptr};
    std::vector<i64> leaves; // sorted unique
    unsigned         size = 1;
    u64              id   = 0;
    i64 leaf() const { return i64(c); }
};
typedef const Ex* ExP;
struct ExKey
{
    Op op; uint8_t w; u64 c; const void* t; const void* a; const void* b; const void* d;
    bool operator==(const ExKey& o) const { return op == o.op && w == o.w && c == o.c && t == o.t && a == o.a && b == o.b && d == o.d; }
};
struct ExKeyHash
{
    size_t operator()(const ExKey& k) const
    {
        size_t h = size_t(k.op) * 31 + k.w;
        auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
        mix(k.c); mix(u64(k.t)); mix(u64(k.a)); mix(u64(k.b)); mix(u64(k.d));
        return h;
    }
};
ExP mkEx(Op op, unsigned w, u64 c, const TableData* t, ExP a = nullptr, ExP b = nullptr, ExP d = nullptr);
ExP exConst(u64 v, unsigned w);
ExP exLeaf(i64 id, unsigned w);
ExP exBin(Op op, ExP a, ExP b); // simplifying constructor, arithmetic + compares
ExP exUn(Op op, ExP a, unsigned w);
ExP exSel(ExP c, ExP a, ExP b);
u64 evalOp(Op op, unsigned w, unsigned wk, u64 a, u64 b, u64 c, const TableData* t);
std::string exstr(ExP e);
inline bool isC(ExP e) { return e->op == Op::Const; }

// abstract evaluation: unsigned interval + known bits
struct AB
{
    u64 lo, hi, k0, k1; // lo<=v<=hi ; k0 bits known 0, k1 bits known 1
    bool cst() const { return lo == hi; }
};
typedef std::function<AB(i64 leaf, unsigned w)> LeafEnv;
AB abEval(ExP e, const LeafEnv& env);
ExP exSubst(ExP e, const std::function<ExP(i64 leaf, unsigned w)>& f);

// One box of a partition: refined leaf sets and the value of the expression's truth on the box.
struct Box
{
    std::vector<std::pair<i64, SetP>> sets;
    int truth; // 0,1; 2 = unknown (could not be decided on this box)
};
// Partition the leaf box (given by setOf) by truth of the (1-bit) expression.
std::vector<Box> partition(ExP cond, const std::function<SetP(i64)>& setOf);
// Possible values of e over the box; returns false if more than maxn.
bool possibleValues(ExP e, const std::function<SetP(i64)>& setOf, unsigned maxn, std::vector<u64>& out);
AB   rangeOf(ExP e, const std::function<SetP(i64)>& setOf);

// Equality of two expressions by linear forms over leaf bits: 1 equal, 0 different, 2 split the leaf into parts, 3 unknown.
int eqLin(ExP a, ExP b, const std::function<SetP(i64)>& setOf, i64& leaf, std::vector<SetP>& parts);
ExP exReplace(ExP e, ExP from, ExP to);
