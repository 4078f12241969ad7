#include "core.h"

SetTable ST;

static std::string i128str(i128 v)
{
    if (v < 0) return "-" + i128str(-v);
    if (v < 10) return std::string(1, char('0' + int(v)));
    return i128str(v / 10) + char('0' + int(v % 10));
}
std::string setstr(SetP s)
{
    std::string r = "{";
    int n = 0;
    for (auto& p : s->iv)
    {
        if (n++) r += ",";
        if (n > 12) { r += "..."; break; }
        auto chr = [](i128 v) -> std::string {
            if (v == -1) return "EOF";
            if (v >= 0x21 && v <= 0x7e) return std::string("'") + char(v) + "'";
            char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b;
        };
        if (p.first == p.second) r += chr(p.first);
        else r += chr(p.first) + "-" + chr(p.second);
    }
    return r + "}";
}

static std::unordered_map<ExKey, std::unique_ptr<Ex>, ExKeyHash> extab;
static u64 exids = 0;
ExP mkEx(Op op, unsigned w, u64 c, const TableData* t, ExP a, ExP b, ExP d)
{
    ExKey k{op, uint8_t(w), c, t, a, b, d};
    auto it = extab.find(k);
    if (it != extab.end()) return it->second.get();
    auto e = std::make_unique<Ex>();
    e->op = op; e->w = uint8_t(w); e->c = c; e->tab = t; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->id = ++exids;
    if (op == Op::Leaf) e->leaves = {i64(c)};
    for (auto x : {a, b, d})
        if (x)
        {
            e->size += x->size;
            e->leaves.insert(e->leaves.end(), x->leaves.begin(), x->leaves.end());
        }
    std::sort(e->leaves.begin(), e->leaves.end());
    e->leaves.erase(std::unique(e->leaves.begin(), e->leaves.end()), e->leaves.end());
    auto p = e.get();
    extab.emplace(k, std::move(e));
    return p;
}
ExP exConst(u64 v, unsigned w) { return mkEx(Op::Const, w, v & maskw(w), nullptr); }
ExP exLeaf(i64 id, unsigned w) { return mkEx(Op::Leaf, w, u64(id), nullptr); }

u64 evalOp(Op op, unsigned w, unsigned wk, u64 a, u64 b, u64 c, const TableData* t)
{
    u64 m = maskw(w), mk = maskw(wk);
    switch (op)
    {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : 0;
    case Op::URem: return b ? (a % b) & m : 0;
    case Op::SDiv: { i64 y = sextw(b, w); i64 x = sextw(a, w); if (!y || (y == -1 && x == INT64_MIN)) return 0; return u64(x / y) & m; }
    case Op::SRem: { i64 y = sextw(b, w); i64 x = sextw(a, w); if (!y || y == -1) return 0; return u64(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return (a ^ b) & m;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : (a & m) >> b;
    case Op::AShr: return b >= w ? (sextw(a, w) < 0 ? m : 0) : u64(sextw(a, w) >> b) & m;
    case Op::ZExt: return a & mk;
    case Op::SExt: return u64(sextw(a, wk)) & m;
    case Op::Trunc: return a & m;
    case Op::Eq: return a == b;
    case Op::Ne: return a != b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextw(a, wk) < sextw(b, wk);
    case Op::Sle: return sextw(a, wk) <= sextw(b, wk);
    case Op::Select: return a ? b : c;
    case Op::Table:
    {
        u64 r = 0;
        unsigned n = (w + 7) / 8;
        for (unsigned i = 0; i < n; ++i)
        {
            u64 off = a + i;
            u64 by = off < t->bytes.size() ? t->bytes[off] : 0;
            r |= by << (8 * i);
        }
        return r & m;
    }
    case Op::CtPop: return u64(__builtin_popcountll(a));
    case Op::CtTz: return a ? u64(__builtin_ctzll(a)) : w;
    case Op::CtLz: return a ? u64(__builtin_clzll(a)) - (64 - w) : w;
    case Op::Bswap: { u64 r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((a >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return r; }
    case Op::UMin: return std::min(a, b);
    case Op::UMax: return std::max(a, b);
    case Op::SMin: return sextw(a, w) < sextw(b, w) ? a : b;
    case Op::SMax: return sextw(a, w) > sextw(b, w) ? a : b;
    case Op::UAddOv: return (i128(a) + i128(b)) > i128(mk);
    case Op::USubOv: return a < b;
    case Op::UMulOv: return (unsigned __int128)a * (unsigned __int128)b > (unsigned __int128)mk;
    case Op::SAddOv: { i128 r = i128(sextw(a, wk)) + sextw(b, wk); return r != i128(sextw(u64(r) & mk, wk)); }
    case Op::SSubOv: { i128 r = i128(sextw(a, wk)) - sextw(b, wk); return r != i128(sextw(u64(r) & mk, wk)); }
    case Op::SMulOv: { i128 r = i128(sextw(a, wk)) * sextw(b, wk); return r != i128(sextw(u64(r) & mk, wk)); }
    case Op::USubSat: return a < b ? 0 : a - b;
    case Op::UAddSat: { i128 r = i128(a) + i128(b); return r > i128(m) ? m : u64(r); }
    default: return 0;
    }
}
static bool isCmp(Op o)
{
    switch (o)
    {
    case Op::Eq: case Op::Ne: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
    case Op::UAddOv: case Op::USubOv: case Op::UMulOv: case Op::SAddOv: case Op::SSubOv: case Op::SMulOv:
        return true;
    default: return false;
    }
}
static bool comm(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq || o == Op::Ne; }

// A 64-bit word made of two 32-bit units: its halves, or null.
static ExP half(ExP x, bool high)
{
    if (isC(x)) return exConst(high ? x->c >> 32 : x->c & 0xffffffffu, 32);
    if (x->w != 64) return nullptr;
    switch (x->op)
    {
    case Op::ZExt:
        if (x->k[0]->w != 32 || x->k[0]->op != Op::Leaf) return nullptr;
        return high ? exConst(0, 32) : x->k[0];
    case Op::Shl:
        if (!isC(x->k[1]) || x->k[1]->c != 32) return nullptr;
        return high ? half(x->k[0], false) : exConst(0, 32);
    case Op::Or: case Op::Xor: case Op::And:
    {
        ExP a = half(x->k[0], high), b = half(x->k[1], high);
        return a && b ? exBin(x->op, a, b) : nullptr;
    }
    default: return nullptr;
    }
}
static bool halves(ExP x, ExP& lo, ExP& hi) { return x->w == 64 && !isC(x) && x->op != Op::ZExt && (lo = half(x, false)) && (hi = half(x, true)); }

ExP exBin(Op op, ExP a, ExP b)
{
    unsigned w = isCmp(op) ? 1 : a->w;
    if (isC(a) && isC(b)) return exConst(evalOp(op, w, a->w, a->c, b->c, 0, nullptr), w);
    if (comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u64 m = maskw(a->w);
    if (isC(b))
    {
        u64 c = b->c;
        switch (op)
        {
        case Op::Sub: return exBin(Op::Add, a, exConst((0 - c) & m, a->w));
        case Op::Add:
            if (c == 0) return a;
            if (a->op == Op::Add && isC(a->k[1])) return exBin(Op::Add, a->k[0], exConst(a->k[1]->c + c, a->w));
            break;
        case Op::Or: case Op::Xor:
            if (c == 0) return a;
            if (op == Op::Or && c == m) return b;
            if (op == Op::Xor && a->op == Op::Xor && isC(a->k[1])) return exBin(Op::Xor, a->k[0], exConst(a->k[1]->c ^ c, a->w));
            break;
        case Op::And:
            if (c == 0) return b;
            if (c == m) return a;
            if (a->op == Op::And && isC(a->k[1])) return exBin(Op::And, a->k[0], exConst(a->k[1]->c & c, a->w));
            if (ExP lo, hi; c == 0xffffffffu && halves(a, lo, hi)) return exUn(Op::ZExt, lo, 64);
            break;
        case Op::Shl: case Op::LShr: case Op::AShr: case Op::UDiv: case Op::Mul:
            if (op == Op::UDiv || op == Op::Mul) { if (c == 1) return a; if (op == Op::Mul && c == 0) return b; }
            else if (c == 0) return a;
            if (op == Op::LShr && c == 5)
            {
                ExP t = a;
                while (t->op == Op::ZExt || t->op == Op::SExt || (t->op == Op::Trunc && t->w >= 16)) t = t->k[0];
                if (ExP lo, hi; t->op == Op::CtTz && halves(t->k[0], lo, hi))
                    return exSel(exBin(Op::Eq, lo, exConst(0, 32)), exSel(exBin(Op::Eq, hi, exConst(0, 32)), exConst(2, a->w), exConst(1, a->w)), exConst(0, a->w));
            }
            if (op == Op::AShr && a->op == Op::Shl && isC(a->k[1]) && a->k[1]->c == c && c < a->w) return exUn(Op::SExt, exUn(Op::Trunc, a->k[0], unsigned(a->w - c)), a->w);
            if (op == Op::LShr && a->op == Op::Shl && isC(a->k[1]) && a->k[1]->c == c && c < a->w) return exBin(Op::And, a->k[0], exConst(maskw(unsigned(a->w - c)), a->w));
            if (op == Op::Mul && (c & (c - 1)) == 0) return exBin(Op::Shl, a, exConst(__builtin_ctzll(c), a->w));
            if (op == Op::UDiv && (c & (c - 1)) == 0) return exBin(Op::LShr, a, exConst(__builtin_ctzll(c), a->w));
            break;
        case Op::Eq:
            if (a->op == Op::Add && isC(a->k[1])) return exBin(Op::Eq, a->k[0], exConst(c - a->k[1]->c, a->w));
            if (a->w == 1 && c == 1) return a;
            if (a->op == Op::ZExt && a->k[0]->w == 1) { if (c == 0) return exBin(Op::Xor, a->k[0], exConst(1, 1)); if (c == 1) return a->k[0]; return exConst(0, 1); }
            break;
        case Op::Ne:
            if (a->op == Op::Add && isC(a->k[1])) return exBin(Op::Ne, a->k[0], exConst(c - a->k[1]->c, a->w));
            if (a->w == 1 && c == 0) return a;
            if (a->op == Op::ZExt && a->k[0]->w == 1) { if (c == 0) return a->k[0]; if (c == 1) return exBin(Op::Xor, a->k[0], exConst(1, 1)); return exConst(1, 1); }
            break;
        case Op::Ult: if (c == 0) return exConst(0, 1); break;
        case Op::Ule: if (c == m) return exConst(1, 1); break;
        default: break;
        }
    }
    if (ExP al, ah, bl, bh; (op == Op::Eq || op == Op::Ne) && halves(a, al, ah) && (bl = half(b, false)) && (bh = half(b, true)))
    {
        ExP e = exSel(exBin(Op::Eq, al, bl), exBin(Op::Eq, ah, bh), exConst(0, 1));
        return op == Op::Eq ? e : exBin(Op::Xor, e, exConst(1, 1));
    }
    if (op == Op::Sub && isC(b) == false && a == b) return exConst(0, a->w);
    if (op == Op::Add && b->op == Op::Sub && b->k[1] == a) return b->k[0];
    if (op == Op::Add && a->op == Op::Sub && a->k[1] == b) return a->k[0];
    if (op == Op::Sub && a->op == Op::Add && a->k[0] == b) return a->k[1];
    if (op == Op::Sub && a->op == Op::Add && a->k[1] == b) return a->k[0];
    if (a == b)
        switch (op)
        {
        case Op::Xor: return exConst(0, a->w);
        case Op::And: case Op::Or: case Op::UMin: case Op::UMax: case Op::SMin: case Op::SMax: return a;
        case Op::Eq: case Op::Ule: case Op::Sle: return exConst(1, 1);
        case Op::Ne: case Op::Ult: case Op::Slt: return exConst(0, 1);
        default: break;
        }
    return mkEx(op, w, 0, nullptr, a, b);
}
ExP exUn(Op op, ExP a, unsigned w)
{
    if (isC(a)) return exConst(evalOp(op, w, a->w, a->c, 0, 0, nullptr), w);
    if ((op == Op::ZExt || op == Op::SExt || op == Op::Trunc) && a->w == w) return a;
    if (op == Op::ZExt && a->op == Op::ZExt) return exUn(Op::ZExt, a->k[0], w);
    if (op == Op::Trunc && (a->op == Op::ZExt || a->op == Op::SExt))
    {
        if (a->k[0]->w == w) return a->k[0];
        if (a->k[0]->w > w) return exUn(Op::Trunc, a->k[0], w);
        return exUn(a->op, a->k[0], w);
    }
    return mkEx(op, w, 0, nullptr, a);
}
ExP exSel(ExP c, ExP a, ExP b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : exBin(Op::Xor, c, exConst(1, 1));
    return mkEx(Op::Select, a->w, 0, nullptr, c, a, b);
}

std::string exstr(ExP e)
{
    static const char* names[] = {"const", "leaf", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "trunc", "eq", "ne", "ult", "ule", "slt", "sle", "sel", "tab", "ctpop", "cttz", "ctlz", "bswap", "umin", "umax", "smin", "smax", "uaddov", "usubov", "umulov", "saddov", "ssubov", "smulov", "usubsat", "uaddsat"};
    char b[64];
    if (isC(e)) { snprintf(b, sizeof b, "%lld:%d", (long long)sextw(e->c, e->w), e->w); return b; }
    if (e->op == Op::Leaf) { snprintf(b, sizeof b, "%s%lld:%d", e->leaf() >= 0 ? "c" : "s", (long long)(e->leaf() >= 0 ? e->leaf() : -e->leaf()), e->w); return b; }
    if (e->size > (getenv("LXDBG") ? 400u : 60u)) return "<big>";
    std::string r = std::string("(") + names[int(e->op)];
    for (auto k : e->k) if (k) r += " " + exstr(k);
    return r + ")";
}

//=== abstract evaluation ===//
static AB norm(AB a, unsigned w)
{
    u64 m = maskw(w);
    a.k0 |= ~m;
    // known bits -> interval
    u64 mn = a.k1, mx = ~a.k0;
    if (a.lo < mn) a.lo = mn;
    if (a.hi > mx) a.hi = mx;
    if (a.lo > a.hi) { a.lo = a.hi = mn; } // infeasible; keep something
    // interval -> known bits (common prefix)
    u64 x = a.lo ^ a.hi;
    u64 low = x ? (x == 0 ? 0 : (~u64(0) >> __builtin_clzll(x))) : 0;
    u64 known = ~low;
    a.k1 |= a.lo & known;
    a.k0 |= ~a.lo & known;
    return a;
}
static AB cst(u64 v, unsigned w) { v &= maskw(w); return {v, v, ~v, v}; }
static AB top(unsigned w) { return {0, maskw(w), ~maskw(w), 0}; }
static AB boolAB(int t) { return t == 2 ? top(1) : cst(u64(t), 1); }

static AB addsub(AB a, AB b, unsigned w, bool sub)
{
    // interval
    AB r = top(w);
    u64 m = maskw(w);
    if (!sub)
    {
        unsigned __int128 l = (unsigned __int128)a.lo + b.lo, h = (unsigned __int128)a.hi + b.hi;
        if (h <= m) { r.lo = u64(l); r.hi = u64(h); }
        else if (l > m) { r.lo = u64(l) & m; r.hi = u64(h) & m; if ((h >> w) != (l >> w)) r = top(w); }
    }
    else
    {
        i128 l = i128(a.lo) - i128(b.hi), h = i128(a.hi) - i128(b.lo);
        if (l >= 0) { r.lo = u64(l); r.hi = u64(h); }
        else if (h < 0) { i128 M = i128(m) + 1; l += M; h += M; if (l >= 0) { r.lo = u64(l); r.hi = u64(h); } }
    }
    // known bits, byte lanes then bits: ripple with interval reasoning per byte lane
    int carry = 0; // 0,1 known; 2 unknown  (carry or borrow)
    for (unsigned base = 0; base < w; base += 8)
    {
        unsigned n = std::min(8u, w - base);
        u64 lm = maskw(n);
        // lane intervals from known bits
        u64 alo = (a.k1 >> base) & lm, ahi = (~a.k0 >> base) & lm;
        u64 blo = (b.k1 >> base) & lm, bhi = (~b.k0 >> base) & lm;
        // tighten the lane interval with the whole interval if the upper part is fixed
        auto tight = [&](const AB& x, u64& lo, u64& hi) {
            unsigned top_ = base + n;
            u64 hl = top_ >= 64 ? 0 : x.lo >> top_, hh = top_ >= 64 ? 0 : x.hi >> top_;
            if (hl == hh)
            {
                lo = std::max(lo, (x.lo >> base) & lm);
                hi = std::min(hi, (x.hi >> base) & lm);
            }
        };
        tight(a, alo, ahi);
        tight(b, blo, bhi);
        int clo = carry == 2 ? 0 : carry, chi = carry == 2 ? 1 : carry;
        i128 l, h;
        if (!sub) { l = i128(alo) + blo + clo; h = i128(ahi) + bhi + chi; }
        else { l = i128(alo) - i128(bhi) - chi; h = i128(ahi) - i128(blo) - clo; }
        i128 M = i128(lm) + 1;
        if (!sub)
        {
            if (h < M) carry = 0;
            else if (l >= M) { carry = 1; l -= M; h -= M; }
            else { carry = 2; l = 0; h = lm; }
        }
        else
        {
            if (l >= 0) carry = 0;
            else if (h < 0) { carry = 1; l += M; h += M; }
            else { carry = 2; l = 0; h = lm; }
        }
        AB lane = norm({u64(l), u64(h), ~lm, 0}, n);
        r.k0 |= (lane.k0 & lm) << base;
        r.k1 |= (lane.k1 & lm) << base;
    }
    // low bits exact: trailing known
    {
        u64 known = (a.k0 | a.k1) & (b.k0 | b.k1);
        unsigned t = ~known ? unsigned(__builtin_ctzll(~known)) : 64;
        if (t > w) t = w;
        if (t)
        {
            u64 v = (sub ? a.k1 - b.k1 : a.k1 + b.k1) & maskw(t);
            r.k1 |= v;
            r.k0 |= ~v & maskw(t);
        }
    }
    return norm(r, w);
}

AB abEval(ExP e, const LeafEnv& env)
{
    unsigned w = e->w;
    if (isC(e)) return cst(e->c, w);
    if (e->op == Op::Leaf) return norm(env(e->leaf(), w), w);
    AB a = abEval(e->k[0], env);
    if (e->op == Op::Select)
    {
        if (a.cst()) return abEval(e->k[a.lo ? 1 : 2], env);
        AB x = abEval(e->k[1], env), y = abEval(e->k[2], env);
        return norm({std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.k0 & y.k0, x.k1 & y.k1}, w);
    }
    unsigned wk = e->k[0]->w;
    AB b = e->k[1] ? abEval(e->k[1], env) : AB{0, 0, ~u64(0), 0};
    bool allc = a.cst() && (!e->k[1] || b.cst());
    if (allc) return cst(evalOp(e->op, w, wk, a.lo, b.lo, 0, e->tab), w);
    u64 m = maskw(w);
    AB r = top(w);
    switch (e->op)
    {
    case Op::Add: return addsub(a, b, w, false);
    case Op::Sub: return addsub(a, b, w, true);
    case Op::Mul:
    {
        unsigned __int128 h = (unsigned __int128)a.hi * b.hi;
        if (h <= m) { r.lo = a.lo * b.lo; r.hi = u64(h); }
        return norm(r, w);
    }
    case Op::UDiv:
        if (b.lo) { r.lo = a.lo / b.hi; r.hi = a.hi / b.lo; }
        return norm(r, w);
    case Op::URem:
        if (b.lo) { if (a.hi < b.lo) return a; r.hi = std::min(a.hi, b.hi - 1); }
        return norm(r, w);
    case Op::SDiv:
        if (!(a.hi >> (w - 1)) && !(b.hi >> (w - 1)) && b.lo) { r.lo = a.lo / b.hi; r.hi = a.hi / b.lo; }
        return norm(r, w);
    case Op::And: return norm({0, std::min(a.hi, b.hi), a.k0 | b.k0, a.k1 & b.k1}, w);
    case Op::Or: return norm({std::max(a.lo, b.lo), m, a.k0 & b.k0, a.k1 | b.k1}, w);
    case Op::Xor: return norm({0, m, (a.k0 & b.k0) | (a.k1 & b.k1), (a.k0 & b.k1) | (a.k1 & b.k0)}, w);
    case Op::Shl:
        if (b.cst() && b.lo < w)
        {
            unsigned s = unsigned(b.lo);
            r.k0 = ((a.k0 << s) | maskw(s)) ; if (s == 0) r.k0 = a.k0;
            r.k0 |= ~m;
            r.k1 = (a.k1 << s) & m;
            if (s < 64 && (a.hi << s >> s) == a.hi && (a.hi << s) <= m) { r.lo = a.lo << s; r.hi = a.hi << s; }
            return norm(r, w);
        }
        if (isC(e->k[0]) && b.hi - b.lo < 64 && b.hi < w)
        {
            r = cst(e->k[0]->c << b.lo, w);
            for (u64 s = b.lo; s <= b.hi; ++s) { AB x = cst(e->k[0]->c << s, w); r = {std::min(r.lo, x.lo), std::max(r.hi, x.hi), r.k0 & x.k0, r.k1 & x.k1}; }
            return norm(r, w);
        }
        return r;
    case Op::LShr:
        if (b.cst() && b.lo < w)
        {
            unsigned s = unsigned(b.lo);
            r.k0 = (a.k0 >> s) | ~(m >> s);
            r.k1 = (a.k1 & m) >> s;
            r.lo = a.lo >> s; r.hi = a.hi >> s;
            return norm(r, w);
        }
        r.hi = a.hi;
        return norm(r, w);
    case Op::AShr:
        if (b.cst() && b.lo < w && !(a.hi >> (w - 1))) { r.lo = a.lo >> b.lo; r.hi = a.hi >> b.lo; return norm(r, w); }
        return r;
    case Op::ZExt: return norm({a.lo, a.hi, a.k0 | ~maskw(wk), a.k1}, w);
    case Op::SExt:
    {
        u64 sb = u64(1) << (wk - 1);
        if (a.hi < sb) return norm({a.lo, a.hi, a.k0 | ~maskw(wk), a.k1}, w);
        if (a.lo >= sb) { u64 x = m & ~maskw(wk); return norm({a.lo | x, a.hi | x, (a.k0 & maskw(wk)) | ~m, a.k1 | x}, w); }
        r.k0 = (a.k0 & maskw(wk - 1)) | ~m;
        r.k1 = a.k1 & maskw(wk - 1);
        return norm(r, w);
    }
    case Op::Trunc:
    {
        r.k0 = a.k0 | ~m; r.k1 = a.k1 & m;
        if ((a.lo >> w) == (a.hi >> w)) { r.lo = a.lo & m; r.hi = a.hi & m; }
        return norm(r, w);
    }
    case Op::Eq: case Op::Ne:
    {
        int t = 2;
        if (a.hi < b.lo || b.hi < a.lo || (a.k0 & b.k1) || (a.k1 & b.k0)) t = 0;
        if (t != 2 && e->op == Op::Ne) t = !t;
        return boolAB(t);
    }
    case Op::Ult: return boolAB(a.hi < b.lo ? 1 : a.lo >= b.hi ? 0 : 2);
    case Op::Ule: return boolAB(a.hi <= b.lo ? 1 : a.lo > b.hi ? 0 : 2);
    case Op::Slt: case Op::Sle:
    {
        auto rng = [&](AB x, i64& l, i64& h) {
            u64 sb = u64(1) << (wk - 1);
            if (x.hi < sb || x.lo >= sb) { l = sextw(x.lo, wk); h = sextw(x.hi, wk); }
            else { l = sextw(sb, wk); h = i64(sb - 1); }
        };
        i64 al, ah, bl, bh;
        rng(a, al, ah); rng(b, bl, bh);
        if (e->op == Op::Slt) return boolAB(ah < bl ? 1 : al >= bh ? 0 : 2);
        return boolAB(ah <= bl ? 1 : al > bh ? 0 : 2);
    }
    case Op::Table:
    {
        if (a.hi - a.lo < 4096)
        {
            unsigned step = 1;
            u64 fixed = a.k0 | a.k1; // skip impossible offsets
            bool first = true;
            (void)step; (void)fixed;
            for (u64 o = a.lo; o <= a.hi; ++o)
            {
                if ((o & a.k0) || (~o & a.k1)) continue;
                AB x = cst(evalOp(Op::Table, w, wk, o, 0, 0, e->tab), w);
                if (first) { r = x; first = false; }
                else r = {std::min(r.lo, x.lo), std::max(r.hi, x.hi), r.k0 & x.k0, r.k1 & x.k1};
            }
            return norm(r, w);
        }
        return r;
    }
    case Op::UMin: return norm({std::min(a.lo, b.lo), std::min(a.hi, b.hi), 0, 0}, w);
    case Op::UMax: return norm({std::max(a.lo, b.lo), std::max(a.hi, b.hi), 0, 0}, w);
    case Op::UAddOv: { u64 mk = maskw(wk); return boolAB((unsigned __int128)a.hi + b.hi <= mk ? 0 : (unsigned __int128)a.lo + b.lo > mk ? 1 : 2); }
    case Op::USubOv: return boolAB(a.hi < b.lo ? 1 : a.lo >= b.hi ? 0 : 2);
    case Op::UMulOv: { u64 mk = maskw(wk); return boolAB((unsigned __int128)a.hi * b.hi <= mk ? 0 : (unsigned __int128)a.lo * b.lo > mk ? 1 : 2); }
    case Op::SAddOv: case Op::SSubOv: case Op::SMulOv:
    {
        u64 sb = u64(1) << (wk - 1);
        auto rng = [&](AB x, i128& l, i128& h) {
            if (x.hi < sb || x.lo >= sb) { l = sextw(x.lo, wk); h = sextw(x.hi, wk); }
            else { l = -i128(sb); h = i128(sb) - 1; }
        };
        i128 al, ah, bl, bh, l, h;
        rng(a, al, ah); rng(b, bl, bh);
        if (e->op == Op::SAddOv) { l = al + bl; h = ah + bh; }
        else if (e->op == Op::SSubOv) { l = al - bh; h = ah - bl; }
        else { i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); }
        i128 mn = -i128(sb), mx = i128(sb) - 1;
        if (l >= mn && h <= mx) return boolAB(0);
        if (h < mn || l > mx) return boolAB(1);
        return boolAB(2);
    }
    case Op::CtTz:
    {
        // lowest possibly-set bit .. lowest known set bit
        u64 maybe = ~a.k0 & maskw(w);
        if (!maybe) return cst(w, w);
        r.lo = u64(__builtin_ctzll(maybe));
        r.hi = a.k1 ? u64(__builtin_ctzll(a.k1)) : w;
        return norm(r, w);
    }
    case Op::CtLz: { r.lo = a.hi ? u64(__builtin_clzll(a.hi)) - (64 - w) : w; r.hi = a.lo ? u64(__builtin_clzll(a.lo)) - (64 - w) : w; return norm(r, w); }
    case Op::CtPop: r.hi = w; return norm(r, w);
    case Op::USubSat: { r.lo = a.lo > b.hi ? a.lo - b.hi : 0; r.hi = a.hi > b.lo ? a.hi - b.lo : 0; return norm(r, w); }
    default: return r;
    }
}

ExP exSubst(ExP e, const std::function<ExP(i64, unsigned)>& f)
{
    if (e->leaves.empty()) return e;
    std::unordered_map<ExP, ExP> memo;
    std::function<ExP(ExP)> go = [&](ExP x) -> ExP {
        if (x->leaves.empty()) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        ExP r;
        if (x->op == Op::Leaf) r = f(x->leaf(), x->w);
        else
        {
            ExP a = go(x->k[0]), b = x->k[1] ? go(x->k[1]) : nullptr, d = x->k[2] ? go(x->k[2]) : nullptr;
            if (x->op == Op::Select) r = exSel(a, b, d);
            else if (x->op == Op::Table) r = isC(a) ? exConst(evalOp(Op::Table, x->w, a->w, a->c, 0, 0, x->tab), x->w) : mkEx(Op::Table, x->w, 0, x->tab, a);
            else if (b) r = exBin(x->op, a, b);
            else r = exUn(x->op, a, x->w);
        }
        return memo[x] = r;
    };
    return go(e);
}

ExP exReplace(ExP e, ExP from, ExP to)
{
    std::unordered_map<ExP, ExP> memo;
    std::function<ExP(ExP)> go = [&](ExP x) -> ExP {
        if (x == from) return to;
        if (x->leaves.empty() || x->op == Op::Leaf) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        ExP a = go(x->k[0]), b = x->k[1] ? go(x->k[1]) : nullptr, d = x->k[2] ? go(x->k[2]) : nullptr, r;
        if (x->op == Op::Select) r = exSel(a, b, d);
        else if (x->op == Op::Table) r = isC(a) ? exConst(evalOp(Op::Table, x->w, a->w, a->c, 0, 0, x->tab), x->w) : mkEx(Op::Table, x->w, 0, x->tab, a);
        else if (b) r = exBin(x->op, a, b);
        else r = exUn(x->op, a, x->w);
        return memo[x] = r;
    };
    return go(e);
}

//=== partition ===//
static AB setAB(SetP s, unsigned w)
{
    AB r;
    r.lo = u64(s->lo()); r.hi = u64(s->hi());
    r.k0 = r.k1 = 0;
    if (s->iv.size() <= 64)
    {
        r.k0 = r.k1 = ~u64(0);
        for (auto& p : s->iv)
        {
            AB x = norm({u64(p.first), u64(p.second), 0, 0}, w);
            r.k0 &= x.k0; r.k1 &= x.k1;
        }
    }
    return norm(r, w);
}

namespace
{
struct Part
{
    ExP cond;
    std::vector<std::pair<i64, unsigned>> leaves;
    std::map<i64, SetP> cur;
    long budget = 30000;

    AB ev(ExP e)
    {
        --budget;
        return abEval(e, [&](i64 l, unsigned w) { return setAB(cur[l], w); });
    }
    int decide()
    {
        AB r = ev(cond);
        return r.cst() ? int(r.lo) : 2;
    }
    typedef std::vector<Box> Boxes; // boxes over all leaves, in order
    // how far the comparisons below the boolean structure are from being decided
    double score(ExP e)
    {
        if (e->leaves.empty()) return 0;
        AB r = ev(e);
        if (r.cst()) return 0;
        if (e->w == 1 && (e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Select))
        {
            double t = 0;
            for (auto k : e->k) if (k) t += score(k);
            return t;
        }
        if (isCmp(e->op))
        {
            double t = 0;
            for (int i = 0; i < 2; ++i)
                if (e->k[i])
                {
                    AB a = ev(e->k[i]);
                    t += __builtin_log2(1.0 + double(a.hi - a.lo));
                    unsigned unk = 0; u64 m = maskw(e->k[i]->w) & ~(a.k0 | a.k1);
                    unk = unsigned(__builtin_popcountll(m));
                    t += 0.25 * unk;
                }
            return t;
        }
        if (e->w == 1 && (e->op == Op::Trunc || e->op == Op::ZExt || e->op == Op::LShr)) { AB a = ev(e->k[0]); return __builtin_log2(1.0 + double(a.hi - a.lo)) + 1; }
        return 4;
    }
    // split a set in two at a binary boundary
    static bool halves(SetP S, SetP& lo, SetP& hi)
    {
        if (S->single()) return false;
        u64 a = u64(S->lo()), b = u64(S->hi());
        u64 x   = a ^ b;
        u64 top = u64(1) << (63 - __builtin_clzll(x));
        i128 mid = i128(b & ~(top - 1));
        lo = ST.inter(S, ST.range(S->lo(), mid - 1));
        hi = ST.inter(S, ST.range(mid, S->hi()));
        return true;
    }
    Boxes run()
    {
        int t = decide();
        auto mk = [&](int tr) {
            Box b; b.truth = tr;
            for (auto& l : leaves) b.sets.push_back({l.first, cur[l.first]});
            return b;
        };
        if (t != 2 || budget <= 0) return {mk(t)};
        int best = -1; double bs = 1e300;
        if (leaves.size() == 1) best = cur[leaves[0].first]->single() ? -1 : 0;
        else
            for (size_t i = 0; i < leaves.size(); ++i)
            {
                i64 l = leaves[i].first;
                SetP S = cur[l], A, B;
                if (!halves(S, A, B)) continue;
                cur[l] = A; double x = score(cond);
                cur[l] = B; double y = score(cond);
                cur[l] = S;
                double sc = x + y;
                if (x == 0 || y == 0) sc -= 1000;
                if (sc < bs) { bs = sc; best = int(i); }
            }
        if (best < 0) return {mk(2)};
        i64 l = leaves[size_t(best)].first;
        SetP S = cur[l], A, B;
        halves(S, A, B);
        cur[l] = A; Boxes r = run();
        cur[l] = B; Boxes q = run();
        cur[l] = S;
        // merge boxes that differ only in leaf l
        size_t n = r.size();
        for (auto& b : q)
        {
            bool merged = false;
            for (size_t i = 0; i < n && !merged; ++i)
            {
                auto& a = r[i];
                if (a.truth != b.truth) continue;
                bool same = true;
                for (size_t k = 0; k < a.sets.size(); ++k) if (int(k) != best && a.sets[k].second != b.sets[k].second) { same = false; break; }
                if (!same) continue;
                a.sets[size_t(best)].second = ST.uni(a.sets[size_t(best)].second, b.sets[size_t(best)].second);
                merged = true;
            }
            if (!merged) r.push_back(b);
        }
        return r;
    }
};
} // namespace


//=== lanes: exact decisions on words assembled from bytes (SWAR) ===//
namespace
{
struct Lanes
{
    struct Fail {};
    struct Split { i64 leaf; SetP part; };
    struct LV { i64 leaf = INT64_MIN; std::vector<uint8_t> t; uint8_t c = 0; bool cst() const { return t.empty(); } uint8_t at(unsigned v) const { return t.empty() ? c : t[v]; } };
    std::map<i64, SetP> cur;
    std::map<std::pair<ExP, int>, LV>  lv;
    std::map<std::pair<ExP, int>, int> cy;

    static LV K(uint8_t c) { LV r; r.c = c; return r; }
    template <typename F>
    void each(i64 leaf, F f)
    {
        for (auto& p : cur.at(leaf)->iv) for (i128 v = p.first; v <= p.second; ++v) if (v >= 0 && v < 256) f(unsigned(v));
    }
    template <typename F>
    LV comb(const LV& a, const LV& b, F f)
    {
        if (a.cst() && b.cst()) return K(f(a.c, b.c));
        i64 l = a.cst() ? b.leaf : a.leaf;
        if (!a.cst() && !b.cst() && a.leaf != b.leaf) throw Fail{};
        LV r; r.leaf = l; r.t.assign(256, 0);
        bool first = true, same = true; uint8_t v0 = 0;
        each(l, [&](unsigned v) { uint8_t x = f(a.at(v), b.at(v)); r.t[v] = x; if (first) { v0 = x; first = false; } else if (x != v0) same = false; });
        if (same) return K(v0);
        return r;
    }
    LV lane(ExP e, int k)
    {
        if (isC(e)) return K(uint8_t(k < 8 ? e->c >> (8 * k) : 0));
        auto key = std::make_pair(e, k);
        auto it = lv.find(key);
        if (it != lv.end()) return it->second;
        LV r = lane1(e, k);
        // width of the last lane
        if (int(e->w) < 8 * (k + 1)) { uint8_t m = int(e->w) <= 8 * k ? 0 : uint8_t(maskw(e->w - unsigned(8 * k))); r = comb(r, K(m), [](uint8_t a, uint8_t b) { return uint8_t(a & b); }); }
        return lv[key] = r;
    }
    int carry(ExP e, int k) // into lane k
    {
        if (k == 0) return 0;
        auto key = std::make_pair(e, k);
        auto it = cy.find(key);
        if (it != cy.end()) return it->second;
        int ci = carry(e, k - 1);
        LV a = lane(e->k[0], k - 1), b = lane(e->k[1], k - 1);
        bool sub = e->op == Op::Sub;
        auto f = [&](uint8_t x, uint8_t y) { return uint8_t(sub ? int(x) < int(y) + ci : int(x) + int(y) + ci > 255); };
        LV c = comb(a, b, f);
        if (c.cst()) return cy[key] = c.c;
        std::vector<std::pair<i128, i128>> v;
        each(c.leaf, [&](unsigned x) { if (c.t[x]) v.push_back({x, x}); });
        throw Split{c.leaf, ST.get(v)};
    }
    LV lane1(ExP e, int k)
    {
        switch (e->op)
        {
        case Op::Leaf:
        {
            if (e->w > 8) throw Fail{};
            if (k > 0) return K(0);
            LV r; r.leaf = e->leaf(); r.t.assign(256, 0);
            each(r.leaf, [&](unsigned v) { r.t[v] = uint8_t(v); });
            if (cur.at(r.leaf)->single()) return K(uint8_t(cur.at(r.leaf)->lo()));
            return r;
        }
        case Op::ZExt: return lane(e->k[0], k);
        case Op::Trunc: return lane(e->k[0], k);
        case Op::And: return comb(lane(e->k[0], k), lane(e->k[1], k), [](uint8_t a, uint8_t b) { return uint8_t(a & b); });
        case Op::Or: return comb(lane(e->k[0], k), lane(e->k[1], k), [](uint8_t a, uint8_t b) { return uint8_t(a | b); });
        case Op::Xor: return comb(lane(e->k[0], k), lane(e->k[1], k), [](uint8_t a, uint8_t b) { return uint8_t(a ^ b); });
        case Op::Add: case Op::Sub:
        {
            int ci = carry(e, k);
            bool sub = e->op == Op::Sub;
            return comb(lane(e->k[0], k), lane(e->k[1], k), [&](uint8_t a, uint8_t b) { return uint8_t(sub ? a - b - ci : a + b + ci); });
        }
        case Op::Shl: case Op::LShr:
        {
            if (!isC(e->k[1]) || e->k[1]->c % 8) throw Fail{};
            int d = int(e->k[1]->c / 8);
            int j = e->op == Op::Shl ? k - d : k + d;
            return j < 0 || j >= 8 || 8 * j >= int(e->w) ? K(0) : lane(e->k[0], j);
        }
        case Op::Bswap: return lane(e->k[0], int(e->w / 8) - 1 - k);
        default: throw Fail{};
        }
    }
};
struct LanePart
{
    ExP A, B; bool ne; int n;
    std::vector<std::pair<i64, unsigned>> leaves;
    std::vector<Box> out;
    void emit(const std::map<i64, SetP>& cur, bool eq)
    {
        Box b; b.truth = eq != ne;
        for (auto& l : leaves) b.sets.push_back({l.first, cur.at(l.first)});
        out.push_back(b);
        if (out.size() > 400) throw Lanes::Fail{};
    }
    void run(int k, std::map<i64, SetP> cur)
    {
        for (; k < n; ++k)
        {
            Lanes L; L.cur = cur;
            try
            {
                auto a = L.lane(A, k), b = L.lane(B, k);
                auto d = L.comb(a, b, [](uint8_t x, uint8_t y) { return uint8_t(x == y); });
                if (d.cst()) { if (!d.c) { emit(cur, false); return; } continue; }
                std::vector<std::pair<i128, i128>> v;
                L.each(d.leaf, [&](unsigned x) { if (d.t[x]) v.push_back({x, x}); });
                SetP T = ST.get(v), S = cur[d.leaf];
                cur[d.leaf] = ST.diff(S, T); emit(cur, false);
                cur[d.leaf] = T;
            }
            catch (Lanes::Split& sp)
            {
                SetP S = cur[sp.leaf];
                cur[sp.leaf] = ST.diff(S, sp.part); run(k, cur);
                cur[sp.leaf] = sp.part; run(k, cur);
                return;
            }
        }
        emit(cur, true);
    }
};
bool lanePartition(ExP cond, const std::vector<std::pair<i64, unsigned>>& leaves, const std::map<i64, SetP>& cur, std::vector<Box>& out)
{
    if ((cond->op != Op::Eq && cond->op != Op::Ne) || cond->k[0]->w < 16 || leaves.size() < 2) return false;
    for (auto& l : leaves) if (l.second > 8) return false;
    LanePart p; p.A = cond->k[0]; p.B = cond->k[1]; p.ne = cond->op == Op::Ne; p.n = int(cond->k[0]->w + 7) / 8; p.leaves = leaves;
    try { p.run(0, cur); } catch (Lanes::Fail&) { return false; }
    out = p.out;
    return true;
}
// possible values of the trailing zero count of a word assembled from bytes
bool laneCttz(ExP x, const std::map<i64, SetP>& cur, std::set<u64>& out)
{
    Lanes L; L.cur = cur;
    try
    {
        for (int k = 0; k < int(x->w / 8); ++k)
        {
            auto a = L.lane(x, k);
            bool zero = false;
            auto add = [&](uint8_t v) { if (v) out.insert(u64(8 * k + __builtin_ctz(v))); else zero = true; };
            if (a.cst()) add(a.c); else L.each(a.leaf, [&](unsigned v) { add(a.t[v]); });
            if (!zero) return true;
        }
        out.insert(x->w);
        return true;
    }
    catch (Lanes::Fail&) { return false; }
    catch (Lanes::Split&) { return false; }
}
} // namespace

static void leafWidths(ExP e, std::map<i64, unsigned>& m, std::set<ExP>& seen)
{
    if (e->leaves.empty() || !seen.insert(e).second) return;
    if (e->op == Op::Leaf) m[e->leaf()] = e->w;
    for (auto k : e->k) if (k) leafWidths(k, m, seen);
}

static std::map<std::pair<ExP, std::vector<SetP>>, std::vector<Box>> pcache;

std::vector<Box> partition(ExP cond, const std::function<SetP(i64)>& setOf)
{
    Part p;
    p.cond = cond;
    std::map<i64, unsigned> ws;
    std::set<ExP> seen;
    leafWidths(cond, ws, seen);
    std::vector<SetP> key;
    // narrow leaves first (cells), in ascending order
    std::vector<std::pair<i64, unsigned>> ord(ws.begin(), ws.end());
    std::stable_sort(ord.begin(), ord.end(), [](auto& a, auto& b) { return a.second < b.second; });
    p.leaves = ord;
    for (auto& l : ord) { p.cur[l.first] = setOf(l.first); key.push_back(p.cur[l.first]); }
    auto ck = std::make_pair(cond, key);
    auto it = pcache.find(ck);
    if (it != pcache.end()) return it->second;
    if (pcache.size() > 200000) pcache.clear();
    // Two or more wide leaves: no useful splitting, decide by intervals only.
    unsigned wide = 0;
    for (auto& l : ord) if (l.second > 32 || (l.second > 8 && p.cur[l.first]->count() > 70000)) ++wide;
    std::vector<Box> r;
    if (wide >= 2)
    {
        int t = p.decide();
        Box b; b.truth = t;
        for (auto& l : p.leaves) b.sets.push_back({l.first, p.cur[l.first]});
        r = {b};
    }
    else if (lanePartition(cond, p.leaves, p.cur, r)) {}
    else
    {
        r = p.run();
        for (bool ch = true; ch && r.size() > 1 && r.size() < 400;)
        {
            ch = false;
            for (size_t i = 0; i < r.size() && !ch; ++i)
                for (size_t j = i + 1; j < r.size() && !ch; ++j)
                {
                    if (r[i].truth != r[j].truth) continue;
                    int d = -1, nd = 0;
                    for (size_t k = 0; k < r[i].sets.size(); ++k) if (r[i].sets[k].second != r[j].sets[k].second) { d = int(k); ++nd; }
                    if (nd != 1) continue;
                    r[i].sets[size_t(d)].second = ST.uni(r[i].sets[size_t(d)].second, r[j].sets[size_t(d)].second);
                    r.erase(r.begin() + long(j));
                    ch = true;
                }
        }
        // Merge: if single leaf, union the groups of equal truth.
        if (p.leaves.size() == 1)
        {
            std::map<int, SetP> m;
            for (auto& b : r) { auto s = b.sets[0].second; m[b.truth] = m.count(b.truth) ? ST.uni(m[b.truth], s) : s; }
            r.clear();
            for (auto& x : m) { Box b; b.truth = x.first; b.sets.push_back({p.leaves[0].first, x.second}); r.push_back(b); }
        }
    }
    return pcache[ck] = r;
}

AB rangeOf(ExP e, const std::function<SetP(i64)>& setOf)
{
    return abEval(e, [&](i64 l, unsigned w) { return setAB(setOf(l), w); });
}

bool possibleValues(ExP e, const std::function<SetP(i64)>& setOf, unsigned maxn, std::vector<u64>& out)
{
    std::set<u64> vals;
    std::map<i64, unsigned> ws;
    std::set<ExP> seen;
    leafWidths(e, ws, seen);
    std::map<i64, SetP> cur;
    i128 total = 1;
    for (auto& l : ws) { cur[l.first] = setOf(l.first); total *= cur[l.first]->count(); if (total > 20000) total = 20001; }
    AB r = abEval(e, [&](i64 l, unsigned w) { return setAB(cur[l], w); });
    if (r.cst()) { out = {r.lo}; return true; }
    if (total > 20000)
    {
        if (e->w == 1) { out = {0, 1}; return true; }
        // a trailing zero count of a word
        ExP ct = nullptr; bool many = false;
        std::set<ExP> sn;
        std::function<void(ExP)> find = [&](ExP x) {
            if (x->leaves.empty() || !sn.insert(x).second) return;
            if (x->op == Op::CtTz) { if (ct && ct != x) many = true; ct = x; return; }
            if (x->op == Op::Leaf) { many = true; return; }
            for (auto k : x->k) if (k) find(k);
        };
        find(e);
        std::set<u64> cz;
        if (ct && !many && laneCttz(ct->k[0], cur, cz) && cz.size() <= 64)
        {
            for (u64 z : cz)
            {
                std::function<ExP(ExP)> sub = [&](ExP x) -> ExP {
                    if (x == ct) return exConst(z, x->w);
                    if (x->leaves.empty()) return x;
                    if (x->op == Op::ZExt || x->op == Op::SExt || x->op == Op::Trunc || !x->k[1]) return exUn(x->op, sub(x->k[0]), x->w);
                    if (x->op == Op::Select) return exSel(sub(x->k[0]), sub(x->k[1]), sub(x->k[2]));
                    return exBin(x->op, sub(x->k[0]), sub(x->k[1]));
                };
                ExP v = sub(e);
                if (!isC(v)) return false;
                vals.insert(v->c);
                if (vals.size() > maxn) return false;
            }
            out.assign(vals.begin(), vals.end());
            return true;
        }
        return false;
    }
    std::vector<std::pair<i64, unsigned>> ls(ws.begin(), ws.end());
    std::function<bool(size_t, std::map<i64, u64>&)> go = [&](size_t i, std::map<i64, u64>& asg) -> bool {
        if (i == ls.size())
        {
            AB v = abEval(e, [&](i64 l, unsigned w) { return cst(asg[l], w); });
            if (!v.cst()) return false;
            vals.insert(v.lo);
            return vals.size() <= maxn;
        }
        for (auto& p : cur[ls[i].first]->iv)
            for (i128 x = p.first; x <= p.second; ++x) { asg[ls[i].first] = u64(x); if (!go(i + 1, asg)) return false; }
        return true;
    };
    std::map<i64, u64> asg;
    if (!go(0, asg)) return false;
    out.assign(vals.begin(), vals.end());
    return true;
}

//=== linear forms over the bits of leaves ===//
// value = c + sum of coef * bit, modulo 2^w.  Equality of two expressions is decided on the difference of their forms.
namespace
{
struct LinSplit { i64 leaf; std::vector<SetP> parts; };
struct Lin
{
    bool ok = true;
    u64  c  = 0;
    std::map<std::pair<ExP, unsigned>, u64> t; // (leaf or opaque expression, bit) -> coefficient mod 2^w
};
struct LinCtx
{
    const std::function<SetP(i64)>& setOf;
    std::map<ExP, Lin> memo;
    explicit LinCtx(const std::function<SetP(i64)>& f) : setOf(f) {}

    static void norm(Lin& l, unsigned w)
    {
        l.c &= maskw(w);
        for (auto it = l.t.begin(); it != l.t.end();)
        {
            it->second &= maskw(w);
            if (!it->second) it = l.t.erase(it); else ++it;
        }
    }
    static void addTo(Lin& a, const Lin& b, u64 f)
    {
        a.c += b.c * f;
        for (auto& x : b.t) a.t[x.first] += x.second * f;
    }
    // is the integer value c + sum coef*bit inside [0, 2^w) with coefficients read as signed?
    bool noWrap(const Lin& l, unsigned w, i128& lo, i128& hi, int* reading = nullptr)
    {
        for (int mode = 0; mode < 2; ++mode) // 0: all coefficients unsigned, 1: large ones negative
        {
            auto val = [&](u64 v) -> i128 { return mode == 0 ? i128(v & maskw(w)) : i128(sextw(v, w)); };
            lo = hi = mode == 0 ? i128(l.c & maskw(w)) : i128(sextw(l.c, w));
            std::map<ExP, std::vector<std::pair<unsigned, u64>>> by;
            for (auto& x : l.t) by[x.first.first].push_back({x.first.second, x.second});
            for (auto& x : by)
            {
                bool done = false;
                if (x.first->op == Op::Leaf)
                {
                    SetP s = setOf(x.first->leaf());
                    i128 m = 0; bool uni = true; u64 mask = 0;
                    for (auto& y : x.second)
                    {
                        i128 v = val(y.second);
                        if (v % (i128(1) << y.first)) { uni = false; break; }
                        i128 q = v / (i128(1) << y.first);
                        if (m == 0) m = q; else if (q != m) { uni = false; break; }
                        mask |= u64(1) << y.first;
                    }
                    if (uni && s->lo() >= 0 && s->hi() <= i128(~u64(0)))
                    {
                        // bits of the leaf that are the same in all its values (they are part of c already)
                        u64 o = 0, n = ~u64(0);
                        for (auto& p : s->iv)
                        {
                            u64 p0 = u64(p.first), p1 = u64(p.second), d = p0 ^ p1; unsigned bb = 0;
                            while (bb < 64 && (d >> bb)) ++bb;
                            u64 low = bb >= 64 ? ~u64(0) : ((u64(1) << bb) - 1);
                            o |= p0 | p1 | low; n &= (p0 & p1) & ~low;
                        }
                        i128 l0 = 0, h0 = i128(mask);
                        if (!((o & ~n) & ~mask) && !(n & mask)) { l0 = s->lo() - i128(n); h0 = s->hi() - i128(n); }
                        if (m >= 0) { lo += m * l0; hi += m * h0; } else { lo += m * h0; hi += m * l0; }
                        done = true;
                    }
                }
                if (!done)
                    for (auto& y : x.second) { i128 v = val(y.second); if (v > 0) hi += v; else lo += v; }
            }
            if (lo >= 0 && hi <= i128(maskw(w))) { if (reading) *reading = mode; return true; }
        }
        return false;
    }
    // bit view: for every bit position either a constant (key.first null) or an atom
    struct Bits { bool ok = false; std::vector<std::pair<ExP, unsigned>> b; u64 one = 0; };
    Bits bits(const Lin& l, unsigned w)
    {
        Bits r; r.b.assign(w, {nullptr, 0});
        u64 used = l.c & maskw(w);
        r.one = used;
        for (auto& x : l.t)
        {
            u64 v = x.second & maskw(w);
            if (!v) continue;
            if (v & (v - 1)) return r;
            if (used & v) return r;
            used |= v;
            r.b[size_t(__builtin_ctzll(v))] = x.first;
        }
        r.ok = true;
        return r;
    }
    Lin fromBits(const Bits& b, unsigned w)
    {
        Lin l; l.c = b.one & maskw(w);
        for (unsigned i = 0; i < w; ++i) if (b.b[i].first) l.t[b.b[i]] += u64(1) << i;
        return l;
    }
    Lin opaque(ExP e)
    {
        Lin l;
        AB r = rangeOf(e, setOf);
        for (unsigned i = 0; i < e->w; ++i)
        {
            u64 m = u64(1) << i;
            if (r.k0 & m) continue;
            if (r.k1 & m) { l.c |= m; continue; }
            l.t[{e, i}] = m;
        }
        return l;
    }
    const Lin& get(ExP e)
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Lin r = calc(e);
        norm(r, e->w);
        return memo[e] = r;
    }
    Lin calc(ExP e)
    {
        unsigned w = e->w;
        if (e->op == Op::Const) { Lin l; l.c = e->c; return l; }
        if (e->op == Op::Leaf) return opaque(e);
        { AB r = rangeOf(e, setOf); if (r.cst()) { Lin l; l.c = r.lo; return l; } }
        auto K = [&](int i) -> const Lin& { return get(e->k[i]); };
        switch (e->op)
        {
        case Op::Add: { Lin l = K(0); addTo(l, K(1), 1); return l; }
        case Op::Sub: { Lin l = K(0); addTo(l, K(1), ~u64(0)); return l; }
        case Op::Mul:
            if (K(1).t.empty()) { Lin l; addTo(l, K(0), K(1).c); return l; }
            if (K(0).t.empty()) { Lin l; addTo(l, K(1), K(0).c); return l; }
            break;
        case Op::Shl:
            if (K(1).t.empty() && K(1).c < w) { Lin l; addTo(l, K(0), u64(1) << K(1).c); return l; }
            break;
        case Op::Trunc: return K(0);
        case Op::ZExt:
        {
            Lin l = K(0); unsigned kw = e->k[0]->w; i128 lo, hi;
            if (bits(l, kw).ok) return l;
            if (noWrap(l, kw, lo, hi))
            {
                // keep the reading (signed or unsigned coefficients) that does not wrap
                Lin u = l; bool uns = acceptedUnsigned(l, kw);
                if (!uns) { u.c = u64(sextw(l.c, kw)); for (auto& x : u.t) x.second = u64(sextw(x.second, kw)); }
                return u;
            }
            break;
        }
        case Op::SExt:
        {
            Lin l = K(0); unsigned kw = e->k[0]->w; i128 lo, hi;
            Bits b = bits(l, kw);
            if (b.ok)
            {
                Lin r = fromBits(b, kw);
                if (b.b[kw - 1].first) r.t[b.b[kw - 1]] = 0 - (u64(1) << (kw - 1));
                else if (b.one >> (kw - 1) & 1) r.c = u64(sextw(r.c, kw));
                return r;
            }
            if (noWrap(l, kw, lo, hi) && hi < (i128(1) << (kw - 1))) { if (acceptedUnsigned(l, kw)) return l; Lin u = l; u.c = u64(sextw(l.c, kw)); for (auto& x : u.t) x.second = u64(sextw(x.second, kw)); return u; }
            break;
        }
        case Op::And: case Op::Or: case Op::Xor:
        {
            Bits a = bits(K(0), w), b = bits(K(1), w), r;
            if (!a.ok || !b.ok) break;
            r.b.assign(w, {nullptr, 0}); r.ok = true;
            for (unsigned i = 0; i < w && r.ok; ++i)
            {
                auto x = a.b[i], y = b.b[i];
                bool xc = !x.first, yc = !y.first, x1 = a.one >> i & 1, y1 = b.one >> i & 1;
                if (xc && yc) { bool v = e->op == Op::And ? (x1 && y1) : e->op == Op::Or ? (x1 || y1) : (x1 != y1); if (v) r.one |= u64(1) << i; }
                else if (xc || yc)
                {
                    bool k = xc ? x1 : y1; auto v = xc ? y : x;
                    if (e->op == Op::And) { if (k) r.b[i] = v; }
                    else if (e->op == Op::Or) { if (k) r.one |= u64(1) << i; else r.b[i] = v; }
                    else { if (k) r.ok = false; else r.b[i] = v; }
                }
                else if (x == y) { if (e->op != Op::Xor) r.b[i] = x; }
                else r.ok = false;
            }
            if (r.ok) return fromBits(r, w);
            break;
        }
        default: break;
        }
        if (e->op == Op::And && K(1).t.empty())
        {
            u64 m = K(1).c & maskw(w);
            if (m && !(m & (m + 1)) && m != maskw(w))
            {
                unsigned kw = unsigned(__builtin_popcountll(m)); Lin l = K(0); norm(l, kw); i128 lo, hi; int rd = 0;
                if (noWrap(l, kw, lo, hi, &rd)) { if (rd) { l.c = u64(sextw(l.c, kw)); for (auto& x : l.t) x.second = u64(sextw(x.second, kw)); } return l; }
            }
        }
        switch (e->op)
        {
        case Op::Xor:
        {
            // complement: x ^ ~0 == -1 - x
            if (e->op == Op::Xor && K(1).t.empty() && (K(1).c & maskw(w)) == maskw(w)) { Lin l; l.c = ~u64(0); addTo(l, K(0), ~u64(0)); return l; }
            break;
        }
        case Op::LShr: case Op::AShr:
        {
            if (!K(1).t.empty() || K(1).c >= w) break;
            Bits a = bits(K(0), w); unsigned n = unsigned(K(1).c);
            if (!a.ok) break;
            if (e->op == Op::AShr && (a.b[w - 1].first || (a.one >> (w - 1) & 1))) break;
            Bits r; r.ok = true; r.b.assign(w, {nullptr, 0}); r.one = (a.one & maskw(w)) >> n;
            for (unsigned i = n; i < w; ++i) r.b[i - n] = a.b[i];
            return fromBits(r, w);
        }
        case Op::Bswap:
        {
            Bits a = bits(K(0), w);
            if (!a.ok || w % 8) break;
            Bits r; r.ok = true; r.b.assign(w, {nullptr, 0});
            for (unsigned i = 0; i < w; ++i) { unsigned j = (w / 8 - 1 - i / 8) * 8 + i % 8; r.b[j] = a.b[i]; if (a.one >> i & 1) r.one |= u64(1) << j; }
            return fromBits(r, w);
        }
        case Op::UDiv:
        {
            // exact division by a power of two only
            break;
        }
        default: break;
        }
        // a function of one small leaf: affine, or affine on a few parts of its set
        if (e->leaves.size() == 1)
        {
            i64 lf = e->leaves[0]; SetP s = setOf(lf);
            if (s->lo() >= 0 && s->count() >= 2 && s->count() <= 300)
            {
                ExP le = leafOf(e);
                std::vector<u64> xs, fs;
                for (auto& p : s->iv) for (i128 x = p.first; x <= p.second; ++x) { u64 v = u64(x); xs.push_back(v); AB r = abEval(e, [&](i64, unsigned lw) { AB q; q.lo = q.hi = v; q.k1 = v; q.k0 = ~v; (void)lw; return q; }); if (!r.cst()) return opaque(e); fs.push_back(r.lo); }
                u64 m = (fs[1] - fs[0]) & maskw(w);
                if (xs[1] != xs[0] + 1) m = 1;
                bool aff = true;
                for (size_t i = 1; i < xs.size(); ++i) if (((fs[i] - fs[0]) & maskw(w)) != ((xs[i] - xs[0]) * m & maskw(w))) { aff = false; break; }
                if (aff) { Lin l; l.c = fs[0] - xs[0] * m; addTo(l, opaque(le), m); return l; }
                if (parts.empty())
                {
                    std::vector<SetP> ps; size_t b = 0;
                    for (size_t i = 1; i <= xs.size(); ++i)
                        if (i == xs.size() || xs[i] != xs[i - 1] + 1 || ((fs[i] - fs[i - 1]) & maskw(w)) != 1) { ps.push_back(ST.range(i128(xs[b]), i128(xs[i - 1]))); b = i; }
                    if (ps.size() > 1 && ps.size() <= 8) { splitLeaf = lf; parts = ps; }
                }
            }
        }
        return opaque(e);
    }
    i64 splitLeaf = 0; std::vector<SetP> parts;
    static ExP leafOf(ExP e)
    {
        if (e->op == Op::Leaf) return e;
        for (auto k : e->k) if (k && !k->leaves.empty()) return leafOf(k);
        return nullptr;
    }
    bool acceptedUnsigned(const Lin& l, unsigned w) { i128 lo, hi; int r = 1; return noWrap(l, w, lo, hi, &r) && r == 0; }
};
} // namespace

// 1: equal, 0: different, 2: split (parts of one leaf), 3: unknown
int eqLin(ExP a, ExP b, const std::function<SetP(i64)>& setOf, i64& leaf, std::vector<SetP>& parts)
{
    LinCtx c(setOf);
    unsigned w = a->w;
    Lin d = c.get(a);
    LinCtx::addTo(d, c.get(b), ~u64(0));
    LinCtx::norm(d, w);
    if (d.t.empty()) return d.c == 0;
    if (!c.parts.empty()) { leaf = c.splitLeaf; parts = c.parts; return 2; }
    // the difference cannot be zero if it cannot be zero modulo a power of two
    {
        u64 low = 0; for (auto& x : d.t) low |= x.second;
        unsigned z = unsigned(__builtin_ctzll(low));
        if (d.c & ((u64(1) << z) - 1)) return 0;
    }
    if (getenv("LXDBG")) { fprintf(stderr, "eqLin c=%llx:", (unsigned long long)d.c); for (auto& x : d.t) fprintf(stderr, " %s.%u*%llx", exstr(x.first.first).c_str(), x.first.second, (unsigned long long)x.second); fprintf(stderr, "\n"); }
    if (d.t.size() > 24) return 3;
    for (auto it = d.t.rbegin(); it != d.t.rend(); ++it)
    {
        auto [e, bit] = it->first;
        if (e->op != Op::Leaf) continue;
        // split the leaf on this bit
        SetP s = setOf(e->leaf());
        std::vector<std::pair<i128, i128>> z, o;
        i128 step = i128(1) << bit;
        size_t n = 0;
        for (auto& p : s->iv)
        {
            i128 cur = p.first;
            while (cur <= p.second)
            {
                i128 end = std::min(p.second, (cur / step) * step + step - 1);
                ((cur / step) & 1 ? o : z).push_back({cur, end});
                cur = end + 1;
                if (++n > 70000) return 3;
            }
        }
        if (z.empty() || o.empty()) continue;
        leaf = e->leaf();
        parts = {ST.get(z), ST.get(o)};
        return 2;
    }
    return 3;
}
