// lxai: abstract state
#pragma once
#include "core.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"

enum class K : uint8_t { Undef, Int, Ptr, Pos, End, Fn, Agg, Bundle, Dist }; // Dist: (End - position) >> w
struct AggD;
struct AV
{
    K       k   = K::Undef;
    uint8_t w   = 0;         // Int: width.  Pos: 1 = weak (monitor) position
    int32_t obj = 0;         // Ptr: object id (0 = null).  Pos: tape element id.  Fn: function index
    ExP     e   = nullptr;   // Int: value.  Ptr: byte offset.   null: constant in c
    i64     c   = 0;
    std::shared_ptr<const AggD> agg;
    bool isConst() const { return k == K::Int && !e; }
};
struct AggD
{
    std::vector<AV>                  v;
    std::vector<std::pair<int, int>> pos; // Bundle: (offset,size)
};
inline AV mkInt(u64 v, unsigned w) { AV a; a.k = K::Int; a.w = uint8_t(w); a.c = i64(v & maskw(w)); return a; }
inline AV mkE(ExP e) { if (isC(e)) return mkInt(e->c, e->w); AV a; a.k = K::Int; a.w = e->w; a.e = e; return a; }
inline AV mkPtr(int obj, i64 off) { AV a; a.k = K::Ptr; a.obj = obj; a.c = off; return a; }
inline AV mkPos(int id, i64 off = 0, bool weak = false) { AV a; a.k = K::Pos; a.obj = id; a.c = off; a.w = weak; return a; }
inline AV mkEnd(i64 off = 0) { AV a; a.k = K::End; a.c = off; return a; }
inline ExP toE(const AV& a) { return a.e ? a.e : exConst(u64(a.c), a.w); }

enum class Fill : uint8_t { Undef, Zero, Init };
struct Cell { i64 off; i64 size; AV v; };
struct Obj
{
    int      kind  = 0; // 0 stack, 1 heap, 2 global
    i64      size  = 0;
    bool     freed = false, konst = false;
    Fill     fill  = Fill::Undef;
    const llvm::GlobalVariable* init = nullptr;
    unsigned site  = 0;
    std::vector<Cell> cells; // sorted, disjoint
};
typedef std::shared_ptr<Obj> ObjP;

const int QNONE = INT32_MIN, QLOST = INT32_MIN + 1;
struct Elem
{
    int  id;
    bool gap;
    SetP set;
    bool lossy = false; // set was over-approximated by a join
    int  qa[2] = {QNONE, QNONE};
};
struct FnInfo;
struct Frame
{
    FnInfo* f    = nullptr;
    int     bb   = 0;
    int     ip   = 0; // next instruction (index into Ins of bb, after the phis)
    bool    fresh = true; // block just entered, canonicalisation pending
    const llvm::Instruction* call = nullptr; // call instruction in the caller
    std::vector<std::pair<int, AV>> env; // sorted by value index
    std::vector<int> allocas;
};
struct Trail { SetP set; bool gap; std::shared_ptr<Trail> prev; unsigned n; };
struct Sym { i64 id; unsigned w; SetP set; };
struct State
{
    std::vector<Frame> fr;
    std::vector<std::pair<int, ObjP>> mem; // sorted by id
    bool tapeOn = false;
    int  unit = 1, K = 3, maxlen = 0, absEnd = 0;
    i64 sentinel = -1;
    bool pad = false;
    SetP dom = nullptr, domE = nullptr;
    std::vector<Elem> tape;
    const llvm::Function* spec[2] = {nullptr, nullptr};
    int  q[2] = {0, 0};
    std::vector<Sym> syms;
    std::vector<std::pair<ExP, int>> decided;
    bool imprecise = false, progress = false;
    int why = -1; // first reason of imprecision
    std::shared_ptr<Trail> trail;
    int  nextObj = 1;
    int  heapCheck = 0;
    unsigned node = 0;
    unsigned depthCut = 64;
    u64 steps = 0;
};
