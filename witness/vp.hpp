// Vocabulary between the witnesses and the abstract interpreter (lxai).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
// The abstract input: a sequence of unknown code units of unknown length.
const void* vp_tape(int unit_bytes, int64_t sentinel, int padded);
const void* vp_tape_end();
void        vp_tape_domain(int64_t lo, int64_t hi);
void        vp_tape_domain_add(int64_t lo, int64_t hi);
void        vp_retain(int k);  // cells kept after every live position at loop heads
void        vp_maxlen(int n);  // restrict the input to at most n code units
void        vp_exact();        // no joins: for inputs of bounded length
void        vp_depth(int n);   // call depth bound
const void* vp_pos(const void* p); // position for comparison only; also checks that it is inside the input
int         vp_at_end(const void* p);
int         vp_is_input(const void* p);

// Unknown values.
int      vp_choice(int n);
uint64_t vp_any(int bits);
uint64_t vp_any_range(uint64_t lo, uint64_t hi);
uint64_t vp_concretize(uint64_t);
void     vp_assume(bool);
bool     vp_split(bool);

// Verdicts.
[[noreturn]] void vp_violation(const char* code, const char* msg);
[[noreturn]] void vp_stop();
void              vp_cover_decl(const char* name);
void              vp_cover(const char* name);
void              vp_imprecise();

// Specification automata running along the input.
void vp_spec(int slot, int (*step)(int q, int c), int q0, const void* p);
int  vp_spec_at(int slot, const void* p);

// Heap.
void* vp_alloc(size_t n);
void  vp_free(void* p, size_t n);
int   vp_heap_live();
void  vp_heap_track();
int   vp_same_object(const void*, const void*);
}

#define VP_CHECK(code, cond, msg)                                                                  \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
            vp_violation(code, msg);                                                               \
    } while (0)
#define WITNESS(name) extern "C" void w_##name()

namespace vp
{
// the thorough tier looks at longer inputs
#ifdef VP_THOROUGH
constexpr int MORE = 1;
#else
constexpr int MORE = 0;
#endif
} // namespace vp
