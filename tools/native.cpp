// Development aid: runs a witness natively on one concrete input, to confirm a finding against the real code.
// native.sh witness.cpp w_name 'input'
#include "../witness/vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
static const char* in; static size_t len; static int unit; static char* buf; 
static int choices[64], nch, ich;
extern "C" {
const void* vp_tape(int u, int64_t s, int) { unit = u; buf = (char*)malloc(len * u + u + 64); for (size_t i = 0; i < len; ++i) for (int k = 0; k < u; ++k) buf[i * u + k] = k ? 0 : in[i]; memset(buf + len * u, 0xff, u + 64); return buf; }
const void* vp_tape_end() { return buf + len * unit; }
void vp_tape_domain(int64_t, int64_t) {} void vp_tape_domain_add(int64_t, int64_t) {} void vp_retain(int) {} void vp_maxlen(int) {} void vp_depth(int) {} void vp_exact() {}
const void* vp_pos(const void* p) { return p; }
int vp_at_end(const void* p) { return p == vp_tape_end(); }
int vp_is_input(const void* p) { return p >= buf && p <= vp_tape_end(); }
int vp_choice(int n) { return ich < nch ? choices[ich++] : 0; }
uint64_t vp_any(int) { return ich < nch ? choices[ich++] : 0; } uint64_t vp_any_range(uint64_t lo, uint64_t) { return ich < nch ? choices[ich++] : lo; } uint64_t vp_concretize(uint64_t x) { return x; }
void vp_assume(bool b) { if (!b) { puts("assumption false"); exit(0); } } bool vp_split(bool b) { return b; }
void vp_violation(const char* c, const char* m) { printf("VIOLATION %s %s\n", c, m); exit(1); }
void vp_stop() { puts("stop"); exit(0); }
void vp_cover_decl(const char*) {} void vp_cover(const char* n) { printf("cover %s\n", n); } void vp_imprecise() {}
static int (*st)(int, int); static int q0; static const void* p0;
static int (*st2[2])(int, int); static int q02[2]; static const void* p02[2];
void vp_spec(int s, int (*f)(int, int), int q, const void* p) { st2[s] = f; q02[s] = q; p02[s] = p; }
int vp_spec_at(int s, const void* p) { int q = q02[s]; for (auto c = (const unsigned char*)p02[s]; c != p; ++c) q = st2[s](q, *c); return q; }
static int live;
void* vp_alloc(size_t n) { ++live; return malloc(n); } void vp_free(void* p, size_t) { --live; free(p); } int vp_heap_live() { return live; } void vp_heap_track() {}
int vp_same_object(const void* a, const void* b) { return a == b; }
}
int main(int argc, char** argv)
{
    in = argc > 2 ? argv[2] : ""; len = strlen(in); for (int i = 3; i < argc; ++i) choices[nch++] = atoi(argv[i]);
    auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { puts("no such witness"); return 2; } f(); puts("done");
}
