// A memory resource that checks what is given back. Define CHECK before.
#pragma once
#ifndef RES_MAX
#define RES_MAX 6
#endif
namespace
{
struct Block { void* p; std::size_t n, a; int owner; };
struct Heap
{
    Block    b[RES_MAX];
    int      live = 0, total = 0;
    void add(void* p, std::size_t n, std::size_t a, int owner)
    {
        if (live == RES_MAX) vp_imprecise();
        b[live++] = {p, n, a, owner};
        ++total;
    }
    void remove(void* p, std::size_t n, std::size_t a, int owner)
    {
        for (int i = 0; i < live; ++i)
            if (b[i].p == p)
            {
                CHECK(b[i].n == n, "memory is given back with another size than it was requested with");
                CHECK(b[i].a == a, "memory is given back with another alignment than it was requested with");
                CHECK(b[i].owner == owner, "memory is given back to another resource than it came from");
                b[i] = b[--live];
                return;
            }
        CHECK(false, "memory is given back that is not allocated");
    }
};
struct Res
{
    Heap* heap;
    int   id;
    void* allocate(std::size_t n, std::size_t a)
    {
        auto p = vp_alloc(n);
        heap->add(p, n, a, id);
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t a)
    {
        heap->remove(p, n, a, id);
        vp_free(p, n);
    }
    friend bool operator==(const Res& l, const Res& r) { return l.id == r.id; }
    friend bool operator!=(const Res& l, const Res& r) { return l.id != r.id; }
};
} // namespace
