// Buffers: contents, end marker, memory resource. Sizes and operations are chosen, contents are arbitrary.
#include "acc.hpp"
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#define CHECK(c, m) VP_CHECK("C16", c, m)
#include "res.hpp"
namespace
{
template <typename Enc> constexpr bool sentinel = std::is_same_v<typename Enc::char_type, typename Enc::int_type>;
// arbitrary contents; the end marker itself is not a valid unit where it is of the same type
template <typename Enc, int N> struct Src
{
    typename Enc::char_type c[N + 1];
    int n;
    explicit Src(int min = 0) : n(0)
    {
        n = min + vp_choice(N + 1 - min);
        for (int i = 0; i < n; ++i)
        {
            auto x = vp_any(sizeof(c[0]) * 8);
            c[i] = typename Enc::char_type(x);
            if constexpr (sentinel<Enc>) vp_assume(c[i] != Enc::eof());
        }
    }
};
template <typename Enc, typename Buf, typename C>
inline void same(const Buf& b, const C* src, std::size_t n)
{
    CHECK(b.size() == n, "buffer has another size than its contents");
    for (std::size_t i = 0; i < n; ++i) CHECK(b.data()[i] == typename Enc::char_type(src[i]), "buffer does not hold the given code units");
    auto r = b.reader();
    for (std::size_t i = 0; i < n; ++i)
    {
        CHECK(r.peek() == Enc::to_int_type(typename Enc::char_type(src[i])), "reading the buffer gives other code units");
        r.bump();
    }
    CHECK(r.peek() == Enc::eof(), "no end marker after the contents");
    if constexpr (sentinel<Enc>)
    {
        // the word that contains the end marker, wherever the reader stands, is inside of the memory
        auto w = b.reader();
        for (std::size_t k = 0; k <= n; ++k)
        {
            (void)w.peek_swar();
            if (k < n) w.bump();
        }
    }
}
template <typename Enc, int N> inline void ctor()
{
    using C = typename Enc::char_type;
    using B = lexy::buffer<Enc, Res>;
    vp_exact(); vp_cover_decl("done");
    Heap heap;
    Res  r1{&heap, 1}, r2{&heap, 2};
    Src<Enc, N> s;
    switch (vp_choice(8))
    {
    case 0: { B b(s.c, std::size_t(s.n), &r1); same<Enc>(b, s.c, s.n); break; }
    case 1: { B b(s.c, s.c + s.n, &r1); same<Enc>(b, s.c, s.n); break; }
    case 2: { struct View { const C* p; std::size_t n; const C* data() const { return p; } std::size_t size() const { return n; } } v{s.c, std::size_t(s.n)}; B b(v, &r1); same<Enc>(b, s.c, s.n); break; }
    case 3: {
        typename B::builder bld(std::size_t(s.n), &r1);
        CHECK(bld.size() == std::size_t(s.n), "builder has another size");
        for (int i = 0; i < s.n; ++i) bld.data()[i] = s.c[i];
        B b = static_cast<typename B::builder&&>(bld).finish();
        same<Enc>(b, s.c, s.n);
        break;
    }
    case 4: { B b(s.c, std::size_t(s.n), &r1); B c(b); same<Enc>(c, s.c, s.n); same<Enc>(b, s.c, s.n); CHECK(s.n == 0 || b.data() != c.data(), "copies share their memory"); break; }
    case 5: { B b(s.c, std::size_t(s.n), &r1); B c(b, &r2); same<Enc>(c, s.c, s.n); same<Enc>(b, s.c, s.n); CHECK(s.n == 0 || b.data() != c.data(), "copies share their memory"); break; }
    case 6: { B b(s.c, std::size_t(s.n), &r1); B c(static_cast<B&&>(b)); same<Enc>(c, s.c, s.n); same<Enc>(b, s.c, 0); CHECK(heap.total == 1, "move allocates"); break; }
    case 7: {
        B b(s.c, std::size_t(s.n), &r1);
        auto n = b.size();
        auto p = static_cast<B&&>(b).release();
        CHECK(b.size() == 0 && heap.live == 1, "release does not give up ownership");
        B c = B::adopt(p, n, &r1);
        same<Enc>(c, s.c, s.n);
        break;
    }
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
template <typename Enc, int N> inline void assign()
{
    using B = lexy::buffer<Enc, Res>;
    vp_exact(); vp_cover_decl("done");
    Heap heap;
    Res  r1{&heap, 1}, r2{&heap, 2};
    Src<Enc, N> s, t;
    {
        B  a(s.c, std::size_t(s.n), &r1);
        B  b(t.c, std::size_t(t.n), vp_choice(2) ? &r1 : &r2);
        B  e(&r1);
        switch (vp_choice(6))
        {
        case 0: { auto& x = (a = b); same<Enc>(x, t.c, t.n); same<Enc>(b, t.c, t.n); CHECK(&x == &a, "assignment returns something else"); break; }
        case 1: { auto& x = (a = static_cast<B&&>(b)); same<Enc>(x, t.c, t.n); CHECK(&x == &a, "assignment returns something else"); break; }
        case 2: { auto& x = a; a = x; same<Enc>(a, s.c, s.n); break; }
        case 3: { e = b; same<Enc>(e, t.c, t.n); same<Enc>(a, s.c, s.n); break; }
        case 4: { e = static_cast<B&&>(b); same<Enc>(e, t.c, t.n); break; }
        case 5: { a = static_cast<B&&>(b); B c(static_cast<B&&>(a)); same<Enc>(c, t.c, t.n); a = c; same<Enc>(a, t.c, t.n); break; }
        }
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
template <typename Enc> inline void empty()
{
    using B = lexy::buffer<Enc, Res>;
    vp_exact(); vp_cover_decl("done");
    Heap heap;
    Res  r1{&heap, 1};
    typename Enc::char_type none[1] = {};
    {
        B b(&r1);
        same<Enc>(b, none, 0);
        B c(b);
        same<Enc>(c, none, 0);
        B d(static_cast<B&&>(b));
        same<Enc>(d, none, 0);
        same<Enc>(b, none, 0);
        c = d;
        same<Enc>(c, none, 0);
    }
    CHECK(heap.live == 0, "memory is not given back");
    {
        lexy::buffer<Enc> b;
        same<Enc>(b, none, 0);
    }
    CHECK(vp_heap_live() == 0, "memory is not given back");
    vp_cover("done");
}
// the default resource
template <typename Enc, int N> inline void plain()
{
    using B = lexy::buffer<Enc>;
    vp_exact(); vp_cover_decl("done"); vp_heap_track();
    Src<Enc, N> s, t;
    {
        B a(s.c, std::size_t(s.n)), b(t.c, std::size_t(t.n));
        same<Enc>(a, s.c, s.n);
        B c(a);
        same<Enc>(c, s.c, s.n);
        if (vp_choice(2)) c = b; else c = static_cast<B&&>(b);
        same<Enc>(c, t.c, t.n);
        B d(static_cast<B&&>(c));
        same<Enc>(d, t.c, t.n);
        same<Enc>(a, s.c, s.n);
    }
    CHECK(vp_heap_live() == 0, "memory is not given back");
    vp_cover("done");
}
// raw bytes
template <typename Enc, lexy::encoding_endianness E, int N> inline void raw()
{
    using C = typename Enc::char_type;
    constexpr int W = sizeof(C);
    vp_exact(); vp_cover_decl("done");
    unsigned char bytes[N * W + 1];
    int n = vp_choice(N + 1) * W;
    for (int i = 0; i < n; ++i) bytes[i] = (unsigned char)(vp_any(8));
    Heap heap;
    Res  r{&heap, 1};
    {
        auto b = lexy::make_buffer_from_raw<Enc, E>(bytes, std::size_t(n), &r);
        int  skip = 0;
        bool big  = E != lexy::encoding_endianness::little;
        if constexpr (E == lexy::encoding_endianness::bom)
        {
            // which byte order mark is there
            if constexpr (W == 1) { if (n >= 3 && vp_split(bytes[0] == 0xEF) && vp_split(bytes[1] == 0xBB) && vp_split(bytes[2] == 0xBF)) skip = 3; }
            else if constexpr (W == 2)
            {
                if (n >= 2 && vp_split(bytes[0] == 0xFF) && vp_split(bytes[1] == 0xFE)) { skip = 2; big = false; }
                else if (n >= 2 && vp_split(bytes[0] == 0xFE) && vp_split(bytes[1] == 0xFF)) skip = 2;
            }
            else
            {
                if (n >= 4 && vp_split(bytes[0] == 0xFF) && vp_split(bytes[1] == 0xFE) && vp_split(bytes[2] == 0) && vp_split(bytes[3] == 0)) { skip = 4; big = false; }
                else if (n >= 4 && vp_split(bytes[0] == 0) && vp_split(bytes[1] == 0) && vp_split(bytes[2] == 0xFE) && vp_split(bytes[3] == 0xFF)) skip = 4;
            }
        }
        CHECK(b.size() == std::size_t((n - skip) / W), "wrong number of code units from raw bytes");
        for (int i = 0; i < (n - skip) / W; ++i)
        {
            std::uint32_t v = 0;
            for (int k = 0; k < W; ++k) v |= std::uint32_t(bytes[skip + i * W + k]) << (8 * (big ? W - 1 - k : k));
            CHECK(b.data()[i] == C(v), "wrong code unit from raw bytes");
        }
        if constexpr (sentinel<Enc>) CHECK(b.data()[b.size()] == Enc::eof(), "no end marker after raw bytes");
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
// copies of other inputs
template <typename Enc, int N> inline void from_input()
{
    vp_exact(); vp_cover_decl("done");
    Heap heap;
    Res  r1{&heap, 1}, r2{&heap, 2};
    Src<Enc, N> s;
    {
        switch (vp_choice(3))
        {
        case 0: { lexy::string_input<Enc> in(s.c, std::size_t(s.n)); auto b = lexy::make_buffer_from_input(in, &r1); same<Enc>(b, s.c, s.n); break; }
        case 1: { lexy::buffer<Enc, Res> in(s.c, std::size_t(s.n), &r2); auto b = lexy::make_buffer_from_input(in, &r1); same<Enc>(b, s.c, s.n); same<Enc>(in, s.c, s.n); break; }
        case 2: {
            struct It
            {
                using value_type = typename Enc::char_type; using difference_type = std::ptrdiff_t; using reference = const value_type&; using pointer = const value_type*; using iterator_category = std::forward_iterator_tag;
                const value_type* p = nullptr;
                reference operator*() const { return *p; }
                It& operator++() { ++p; return *this; }
                It operator++(int) { auto c = *this; ++p; return c; }
                bool operator==(const It& o) const { return p == o.p; }
                bool operator!=(const It& o) const { return p != o.p; }
            };
            lexy::range_input<Enc, It> in(It{s.c}, It{s.c + s.n});
            auto b = lexy::make_buffer_from_input(in, &r1);
            same<Enc>(b, s.c, s.n);
            break;
        }
        }
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
} // namespace
#define ENC(e, n) WITNESS(ctor_##e) { ctor<lexy::e##_encoding, n>(); } WITNESS(assign_##e) { assign<lexy::e##_encoding, 3>(); } WITNESS(plain_##e) { plain<lexy::e##_encoding, 3>(); } WITNESS(empty_##e) { empty<lexy::e##_encoding>(); } WITNESS(input_##e) { from_input<lexy::e##_encoding, n>(); }
ENC(default, 9) ENC(ascii, 17) ENC(utf8, 17) ENC(utf8_char, 17) ENC(utf16, 9) ENC(utf32, 9) ENC(byte, 9)
#define RAW(e, n) WITNESS(raw_##e##_little) { raw<lexy::e##_encoding, lexy::encoding_endianness::little, n>(); } WITNESS(raw_##e##_big) { raw<lexy::e##_encoding, lexy::encoding_endianness::big, n>(); }
#define RAWB(e, n) RAW(e, n) WITNESS(raw_##e##_bom) { raw<lexy::e##_encoding, lexy::encoding_endianness::bom, n>(); }
RAWB(utf8, 5) RAWB(utf8_char, 5) RAWB(utf16, 3) RAWB(utf32, 3) RAW(default, 3) RAW(ascii, 3)
