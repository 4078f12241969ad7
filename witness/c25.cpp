// The library's callbacks and sinks build exactly the values they are given.
#include "acc.hpp"
#include <lexy/dsl.hpp>
#include <lexy/callback.hpp>
#include <lexy/input/string_input.hpp>
#define K(cond, msg) VP_CHECK("C25", cond, msg)
#define COVER vp_cover_decl("done"); vp_cover("done")
static int any() { return int(vp_any_range(0, 100)); }
// containers
template <bool Reserve>
struct VecBase
{
    int  n = 0, cap = 0;
    int  v[16] = {};
    bool moved = false;
    void chk() const { K(!moved, "a container is used after it was moved from"); }
    VecBase() = default;
    VecBase(const VecBase&) = default;
    VecBase& operator=(const VecBase&) = default;
    VecBase(VecBase&& o) : n(o.n), cap(o.cap) { o.chk(); for (int i = 0; i < n; ++i) v[i] = o.v[i]; o.moved = true; o.n = 0; }
    VecBase& operator=(VecBase&& o) { o.chk(); n = o.n; cap = o.cap; for (int i = 0; i < n; ++i) v[i] = o.v[i]; moved = false; o.moved = true; o.n = 0; return *this; }
    void push_back(int x) { chk(); K(n < 16, "too many elements"); v[n++] = x; }
    template <typename... A>
    void emplace_back(A... a) { int s = 0; ((s = s * 1000 + a), ...); push_back(s); }
    void insert(int x) { push_back(x); }
    template <typename... A>
    void emplace(A... a) { emplace_back(a...); }
    int* begin() { return v; }
    int* end() { return v + n; }
    bool empty() const { chk(); return n == 0; }
    std::size_t size() const { return std::size_t(n); }
};
struct Vec : VecBase<false> {};
struct VecR : VecBase<true>
{
    void reserve(std::size_t k) { chk(); if (int(k) > cap) cap = int(k); }
    std::size_t capacity() const { return std::size_t(cap); }
};
struct VecA : VecBase<false> // with an allocator
{
    struct allocator_type { int tag; };
    int tag = 0;
    VecA() = default;
    explicit VecA(allocator_type a) : tag(a.tag) {}
};
struct VecApp : VecBase<false>
{
    void append(VecApp&& o) { o.chk(); for (int i = 0; i < o.n; ++i) push_back(o.v[i]); o.moved = true; o.n = 0; }
};
template <typename V>
static void direct()
{
    int a = any(), b = any(), c = any();
    auto cb = lexy::as_list<V>;
    auto r = cb(a, b, c);
    K(r.n == 3 && r.v[0] == a && r.v[1] == b && r.v[2] == c, "as_list does not hold its arguments in order");
    auto r0 = cb(lexy::nullopt{}); K(r0.n == 0, "as_list of nothing is not empty");
    auto r1 = cb(static_cast<V&&>(r)); K(r1.n == 3 && r1.v[0] == a && r1.v[2] == c, "as_list changes a list it passes on");
    auto cc = lexy::as_collection<V>;
    auto s = cc(a, b, c);
    K(s.n == 3 && s.v[0] == a && s.v[1] == b && s.v[2] == c, "as_collection does not hold its arguments");
    auto s0 = cc(lexy::nullopt{}); K(s0.n == 0, "as_collection of nothing is not empty");
    auto s1 = cc(static_cast<V&&>(s)); K(s1.n == 3 && s1.v[0] == a && s1.v[2] == c, "as_collection changes a collection it passes on");
    COVER;
}
WITNESS(list_direct) { direct<Vec>(); }
WITNESS(list_direct_r) { direct<VecR>(); }
template <typename V, typename S>
static void sinks(S sink)
{
    int k = vp_choice(5), want[5];
    for (int i = 0; i < k; ++i)
    {
        int a = any(), b = any();
        if (vp_choice(2)) { sink(a, b); want[i] = a * 1000 + b; }
        else { sink(a); want[i] = a; }
    }
    V r = static_cast<S&&>(sink).finish();
    K(r.n == k, "a container sink does not hold as many elements as it was given");
    for (int i = 0; i < k; ++i) K(vp_split(r.v[i] == want[i]), "a container sink does not hold its elements in order");
    COVER;
}
WITNESS(list_sink) { sinks<Vec>(lexy::as_list<Vec>.sink()); }
WITNESS(coll_sink) { sinks<Vec>(lexy::as_collection<Vec>.sink()); }
WITNESS(list_sink_alloc) { auto s = lexy::as_list<VecA>.sink(VecA::allocator_type{7}); s(3); VecA r = static_cast<decltype(s)&&>(s).finish(); K(r.n == 1 && r.v[0] == 3, "as_list with an allocator loses elements"); K(r.tag == 7, "as_list does not use the allocator"); auto t = lexy::as_collection<VecA>.sink(VecA::allocator_type{8}); t(4); VecA u = static_cast<decltype(t)&&>(t).finish(); K(u.n == 1 && u.v[0] == 4 && u.tag == 8, "as_collection does not use the allocator"); auto d = lexy::as_list<VecA>(VecA::allocator_type{9}, 1, 2); K(d.n == 2 && d.v[0] == 1 && d.v[1] == 2 && d.tag == 9, "as_list with an allocator is wrong"); auto e = lexy::as_collection<VecA>(VecA::allocator_type{9}, 1, 2); K(e.n == 2 && e.v[0] == 1 && e.v[1] == 2 && e.tag == 9, "as_collection with an allocator is wrong"); COVER; }
// allocator from the parse state
struct St { int tag; };
WITNESS(list_alloc_state)
{
    St st{int(vp_any_range(1, 9))};
    auto fn = [](const St& s) { return VecA::allocator_type{s.tag}; };
    auto cb = lexy::as_list<VecA>.allocator(fn);
    auto s = cb.sink(st); s(1); s(2);
    VecA r = static_cast<decltype(s)&&>(s).finish();
    K(r.n == 2 && r.v[0] == 1 && r.v[1] == 2 && r.tag == st.tag, "as_list.allocator does not use the allocator of the state");
    auto d = cb[st](5, 6); K(d.n == 2 && d.v[0] == 5 && d.v[1] == 6 && d.tag == st.tag, "as_list.allocator is wrong");
    auto z = cb[st](lexy::nullopt{}); K(z.n == 0 && z.tag == st.tag, "as_list.allocator of nothing is wrong");
    auto cc = lexy::as_collection<VecA>.allocator(fn);
    auto t = cc.sink(st); t(1); t(2);
    VecA u = static_cast<decltype(t)&&>(t).finish();
    K(u.n == 2 && u.v[0] == 1 && u.v[1] == 2 && u.tag == st.tag, "as_collection.allocator does not use the allocator of the state");
    auto e = cc[st](5, 6); K(e.n == 2 && e.v[0] == 5 && e.v[1] == 6 && e.tag == st.tag, "as_collection.allocator is wrong");
    auto y = cc[st](lexy::nullopt{}); K(y.n == 0 && y.tag == st.tag, "as_collection.allocator of nothing is wrong");
    COVER;
}
// concat
template <typename V>
static V some(int k, int* want, int& n) { V v; if constexpr (requires { v.reserve(3u); }) v.reserve(std::size_t(vp_choice(3))); for (int i = 0; i < k; ++i) { int a = any(); v.push_back(a); want[n++] = a; } return v; }
template <typename V>
static void same(V& r, int* want, int n, const char* msg) { K(r.n == n, msg); for (int i = 0; i < n; ++i) K(vp_split(r.v[i] == want[i]), msg); }
template <typename V>
static void concat()
{
    int want[12], n = 0;
    auto s = lexy::concat<V>.sink();
    int  k = vp_choice(4);
    for (int i = 0; i < k; ++i) s(some<V>(vp_choice(3), want, n));
    V r = static_cast<decltype(s)&&>(s).finish();
    same(r, want, n, "concat does not hold all elements in order");
    COVER;
}
WITNESS(concat_sink) { concat<Vec>(); }
WITNESS(concat_sink_r) { concat<VecR>(); }
WITNESS(concat_sink_app) { concat<VecApp>(); }
template <typename V>
static void concat_direct()
{
    int want[12], n = 0;
    V a = some<V>(vp_choice(3), want, n); V b = some<V>(vp_choice(3), want, n); V c = some<V>(vp_choice(3), want, n);
    V r = lexy::concat<V>(static_cast<V&&>(a), static_cast<V&&>(b), static_cast<V&&>(c));
    same(r, want, n, "concat of arguments does not hold all elements in order");
    n = 0; V d = some<V>(vp_choice(3), want, n); V one = lexy::concat<V>(static_cast<V&&>(d)); same(one, want, n, "concat of one argument changes it");
    V e = lexy::concat<V>(lexy::nullopt{}); K(e.n == 0, "concat of nothing is not empty");
    COVER;
}
WITNESS(concat_dir) { concat_direct<Vec>(); }
WITNESS(concat_dir_r) { concat_direct<VecR>(); }
WITNESS(concat_dir_app) { concat_direct<VecApp>(); }
// collect
WITNESS(collect_c)
{
    auto s = lexy::collect<Vec>(lexy::callback<int>([](int a) { return a + 1; }, [](int a, int b) { return a * 1000 + b; })).sink();
    int k = vp_choice(4), want[4];
    for (int i = 0; i < k; ++i) { int a = any(), b = any(); if (vp_choice(2)) { s(a); want[i] = a + 1; } else { s(a, b); want[i] = a * 1000 + b; } }
    auto r = static_cast<decltype(s)&&>(s).finish();
    same(r, want, k, "collect does not hold the results in order");
    COVER;
}
static int calls;
WITNESS(collect_v)
{
    calls = 0;
    auto s = lexy::collect(lexy::callback([](int a) { K(a == calls, "collect calls the callback out of order"); ++calls; })).sink();
    int k = vp_choice(4);
    for (int i = 0; i < k; ++i) s(i);
    auto r = static_cast<decltype(s)&&>(s).finish();
    K(int(r) == k && calls == k, "collect does not count the calls");
    COVER;
}
// folds
WITNESS(fold_)
{
    auto s = lexy::fold<int>(5, [](int acc, int x) { return acc * 3 + x; }, [](int acc, int x, int y) { return acc + x * y; }).sink();
    int k = vp_choice(4), want = 5;
    for (int i = 0; i < k; ++i) { int a = any(); if (vp_choice(2)) { s(a); want = want * 3 + a; } else { s(i, 2); want = want + i * 2; } }
    K((static_cast<decltype(s)&&>(s).finish()) == want, "fold does not fold from the left");
    auto t = lexy::fold_inplace<int>([] { return 9; }, [](int& acc, int x) { acc = acc * 2 + x; }).sink();
    int w2 = 9, k2 = vp_choice(4);
    for (int i = 0; i < k2; ++i) { t(i); w2 = w2 * 2 + i; }
    K((static_cast<decltype(t)&&>(t).finish()) == w2, "fold_inplace does not fold from the left");
    auto c = lexy::count.sink(); int k3 = vp_choice(4);
    for (int i = 0; i < k3; ++i) { if (vp_choice(2)) c(i); else c(i, i); }
    K(int(static_cast<decltype(c)&&>(c).finish()) == k3, "count does not count the items");
    COVER;
}
// bind
struct Three { long operator()(int a, int b, int c) const { return a * 1000000l + b * 1000l + c; } long operator()(int a, int b) const { return a * 1000l + b; } using return_type = long; };
WITNESS(bind_)
{
    using namespace lexy::placeholders;
    int a = any(), b = any(), c = any(); Three f;
    K(vp_split(lexy::bind(Three{}, _3, _1, _2)(a, b, c) == f(c, a, b)), "bind does not reorder the values as its placeholders say");
    K(vp_split(lexy::bind(Three{}, 11, lexy::values)(a, b) == f(11, a, b)), "bind does not expand all values");
    K(vp_split(lexy::bind(Three{}, lexy::values, 12)(a, b) == f(a, b, 12)), "bind does not expand all values in place");
    K(vp_split(lexy::bind(Three{}, _2 || 13, _1, _3.or_default())(a) == f(13, a, 0)), "bind does not use the fallback of a missing value");
    K(vp_split(lexy::bind(Three{}, _1 || 14, _2 || 15)(lexy::nullopt{}, b) == f(14, b)), "bind does not use the fallback of an empty value");
    K(vp_split(lexy::bind(Three{}, _1 || 14, _2 || 15)(a, b) == f(a, b)), "bind uses the fallback although there is a value");
    K(vp_split(lexy::bind(Three{}, _2.map([](int x) { return x + 1; }), _1)(a, b) == f(b + 1, a)), "bind does not map a value");
    K(vp_split(lexy::bind(Three{}, _2.map([](int x) { return x + 1; }) || 16, _1)(a) == f(16, a)), "bind maps the fallback");
    K(vp_split(lexy::bind(Three{}, (_1 || 17).map([](int x) { return x + 2; }), _2)(a, b) == f(a + 2, b)), "bind does not map a value that has a fallback");
    K(vp_split(lexy::bind(Three{}, _1, lexy::parse_state)[c](a) == f(a, c)), "bind does not pass the parse state");
    K(vp_split(lexy::bind(Three{}, lexy::parse_state.map([](int x) { return x + 3; }), lexy::values)[c](a, b) == f(c + 3, a, b)), "bind does not map the parse state");
    COVER;
}
struct SinkA { using return_type = int; struct S { using return_type = int; int acc; void operator()(int x) { acc = acc * 2 + x; } int finish() && { return acc; } }; S sink(int a, int b) const { return S{a * 100 + b}; } };
WITNESS(bind_sink_)
{
    int st = any();
    auto bs = lexy::bind_sink(SinkA{}, lexy::parse_state, 3);
    auto s = bs.sink(st); s(1); s(2);
    K(vp_split(static_cast<decltype(s)&&>(s).finish() == ((st * 100 + 3) * 2 + 1) * 2 + 2), "bind_sink does not create the sink with the bound values");
    auto b2 = lexy::bind_sink(SinkA{}, 4, 5); auto t = b2.sink(); t(7);
    K(static_cast<decltype(t)&&>(t).finish() == 405 * 2 + 7, "bind_sink without state is wrong");
    COVER;
}
// objects
struct Agg { int x = -1, y = -2; bool z = false; };
struct Pt { int x, y; };
struct Ctor { int s; Ctor(int a, int b) : s(a * 1000 + b) {} Ctor(int a) : s(a) {} };
WITNESS(objects)
{
    int a = any(), b = any();
    auto p = lexy::construct<Pt>(a, b); K(vp_split(p.x == a && p.y == b), "construct does not pass the values in order");
    auto q = lexy::construct<Ctor>(a, b); K(vp_split(q.s == a * 1000 + b), "construct does not pass the values in order");
    auto q2 = lexy::construct<Ctor>(q); K(vp_split(q2.s == q.s), "construct changes a value it passes on");
    using mx = lexy::make_member_ptr<&Agg::x>; using my = lexy::make_member_ptr<&Agg::y>; using mz = lexy::make_member_ptr<&Agg::z>;
    auto g = lexy::as_aggregate<Agg>(my{}, a, mx{}, b); K(vp_split(g.y == a && g.x == b && !g.z), "as_aggregate does not assign the members");
    auto g0 = lexy::as_aggregate<Agg>(lexy::nullopt{}); K(g0.x == -1 && g0.y == -2, "as_aggregate of nothing is not the default");
    auto s = lexy::as_aggregate<Agg>.sink(); s(mz{}, true); s(mx{}, a); auto h = static_cast<decltype(s)&&>(s).finish(); K(vp_split(h.z && h.x == a && h.y == -2), "the as_aggregate sink does not assign the members");
    auto g2 = lexy::as_aggregate<Agg>(Agg{h}, my{}, b); K(vp_split(g2.z && g2.x == a && g2.y == b), "as_aggregate does not extend an aggregate");
    K(vp_split(lexy::forward<int>(a) == a) && lexy::constant(42)() == 42, "forward or constant returns another value");
    K(vp_split(lexy::as_integer<long>(lexy::minus_sign{}, a) == -a && lexy::as_integer<long>(lexy::plus_sign{}, a) == a && lexy::as_integer<long>(b) == b), "as_integer does not apply the sign");
    auto cb = lexy::callback<int>([](int x) { return x * 2; }) | lexy::callback<int>([](int x) { return x + 1; }) | lexy::callback<int>([](int x) { return x * 3; });
    K(vp_split(cb(a) == (a * 2 + 1) * 3), "composed callbacks are not applied from left to right");
    auto sc = lexy::as_list<Vec> >> lexy::callback<int>([](Vec&& v) { return v.n * 100 + v.v[0]; }) | lexy::callback<int>([](int x) { return x + 1; });
    auto t = sc.sink(); t(7); t(8); K(sc(static_cast<decltype(t)&&>(t).finish()) == 208, "a sink composed with callbacks gives another value");
    auto mf = lexy::mem_fn(&Pt::x); K(vp_split(mf(p) == a), "mem_fn reads another member");
    COVER;
}
// strings
template <typename Ch>
struct StrT
{
    int n = 0;
    Ch  v[24] = {};
    StrT() = default;
    template <typename It>
    StrT(It b, It e) { append(b, e); }
    StrT(const Ch* p, std::size_t k) { append(p, p + k); }
    void push_back(Ch c) { K(n < 24, "string too long"); v[n++] = c; }
    template <typename It>
    void append(It b, It e) { for (; b != e; ++b) push_back(Ch(*b)); }
    void append(StrT&& o) { for (int i = 0; i < o.n; ++i) push_back(o.v[i]); }
    void reserve(std::size_t) {}
    Ch& operator[](int i) { return v[i]; }
    const Ch* begin() const { return v; }
    const Ch* end() const { return v + n; }
    Ch* data() { return v; }
    std::size_t size() const { return std::size_t(n); }
};
using Str = StrT<char>;
static int utf8(char32_t c, unsigned* o)
{
    if (vp_split(c < 0x80)) { o[0] = c; return 1; }
    if (vp_split(c < 0x800)) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 0x3F); return 2; }
    if (vp_split(c < 0x10000)) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 0x3F); o[2] = 0x80 | (c & 0x3F); return 3; }
    o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 0x3F); o[2] = 0x80 | (c >> 6 & 0x3F); o[3] = 0x80 | (c & 0x3F); return 4;
}
static char32_t scalar() { char32_t c = char32_t(vp_any_range(0, 0x10FFFF)); vp_assume(!(c >= 0xD800 && c <= 0xDFFF)); return c; }
template <typename F>
static void str(const Str& s, int n, F at, const char* msg) { K(s.n == n, msg); for (int i = 0; i < n; ++i) K(vp_split((unsigned char)s.v[i] == (unsigned char)at(i)), msg); }
WITNESS(string_cp)
{
    char32_t c = scalar(); unsigned o[4]; int k = utf8(c, o);
    auto s = lexy::as_string<Str, lexy::utf8_char_encoding>(lexy::code_point(c));
    str(s, k, [&](int i) { return o[i]; }, "as_string does not encode a code point");
    COVER;
}
WITNESS(string_sink)
{
    char txt[4] = {char(vp_any(8)), char(vp_any(8)), char(vp_any(8)), char(vp_any(8))};
    unsigned o[4]; char32_t c = scalar(); int k = utf8(c, o);
    auto in = lexy::string_input<lexy::utf8_char_encoding>(txt, 3); auto r = in.reader();
    auto s = lexy::as_string<Str, lexy::utf8_char_encoding>.sink();
    s(txt[3]); r.bump(); auto from = r.position(); r.bump(); r.bump();
    s(lexy::lexeme(r, from)); s(lexy::code_point(c)); s(Str(txt, 2u)); s(txt, txt + 1); s('x');
    auto t = static_cast<decltype(s)&&>(s).finish();
    char want[12]; int n = 0; want[n++] = txt[3]; want[n++] = txt[1]; want[n++] = txt[2]; for (int i = 0; i < k; ++i) want[n++] = char(o[i]); want[n++] = txt[0]; want[n++] = txt[1]; want[n++] = txt[0]; want[n++] = 'x';
    str(t, n, [&](int i) { return want[i]; }, "the as_string sink does not append what it is given");
    COVER;
}
WITNESS(string_direct)
{
    char txt[3] = {char(vp_any(8)), char(vp_any(8)), char(vp_any(8))};
    auto in = lexy::string_input<lexy::utf8_char_encoding>(txt, 3); auto r = in.reader(); r.bump(); auto from = r.position(); r.bump(); r.bump();
    str(lexy::as_string<Str, lexy::utf8_char_encoding>(lexy::lexeme(r, from)), 2, [&](int i) { return txt[i + 1]; }, "as_string does not hold the lexeme");
    str(lexy::as_string<Str, lexy::utf8_char_encoding>(txt, txt + 3), 3, [&](int i) { return txt[i]; }, "as_string does not hold the range");
    str(lexy::as_string<Str, lexy::utf8_char_encoding>(Str(txt, 3u)), 3, [&](int i) { return txt[i]; }, "as_string does not pass on a string");
    str(lexy::as_string<Str, lexy::utf8_char_encoding>(lexy::nullopt{}), 0, [&](int i) { return 0; }, "as_string of nothing is not empty");
    COVER;
}
static unsigned fold1(unsigned char c) { return vp_split(c >= 'A' && c <= 'Z') ? c + 32 : c; }
WITNESS(string_fold)
{
    char txt[3] = {char(vp_any_range(0, 0xFE)), char(vp_any_range(0, 0xFE)), char(vp_any_range(0, 0xFE))}; int k = vp_choice(4);
    auto cb = lexy::as_string<Str, lexy::utf8_char_encoding>.case_folding(dsl::ascii::case_folding);
    str(cb(txt, txt + k), k, [&](int i) { return fold1((unsigned char)txt[i]); }, "as_string does not fold the case of ASCII letters only");
    auto s = cb.sink(); s(Str(txt, std::size_t(k))); str(static_cast<decltype(s)&&>(s).finish(), k, [&](int i) { return fold1((unsigned char)txt[i]); }, "the as_string sink does not fold the case");
    COVER;
}
