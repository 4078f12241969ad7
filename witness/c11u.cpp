// Unicode case folding of literals, keywords, literal sets and symbol tables; Unicode classes across encodings.
#define ACC_CODE "C11"
#ifndef LEXY_HAS_UNICODE_DATABASE
#    define LEXY_HAS_UNICODE_DATABASE 1
#endif
#include "acc.hpp"
#include <lexy/dsl/case_folding.hpp>
#include <lexy/dsl/unicode.hpp>
#include <lexy/dsl/symbol.hpp>
using namespace ref;
namespace
{
#define CF dsl::unicode::simple_case_folding
// all code points that fold to cp, as far as the literals here need it
inline int variants(char32_t cp, char32_t (&v)[3])
{
    switch (cp)
    {
    case 'k': v[0] = 'k'; v[1] = 'K'; v[2] = 0x212A; return 3;
    case 's': v[0] = 's'; v[1] = 'S'; v[2] = 0x17F; return 3;
    case 0xDF: v[0] = 0xDF; v[1] = 0x1E9E; return 2;
    case 0xE5: v[0] = 0xE5; v[1] = 0xC5; v[2] = 0x212B; return 3;
    case 0xE4: v[0] = 0xE4; v[1] = 0xC4; return 2;
    case 0x10428: v[0] = 0x10428; v[1] = 0x10400; return 2;
    case 0x101: v[0] = 0x101; v[1] = 0x100; return 2;
    case '1': case '[': v[0] = cp; return 1;
    default: v[0] = cp; v[1] = cp - 32; return 2;
    }
}
template <typename C> inline bool eatcp(Cur<C>& c, char32_t cp)
{
    auto q = c;
    if constexpr (sizeof(C) == 4) { if (!q.eat(cp)) return false; }
    else if constexpr (sizeof(C) == 2)
    {
        if (cp < 0x10000) { if (!q.eat(cp)) return false; }
        else if (!q.eat(0xD800 + ((cp - 0x10000) >> 10)) || !q.eat(0xDC00 + ((cp - 0x10000) & 0x3FF))) return false;
    }
    else
    {
        if (cp < 0x80) { if (!q.eat(cp)) return false; }
        else if (cp < 0x800) { if (!q.eat(0xC0 + (cp >> 6)) || !q.eat(0x80 + (cp & 0x3F))) return false; }
        else if (cp < 0x10000) { if (!q.eat(0xE0 + (cp >> 12)) || !q.eat(0x80 + ((cp >> 6) & 0x3F)) || !q.eat(0x80 + (cp & 0x3F))) return false; }
        else if (!q.eat(0xF0 + (cp >> 18)) || !q.eat(0x80 + ((cp >> 12) & 0x3F)) || !q.eat(0x80 + ((cp >> 6) & 0x3F)) || !q.eat(0x80 + (cp & 0x3F))) return false;
    }
    c = q;
    return true;
}
template <typename C, typename... T> inline bool cf(Cur<C>& c, T... cps)
{
    auto     q = c;
    char32_t list[] = {char32_t(cps)...};
    for (auto cp : list)
    {
        char32_t v[3];
        int      n  = variants(cp, v);
        bool     ok = false;
        for (int i = 0; i < n && !ok; ++i) ok = eatcp(q, v[i]);
        if (!ok) return false;
    }
    c = q;
    return true;
}
template <typename Prod, typename Enc, typename Ref, typename... U>
inline void narrow(int n, Ref ref, U... units)
{
    using C = typename Enc::char_type;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(C), -1, 0);
    bool first = true;
    ((first ? vp_tape_domain(units, units) : vp_tape_domain_add(units, units), first = false), ...);
    vp::accept_on<Prod, false>(vp::tape_input<Enc>(), ref);
}
} // namespace
#define U_A 'k', 'K', 's', 'S', '!'
#define ACC8(name, n, rule_, body, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { narrow<p_##name, lexy::utf8_encoding>(n, [](auto& c) -> bool { body }, __VA_ARGS__); }
// one code point of every kind, all inputs in UTF-32 and UTF-16
ACCE(f32_k, utf32, 2, CF(LEXY_LIT("k")), return cf(c, 'k');)
ACCE(f32_ks, utf32, 5, CF(LEXY_LIT("ks1[")), return cf(c, 'k', 's', '1', '[');)
ACCE(f32_u, utf32, 4, CF((dsl::lit_cp<0xDF, 0xE5, 0x10428>)), return cf(c, 0xDF, 0xE5, 0x10428);)
ACCE(f16_k, utf16, 2, CF(LEXY_LIT("k")), return cf(c, 'k');)
ACCE(f16_ks, utf16, 3, CF(LEXY_LIT("ks")), return cf(c, 'k', 's');)
ACCE(f16_u, utf16, 4, CF((dsl::lit_cp<0xDF, 0xE5, 0x101>)), return cf(c, 0xDF, 0xE5, 0x101);)
ACCE(s32, utf32, 4, dsl::literal_set(CF(LEXY_LIT("k")), CF(LEXY_LIT("ks")), CF((dsl::lit_cp<'k', 's', 0xE5>)), CF(dsl::lit_cp<0x10428>)), return cf(c, 'k', 's', 0xE5) || cf(c, 'k', 's') || cf(c, 'k') || cf(c, 0x10428);)
ACCE(s16, utf16, 4, dsl::literal_set(CF(LEXY_LIT("k")), CF(LEXY_LIT("kst")), CF((dsl::lit_cp<0xE5>))), return cf(c, 'k', 's', 't') || cf(c, 'k') || cf(c, 0xE5);)
// multi-unit code points on a narrow alphabet
ACC8(f8_k, 4, CF(LEXY_LIT("k")), return cf(c, 'k');, U_A, 0xE2, 0x84, 0xAA, 0xC5, 0xBF)
ACC8(f8_u, 5, CF((dsl::lit_cp<0xE4, 's'>)), return cf(c, 0xE4, 's');, 's', 'S', 0xC3, 0xA4, 0x84, 0xC5, 0xBF)
ACC8(f8_d, 5, CF((dsl::lit_cp<0x10428>)), return cf(c, 0x10428);, 'a', 0xF0, 0x90, 0x90, 0xA8, 0x80, 0xC3)
// a two unit code point whose variant has three units
ACC8(f8_ss, 5, CF((dsl::lit_cp<0xDF, 'k'>)), return cf(c, 0xDF, 'k');, 'k', 'K', 0xC3, 0x9F, 0xE1, 0xBA, 0x9E)
ACC8(s8, 5, dsl::literal_set(CF((dsl::lit_cp<0xE4>)), CF((dsl::lit_cp<0xE4, 'k', 's'>)), CF(LEXY_LIT("k"))), return cf(c, 0xE4, 'k', 's') || cf(c, 0xE4) || cf(c, 'k');, 'k', 'K', 's', 0xC3, 0xA4, 0x84)
ACC8(s8b, 6, dsl::literal_set(CF((dsl::lit_cp<'k', 0xE4>)), CF((dsl::lit_cp<'k', 0xE4, 0xE5, 's'>))) + LEXY_LIT("!"), return (cf(c, 'k', 0xE4, 0xE5, 's') || cf(c, 'k', 0xE4)) && c.eat('!');, 'k', 's', 0xC3, 0xA4, 0x84, 0xA5, '!')
ACC8(s8br, 4, dsl::literal_set(CF((dsl::lit_cp<0xE4, 'k'>))) | dsl::lit_cp<0xE4>, return cf(c, 0xE4, 'k') || eatcp(c, 0xE4);, 'k', 'K', 0xC3, 0xA4, 0x84, '!')
ACC8(k8, 4, CF(LEXY_KEYWORD("ks", dsl::identifier(dsl::ascii::alpha))), auto q = c; if (!cf(q, 'k', 's')) return false; if (q.in('a', 'z') || q.in('A', 'Z')) return false; c = q; return true;, 'k', 'K', 's', 'S', '!', '1')
struct p_n16 { static constexpr auto rule = CF((dsl::lit_cp<0x10428, 'k'>)); };
WITNESS(f16_d) { narrow<p_n16, lexy::utf16_encoding>(4, [](auto& c) -> bool { return cf(c, 0x10428, 'k'); }, 'k', 'K', 0x212A, 0xD801, 0xDC28, 0xDC00); }
struct p_s16d { static constexpr auto rule = dsl::literal_set(CF((dsl::lit_cp<0x10428>)), CF((dsl::lit_cp<0x10428, 'k', 's'>)), CF((dsl::lit_cp<'k', 0x10428>))); };
WITNESS(s16d) { narrow<p_s16d, lexy::utf16_encoding>(4, [](auto& c) -> bool { return cf(c, 0x10428, 'k', 's') || cf(c, 0x10428) || cf(c, 'k', 0x10428); }, 'k', 'K', 's', 0xD801, 0xDC28, 0xDC00); }
// symbol tables
constexpr auto tab8 = lexy::symbol_table<int>.case_folding(CF).map(LEXY_LIT(u8"\u00e4"), 1).map(LEXY_LIT(u8"k"), 2).map(LEXY_LIT(u8"k\u00e4"), 3);
constexpr auto tab32 = lexy::symbol_table<int>.case_folding(CF).map(LEXY_LIT(U"\u00e4"), 1).map(LEXY_LIT(U"k"), 2).map(LEXY_LIT(U"k\u00e4"), 3);
struct p_sym8 { static constexpr auto rule = dsl::symbol<tab8>; };
struct p_sym32 { static constexpr auto rule = dsl::symbol<tab32>; };
WITNESS(sym8) { narrow<p_sym8, lexy::utf8_encoding>(4, [](auto& c) -> bool { return cf(c, 'k', 0xE4) || cf(c, 0xE4) || cf(c, 'k'); }, 'k', 'K', 0xC3, 0xA4, 0x84, '!'); }
WITNESS(sym32) { vp::accept<p_sym32, lexy::utf32_encoding>(3, [](auto& c) -> bool { return cf(c, 'k', 0xE4) || cf(c, 0xE4) || cf(c, 'k'); }); }
// Unicode classes in the other encodings: samples at the edges of the tables
ACC8(u8_alpha, 3, dsl::unicode::alpha, return c.eat('k') || eatcp(c, 0xAA) || eatcp(c, 0xBA) || eatcp(c, 0x2126) || eatcp(c, 0x212A);, 'k', '1', 0xC2, 0xAA, 0xBA, 0xA9, 0xE2, 0x84, 0xA6)
ACC8(u8_while, 5, dsl::while_(dsl::unicode::lower) + LEXY_LIT("!"), while (c.eat('k') || eatcp(c, 0xE4)) {} return c.eat('!');, 'k', 'K', 0xC3, 0xA4, 0x84, '!')
ACC8(u8_ident, 5, dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue), if (!(c.eat('_') || c.eat('k') || eatcp(c, 0xE4))) return false; while (c.eat('_') || c.eat('k') || eatcp(c, 0xE4) || c.eat('1') || eatcp(c, 0xB7)) {} return true;, '_', 'k', '1', 0xC3, 0xA4, 0xC2, 0xB7, '!')
ACC8(u8_minus, 3, dsl::unicode::alpha - dsl::unicode::lower, return c.eat('K') || eatcp(c, 0xC4) || eatcp(c, 0x5C4) || eatcp(c, 0x5E4);, 'k', 'K', '1', 0xC3, 0xA4, 0x84, 0xD7)
