// The Unicode database: every run of code points on which Unicode 15.0 gives one answer must get that answer.
#ifndef LEXY_HAS_UNICODE_DATABASE
#    define LEXY_HAS_UNICODE_DATABASE 1
#endif
#include "acc.hpp"
#include "ucd.hpp"
#include <lexy/dsl/unicode.hpp>
#include <lexy/dsl/code_point.hpp>
namespace
{
using CP = lexy::code_point;
constexpr CP::general_category_t cats[] = {
#define X(c) CP::c,
    UCD_CATEGORIES(X)
#undef X
};
template <typename F, int N>
inline void each(const ucd::Run (&runs)[N], F f)
{
    vp_exact();
    vp_cover_decl("done");
    for (int i = 0; i < N; ++i)
        if (vp_choice(2))
        {
            auto cp = char32_t(vp_any_range(runs[i].lo, runs[i].hi));
            f(cp, runs[i].value);
            vp_cover("done");
            vp_stop();
        }
}
template <typename Rule>
struct prod { static constexpr auto rule = Rule{}; };
// A character class, through the parser, one code point of input.
template <typename Rule, int N>
inline void cls(const ucd::Run (&runs)[N])
{
    vp_retain(3); vp_maxlen(1); vp_exact();
    vp_cover_decl("done");
    for (int i = 0; i < N; ++i)
        if (vp_choice(2))
        {
            vp_tape(4, -1, 0);
            vp_tape_domain(runs[i].lo, runs[i].hi);
            auto     input = vp::tape_input<lexy::utf32_encoding>();
            vp_assume(!vp_at_end(input.data()));
            bool     surrogate = runs[i].lo >= 0xD800 && runs[i].hi <= 0xDFFF;
            vp::Log  log;
            bool     ok = vp::run<prod<Rule>>(input, log);
            if (runs[i].value && !surrogate)
            {
                bool in = !vp_split(input.data()[0] >= 0xD800 && input.data()[0] <= 0xDFFF);
                VP_CHECK("C24", ok == in, "code point of the class is not matched");
            }
            else VP_CHECK("C24", !ok, "code point outside of the class is matched");
            vp_cover("done");
            vp_stop();
        }
}
} // namespace
WITNESS(category) { each(ucd::category, [](char32_t cp, int v) { VP_CHECK("C24", CP(cp).general_category() == cats[v], "wrong general category"); }); }
WITNESS(fold) { each(ucd::fold, [](char32_t cp, int v) { VP_CHECK("C24", lexy::simple_case_fold(CP(cp)).value() == char32_t(cp + char32_t(v)), "wrong simple case folding"); }); }
#define IS(n) WITNESS(is_##n) { each(ucd::is_##n, [](char32_t cp, int v) { VP_CHECK("C24", CP(cp).is_##n() == bool(v), "wrong is_" #n); }); }
IS(control) IS(noncharacter) IS(private_use) IS(surrogate)
WITNESS(is_ascii_bmp_valid)
{
    vp_exact();
    vp_cover_decl("done");
    auto cp = char32_t(vp_any(32));
    VP_CHECK("C24", CP(cp).is_ascii() == (cp <= 0x7F), "is_ascii");
    VP_CHECK("C24", CP(cp).is_bmp() == (cp <= 0xFFFF), "is_bmp");
    VP_CHECK("C24", CP(cp).is_valid() == (cp <= 0x10FFFF), "is_valid");
    VP_CHECK("C24", CP(cp).is_scalar() == (cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF)), "is_scalar");
    VP_CHECK("C24", CP(cp).value() == cp, "value");
    VP_CHECK("C24", !CP().is_valid(), "default code point is valid");
    if (!(cp <= 0x10FFFF))
    {
        VP_CHECK("C24", CP(cp).general_category() == CP::Cn, "category of an invalid code point");
        VP_CHECK("C24", lexy::simple_case_fold(CP(cp)).value() == cp, "folding of an invalid code point");
    }
    vp_cover("done");
}
// the groups of categories
#define GROUP(n, ...) WITNESS(group_##n) { vp_exact(); vp_cover_decl("done"); int i = vp_choice(30); constexpr CP::general_category_t in[] = {__VA_ARGS__}; bool want = false; for (auto c : in) if (c == cats[i]) want = true; \
    VP_CHECK("C24", (cats[i] == CP::n) == want && (CP::n == cats[i]) == want && (cats[i] != CP::n) == !want && (CP::n != cats[i]) == !want, "wrong category group " #n); vp_cover("done"); }
GROUP(LC, CP::Lu, CP::Ll, CP::Lt) GROUP(L, CP::Lu, CP::Ll, CP::Lt, CP::Lm, CP::Lo) GROUP(M, CP::Mn, CP::Mc, CP::Me) GROUP(N, CP::Nd, CP::Nl, CP::No)
GROUP(P, CP::Pc, CP::Pd, CP::Ps, CP::Pe, CP::Pi, CP::Pf, CP::Po) GROUP(S, CP::Sm, CP::Sc, CP::Sk, CP::So) GROUP(Z, CP::Zs, CP::Zl, CP::Zp) GROUP(C, CP::Cc, CP::Cf, CP::Cs, CP::Co, CP::Cn)
#define CLS(n) WITNESS(cls_##n) { cls<std::decay_t<decltype(lexy::dsl::unicode::n)>>(ucd::is_##n); }
CLS(control) CLS(blank) CLS(newline) CLS(other_space) CLS(space) CLS(digit) CLS(lower) CLS(upper) CLS(alpha) CLS(alpha_digit) CLS(word) CLS(graph) CLS(print) CLS(character)
CLS(xid_start) CLS(xid_start_underscore) CLS(xid_continue)
WITNESS(cls_noncharacter) { cls<std::decay_t<decltype(lexy::dsl::code_point.noncharacter())>>(ucd::is_noncharacter); }
WITNESS(cls_gc_Co) { cls<std::decay_t<decltype(lexy::dsl::code_point.general_category<CP::Co>())>>(ucd::is_private_use); }
WITNESS(cls_gc_Cc) { cls<std::decay_t<decltype(lexy::dsl::code_point.general_category<CP::Cc>())>>(ucd::is_control); }
WITNESS(cls_gc_Nd) { cls<std::decay_t<decltype(lexy::dsl::code_point.general_category<CP::Nd>())>>(ucd::is_digit); }
