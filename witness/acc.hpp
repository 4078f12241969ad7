// Acceptance against a reference recogniser written from the documentation: for every input up to a length, the rule
// succeeds exactly when the reference does and stops at the same position.
#pragma once
#include "gen.hpp"
#include "val.hpp"
#include <lexy/callback.hpp>
namespace ref
{
// A cursor over the abstract input.
template <typename C>
struct Cur
{
    const C* p;
    bool     end() const { return vp_at_end(p); }
    unsigned peek() const { return unsigned(std::make_unsigned_t<C>(*p)); }
    // next code unit equals c
    bool is(unsigned c) const { return !end() && vp_split(peek() == c); }
    bool in(unsigned lo, unsigned hi) const { return !end() && vp_split(peek() >= lo && peek() <= hi); }
    bool eat(unsigned c)
    {
        if (!is(c)) return false;
        ++p;
        return true;
    }
    bool eat(unsigned lo, unsigned hi)
    {
        if (!in(lo, hi)) return false;
        ++p;
        return true;
    }
    bool eat(bool (*f)(unsigned))
    {
        if (end() || !vp_split(f(peek()))) return false;
        ++p;
        return true;
    }
    bool lit(const char* s)
    {
        auto q = *this;
        for (; *s; ++s)
            if (!q.eat(static_cast<unsigned char>(*s))) return false;
        p = q.p;
        return true;
    }
    bool any()
    {
        if (end()) return false;
        ++p;
        return true;
    }
};
using Ch = Cur<char>;
inline bool alpha(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(unsigned c) { return c >= '0' && c <= '9'; }
inline bool alnum(unsigned c) { return alpha(c) || digit(c); }
inline bool word(unsigned c) { return alnum(c) || c == '_'; }
inline bool xdigit(unsigned c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool blank(unsigned c) { return c == ' ' || c == '\t'; }
inline bool print(unsigned c) { return c >= 0x20 && c <= 0x7E; }
} // namespace ref
#ifndef ACC_CODE
#    define ACC_CODE "C12"
#endif
namespace vp
{
// The unit that stands for the end in encodings without a spare value is not part of valid input.
template <typename Enc>
inline void domain()
{
    if (std::is_same_v<Enc, lexy::ascii_encoding>) vp_tape_domain(0, 0x7F);
    else if (sizeof(typename Enc::char_type) == 1 && sizeof(typename Enc::int_type) == 1) vp_tape_domain(0, 0xFE);
    if (sizeof(typename Enc::char_type) == 4 && sizeof(typename Enc::int_type) == 4) vp_tape_domain(0, 0xFFFFFFFE);
}
template <typename Prod, bool Always, typename Input, typename Ref>
inline void accept_on(Input input, Ref ref)
{
    using C = typename decltype(input.reader())::encoding::char_type;
    vp_cover_decl("match");
    if (!Always) vp_cover_decl("no match");
    using U = std::conditional_t<std::is_same_v<C, unsigned char>, unsigned char, C>;
    ::ref::Cur<U> q{input.reader().position()};
    auto           res  = ref(q);
    bool           want = res == decltype(res)(!std::is_same_v<decltype(res), int>); // int: number of errors the parse recovers from, -1 if it fails
    Log            log;
    bool           ok  = run<Prod>(input, log);
    bool           got = ok && !log.errors;
    VP_CHECK(ACC_CODE, !got || want, "accepts an input the documented language rejects");
    VP_CHECK(ACC_CODE, got || !want, "rejects an input of the documented language");
    if (want) VP_CHECK(ACC_CODE, log.last == P(q.p), "stops at another position than documented");
    if constexpr (std::is_same_v<decltype(res), int>)
    {
        VP_CHECK(ACC_CODE, ok == (res >= 0), ok ? "recovers where it is documented to fail" : "fails where it is documented to recover");
        if (ok) VP_CHECK(ACC_CODE, int(log.errors) == (res > 2 ? 2 : res), "reports another number of errors than documented");
        if (ok) VP_CHECK(ACC_CODE, log.last == P(q.p), "recovers at another position than documented");
    }
    if (want) vp_cover("match");
    else if (!Always) vp_cover("no match");
}
template <typename Prod, typename Enc, bool Always = false, typename Ref>
inline void accept(int n, Ref ref)
{
    n += MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(typename Enc::char_type), -1, 0); // tape_input uses the same one
    domain<Enc>();
    accept_on<Prod, Always>(tape_input<Enc>(), ref);
}
// the same through the reader of lexy::buffer (sentinel, SWAR)
template <typename Prod, typename Enc, bool Always = false, typename Ref>
inline void accept_swar(int n, Ref ref)
{
    n += MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = sentinel_input<Enc>();
    domain<Enc>();
    accept_on<Prod, Always>(input, ref);
}
// long inputs over few characters: more than one word of a SWAR loop
template <typename Prod, typename Enc, bool Always = false, typename Ref>
inline void accept_long(int n, const char* chars, Ref ref)
{
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = sentinel_input<Enc>();
    vp_tape_domain(chars[0], chars[0]);
    for (++chars; *chars; ++chars) vp_tape_domain_add(*chars, *chars);
    accept_on<Prod, Always>(input, ref);
}
} // namespace vp
#define ACCL(name, enc, n, chars, always, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept_long<p_##name, lexy::enc##_encoding, always>(n, chars, [](auto& c) -> bool { __VA_ARGS__ }); }
// rule, encoding, bound, reference over cursor c
#define ACC(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept<p_##name, lexy::default_encoding>(n, [](ref::Ch& c) -> bool { __VA_ARGS__ }); }
#define ACCE(name, enc, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept<p_##name, lexy::enc##_encoding>(n, [](auto& c) -> bool { __VA_ARGS__ }); }
#define ACCS(name, enc, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept_swar<p_##name, lexy::enc##_encoding>(n, [](auto& c) -> bool { __VA_ARGS__ }); }
// the same for rules that match every input
#define ACCA(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept<p_##name, lexy::default_encoding, true>(n, [](ref::Ch& c) -> bool { __VA_ARGS__ }); }
#define ACCSA(name, enc, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept_swar<p_##name, lexy::enc##_encoding, true>(n, [](auto& c) -> bool { __VA_ARGS__ }); }
// the reference says how many errors the parse recovers from, or -1
#define ACCR(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept<p_##name, lexy::default_encoding>(n, [](ref::Ch& c) -> int { __VA_ARGS__ }); }
// the same for a production with more members
#define ACCP(name, n, prod, ...) WITNESS(name) { vp::accept<prod, lexy::default_encoding>(n, [](ref::Ch& c) -> bool { __VA_ARGS__ }); }
#define ACCRP(name, n, prod, ...) WITNESS(name) { vp::accept<prod, lexy::default_encoding>(n, [](ref::Ch& c) -> int { __VA_ARGS__ }); }
