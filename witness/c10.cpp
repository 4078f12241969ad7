// Integers: the exact value or an overflow error.
#include "val.hpp"
// the value of a digit, or radix if it is none
template <typename C>
static unsigned u(C c) { return sizeof(C) == 1 ? (unsigned char)c : unsigned(c); }
static unsigned dv(unsigned c, unsigned radix)
{
    // 1016 and 2016: upper and lower case hexadecimal only
    if (radix > 1000)
    {
        if (c >= '0' && c <= '9') return c - '0';
        unsigned a = radix == 1016 ? 'A' : 'a';
        return c >= a && c <= a + 5 ? c - a + 10 : radix;
    }
    if (c >= '0' && c <= '9' && c - '0' < radix) return c - '0';
    if (radix > 10 && c >= 'a' && c - 'a' + 10 < radix && c <= 'z') return c - 'a' + 10;
    if (radix > 10 && c >= 'A' && c - 'A' + 10 < radix && c <= 'Z') return c - 'A' + 10;
    return radix;
}
struct Num { uint64_t v; bool over; unsigned len; bool ok; };
// digits, optionally with a separator between them
template <typename C>
static Num ref(const C* p, unsigned radix, uint64_t max, int sep, unsigned limit = ~0u)
{
    Num n{0, false, 0, false};
    unsigned cls = radix;
    if (radix > 1000) radix = 16;
    uint64_t mr = max / radix; unsigned mm = unsigned(max % radix), got = 0;
    while (got < limit)
    {
        const C* q = p;
        if (sep >= 0 && got > 0 && !vp_at_end(q) && u(*q) == unsigned(sep)) ++q;
        if (vp_at_end(q)) { if (q != p) n.ok = false; break; }
        unsigned d = dv(u(*q), cls);
        if (vp_split(d >= radix)) { if (q != p) n.ok = false; break; }
        if (!n.over)
        {
            if (vp_split(n.v > mr)) n.over = true;
            else if (vp_split(n.v == mr) && vp_split(d > mm)) n.over = true;
            else n.v = n.v * radix + d;
        }
        n.len += unsigned(q - p) + 1; p = q + 1; ++got; n.ok = true;
    }
    if (limit != ~0u && got != limit) n.ok = false;
    return n;
}
template <typename Prod, bool Over = true, typename E = lexy::default_encoding>
static void number(unsigned radix, uint64_t max, int maxlen, int sep = -1, unsigned limit = ~0u)
{
    vp_retain(maxlen + 2); vp_maxlen(maxlen); vp_exact();
    auto input = vp::tape_input<E>(); auto reader = input.reader(); auto begin = reader.position();
    vp::Seen seen;
    auto r = vp::parse<Prod>(reader, seen);
    Num n = ref(begin, radix, max, sep, limit);
    vp_cover_decl("value"); if (Over) vp_cover_decl("overflow");
    if (!n.ok) // the digits are not well-formed: an error, and the value of the digits that were consumed
    {
        VP_CHECK("C10", seen.errors >= 1, "digits that are not well-formed are accepted without an error");
        if (!r.ok) return;
        Num m{0, false, 0, false};
        unsigned base = radix > 1000 ? 16 : radix;
        for (auto p = begin; vp_pos(p) != vp_pos(reader.position()); ++p)
        {
            unsigned d = dv(u(*p), radix);
            if (vp_split(d >= base)) continue; // a separator
            if (m.over) continue;
            if (vp_split(m.v > max / base)) m.over = true;
            else if (vp_split(m.v == max / base) && vp_split(d > unsigned(max % base))) m.over = true;
            else m.v = m.v * base + d;
        }
        if (m.over) VP_CHECK("C10", seen.errors >= 2, "an integer that does not fit is not reported after recovery");
        else
        {
            VP_CHECK("C10", seen.errors == 1, "an integer that fits is reported as overflow after recovery");
            VP_CHECK("C10", uint64_t(r.value) == m.v, "an integer has the wrong value after recovery");
        }
        return;
    }
    VP_CHECK("C10", r.ok, "an integer is not parsed although its digits are fine");
    VP_CHECK("C10", vp_pos(reader.position()) == vp_pos(begin + n.len), "an integer does not end after its digits");
    if (n.over)
    {
        VP_CHECK("C10", seen.errors >= 1, "an integer that does not fit is accepted without an error");
        vp_cover("overflow");
    }
    else
    {
        VP_CHECK("C10", seen.errors == 0, "an integer that fits is refused");
        VP_CHECK("C10", uint64_t(r.value) == n.v, "an integer has the wrong value");
        vp_cover("value");
    }
}

// only numbers of at least n digits that do not start with a zero
template <typename Prod>
static void longnumber(unsigned n, unsigned radix, uint64_t max, int maxlen)
{
    vp_retain(maxlen + 2); vp_maxlen(maxlen); vp_exact();
    auto b = static_cast<const char*>(vp_tape(1, -1, 0));
    for (unsigned i = 0; i < n; ++i)
    {
        vp_assume(!vp_at_end(b + i));
        unsigned d = dv((unsigned char)b[i], radix);
        vp_assume(vp_split(d < radix));
        if (i == 0) vp_assume(vp_split(d > 0));
    }
    number<Prod>(radix, max, maxlen);
}
#define P_INT(name, ...) struct p_##name { static constexpr auto rule = __VA_ARGS__; static constexpr auto value = lexy::as_integer<uint64_t>; };
#define INT(name, rule_, ...) P_INT(name, rule_) WITNESS(name) { number<p_##name>(__VA_ARGS__); }
#define INT0(name, rule_, ...) P_INT(name, rule_) WITNESS(name) { number<p_##name, false>(__VA_ARGS__); }
#define INTE(name, enc, rule_, ...) P_INT(name, rule_) WITNESS(name) { number<p_##name, true, lexy::enc##_encoding>(__VA_ARGS__); }
#define LONG(name, rule_, ...) P_INT(name, rule_) WITNESS(name) { longnumber<p_##name>(__VA_ARGS__); }
INT(u8, dsl::integer<std::uint8_t>, 10, 255, 5)
INT(i8, dsl::integer<std::int8_t>, 10, 127, 5)
INT(u16, dsl::integer<std::uint16_t>, 10, 65535, 7)
INT(i16, dsl::integer<std::int16_t>, 10, 32767, 7)
INT(c16, dsl::integer<char16_t>, 10, 65535, 7)
LONG(u32, dsl::integer<std::uint32_t>, 8, 10, 4294967295u, 12)
LONG(i32, dsl::integer<int>, 8, 10, 2147483647, 12)
INT0(i32_short, dsl::integer<int>, 10, 2147483647, 7)
LONG(u64, dsl::integer<std::uint64_t>, 18, 10, ~uint64_t(0), 21)
LONG(i64, dsl::integer<std::int64_t>, 17, 10, ~uint64_t(0) >> 1, 20)
LONG(ll, dsl::integer<long long>, 17, 10, ~uint64_t(0) >> 1, 20)
INT0(i64_short, dsl::integer<long long>, 10, ~uint64_t(0) >> 1, 7)
INT(u8_2, dsl::integer<std::uint8_t>(dsl::digits<dsl::binary>), 2, 255, 10)
INT(u8_8, dsl::integer<std::uint8_t>(dsl::digits<dsl::octal>), 8, 255, 5)
INT(u8_16, dsl::integer<std::uint8_t>(dsl::digits<dsl::hex>), 16, 255, 4)
INT(i8_16, dsl::integer<std::int8_t>(dsl::digits<dsl::hex>), 16, 127, 4)
INT(i8_2, dsl::integer<std::int8_t>(dsl::digits<dsl::binary>), 2, 127, 9)
INT(i16_8, dsl::integer<std::int16_t>(dsl::digits<dsl::octal>), 8, 32767, 7)
LONG(u32_8, dsl::integer<std::uint32_t>(dsl::digits<dsl::octal>), 10, 8, 4294967295u, 13)
INT(bounded200, (dsl::integer<lexy::bounded<std::uint8_t, 200>>), 10, 200, 5)
INT(bounded99, (dsl::integer<lexy::bounded<int, 99>>), 10, 99, 4)
INT(bounded100, (dsl::integer<lexy::bounded<int, 100>>), 10, 100, 5)
INT(bounded1000, (dsl::integer<lexy::bounded<std::uint16_t, 1000>>), 10, 1000, 6)
INT(bounded16, (dsl::integer<lexy::bounded<std::uint16_t, 0x123>>(dsl::digits<dsl::octal>)), 8, 0x123, 5)
// fixed digit counts
INT0(n2, dsl::integer<std::uint8_t>(dsl::n_digits<2>), 10, 255, 4, -1, 2)
INT(n3, dsl::integer<std::uint8_t>(dsl::n_digits<3>), 10, 255, 5, -1, 3)
INT(n4, dsl::integer<std::uint8_t>(dsl::n_digits<4>), 10, 255, 6, -1, 4)
INT0(n2_16, (dsl::integer<std::uint8_t>(dsl::n_digits<2, dsl::hex>)), 16, 255, 3, -1, 2)
INT(n2_16s, (dsl::integer<std::int8_t>(dsl::n_digits<2, dsl::hex>)), 16, 127, 3, -1, 2)
INT(n3_8, (dsl::integer<std::uint8_t>(dsl::n_digits<3, dsl::octal>)), 8, 255, 4, -1, 3)
// separators
INT(sep_u8, dsl::integer<std::uint8_t>(dsl::digits<>.sep(dsl::digit_sep_tick)), 10, 255, 6, '\'')
INT(sep_u8_16, dsl::integer<std::uint8_t>(dsl::digits<dsl::hex>.sep(dsl::digit_sep_underscore)), 16, 255, 5, '_')
INT(sep_u8_16u, dsl::integer<std::uint8_t>(dsl::digits<dsl::hex_upper>.sep(LEXY_LIT(":"))), 1016, 255, 5, ':')
INT(sep_u8_16l, dsl::integer<std::uint8_t>(dsl::digits<dsl::hex_lower>.sep(LEXY_LIT("G"))), 2016, 255, 5, 'G')
INT(sep_u8_2, dsl::integer<std::uint8_t>(dsl::digits<dsl::binary>.sep(LEXY_LIT("."))), 2, 255, 10, '.')
INT(sep_n3, dsl::integer<std::uint8_t>(dsl::n_digits<3>.sep(LEXY_LIT(" "))), 10, 255, 6, ' ', 3)
INT0(sep_n2, dsl::integer<std::uint8_t>(dsl::n_digits<2>.sep(LEXY_LIT("/"))), 10, 255, 6, '/', 2)
INT(sep_i16, dsl::integer<std::int16_t>(dsl::digits<>.sep(LEXY_LIT("x"))), 10, 32767, 8, 'x')

INT(u16_16l, dsl::integer<std::uint16_t>(dsl::digits<dsl::hex_lower>), 2016, 65535, 6)
INT(i16_16u, dsl::integer<std::int16_t>(dsl::digits<dsl::hex_upper>), 1016, 32767, 6)
INT(own_base, (dsl::integer<std::uint8_t, dsl::decimal>(dsl::token(dsl::digits<> + dsl::while_(dsl::lit_c<'.'> >> dsl::digits<>)))), 10, 255, 6, '.')
INTE(e16, utf16, dsl::integer<std::uint8_t>(dsl::digits<>.sep(dsl::digit_sep_tick)), 10, 255, 6, '\'')
INTE(e32, utf32, dsl::integer<std::uint8_t>(dsl::digits<dsl::hex>), 16, 255, 4)
INTE(e8, utf8, dsl::integer<std::int8_t>(dsl::digits<dsl::octal>), 8, 127, 5)
// as a branch
INT(br, (dsl::integer<std::uint8_t> | dsl::else_ >> dsl::error<tag> + dsl::integer<std::uint8_t>), 10, 255, 5)
// code points and code units by number
struct p_cpid4 { static constexpr auto rule = dsl::code_point_id<4>; static constexpr auto value = lexy::callback<uint64_t>([](lexy::code_point cp) { return uint64_t(cp.value()); }); };
struct p_cpid7 { static constexpr auto rule = dsl::code_point_id<7, dsl::decimal>; static constexpr auto value = p_cpid4::value; };
WITNESS(cpid4) { number<p_cpid4, false>(16, 0x10FFFF, 5, -1, 4); }
WITNESS(cpid7) { number<p_cpid7>(10, 0x10FFFF, 8, -1, 7); }
struct p_cuid2 { static constexpr auto rule = dsl::code_unit_id<lexy::utf8_encoding, 2>; static constexpr auto value = lexy::as_integer<uint64_t>; };
struct p_cuid3 { static constexpr auto rule = dsl::code_unit_id<lexy::utf8_encoding, 3>; static constexpr auto value = lexy::as_integer<uint64_t>; };
struct p_cuid16 { static constexpr auto rule = dsl::code_unit_id<lexy::utf16_encoding, 5, dsl::decimal>; static constexpr auto value = lexy::as_integer<uint64_t>; };
WITNESS(cuid2) { number<p_cuid2, false>(16, 255, 3, -1, 2); }
WITNESS(cuid3) { number<p_cuid3>(16, 255, 4, -1, 3); }
WITNESS(cuid16) { number<p_cuid16>(10, 65535, 6, -1, 5); }
// signs
template <typename Prod, bool Plus, bool Minus>
static void signed_()
{
    vp_retain(7); vp_maxlen(5); vp_exact();
    auto input = vp::tape_input<lexy::default_encoding>(); auto reader = input.reader(); auto begin = reader.position();
    vp::Seen seen;
    auto r = vp::parse<Prod>(reader, seen);
    int sign = 1, skip = 0;
    vp_cover_decl("value");
    if (!vp_at_end(begin)) { if (Plus && *begin == '+') skip = 1; else if (Minus && *begin == '-') { skip = 1; sign = -1; } }
    Num n = ref(begin + skip, 10, 127, -1);
    if (!n.ok) return;
    VP_CHECK("C10", r.ok, "a signed integer is not parsed although its digits are fine");
    if (n.over) { VP_CHECK("C10", seen.errors >= 1, "a signed integer that does not fit is accepted without an error"); return; }
    VP_CHECK("C10", seen.errors == 0, "a signed integer that fits is refused");
    VP_CHECK("C10", r.value == sign * int(n.v), "a signed integer has the wrong value");
    vp_cover("value");
}
struct p_sign { static constexpr auto rule = dsl::sign + dsl::integer<std::int8_t>; static constexpr auto value = lexy::as_integer<int>; };
struct p_minus { static constexpr auto rule = dsl::minus_sign + dsl::integer<std::int8_t>; static constexpr auto value = lexy::as_integer<int>; };
struct p_plus { static constexpr auto rule = dsl::plus_sign + dsl::integer<std::int8_t>; static constexpr auto value = lexy::as_integer<int>; };
WITNESS(sign) { signed_<p_sign, true, true>(); }
WITNESS(minus) { signed_<p_minus, false, true>(); }
WITNESS(plus) { signed_<p_plus, true, false>(); }
